; Typed indexes: sorted sets of typed datums over the btree library.
;
; A tree's content is an array from keys (e,a,v) to the transaction stored with them, 0
; where there is none. The library is assumed to keep its items in ascending order:
; an~ is their number, aat~ the i-th, aidx~ an item's place, apos~ the place of a pivot.

(fun~ an~ ((Array TK_~ Int)) Int)
(fun~ aat~ ((Array TK_~ Int) Int Int) TK_~)
(fun~ aidx~ ((Array TK_~ Int) Int TK_~) Int)
(fun~ apos~ ((Array TK_~ Int) Int TK_~) Int)
(fun~ acnt~ ((Array TK_~ Int) Int Int Int VS~) Int)
(fun~ rng~ ((Array TK_~ Int) Int Int Int) Bool)

; the four orders: 1 EAV, 2 AEV, 3 AVE, 4 VAE
(define~ tlt~ ((o Int) (x TK_~) (y TK_~)) Bool
  (ite (= o 1) (or (< (tke~ x) (tke~ y)) (and (= (tke~ x) (tke~ y)) (or (< (tka~ x) (tka~ y)) (and (= (tka~ x) (tka~ y)) (< (tkv~ x) (tkv~ y))))))
  (ite (= o 2) (or (< (tka~ x) (tka~ y)) (and (= (tka~ x) (tka~ y)) (or (< (tke~ x) (tke~ y)) (and (= (tke~ x) (tke~ y)) (< (tkv~ x) (tkv~ y))))))
  (ite (= o 3) (or (< (tka~ x) (tka~ y)) (and (= (tka~ x) (tka~ y)) (or (< (tkv~ x) (tkv~ y)) (and (= (tkv~ x) (tkv~ y)) (< (tke~ x) (tke~ y))))))
               (or (< (tkv~ x) (tkv~ y)) (and (= (tkv~ x) (tkv~ y)) (or (< (tka~ x) (tka~ y)) (and (= (tka~ x) (tka~ y)) (< (tke~ x) (tke~ y))))))))))

; an item and its transaction
(define~ item~ ((c (Array TK_~ Int)) (k TK_~)) S_index_TypedDatum_~
  (mk_S_index_TypedDatum_~ (tke~ k) (tka~ k) (tkv~ k) (select c k)))

; the selections: 1 EA, 2 E, 3 AE, 4 A, 5 AV, 6 VA as in index.PartialIndex; 0 everything
(define~ tmatch~ ((m Int) (e Int) (a Int) (v VS~) (k TK_~)) Bool
  (and (=> (or (= m 1) (= m 2) (= m 3)) (= (tke~ k) e))
       (=> (or (= m 1) (= m 3) (= m 4) (= m 5) (= m 6)) (= (tka~ k) a))
       (=> (or (= m 5) (= m 6)) (= (tkv~ k) v))))

(axiom items aat~ (forall ((c (Array TK_~ Int)) (o Int) (i Int)) (! (=> (and (<= 0 i) (< i (an~ c))) (and (not (= 0 (select c (aat~ c o i)))) (= i (aidx~ c o (aat~ c o i))))) :pattern ((aat~ c o i)))))
(axiom places aidx~ (forall ((c (Array TK_~ Int)) (o Int) (k TK_~)) (! (=> (not (= 0 (select c k))) (and (<= 0 (aidx~ c o k)) (< (aidx~ c o k) (an~ c)) (= k (aat~ c o (aidx~ c o k))))) :pattern ((aidx~ c o k)))))
(axiom ascending aat~ (forall ((c (Array TK_~ Int)) (o Int) (i Int) (j Int)) (! (=> (and (<= 1 o) (<= o 4) (<= 0 i) (< i j) (< j (an~ c))) (tlt~ o (aat~ c o i) (aat~ c o j))) :pattern ((aat~ c o i) (aat~ c o j)))))
(axiom pivot apos~ (forall ((c (Array TK_~ Int)) (o Int) (p TK_~)) (! (and (<= 0 (apos~ c o p)) (<= (apos~ c o p) (an~ c))) :pattern ((apos~ c o p)))))
(axiom pivotBelow apos~ (forall ((c (Array TK_~ Int)) (o Int) (p TK_~) (i Int)) (! (=> (and (<= 1 o) (<= o 4) (<= 0 i) (< i (an~ c))) (= (< i (apos~ c o p)) (tlt~ o (aat~ c o i) p))) :pattern ((apos~ c o p) (aat~ c o i)))))
(axiom size an~ (forall ((c (Array TK_~ Int))) (! (and (<= 0 (an~ c)) (okInt64 (an~ c))) :pattern ((an~ c)))))
; acnt~ is the number of items that match; it is n where they are the n items from lo on
(axiom ranges rng~ (forall ((c (Array TK_~ Int)) (o Int) (lo Int) (n Int)) (! (rng~ c o lo n) :pattern ((rng~ c o lo n)))))
(axiom counting acnt~ (forall ((c (Array TK_~ Int)) (o Int) (lo Int) (n Int) (m Int) (e Int) (a Int) (v VS~)) (! (=> (and (<= 1 o) (<= o 4) (<= 0 lo) (<= 0 n) (<= (+ lo n) (an~ c)) (forall ((i Int)) (! (=> (and (<= 0 i) (< i (an~ c))) (= (tmatch~ m e a v (aat~ c o i)) (and (<= lo i) (< i (+ lo n))))) :pattern ((aat~ c o i))))) (= (acnt~ c m e a v) n)) :pattern ((acnt~ c m e a v) (rng~ c o lo n)))))

(component "B.C.R" (Array Int (Array TK_R Int)))
(component "B.C.I" (Array Int (Array TK_I Int)))
(component "B.ord" (Array Int Int))
(component "P.index_btreeIndex_R.tree" (Array Int Int))
(component "P.index_btreeIndex_I.tree" (Array Int Int))
(trusted "github.com/google/btree: a BTreeG is a sorted set under its less function; Clone copies; AscendGreaterOrEqual visits, in order, the items not less than the pivot")

(macro~ tree~ (ix) (select (heap "P.index_btreeIndex_~.tree") ix))
(macro~ CC~ (ix) (select (heap "B.C.~") (tree~ ix)))
(macro~ OO~ (ix) (select (heap "B.ord") (tree~ ix)))
(macro~ tk~ (d) (mkTK~ (S_index_TypedDatum_~.E d) (S_index_TypedDatum_~.A d) (S_index_TypedDatum_~.V d)))
(macro~ tix~ (ix) (and (< 0 ix) (allocated ix) (< 0 (tree~ ix)) (allocated (tree~ ix)) (<= 1 (OO~ ix)) (<= (OO~ ix) 4)
  (forall ((k TK_~)) (! (<= 0 (select (CC~ ix) k)) :pattern ((select (CC~ ix) k))))))

; ---- orders and comparers ----

(fnconst ordof "index.LessEAV" 1)
(fnconst ordof "index.LessAEV" 2)
(fnconst ordof "index.LessAVE" 3)
(fnconst ordof "index.LessVAE" 4)

(func "index.LessEAV" (inst string int64 uint64 float64) (props C03 C05) (contract (x y) (r) (ensures order (= r (tlt~ 1 (tk~ x) (tk~ y))))))
(func "index.LessAEV" (inst string int64 uint64 float64) (props C03 C05) (contract (x y) (r) (ensures order (= r (tlt~ 2 (tk~ x) (tk~ y))))))
(func "index.LessAVE" (inst string int64 uint64 float64) (props C03 C05) (contract (x y) (r) (ensures order (= r (tlt~ 3 (tk~ x) (tk~ y))))))
(func "index.LessVAE" (inst string int64 uint64 float64) (props C03 C05) (contract (x y) (r) (ensures order (= r (tlt~ 4 (tk~ x) (tk~ y))))))

; ---- typed indexes ----

(contract "index.TypedIndex.Find" (ix d) (r)
  (requires ok (tix~ ix))
  (ensures found (= r (not (= 0 (select (CC~ ix) (tk~ d)))))))

(contract "index.TypedIndex.Insert" (ix d) (r)
  (requires ok (tix~ ix))
  (requires tx (< 0 (S_index_TypedDatum_~.T d)))
  (ensures found (= r (not (= 0 (select (old (CC~ ix)) (tk~ d))))))
  (ensures put (= (CC~ ix) (ite (= 0 (select (old (CC~ ix)) (tk~ d))) (store (old (CC~ ix)) (tk~ d) (S_index_TypedDatum_~.T d)) (old (CC~ ix)))))
  (modifies ("B.C.~" (tree~ ix))))

(contract "index.TypedIndex.Delete" (ix d) (r)
  (requires ok (tix~ ix))
  (ensures found (= r (not (= 0 (select (old (CC~ ix)) (tk~ d))))))
  (ensures drop (= (CC~ ix) (store (old (CC~ ix)) (tk~ d) 0)))
  (modifies ("B.C.~" (tree~ ix))))

(contract "index.TypedIndex.Clone" (ix) (r)
  (requires ok (tix~ ix))
  (ensures new (and (<= (old nref) r) (< r nref) (<= (old nref) (tree~ r)) (< (tree~ r) nref)))
  (ensures same (and (= (CC~ r) (old (CC~ ix))) (= (OO~ r) (old (OO~ ix)))))
  (modifies @alloc ("B.C.~" @fresh) ("B.ord" @fresh) ("P.index_btreeIndex_~.tree" @fresh)))

(contract "index.NewBTreeIndex" (degree lesser) (r)
  (requires degree (< 1 degree))
  (requires lesser (and (<= 1 (ordof lesser)) (<= (ordof lesser) 4)))
  (ensures new (and (<= (old nref) r) (< r nref) (<= (old nref) (tree~ r)) (< (tree~ r) nref)))
  (ensures empty (= (CC~ r) (constarr (Array TK_~ Int) 0)))
  (ensures order (= (OO~ r) (ordof lesser)))
  (modifies @alloc ("B.C.~" @fresh) ("B.ord" @fresh) ("P.index_btreeIndex_~.tree" @fresh)))

; the datum made of an item
(macro~ dat~ (valuer c k) (mk types.Datum (tke~ k) (tka~ k) (fapp valuer (tkv~ k)) (select c k)))
(macro~ nth~ (ix j) (aat~ (CC~ ix) (OO~ ix) j))
(macro~ place~ (ix k) (aidx~ (CC~ ix) (OO~ ix) k))
(macro~ lo~ (ix d) (apos~ (CC~ ix) (OO~ ix) (tk~ d)))
(macro~ pure~ (comparer valuer d) (and (< 0 comparer)
  (forall ((k S_index_TypedDatum_~)) (and (fsafe comparer d k) (<= -1 (fapp comparer d k)) (<= (fapp comparer d k) 1)))))

(contract "index.TypedIndex.Select" (ix comparer valuer d) (q)
  (requires ok (tix~ ix))
  (requires comparer (pure~ comparer valuer d))
  (requires valuer (and (< 0 valuer) (forall ((v VS~)) (fsafe valuer v))))
  (ensures some (< 0 q))
  (ensures length :C03 :C04 (and (<= 0 (qn q)) (<= (+ (lo~ ix d) (qn q)) (an~ (CC~ ix))) (rng~ (CC~ ix) (OO~ ix) (lo~ ix d) (qn q))))
  (ensures placed :C03 :C04 (forall ((k TK_~)) (! (=> (not (= 0 (select (CC~ ix) k)))
     (and (<= 0 (place~ ix k)) (< (place~ ix k) (an~ (CC~ ix))) (= k (nth~ ix (place~ ix k)))
       (=> (and (<= (lo~ ix d) (place~ ix k)) (< (place~ ix k) (+ (lo~ ix d) (qn q)))) (= (qat q (- (place~ ix k) (lo~ ix d))) (dat~ valuer (CC~ ix) k))))) :pattern ((select (CC~ ix) k)))))
  (ensures items :C03 :C04 :C05 :C11 :C17 (forall ((i Int)) (! (=> (and (<= 0 i) (< i (qn q)))
     (and (= (qat q i) (dat~ valuer (CC~ ix) (nth~ ix (+ (lo~ ix d) i))))
          (= 0 (fapp comparer d (item~ (CC~ ix) (nth~ ix (+ (lo~ ix d) i))))))) :pattern ((qat q i)))))
  (ensures all :C03 :C04 (=> (< (+ (lo~ ix d) (qn q)) (an~ (CC~ ix)))
     (not (= 0 (fapp comparer d (item~ (CC~ ix) (nth~ ix (+ (lo~ ix d) (qn q))))))))))

(contract "index.TypedIndex.Count" (ix comparer d) (n)
  (requires ok (tix~ ix))
  (requires comparer (pure~ comparer 0 d))
  (ensures length (and (<= 0 n) (<= (+ (lo~ ix d) n) (an~ (CC~ ix))) (rng~ (CC~ ix) (OO~ ix) (lo~ ix d) n)))
  (ensures items (forall ((i Int)) (! (=> (and (<= (lo~ ix d) i) (< i (+ (lo~ ix d) n)))
          (= 0 (fapp comparer d (item~ (CC~ ix) (nth~ ix i))))) :pattern ((nth~ ix i)))))
  (ensures all (=> (< (+ (lo~ ix d) n) (an~ (CC~ ix)))
     (not (= 0 (fapp comparer d (item~ (CC~ ix) (nth~ ix (+ (lo~ ix d) n)))))))))

(contract "index.TypedIndex.First" (ix comparer valuer d) (m found)
  (requires ok (tix~ ix))
  (requires comparer (pure~ comparer valuer d))
  (requires valuer (and (< 0 valuer) (forall ((v VS~)) (fsafe valuer v))))
  (ensures found (= found (and (< (lo~ ix d) (an~ (CC~ ix))) (= 0 (fapp comparer d (item~ (CC~ ix) (nth~ ix (lo~ ix d))))))))
  (ensures placed (forall ((k TK_~)) (! (=> (not (= 0 (select (CC~ ix) k)))
     (and (<= 0 (place~ ix k)) (< (place~ ix k) (an~ (CC~ ix))) (= k (nth~ ix (place~ ix k))))) :pattern ((select (CC~ ix) k)))))
  (ensures first (=> found (= m (dat~ valuer (CC~ ix) (nth~ ix (lo~ ix d))))))
  (ensures none (=> (not found) (= m (zero types.Datum)))))

(func "index.NewBTreeIndex" (inst string int64 uint64 float64) (contract "index.NewBTreeIndex"))
(func "index.(*btreeIndex).Find" (inst string int64 uint64 float64) (contract "index.TypedIndex.Find"))
(func "index.(*btreeIndex).Insert" (inst string int64 uint64 float64) (contract "index.TypedIndex.Insert"))
(func "index.(*btreeIndex).Delete" (inst string int64 uint64 float64) (contract "index.TypedIndex.Delete"))
(func "index.(*btreeIndex).Clone" (inst string int64 uint64 float64) (contract "index.TypedIndex.Clone"))
(func "index.(*btreeIndex).Select" (inst string int64 uint64 float64) (contract "index.TypedIndex.Select")
  (loop 1
    (inv count (= $yn $i))
    (inv seen (forall ((i Int)) (! (=> (and (<= 0 i) (< i $i))
       (and (= (select $ytr i) (dat~ valuer $c (aat~ $c $ord (+ $lo i))))
            (= 0 (fapp comparer d (item~ $c (aat~ $c $ord (+ $lo i))))))) :pattern ((select $ytr i)))))))
(func "index.(*btreeIndex).Count" (inst string int64 uint64 float64) (contract "index.TypedIndex.Count")
  (loop 1
    (inv count (= $count $i))
    (inv seen (forall ((i Int)) (! (=> (and (<= $lo i) (< i (+ $lo $i)))
            (= 0 (fapp comparer d (item~ $c (aat~ $c $ord i))))) :pattern ((aat~ $c $ord i)))))))
(func "index.(*btreeIndex).First" (inst string int64 uint64 float64) (contract "index.TypedIndex.First")
  (loop 1 (inv at (= $i 0)) (inv none (= $extant false)) (inv none2 (= $match (zero types.Datum)))))
