; Merging the four typed sub-sequences of an entity.

(define eaLE ((x S_types_Datum) (y S_types_Datum)) Bool
  (or (< (S_types_Datum.E x) (S_types_Datum.E y)) (and (= (S_types_Datum.E x) (S_types_Datum.E y)) (<= (S_types_Datum.A x) (S_types_Datum.A y)))))
; where an element of a merge comes from: sequence and place; and where an element went
(fun mS (Int Int) Int)
(fun mJ (Int Int) Int)
(fun mO (Int Int Int) Int)

(macro sorted (q) (forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j (qn q))) (eaLE (qat q i) (qat q j))) :pattern ((qat q i) (qat q j)))))
(macro went (r q s) (forall ((j Int)) (! (=> (and (<= 0 j) (< j (qn q))) (and (<= 0 (mO r s j)) (< (mO r s j) (qn r)) (= s (mS r (mO r s j))) (= j (mJ r (mO r s j))) (= (qat r (mO r s j)) (qat q j)))) :pattern ((qat q j)))))
(macro came (r q s) (forall ((o Int)) (! (=> (and (<= 0 o) (< o (qn r)) (= s (mS r o))) (and (<= 0 (mJ r o)) (< (mJ r o) (qn q)) (= (qat r o) (qat q (mJ r o))))) :pattern ((qat r o)))))

(contract "index.mergeEAV" (seqs) (r)
  (requires four (= (len seqs) 4))
  (requires some (and (< 0 (idx seqs 0)) (< 0 (idx seqs 1)) (< 0 (idx seqs 2)) (< 0 (idx seqs 3))))
  (requires lengths (and (<= 0 (qn (idx seqs 0))) (<= 0 (qn (idx seqs 1))) (<= 0 (qn (idx seqs 2))) (<= 0 (qn (idx seqs 3)))))
  (requires sorted (and (sorted (idx seqs 0)) (sorted (idx seqs 1)) (sorted (idx seqs 2)) (sorted (idx seqs 3))))
  (ensures some (< 0 r))
  (ensures length (= (qn r) (+ (qn (idx seqs 0)) (qn (idx seqs 1)) (qn (idx seqs 2)) (qn (idx seqs 3)))))
  (ensures from (forall ((o Int)) (! (=> (and (<= 0 o) (< o (qn r))) (and (<= 0 (mS r o)) (< (mS r o) 4))) :pattern ((qat r o)))))
  (ensures came (and (came r (idx seqs 0) 0) (came r (idx seqs 1) 1) (came r (idx seqs 2) 2) (came r (idx seqs 3) 3)))
  (ensures went (and (went r (idx seqs 0) 0) (went r (idx seqs 1) 1) (went r (idx seqs 2) 2) (went r (idx seqs 3) 3)))
  (ensures order (forall ((o Int) (p Int)) (! (=> (and (<= 0 o) (< o p) (< p (qn r))) (and (eaLE (qat r o) (qat r p)) (=> (= (mS r o) (mS r p)) (< (mJ r o) (mJ r p))))) :pattern ((qat r o) (qat r p)))))
  (modifies @alloc))

(macro pos (s) (select (heap "PL.pos") (idx $nexts s)))
(macro used (s) (ite (idx $have s) (- (pos s) 1) (pos s)))
(macro head (seqs s) (and (=> (idx $have s) (and (<= 1 (pos s)) (<= (pos s) (qn (idx seqs s))) (= (idx $heads s) (qat (idx seqs s) (- (pos s) 1)))))
   (=> (not (idx $have s)) (= (pos s) (qn (idx seqs s))))))
(macro done (seqs s) (and (<= 0 (used s)) (forall ((j Int)) (! (=> (and (<= 0 j) (< j (used s))) (and (<= 0 (select (select $S s) j)) (< (select (select $S s) j) $yn) (= s (select $W (select (select $S s) j))) (= j (select $J (select (select $S s) j))))) :pattern ((select (select $S s) j)) :pattern ((qat (idx seqs s) j))))))
(macro from (seqs s) (forall ((o Int)) (! (=> (and (<= 0 o) (< o $yn) (= s (select $W o))) (and (<= 0 (select $J o)) (< (select $J o) (used s)) (= (select $ytr o) (qat (idx seqs s) (select $J o))))) :pattern ((select $ytr o)) :pattern ((select $W o)))))
(macro below (seqs s) (forall ((o Int)) (! (=> (and (<= 0 o) (< o $yn) (idx $have s)) (eaLE (select $ytr o) (idx $heads s))) :pattern ((select $ytr o)))))

(func "index.mergeEAV" (contract "index.mergeEAV")
  (local nexts "[]func() (types.Datum, bool)")
  (local heads "[]types.Datum")
  (local have "[]bool")
  (local best "int" last)
  (yghost W "(Array Int Int)" (constarr (Array Int Int) 0) (store $W $yn $best))
  (yghost J "(Array Int Int)" (constarr (Array Int Int) 0) (store $J $yn (- (select (heap "PL.pos") (idx $nexts $best)) 1)))
  (yghost S "(Array Int (Array Int Int))" (constarr (Array Int (Array Int Int)) (constarr (Array Int Int) 0)) (store $S $best (store (select $S $best) (- (select (heap "PL.pos") (idx $nexts $best)) 1) $yn)))
  (link mS W) (link mJ J) (link mO S)
  (loop 1 unroll)
  (loop 2
    (inv heads (and (head seqs 0) (head seqs 1) (head seqs 2) (head seqs 3)))
    (inv count (= $yn (+ (used 0) (used 1) (used 2) (used 3))))
    (inv done (and (done seqs 0) (done seqs 1) (done seqs 2) (done seqs 3)))
    (inv whence (forall ((o Int)) (! (=> (and (<= 0 o) (< o $yn)) (and (<= 0 (select $W o)) (< (select $W o) 4))) :pattern ((select $W o)) :pattern ((select $ytr o)))))
    (inv from (and (from seqs 0) (from seqs 1) (from seqs 2) (from seqs 3)))
    (inv below (and (below seqs 0) (below seqs 1) (below seqs 2) (below seqs 3)))
    (inv order (forall ((o Int) (p Int)) (! (=> (and (<= 0 o) (< o p) (< p $yn)) (and (eaLE (select $ytr o) (select $ytr p)) (=> (= (select $W o) (select $W p)) (< (select $J o) (select $J p))))) :pattern ((select $ytr o) (select $ytr p))))))
  (loop 3 unroll))
