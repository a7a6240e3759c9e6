; Snapshots: three indexes of the same datums, with the idents and attributes known then.

; the entity that holds a unique value, 0 where there is none
(fun uent ((Array Key Int) Int Any) Int)
(axiom holder uent (forall ((c (Array Key Int)) (a Int) (v Any) (e Int)) (! (=> (not (= 0 (select c (mkK e a v)))) (not (= 0 (select c (mkK (uent c a v) a v))))) :pattern ((uent c a v) (select c (mkK e a v))))))
(axiom holder0 uent (forall ((c (Array Key Int)) (a Int) (v Any)) (! (or (= 0 (uent c a v)) (not (= 0 (select c (mkK (uent c a v) a v))))) :pattern ((uent c a v)))))

; two contents that agree on the keys that match have as many of them
(axiom recount mcnt (forall ((c (Array Key Int)) (d (Array Key Int)) (m Int) (e Int) (a Int) (v Any)) (! (=> (forall ((k Key)) (! (=> (kmatch m e a v k) (= (= 0 (select c k)) (= 0 (select d k)))) :pattern ((select c k)))) (= (mcnt c m e a v) (mcnt d m e a v))) :pattern ((mcnt c m e a v) (mcnt d m e a v)))))
; a strictly ascending enumeration of the keys that match is as long as they are many
(axiom enumeration mcnt (forall ((c (Array Key Int)) (m Int) (e Int) (a Int) (v Any) (q Int)) (! (=> (and (<= 0 (qn q))
    (forall ((i Int)) (! (=> (and (<= 0 i) (< i (qn q))) (and (not (= 0 (select c (dkeyof (qat q i))))) (kmatch m e a v (dkeyof (qat q i))))) :pattern ((qat q i))))
    (forall ((k Key)) (! (=> (and (not (= 0 (select c k))) (kmatch m e a v k)) (exists ((i Int)) (! (and (<= 0 i) (< i (qn q)) (= k (dkeyof (qat q i)))) :pattern ((qat q i))))) :pattern ((select c k))))
    (ascending q)) (= (mcnt c m e a v) (qn q))) :pattern ((mcnt c m e a v) (qn q)))))

(macro C (s) (select (heap "G.D") (. s eav)))
(macro sinv (s) (and (< 0 s) (allocated s)
  (cinv (. s eav)) (cinv (. s aev)) (cinv (. s ave)) (= 1 (ORD (. s eav))) (= 2 (ORD (. s aev))) (= 3 (ORD (. s ave)))
  (= (select (heap "G.D") (. s eav)) (select (heap "G.D") (. s aev)))
  (< 0 (. s attrs)) (< 0 (. s idents)) (not (mhas (. s attrs) 0))
  (forall ((k Key)) (! (= (D (. s ave) k) (ite (= 0 (uniq s (k_a k))) 0 (D (. s eav) k))) :pattern ((D (. s ave) k)) :pattern ((D (. s eav) k))))
  (forall ((k Key) (l Key)) (! (=> (and (not (= 0 (D (. s eav) k))) (not (= 0 (D (. s eav) l))) (= (k_a k) (k_a l)) (= (k_v k) (k_v l)) (not (= 0 (uniq s (k_a k))))) (= k l)) :pattern ((D (. s eav) k) (D (. s eav) l))))))
(macro uniq (s a) (. (mget (. s attrs) a) Unique))

; what references mean
(macro aref (s a) (ite ((_ is VID) a) (v_id a) (ite ((_ is VIdent) a) (mget (. s idents) (v_ident a)) 0)))
(macro lookup (s a v) (ite (= 0 (uniq s (aref s a))) 0 (uent (C s) (aref s a) (canonv v))))
(macro ref (s r) (ite ((_ is VID) r) (v_id r) (ite ((_ is VIdent) r) (mget (. s idents) (v_ident r)) (ite ((_ is VLookup) r) (lookup s (v_la r) (v_lv r)) 0))))
(macro refok (s r) (or ((_ is VNil) r) ((_ is VID) r) (and (or ((_ is VIdent) r) ((_ is VLookup) r)) (not (= 0 (ref s r))))))
(macro val (s v) (ite (or ((_ is VIdent) v) ((_ is VLookup) v)) (VID (ref s v)) v))
(macro valok (s v) (=> (or ((_ is VIdent) v) ((_ is VLookup) v)) (not (= 0 (ref s v)))))
(define shape ((e Int) (a Int) (v Any)) Int
  (ite (= e 0) (ite (= a 0) (ite (= v VNil) 0 9) (ite (= v VNil) 4 5)) (ite (= a 0) (ite (= v VNil) 2 8) (ite (= v VNil) 1 7))))
(macro claimok (s c) (and (refok s (. c E)) (refok s (. c A)) (valok s (. c V))))
(macro shapeof (s c) (shape (ref s (. c E)) (ref s (. c A)) (val s (. c V))))
(macro matches (s c k) (and (claimok s c) (kmatch (shapeof s c) (ref s (. c E)) (ref s (. c A)) (val s (. c V)) k)))
(macro many (s c) (ite (claimok s c) (mcnt (C s) (shapeof s c) (ref s (. c E)) (ref s (. c A)) (val s (. c V))) 0))

(fun fS (Int Int) Int)
(fun fO (Int Int) Int)
(contract "database.filterByV" (seq v) (r)
  (requires seq (and (< 0 seq) (<= 0 (qn seq))))
  (ensures some (and (< 0 r) (<= 0 (qn r))))
  (ensures from (forall ((i Int)) (! (=> (and (<= 0 i) (< i (qn r))) (and (<= 0 (fS r i)) (< (fS r i) (qn seq)) (= (qat r i) (qat seq (fS r i))) (valeq (. (qat r i) V) v))) :pattern ((qat r i)))))
  (ensures all (forall ((j Int)) (! (=> (and (<= 0 j) (< j (qn seq)) (valeq (. (qat seq j) V) v)) (and (<= 0 (fO r j)) (< (fO r j) (qn r)) (= (qat r (fO r j)) (qat seq j)))) :pattern ((qat seq j)))))
  (ensures order (forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j (qn r))) (< (fS r i) (fS r j))) :pattern ((qat r i) (qat r j))))))
(func "database.filterByV" (contract "database.filterByV")
  (yghost FS "(Array Int Int)" (constarr (Array Int Int) 0) (store $FS $yn $i))
  (yghost FO "(Array Int Int)" (constarr (Array Int Int) 0) (store $FO $i $yn))
  (link fS FS) (link fO FO)
  (loop 1
    (inv some (<= 0 $yn))
    (inv from (forall ((o Int)) (! (=> (and (<= 0 o) (< o $yn)) (and (<= 0 (select $FS o)) (< (select $FS o) $i) (= (select $ytr o) (qat seq (select $FS o))) (valeq (. (select $ytr o) V) v))) :pattern ((select $ytr o)) :pattern ((select $FS o)))))
    (inv all (forall ((j Int)) (! (=> (and (<= 0 j) (< j $i) (valeq (. (qat seq j) V) v)) (and (<= 0 (select $FO j)) (< (select $FO j) $yn) (= (select $ytr (select $FO j)) (qat seq j)))) :pattern ((qat seq j)) :pattern ((select $FO j)))))
    (inv order (forall ((o Int) (p Int)) (! (=> (and (<= 0 o) (< o p) (< p $yn)) (< (select $FS o) (select $FS p))) :pattern ((select $FS o) (select $FS p)) :pattern ((select $ytr o) (select $ytr p)))))))

(func "database.valuesEqual" (contract (a b) (r) (ensures equal (= r (valeq a b)))))

(contract "database.(*indexSnapshot).resolveLookupRef" (s ref) (id)
  (requires ok (sinv s))
  (ensures holder (= id (lookup s (. ref A) (. ref V)))))
(func "database.(*indexSnapshot).resolveLookupRef" (contract "database.(*indexSnapshot).resolveLookupRef"))

(contract "database.(*indexSnapshot).resolveClaim" (s claim) (match ok)
  (requires ok (sinv s))
  (ensures ok (=> ok (claimok s claim)))
  (ensures e (=> ok (= (. match E) (ref s (. claim E)))))
  (ensures a (=> ok (= (. match A) (ref s (. claim A)))))
  (ensures v (=> ok (= (. match V) (val s (. claim V)))))
  (ensures none (=> (not ok) (or (not (claimok s claim)) (and (not (= VNil (val s (. claim V)))) (forall ((t Int)) (! (not (okval t (val s (. claim V)))) :pattern ((okval t (val s (. claim V)))))))))))
(func "database.(*indexSnapshot).resolveClaim" (contract "database.(*indexSnapshot).resolveClaim"))

(contract "types.Snapshot.Select" (s claim) (q)
  (requires ok (sinv s))
  (ensures some (and (< 0 q) (<= 0 (qn q))))
  (ensures sound :C03 :C11 :C17 :C21 (forall ((i Int)) (! (=> (and (<= 0 i) (< i (qn q)))
     (and (= (D (. s eav) (dkeyof (qat q i))) (. (qat q i) T)) (not (= 0 (. (qat q i) T))) (matches s claim (dkeyof (qat q i))))) :pattern ((qat q i)))))
  (ensures complete :C03 :C21 (forall ((k Key)) (! (=> (and (not (= 0 (D (. s eav) k))) (matches s claim k))
     (exists ((i Int)) (! (and (<= 0 i) (< i (qn q)) (= (qat q i) (mk types.Datum (k_e k) (k_a k) (k_v k) (D (. s eav) k)))) :pattern ((qat q i))))) :pattern ((D (. s eav) k)))))
  (ensures order :C05 (ascending q))
  (ensures length :C04 (= (qn q) (many s claim)))
  (modifies @alloc))
(func "database.(*indexSnapshot).Select" (contract "types.Snapshot.Select"))

(contract "types.Snapshot.Count" (s claim) (n)
  (requires ok (sinv s))
  (ensures count :C04 (= n (many s claim)))
  (modifies @alloc))
(func "database.(*indexSnapshot).Count" (contract "types.Snapshot.Count")
  (loop 1 (inv count (= $count $i))))

(contract "types.Snapshot.Has" (s claim) (r)
  (requires ok (sinv s))
  (ensures has :C04 (= r (< 0 (many s claim))))
  (modifies @alloc))
(func "database.(*indexSnapshot).Has" (contract "types.Snapshot.Has")
  (loop 1 (inv none (= $i 0))))

(func "database.(*indexSnapshot).ResolveIdent" (contract (s ident) (id) (requires ok (sinv s)) (ensures resolved :C14 (= id (mget (. s idents) ident)))))
(func "database.(*indexSnapshot).ResolveAttrIdent" (contract (s id) (ident) (requires ok (sinv s)) (ensures resolved :C14 (= ident (. (mget (. s attrs) id) Ident)))))
