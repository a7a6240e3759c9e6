; Composite indexes: the datums of every type, each in the tree of its storage type.
;
; Clients see an index as its content D, an array from keys (entity, attribute, value) to
; the transaction stored with them (0: absent), with its order and attribute types. The
; functions of CompositeIndex are verified with D read off the four trees.

(component "G.D" (Array Int (Array Key Int)))
(component "G.ord" (Array Int Int))
(component "B.own" (Array Int Int))
(component "P.index_CompositeIndex.attrTypes" (Array Int Int))
(component "P.index_CompositeIndex.strings" (Array Int Int))
(component "P.index_CompositeIndex.ints" (Array Int Int))
(component "P.index_CompositeIndex.uints" (Array Int Int))
(component "P.index_CompositeIndex.floats" (Array Int Int))

(define okval ((t Int) (v Any)) Bool
  (ite (= t 11) ((_ is VID) v) (ite (= t 12) ((_ is VString) v) (ite (= t 13) ((_ is VInt) v)
  (ite (= t 14) ((_ is VBool) v) (ite (= t 15) ((_ is VInst) v) (and (= t 16) ((_ is VFloat) v))))))))
(define validtype ((t Int)) Bool (and (<= 11 t) (<= t 16)))
; instants are stored as their unix milliseconds, and read back in utc
(define canonv ((v Any)) Any (ite ((_ is VInst) v) (VInst (utcOf (unixOf (msOf (v_inst v))))) v))
(axiom instants unixOf canonv dkey valeq kmatch (forall ((m Int)) (! (=> (okInt64 m) (= (msOf (utcOf (unixOf m))) m)) :pattern ((utcOf (unixOf m))))))
(axiom millis msOf canonv dkey valeq kmatch vlt klt (forall ((t Time)) (! (okInt64 (msOf t)) :pattern ((msOf t)))))
(trusted "time: UnixMilli(m).UTC().UnixMilli() is m for every m")
(trusted "google/btree, iter.Pull, maps.Clone, maps.Copy, slices.Clip and sync.Mutex do what their documentation says")
(define valeq ((v Any) (w Any)) Bool (= (canonv v) (canonv w)))
(define vlt ((v Any) (w Any)) Bool
  (or (and ((_ is VID) v) ((_ is VID) w) (< (v_id v) (v_id w))) (and ((_ is VString) v) ((_ is VString) w) (< (v_str v) (v_str w)))
      (and ((_ is VInt) v) ((_ is VInt) w) (< (v_int v) (v_int w))) (and ((_ is VBool) v) ((_ is VBool) w) (not (v_bool v)) (v_bool w))
      (and ((_ is VInst) v) ((_ is VInst) w) (< (msOf (v_inst v)) (msOf (v_inst w)))) (and ((_ is VFloat) v) ((_ is VFloat) w) (< (v_flt v) (v_flt w)))))
(define klt ((x Key) (y Key)) Bool
  (or (< (k_e x) (k_e y)) (and (= (k_e x) (k_e y)) (or (< (k_a x) (k_a y)) (and (= (k_a x) (k_a y)) (vlt (k_v x) (k_v y)))))))
(define kmatch ((m Int) (e Int) (a Int) (v Any) (k Key)) Bool
  (and (=> (or (= m 1) (= m 2) (= m 3) (= m 7) (= m 8)) (= (k_e k) e))
       (=> (or (= m 1) (= m 3) (= m 4) (= m 5) (= m 7)) (= (k_a k) a))
       (=> (or (= m 5) (= m 7) (= m 8) (= m 9)) (= (k_v k) (canonv v)))))
(define dkey ((t Int) (cs (Array TK_R Int)) (cf (Array TK_R Int)) (ci (Array TK_I Int)) (cu (Array TK_I Int)) (k Key)) Int
  (ite (= t 12) (ite ((_ is VString) (k_v k)) (select cs (mkTKR (k_e k) (k_a k) (v_str (k_v k)))) 0)
  (ite (= t 16) (ite ((_ is VFloat) (k_v k)) (select cf (mkTKR (k_e k) (k_a k) (v_flt (k_v k)))) 0)
  (ite (= t 13) (ite ((_ is VInt) (k_v k)) (select ci (mkTKI (k_e k) (k_a k) (v_int (k_v k)))) 0)
  (ite (= t 15) (ite (and ((_ is VInst) (k_v k)) (= (k_v k) (canonv (k_v k)))) (select ci (mkTKI (k_e k) (k_a k) (msOf (v_inst (k_v k))))) 0)
  (ite (= t 11) (ite ((_ is VID) (k_v k)) (select cu (mkTKI (k_e k) (k_a k) (v_id (k_v k)))) 0)
  (ite (= t 14) (ite ((_ is VBool) (k_v k)) (select cu (mkTKI (k_e k) (k_a k) (ite (v_bool (k_v k)) 1 0))) 0)
  0)))))))

; the number of keys of a content that match
(fun mcnt ((Array Key Int) Int Int Int Any) Int)
(fun mwit ((Array Key Int) Int Int Int Any) Key)
(axiom cardinality mcnt (forall ((c (Array Key Int)) (m Int) (e Int) (a Int) (v Any)) (! (and (<= 0 (mcnt c m e a v)) (okInt64 (mcnt c m e a v))
   (=> (< 0 (mcnt c m e a v)) (and (not (= 0 (select c (mwit c m e a v)))) (kmatch m e a v (mwit c m e a v))))) :pattern ((mcnt c m e a v)))))
(axiom cardinality0 mcnt (forall ((c (Array Key Int)) (m Int) (e Int) (a Int) (v Any) (k Key)) (! (=> (and (not (= 0 (select c k))) (kmatch m e a v k)) (< 0 (mcnt c m e a v))) :pattern ((mcnt c m e a v) (select c k)))))

(macro tyref (ix) (as "map[types.ID]types.ID" (select (heap "P.index_CompositeIndex.attrTypes") ix)))
(macro ty (ix a) (mget (tyref ix) a))
(macro dkeyof (d) (mkK (S_types_Datum.E d) (S_types_Datum.A d) (S_types_Datum.V d)))
(macro ckeyof (d) (mkK (S_types_Datum.E d) (S_types_Datum.A d) (canonv (S_types_Datum.V d))))

; ---- as clients see it ----
(macro D (ix k) (select (select (heap "G.D") ix) k))
(macro ORD (ix) (select (heap "G.ord") ix))
(macro cinv (ix) (and (< 0 ix) (allocated ix) (<= 1 (ORD ix)) (<= (ORD ix) 3) (< 0 (tyref ix)) (allocated (tyref ix)) (not (validtype (ty ix 0)))
  (forall ((k Key)) (! (and (<= 0 (D ix k)) (=> (not (= 0 (D ix k))) (and (< 0 (k_e k)) (< 0 (k_a k)) (okval (ty ix (k_a k)) (k_v k)) (= (k_v k) (canonv (k_v k))) (okAny (k_v k))))) :pattern ((D ix k))))))
(macro put (ix d) (= (select (heap "G.D") ix)
  (ite (= 0 (old (D ix (ckeyof d)))) (store (old (select (heap "G.D") ix)) (ckeyof d) (S_types_Datum.T d)) (old (select (heap "G.D") ix)))))
(macro drop (ix d) (= (select (heap "G.D") ix) (store (old (select (heap "G.D") ix)) (ckeyof d) 0)))
(macro sameD (r ix) (= (select (heap "G.D") r) (old (select (heap "G.D") ix))))
(macro emptyD (r) (= (select (heap "G.D") r) (constarr (Array Key Int) 0)))
(macro cnt (ix m e a v) (mcnt (select (heap "G.D") ix) m e a v))

; ---- as they are implemented ----
(macro ixs (ix) (select (heap "P.index_CompositeIndex.strings") ix))
(macro ixf (ix) (select (heap "P.index_CompositeIndex.floats") ix))
(macro ixi (ix) (select (heap "P.index_CompositeIndex.ints") ix))
(macro ixu (ix) (select (heap "P.index_CompositeIndex.uints") ix))
(macro@ composite D (ix k) (dkey (ty ix (k_a k)) (CCR (ixs ix)) (CCR (ixf ix)) (CCI (ixi ix)) (CCI (ixu ix)) k))
(macro@ composite ORD (ix) (OOR (ixs ix)))
(macro own (t ix) (= ix (select (heap "B.own") t)))
(macro@ composite cinv (ix) (and (< 0 ix) (allocated ix) (<= 1 (ORD ix)) (<= (ORD ix) 3) (< 0 (tyref ix)) (allocated (tyref ix)) (not (validtype (ty ix 0)))
  (tixR (ixs ix)) (tixR (ixf ix)) (tixI (ixi ix)) (tixI (ixu ix))
  (= (ORD ix) (OOR (ixf ix))) (= (ORD ix) (OOI (ixi ix))) (= (ORD ix) (OOI (ixu ix)))
  (distinct (treeR (ixs ix)) (treeR (ixf ix)) (treeI (ixi ix)) (treeI (ixu ix)))
  (own (treeR (ixs ix)) ix) (own (treeR (ixf ix)) ix) (own (treeI (ixi ix)) ix) (own (treeI (ixu ix)) ix)
  (forall ((k TK_R)) (! (=> (not (= 0 (select (CCR (ixs ix)) k))) (and (= 12 (ty ix (tkaR k))) (< 0 (tkeR k)) (< 0 (tkaR k)) (<= 0.0 (tkvR k)))) :pattern ((select (CCR (ixs ix)) k))))
  (forall ((k TK_R)) (! (=> (not (= 0 (select (CCR (ixf ix)) k))) (and (= 16 (ty ix (tkaR k))) (< 0 (tkeR k)) (< 0 (tkaR k)) (okFlt (tkvR k)))) :pattern ((select (CCR (ixf ix)) k))))
  (forall ((k TK_I)) (! (=> (not (= 0 (select (CCI (ixi ix)) k))) (and (or (= 13 (ty ix (tkaI k))) (= 15 (ty ix (tkaI k)))) (< 0 (tkeI k)) (< 0 (tkaI k)) (okInt64 (tkvI k)))) :pattern ((select (CCI (ixi ix)) k))))
  (forall ((k TK_I)) (! (=> (not (= 0 (select (CCI (ixu ix)) k))) (and (or (= 11 (ty ix (tkaI k))) (and (= 14 (ty ix (tkaI k))) (<= (tkvI k) 1))) (< 0 (tkeI k)) (< 0 (tkaI k)) (<= 0 (tkvI k)))) :pattern ((select (CCI (ixu ix)) k))))))
(macro@ composite put (ix d) (forall ((k Key)) (= (D ix k)
  (ite (and (= k (ckeyof d)) (= 0 (old (D ix k)))) (S_types_Datum.T d) (old (D ix k))))))
(macro@ composite drop (ix d) (forall ((k Key)) (= (D ix k) (ite (= k (ckeyof d)) 0 (old (D ix k))))))
(macro@ composite sameD (r ix) (forall ((k Key)) (= (D r k) (old (D ix k)))))
(macro@ composite emptyD (r) (forall ((k Key)) (= (D r k) 0)))
(macro@ composite cnt (ix m e a v) (ite (or (= m 2) (= m 0)) (+ (acntR (CCR (ixs ix)) m e a 0.0) (acntR (CCR (ixf ix)) m e a 0.0) (acntI (CCI (ixi ix)) m e a 0) (acntI (CCI (ixu ix)) m e a 0))
  (ite (and (= m 5) (not (okval (ty ix a) v))) 0
  (ite (= 12 (ty ix a)) (acntR (CCR (ixs ix)) m e a (ite (= m 5) (v_str v) 0.0))
  (ite (= 16 (ty ix a)) (acntR (CCR (ixf ix)) m e a (ite (= m 5) (v_flt v) 0.0))
  (ite (= 13 (ty ix a)) (acntI (CCI (ixi ix)) m e a (ite (= m 5) (v_int v) 0))
  (ite (= 15 (ty ix a)) (acntI (CCI (ixi ix)) m e a (ite (= m 5) (msOf (v_inst v)) 0))
  (ite (= 11 (ty ix a)) (acntI (CCI (ixu ix)) m e a (ite (= m 5) (v_id v) 0))
  (ite (= 14 (ty ix a)) (acntI (CCI (ixu ix)) m e a (ite (= m 5) (ite (v_bool v) 1 0) 0))
  0)))))))))

; the values stored have the types of another map
(macro fit1 (ix types k) (=> (not (= 0 (D ix k))) (okval (mget types (k_a k)) (k_v k))))
(macro fits (ix types) (forall ((k Key)) (! (fit1 ix types k) :pattern ((D ix k)))))
(macro@ composite fits (ix types) (and
  (forall ((k TK_R)) (! (fit1 ix types (mkK (tkeR k) (tkaR k) (VString (tkvR k)))) :pattern ((select (CCR (ixs ix)) k))))
  (forall ((k TK_R)) (! (fit1 ix types (mkK (tkeR k) (tkaR k) (VFloat (tkvR k)))) :pattern ((select (CCR (ixf ix)) k))))
  (forall ((k TK_I)) (! (fit1 ix types (mkK (tkeI k) (tkaI k) (VInt (tkvI k)))) :pattern ((select (CCI (ixi ix)) k))))
  (forall ((k TK_I)) (! (fit1 ix types (mkK (tkeI k) (tkaI k) (VInst (utcOf (unixOf (tkvI k)))))) :pattern ((select (CCI (ixi ix)) k))))
  (forall ((k TK_I)) (! (fit1 ix types (mkK (tkeI k) (tkaI k) (VID (tkvI k)))) :pattern ((select (CCI (ixu ix)) k))))
  (forall ((k TK_I)) (! (fit1 ix types (mkK (tkeI k) (tkaI k) (VBool (= 1 (tkvI k))))) :pattern ((select (CCI (ixu ix)) k))))))

; nothing of another index changes
(macro@ composite others (ix) (forall ((j Int)) (=> (and (not (= j ix)) (old (cinv j))) (and (cinv j) (= (tyref j) (old (tyref j))) (= (ORD j) (old (ORD j)))
   (forall ((k Key)) (= (D j k) (old (D j k))))))))

; which selections an index can answer
(macro pairok (ix p) (or (and (= 1 (ORD ix)) (or (= p 1) (= p 2))) (and (= 2 (ORD ix)) (or (= p 3) (= p 4))) (and (= 3 (ORD ix)) (= p 5))))

(macro exactly (q ix m e a v) (and
  (forall ((i Int)) (! (=> (and (<= 0 i) (< i (qn q)))
     (and (= (D ix (dkeyof (qat q i))) (S_types_Datum.T (qat q i))) (not (= 0 (S_types_Datum.T (qat q i)))) (kmatch m e a v (dkeyof (qat q i))))) :pattern ((qat q i))))
  (forall ((k Key)) (! (=> (and (not (= 0 (D ix k))) (kmatch m e a v k))
     (exists ((i Int)) (! (and (<= 0 i) (< i (qn q)) (= (qat q i) (mk types.Datum (k_e k) (k_a k) (k_v k) (D ix k)))) :pattern ((qat q i))))) :pattern ((D ix k))))))
(macro sound (q ix m e a v)
  (forall ((i Int)) (! (=> (and (<= 0 i) (< i (qn q)))
     (and (= (D ix (dkeyof (qat q i))) (S_types_Datum.T (qat q i))) (not (= 0 (S_types_Datum.T (qat q i)))) (kmatch m e a v (dkeyof (qat q i))))) :pattern ((qat q i)))))
(macro complete (q ix m e a v)
  (forall ((k Key)) (! (=> (and (not (= 0 (D ix k))) (kmatch m e a v k))
     (exists ((i Int)) (! (and (<= 0 i) (< i (qn q)) (= (qat q i) (mk types.Datum (k_e k) (k_a k) (k_v k) (D ix k)))) :pattern ((qat q i))))) :pattern ((D ix k)))))
(macro ascending (q)
  (forall ((i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j (qn q))) (klt (dkeyof (qat q i)) (dkeyof (qat q j)))) :pattern ((qat q i) (qat q j)))))

(contract "index.NewCompositeIndex" (degree it types) (r)
  (requires degree (< 1 degree))
  (requires types (and (< 0 types) (allocated types) (not (validtype (mget types 0)))))
  (requires order (and (<= 1 (ordof it.StringLesser)) (<= (ordof it.StringLesser) 3) (= (ordof it.StringLesser) (ordof it.IntLesser)) (= (ordof it.StringLesser) (ordof it.UintLesser)) (= (ordof it.StringLesser) (ordof it.FloatLesser))))
  (ensures new (and (<= (old nref) r) (< r nref)))
  (ensures empty (emptyD r))
  (ensures ok (cinv r))
  (ensures types (= types (tyref r)))
  (ensures order (= (ORD r) (ordof it.StringLesser)))
  (modifies @alloc ("G.D" @fresh) ("G.ord" @fresh) ("P.index_CompositeIndex.attrTypes" @fresh)))

(contract "index.Index.Find" (ix d) (r)
  (requires ok (cinv ix))
  (ensures found (= r (not (= 0 (D ix (ckeyof d)))))))

(contract "index.Index.Insert" (ix d) (r)
  (requires ok (cinv ix))
  (requires e (< 0 (. d E)))
  (requires a (< 0 (. d A)))
  (requires t (< 0 (. d T)))
  (requires v (okval (ty ix (. d A)) (. d V)))
  (ensures found (= r (not (= 0 (old (D ix (ckeyof d)))))))
  (ensures put (put ix d))
  (ensures ok (cinv ix))
  (modifies ("G.D" ix)))

(contract "index.Index.Delete" (ix d) (r)
  (requires ok (cinv ix))
  (requires v (okval (ty ix (. d A)) (. d V)))
  (ensures found (= r (not (= 0 (old (D ix (ckeyof d)))))))
  (ensures drop (drop ix d))
  (ensures ok (cinv ix))
  (modifies ("G.D" ix)))

(contract "index.Index.Clone" (ix) (r)
  (requires ok (cinv ix))
  (ensures new (and (<= (old nref) r) (< r nref)))
  (ensures same (sameD r ix))
  (ensures order (= (ORD r) (old (ORD ix))))
  (ensures types (= (tyref r) (old (tyref ix))))
  (ensures ok (cinv r))
  (modifies @alloc ("G.D" @fresh) ("G.ord" @fresh) ("P.index_CompositeIndex.attrTypes" @fresh)))

(contract "index.Index.SetAttrTypes" (ix types) ()
  (requires ok (cinv ix))
  (requires types (and (< 0 types) (allocated types) (not (validtype (mget types 0)))))
  (requires fits (fits ix types))
  (ensures types (= types (tyref ix)))
  (ensures same (sameD ix ix))
  (ensures ok (cinv ix))
  (modifies ("P.index_CompositeIndex.attrTypes" ix)))

(contract "index.Index.Select" (ix p d) (q)
  (requires ok (cinv ix))
  (requires pair (pairok ix p))
  (ensures some (< 0 q))
  (ensures length :C04 (and (<= 0 (qn q)) (= (qn q) (cnt ix p (. d E) (. d A) (. d V)))))
  (ensures sound :C03 :C11 :C17 (sound q ix p (. d E) (. d A) (. d V)))
  (ensures complete :C03 :C16 (complete q ix p (. d E) (. d A) (. d V)))
  (ensures order :C05 (ascending q))
  (modifies @alloc))

(contract "index.Index.Count" (ix p d) (n)
  (requires ok (cinv ix))
  (requires pair (pairok ix p))
  (ensures count :C04 (= n (cnt ix p (. d E) (. d A) (. d V)))))

(contract "index.Index.First" (ix p d) (m found)
  (requires ok (cinv ix))
  (requires pair (and (pairok ix p) (not (= p 2))))
  (ensures found (=> found (and (= (D ix (dkeyof m)) (. m T)) (not (= 0 (. m T))) (kmatch p (. d E) (. d A) (. d V) (dkeyof m)))))
  (ensures none (=> (not found) (forall ((k Key)) (! (=> (kmatch p (. d E) (. d A) (. d V) k) (= 0 (D ix k))) :pattern ((D ix k)))))))

(contract "index.Index.All" (ix) (q)
  (requires ok (cinv ix))
  (requires order (= 1 (ORD ix)))
  (ensures some (< 0 q))
  (ensures length :C04 (and (<= 0 (qn q)) (= (qn q) (cnt ix 0 0 0 VNil))))
  (ensures sound :C03 :C11 :C17 (sound q ix 0 0 0 VNil))
  (ensures complete :C03 (complete q ix 0 0 0 VNil))
  (ensures order :C05 (ascending q))
  (modifies @alloc))

(contract "index.mapSeq" (seq f) (r)
  (requires seq (< 0 seq))
  (requires f (and (< 0 f) (forall ((i Int)) (=> (and (<= 0 i) (< i (qn seq))) (fsafe f (qat seq i))))))
  (ensures some (< 0 r))
  (ensures length (= (qn r) (qn seq)))
  (ensures items (forall ((i Int)) (! (=> (and (<= 0 i) (< i (qn r))) (= (qat r i) (fapp f (qat seq i)))) :pattern ((qat r i)) :pattern ((qat seq i))))))

(func "index.mapSeq" (contract "index.mapSeq")
  (loop 1
    (inv count (= $yn $i))
    (inv seen (forall ((i Int)) (! (=> (and (<= 0 i) (< i $i)) (= (select $ytr i) (fapp f (qat seq i)))) :pattern ((select $ytr i)))))))

(func "index.NewCompositeIndex" (ctx composite) (contract "index.NewCompositeIndex")
  (ghost "B.own" (treeR (ixs r)) r) (ghost "B.own" (treeR (ixf r)) r) (ghost "B.own" (treeI (ixi r)) r) (ghost "B.own" (treeI (ixu r)) r)
  (ensures others (others r))
  (modifies ("B.C.R" @fresh) ("B.C.I" @fresh) ("B.ord" @fresh) ("B.own" @fresh) ("P.index_btreeIndex_R.tree" @fresh) ("P.index_btreeIndex_I.tree" @fresh) ("P.index_CompositeIndex.*" @fresh)))
(func "index.(*CompositeIndex).Find" (ctx composite) (contract "index.Index.Find"))
(func "index.(*CompositeIndex).Insert" (ctx composite) (props C06 C07 C10 C11 C17) (contract "index.Index.Insert")
  (ensures others (others ix))
  (modifies ("B.C.R" (treeR (ixs ix))) ("B.C.R" (treeR (ixf ix))) ("B.C.I" (treeI (ixi ix))) ("B.C.I" (treeI (ixu ix)))))
(func "index.(*CompositeIndex).Delete" (ctx composite) (props C06 C07 C11 C14 C16) (contract "index.Index.Delete")
  (ensures others (others ix))
  (modifies ("B.C.R" (treeR (ixs ix))) ("B.C.R" (treeR (ixf ix))) ("B.C.I" (treeI (ixi ix))) ("B.C.I" (treeI (ixu ix)))))
(func "index.(*CompositeIndex).Clone" (ctx composite) (props C01 C02 C19) (contract "index.Index.Clone")
  (ghost "B.own" (treeR (ixs r)) r) (ghost "B.own" (treeR (ixf r)) r) (ghost "B.own" (treeI (ixi r)) r) (ghost "B.own" (treeI (ixu r)) r)
  (ensures others (others r))
  (modifies ("B.C.R" @fresh) ("B.C.I" @fresh) ("B.ord" @fresh) ("B.own" @fresh) ("P.index_btreeIndex_R.tree" @fresh) ("P.index_btreeIndex_I.tree" @fresh) ("P.index_CompositeIndex.*" @fresh)))
(func "index.(*CompositeIndex).SetAttrTypes" (ctx composite) (props C10 C12) (contract "index.Index.SetAttrTypes")
  (ensures others (others ix)))
(func "index.(*CompositeIndex).Select" (ctx composite) (contract "index.Index.Select"))
(func "index.(*CompositeIndex).Count" (ctx composite) (contract "index.Index.Count"))
(func "index.(*CompositeIndex).First" (ctx composite) (contract "index.Index.First"))
(func "index.(*CompositeIndex).All" (ctx composite) (contract "index.Index.All")
  (assert strings (=> (< 0 (anR (CCR (ixs ix)))) (not (tltR 1 (aatR (CCR (ixs ix)) 1 0) (mkTKR 0 0 0.0)))))
  (assert strings (= 0 (aposR (CCR (ixs ix)) 1 (mkTKR 0 0 0.0))))
  (assert strings (= (anR (CCR (ixs ix))) (acntR (CCR (ixs ix)) 0 0 0 0.0)))
  (assert floats (=> (< 0 (anR (CCR (ixf ix)))) (not (tltR 1 (aatR (CCR (ixf ix)) 1 0) (mkTKR 0 0 2.0)))))
  (assert floats (= 0 (aposR (CCR (ixf ix)) 1 (mkTKR 0 0 2.0))))
  (assert floats (= (anR (CCR (ixf ix))) (acntR (CCR (ixf ix)) 0 0 0 0.0)))
  (assert ints (=> (< 0 (anI (CCI (ixi ix)))) (not (tltI 1 (aatI (CCI (ixi ix)) 1 0) (mkTKI 0 0 0)))))
  (assert ints (= 0 (aposI (CCI (ixi ix)) 1 (mkTKI 0 0 0))))
  (assert ints (= (anI (CCI (ixi ix))) (acntI (CCI (ixi ix)) 0 0 0 0)))
  (assert uints (=> (< 0 (anI (CCI (ixu ix)))) (not (tltI 1 (aatI (CCI (ixu ix)) 1 0) (mkTKI 0 0 0)))))
  (assert uints (= 0 (aposI (CCI (ixu ix)) 1 (mkTKI 0 0 0))))
  (assert uints (= (anI (CCI (ixu ix))) (acntI (CCI (ixu ix)) 0 0 0 0))))
