; Writing. The claims of a request, and those its retractions stand for, are evaluated one
; by one, then checked and carried out one by one. Quantifiers over places in lists are
; instantiated at the places marked jx, those over references at those marked rx.
(component "A.types_Claim" (Array Int (Array Int S_types_Claim)))
(component "P.types_Datum.E" (Array Int Int))
(component "P.types_Datum.V" (Array Int Any))
(fun jx (Int) Bool)
(fun rx (Any) Bool)
(axiom marks jx (forall ((j Int)) (! (jx j) :pattern ((jx j)))))
(axiom markedRefs rx (forall ((r Any)) (! (rx r) :pattern ((rx r)))))

; what a request says of the database it is written to
(macro oref (db r) (old (dref db r)))
(macro ofits (db c tx) (old (claimfits db c tx)))
(macro wE (db c tx T) (ite ((_ is VTempID) (. c E)) (select T (v_tmp (. c E))) (ite ((_ is VTxnID) (. c E)) tx (oref db (. c E)))))
(macro wA (db c) (oref db (. c A)))
(macro wV (db c T) (ite ((_ is VTempID) (. c V)) (VID (select T (v_tmp (. c V)))) (ite (or ((_ is VIdent) (. c V)) ((_ is VLookup) (. c V))) (VID (oref db (. c V))) (. c V))))

; its retractions: what each is constrained by, and the entities they name, where the
; WI-th retraction names e, by WJ of it
(macro cons (req j) (. (idx (. req Retractions) j) Constraints))
(macro retr (req) (len (. req Retractions)))
(macro nm (db req e) (and (not (= 0 e)) (jx (select $WI e)) (rx (select $WJ (select $WI e))) (<= 0 (select $WI e)) (< (select $WI e) (retr req)) (= e (oref db (select $WJ (select $WI e)))) (mhas (cons req (select $WI e)) (select $WJ (select $WI e)))))
; the claims they stand for: that of key k is the TW-th
(macro okTW (k TW n0) (and (<= n0 (select TW k)) (< (select TW k) (len $claims)) (jx (select TW k))
   (= (idx $claims (select TW k)) (mk types.Claim (VID (k_e k)) (VID (k_a k)) (k_v k) true))))
(macro old0 (db k) (old (select (dC db) k)))

(macro planOwn (req) (and (<= (len (. req Claims)) (len $claims)) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j (len (. req Claims)))) (= (idx $claims j) (old (idx (. req Claims) j)))) :pattern ((jx j))))))
(macro planTail (db req) (forall ((j Int)) (! (=> (and (jx j) (<= (len (. req Claims)) j) (< j (len $claims))) (and (. (idx $claims j) Retract) ((_ is VID) (. (idx $claims j) E)) ((_ is VID) (. (idx $claims j) A)) (nm db req (v_id (. (idx $claims j) E)))
   (not (= 0 (old0 db (mkK (v_id (. (idx $claims j) E)) (v_id (. (idx $claims j) A)) (. (idx $claims j) V))))))) :pattern ((jx j)))))
(macro planAll (db req) (forall ((k Key)) (! (=> (and (not (= 0 (old0 db k))) (nm db req (k_e k))) (okTW k $TW (len (. req Claims)))) :pattern ((old0 db k)))))
(macro planRefs (db req) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j (retr req))) (and (mhas (cons req j) (select $WJ j))
   (forall ((r Any)) (! (=> (and (rx r) (mhas (cons req j) r)) (and (not (= 0 (oref db r))) (= (oref db r) (oref db (select $WJ j))) (nm db req (oref db r)))) :pattern ((rx r)))))) :pattern ((jx j)))))

; its claims evaluated: the datums, and the entities that tempids are tied to by identity
(macro tx0 (db) (old (. db nextID)))
(macro T0 () (mvals (. $res TempIDs)))
(macro place (db j T) (and (<= (old nref) (idx $data j)) (< (idx $data j) nref)
   (= (. (idx $data j) E) (wE db (idx $claims j) (tx0 db) T)) (= (. (idx $data j) A) (wA db (idx $claims j))) (= (. (idx $data j) V) (wV db (idx $claims j) T)) (= (. (idx $data j) T) (tx0 db))
   (ofits db (idx $claims j) (tx0 db)) (=> ((_ is VTempID) (. (idx $claims j) E)) (mhas (. $res TempIDs) (v_tmp (. (idx $claims j) E)))) (=> ((_ is VTempID) (. (idx $claims j) V)) (mhas (. $res TempIDs) (v_tmp (. (idx $claims j) V))))))
(macro placed (db n T) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j n)) (place db j T)) :pattern ((jx j)))))
(macro apart (n) (forall ((j Int) (k Int)) (! (=> (and (jx j) (jx k) (<= 0 j) (< j k) (< k n)) (< (idx $data j) (idx $data k))) :pattern ((jx j) (jx k)))))
(macro ouniq (db r) (old (duniq db (dref db r))))
(macro idc (db j) (and (not (. (idx $claims j) Retract)) ((_ is VTempID) (. (idx $claims j) E)) (= 7 (ouniq db (. (idx $claims j) A)))))
(macro oC (db) (old (dC db)))
(macro hold (db j) (uent (oC db) (. (idx $data j) A) (canonv (. (idx $data j) V))))
(macro rewritten (db n) (forall ((x Int)) (! (=> (mhas $rewrites x) (and (<= 0 (select $RJ x)) (< (select $RJ x) n) (jx (select $RJ x)) (idc db (select $RJ x)) (= x (. (idx $data (select $RJ x)) E)) (not (= 0 (mget $rewrites x))) (= (mget $rewrites x) (hold db (select $RJ x))))) :pattern ((mhas $rewrites x)))))
(macro rewriting (db n) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j n) (idc db j) (not (= 0 (hold db j)))) (and (mhas $rewrites (. (idx $data j) E)) (= (mget $rewrites (. (idx $data j) E)) (hold db j)))) :pattern ((jx j)))))

;; carrying out a claim: what holds after it, of what held before
(fun stp ((Array Key Int) (Array Int Bool) Bool Key Int) (Array Key Int))
(axiom step stp (forall ((c (Array Key Int)) (m (Array Int Bool)) (r Bool) (k Key) (x Int) (l Key)) (! (= (select (stp c m r k x) l)
   (ite (= l k) (ite r 0 (ite (= 0 (select c k)) x (select c k)))
   (ite (and (not r) (not (select m (k_a k))) (= (k_e l) (k_e k)) (= (k_a l) (k_a k))) 0 (select c l)))) :pattern ((select (stp c m r k x) l)))))
(macro noerr () (= VNil (. $res Error)))
(macro manyset (db) (old (mdom (. db attrCardManies))))
(macro n5 () (len $claims))
(macro ranges (n next) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j n)) (and (< 0 (. (idx $data j) E)) (< (. (idx $data j) E) next) (< 0 (. (idx $data j) A)) (not (= (VID 0) (. (idx $data j) V))))) :pattern ((jx j)))))
(macro otyp (db c) (old (dtype db (dref db (. c A)))))
(macro fitting (db n) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j n)) (okval (otype db (. (idx $data j) A)) (. (idx $data j) V))) :pattern ((jx j)))))
(macro oattr (db e) (old (isattr db e)))
(macro odef (db e) (old (dattr db e)))
(macro rwr (x) (ite (mhas $rewrites x) (mget $rewrites x) x))
(macro dE5 (j) (at exit5 (. (idx $data j) E)))
(macro dV5 (j) (at exit5 (. (idx $data j) V)))
(macro fE (j) (ite ((_ is VTempID) (. (idx $claims j) E)) (rwr (dE5 j)) (dE5 j)))
(macro fV (j) (ite ((_ is VTempID) (. (idx $claims j) V)) (VID (rwr (v_id (dV5 j)))) (dV5 j)))
(macro dk (j) (mkK (. (idx $data j) E) (. (idx $data j) A) (canonv (. (idx $data j) V))))
(macro Hc () (select $H $i))

(macro oldmap (m) (and (= (mdom m) (old (mdom m))) (= (mvals m) (old (mvals m)))))
(macro sound7 (e) (and (mhas $identCreates e) (= (mget $attrChanges e) (mk types.Attr (at exit6 (. (mget $attrChanges e) ID)) (mget $identCreates e) (at exit6 (. (mget $attrChanges e) Type)) (at exit6 (. (mget $attrChanges e) Cardinality)) (at exit6 (. (mget $attrChanges e) Unique)) (at exit6 (. (mget $attrChanges e) RefType))))
   (validtype (. (mget $attrChanges e) Type)) (or (= 0 (. (mget $attrChanges e) Cardinality)) (= 9 (. (mget $attrChanges e) Cardinality)) (= 10 (. (mget $attrChanges e) Cardinality)))
   (or (= 0 (. (mget $attrChanges e) Unique)) (= 7 (. (mget $attrChanges e) Unique)) (= 8 (. (mget $attrChanges e) Unique)))))
(macro oident (db s) (old (dident db s)))
(macro otype (db a) (old (dtype db a)))
(macro oduniq (db a) (old (duniq db a)))
(macro odmany (db a) (old (dmany db a)))
(macro icur (db s) (ite (mhas $identChanges s) (mget $identChanges s) (oident db s)))
(macro ave8 (db c) (forall ((k Key)) (! (= (select (select (heap "G.D") $ave) k) (ite (= 0 (oduniq db (k_a k))) 0 (select c k))) :pattern ((select (select (heap "G.D") $ave) k)) :pattern ((select c k)))))
(macro idents8 (db c) (and
  (forall ((s Real) (e Int)) (! (=> (not (= 0 (select c (mkK e 1 (VString s))))) (= e (icur db s))) :pattern ((select c (mkK e 1 (VString s))))))
  (forall ((s Real)) (! (=> (not (= 0 (icur db s))) (not (= 0 (select c (mkK (icur db s) 1 (VString s)))))) :pattern ((mhas $identChanges s)) :pattern ((mget $identChanges s)) :pattern ((oident db s))))))
(macro w6kept (db req i) (forall ((p Int)) (! (=> (< p (old nref)) (and (= (select (heap "P.types_Datum.E") p) (old (select (heap "P.types_Datum.E") p))) (= (select (heap "P.types_Datum.V") p) (old (select (heap "P.types_Datum.V") p))))) :pattern ((select (heap "P.types_Datum.E") p)) :pattern ((select (heap "P.types_Datum.V") p)))))
(macro w6data (db req i) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j (n5))) (and (= (. (idx $data j) E) (ite (< j i) (fE j) (dE5 j))) (= (. (idx $data j) V) (ite (< j i) (fV j) (dV5 j))))) :pattern ((jx j)))))
(macro w6tmp (db req i) (forall ((t Real)) (! (and (= (mhas (. $res TempIDs) t) (at exit5 (mhas (. $res TempIDs) t))) (or (= (mget (. $res TempIDs) t) (at exit5 (mget (. $res TempIDs) t))) (= (mget (. $res TempIDs) t) (rwr (at exit5 (mget (. $res TempIDs) t)))))) :pattern ((mhas (. $res TempIDs) t)) :pattern ((mget (. $res TempIDs) t)))))
(macro w6used (db req i) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j i)) (and (=> ((_ is VTempID) (. (idx $claims j) E)) (= (mget (. $res TempIDs) (v_tmp (. (idx $claims j) E))) (. (idx $data j) E))) (=> ((_ is VTempID) (. (idx $claims j) V)) (= (VID (mget (. $res TempIDs) (v_tmp (. (idx $claims j) V)))) (. (idx $data j) V))))) :pattern ((jx j)))))
(macro w6user (db req i) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j i)) (<= 1048576 (. (idx $data j) E))) :pattern ((jx j)))))
(macro w6steps (db req i) (and (= (oC db) (select $H 0)) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j i)) (= (select $H (+ j 1)) (stp (select $H j) (manyset db) (. (idx $claims j) Retract) (dk j) (tx0 db)))) :pattern ((jx j))))))
(macro w6one (db req i) (oneof (select $H i) db))
(macro w6ids (db req i) (idsof (select $H i) (. db nextID)))
(macro w6names (db req i) (namesof (select $H i)))
(macro w6sys (db req i) (forall ((k Key)) (! (=> (< (k_e k) 1048576) (= (select (select $H i) k) (select (oC db) k))) :pattern ((select (select $H i) k)) :pattern ((select (oC db) k)))))
(macro w6attr (db req i) (forall ((k Key)) (! (=> (and (oattr db (k_e k)) (<= 1 (k_a k)) (<= (k_a k) 4)) (= (select (select $H i) k) (select (oC db) k))) :pattern ((select (select $H i) k)) :pattern ((select (oC db) k)))))
(macro w6def (db req i) (forall ((k Key)) (! (=> (and (not (oattr db (k_e k))) (not (= 0 (select (select $H i) k)))) (and
       (=> (= 2 (k_a k)) (and (mhas $attrChanges (k_e k)) (= (k_v k) (VID (. (mget $attrChanges (k_e k)) Type)))))
       (=> (= 3 (k_a k)) (and (mhas $attrChanges (k_e k)) (= (k_v k) (VID (. (mget $attrChanges (k_e k)) Unique)))))
       (=> (= 4 (k_a k)) (and (mhas $attrChanges (k_e k)) (= (k_v k) (VID (. (mget $attrChanges (k_e k)) Cardinality))))))) :pattern ((select (select $H i) k)))))
(macro w6defs (db req i) (forall ((e Int)) (! (and (=> (not (mhas $attrChanges e)) (= (zero types.Attr) (mget $attrChanges e))) (=> (mhas $attrChanges e) (and (not (oattr db e)) (<= 1048576 e) (= e (. (mget $attrChanges e) ID))
       (=> (not (= 0 (. (mget $attrChanges e) Type))) (not (= 0 (select (select $H i) (mkK e 2 (VID (. (mget $attrChanges e) Type)))))))
       (=> (not (= 0 (. (mget $attrChanges e) Unique))) (not (= 0 (select (select $H i) (mkK e 3 (VID (. (mget $attrChanges e) Unique)))))))
       (=> (not (= 0 (. (mget $attrChanges e) Cardinality))) (not (= 0 (select (select $H i) (mkK e 4 (VID (. (mget $attrChanges e) Cardinality)))))))))) :pattern ((mhas $attrChanges e)) :pattern ((mget $attrChanges e)))))
(macro w6idents (db req i) (forall ((e Int)) (! (and (=> (not (mhas $identCreates e)) (= 0.0 (mget $identCreates e))) (=> (mhas $identCreates e) (and (not (oattr db e)) (not (= 0 (select (select $H i) (mkK e 1 (VString (mget $identCreates e))))))))) :pattern ((mhas $identCreates e)) :pattern ((mget $identCreates e)))))
(macro w6gone (db req i) (forall ((j Int)) (! (=> (and (jx j) (<= (len (. req Claims)) j) (< j i)) (= 0 (select (select $H i) (dk j)))) :pattern ((jx j)))))
(macro w6rest (db req i) (=> (<= (len (. req Claims)) i) (forall ((k Key)) (! (=> (not (nm db req (k_e k))) (= (select (select $H i) k) (select (select $H (len (. req Claims))) k))) :pattern ((select (select $H i) k))))))

;; what holds of the datums whatever they are
(macro freshdata (n) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j n)) (and (<= (old nref) (idx $data j)) (< (idx $data j) nref) (= j (select $DI (idx $data j))))) :pattern ((jx j)))))
(macro targets (db) (forall ((x Int)) (! (=> (mhas $rewrites x) (and (< 0 (mget $rewrites x)) (< (mget $rewrites x) (tx0 db)))) :pattern ((mhas $rewrites x)) :pattern ((mget $rewrites x)))))
(macro vtmp (n) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j n) ((_ is VTempID) (. (idx $claims j) V))) ((_ is VID) (. (idx $data j) V))) :pattern ((jx j)))))
(macro txs (db n) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j n)) (= (tx0 db) (. (idx $data j) T))) :pattern ((jx j)))))
(macro keptd () (forall ((p Int)) (! (=> (< p (old nref)) (= (select (heap "A.p_types_Datum") p) (old (select (heap "A.p_types_Datum") p)))) :pattern ((select (heap "A.p_types_Datum") p)))))
(macro naming (n) (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j n) (= 1 (. (idx $data j) A)) (not (. (idx $claims j) Retract))) (not (reserved (v_str (. (idx $data j) V))))) :pattern ((jx j)))))
(macro newattrs (db) (forall ((e Int)) (! (=> (mhas $attrChanges e) (and (not (oattr db e)) (<= 1048576 e) (< e (. db nextID)) (= e (. (mget $attrChanges e) ID)))) :pattern ((mhas $attrChanges e)) :pattern ((mget $attrChanges e)))))
(macro c8 () (select (heap "G.D") $eav))
(macro cd (db) (select (heap "G.D") (. db eav)))
(macro ave8d (db c) (forall ((k Key)) (! (= (select (select (heap "G.D") (. db ave)) k) (ite (= 0 (oduniq db (k_a k))) 0 (select c k))) :pattern ((select (select (heap "G.D") (. db ave)) k)) :pattern ((select c k)))))
(macro sys8 (db c) (forall ((k Key)) (! (=> (< (k_e k) 1048576) (= (select c k) (select (oC db) k))) :pattern ((select c k)))))
(macro oneof0 (c db) (forall ((k Key) (l Key)) (! (=> (and (not (= 0 (select c k))) (not (= 0 (select c l))) (= (k_e k) (k_e l)) (= (k_a k) (k_a l)) (not (odmany db (k_a k)))) (= k l)) :pattern ((select c k) (select c l)))))
(macro uniqof0 (c db) (forall ((k Key) (l Key)) (! (=> (and (not (= 0 (select c k))) (not (= 0 (select c l))) (= (k_a k) (k_a l)) (= (k_v k) (k_v l)) (not (= 0 (oduniq db (k_a k))))) (= k l)) :pattern ((select c k) (select c l)))))

(contract "types.Database.Write" (db req) (res)
  (requires free (not (select (heap "gh.held") db)))
  (requires ok (dbinv db))
  (ensures free :C18 :C19 (not (select (heap "gh.held") db)))
  (ensures failed :C01 (=> (not (= VNil (. res Error))) (and (= (. db nextID) (old (. db nextID))) (= (dC db) (old (dC db))) (= (. db eav) (old (. db eav))) (= (. db aev) (old (. db aev))) (= (. db ave) (old (. db ave))) (= (. db attrTypes) (old (. db attrTypes)))
     (oldmap (. db idents)) (oldmap (. db attrsByID)) (oldmap (. db attrsByIdent)) (oldmap (. db attrTypes)) (oldmap (. db attrUniques)) (= (mdom (. db attrCardManies)) (old (mdom (. db attrCardManies)))) (= 0 (. res ID)) (= 0 (. res TempIDs)))))
  (ensures accepted :C15 (=> (= VNil (. res Error)) (and (= (. res ID) (old (. db nextID))) (< (. res ID) (. db nextID)))))
  (ensures shape (shapeinv db))
  (ensures same (sameinv db))
  (ensures attrs (attrinv db))
  (ensures sys :C13 (sysinv db))
  (ensures def :C12 :open (definv db))
  (ensures idents :C14 :open (identinv db))
  (ensures one :C07 (oneof (dC db) db))
  (ensures unique (uniqof (dC db) db))
  (ensures ids :C15 (idsof (dC db) (. db nextID)))
  (ensures names :C13 (namesof (dC db)))
  (ensures new :C02 (and (<= (old nref) (. res Snapshot)) (< (. res Snapshot) nref) (<= (old nref) (. (snap (. res Snapshot)) eav)) (<= (old nref) (. (snap (. res Snapshot)) aev)) (<= (old nref) (. (snap (. res Snapshot)) ave)) (<= (old nref) (. (snap (. res Snapshot)) idents)) (<= (old nref) (. (snap (. res Snapshot)) attrs))))
  (ensures ok (sinv (snap (. res Snapshot))))
  (ensures content :C01 :C02 :C06 :C14 (= (C (snap (. res Snapshot))) (dC db)))
  (ensures snapidents :C01 :C02 :C14 (samemap (. (snap (. res Snapshot)) idents) (. db idents)))
  (ensures snapattrs :C01 :C02 :C12 :C14 (samemap (. (snap (. res Snapshot)) attrs) (. db attrsByID)))
  (modifies @alloc ("gh.held" db) ("P.database_indexDatabase.eav" db) ("P.database_indexDatabase.aev" db) ("P.database_indexDatabase.ave" db) ("P.database_indexDatabase.attrTypes" db) ("P.database_indexDatabase.nextID" db)
    ("Md.types_Ident.types_ID" (. db idents) @fresh) ("Mv.types_Ident.types_ID" (. db idents) @fresh) ("Md.types_ID.types_Attr" (. db attrsByID) @fresh) ("Mv.types_ID.types_Attr" (. db attrsByID) @fresh)
    ("Md.types_Ident.types_Attr" (. db attrsByIdent)) ("Mv.types_Ident.types_Attr" (. db attrsByIdent)) ("Md.types_ID.types_ID" (. db attrUniques) @fresh) ("Mv.types_ID.types_ID" (. db attrUniques) @fresh)
    ("Md.types_ID.types_Void" (. db attrCardManies) @fresh) ("Mv.types_ID.types_Void" (. db attrCardManies) @fresh) ("Md.types_TempID.types_ID" @fresh) ("Mv.types_TempID.types_ID" @fresh) ("Md.types_ID.types_Ident" @fresh) ("Mv.types_ID.types_Ident" @fresh)
    ("A.types_Claim" @fresh) ("A.*types_Datum" @fresh) ("P.types_Datum.*" @fresh) ("P.types_Response.*" @fresh)
    ("G.D" @fresh) ("G.ord" @fresh) ("P.index_CompositeIndex.attrTypes" @fresh) ("P.database_indexSnapshot.*" @fresh)))

(func "database.(*indexDatabase).Write" (contract "types.Database.Write") (weight 100) (own C18 C06)
  (local claims "[]types.Claim") (local data "[]*types.Datum") (local rewrites "map[types.ID]types.ID") (local ids "map[types.ID]types.Void")
  (local attrChanges "map[types.ID]types.Attr") (local identCreates "map[types.ID]types.Ident") (local identChanges "map[types.Ident]types.ID")
  (local res "types.Response") (local eav "index.Index" 1) (local aev "index.Index" 2) (local ave "index.Index" 3) (local id "types.ID" last) (local i "int")
  (loop 1
    (lghost WJ "(Array Int Any)" (constarr (Array Int Any) VNil) (store $WJ $i $WR))
    (lghost WI "(Array Int Int)" (constarr (Array Int Int) -1) (store $WI (oref db $WR) $i))
    (inv mark (jx $i))
    (inv refs :open (forall ((j Int)) (! (=> (and (jx j) (<= 0 j) (< j $i)) (and (mhas (cons req j) (select $WJ j))
      (forall ((r Any)) (! (=> (and (rx r) (mhas (cons req j) r)) (and (not (= 0 (oref db r))) (= (oref db r) (oref db (select $WJ j))) (mhas $ids (oref db r)))) :pattern ((rx r)))))) :pattern ((jx j)))))
    (inv ids :open (forall ((e Int)) (! (=> (mhas $ids e) (and (nm db req e) (< (select $WI e) $i))) :pattern ((mhas $ids e))))))
  (loop 2
    (lghost WR "Any" VNil $key)
    (inv none :open (=> (= 0 $id) (forall ((r Any)) (! (not (select $visited r)) :pattern ((select $visited r))))))
    (inv same :open (forall ((r Any)) (! (=> (select $visited r) (and (= $id (oref db r)) (not (= 0 $id)))) :pattern ((select $visited r)))))
    (inv some :open (=> (not (= 0 $id)) (select $visited $WR))))
  (loop 3
    (lghost TW "(Array Key Int)" (constarr (Array Key Int) 0) $TU)
    (inv own :open (planOwn req))
    (inv clip (or (= (len $claims) (sl_cap $claims)) (<= (old nref) (sl_arr $claims))))
    (inv kept (forall ((p Int)) (! (=> (< p (old nref)) (= (select (heap "A.types_Claim") p) (old (select (heap "A.types_Claim") p)))) :pattern ((select (heap "A.types_Claim") p)))))
    (inv tail :open (planTail db req))
    (inv done :open (forall ((k Key)) (! (=> (and (not (= 0 (old0 db k))) (select $visited (k_e k))) (okTW k $TW (len (. req Claims)))) :pattern ((old0 db k))))))
  (loop 4
    (lghost TU "(Array Key Int)" $TW (store $TU (dkeyof (qat $q $i)) (- (len $claims) 1)))
    (inv own :open (planOwn req))
    (inv clip (or (= (len $claims) (sl_cap $claims)) (<= (old nref) (sl_arr $claims))))
    (inv kept (forall ((p Int)) (! (=> (< p (old nref)) (= (select (heap "A.types_Claim") p) (old (select (heap "A.types_Claim") p)))) :pattern ((select (heap "A.types_Claim") p)))))
    (inv tail :open (planTail db req))
    (inv mark :open (jx (len $claims)))
    (inv done :open (forall ((k Key)) (! (=> (and (not (= 0 (old0 db k))) (select $visited3 (k_e k))) (okTW k $TU (len (. req Claims)))) :pattern ((old0 db k)))))
    (inv seen :open (forall ((j Int)) (! (=> (and (<= 0 j) (< j $i)) (okTW (dkeyof (qat $q j)) $TU (len (. req Claims)))) :pattern ((qat $q j))))))
  (loop 5
    (lghost RJ "(Array Int Int)" (constarr (Array Int Int) -1) (ite (idc db $i) (store $RJ (. (idx $data $i) E) $i) $RJ))
    (arrive own :open (planOwn req)) (arrive tail :open (planTail db req)) (arrive all :open (planAll db req)) (arrive refs :open (planRefs db req))
    (arrive claims (and (okSlice $claims) (<= 0 (len $claims))))
    (arrive res (and (= VNil (. $res Error)) (= (. $res ID) (tx0 db)) (= (. db nextID) (+ 1 (tx0 db))) (<= (old nref) (. $res TempIDs)) (< (. $res TempIDs) nref)))
    (arrive notemp (forall ((t Real)) (! (and (not (mhas (. $res TempIDs) t)) (= 0 (mget (. $res TempIDs) t))) :pattern ((mhas (. $res TempIDs) t)) :pattern ((mget (. $res TempIDs) t)))))
    (arrive data (and (= 0 (len $data)) (<= (old nref) (sl_arr $data)) (< (sl_arr $data) nref)))
    (arrive fresh (and (<= (old nref) $rewrites) (<= (old nref) $attrChanges) (<= (old nref) $identCreates) (<= (old nref) $identChanges) (< $rewrites nref) (< $attrChanges nref) (< $identCreates nref) (< $identChanges nref)))
    (arrive norewrites (forall ((e Int)) (! (not (mhas $rewrites e)) :pattern ((mhas $rewrites e)))))
    (arrive nochanges (forall ((e Int)) (! (and (not (mhas $attrChanges e)) (= (zero types.Attr) (mget $attrChanges e))) :pattern ((mhas $attrChanges e)) :pattern ((mget $attrChanges e)))))
    (arrive nocreates (forall ((e Int)) (! (and (not (mhas $identCreates e)) (= 0.0 (mget $identCreates e))) :pattern ((mhas $identCreates e)) :pattern ((mget $identCreates e)))))
    (arrive noidents (forall ((s Real)) (! (and (not (mhas $identChanges s)) (= 0 (mget $identChanges s))) :pattern ((mhas $identChanges s)) :pattern ((mget $identChanges s)))))
    (lghost DI "(Array Int Int)" (constarr (Array Int Int) -1) (store $DI (idx $data $i) $i))
    (inv mark (jx $i))
    (inv fresh (freshdata $i))
    (inv targets (targets db))
    (inv vtmp (vtmp $i))
    (inv txs (txs db $i))
    (inv keptd (keptd))
    (inv noerr (= VNil (. $res Error)))
    (inv next (< (tx0 db) (. db nextID)))
    (inv tmp (tmpinv (. $res TempIDs) (tx0 db) (. db nextID)))
    (inv data (and (= $i (len $data)) (<= (old nref) (sl_arr $data)) (< (sl_arr $data) nref)))
    (inv placed :open (placed db $i (T0)))
    (inv apart :open (apart $i))
    (inv rewrites :open (and (rewritten db $i) (rewriting db $i)))
    (inv ranges (ranges $i (. db nextID)))
    (inv fitting (fitting db $i))
    (exit fresh (=> (noerr) (freshdata (n5))))
    (exit targets (=> (noerr) (targets db)))
    (exit vtmp (=> (noerr) (vtmp (n5))))
    (exit txs (=> (noerr) (txs db (n5))))
    (exit keptd (keptd))
    (exit next (< (tx0 db) (. db nextID)))
    (exit tmp (=> (noerr) (tmpinv (. $res TempIDs) (tx0 db) (. db nextID))))
    (exit data (and (=> (noerr) (= (n5) (len $data))) (<= (old nref) (sl_arr $data)) (< (sl_arr $data) nref)))
    (exit placed :open (=> (noerr) (placed db (n5) (T0))))
    (exit apart :open (=> (noerr) (apart (n5))))
    (exit rewrites :open (=> (noerr) (and (rewritten db (n5)) (rewriting db (n5)))))
    (exit ranges (=> (noerr) (ranges (n5) (. db nextID))))
    (exit fitting (=> (noerr) (fitting db (n5)))))
  (loop 6
    (lghost H "(Array Int (Array Key Int))" (constarr (Array Int (Array Key Int)) (oC db)) (store $H (+ $i 1) (stp (select $H $i) (manyset db) (. (idx $claims $i) Retract) (dk $i) (tx0 db))))
    (inv place (and (jx $i) (<= 0 $i) (=> (noerr) (<= $i (n5)))))
    (inv good (=> (noerr) (at exit5 (noerr))))
    (inv kept (w6kept db req $i))
    (inv data :open (=> (noerr) (w6data db req $i)))
    (inv tmp :open :C09 (=> (noerr) (w6tmp db req $i)))
    (inv used :open :C09 (=> (noerr) (w6used db req $i)))
    (inv user :open (=> (noerr) (w6user db req $i)))
    (inv steps :open (=> (noerr) (w6steps db req $i)))
    (inv one :open :C07 (=> (noerr) (w6one db req $i)))
    (inv ids :open :C15 (=> (noerr) (w6ids db req $i)))
    (inv names :open :C13 (=> (noerr) (w6names db req $i)))
    (inv sys :open :C13 (=> (noerr) (w6sys db req $i)))
    (inv attr :open :C12 (=> (noerr) (w6attr db req $i)))
    (inv def :open :C12 (=> (noerr) (w6def db req $i)))
    (inv defs :open :C12 (=> (noerr) (w6defs db req $i)))
    (inv idents :open :C12 (=> (noerr) (w6idents db req $i)))
    (inv gone :open :C16 (=> (noerr) (w6gone db req $i)))
    (inv rest :open :C16 (=> (noerr) (w6rest db req $i)))
    (inv vtmp (=> (noerr) (vtmp (n5))))
    (inv ranges (=> (noerr) (ranges (n5) (. db nextID))))
    (inv fitting (=> (noerr) (fitting db (n5))))
    (inv users (=> (noerr) (w6user db req $i)))
    (inv idents2 :C13 (=> (noerr) (naming $i)))
    (inv fresh2 (=> (noerr) (newattrs db)))
    (exit good (=> (noerr) (at exit5 (noerr))))
    (exit kept (w6kept db req (n5)))
    (exit ranges (=> (noerr) (ranges (n5) (. db nextID))))
    (exit fitting (=> (noerr) (fitting db (n5))))
    (exit users (=> (noerr) (w6user db req (n5))))
    (exit idents2 :C13 (=> (noerr) (naming (n5))))
    (exit fresh2 (=> (noerr) (newattrs db)))
    (exit data :open (=> (noerr) (w6data db req (n5))))
    (exit tmp :open :C09 (=> (noerr) (w6tmp db req (n5))))
    (exit used :open :C09 (=> (noerr) (w6used db req (n5))))
    (exit user :open (=> (noerr) (w6user db req (n5))))
    (exit steps :open (=> (noerr) (w6steps db req (n5))))
    (exit one :open :C07 (=> (noerr) (w6one db req (n5))))
    (exit ids :open :C15 (=> (noerr) (w6ids db req (n5))))
    (exit names :open :C13 (=> (noerr) (w6names db req (n5))))
    (exit sys :open :C13 (=> (noerr) (w6sys db req (n5))))
    (exit attr :open :C12 (=> (noerr) (w6attr db req (n5))))
    (exit def :open :C12 (=> (noerr) (w6def db req (n5))))
    (exit defs :open :C12 (=> (noerr) (w6defs db req (n5))))
    (exit idents :open :C12 (=> (noerr) (w6idents db req (n5))))
    (exit gone :open :C16 (=> (noerr) (w6gone db req (n5))))
    (exit rest :open :C16 (=> (noerr) (w6rest db req (n5))))
    (exit retracted :open :C16 (=> (noerr) (forall ((k Key)) (! (=> (and (not (= 0 (old0 db k))) (nm db req (k_e k))) (= 0 (select (select $H (n5)) k))) :pattern ((old0 db k))))))
  )
  (loop 7
    (inv good (=> (noerr) (at exit6 (noerr))))
    (exit good (=> (noerr) (at exit6 (noerr))))
    (inv dom (forall ((e Int)) (! (= (mhas $attrChanges e) (at exit6 (mhas $attrChanges e))) :pattern ((mhas $attrChanges e)))))
    (inv seen :C12 (=> (noerr) (forall ((e Int)) (! (=> (select $visited e) (sound7 e)) :pattern ((select $visited e)) :pattern ((mget $attrChanges e))))))
    (inv rest (forall ((e Int)) (! (=> (not (select $visited e)) (= (mget $attrChanges e) (at exit6 (mget $attrChanges e)))) :pattern ((select $visited e)) :pattern ((mget $attrChanges e)))))
    (exit dom (forall ((e Int)) (! (= (mhas $attrChanges e) (at exit6 (mhas $attrChanges e))) :pattern ((mhas $attrChanges e)))))
    (exit attrs :C12 (=> (noerr) (forall ((e Int)) (! (=> (mhas $attrChanges e) (sound7 e)) :pattern ((mhas $attrChanges e)) :pattern ((mget $attrChanges e)))))))
  (loop 8
    (inv mark (and (jx $i) (<= 0 $i) (<= $i (n5))))
    (inv noerr (noerr))
    (inv eav (cinv $eav))
    (inv aev (cinv $aev))
    (inv ave (cinv $ave))
    (inv same (= (c8) (select (heap "G.D") $aev)))
    (inv part (ave8 db (c8)))
    (inv uniq (uniqof (c8) db))
    (inv one :C07 (oneof (c8) db))
    (inv ids :C15 (idsof (c8) (. db nextID)))
    (inv names :C13 (namesof (c8)))
    (inv sys :C13 (sys8 db (c8)))
    (inv idents :C14 (idents8 db (c8)))
    (inv chain :open (= (c8) (select $H $i)))
    (exit eav (=> (noerr) (cinv $eav)))
    (exit aev (=> (noerr) (cinv $aev)))
    (exit ave (=> (noerr) (cinv $ave)))
    (exit same (=> (noerr) (= (c8) (select (heap "G.D") $aev))))
    (exit part (=> (noerr) (ave8 db (c8))))
    (exit uniq (=> (noerr) (uniqof (c8) db)))
    (exit one :C07 (=> (noerr) (oneof (c8) db)))
    (exit ids :C15 (=> (noerr) (idsof (c8) (. db nextID))))
    (exit names :C13 (=> (noerr) (namesof (c8))))
    (exit sys :C13 (=> (noerr) (sys8 db (c8))))
    (exit idents :C14 (=> (noerr) (idents8 db (c8))))
    (exit chain :open (=> (noerr) (= (c8) (select $H (n5))))))
  (loop 9
    (inv idents :C14 (forall ((s Real)) (! (= (dident db s) (ite (select $visited s) (mget $identChanges s) (oident db s))) :pattern ((dident db s)))))
    (inv has :C14 (forall ((s Real)) (! (= (mhas (. db idents) s) (not (= 0 (dident db s)))) :pattern ((dident db s)) :pattern ((mhas (. db idents) s)))))
    (exit idents :C14 (forall ((s Real)) (! (= (dident db s) (icur db s)) :pattern ((dident db s)))))
    (exit has :C14 (forall ((s Real)) (! (= (mhas (. db idents) s) (not (= 0 (dident db s)))) :pattern ((dident db s)) :pattern ((mhas (. db idents) s))))))
  (loop 10
    (arrive types (and (< 0 (. db attrTypes)) (allocated (. db attrTypes)) (not (= (. db attrTypes) (. db attrUniques))) (= (. db attrTypes) (tyref (. db eav))) (= (. db attrTypes) (tyref (. db aev))) (= (. db attrTypes) (tyref (. db ave)))))
    (arrive shared (or (<= (old nref) (. db attrTypes)) (and (= (. db attrTypes) (old (. db attrTypes))) (= (mdom (. db attrTypes)) (old (mdom (. db attrTypes)))) (forall ((e Int)) (! (not (mhas $attrChanges e)) :pattern ((mhas $attrChanges e)))))))
    (inv still (or (<= (old nref) (. db attrTypes)) (= (mdom (. db attrTypes)) (old (mdom (. db attrTypes))))))
    (arrive old (forall ((a Int)) (! (= (dtype db a) (otype db a)) :pattern ((dtype db a)))))
    (arrive eav (and (= (cd db) (select (heap "G.D") (. db aev))) (ave8d db (cd db)) (uniqof0 (cd db) db)))
    (arrive one :C07 (oneof0 (cd db) db))
    (arrive ids :C15 (idsof (cd db) (. db nextID)))
    (arrive names :C13 (namesof (cd db)))
    (arrive sys :C13 (sys8 db (cd db)))
    (arrive fit (and (cinv (. db eav)) (cinv (. db aev)) (cinv (. db ave))))
    (inv idents :open (forall ((s Real)) (! (and (= (dident db s) (at exit9 (dident db s))) (= (mhas (. db idents) s) (at exit9 (mhas (. db idents) s)))) :pattern ((dident db s)) :pattern ((mhas (. db idents) s)))))
    (inv attrs (forall ((a Int)) (! (and (= (isattr db a) (or (oattr db a) (select $visited a))) (= (dattr db a) (ite (select $visited a) (mget $attrChanges a) (odef db a)))) :pattern ((isattr db a)) :pattern ((dattr db a)))))
    (inv types (forall ((a Int)) (! (= (dtype db a) (ite (select $visited a) (. (mget $attrChanges a) Type) (otype db a))) :pattern ((dtype db a)))))
    (inv uniques (forall ((a Int)) (! (and (= (duniq db a) (ite (select $visited a) (. (mget $attrChanges a) Unique) (oduniq db a))) (= (mhas (. db attrUniques) a) (not (= 0 (duniq db a))))) :pattern ((duniq db a)) :pattern ((mhas (. db attrUniques) a)))))
    (inv manies (forall ((a Int)) (! (= (dmany db a) (or (odmany db a) (and (select $visited a) (= 10 (. (mget $attrChanges a) Cardinality))))) :pattern ((dmany db a))))))
  )
