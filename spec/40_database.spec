; The database: its state, what requests mean, and what writing one does.
(component "gh.held" (Array Int Bool))

; ---- its state ----
(macro dC (db) (select (heap "G.D") (. db eav)))
(macro dtype (db a) (mget (. db attrTypes) a))
(macro duniq (db a) (mget (. db attrUniques) a))
(macro dmany (db a) (mhas (. db attrCardManies) a))
(macro isattr (db a) (mhas (. db attrsByID) a))
(macro dattr (db a) (mget (. db attrsByID) a))
(macro dident (db i) (mget (. db idents) i))

(macro shapeinv (db) (and (< 0 db) (allocated db)
  (cinv (. db eav)) (cinv (. db aev)) (cinv (. db ave)) (= 1 (ORD (. db eav))) (= 2 (ORD (. db aev))) (= 3 (ORD (. db ave)))
  (distinct (. db eav) (. db aev) (. db ave))
  (< 0 (. db attrsByID)) (allocated (. db attrsByID)) (< 0 (. db attrsByIdent)) (allocated (. db attrsByIdent))
  (< 0 (. db attrTypes)) (allocated (. db attrTypes)) (< 0 (. db attrUniques)) (allocated (. db attrUniques)) (not (= (. db attrTypes) (. db attrUniques)))
  (< 0 (. db attrCardManies)) (allocated (. db attrCardManies)) (< 0 (. db idents)) (allocated (. db idents))
  (= (. db attrTypes) (tyref (. db eav))) (= (. db attrTypes) (tyref (. db aev))) (= (. db attrTypes) (tyref (. db ave)))))
; the indexes hold the same datums, the unique index those of unique attributes
(macro sameinv (db) (and (= (dC db) (select (heap "G.D") (. db aev)))
  (forall ((k Key)) (! (= (D (. db ave) k) (ite (= 0 (duniq db (k_a k))) 0 (select (dC db) k))) :pattern ((D (. db ave) k)) :pattern ((select (dC db) k))))))
; what is known of attributes
(macro attrinv (db) (forall ((a Int)) (! (and (= (mhas (. db attrUniques) a) (not (= 0 (duniq db a))))
   (=> (isattr db a) (and (< 0 a) (< a (. db nextID)) (= a (. (dattr db a) ID)) (validtype (. (dattr db a) Type)) (= (dtype db a) (. (dattr db a) Type)) (= (duniq db a) (. (dattr db a) Unique))
      (= (dmany db a) (= 10 (. (dattr db a) Cardinality)))
      (or (= 0 (. (dattr db a) Cardinality)) (= 9 (. (dattr db a) Cardinality)) (= 10 (. (dattr db a) Cardinality)))
      (or (= 0 (. (dattr db a) Unique)) (= 7 (. (dattr db a) Unique)) (= 8 (. (dattr db a) Unique)))))
   (=> (not (isattr db a)) (and (= 0 (dtype db a)) (= 0 (duniq db a)) (not (dmany db a)))))
   :pattern ((isattr db a)) :pattern ((dtype db a)) :pattern ((duniq db a)) :pattern ((mhas (. db attrUniques) a)) :pattern ((dmany db a)) :pattern ((dattr db a)))))
(macro sysinv (db) (and (isattr db 1) (= 12 (dtype db 1)) (= 7 (duniq db 1)) (not (dmany db 1))
   (isattr db 2) (= 11 (dtype db 2)) (= 0 (duniq db 2)) (not (dmany db 2)) (isattr db 3) (= 11 (dtype db 3)) (= 0 (duniq db 3)) (not (dmany db 3))
   (isattr db 4) (= 11 (dtype db 4)) (= 0 (duniq db 4)) (not (dmany db 4)) (<= 1048576 (. db nextID))))
; attributes are defined by their datums
(macro defA (c e a v) (not (= 0 (select c (mkK e a v)))))
(macro definv (db) (and
  (forall ((e Int)) (! (=> (isattr db e) (and (defA (dC db) e 1 (VString (. (dattr db e) Ident))) (defA (dC db) e 2 (VID (. (dattr db e) Type)))
     (=> (not (= 0 (. (dattr db e) Unique))) (defA (dC db) e 3 (VID (. (dattr db e) Unique))))
     (=> (not (= 0 (. (dattr db e) Cardinality))) (defA (dC db) e 4 (VID (. (dattr db e) Cardinality)))))) :pattern ((isattr db e)) :pattern ((dattr db e))))
  (forall ((k Key)) (! (=> (not (= 0 (select (dC db) k))) (and
     (=> (= 2 (k_a k)) (and (isattr db (k_e k)) (= (k_v k) (VID (. (dattr db (k_e k)) Type)))))
     (=> (= 3 (k_a k)) (and (isattr db (k_e k)) (= (k_v k) (VID (. (dattr db (k_e k)) Unique)))))
     (=> (= 4 (k_a k)) (and (isattr db (k_e k)) (= (k_v k) (VID (. (dattr db (k_e k)) Cardinality))))))) :pattern ((select (dC db) k))))))
; idents are those recorded
(macro identinv (db) (and
  (forall ((i Real)) (! (= (mhas (. db idents) i) (not (= 0 (dident db i)))) :pattern ((mhas (. db idents) i)) :pattern ((dident db i))))
  (forall ((i Real) (e Int)) (! (=> (defA (dC db) e 1 (VString i)) (= e (dident db i))) :pattern ((select (dC db) (mkK e 1 (VString i))))))
  (forall ((i Real)) (! (=> (not (= 0 (dident db i))) (defA (dC db) (dident db i) 1 (VString i))) :pattern ((dident db i))))))
; single-valued attributes have one value, unique values one holder
(macro oneof (c db) (forall ((k Key) (l Key)) (! (=> (and (not (= 0 (select c k))) (not (= 0 (select c l))) (= (k_e k) (k_e l)) (= (k_a k) (k_a l)) (not (dmany db (k_a k)))) (= k l)) :pattern ((select c k) (select c l)))))
(macro uniqof (c db) (forall ((k Key) (l Key)) (! (=> (and (not (= 0 (select c k))) (not (= 0 (select c l))) (= (k_a k) (k_a l)) (= (k_v k) (k_v l)) (not (= 0 (duniq db (k_a k))))) (= k l)) :pattern ((select c k) (select c l)))))
; ids are those issued
(macro idsof (c next) (forall ((k Key)) (! (=> (not (= 0 (select c k))) (and (< (k_e k) next) (< (select c k) next) (not (= (k_v k) (VID 0))))) :pattern ((select c k)))))
; names under the reserved root belong to the system
(macro reserved (i) (hasprefix i "sys/"))
(macro namesof (c) (forall ((k Key)) (! (=> (and (not (= 0 (select c k))) (<= 1048576 (k_e k)) (= 1 (k_a k))) (not (reserved (v_str (k_v k))))) :pattern ((select c k)))))

(macro dbinv (db) (and (shapeinv db) (sameinv db) (attrinv db) (sysinv db) (definv db) (identinv db) (oneof (dC db) db) (uniqof (dC db) db) (idsof (dC db) (. db nextID)) (namesof (dC db))))

; ---- what the system allows ----
(func "sys.ValidUserIdent" (props C13 C14) (contract (v) (r) (ensures unreserved (= r (not (reserved v))))))
(func "sys.ValidValue" (props C10) (contract (t v) (r) (ensures typed (= r (okval t v)))))
(func "sys.ValidAttrType" (props C10 C12) (contract (t) (r) (ensures known (= r (validtype t)))))
(func "sys.ValidAttrCardinality" (props C07 C12) (contract (t) (r) (ensures known (= r (or (= t 9) (= t 10))))))
(func "sys.ValidUnique" (props C08 C12) (contract (t) (r) (ensures known (= r (or (= t 7) (= t 8))))))

; ---- what references mean ----
(macro daref (db a) (ite ((_ is VID) a) (v_id a) (ite ((_ is VIdent) a) (dident db (v_ident a)) 0)))
(macro dlookup (db a v) (ite (= 0 (duniq db (daref db a))) 0 (uent (dC db) (daref db a) (canonv v))))
(macro dref (db r) (ite ((_ is VID) r) (v_id r) (ite ((_ is VIdent) r) (dident db (v_ident r)) (ite ((_ is VLookup) r) (dlookup db (v_la r) (v_lv r)) 0))))

(macro dbof (d) (as "*database.indexDatabase" d))
(contract "database.(*indexDatabase).resolveLookupRef" (db ref) (id)
  (requires held (select (heap "gh.held") db))
  (requires shape (shapeinv db)) (requires same (sameinv db)) (requires attrs (attrinv db)) (requires uniq (uniqof (dC db) db))
  (ensures holder (= id (dlookup db (. ref A) (. ref V)))))
(func "database.(*indexDatabase).resolveLookupRef" (contract "database.(*indexDatabase).resolveLookupRef"))

(contract "database.(*indexDatabase).allocateID" (db) (id)
  (requires held (select (heap "gh.held") db))
  (requires ok (< 0 db))
  (ensures id (= id (old (. db nextID))))
  (ensures next (= (. db nextID) (+ 1 id)))
  (modifies ("P.database_indexDatabase.nextID" db)))
(func "database.(*indexDatabase).allocateID" (contract "database.(*indexDatabase).allocateID"))

; a claim's references can be resolved, and its value is one of its attribute's type
(macro eok (db c tx) (or (and ((_ is VID) (. c E)) (< 0 (v_id (. c E)) tx)) (and (or ((_ is VIdent) (. c E)) ((_ is VLookup) (. c E))) (not (= 0 (dref db (. c E))))) ((_ is VTempID) (. c E)) ((_ is VTxnID) (. c E))))
(macro aok (db c tx) (or (and ((_ is VID) (. c A)) (< 0 (v_id (. c A)) tx)) (and (or ((_ is VIdent) (. c A)) ((_ is VLookup) (. c A))) (not (= 0 (dref db (. c A)))))))
(macro vok (db c) (and (=> (or ((_ is VIdent) (. c V)) ((_ is VLookup) (. c V))) (not (= 0 (dref db (. c V))))) (not (= (. c V) (VID 0)))
   (okval (dtype db (dref db (. c A))) (ite (or ((_ is VIdent) (. c V)) ((_ is VLookup) (. c V)) ((_ is VTempID) (. c V))) (VID 1) (. c V)))))
(macro claimfits (db c tx) (and (eok db c tx) (aok db c tx) (vok db c)))
; a claim's datum, where tmp is what tempids denote
(macro rese (db c tx tmp) (ite ((_ is VTempID) (. c E)) (mget tmp (v_tmp (. c E))) (ite ((_ is VTxnID) (. c E)) tx (dref db (. c E)))))
(macro resa (db c) (dref db (. c A)))
(macro resv (db c tmp) (ite ((_ is VTempID) (. c V)) (VID (mget tmp (v_tmp (. c V)))) (ite (or ((_ is VIdent) (. c V)) ((_ is VLookup) (. c V))) (VID (dref db (. c V))) (. c V))))

; tempids denote different fresh ids
(macro tmpinv (tmp tx next) (and (< 0 tmp) (allocated tmp)
  (forall ((t Real)) (! (and (=> (mhas tmp t) (and (< tx (mget tmp t)) (< (mget tmp t) next))) (=> (not (mhas tmp t)) (= 0 (mget tmp t)))) :pattern ((mhas tmp t)) :pattern ((mget tmp t))))
  (forall ((t Real) (u Real)) (! (=> (and (mhas tmp t) (mhas tmp u) (= (mget tmp t) (mget tmp u))) (= t u)) :pattern ((mget tmp t) (mget tmp u))))))

(contract "database.(*indexDatabase).evaluateClaim" (db res claim) (datum)
  (requires held (select (heap "gh.held") db))
  (requires shape (shapeinv db)) (requires same (sameinv db)) (requires attrs (attrinv db)) (requires uniq (uniqof (dC db) db)) (requires idents (identinv db)) (requires sys (sysinv db))
  (requires args (and (< 0 res) (< 0 claim) (allocated res) (allocated claim)))
  (requires noerr (= VNil (. res Error)))
  (requires tx (and (< 0 (. res ID)) (< (. res ID) (. db nextID))))
  (requires tmp (tmpinv (. res TempIDs) (. res ID) (. db nextID)))
  (ensures new (and (<= (old nref) datum) (< datum nref)))
  (ensures fits :C06 :C10 :C15 :C21 (= (= VNil (. res Error)) (claimfits db (deref claim) (. res ID))))
  (ensures e (=> (= VNil (. res Error)) (= (. datum E) (rese db (deref claim) (. res ID) (. res TempIDs)))))
  (ensures a (=> (= VNil (. res Error)) (= (. datum A) (resa db (deref claim)))))
  (ensures v (=> (= VNil (. res Error)) (= (. datum V) (resv db (deref claim) (. res TempIDs)))))
  (ensures t :C17 (= (. datum T) (. res ID)))
  (ensures next (<= (old (. db nextID)) (. db nextID)))
  (ensures tmp (tmpinv (. res TempIDs) (. res ID) (. db nextID)))
  (ensures kept (forall ((t Real)) (! (=> (old (mhas (. res TempIDs) t)) (and (mhas (. res TempIDs) t) (= (mget (. res TempIDs) t) (old (mget (. res TempIDs) t))))) :pattern ((mhas (. res TempIDs) t)) :pattern ((mget (. res TempIDs) t)))))
  (ensures known (=> (= VNil (. res Error)) (and (=> ((_ is VTempID) (. claim E)) (mhas (. res TempIDs) (v_tmp (. claim E)))) (=> ((_ is VTempID) (. claim V)) (mhas (. res TempIDs) (v_tmp (. claim V)))))))
  (ensures used (forall ((t Real)) (! (=> (and (mhas (. res TempIDs) t) (not (old (mhas (. res TempIDs) t)))) (or (= (. claim E) (VTempID t)) (= (. claim V) (VTempID t)))) :pattern ((mhas (. res TempIDs) t)))))
  (modifies @alloc ("P.types_Response.Error" res) ("Md.types_TempID.types_ID" (. res TempIDs)) ("Mv.types_TempID.types_ID" (. res TempIDs)) ("P.database_indexDatabase.nextID" db) ("P.types_Datum.*" @fresh)))
(func "database.(*indexDatabase).evaluateClaim" (props C09 C20) (contract "database.(*indexDatabase).evaluateClaim"))

; ---- reading ----
(macro samemap (m n) (and (= (mdom m) (mdom n)) (= (mvals m) (mvals n))))
(macro snap (s) (as "*database.indexSnapshot" s))
(contract "database.(*indexDatabase).read" (db) (s)
  (requires held (select (heap "gh.held") db))
  (requires shape (shapeinv db)) (requires same (sameinv db)) (requires attrs (attrinv db)) (requires uniq (uniqof (dC db) db))
  (ensures new :C02 (and (<= (old nref) s) (< s nref) (<= (old nref) (. (snap s) eav)) (<= (old nref) (. (snap s) aev)) (<= (old nref) (. (snap s) ave)) (<= (old nref) (. (snap s) idents)) (<= (old nref) (. (snap s) attrs))))
  (ensures ok (sinv (snap s)))
  (ensures content :C01 :C02 :C06 :C14 :C19 (= (C (snap s)) (dC db)))
  (ensures idents :C01 :C02 :C14 :C19 (samemap (. (snap s) idents) (. db idents)))
  (ensures attrs :C01 :C02 :C12 :C14 :C19 (samemap (. (snap s) attrs) (. db attrsByID)))
  (modifies @alloc ("G.D" @fresh) ("G.ord" @fresh) ("P.index_CompositeIndex.attrTypes" @fresh) ("P.database_indexSnapshot.*" @fresh)
    ("Md.types_Ident.types_ID" @fresh) ("Mv.types_Ident.types_ID" @fresh) ("Md.types_ID.types_Attr" @fresh) ("Mv.types_ID.types_Attr" @fresh)))
(func "database.(*indexDatabase).read" (contract "database.(*indexDatabase).read"))

(contract "types.Database.Read" (db) (s)
  (requires free (not (select (heap "gh.held") db)))
  (requires ok (dbinv db))
  (ensures free :C18 :C19 (not (select (heap "gh.held") db)))
  (ensures new :C02 (and (<= (old nref) s) (< s nref) (<= (old nref) (. (snap s) eav)) (<= (old nref) (. (snap s) aev)) (<= (old nref) (. (snap s) ave)) (<= (old nref) (. (snap s) idents)) (<= (old nref) (. (snap s) attrs))))
  (ensures ok (sinv (snap s)))
  (ensures content :C01 :C02 :C06 :C14 :C19 (= (C (snap s)) (dC db)))
  (ensures idents :C01 :C02 :C14 :C19 (samemap (. (snap s) idents) (. db idents)))
  (ensures attrs :C01 :C02 :C12 :C14 :C19 (samemap (. (snap s) attrs) (. db attrsByID)))
  (modifies @alloc ("gh.held" db) ("G.D" @fresh) ("G.ord" @fresh) ("P.index_CompositeIndex.attrTypes" @fresh) ("P.database_indexSnapshot.*" @fresh)
    ("Md.types_Ident.types_ID" @fresh) ("Mv.types_Ident.types_ID" @fresh) ("Md.types_ID.types_Attr" @fresh) ("Mv.types_ID.types_Attr" @fresh)))
(func "database.(*indexDatabase).Read" (contract "types.Database.Read"))

; ---- the new database ----
; what a new database holds
(define sysC ((k Key)) Bool (or
  (= k (mkK 1 1 (VString "sys/db/ident"))) (= k (mkK 2 1 (VString "sys/attr/type"))) (= k (mkK 3 1 (VString "sys/attr/unique"))) (= k (mkK 4 1 (VString "sys/attr/cardinality")))
  (= k (mkK 6 1 (VString "sys/tx/at"))) (= k (mkK 7 1 (VString "sys/attr/unique/identity"))) (= k (mkK 8 1 (VString "sys/attr/unique/value")))
  (= k (mkK 9 1 (VString "sys/attr/cardinality/one"))) (= k (mkK 10 1 (VString "sys/attr/cardinality/many")))
  (= k (mkK 11 1 (VString "sys/attr/type/ref"))) (= k (mkK 12 1 (VString "sys/attr/type/string"))) (= k (mkK 13 1 (VString "sys/attr/type/int")))
  (= k (mkK 14 1 (VString "sys/attr/type/bool"))) (= k (mkK 15 1 (VString "sys/attr/type/inst"))) (= k (mkK 16 1 (VString "sys/attr/type/float")))
  (= k (mkK 17 1 (VString "sys/attr/ref/type"))) (= k (mkK 18 1 (VString "sys/attr/ref/type/dependent"))) (= k (mkK 19 1 (VString "sys/db/rank")))
  (= k (mkK 1 2 (VID 12))) (= k (mkK 2 2 (VID 11))) (= k (mkK 3 2 (VID 11))) (= k (mkK 4 2 (VID 11))) (= k (mkK 6 2 (VID 15))) (= k (mkK 17 2 (VID 11))) (= k (mkK 19 2 (VID 13)))
  (= k (mkK 1 3 (VID 7)))
  (= k (mkK 5 6 (canonv (VInst zeroTime))))))

(define sysType ((a Int)) Int (ite (= a 1) 12 (ite (or (= a 2) (= a 3) (= a 4) (= a 17)) 11 (ite (= a 6) 15 (ite (= a 19) 13 0)))))
(contract "database.NewIndexDatabase" (degree attrsSize identsSize) (r)
  (requires degree (< 1 degree))
  (requires machine (and (<= 0 attrsSize) (<= attrsSize 1073741824)))
  (ensures new (and (<= (old nref) r) (< r nref)))
  (ensures shape (shapeinv (dbof r)))
  (ensures same (sameinv (dbof r)))
  (ensures attrs :C12 (attrinv (dbof r)))
  (ensures sys :C13 (sysinv (dbof r)))
  (ensures def :C12 (definv (dbof r)))
  (ensures idents :C14 (identinv (dbof r)))
  (ensures one :C07 (oneof (dC (dbof r)) (dbof r)))
  (ensures unique :C08 (uniqof (dC (dbof r)) (dbof r)))
  (ensures ids :C15 (idsof (dC (dbof r)) (. (dbof r) nextID)))
  (ensures names :C13 (namesof (dC (dbof r))))
  (ensures holds :C06 :C13 (forall ((k Key)) (! (= (D (. (dbof r) eav) k) (ite (sysC k) 5 0)) :pattern ((D (. (dbof r) eav) k)))))
  (modifies @alloc ("G.D" @fresh) ("G.ord" @fresh) ("P.index_CompositeIndex.attrTypes" @fresh) ("P.database_indexDatabase.*" @fresh)
    ("Md.types_Ident.types_ID" @fresh) ("Mv.types_Ident.types_ID" @fresh) ("Md.types_ID.types_Attr" @fresh) ("Mv.types_ID.types_Attr" @fresh)
    ("Md.types_Ident.types_Attr" @fresh) ("Mv.types_Ident.types_Attr" @fresh) ("Md.types_ID.types_ID" @fresh) ("Mv.types_ID.types_ID" @fresh)
    ("Md.types_ID.types_Void" @fresh) ("Mv.types_ID.types_Void" @fresh)))
(func "database.NewIndexDatabase" (contract "database.NewIndexDatabase") (content "sys.Attrs" "sys.Idents" "sys.Datums")
  (local byid "map[types.ID]types.Attr") (local types "map[types.ID]types.ID") (local uniques "map[types.ID]types.ID" last) (local manies "map[types.ID]types.Void")
  (loop 1
    (inv attrs (forall ((a Int)) (! (= (mhas $byid a) (select $visited a)) :pattern ((mhas $byid a)))))
    (inv attr (forall ((a Int)) (! (=> (select $visited a) (and (= (mget $byid a) (mget $m a)) (= (mget $types a) (. (mget $m a) Type)) (= (mget $uniques a) (. (mget $m a) Unique)) (= (mhas $manies a) (= 10 (. (mget $m a) Cardinality))))) :pattern ((mget $byid a)) :pattern ((mget $types a)) :pattern ((mget $uniques a)) :pattern ((mhas $manies a)))))
    (inv none (forall ((a Int)) (! (=> (not (select $visited a)) (and (= (mget $byid a) (zero types.Attr)) (= 0 (mget $types a)) (= 0 (mget $uniques a)) (not (mhas $manies a)))) :pattern ((mget $types a)) :pattern ((mget $uniques a)) :pattern ((mhas $manies a)))))
    (inv uniques (forall ((a Int)) (! (= (mhas $uniques a) (not (= 0 (mget $uniques a)))) :pattern ((mhas $uniques a)))))
    (exit byid (forall ((a Int)) (! (= (mhas $byid a) (not (= 0 (sysType a)))) :pattern ((mhas $byid a)))))
    (exit attr (forall ((a Int)) (! (and (= (. (mget $byid a) ID) (ite (= 0 (sysType a)) 0 a)) (= (. (mget $byid a) Type) (sysType a)) (= (. (mget $byid a) Unique) (ite (= a 1) 7 0)) (= 0 (. (mget $byid a) Cardinality))) :pattern ((mget $byid a)))))
    (exit types (forall ((a Int)) (! (= (mget $types a) (sysType a)) :pattern ((mget $types a)))))
    (exit unique (forall ((a Int)) (! (= (mget $uniques a) (ite (= a 1) 7 0)) :pattern ((mget $uniques a)))))
    (exit uniqued (forall ((a Int)) (! (= (mhas $uniques a) (not (= 0 (mget $uniques a)))) :pattern ((mhas $uniques a)) :pattern ((mget $uniques a)))))
    (exit uniques (and (mhas $uniques 1) (not (mhas $uniques 2)) (not (mhas $uniques 3)) (not (mhas $uniques 6))))
    (exit manies (forall ((a Int)) (! (not (mhas $manies a)) :pattern ((mhas $manies a)))))
    (exit names (and (= "sys/db/ident" (. (mget $byid 1) Ident)) (= "sys/attr/type" (. (mget $byid 2) Ident)) (= "sys/attr/unique" (. (mget $byid 3) Ident)) (= "sys/attr/cardinality" (. (mget $byid 4) Ident))
       (= "sys/tx/at" (. (mget $byid 6) Ident)) (= "sys/attr/ref/type" (. (mget $byid 17) Ident)) (= "sys/db/rank" (. (mget $byid 19) Ident)))))
  (loop 2 unroll))
