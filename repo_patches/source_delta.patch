From ee0da56962bd5d4d965e29c68e285c5aebafae0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:02 +0000
Subject: [PATCH 01/21] fix: order NaN values totally in the indexes

---
 internal/index/compare.go | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/internal/index/compare.go b/internal/index/compare.go
index fa853b0..49992f2 100644
--- a/internal/index/compare.go
+++ b/internal/index/compare.go
@@ -15,7 +15,7 @@ func LessEAV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.A > d2.A:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
@@ -26,9 +26,9 @@ func LessAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 		less = true
 	case d1.A > d2.A:
 		less = false
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	default:
 		less = d1.E < d2.E
@@ -47,16 +47,16 @@ func LessAEV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	case d1.E > d2.E:
 		less = false
 	default:
-		less = d1.V < d2.V
+		less = cmp.Less(d1.V, d2.V)
 	}
 	return
 }
 
 func LessVAE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (less bool) {
 	switch {
-	case d1.V < d2.V:
+	case cmp.Less(d1.V, d2.V):
 		less = true
-	case d1.V > d2.V:
+	case cmp.Less(d2.V, d1.V):
 		less = false
 	case d1.A < d2.A:
 		less = true
@@ -143,14 +143,7 @@ func CompareAVE[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
 }
 
 func CompareV[X cmp.Ordered](d1 TypedDatum[X], d2 TypedDatum[X]) (diff int) {
-	switch {
-	case d1.V < d2.V:
-		diff = -1
-	case d1.V > d2.V:
-		diff = 1
-	default:
-		diff = 0
-	}
+	diff = cmp.Compare(d1.V, d2.V)
 	return
 }
 
-- 
2.43.0


From 7bf3637200dd69ab1713a99c4bd103598c24f62c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:23 +0000
Subject: [PATCH 02/21] fix: select, find first, and count negative floats

---
 internal/index/index.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/internal/index/index.go b/internal/index/index.go
index b202605..8f846df 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -146,6 +146,9 @@ var boolValuer TypeValuer[uint64] = TypeValuer[uint64]{
 		return
 	},
 }
+// minFloat is the first float value in index order, which sorts nan before every other value.
+var minFloat = math.NaN()
+
 var instValuer TypeValuer[int64] = TypeValuer[int64]{
 	valuer:   func(v int64) (value Value) { return Inst(time.UnixMilli(v).UTC()) },
 	devaluer: func(value Value) (v int64) { return time.Time(value.(Inst)).UnixMilli() },
@@ -310,11 +313,11 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			seq = idx.floats.Select(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			seq = idx.floats.Select(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			seq = idx.floats.Select(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -391,11 +394,11 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareEA[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A})
+			match, extant = idx.floats.First(CompareAE[float64], floatValuer.valuer, TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A})
+			match, extant = idx.floats.First(CompareA[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			match, extant = idx.floats.First(CompareAV[float64], floatValuer.valuer, TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
@@ -471,11 +474,11 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	case sys.AttrTypeFloat:
 		switch p {
 		case EA:
-			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareEA[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case AE:
-			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A})
+			count = idx.floats.Count(CompareAE[float64], TypedDatum[float64]{E: datum.E, A: datum.A, V: minFloat})
 		case A:
-			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A})
+			count = idx.floats.Count(CompareA[float64], TypedDatum[float64]{A: datum.A, V: minFloat})
 		case AV:
 			count = idx.floats.Count(CompareAV[float64], TypedDatum[float64]{A: datum.A, V: floatValuer.devaluer(datum.V)})
 		}
-- 
2.43.0


From eb851d956024f9c4aa1424b08d50e016818f9faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 03/21] fix: select nothing rather than panicking for an
 unsatisfiable partial index

---
 internal/index/index.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/index/index.go b/internal/index/index.go
index 8f846df..6062e97 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -266,6 +266,7 @@ func mapSeq(seq iter.Seq[Datum], f func(Datum) Datum) iter.Seq[Datum] {
 // the right index with the right partial. An unsupported pairing yields an empty
 // result rather than an error.
 func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Datum]) {
+	seq = func(func(Datum) bool) {}
 	if p == E {
 		strings := idx.strings.Select(CompareE[string], stringValuer.valuer, TypedDatum[string]{E: datum.E})
 		ints := idx.ints.Select(CompareE[int64], intValuer.valuer, TypedDatum[int64]{E: datum.E})
-- 
2.43.0


From d2a58d566fb2d921bf06faf10dd4689a6458e5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:50 +0000
Subject: [PATCH 04/21] fix: match nothing rather than panicking when a value
 has the wrong type for its attribute

---
 internal/index/index.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/internal/index/index.go b/internal/index/index.go
index 6062e97..6ef35d9 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -146,6 +146,7 @@ var boolValuer TypeValuer[uint64] = TypeValuer[uint64]{
 		return
 	},
 }
+
 // minFloat is the first float value in index order, which sorts nan before every other value.
 var minFloat = math.NaN()
 
@@ -154,7 +155,16 @@ var instValuer TypeValuer[int64] = TypeValuer[int64]{
 	devaluer: func(value Value) (v int64) { return time.Time(value.(Inst)).UnixMilli() },
 }
 
+// valid returns true if the datum's value has the type of its attribute. No datum in the
+// index has any other value.
+func (idx *CompositeIndex) valid(datum Datum) bool {
+	return sys.ValidValue(idx.attrTypes[datum.A], datum.V)
+}
+
 func (idx *CompositeIndex) Find(datum Datum) (extant bool) {
+	if !idx.valid(datum) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		extant = idx.strings.Find(TypedDatum[string]{E: datum.E, A: datum.A, V: string(datum.V.(String))})
@@ -277,6 +287,9 @@ func (idx *CompositeIndex) Select(p PartialIndex, datum Datum) (seq iter.Seq[Dat
 		seq = mergeEAV(strings, mapSeq(ints, idx.reint), mapSeq(uints, idx.reuint), floats)
 		return
 	}
+	if p == AV && !idx.valid(datum) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
@@ -358,6 +371,9 @@ func (idx *CompositeIndex) First(p PartialIndex, datum Datum) (match Datum, exta
 		}
 		return
 	}
+	if p == AV && !idx.valid(datum) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
@@ -438,6 +454,9 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 		count += idx.floats.Count(CompareE[float64], TypedDatum[float64]{E: datum.E})
 		return
 	}
+	if p == AV && !idx.valid(datum) {
+		return
+	}
 	switch idx.attrTypes[datum.A] {
 	case sys.AttrTypeString:
 		switch p {
-- 
2.43.0


From ead808314da3cc8f2dbbdb747ebe5941c05d2ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 05/21] fix: match nothing for a claim whose references do not
 resolve

---
 internal/database/snapshot.go | 62 +++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 7 deletions(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index 224227d..d0947b8 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -75,7 +75,10 @@ func (snapshot *indexSnapshot) selectWith(a access, match Datum) (datums iter.Se
 
 // Select returns the datums matching the claim.
 func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return func(func(Datum) bool) {}
+	}
 	return snapshot.selectWith(snapshot.access(match), match)
 }
 
@@ -83,7 +86,10 @@ func (snapshot *indexSnapshot) Select(claim Claim) iter.Seq[Datum] {
 // exact existence check against eav (a btree lookup, no allocation); other shapes
 // fall back to testing whether the access path yields anything.
 func (snapshot *indexSnapshot) Has(claim Claim) bool {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return false
+	}
 	if match.E != 0 && match.A != 0 && match.V != nil {
 		return snapshot.eav.Find(match)
 	}
@@ -97,7 +103,10 @@ func (snapshot *indexSnapshot) Has(claim Claim) bool {
 // directly through the typed indexes (which tally without materializing values);
 // value-filtered and unconstrained shapes are counted by enumeration.
 func (snapshot *indexSnapshot) Count(claim Claim) (count int) {
-	match := snapshot.resolveClaim(claim)
+	match, ok := snapshot.resolveClaim(claim)
+	if !ok {
+		return
+	}
 	a := snapshot.access(match)
 	if a.all || a.filterV != nil {
 		for range snapshot.selectWith(a, match) {
@@ -163,24 +172,63 @@ func (snapshot *indexSnapshot) resolveLookupRef(ref LookupRef) (id ID) {
 	return
 }
 
-func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum) {
+// resolveClaim resolves the claim's references. A nil reference or zero id matches any
+// value, but no datum matches a claim with a reference that does not resolve, for which
+// this returns false.
+func (snapshot *indexSnapshot) resolveClaim(claim Claim) (match Datum, ok bool) {
 	switch e := claim.E.(type) {
+	case nil:
 	case ID:
 		match.E = e
 	case Ident:
 		match.E = snapshot.idents[e]
+		if match.E == 0 {
+			return
+		}
 	case LookupRef:
 		match.E = snapshot.resolveLookupRef(e)
+		if match.E == 0 {
+			return
+		}
+	default:
+		return
 	}
 	switch a := claim.A.(type) {
+	case nil:
 	case ID:
 		match.A = a
 	case Ident:
 		match.A = snapshot.idents[a]
+		if match.A == 0 {
+			return
+		}
+	case LookupRef:
+		match.A = snapshot.resolveLookupRef(a)
+		if match.A == 0 {
+			return
+		}
+	default:
+		return
 	}
-	value, ok := claim.V.(Value)
-	if ok {
-		match.V = value
+	switch v := claim.V.(type) {
+	case nil:
+	case Ident:
+		id := snapshot.idents[v]
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case LookupRef:
+		id := snapshot.resolveLookupRef(v)
+		if id == 0 {
+			return
+		}
+		match.V = id
+	case Value:
+		match.V = v
+	default:
+		return
 	}
+	ok = true
 	return
 }
-- 
2.43.0


From 340820bc7d7707bae8d3dafecd918d99a8494c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:35 +0000
Subject: [PATCH 06/21] fix: compare nan values equal when filtering by value

---
 internal/database/snapshot.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/database/snapshot.go b/internal/database/snapshot.go
index d0947b8..17edec7 100644
--- a/internal/database/snapshot.go
+++ b/internal/database/snapshot.go
@@ -1,6 +1,7 @@
 package database
 
 import (
+	"cmp"
 	"iter"
 	"time"
 
@@ -132,13 +133,19 @@ func filterByV(seq iter.Seq[Datum], v Value) iter.Seq[Datum] {
 
 // valuesEqual compares two values with the same instant semantics the indexes use:
 // Inst values are equal when they denote the same millisecond, matching how they are
-// stored and compared in the int tree. All other value types compare by ==.
+// stored and compared in the int tree, and Float values are equal when neither sorts
+// before the other, so nan equals itself. All other value types compare by ==.
 func valuesEqual(a Value, b Value) bool {
 	ai, aok := a.(Inst)
 	bi, bok := b.(Inst)
 	if aok && bok {
 		return time.Time(ai).UnixMilli() == time.Time(bi).UnixMilli()
 	}
+	af, aok := a.(Float)
+	bf, bok := b.(Float)
+	if aok && bok {
+		return cmp.Compare(af, bf) == 0
+	}
 	return a == b
 }
 
-- 
2.43.0


From ecd123f56f1a8632119e5c282ebdefc649354bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:52 +0000
Subject: [PATCH 07/21] fix: exclude concurrent reads while cloning the indexes

---
 internal/database/database.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index ac22379..7846174 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -23,7 +23,7 @@ type indexDatabase struct {
 	attrCardManies map[ID]Void
 	idents         map[Ident]ID
 
-	lock   sync.RWMutex
+	lock   sync.Mutex
 	logger log.Logger
 	nextID ID
 }
@@ -79,8 +79,9 @@ func NewIndexDatabase(degree int, attrsSize int, identsSize int) (db Database) {
 }
 
 func (db *indexDatabase) Read() (snapshot Snapshot) {
-	db.lock.RLock()
-	defer db.lock.RUnlock()
+	// Cloning an index changes it, so concurrent reads must exclude each other.
+	db.lock.Lock()
+	defer db.lock.Unlock()
 	snapshot = db.read()
 	return
 }
-- 
2.43.0


From 8e59faef69a77798496e17d1c6bce59519d4d363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:53 +0000
Subject: [PATCH 08/21] fix: leave the requested claims' array alone when
 writing retractions

---
 internal/database/database.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 7846174..6093725 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -4,6 +4,7 @@ package database
 import (
 	"log"
 	"maps"
+	"slices"
 	"sync"
 
 	"github.com/dball/destructive/internal/index"
@@ -107,7 +108,8 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
 	identDeletes := map[ID]Ident{}
-	claims := req.Claims
+	// The claims may not be appended to the request's own array.
+	claims := slices.Clip(req.Claims)
 	if len(req.Retractions) != 0 {
 		ids := make(map[ID]Void, len(req.Retractions))
 		for _, retraction := range req.Retractions {
-- 
2.43.0


From adf16165aa92b0a2f01e95bc6231b271771bbf0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:55 +0000
Subject: [PATCH 09/21] fix: return a snapshot when rejecting a retraction

---
 internal/database/database.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 6093725..26cf732 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -127,11 +127,13 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 				switch {
 				case refID == 0:
 					res.Error = NewError("database.write.invalidE", "retraction", retraction, "ref", ref)
+					res.Snapshot = db.read()
 					return
 				case id == 0:
 					id = refID
 				case id != refID:
 					res.Error = NewError("database.write.inconsistentE", "retraction", retraction, "ref", ref, "id", id)
+					res.Snapshot = db.read()
 					return
 				}
 			}
-- 
2.43.0


From 1de223d99cae7a8c9688801df95ce98c6cc3657c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:57 +0000
Subject: [PATCH 10/21] fix: reject a retraction without constraints

---
 internal/database/database.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 26cf732..9a17ed7 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -137,6 +137,11 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 					return
 				}
 			}
+			if id == 0 {
+				res.Error = NewError("database.write.invalidE", "retraction", retraction)
+				res.Snapshot = db.read()
+				return
+			}
 			ids[id] = Void{}
 		}
 		for id := range ids {
-- 
2.43.0


From 60729157c67156f31578bdd904e203f407034a5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:59 +0000
Subject: [PATCH 11/21] fix: reject the zero id as a value

---
 internal/database/database.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 9a17ed7..3e6586e 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -455,6 +455,11 @@ func (db *indexDatabase) evaluateClaim(res *Response, claim *Claim) (datum *Datu
 			res.Error = NewError("database.write.invalidV", "v", v)
 		}
 		datum.V = id
+	case ID:
+		if v == 0 {
+			res.Error = NewError("database.write.invalidV", "v", v)
+		}
+		datum.V = v
 	default:
 		ok := false
 		datum.V, ok = v.(Value)
-- 
2.43.0


From b92075af350224f688527d45b7c2040499943257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 12/21] fix: retain a datum whose instant or nan value is
 asserted again

---
 internal/database/database.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 3e6586e..f1d7920 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -320,7 +320,7 @@ CLAIMS:
 					// if this is cardinality one, we must replace extant datum if ea but not v
 					d, ok := eav.First(index.EA, *datum)
 					if ok {
-						if d.V == datum.V {
+						if valuesEqual(d.V, datum.V) {
 							continue
 						} else {
 							eav.Delete(d)
-- 
2.43.0


From 2df34327cc7daf2dd44b7840e99c2f9a4a6c5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:41 +0000
Subject: [PATCH 13/21] fix: resolve identities before enforcing the invariants
 of the resolved entities

---
 internal/database/database.go | 62 +++++++++++++++++++----------------
 1 file changed, 33 insertions(+), 29 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index f1d7920..8601682 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -183,7 +183,30 @@ CLAIMS:
 				}
 			}
 		}
-		// Enforce system invariants and maintain database caches.
+		data = append(data, datum)
+	}
+	// Enforce system invariants and maintain database caches.
+INVARIANTS:
+	for i := 0; res.Error == nil && i < len(data); i++ {
+		claim, datum := claims[i], data[i]
+		// TempIDs may have been assigned IDs that subsequently resolved to identity
+		// unique datum ids, so we rewrite them if so.
+		tempid, ok := claim.E.(TempID)
+		if ok {
+			id, ok := rewrites[datum.E]
+			if ok {
+				datum.E = id
+				res.TempIDs[tempid] = id
+			}
+		}
+		tempid, ok = claim.V.(TempID)
+		if ok {
+			id, ok := rewrites[datum.V.(ID)]
+			if ok {
+				datum.V = id
+				res.TempIDs[tempid] = id
+			}
+		}
 		switch datum.A {
 		case sys.DbIdent:
 			ident := Ident(datum.V.(String))
@@ -193,15 +216,15 @@ CLAIMS:
 				switch {
 				case claim.Retract:
 					res.Error = NewError("database.write.attrIdentRetractDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				case ident != attr.Ident:
 					res.Error = NewError("database.write.attrIdentChangeDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 			} else {
 				if !sys.ValidUserIdent(String(ident)) {
 					res.Error = NewError("database.write.invalidUserIdent", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 				if claim.Retract {
 					identDeletes[datum.E] = ident
@@ -213,13 +236,13 @@ CLAIMS:
 			typ := datum.V.(ID)
 			if claim.Retract {
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
-				break CLAIMS
+				break INVARIANTS
 			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Type != typ {
 					res.Error = NewError("database.write.attrTypeChangeDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 			} else {
 				attr = attrChanges[datum.E]
@@ -231,13 +254,13 @@ CLAIMS:
 			card := datum.V.(ID)
 			if claim.Retract {
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
-				break CLAIMS
+				break INVARIANTS
 			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Cardinality != card {
 					res.Error = NewError("database.write.attrCardinalityChangeDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 			} else {
 				attr = attrChanges[datum.E]
@@ -249,13 +272,13 @@ CLAIMS:
 			unique := datum.V.(ID)
 			if claim.Retract {
 				res.Error = NewError("database.write.attrRetractDisallowed", "datum", datum)
-				break CLAIMS
+				break INVARIANTS
 			}
 			attr, ok := db.attrsByID[datum.E]
 			if ok {
 				if attr.Unique != unique {
 					res.Error = NewError("database.write.attrUniqueChangeDisallowed", "datum", datum)
-					break CLAIMS
+					break INVARIANTS
 				}
 			} else {
 				attr = attrChanges[datum.E]
@@ -264,7 +287,6 @@ CLAIMS:
 				attrChanges[datum.E] = attr
 			}
 		}
-		data = append(data, datum)
 	}
 	for id, attr := range attrChanges {
 		ident, ok := identCreates[id]
@@ -296,24 +318,6 @@ CLAIMS:
 		// We could consider transacting into the indexes concurrently.
 		for i, datum := range data {
 			claim := claims[i]
-			// TempIDs may have been assigned IDs that subsequently resolved to identity
-			// unique datum ids, so we rewrite them if so.
-			tempid, ok := claim.E.(TempID)
-			if ok {
-				id, ok := rewrites[datum.E]
-				if ok {
-					datum.E = id
-					res.TempIDs[tempid] = id
-				}
-			}
-			tempid, ok = claim.V.(TempID)
-			if ok {
-				id, ok := rewrites[datum.V.(ID)]
-				if ok {
-					datum.V = id
-					res.TempIDs[tempid] = id
-				}
-			}
 			if !claim.Retract {
 				_, ok := db.attrCardManies[datum.A]
 				if !ok {
-- 
2.43.0


From e9e398bdba3bce5ccdc8fb9054535e8b4b304b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 14/21] fix: let no two entities have the same unique value

---
 internal/database/database.go | 70 +++++++++++++++++++----------------
 1 file changed, 38 insertions(+), 32 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 8601682..61f6479 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -163,22 +163,17 @@ CLAIMS:
 			break
 		}
 		if !claim.Retract {
-			unique := db.attrUniques[datum.A]
-			if unique != 0 {
+			// Only TempIDs may assume the identities of extant entities.
+			_, isTempID := claim.E.(TempID)
+			if isTempID && db.attrUniques[datum.A] == sys.AttrUniqueIdentity {
 				d, ok := db.ave.First(index.AV, *datum)
 				if ok {
-					switch unique {
-					case sys.AttrUniqueIdentity:
-						_, ok := rewrites[datum.E]
-						if ok {
-							res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
-							break CLAIMS
-						} else {
-							rewrites[datum.E] = d.E
-						}
-					case sys.AttrUniqueValue:
-						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+					id, ok := rewrites[datum.E]
+					if ok && id != d.E {
+						res.Error = NewError("database.write.uniqueValueImpossible", "datum", datum)
 						break CLAIMS
+					} else {
+						rewrites[datum.E] = d.E
 					}
 				}
 			}
@@ -319,7 +314,15 @@ INVARIANTS:
 		for i, datum := range data {
 			claim := claims[i]
 			if !claim.Retract {
-				_, ok := db.attrCardManies[datum.A]
+				_, ok := db.attrUniques[datum.A]
+				if ok {
+					d, ok := ave.First(index.AV, *datum)
+					if ok && d.E != datum.E {
+						res.Error = NewError("database.write.uniqueValueCollision", "datum", datum, "extant", d)
+						break
+					}
+				}
+				_, ok = db.attrCardManies[datum.A]
 				if !ok {
 					// if this is cardinality one, we must replace extant datum if ea but not v
 					d, ok := eav.First(index.EA, *datum)
@@ -351,25 +354,28 @@ INVARIANTS:
 				}
 			}
 		}
-		db.eav = eav
-		db.aev = aev
-		db.ave = ave
-		for _, ident := range identDeletes {
-			delete(db.idents, ident)
-		}
-		for id, ident := range identCreates {
-			db.idents[ident] = id
-		}
-		for id, attr := range attrChanges {
-			db.idents[attr.Ident] = id
-			db.attrsByID[id] = attr
-			db.attrsByIdent[attr.Ident] = attr
-			db.attrTypes[id] = attr.Type
-			if attr.Cardinality == sys.AttrCardinalityMany {
-				db.attrCardManies[id] = Void{}
+		// We install the indexes only if every datum was consistent with its predecessors.
+		if res.Error == nil {
+			db.eav = eav
+			db.aev = aev
+			db.ave = ave
+			for _, ident := range identDeletes {
+				delete(db.idents, ident)
 			}
-			if attr.Unique != 0 {
-				db.attrUniques[id] = attr.Unique
+			for id, ident := range identCreates {
+				db.idents[ident] = id
+			}
+			for id, attr := range attrChanges {
+				db.idents[attr.Ident] = id
+				db.attrsByID[id] = attr
+				db.attrsByIdent[attr.Ident] = attr
+				db.attrTypes[id] = attr.Type
+				if attr.Cardinality == sys.AttrCardinalityMany {
+					db.attrCardManies[id] = Void{}
+				}
+				if attr.Unique != 0 {
+					db.attrUniques[id] = attr.Unique
+				}
 			}
 		}
 	}
-- 
2.43.0


From ab4f542b1a19d119cbe0aa34ad84a41b290c1816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:24 +0000
Subject: [PATCH 15/21] fix: keep the ident cache consistent with the ident
 datums

---
 internal/database/database.go | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/internal/database/database.go b/internal/database/database.go
index 61f6479..53c54ff 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -107,7 +107,7 @@ func (db *indexDatabase) Write(req Request) (res Response) {
 	defer db.lock.Unlock()
 	attrChanges := map[ID]Attr{}
 	identCreates := map[ID]Ident{}
-	identDeletes := map[ID]Ident{}
+	identChanges := map[Ident]ID{}
 	// The claims may not be appended to the request's own array.
 	claims := slices.Clip(req.Claims)
 	if len(req.Retractions) != 0 {
@@ -221,10 +221,10 @@ INVARIANTS:
 					res.Error = NewError("database.write.invalidUserIdent", "datum", datum)
 					break INVARIANTS
 				}
-				if claim.Retract {
-					identDeletes[datum.E] = ident
-				} else {
+				if !claim.Retract {
 					identCreates[datum.E] = ident
+				} else if identCreates[datum.E] == ident {
+					delete(identCreates, datum.E)
 				}
 			}
 		case sys.AttrType:
@@ -336,6 +336,9 @@ INVARIANTS:
 							if ok {
 								ave.Delete(d)
 							}
+							if d.A == sys.DbIdent {
+								identChanges[Ident(d.V.(String))] = 0
+							}
 						}
 					}
 				}
@@ -345,13 +348,19 @@ INVARIANTS:
 				if ok {
 					ave.Insert(*datum)
 				}
+				if datum.A == sys.DbIdent {
+					identChanges[Ident(datum.V.(String))] = datum.E
+				}
 			} else {
-				eav.Delete(*datum)
+				extant := eav.Delete(*datum)
 				aev.Delete(*datum)
 				_, ok := db.attrUniques[datum.A]
 				if ok {
 					ave.Delete(*datum)
 				}
+				if extant && datum.A == sys.DbIdent {
+					identChanges[Ident(datum.V.(String))] = 0
+				}
 			}
 		}
 		// We install the indexes only if every datum was consistent with its predecessors.
@@ -359,11 +368,12 @@ INVARIANTS:
 			db.eav = eav
 			db.aev = aev
 			db.ave = ave
-			for _, ident := range identDeletes {
-				delete(db.idents, ident)
-			}
-			for id, ident := range identCreates {
-				db.idents[ident] = id
+			for ident, id := range identChanges {
+				if id == 0 {
+					delete(db.idents, ident)
+				} else {
+					db.idents[ident] = id
+				}
 			}
 			for id, attr := range attrChanges {
 				db.idents[attr.Ident] = id
-- 
2.43.0


From bd9d95694f80137604b5d7c396fa486e2354dfe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:26 +0000
Subject: [PATCH 16/21] fix: reject claims that would change the system
 entities

---
 internal/database/database.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 53c54ff..226b0e2 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -202,6 +202,10 @@ INVARIANTS:
 				res.TempIDs[tempid] = id
 			}
 		}
+		if datum.E < sys.FirstUserID {
+			res.Error = NewError("database.write.systemEChangeDisallowed", "datum", datum)
+			break
+		}
 		switch datum.A {
 		case sys.DbIdent:
 			ident := Ident(datum.V.(String))
-- 
2.43.0


From 91a0bedf9ad4caeee1c270a9e7b271e29cf3001b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:53 +0000
Subject: [PATCH 17/21] fix: leave the attribute types shared with snapshots
 alone when adding attributes

---
 internal/database/database.go | 7 +++++++
 internal/index/index.go       | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/internal/database/database.go b/internal/database/database.go
index 226b0e2..1953de5 100644
--- a/internal/database/database.go
+++ b/internal/database/database.go
@@ -379,6 +379,13 @@ INVARIANTS:
 					db.idents[ident] = id
 				}
 			}
+			if len(attrChanges) != 0 {
+				// Snapshots share the attr types map, so we must not change it.
+				db.attrTypes = maps.Clone(db.attrTypes)
+				eav.SetAttrTypes(db.attrTypes)
+				aev.SetAttrTypes(db.attrTypes)
+				ave.SetAttrTypes(db.attrTypes)
+			}
 			for id, attr := range attrChanges {
 				db.idents[attr.Ident] = id
 				db.attrsByID[id] = attr
diff --git a/internal/index/index.go b/internal/index/index.go
index 6ef35d9..55531f4 100644
--- a/internal/index/index.go
+++ b/internal/index/index.go
@@ -84,6 +84,9 @@ type Index interface {
 	// Clone returns a copy of the index. Both instances are hereafter safe to change without affecting
 	// the other.
 	Clone() (clone Index)
+	// SetAttrTypes replaces the attribute types of the index without affecting its clones. The new
+	// types must include the extant types.
+	SetAttrTypes(attrTypes map[ID]ID)
 }
 
 // CompositeIndex is an index of indexes of the discrete types.
@@ -528,6 +531,10 @@ func (idx *CompositeIndex) Count(p PartialIndex, datum Datum) (count int) {
 	return
 }
 
+func (idx *CompositeIndex) SetAttrTypes(attrTypes map[ID]ID) {
+	idx.attrTypes = attrTypes
+}
+
 func (idx *CompositeIndex) Clone() (clone Index) {
 	clone = &CompositeIndex{
 		attrTypes: idx.attrTypes,
-- 
2.43.0


From fe8b17e49c2b301fac14cdc5070dc87760295ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 18/21] fix: ignore struct fields without attr tags

---
 internal/structs/models/models.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index d0c55f7..98bbcc9 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -112,6 +112,9 @@ func Analyze(typ reflect.Type) (model StructModel, err error) {
 			err = fieldErr
 			return
 		}
+		if attr.FieldType == nil {
+			continue
+		}
 		attr.Index = i
 		attrFields = append(attrFields, attr)
 	}
-- 
2.43.0


From cd741ac22954e9fea2a20daa1b4045ac2fcf32fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:24 +0000
Subject: [PATCH 19/21] fix: cache analyzed models rather than panicking for
 invalid types

---
 internal/structs/models/models.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/internal/structs/models/models.go b/internal/structs/models/models.go
index 98bbcc9..38e1fb0 100644
--- a/internal/structs/models/models.go
+++ b/internal/structs/models/models.go
@@ -4,6 +4,7 @@ package models
 import (
 	"reflect"
 	"strings"
+	"sync"
 
 	"github.com/dball/destructive/internal/sys"
 	. "github.com/dball/destructive/internal/types"
@@ -16,20 +17,20 @@ type Analyzer interface {
 }
 
 type cachingAnalyzer struct {
-	types map[reflect.Type]*StructModel
+	types sync.Map
 }
 
 var _ Analyzer = (*cachingAnalyzer)(nil)
 
 func (analyzer *cachingAnalyzer) Analyze(typ reflect.Type) (model StructModel, err error) {
-	mp := analyzer.types[typ]
-	if mp != nil {
-		model = *mp
+	cached, ok := analyzer.types.Load(typ)
+	if ok {
+		model = cached.(StructModel)
 		return
 	}
 	model, err = Analyze(typ)
-	if err != nil {
-		analyzer.types[typ] = &model
+	if err == nil {
+		analyzer.types.Store(typ, model)
 	}
 	return
 }
-- 
2.43.0


From eeca7b5b7bb0b22956b8a65e203c85fa195a0fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 20/21] fix: declare an attribute shared by several structs
 once

---
 internal/structs/schemas/schemas.go | 42 ++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/internal/structs/schemas/schemas.go b/internal/structs/schemas/schemas.go
index d467f20..85e55f8 100644
--- a/internal/structs/schemas/schemas.go
+++ b/internal/structs/schemas/schemas.go
@@ -15,7 +15,29 @@ import (
 func Analyze(typ reflect.Type) (claims []Claim, err error) {
 	done := map[reflect.Type]Void{typ: {}}
 	todo := map[reflect.Type]Void{typ: {}}
+	declared := map[Attr]Void{}
 	var nextID uint64 = 1
+	// declare builds the claims for an attribute unless it has already been so declared.
+	declare := func(attr Attr) (claims []Claim) {
+		_, ok := declared[attr]
+		if ok {
+			return
+		}
+		declared[attr] = Void{}
+		e := TempID(strconv.FormatUint(uint64(nextID), 10))
+		nextID++
+		claims = append(claims,
+			Claim{E: e, A: sys.DbIdent, V: String(attr.Ident)},
+			Claim{E: e, A: sys.AttrType, V: attr.Type},
+		)
+		if attr.Unique != 0 {
+			claims = append(claims, Claim{E: e, A: sys.AttrUnique, V: attr.Unique})
+		}
+		if attr.Cardinality != 0 {
+			claims = append(claims, Claim{E: e, A: sys.AttrCardinality, V: attr.Cardinality})
+		}
+		return
+	}
 	todo[typ] = Void{}
 	for len(todo) > 0 {
 		for typ := range todo {
@@ -29,18 +51,11 @@ func Analyze(typ reflect.Type) (claims []Claim, err error) {
 				if field.Ident == Ident("sys/db/id") {
 					continue
 				}
-				e := TempID(strconv.FormatUint(uint64(nextID), 10))
-				nextID++
-				typeClaims = append(typeClaims,
-					Claim{E: e, A: sys.DbIdent, V: String(field.Ident)},
-					Claim{E: e, A: sys.AttrType, V: field.Type},
-				)
-				if field.Unique != 0 {
-					typeClaims = append(typeClaims, Claim{E: e, A: sys.AttrUnique, V: field.Unique})
-				}
+				attr := Attr{Ident: field.Ident, Type: field.Type, Unique: field.Unique}
 				if field.IsMap() || field.IsSlice() {
-					typeClaims = append(typeClaims, Claim{E: e, A: sys.AttrCardinality, V: sys.AttrCardinalityMany})
+					attr.Cardinality = sys.AttrCardinalityMany
 				}
+				typeClaims = append(typeClaims, declare(attr)...)
 				if field.Type == sys.AttrTypeRef {
 					structField := typ.Field(field.Index)
 					fieldType := structField.Type
@@ -55,13 +70,8 @@ func Analyze(typ reflect.Type) (claims []Claim, err error) {
 						}
 					case field.IsSlice():
 						if field.CollValue != "" {
-							ee := TempID(strconv.FormatUint(uint64(nextID), 10))
-							nextID++
 							collAttrType := models.AttrTypeForScalarKind(fieldType.Elem())
-							typeClaims = append(typeClaims,
-								Claim{E: ee, A: sys.DbIdent, V: String(field.CollValue)},
-								Claim{E: ee, A: sys.AttrType, V: collAttrType},
-							)
+							typeClaims = append(typeClaims, declare(Attr{Ident: field.CollValue, Type: collAttrType})...)
 							continue
 						} else {
 							fieldType = fieldType.Elem()
-- 
2.43.0


From 218fdaa9e434f3df33e9d08e57d3115e6ff2550e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 21/21] fix: resolve the idents of the unique system entities

---
 internal/sys/sys.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/sys/sys.go b/internal/sys/sys.go
index 3379624..bf4bb45 100644
--- a/internal/sys/sys.go
+++ b/internal/sys/sys.go
@@ -78,6 +78,8 @@ var Attrs map[ID]Attr = map[ID]Attr{
 var Idents map[Ident]ID = map[Ident]ID{
 	Ident("sys/db/ident"):                DbIdent,
 	Ident("sys/attr/unique"):             AttrUnique,
+	Ident("sys/attr/unique/identity"):    AttrUniqueIdentity,
+	Ident("sys/attr/unique/value"):       AttrUniqueValue,
 	Ident("sys/tx/at"):                   TxAt,
 	Ident("sys/attr/type"):               AttrType,
 	Ident("sys/attr/type/ref"):           AttrTypeRef,
-- 
2.43.0

