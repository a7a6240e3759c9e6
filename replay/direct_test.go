package database_test

import (
	"fmt"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/dball/destructive/internal/database"
	. "github.com/dball/destructive/internal/types"
)

// directed are the exhaustive parts: every pair of values of the pools against every kind
// of attribute, and every way of referring to a thing.
func directed(prop string, st *stats) (fs []*failure) {
	for _, p := range []string{"C11", "C06", "C08", "C04", "C03", "C07", "C17", "C05"} {
		if p == prop {
			fs = append(fs, pairs(prop, st)...)
		}
	}
	return
}

// pairs writes one value and then another, for every type, cardinality and uniqueness.
func pairs(prop string, st *stats) (fs []*failure) {
	refs := []Value{ID(1), ID(2), ID(0x100000), ID(1<<63 + 5), ID(1<<64 - 1), ID(1<<53 + 1)}
	var wg sync.WaitGroup
	var mu sync.Mutex
	for t := mRef; t <= mFloat; t++ {
		vs := pool[t]
		if t == mRef {
			vs = refs
		}
		for _, card := range []ID{0, mMany} {
			for _, u := range []ID{0, mUValue, mIdentity} {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i, v := range vs {
						for j, w := range vs {
							if f := pair(prop, st, Attr{Ident: "p/a", Type: t, Cardinality: card, Unique: u}, v, w); f != nil {
								f.log = append(f.log, fmt.Sprintf("values %d and %d of type %d", i, j, t))
								mu.Lock()
								fs = append(fs, f)
								mu.Unlock()
								return
							}
						}
					}
				}()
			}
		}
	}
	wg.Wait()
	return
}

func pair(prop string, st *stats, at Attr, v, w Value) (f *failure) {
	r := &run{prop: prop, g: newGen(1)}
	defer func() {
		atomic.AddInt64(&st.histories, 1)
		atomic.AddInt64(&st.nontrivial, 1)
		atomic.AddInt64(&st.writes, int64(r.writes))
		atomic.AddInt64(&st.rejected, int64(r.rejected))
		if x := recover(); x != nil {
			v, ok := x.(violation)
			if !ok {
				panic(x)
			}
			f = &failure{prop: prop, what: v.what, log: r.log}
		}
	}()
	r.db = database.NewIndexDatabase(4, 4, 4)
	r.s, r.issued = newState(), mFirst-1
	r.g.see(r.s, r.issued)
	r.snaps = append(r.snaps, kept{snap: r.db.Read()})
	if !r.write(Request{Claims: r.g.declare(at, Attr{Ident: "p/z", Type: mString})}) {
		return
	}
	if !r.write(Request{Claims: []Claim{{E: TempID("e"), A: at.Ident, V: v.(VRef)}, {E: TempID("x"), A: Ident("p/z"), V: String("z")}}}) {
		return
	}
	if r.s.ident("p/a") == 0 || len(r.answers) < 2 {
		return
	}
	e := r.answers[1].TempIDs["e"]
	x := r.answers[1].TempIDs["x"]
	same := vk(v) == vk(w)
	snap := r.lastSnap()
	for _, c := range []Claim{{E: e, A: at.Ident, V: w.(VRef)}, {A: at.Ident, V: w.(VRef)}, {E: e, V: w.(VRef)}, {V: w.(VRef)}} {
		r.log = append(r.log, "query "+str(c))
		got := collect(snap.Select(c), -1)
		n := 0
		for _, d := range got {
			if d.E == e {
				n++
			}
		}
		if (n == 1) != same || n > 1 {
			r.fail("C03 C11", "selected are %s of value %s", str(got), str(v))
		}
		if snap.Count(c) != len(got) || snap.Has(c) != (len(got) > 0) {
			r.fail("C04", "count is %d and has %v, but selected are %s", snap.Count(c), snap.Has(c), str(got))
		}
		r.log = r.log[:len(r.log)-1]
	}
	id := r.s.ident("p/a")
	got := collect(snap.Select(Claim{E: e, A: id}), -1)
	if len(got) != 1 || !sameValue(got[0].V, canon(v)) {
		r.fail("C11", "written was %s, selected are %s", str(v), str(got))
	}
	if !r.write(Request{Claims: []Claim{{E: e, A: id, V: w.(VRef)}}}) {
		return
	}
	if c := r.lastSnap().Count(Claim{E: e, A: id}); at.Cardinality == mMany && c != map[bool]int{true: 1, false: 2}[same] {
		r.fail("C11", "%s and %s are written, and there are %d values", str(v), str(w), c)
	}
	ds := collect(r.lastSnap().Select(Claim{E: e, A: id}), -1)
	for i := 1; i < len(ds); i++ {
		if vcmp(ds[i-1].V, ds[i].V) != -1 {
			r.fail("C05", "%s is selected before %s", str(ds[i-1]), str(ds[i]))
		}
	}
	if len(r.accepted) != 3 {
		return
	}
	if !r.write(Request{Claims: []Claim{{E: x, A: id, V: w.(VRef)}}}) {
		return
	}
	for _, c := range []Claim{{E: e, A: id}, {A: id}, {E: x, A: id}, {E: e}, {}} {
		ds := collect(r.lastSnap().Select(c), -1)
		for i := 1; i < len(ds); i++ {
			if !dless(ds[i-1], ds[i]) {
				r.fail("C05", "%s is selected before %s", str(ds[i-1]), str(ds[i]))
			}
		}
		if n := r.lastSnap().Count(c); n != len(ds) {
			r.fail("C04", "count is %d, but selected are %s", n, str(ds))
		}
	}
	if !r.write(Request{Claims: []Claim{{E: e, A: id, V: v.(VRef), Retract: true}}}) {
		return
	}
	if !r.write(Request{Claims: []Claim{{E: x, A: id, V: v.(VRef)}}}) {
		return
	}
	r.write(Request{Retractions: []Retraction{{Constraints: map[IDRef]Void{x: {}}}}})
	return
}

// concurrent lets goroutines write, read and query at once. Each adds to a counter entity
// and an account of its own; whatever the order, it must look like one call at a time.
func concurrent(prop string, seed int64, deadline time.Time, st *stats, report func(*failure)) {
	for round := int64(0); round == 0 || time.Now().Before(deadline); round++ {
		if f := concurrentRound(prop, seed*7919+round, st); f != nil {
			report(f)
			return
		}
	}
}

type answered struct {
	req Request
	res Response
}

func concurrentRound(prop string, seed int64, st *stats) (f *failure) {
	r := &run{prop: prop, g: newGen(seed)}
	var mu sync.Mutex
	fail := func(format string, args ...any) {
		mu.Lock()
		defer mu.Unlock()
		if f == nil {
			f = &failure{prop: prop, what: fmt.Sprintf(format, args...), log: append([]string{}, r.log...)}
		}
	}
	db := database.NewIndexDatabase(2+r.g.Intn(5), 4, 4)
	attrs := []Attr{
		{Ident: "k/one", Type: mInt}, {Ident: "k/many", Type: mString, Cardinality: mMany}, {Ident: "k/id", Type: mString, Unique: mIdentity},
		{Ident: "k/val", Type: mInt, Unique: mUValue}, {Ident: "k/ref", Type: mRef, Cardinality: mMany}, {Ident: "k/inst", Type: mInst}, {Ident: "k/bool", Type: mBool}, {Ident: "k/flt", Type: mFloat},
	}
	first := db.Write(Request{Claims: r.g.declare(attrs...)})
	if first.Error != nil {
		return
	}
	base := collect(first.Snapshot.Select(Claim{}), -1)
	var all []answered
	var wg sync.WaitGroup
	const writers, readers, each = 4, 4, 12
	start := make(chan bool)
	for w := 0; w < writers; w++ {
		wg.Add(1)
		g := newGen(seed*31 + int64(w))
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fail("a concurrent write panicked: %v", p)
				}
			}()
			<-start
			for i := 0; i < each; i++ {
				req := Request{Claims: []Claim{
					{E: TempID("t"), A: Ident("k/id"), V: String(fmt.Sprint("x", g.Intn(5)))},
					{E: TempID("t"), A: Ident("k/one"), V: Int(w*1000 + i)},
					{E: TempID("t"), A: Ident("k/many"), V: String(fmt.Sprint(w, "-", i))},
					{E: TempID("t"), A: Ident("k/ref"), V: TempID("u")},
					{E: TempID("u"), A: Ident("k/flt"), V: Float(i)},
					{E: TempID("u"), A: Ident("k/inst"), V: Inst(time.UnixMilli(int64(i)))},
				}}
				if g.p(30) {
					req.Claims = append(req.Claims, Claim{E: TempID("u"), A: Ident("k/val"), V: Int(g.Intn(6))})
				}
				if g.p(10) {
					req.Claims = append(req.Claims, Claim{E: TempID("v"), A: mIdent, V: String(fmt.Sprint("dyn/", w, "/", i))}, Claim{E: TempID("v"), A: mType, V: mInt})
				}
				if g.p(15) {
					req.Retractions = []Retraction{{Constraints: map[IDRef]Void{LookupRef{A: Ident("k/id"), V: String(fmt.Sprint("x", g.Intn(5)))}: {}}}}
				}
				if g.p(10) {
					req.Claims = append(req.Claims, Claim{E: TempID("u"), A: Ident("k/none"), V: Int(1)})
				}
				res := db.Write(req)
				// Queried at once, while others write.
				n := 0
				for range res.Snapshot.Select(Claim{A: Ident("k/one")}) {
					n++
				}
				if c := res.Snapshot.Count(Claim{A: Ident("k/one")}); c != n {
					fail("of one snapshot %d datums are selected and %d counted", n, c)
				}
				mu.Lock()
				all = append(all, answered{req, res})
				mu.Unlock()
			}
		}()
	}
	type seen struct {
		snap Snapshot
		ds   []Datum
	}
	var reads [][]seen
	shared := db.Read()
	for w := 0; w < readers; w++ {
		wg.Add(1)
		reads = append(reads, nil)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					fail("a concurrent read panicked: %v", p)
				}
			}()
			<-start
			for i := 0; i < each*2; i++ {
				s := db.Read()
				ds := collect(s.Select(Claim{}), -1)
				s.ResolveIdent("k/one")
				s.ResolveAttrIdent(s.ResolveIdent("k/id"))
				s.Has(Claim{E: LookupRef{A: Ident("k/id"), V: String("x1")}})
				for _, sn := range []Snapshot{s, shared} {
					sn.Count(Claim{A: Ident("k/val"), V: Int(3)})
					for range sn.Select(Claim{A: Ident("k/many")}) {
					}
				}
				reads[w] = append(reads[w], seen{s, ds})
			}
		}()
	}
	close(start)
	done := make(chan bool)
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		return &failure{prop: prop, what: "concurrent reads and writes do not come to an end", log: r.log}
	}
	atomic.AddInt64(&st.histories, 1)
	atomic.AddInt64(&st.nontrivial, 1)
	atomic.AddInt64(&st.writes, writers*each)
	if f != nil {
		return
	}
	// In the order of their transactions, the accepted writes explain everything.
	var acc []answered
	for _, a := range all {
		if a.res.Error == nil {
			acc = append(acc, a)
		} else {
			atomic.AddInt64(&st.rejected, 1)
		}
	}
	for i := range acc {
		for j := i + 1; j < len(acc); j++ {
			if acc[j].res.ID < acc[i].res.ID {
				acc[i], acc[j] = acc[j], acc[i]
			}
		}
	}
	states := [][]Datum{base}
	s := stateOf(base)
	issued := first.ID
	for _, a := range acc {
		r.log = append(r.log, fmt.Sprintf("write %s accepted as %d %v", str(a.req), a.res.ID, a.res.TempIDs))
		o := s.apply(a.req, true, a.res.ID, a.res.TempIDs, issued)
		if len(o.reasons) > 0 || o.next == nil {
			fail("in the order of the transactions, a write accepted must be rejected: %v", o.reasons)
			return
		}
		if a.res.ID <= issued {
			fail("transaction ids %d and %d do not ascend", issued, a.res.ID)
			return
		}
		s = o.next
		ds := s.sorted()
		if got := collect(a.res.Snapshot.Select(Claim{}), -1); !sameAll(got, ds, true) {
			fail("the snapshot of write %d is %s and not %s", a.res.ID, str(got), str(ds))
			return
		}
		states = append(states, ds)
		issued = a.res.ID
		for _, t := range a.res.TempIDs {
			issued = max(issued, t)
		}
	}
	index := map[string]int{}
	for i, ds := range states {
		if _, ok := index[str(ds)]; !ok {
			index[str(ds)] = i
		}
	}
	for _, a := range all {
		if _, ok := index[str(collect(a.res.Snapshot.Select(Claim{}), -1))]; !ok {
			fail("the snapshot of a rejected write is of no moment: %s", str(collect(a.res.Snapshot.Select(Claim{}), -1)))
			return
		}
	}
	for _, rs := range reads {
		last := 0
		for _, x := range rs {
			atomic.AddInt64(&st.queries, 1)
			i, ok := index[str(x.ds)]
			if !ok {
				fail("a read saw what was at no moment: %s", str(x.ds))
				return
			}
			if i < last {
				fail("a read saw less than one before it")
				return
			}
			last = i
			if again := collect(x.snap.Select(Claim{}), -1); !sameAll(again, x.ds, true) {
				fail("a snapshot read concurrently changed")
				return
			}
		}
	}
	// Every rejection is one that some moment explains.
	for _, a := range all {
		if a.res.Error == nil {
			continue
		}
		var why []string
		ok := false
		for _, ds := range states {
			o := stateOf(ds).apply(a.req, false, 0, nil, issued)
			if len(o.reasons) > 0 || o.may {
				ok = true
				break
			}
			why = append(why, "-")
		}
		if !ok {
			fail("a write was rejected (%v) which no moment (%s) explains", a.res.Error, strings.Join(why, ""))
			return
		}
	}
	return
}
