package database_test

// The driver: runs histories against the real code and judges each property by its own
// oracle. It is run when an obligation is not discharged, to find a failing input, and as
// the bounded stand-in for what is not proved.

import (
	"fmt"
	"iter"
	"os"
	"reflect"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/dball/destructive/internal/database"
	. "github.com/dball/destructive/internal/types"
)

type failure struct {
	prop, what string
	log        []string
}

// run is one history.
type run struct {
	prop string
	g    *gen
	db   Database
	s    *state
	// accepted requests, and what was answered
	accepted []Request
	answers  []Response
	issued   ID
	log      []string
	snaps    []kept
	first    []Datum
	writes   int
	asked    int
	rejected int
}

type kept struct {
	snap Snapshot
	at   int
	view view
	seq  iter.Seq[Datum]
	part iter.Seq[Datum]
	pc   Claim
	want []Datum
}

type violation struct{ what string }

func (r *run) fail(props, f string, args ...any) {
	for _, p := range strings.Fields(props) {
		if p == r.prop {
			panic(violation{fmt.Sprintf(f, args...)})
		}
	}
}

func str(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case Claim:
		s := fmt.Sprintf("{E: %s, A: %s, V: %s", str(x.E), str(x.A), str(x.V))
		if x.Retract {
			s += ", Retract: true"
		}
		return s + "}"
	case Request:
		var b strings.Builder
		b.WriteString("Request{Claims: [")
		for i, c := range x.Claims {
			if i > 0 {
				b.WriteString(", ")
			}
			b.WriteString(str(c))
		}
		b.WriteString("]")
		for _, t := range x.Retractions {
			b.WriteString(", Retraction{")
			for c := range t.Constraints {
				b.WriteString(str(c) + ", ")
			}
			b.WriteString("}")
		}
		return b.String() + "}"
	case ID:
		return fmt.Sprintf("ID(%d)", uint64(x))
	case String:
		return fmt.Sprintf("String(%q)", string(x))
	case Ident:
		return fmt.Sprintf("Ident(%q)", string(x))
	case TempID:
		return fmt.Sprintf("TempID(%q)", string(x))
	case Int:
		return fmt.Sprintf("Int(%d)", int64(x))
	case Bool:
		return fmt.Sprintf("Bool(%v)", bool(x))
	case Float:
		return fmt.Sprintf("Float(%v)", float64(x))
	case Inst:
		return "Inst(" + time.Time(x).Format(time.RFC3339Nano) + ")"
	case LookupRef:
		return "LookupRef{" + str(x.A) + ", " + str(x.V) + "}"
	case Datum:
		return fmt.Sprintf("[%d %d %s %d]", x.E, x.A, str(x.V), x.T)
	case []Datum:
		var ss []string
		for _, d := range x {
			ss = append(ss, str(d))
		}
		return strings.Join(ss, " ")
	}
	return fmt.Sprintf("%T%v", v, v)
}

// guard runs f and reports a panic of the code under test.
func guard(f func()) (p any, stack string) {
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violation); ok {
				panic(v)
			}
			p, stack = r, string(debug.Stack())
		}
	}()
	f()
	return
}

func collect(seq iter.Seq[Datum], max int) (ds []Datum) {
	if max == 0 {
		return
	}
	for d := range seq {
		ds = append(ds, d)
		if len(ds) == max || len(ds) > 5000 {
			break
		}
	}
	return
}

// view is what can be seen of a snapshot.
type view struct {
	all, byA []Datum
	idents   map[Ident]ID
	names    map[ID]Ident
	count    int
}

func (r *run) look(s Snapshot) (v view) {
	v.all = collect(s.Select(Claim{}), -1)
	v.count = s.Count(Claim{})
	as := map[ID]bool{}
	es := map[ID]bool{}
	for _, d := range v.all {
		as[d.A] = true
		es[d.E] = true
	}
	for _, at := range r.g.attrs {
		as[at.ID] = true
	}
	var ids []ID
	for a := range as {
		ids = append(ids, a)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	for _, a := range ids {
		v.byA = append(v.byA, collect(s.Select(Claim{A: a}), -1)...)
	}
	v.idents = map[Ident]ID{}
	for _, i := range r.allIdents() {
		v.idents[i] = s.ResolveIdent(i)
	}
	v.names = map[ID]Ident{}
	for e := range es {
		v.names[e] = s.ResolveAttrIdent(e)
	}
	return
}

func (r *run) allIdents() (is []Ident) {
	is = append(is, idents...)
	is = append(is, sysIdents...)
	for _, at := range r.g.combos {
		is = append(is, at.Ident)
	}
	return
}

func sameDatum(a, b Datum, t bool) bool {
	return a.E == b.E && a.A == b.A && sameValue(a.V, b.V) && (!t || a.T == b.T)
}

func sameAll(a, b []Datum, t bool) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !sameDatum(a[i], b[i], t) {
			return false
		}
	}
	return true
}

func (v view) diff(w view) string {
	if !sameAll(v.all, w.all, true) {
		return "datums " + str(v.all) + " became " + str(w.all)
	}
	if !sameAll(v.byA, w.byA, true) {
		return "datums by attribute " + str(v.byA) + " became " + str(w.byA)
	}
	if v.count != w.count {
		return fmt.Sprintf("count %d became %d", v.count, w.count)
	}
	for i, e := range v.idents {
		if x, ok := w.idents[i]; ok && x != e {
			return fmt.Sprintf("ident %q of %d became that of %d", i, e, x)
		}
	}
	for e, i := range v.names {
		if x, ok := w.names[e]; ok && x != i {
			return fmt.Sprintf("name %q of attribute %d became %q", i, e, x)
		}
	}
	return ""
}

func cloneRequest(q Request) (c Request) {
	full := q.Claims[:cap(q.Claims)]
	c.Claims = append(make([]Claim, 0, len(full)), full...)
	for _, t := range q.Retractions {
		m := map[IDRef]Void{}
		for k := range t.Constraints {
			m[k] = Void{}
		}
		c.Retractions = append(c.Retractions, Retraction{Constraints: m})
	}
	return
}

// write writes a request and judges what came of it.
func (r *run) write(q Request) (ok bool) {
	r.log = append(r.log, "write "+str(q))
	r.writes++
	before := r.s
	copied := cloneRequest(q)
	var res Response
	p, stack := guard(func() { res = r.db.Write(q) })
	if p != nil {
		r.fail("C18", "write panicked: %v\n%s", p, stack)
		o := before.apply(q, false, 0, nil, r.issued)
		for _, n := range o.reasons {
			r.fail(n.props, "panicked (%v) rather than being rejected: %s", p, n.why)
		}
		return false
	}
	r.judgeRequest(q, copied)
	o := before.apply(q, res.Error == nil, res.ID, res.TempIDs, r.issued)
	if res.Error != nil {
		r.rejected++
		r.log = append(r.log, fmt.Sprintf("  rejected: %v", res.Error))
		r.judgeRejected(q, res, o)
		return true
	}
	r.log = append(r.log, fmt.Sprintf("  accepted as %d, tempids %v", res.ID, res.TempIDs))
	for _, n := range o.reasons {
		r.fail(n.props, "accepted although %s", n.why)
	}
	var v view
	p, stack = guard(func() { v = r.look(res.Snapshot) })
	if p != nil {
		r.fail("C18 C03", "looking at the snapshot panicked: %v\n%s", p, stack)
		return false
	}
	r.judgeIDs(q, res, o)
	r.judgeState(res.Snapshot, v)
	if o.next == nil {
		return false // it must be rejected, say others
	}
	r.judgeEffect(q, res, o, v)
	r.accepted = append(r.accepted, q)
	r.answers = append(r.answers, res)
	if res.ID > r.issued {
		r.issued = res.ID
	}
	for _, id := range res.TempIDs {
		if id > r.issued {
			r.issued = id
		}
	}
	if !r.agrees(o.next, v) {
		return false // another property's affair
	}
	r.s = o.next
	r.g.see(r.s, r.issued)
	return true
}

// agrees reports whether the database is where the model is; a history goes on only then.
func (r *run) agrees(s *state, v view) bool {
	if len(v.all) != len(s.data) {
		return false
	}
	for _, d := range v.all {
		m, ok := s.data[keyOf(d)]
		if !ok || m.T != d.T {
			return false
		}
	}
	return true
}

func (r *run) judgeRequest(q, copied Request) {
	full := q.Claims[:cap(q.Claims)]
	for i := range full {
		if !reflect.DeepEqual(full[i], copied.Claims[i]) && !hasNaN(full[i]) {
			r.fail("C20", "claim %d (of %d) of the request's memory became %s from %s", i, len(q.Claims), str(full[i]), str(copied.Claims[i]))
		}
	}
	for i, t := range q.Retractions {
		if len(t.Constraints) != len(copied.Retractions[i].Constraints) {
			r.fail("C20", "retraction %d of the request changed", i)
		}
		for k := range t.Constraints {
			if _, ok := copied.Retractions[i].Constraints[k]; !ok && !hasNaN(k) {
				r.fail("C20", "retraction %d of the request changed", i)
			}
		}
	}
}

func hasNaN(v any) bool { return strings.Contains(fmt.Sprintf("%v", v), "NaN") || strings.Contains(str2(v), "NaN") }

func str2(v any) string {
	if c, ok := v.(Claim); ok {
		return str(c)
	}
	return str(v)
}

func (r *run) judgeRejected(q Request, res Response, o *outcome) {
	if res.ID != 0 {
		r.fail("C01", "rejected, but the response has the id %d", res.ID)
	}
	if len(res.TempIDs) != 0 {
		r.fail("C01", "rejected, but the response has tempids %v", res.TempIDs)
	}
	if res.Snapshot == nil {
		r.fail("C01", "rejected, and the response has no snapshot")
		return
	}
	switch r.prop {
	case "C01":
		want := r.look(r.lastSnap())
		if d := want.diff(r.look(res.Snapshot)); d != "" {
			r.fail("C01", "after a rejected write, in its response: %s", d)
		}
		if d := want.diff(r.look(r.db.Read())); d != "" {
			r.fail("C01", "after a rejected write: %s", d)
		}
		if len(o.reasons) == 0 && !o.may {
			r.fresh("C01", q, "a write that is accepted where the writes rejected before it were never made")
		}
	case "C02", "C12", "C13", "C14", "C07", "C08", "C10":
		r.judgeState(res.Snapshot, r.look(res.Snapshot))
	case "C19":
	}
	if len(o.reasons) == 0 && !o.may {
		// It could have been accepted. That is another matter, except where a property says so.
		if strings.Contains(res.Error.Error(), "uniqueValueImpossible") {
			r.fail("C09", "rejected (%v) although no tempid is tied to different entities", res.Error)
		}
		redeclares := false
		for _, c := range q.Claims {
			if a, ok := c.A.(ID); ok && (a == mType || a == mCard || a == mUnique || a == mIdent) && !c.Retract {
				var e ID
				switch x := c.E.(type) {
				case ID:
					e = x
				case Ident:
					e = r.s.ident(x)
				case TempID:
					for h := range o.same[x] {
						e = h
					}
				}
				if _, ok := r.g.as[e]; ok {
					redeclares = true
				}
			}
		}
		if redeclares && strings.Contains(res.Error.Error(), "attr") {
			r.fail("C12", "declaring an attribute again as it is was rejected: %v", res.Error)
		}
	}
	if r.prop == "C21" && len(o.reasons) == 0 {
		r.byIDs(q, res, o)
	}
}

func (r *run) lastSnap() Snapshot {
	if len(r.answers) == 0 {
		return r.snaps[0].snap
	}
	return r.answers[len(r.answers)-1].Snapshot
}

// fresh makes the accepted writes on another database, and then this one.
func (r *run) fresh(prop string, q Request, what string) {
	db := database.NewIndexDatabase(8, 8, 8)
	for i, a := range r.accepted {
		res := db.Write(a)
		if res.Error != nil || res.ID != r.answers[i].ID || !reflect.DeepEqual(res.TempIDs, r.answers[i].TempIDs) {
			r.fail(prop, "made without the rejected writes, accepted write %d is answered by %d %v %v and not by %d %v", i, res.ID, res.TempIDs, res.Error, r.answers[i].ID, r.answers[i].TempIDs)
			return
		}
	}
	if res := db.Write(q); res.Error == nil {
		r.fail(prop, "rejected %s", what)
	}
}

// byIDs makes the write with every reference replaced by the id it denotes.
func (r *run) byIDs(q Request, res Response, o *outcome) {
	db := database.NewIndexDatabase(8, 8, 8)
	for _, a := range r.accepted {
		if db.Write(a).Error != nil {
			return
		}
	}
	as := r.s.attrs()
	id := func(x any) ID {
		switch e := x.(type) {
		case Ident:
			return r.s.ident(e)
		case LookupRef:
			return r.s.lookup(as, e)
		}
		return 0
	}
	p := Request{}
	changed := false
	for _, c := range q.Claims {
		if i := id(c.E); i != 0 {
			c.E, changed = i, true
		}
		if i := id(c.A); i != 0 {
			c.A, changed = i, true
		}
		if i := id(c.V); i != 0 {
			c.V, changed = i, true
		}
		p.Claims = append(p.Claims, c)
	}
	for _, t := range q.Retractions {
		m := map[IDRef]Void{}
		for k := range t.Constraints {
			if i := id(k); i != 0 {
				m[i], changed = Void{}, true
			} else {
				m[k] = Void{}
			}
		}
		p.Retractions = append(p.Retractions, Retraction{Constraints: m})
	}
	if !changed {
		return
	}
	res2 := db.Write(p)
	if (res.Error == nil) != (res2.Error == nil) {
		r.fail("C21", "answered by %v, but with the references replaced by the ids they denote, %s, by %v", res.Error, str(p), res2.Error)
		return
	}
	if res.Error == nil {
		a, b := collect(res.Snapshot.Select(Claim{}), -1), collect(res2.Snapshot.Select(Claim{}), -1)
		if !sameAll(a, b, true) {
			r.fail("C21", "led to %s, but with the references replaced by the ids they denote to %s", str(a), str(b))
		}
	}
}

func (r *run) judgeIDs(q Request, res Response, o *outcome) {
	if res.ID <= r.issued {
		r.fail("C15", "transaction id %d is not greater than the id %d issued before", res.ID, r.issued)
	}
	if res.ID < mFirst {
		r.fail("C15", "transaction id %d is a system id", res.ID)
	}
	fresh := map[ID]TempID{}
	for t, es := range o.same {
		id, ok := res.TempIDs[t]
		if !ok || id == 0 {
			r.fail("C09", "tempid %q has no id in the response", t)
			continue
		}
		if len(es) == 1 {
			for e := range es {
				if id != e {
					r.fail("C09", "tempid %q denotes %d and not entity %d, whose identity value it asserts", t, id, e)
				}
			}
			continue
		}
		if len(es) == 0 {
			if id <= r.issued || id < mFirst {
				r.fail("C15 C09", "tempid %q denotes %d, which is not fresh: %d was issued before", t, id, r.issued)
			}
			if id == res.ID {
				r.fail("C15 C09", "tempid %q denotes the transaction %d", t, id)
			}
			if u, ok := fresh[id]; ok {
				r.fail("C15 C09", "tempids %q and %q both denote the fresh id %d", t, u, id)
			}
			fresh[id] = t
		}
	}
	for t := range res.TempIDs {
		if o.same[t] == nil {
			r.fail("C09", "the response has tempid %q, which the request does not use", t)
		}
	}
}

// judgeState judges a snapshot by itself.
func (r *run) judgeState(snap Snapshot, v view) {
	s := stateOf(v.all)
	as := s.attrs()
	if len(s.data) != len(v.all) {
		r.fail("C03", "the same datum is selected twice")
	}
	type ea struct{ e, a ID }
	one := map[ea]Datum{}
	type av struct {
		a ID
		v vkey
	}
	uniq := map[av]Datum{}
	for _, d := range append(append([]Datum{}, v.all...), v.byA...) {
		at, ok := as[d.A]
		if !ok {
			r.fail("C10", "datum %s has an attribute that is not declared", str(d))
		}
		if typeOf(d.V) != at.Type {
			r.fail("C10", "datum %s has not the type of its attribute", str(d))
		}
		if at.Cardinality != mMany {
			if x, ok := one[ea{d.E, d.A}]; ok && vk(x.V) != vk(d.V) {
				r.fail("C07", "both %s and %s although the attribute is single-valued", str(x), str(d))
			}
			one[ea{d.E, d.A}] = d
		}
		if at.Unique != 0 {
			if x, ok := uniq[av{d.A, vk(d.V)}]; ok && x.E != d.E {
				r.fail("C08", "both %s and %s although the attribute is unique", str(x), str(d))
			}
			uniq[av{d.A, vk(d.V)}] = d
		}
	}
	if r.prop == "C07" {
		for k, d := range one {
			if n := snap.Count(Claim{E: k.e, A: k.a}); n > 1 {
				r.fail("C07", "%d datums counted of entity %d for the single-valued attribute %d, as %s", n, k.e, k.a, str(d))
			}
			if n := len(collect(snap.Select(Claim{E: k.e, A: k.a}), -1)); n > 1 {
				r.fail("C07", "%d datums selected of entity %d for the single-valued attribute %d, as %s", n, k.e, k.a, str(d))
			}
		}
	}
	if r.prop == "C08" {
		for k, d := range uniq {
			for _, x := range collect(snap.Select(Claim{A: k.a, V: d.V.(VRef)}), -1) {
				if x.E != d.E {
					r.fail("C08", "both %s and %s although the attribute is unique", str(x), str(d))
				}
			}
		}
	}
	if r.prop == "C12" {
		for id, at := range as {
			if at.Ident == "" && s.one(id, mIdent) == nil {
				r.fail("C12", "attribute %d has no ident", id)
			}
			if at.Type < mRef || at.Type > mFloat {
				r.fail("C12", "attribute %d has type %d", id, at.Type)
			}
			if at.Cardinality != 0 && at.Cardinality != mOne && at.Cardinality != mMany {
				r.fail("C12", "attribute %d has cardinality %d", id, at.Cardinality)
			}
			if at.Unique != 0 && at.Unique != mIdentity && at.Unique != mUValue {
				r.fail("C12", "attribute %d has uniqueness %d", id, at.Unique)
			}
			if n := snap.ResolveAttrIdent(id); n != at.Ident {
				r.fail("C12", "attribute %d is called %q and not %q", id, n, at.Ident)
			}
			old, ok := r.g.as[id]
			if ok && old != at {
				r.fail("C12", "attribute %d was %+v and became %+v", id, old, at)
			}
		}
		for id := range r.g.as {
			if _, ok := as[id]; !ok {
				r.fail("C12", "attribute %d is no more", id)
			}
		}
	}
	if r.prop == "C13" {
		var ds []Datum
		for _, d := range v.all {
			if d.E < mFirst {
				ds = append(ds, d)
			} else if i, ok := d.V.(String); ok && d.A == mIdent && strings.HasPrefix(string(i), "sys/") {
				r.fail("C13", "datum %s gives an entity a system ident", str(d))
			}
		}
		want := newState().sorted()
		if !sameAll(ds, want, true) {
			r.fail("C13", "the system datums are %s and not %s", str(ds), str(want))
		}
		for _, d := range want {
			if d.A == mIdent {
				if e := snap.ResolveIdent(Ident(d.V.(String))); e != d.E {
					r.fail("C13", "system ident %s resolves to %d", str(d.V), e)
				}
			}
			if i := snap.ResolveAttrIdent(d.E); newState().attrs()[d.E].Ident != i {
				r.fail("C13", "system attribute %d is called %q", d.E, i)
			}
			var got []Datum
			for _, x := range collect(snap.Select(Claim{A: d.A}), -1) {
				if x.E < mFirst {
					got = append(got, x)
				}
			}
			var exp []Datum
			for _, x := range want {
				if x.A == d.A {
					exp = append(exp, x)
				}
			}
			if !sameAll(got, exp, true) {
				r.fail("C13", "the system datums of attribute %d are %s and not %s", d.A, str(got), str(exp))
			}
		}
		for _, i := range sysIdents {
			if snap.ResolveIdent(i) != newState().ident(i) {
				r.fail("C13", "system ident %q resolves to %d", i, snap.ResolveIdent(i))
			}
		}
	}
	if r.prop == "C14" {
		check := func(i Ident) {
			if e := s.ident(i); snap.ResolveIdent(i) != e {
				r.fail("C14", "ident %q resolves to %d, but %d has it recorded", i, snap.ResolveIdent(i), e)
			}
		}
		for _, i := range r.allIdents() {
			check(i)
		}
		for _, d := range v.all {
			if d.A == mIdent {
				check(Ident(d.V.(String)))
			}
		}
		for id, at := range as {
			if n := snap.ResolveAttrIdent(id); n != at.Ident {
				r.fail("C14", "attribute %d resolves to %q, but %q is recorded", id, n, at.Ident)
			}
		}
	}
}

// judgeEffect judges what an accepted write did.
func (r *run) judgeEffect(q Request, res Response, o *outcome, v view) {
	n := o.next
	switch r.prop {
	case "C06":
		for _, l := range [][]Datum{v.all, v.byA} {
			got := stateOf(l)
			for k, d := range n.data {
				if _, ok := got.data[k]; !ok {
					r.fail("C06", "datum %s is missing", str(d))
				}
			}
			for k, d := range got.data {
				if _, ok := n.data[k]; !ok {
					r.fail("C06", "datum %s should not be there", str(d))
				}
			}
		}
		for _, d := range v.all {
			if m := n.data[keyOf(d)]; o.touched[keyOf(d)] == false && !sameDatum(m, d, true) {
				r.fail("C06", "datum %s became %s", str(m), str(d))
			}
		}
		as := n.attrs()
		for _, d := range n.data {
			if as[d.A].Unique != 0 {
				if ds := collect(res.Snapshot.Select(Claim{A: d.A, V: d.V.(VRef)}), -1); len(ds) != 1 || ds[0].E != d.E {
					r.fail("C06", "of the unique value in %s are selected %s", str(d), str(ds))
				}
			}
		}
		before := r.s
		for _, d := range before.data {
			if _, ok := n.data[keyOf(d)]; !ok && as[d.A].Unique != 0 {
				for _, x := range collect(res.Snapshot.Select(Claim{A: d.A, V: d.V.(VRef)}), -1) {
					if _, ok := n.data[keyOf(x)]; !ok {
						r.fail("C06", "datum %s should not be there", str(x))
					}
				}
			}
		}
	case "C17":
		for _, l := range [][]Datum{v.all, v.byA} {
			for _, d := range l {
				if m, ok := n.data[keyOf(d)]; ok && m.T != d.T {
					r.fail("C17", "datum %s was introduced by %d", str(d), m.T)
				}
			}
		}
		as := n.attrs()
		for _, d := range n.data {
			if as[d.A].Unique != 0 {
				for _, x := range collect(res.Snapshot.Select(Claim{A: d.A, V: d.V.(VRef)}), -1) {
					if x.E == d.E && x.T != d.T {
						r.fail("C17", "datum %s was introduced by %d", str(x), d.T)
					}
				}
			}
		}
	case "C11":
		for _, l := range [][]Datum{v.all, v.byA} {
			for _, d := range l {
				if m, ok := n.data[keyOf(d)]; ok && !sameValue(m.V, d.V) {
					r.fail("C11", "datum %s has not the value %s", str(d), str(m.V))
				}
			}
			// Equal values are the same value, whatever they look like.
			got := stateOf(l)
			for k := range o.guise {
				_, want := n.data[k]
				if _, have := got.data[k]; want != have {
					r.fail("C11", "the claim of a value equal to %v of attribute %d of entity %d was not carried out as one of that value", k.V, k.A, k.E)
				}
			}
		}
	case "C09":
		// All uses of a tempid denote its id: what is about fresh entities is what was claimed.
		fresh := map[ID]bool{}
		for t, es := range o.same {
			if len(es) == 0 {
				fresh[res.TempIDs[t]] = true
			}
		}
		got := stateOf(v.all)
		uses := func(d Datum) bool {
			x, ok := d.V.(ID)
			return fresh[d.E] || ok && fresh[x]
		}
		for k, d := range n.data {
			if _, ok := got.data[k]; !ok && uses(d) {
				r.fail("C09", "datum %s of a tempid is missing", str(d))
			}
		}
		for k, d := range got.data {
			if _, ok := n.data[k]; !ok && uses(d) {
				r.fail("C09", "datum %s of a tempid should not be there", str(d))
			}
		}
		for i, c := range q.Claims {
			t, ok := c.E.(TempID)
			if !ok || len(o.same[t]) != 1 {
				continue
			}
			for k := range o.touched {
				if k.E == res.TempIDs[t] {
					_, want := n.data[k]
					if _, have := got.data[k]; want != have {
						r.fail("C09", "claim %d about tempid %q did not reach entity %d", i, t, k.E)
					}
				}
			}
		}
	case "C16":
		got := stateOf(v.all)
		for _, l := range [][]Datum{v.all, v.byA} {
			for _, d := range l {
				if _, ok := n.data[keyOf(d)]; !ok && o.named[d.E] {
					r.fail("C16", "datum %s of a retracted entity is left", str(d))
				}
			}
		}
		if len(o.named) > 0 {
			for k, d := range r.s.data {
				if _, ok := n.data[k]; ok && !o.touched[k] && !o.named[k.E] {
					if _, ok := got.data[k]; !ok {
						r.fail("C16", "datum %s of another entity was removed", str(d))
					}
				}
			}
			for e := range o.named {
				have := 0
				for k := range n.data {
					if k.E == e {
						have++
					}
				}
				if have == 0 {
					if c := res.Snapshot.Count(Claim{E: e}); c != 0 {
						r.fail("C16", "%d datums of the retracted entity %d are counted", c, e)
					}
				}
			}
		}
	case "C21":
		r.byIDs(q, res, o)
	case "C01":
		if r.writes > len(r.accepted)+1 && r.g.p(25) {
			db := database.NewIndexDatabase(8, 8, 8)
			for _, a := range r.accepted {
				db.Write(a)
			}
			res2 := db.Write(q)
			if res2.Error != nil || res2.ID != res.ID || !reflect.DeepEqual(res2.TempIDs, res.TempIDs) {
				r.fail("C01", "answered by %d %v, but made without the rejected writes by %d %v %v", res.ID, res.TempIDs, res2.ID, res2.TempIDs, res2.Error)
			}
			w := r.look(res2.Snapshot)
			if d := w.diff(v); d != "" {
				r.fail("C01", "made without the rejected writes against with them: %s", d)
			}
		}
	}
}

// ask judges queries of a snapshot whose datums are s.
func (r *run) ask(snap Snapshot, s *state, n int) {
	as := s.attrs()
	all := s.sorted()
	for _, c := range r.g.queries(n) {
		r.asked++
		r.log = append(r.log, "query "+str(c))
		q := s.resolve(as, c)
		var got []Datum
		var count, count2 int
		var has bool
		p, stack := guard(func() { got = collect(snap.Select(c), -1) })
		if p != nil {
			r.fail("C18 C03", "select panicked: %v\n%s", p, stack)
			continue
		}
		p, stack = guard(func() { count, has = snap.Count(c), snap.Has(c) })
		if p != nil {
			r.fail("C18 C04", "count or has panicked: %v\n%s", p, stack)
			continue
		}
		if count != len(got) {
			r.fail("C04", "count is %d, but selected are %s", count, str(got))
		}
		if has != (len(got) > 0) {
			r.fail("C04", "has is %v, but selected are %s", has, str(got))
		}
		switch r.prop {
		case "C03":
			var want []Datum
			for _, d := range all {
				if q.matches(d) {
					want = append(want, d)
				}
			}
			sorted := append([]Datum{}, got...)
			sortDatums(sorted)
			if !sameAll(sorted, want, true) {
				r.fail("C03", "selected are %s and not %s", str(got), str(want))
			}
		case "C05":
			for i := 1; i < len(got); i++ {
				if !dless(got[i-1], got[i]) {
					r.fail("C05", "%s is selected before %s", str(got[i-1]), str(got[i]))
				}
			}
			for k := 1; k <= len(got) && k < 40; k++ {
				part := collect(snap.Select(c), k)
				if !sameAll(part, got[:min(k, len(got))], true) {
					r.fail("C05", "stopped after %d, selected are %s of %s", k, str(part), str(got))
				}
			}
		case "C04":
			if count2 = snap.Count(c); count2 != count {
				r.fail("C04", "count is %d and then %d", count, count2)
			}
		case "C21":
			if q.none {
				if len(got) > 0 || count > 0 || has {
					r.fail("C21", "a reference resolves to nothing, but selected are %s", str(got))
				}
				break
			}
			d := Claim{}
			if c.E != nil {
				d.E = q.e
			}
			if c.A != nil {
				d.A = q.a
			}
			if q.v != nil {
				v, ok := q.v.(VRef)
				if !ok {
					break
				}
				d.V = v
			}
			ids := collect(snap.Select(d), -1)
			if !sameAll(got, ids, true) || snap.Count(d) != count || snap.Has(d) != has {
				r.fail("C21", "selected are %s, but by the ids %s", str(got), str(ids))
			}
		}
		r.log = r.log[:len(r.log)-1]
	}
}

func (r *run) keep(snap Snapshot, s *state) {
	k := kept{snap: snap, at: len(r.log)}
	guard(func() {
		k.view = r.look(snap)
		k.pc = r.g.queries(1)[0]
		k.want = collect(snap.Select(k.pc), -1)
		k.seq = snap.Select(Claim{})
		k.part = snap.Select(k.pc)
	})
	r.snaps = append(r.snaps, k)
}

func (r *run) recheck() {
	for _, k := range r.snaps {
		var v view
		var l, m []Datum
		p, stack := guard(func() { v = r.look(k.snap); l = collect(k.seq, -1); m = collect(k.part, -1) })
		if p != nil {
			r.fail("C02 C18", "looking at an older snapshot panicked: %v\n%s", p, stack)
			continue
		}
		if d := k.view.diff(v); d != "" {
			r.fail("C02", "a snapshot taken after line %d of the history changed: %s", k.at, d)
		}
		if !sameAll(l, k.view.all, true) {
			r.fail("C02", "a selection from a snapshot taken after line %d changed: %s became %s", k.at, str(k.view.all), str(l))
		}
		if !sameAll(m, k.want, true) {
			r.fail("C02", "selecting %s from a snapshot taken after line %d changed: %s became %s", str(k.pc), k.at, str(k.want), str(m))
		}
	}
}

var queried = map[string]bool{"C02": true, "C03": true, "C04": true, "C05": true, "C18": true, "C21": true}

func history(prop string, seed int64, stat *stats) (f *failure) {
	r := &run{prop: prop, g: newGen(seed)}
	defer func() {
		atomic.AddInt64(&stat.writes, int64(r.writes))
		atomic.AddInt64(&stat.queries, int64(r.asked))
		atomic.AddInt64(&stat.rejected, int64(r.rejected))
		atomic.AddInt64(&stat.histories, 1)
		if len(r.accepted) >= 3 {
			atomic.AddInt64(&stat.nontrivial, 1)
		}
		if x := recover(); x != nil {
			v, ok := x.(violation)
			if !ok {
				panic(x)
			}
			f = &failure{prop: prop, what: v.what, log: r.log}
		}
	}()
	degree := []int{2, 3, 8, 64}[r.g.Intn(4)]
	p, stack := guard(func() { r.db = database.NewIndexDatabase(degree, r.g.Intn(8), r.g.Intn(8)) })
	if p != nil {
		r.fail("C18", "making a database panicked: %v\n%s", p, stack)
		return
	}
	r.log = append(r.log, fmt.Sprintf("database of degree %d", degree))
	r.s = newState()
	r.issued = mFirst - 1
	r.g.see(r.s, r.issued)
	snap := r.db.Read()
	v := r.look(snap)
	r.judgeState(snap, v)
	if r.prop == "C13" || r.prop == "C06" || r.prop == "C17" {
		// the model starts from the system's datums
	}
	if !r.agrees(r.s, v) {
		r.s = stateOf(v.all)
		r.g.see(r.s, r.issued)
	}
	r.keep(snap, r.s)
	n := 3 + r.g.Intn(8)
	req := Request{Claims: r.g.declare(r.g.combos[:n]...)}
	if !r.write(req) {
		return
	}
	steps := 4 + r.g.Intn(20)
	for i := 0; i < steps; i++ {
		if !r.write(r.g.request()) {
			return
		}
		if prop == "C02" && r.g.p(40) {
			r.keep(r.db.Read(), r.s)
		}
		if prop == "C02" && r.g.p(40) {
			r.keep(r.lastSnap(), r.s)
		}
		if queried[prop] && (i%4 == 3 || i == steps-1) {
			k := 250
			if prop == "C02" || prop == "C18" {
				k = 60
			}
			sn := r.db.Read()
			if r.g.p(50) {
				sn = r.lastSnap()
			}
			r.ask(sn, r.s, k)
			if prop == "C02" {
				// Queries change nothing.
				if d := r.look(r.lastSnap()).diff(r.look(r.db.Read())); d != "" {
					r.fail("C02", "the database differs from the snapshot of its last write: %s", d)
				}
			}
		}
		if prop == "C02" {
			r.recheck()
		}
	}
	return
}

type stats struct{ histories, writes, rejected, queries, nontrivial int64 }

func TestVerif(t *testing.T) {
	prop := os.Getenv("VERIF_PROP")
	if prop == "" {
		t.Skip("no property")
	}
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	budget, _ := strconv.ParseFloat(os.Getenv("VERIF_BUDGET"), 64)
	most, _ := strconv.ParseInt(os.Getenv("VERIF_MAX"), 10, 64)
	if budget == 0 {
		budget = 10
	}
	var st stats
	var found atomic.Pointer[failure]
	report := func(f *failure) {
		for {
			o := found.Load()
			if o != nil && len(o.log) <= len(f.log) {
				return
			}
			if found.CompareAndSwap(o, f) {
				return
			}
		}
	}
	for _, f := range directed(prop, &st) {
		report(f)
	}
	deadline := time.Now().Add(time.Duration(budget * float64(time.Second)))
	var wg sync.WaitGroup
	if found.Load() == nil && prop == "C19" {
		concurrent(prop, seed, deadline, &st, report)
	} else if found.Load() == nil {
		var next int64
		for w := 0; w < 8; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for time.Now().Before(deadline) && found.Load() == nil {
					i := atomic.AddInt64(&next, 1)
					if most > 0 && i > most {
						return
					}
					if f := history(prop, seed*1_000_003+i, &st); f != nil {
						report(f)
					}
				}
			}()
		}
		wg.Wait()
	}
	fmt.Printf("VERIF-STATS histories=%d nontrivial=%d writes=%d rejected=%d queries=%d\n", st.histories, st.nontrivial, st.writes, st.rejected, st.queries)
	if f := found.Load(); f != nil {
		fmt.Printf("VERIF-FOUND %s: %s\n", f.prop, strings.ReplaceAll(f.what, "\n", "\n    "))
		for i, l := range f.log {
			fmt.Printf("VERIF-HISTORY %3d %s\n", i, l)
		}
		t.Fail()
	}
}
