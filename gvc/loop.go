package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"
)

// loop is a loop of the program reduced to a head that decides between the body and the
// exit, a body and a step.
type loop struct {
	node  ast.Node
	label string
	fr    *Frame
	ghost map[string]TV                                             // ghosts at entry
	havoc func(st *State)                                           // renews the ghosts
	head  func(st *State, body, exit func(*State))                  // guard
	body  func(st *State, k Kont)                                   // one iteration
	step  func(st *State, k func(*State))                           // after an iteration
	back  func(st *State)                                           // obligations at the back edge
	epos  token.Pos                                                 // the end of the body
	bpos  token.Pos                                                 // where names are resolved
	ret   func(k Kont) (next func(*State), kk func(base Kont) Kont) // unused
}

const maxUnroll = 40

// stopLoop, for development, gives up before the loop of that ordinal.
var stopLoop int

func (x *Exec) loopOrdinal(n ast.Node) string {
	if s, ok := x.loopSeen[n]; ok {
		return s
	}
	x.loopCount++
	s := fmt.Sprintf("%d", x.loopCount)
	x.loopSeen[n] = s
	return s
}

func (x *Exec) runLoop(l *loop, st *State, k Kont) {
	ord := x.loopOrdinal(l.node)
	var n int
	fmt.Sscanf(ord, "%d", &n)
	if stopLoop > 0 && n >= stopLoop {
		x.exits++
		return
	}
	var ls *LoopSpec
	if x.fn != nil {
		ls = x.fn.loops[n]
	}
	outer := st.ghosts
	for g, v := range l.ghost {
		st.ghost(g, v)
		st.ghost(g+ord, v)
	}
	leave := func(s *State, to func(*State)) {
		g := map[string]TV{}
		for n, v := range outer {
			g[n] = v
		}
		for n, v := range s.ghosts {
			if strings.HasSuffix(n, ord) {
				g[n] = v
			}
		}
		s.ghosts = g
		to(s)
	}
	wrap := func(kx Kont, next, exit func(*State)) Kont {
		kb := kx
		kb.next = next
		kb.brk, kb.cont = copyK(kx.brk), copyK(kx.cont)
		brk := func(s *State) { leave(s, exit) }
		kb.brk[""], kb.cont[""] = brk, next
		if l.label != "" {
			kb.brk[l.label], kb.cont[l.label] = brk, next
		}
		return kb
	}
	if ls != nil && ls.unroll {
		var iter func(st *State, i int)
		iter = func(st *State, i int) {
			if i > maxUnroll {
				panic(unsupported("loop at " + x.pos(l.node) + " runs too often to unroll"))
			}
			l.head(st, func(st *State) {
				next := func(st *State) {
					l.step(st, func(st *State) { iter(st, i+1) })
				}
				l.body(st, wrap(k, next, k.next))
			}, func(st *State) { leave(st, k.next) })
		}
		iter(st, 0)
		return
	}
	where := x.pos(l.node) + " (loop " + ord + ")"
	st.label("loop" + ord)
	if ls == nil {
		ls = &LoopSpec{}
	}
	inv := func(s *State) *Env {
		return &Env{x: x, st: s, old: x.initState, names: x.rootNames, fr: l.fr, pos: l.bpos, suffix: x.suffixOf(x.tenv), ctx: x.ctx}
	}
	advance := func(s *State) {
		for _, g := range ls.ghosts {
			e := inv(s)
			e.pos = l.epos
			t := e.ev(g.e).t
			x.heapSet(s, "Y."+g.name, nil, t)
		}
	}
	for _, g := range ls.ghosts {
		x.heapSet(st, "Y."+g.name, nil, inv(st).ev(g.init).t)
	}
	if x.dry == 0 {
		for _, c := range ls.invs {
			x.prove(st, x.clause(inv(st), c), "invariant "+c.name+" on entry", where, c.tags)
		}
	}
	entry := st.clone()
	mark := freshCount
	nrefEntry := x.nref(entry)

	// Find what the loop writes.
	rec := newRecorder()
	for round := 0; ; round++ {
		h := x.havocLoop(entry, rec, mark, nrefEntry, l)
		if rec.comps["Y.stop"] != nil && entry.heap["Y.stop"] == tFalse {
			h.heap["Y.stop"] = tFalse
		}
		for _, c := range ls.invs {
			h.assume(x.clause(inv(h), c))
		}
		// A path that leaves the function does not matter.
		r := newRecorder()
		h.writes = nil
		x.dry++
		stop := func(s *State) { r.collect(s) }
		kd := wrap(k, nil, stop)
		kd.ret = func(*State, []*Term) {}
		for lb := range kd.brk {
			kd.brk[lb] = stop
		}
		for lb := range kd.cont {
			kd.cont[lb] = stop
		}
		fin := func(s *State) { advance(s); l.step(s, stop) }
		kd.next, kd.cont[""] = fin, fin
		if l.label != "" {
			kd.cont[l.label] = fin
		}
		l.head(h, func(s *State) { l.body(s, kd) }, stop)
		x.dry--
		grew := false
		for v := range r.vars {
			if _, ok := entry.vars[v]; ok && !rec.vars[v] {
				rec.vars[v] = true
				grew = true
			}
		}
		for c, idx := range r.comps {
			if rec.comps[c] == nil {
				grew = true
			}
			for _, i := range idx {
				key := x.indexKind(i, mark, h)
				if rec.addKind(c, key) {
					grew = true
				}
			}
		}
		if !grew {
			break
		}
		if round > 6 {
			panic(unsupported("loop at " + where + ": write set does not settle"))
		}
	}
	h := x.havocLoop(entry, rec, mark, nrefEntry, l)
	yields := rec.comps["Y.stop"] != nil && entry.heap["Y.stop"] == tFalse
	if yields {
		h.heap["Y.stop"] = tFalse
	}
	for _, c := range ls.invs {
		h.assume(x.clause(inv(h), c))
	}
	h.label("head" + ord)
	base := h.clone()
	exit := func(s *State) { k.next(s) }
	joined := false
	if len(ls.exits) > 0 {
		exit = func(s *State) {
			joined = true
			for _, c := range ls.exits {
				g := x.clause(inv(s), c)
				x.prove(s, g, "loop exit "+c.name, where, c.tags)
				s.assume(g)
			}
		}
	}
	next := func(s *State) {
		advance(s)
		l.step(s, func(s *State) {
			if l.back != nil {
				l.back(s)
			}
			if yields {
				x.oblige(s, Not(x.heapGet(s, "Y.stop")), "the sequence ends when its consumer stops", where, []string{"C05", "C18"})
			}
			for _, c := range ls.invs {
				g := x.clause(inv(s), c)
				x.prove(s, g, "invariant "+c.name+" kept", where, c.tags)
				s.assume(g)
			}
		})
	}
	kb := wrap(k, next, exit)
	l.head(h, func(s *State) { l.body(s, kb) }, func(s *State) { leave(s, exit) })
	if len(ls.exits) > 0 && (joined || x.dry > 0) {
		j := x.havocLoop(entry, rec, mark, nrefEntry, l)
		_ = base
		for _, c := range ls.exits {
			j.assume(x.clause(inv(j), c))
		}
		j.label("exit" + ord)
		leave(j, k.next)
	}
}

func (x *Exec) clause(e *Env, c *Clause) *Term {
	e.clause = c.name
	return e.bool(c.e)
}

var (
	kindAny   = Sym("@any")
	kindFresh = Sym("@fresh")
)

func (r *Recorder) addKind(c string, k *Term) bool {
	for _, i := range r.comps[c] {
		if i == k {
			return false
		}
	}
	r.comps[c] = append(r.comps[c], k)
	return true
}

// indexKind classifies where a loop body writes: at an index fixed before the loop, at
// objects it allocates, or anywhere.
func (x *Exec) indexKind(i *Term, mark int, h *State) *Term {
	if i == nil {
		return kindAny
	}
	if i == kindAny || i == kindFresh {
		return i
	}
	if !newerThan(i, mark) {
		return i
	}
	if x.freshIndex(i, h) {
		return kindFresh
	}
	return kindAny
}

func (x *Exec) freshIndex(i *Term, h *State) bool {
	if i.op == "ite" {
		return x.freshIndex(i.args[1], h) && x.freshIndex(i.args[2], h)
	}
	b, off := splitOff(i)
	if off.Sign() < 0 {
		return false
	}
	if b == x.nref(h) {
		return true
	}
	if strings.HasPrefix(b.op, "nref!") {
		return true
	}
	return false
}

// havocLoop forgets everything the loop writes.
func (x *Exec) havocLoop(entry *State, rec *Recorder, mark int, nrefEntry *Term, l *loop) *State {
	st := entry.clone()
	for v := range rec.vars {
		st.writes = &write{v: v, prev: st.writes}
	}
	for c, idx := range rec.comps {
		for _, i := range idx {
			if i == kindFresh {
				i = nrefEntry
			} else if i == kindAny {
				i = nil
			}
			st.wrote(c, i)
		}
	}
	if rec.comps["nref"] != nil {
		n := fresh("nref", "Int")
		st.heap["nref"] = n
		st.assume(Le(nrefEntry, n))
	}
	for _, c := range sortedKeys(rec.comps) {
		if c == "nref" {
			continue
		}
		cur := x.heapGet(st, c)
		srt := comps[c].sort
		any, fr := false, false
		var pts []*Term
		for _, i := range rec.comps[c] {
			switch i {
			case kindAny:
				any = true
			case kindFresh:
				fr = true
			default:
				pts = append(pts, i)
			}
		}
		switch {
		case any:
			st.heap[c] = fresh("H_"+c, srt)
		case fr:
			n := fresh("H_"+c, srt)
			old := cur
			_, vs := splitArr(srt)
			for _, p := range pts {
				old = Store(old, p, fresh("mod", vs))
			}
			x.havocFresh(st, c, old, n, nrefEntry)
			st.heap[c] = n
		default:
			_, vs := splitArr(srt)
			for _, p := range pts {
				cur = Store(cur, p, fresh("mod", vs))
			}
			st.heap[c] = cur
		}
	}
	var vks []varKey
	for v := range rec.vars {
		vks = append(vks, v)
	}
	sortVarKeys(vks)
	for _, v := range vks {
		old, ok := st.vars[v]
		if !ok {
			continue
		}
		fr := x.frameByID[v.frame]
		t := v.obj.Type()
		if fr != nil {
			t = fr.subst(t)
		}
		if fr != nil && x.boxedVar(fr, v.obj) {
			st.vars[v] = fresh(v.obj.Name(), "Int")
			continue
		}
		n := fresh(v.obj.Name(), sortOfTerm(old))
		st.vars[v] = n
		st.assume(x.typeFacts(st, n, t))
	}
	if l.havoc != nil {
		l.havoc(st)
	}
	return st
}

func sortVarKeys(v []varKey) {
	for i := 1; i < len(v); i++ {
		for j := i; j > 0 && (v[j].obj.Pos() < v[j-1].obj.Pos() || v[j].obj.Pos() == v[j-1].obj.Pos() && v[j].frame < v[j-1].frame); j-- {
			v[j], v[j-1] = v[j-1], v[j]
		}
	}
}

// ---- statements ----

func (x *Exec) forStmt(fr *Frame, s *ast.ForStmt, label string, st *State, k Kont) {
	if x.meets(fr, s, st, func(st *State) { x.forStmt(fr, s, label, st, k) }) {
		return
	}
	x.exec(fr, s.Init, st, k.withNext(func(st *State) {
		l := &loop{node: s, label: label, fr: fr, bpos: s.Body.Lbrace + 1, epos: s.Body.Rbrace}
		l.head = func(st *State, body, exit func(*State)) {
			if s.Cond == nil {
				body(st)
				return
			}
			x.cond(fr, s.Cond, st, body, exit)
		}
		l.body = func(st *State, k Kont) { x.exec(fr, s.Body, st, k) }
		l.step = func(st *State, kn func(*State)) { x.exec(fr, s.Post, st, k.withNext(kn)) }
		x.runLoop(l, st, k)
	}))
}

func (x *Exec) rangeStmt(fr *Frame, s *ast.RangeStmt, label string, st *State, k Kont) {
	if x.meets(fr, s, st, func(st *State) { x.rangeStmt(fr, s, label, st, k) }) {
		return
	}
	xt := x.typeOf(fr, s.X)
	setVars := func(st *State, key, val *Term, kk func(*State)) {
		bind := func(e ast.Expr, v *Term, st *State, k2 func(*State)) {
			if e == nil || v == nil {
				k2(st)
				return
			}
			if id, ok := e.(*ast.Ident); ok {
				if id.Name == "_" {
					k2(st)
					return
				}
				if s.Tok == token.DEFINE {
					x.define(fr, st, fr.pkg.info.Defs[id], v)
					k2(st)
					return
				}
			}
			x.assign(fr, e, v, st, k2)
		}
		bind(s.Key, key, st, func(st *State) { bind(s.Value, val, st, kk) })
	}
	l := &loop{node: s, label: label, fr: fr, bpos: s.Body.Lbrace + 1, epos: s.Body.Rbrace}
	l.body = func(st *State, k Kont) { x.exec(fr, s.Body, st, k) }
	intT := types.Typ[types.Int]
	ordinal := func() string { return x.loopOrdinal(s) }
	setG := func(st *State, name string, v TV) {
		st.ghost(name, v)
		st.ghost(name+ordinal(), v)
	}
	counter := func(n *Term) {
		l.ghost = map[string]TV{"$i": {Num(0), intT}, "$n": {n, intT}}
		l.havoc = func(st *State) {
			i := fresh("i", "Int")
			setG(st, "$i", TV{i, intT})
			st.assume(And(Le(Num(0), i), Le(i, n)))
		}
		l.step = func(st *State, kn func(*State)) {
			i := st.ghosts["$i"+ordinal()].t
			setG(st, "$i", TV{Add(i, Num(1)), intT})
			kn(st)
		}
	}
	switch u := xt.Underlying().(type) {
	case *types.Slice:
		x.eval(fr, s.X, st, func(st *State, sl *Term) {
			n := App("sl_len", sl)
			counter(n)
			l.ghost["$s"] = TV{sl, xt}
			l.head = func(st *State, body, exit func(*State)) {
				i := st.ghosts["$i"+ordinal()].t
				x.branch(st, Lt(i, n), func(st *State) {
					var v *Term
					if s.Value != nil {
						v = x.sliceLoad(st, sl, i, u.Elem())
					}
					setVars(st, i, v, body)
				}, exit)
			}
			x.runLoop(l, st, k)
		})
	case *types.Basic:
		if u.Info()&types.IsInteger == 0 {
			panic(unsupported("range over " + tyName(xt)))
		}
		x.eval(fr, s.X, st, func(st *State, n *Term) {
			counter(n)
			l.havoc = func(st *State) {
				i := fresh("i", "Int")
				setG(st, "$i", TV{i, intT})
				st.assume(And(Le(Num(0), i), Or(Le(i, n), Eq(i, Num(0)))))
			}
			l.head = func(st *State, body, exit func(*State)) {
				i := st.ghosts["$i"+ordinal()].t
				x.branch(st, Lt(i, n), func(st *State) { setVars(st, i, nil, body) }, exit)
			}
			x.runLoop(l, st, k)
		})
	case *types.Map:
		x.eval(fr, s.X, st, func(st *State, m *Term) {
			x.guardMap(st, m, xt, false, s)
			ks := x.prog.sortOf(u.Key())
			vsort := arrSort(ks, "Bool")
			none := ConstArr(vsort, tFalse)
			dc, _ := x.mapComps(xt)
			dom0 := Select(x.heapGet(st, dc), m)
			if elems, ok := literalDomain(dom0); ok && x.fn != nil {
				// A map whose keys are known: any order, but each key once. The
				// iterations are taken over an arbitrary unvisited key below unless
				// the loop is to be unrolled, in which case they are enumerated.
				_ = elems
			}
			l.ghost = map[string]TV{"$visited": {none, nil}, "$m": {m, xt}}
			l.havoc = func(st *State) {
				v := fresh("visited", vsort)
				setG(st, "$visited", TV{v, nil})
				qvar++
				b := fmt.Sprintf("k?%d", qvar)
				boundSorts[b] = ks
				st.assume(mkQuant("forall", []Binder{{b, ks}}, Implies(mkTerm("select", v, Sym(b)), mkTerm("select", dom0, Sym(b))), [][]*Term{{mkTerm("select", v, Sym(b))}}))
			}
			l.head = func(st *State, body, exit func(*State)) {
				vis := st.ghosts["$visited"+ordinal()].t
				dom := Select(x.heapGet(st, dc), m)
				s2 := st.clone()
				key := fresh("key", ks)
				st.add(And(Select(dom, key), Not(Select(vis, key)), x.typeFacts(st, key, u.Key())), true)
				if x.feasible(st) {
					setG(st, "$key", TV{key, u.Key()})
					v, _ := x.mapLoad(st, m, key, xt)
					setVars(st, key, v, body)
				}
				qvar++
				b := fmt.Sprintf("k?%d", qvar)
				boundSorts[b] = ks
				all := mkQuant("forall", []Binder{{b, ks}}, Implies(mkTerm("select", dom, Sym(b)), mkTerm("select", vis, Sym(b))), [][]*Term{{mkTerm("select", dom, Sym(b))}, {mkTerm("select", vis, Sym(b))}})
				if vis == none {
					all = mkQuant("forall", []Binder{{b, ks}}, Not(mkTerm("select", dom, Sym(b))), nil)
				}
				s2.add(all, true)
				exit(s2)
			}
			l.step = func(st *State, kn func(*State)) {
				vis := st.ghosts["$visited"+ordinal()].t
				key := st.ghosts["$key"+ordinal()].t
				setG(st, "$visited", TV{Store(vis, key, tTrue), nil})
				kn(st)
			}
			l.back = func(st *State) {
				dom := Select(x.heapGet(st, dc), m)
				if dom == dom0 {
					return
				}
				qvar++
				b := fmt.Sprintf("k?%d", qvar)
				boundSorts[b] = ks
				x.oblige(st, mkQuant("forall", []Binder{{b, ks}}, Eq(Select(dom, Sym(b)), Select(dom0, Sym(b))), nil), "ranged map keeps its keys", x.pos(s), nil)
			}
			x.runLoop(l, st, k)
		})
	case *types.Signature:
		x.eval(fr, s.X, st, func(st *State, q *Term) {
			x.rangeSeq(fr, s, l, q, st, k, setVars, setG, counter, ordinal)
		})
	default:
		panic(unsupported("range over " + tyName(xt)))
	}
}

func literalDomain(d *Term) ([]*Term, bool) {
	var out []*Term
	for d.op == "store" {
		if d.args[2] != tTrue {
			return nil, false
		}
		out = append(out, d.args[1])
		d = d.args[0]
	}
	if !isEmptyMap(d) {
		return nil, false
	}
	return out, true
}

// rangeSeq ranges over a sequence of datums, which is known by its length and elements.
func (x *Exec) rangeSeq(fr *Frame, s *ast.RangeStmt, l *loop, q *Term, st *State, k Kont, setVars func(*State, *Term, *Term, func(*State)), setG func(*State, string, TV), counter func(*Term), ordinal func() string) {
	if q.op == "ite" {
		x.branch(st, q.args[0], func(st *State) {
			l1 := *l
			x.rangeSeqAt(fr, s, &l1, q.args[1], st, k, setVars, setG, ordinal)
		}, func(st *State) {
			l2 := *l
			x.rangeSeqAt(fr, s, &l2, q.args[2], st, k, setVars, setG, ordinal)
		})
		return
	}
	x.rangeSeqAt(fr, s, l, q, st, k, setVars, setG, ordinal)
}

func (x *Exec) rangeSeqAt(fr *Frame, s *ast.RangeStmt, l *loop, q *Term, st *State, k Kont, setVars func(*State, *Term, *Term, func(*State)), setG func(*State, string, TV), ordinal func() string) {
	ds := x.datumSort()
	declareFun("qn", "Int", "Int")
	declareFun("qat", ds, "Int", "Int")
	if c := x.closures[q]; c != nil && c.lit != nil && len(c.lit.Body.List) == 0 {
		k.next(st) // the empty sequence
		return
	}
	intT := types.Typ[types.Int]
	n := mkTerm("qn", q)
	x.oblige(st, Not(Eq(q, Num(0))), "no nil sequence", x.pos(s), tagPanic)
	st.assume(Le(Num(0), n))
	st.assume(App("okInt64", n))
	l.ghost = map[string]TV{"$i": {Num(0), intT}, "$n": {n, intT}, "$q": {q, intT}}
	l.havoc = func(st *State) {
		i := fresh("i", "Int")
		setG(st, "$i", TV{i, intT})
		st.assume(And(Le(Num(0), i), Le(i, n)))
	}
	l.step = func(st *State, kn func(*State)) {
		i := st.ghosts["$i"+ordinal()].t
		setG(st, "$i", TV{Add(i, Num(1)), intT})
		kn(st)
	}
	cont0 := x.contentHeap(st)
	l.back = func(st *State) { x.sameContent(st, cont0, x.pos(s)) }
	l.head = func(st *State, body, exit func(*State)) {
		i := st.ghosts["$i"+ordinal()].t
		x.branch(st, Lt(i, n), func(st *State) {
			d := mkTerm("qat", q, i)
			st.assume(x.prog.valueFacts(d, x.prog.goType("types.Datum")))
			setVars(st, d, nil, body)
		}, exit)
	}
	x.runLoop(l, st, k)
}

// contentHeap is the part of the heap sequences read lazily.
func (x *Exec) contentHeap(st *State) map[string]*Term {
	m := map[string]*Term{}
	for n := range comps {
		if strings.HasPrefix(n, "B.C.") || strings.HasPrefix(n, "G.D") {
			m[n] = x.heapGet(st, n)
		}
	}
	return m
}

func (x *Exec) sameContent(st *State, m map[string]*Term, where string) {
	for n, t := range m {
		if x.heapGet(st, n) != t {
			x.oblige(st, Eq(x.heapGet(st, n), t), "no index changes while a sequence drawn from it is read", where, nil)
		}
	}
}

// ascend runs a visitor over a tree in order, from the first item not before the pivot.
func (x *Exec) ascend(st *State, tree, pivot, f *Term, sfx, sort string, n ast.Node, k func(*State)) {
	c := x.closures[f]
	if c == nil || c.lit == nil {
		panic(unsupported("unknown visitor at " + x.pos(n)))
	}
	content := Select(x.heapGet(st, x.treeComp(sfx)), tree)
	ord := Select(x.heapGet(st, x.comp("B.ord", arrSort("Int", "Int"))), tree)
	lo := Num(0)
	if pivot != nil {
		lo = mkTerm("apos"+sfx, content, ord, pivot)
	}
	an := mkTerm("an"+sfx, content)
	intT := types.Typ[types.Int]
	l := &loop{node: n, fr: c.fr, bpos: c.lit.Body.Lbrace + 1, epos: c.lit.Body.Rbrace}
	ord2 := func() string { return x.loopOrdinal(n) }
	setG := func(st *State, name string, v TV) {
		st.ghost(name, v)
		st.ghost(name+ord2(), v)
	}
	st.assume(And(Le(Num(0), lo), Le(lo, an)))
	l.ghost = map[string]TV{"$i": {Num(0), intT}, "$lo": {lo, intT}, "$an": {an, intT}, "$ord": {ord, intT}, "$c": {content, nil}}
	l.havoc = func(st *State) {
		i := fresh("i", "Int")
		setG(st, "$i", TV{i, intT})
		st.assume(And(Le(Num(0), i), Le(Add(lo, i), an)))
	}
	l.step = func(st *State, kn func(*State)) {
		i := st.ghosts["$i"+ord2()].t
		setG(st, "$i", TV{Add(i, Num(1)), intT})
		kn(st)
	}
	cont0 := x.contentHeap(st)
	l.back = func(st *State) { x.sameContent(st, cont0, x.pos(n)) }
	l.head = func(st *State, body, exit func(*State)) {
		i := st.ghosts["$i"+ord2()].t
		x.branch(st, Lt(Add(lo, i), an), body, exit)
	}
	l.body = func(st *State, kk Kont) {
		i := st.ghosts["$i"+ord2()].t
		key := mkTerm("aat"+sfx, content, ord, Add(lo, i))
		dt := "TK_" + sfx
		item := App(structCtorName(sort), App(selOf(dt, 0), key), App(selOf(dt, 1), key), App(selOf(dt, 2), key), Select(content, key))
		st.assume(And(Le(Num(0), App(selOf(dt, 0), key)), Le(Num(0), App(selOf(dt, 1), key)), Lt(Num(0), Select(content, key))))
		st.assume(x.prog.valueFacts(item, c.sig.Params().At(0).Type()))
		x.callLit(c.fr, c.lit, c.sig, []*Term{item}, st, func(st *State, vs []*Term) {
			x.branch(st, vs[0], kk.next, kk.brk[""])
		})
	}
	x.runLoop(l, st, Kont{next: k, brk: map[string]func(*State){}, cont: map[string]func(*State){}, ret: func(*State, []*Term) { panic(unsupported("return from a visitor")) }})
}

// meeting is a loop reached on several paths, which are joined before it is entered.
type meeting struct {
	node     ast.Node
	fr       *Frame
	arrivals []*State
	run      func(*State)
}

// meets puts a path off where its loop is to be entered by all paths at once.
func (x *Exec) meets(fr *Frame, n ast.Node, st *State, run func(*State)) bool {
	if x.fn == nil || x.dry > 0 || x.met[n] {
		return false
	}
	var ord int
	fmt.Sscanf(x.loopOrdinal(n), "%d", &ord)
	if ls := x.fn.loops[ord]; ls == nil || !ls.meet {
		return false
	}
	for _, m := range x.meetings {
		if m.node == n {
			m.arrivals = append(m.arrivals, st)
			return true
		}
	}
	x.meetings = append(x.meetings, &meeting{n, fr, []*State{st}, run})
	return true
}

// meet joins the paths: what they agree on is kept, what differs is forgotten, except that
// nothing which existed when the function was called has changed (which is proved).
func (x *Exec) meet(m *meeting) *State {
	var ord int
	fmt.Sscanf(x.loopOrdinal(m.node), "%d", &ord)
	ls := x.fn.loops[ord]
	env := func(s *State) *Env {
		return &Env{x: x, st: s, old: x.initState, names: x.rootNames, fr: m.fr, pos: m.node.Pos(), suffix: x.suffixOf(x.tenv), ctx: x.ctx}
	}
	for _, a := range m.arrivals {
		for _, c := range ls.arrive {
			g := x.clause(env(a), c)
			x.prove(a, g, "before the loop "+c.name, x.pos(m.node), c.tags)
			a.assume(g)
		}
	}
	if len(m.arrivals) == 1 {
		return m.arrivals[0]
	}
	as := m.arrivals
	st := as[0].clone()
	common := func(a, b *Fact) *Fact {
		for a != b {
			if a == nil || b == nil {
				return nil
			}
			if a.n > b.n {
				a = a.prev
			} else if b.n > a.n {
				b = b.prev
			} else {
				a, b = a.prev, b.prev
			}
		}
		return a
	}
	for _, a := range as[1:] {
		st.pc = common(st.pc, a.pc)
	}
	names := map[string]bool{}
	for _, a := range as {
		for c := range a.heap {
			names[c] = true
		}
	}
	var differ []string
	for _, c := range sortedKeys(names) {
		for _, a := range as[1:] {
			if x.heapGet(a, c) != x.heapGet(as[0], c) {
				differ = append(differ, c)
				break
			}
		}
	}
	where := x.pos(m.node)
	for _, c := range differ {
		n := fresh("H_"+c, comps[c].sort)
		st.heap[c] = n
		if strings.HasPrefix(c, "Y.") {
			continue
		}
		if c == "nref" {
			st.assume(Le(x.nref0, n))
			for _, a := range as {
				x.prove(a, Le(x.nref0, x.nref(a)), "allocation goes on", where, nil)
			}
			continue
		}
		init := x.heapGet(x.initState, c)
		// A component may have been written at places fixed when the function was called.
		var at []*Term
		seen := map[*Term]bool{}
		for _, a := range as {
			for w := a.writes; w != nil; w = w.prev {
				if w.comp == c && w.idx != nil && !seen[w.idx] && x.isInitial(w.idx) {
					seen[w.idx] = true
					at = append(at, w.idx)
				}
			}
		}
		for _, a := range as {
			x.frameComp(a, c, init, x.heapGet(a, c), at, x.nref0, "what comes before the loop")
		}
		if strings.HasPrefix(comps[c].sort, "(Array Int ") {
			_, vs := splitArr(comps[c].sort)
			for _, i := range at {
				init = Store(init, i, fresh("at", vs))
			}
			x.havocFresh(st, c, init, n, x.nref0)
		} else {
			st.heap[c] = init
		}
	}
	var vks []varKey
	for v := range st.vars {
		vks = append(vks, v)
	}
	sortVarKeys(vks)
	for _, v := range vks {
		t := st.vars[v]
		same, all := true, true
		for _, a := range as[1:] {
			u, ok := a.vars[v]
			all = all && ok
			same = same && u == t
		}
		if !all {
			delete(st.vars, v)
			continue
		}
		if same {
			continue
		}
		fr := x.frameByID[v.frame]
		ty := v.obj.Type()
		if fr != nil {
			ty = fr.subst(ty)
		}
		if fr != nil && x.boxedVar(fr, v.obj) {
			st.vars[v] = fresh(v.obj.Name(), "Int")
			continue
		}
		n := fresh(v.obj.Name(), sortOfTerm(t))
		st.vars[v] = n
		st.assume(x.typeFacts(st, n, ty))
	}
	lb := map[string]*State{}
	for n, s := range st.labels {
		ok := true
		for _, a := range as[1:] {
			ok = ok && a.labels[n] == s
		}
		if ok {
			lb[n] = s
		}
	}
	st.labels = lb
	gs := map[string]TV{}
	for n, v := range st.ghosts {
		ok := true
		for _, a := range as[1:] {
			ok = ok && a.ghosts[n].t == v.t
		}
		if ok {
			gs[n] = v
		}
	}
	st.ghosts = gs
	for _, c := range ls.arrive {
		st.assume(x.clause(env(st), c))
	}
	return st
}

// isInitial reports whether a term speaks only of what the function was given.
func (x *Exec) isInitial(t *Term) bool {
	m := map[string]bool{}
	t.syms(m)
	for s := range m {
		if strings.HasPrefix(s, "H0.") {
			continue
		}
		ok := false
		for _, v := range x.rootNames {
			ok = ok || v.t == Sym(s)
		}
		if !ok {
			return false
		}
	}
	return true
}
