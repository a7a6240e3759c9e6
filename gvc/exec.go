package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"
)

// Exec symbolically executes one function under verification, path by path, and records
// the proof obligations it meets.
type Exec struct {
	prog      *Program
	spec      *Spec
	ctx       string // macro context
	fn        *FuncSpec
	tenv      map[*types.TypeParam]types.Type
	frames    int
	initComps map[string]*Term
	initState *State
	facts0    []*Term // facts about the initial heap, true in every state
	dry       int
	obls      []*Obligation
	closures  map[*Term]*Closure
	nclo      int
	pruner    *Pruner
	name      string
	props     map[string]bool
	inlined   map[string]bool
	called    map[string]bool
	paths     int
	nref0     *Term
	exits     int
	covers    []*Obligation
	depth     int
	rootFrame *Frame
	loopSeen  map[ast.Node]string
	loopCount int
	memoGlob  map[types.Object]*Term
	seqDepth  int
	startTime int64
	steps     int
	frameByID map[int]*Frame
	rootNames map[string]TV
	curFrame  *Frame
	meetings  []*meeting
	met       map[ast.Node]bool
	panicSink *panicCollector
}

type Closure struct {
	lit    *ast.FuncLit
	fr     *Frame
	fd     *FuncDecl // function or method value
	tenv   map[*types.TypeParam]types.Type
	recv   *Term
	recvTy types.Type
	sig    *types.Signature
}

// Kont holds where control goes after a statement.
type Kont struct {
	next func(*State)
	ret  func(*State, []*Term)
	brk  map[string]func(*State)
	cont map[string]func(*State)
}

func (k Kont) withNext(n func(*State)) Kont { k.next = n; return k }

func (x *Exec) typeOf(fr *Frame, e ast.Expr) types.Type {
	if tv, ok := fr.pkg.info.Types[e]; ok && tv.Type != nil {
		return fr.subst(tv.Type)
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := fr.pkg.info.ObjectOf(id); o != nil {
			return fr.subst(o.Type())
		}
	}
	panic(unsupported("no type for expression at " + x.pos(e)))
}

func (x *Exec) pos(n ast.Node) string {
	p := x.prog.fset.Position(n.Pos())
	f := p.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

// ---- variables ----

func (x *Exec) setVar(st *State, k varKey, v *Term) {
	st.writes = &write{v: k, prev: st.writes}
	st.vars[k] = v
}

func (x *Exec) lookup(fr *Frame, st *State, o types.Object) (varKey, bool) {
	for f := fr; f != nil; f = f.parent {
		k := varKey{f.id, o}
		if _, ok := st.vars[k]; ok {
			return k, true
		}
	}
	return varKey{}, false
}

func (x *Exec) boxedVar(fr *Frame, o types.Object) bool {
	for f := fr; f != nil; f = f.parent {
		if f.boxed[o] {
			return true
		}
	}
	return false
}

// define declares a variable in the frame.
func (x *Exec) define(fr *Frame, st *State, o types.Object, v *Term) {
	if o == nil || o.Name() == "_" {
		return
	}
	k := varKey{fr.id, o}
	if x.boxedVar(fr, o) {
		ref := x.alloc(st)
		x.storePtr(st, ref, fr.subst(o.Type()), v)
		x.setVar(st, k, ref)
		return
	}
	x.setVar(st, k, v)
}

func (x *Exec) readVar(fr *Frame, st *State, o types.Object) *Term {
	k, ok := x.lookup(fr, st, o)
	if !ok {
		return x.global(st, o)
	}
	v := st.vars[k]
	if x.boxedVar(fr, o) {
		return x.loadPtr(st, v, fr.subst(o.Type()))
	}
	return v
}

func (x *Exec) writeVar(fr *Frame, st *State, o types.Object, v *Term) {
	if o == nil || o.Name() == "_" {
		return
	}
	k, ok := x.lookup(fr, st, o)
	if !ok {
		panic(unsupported("assignment to global " + o.Name()))
	}
	if x.boxedVar(fr, o) {
		x.storePtr(st, st.vars[k], fr.subst(o.Type()), v)
		return
	}
	x.setVar(st, k, v)
}

// global is the value of a package variable that no function changes: that of its
// initialiser.
func (x *Exec) global(st *State, o types.Object) *Term {
	if t := x.memoGlob[o]; t != nil {
		return t
	}
	name := ""
	if o.Pkg() != nil {
		name = pkgShort(o.Pkg()) + "." + o.Name()
	}
	if x.prog.uninit[o] && !x.prog.mutated[o] && x.spec.globals[name] == "" {
		t := x.prog.zero(o.Type())
		x.memoGlob[o] = t
		return t
	}
	if x.prog.mutated[o] {
		panic(unsupported("package variable " + name + " may change"))
	}
	if x.spec.globals[name] != "" || x.prog.globals[o] == nil {
		n := "G0." + sanitize(name)
		declareFun(n, x.prog.sortOf(o.Type()))
		t := Sym(n)
		x.facts0 = append(x.facts0, x.typeFacts(x.initState, t, o.Type()))
		x.memoGlob[o] = t
		return t
	}
	var pk *Pkg
	for _, p := range x.prog.pkgs {
		if p.tpkg == o.Pkg() {
			pk = p
		}
	}
	fr := &Frame{id: 0, pkg: pk, name: name}
	var res *Term
	x.evalC(fr, x.prog.globals[o], o.Type(), x.initState.clone(), func(_ *State, t *Term) { res = t })
	if res == nil {
		panic(unsupported("initialiser of " + name))
	}
	x.memoGlob[o] = res
	return res
}

// ---- heap ----

func (x *Exec) nref(st *State) *Term { return x.heapGet(st, x.comp("nref", "Int")) }

func (x *Exec) alloc(st *State) *Term {
	r := x.nref(st)
	st.heap["nref"] = Add(r, Num(1))
	st.wrote("nref", nil)
	return r
}

func (x *Exec) structOf(t types.Type) (string, *types.Struct) {
	u, ok := t.Underlying().(*types.Struct)
	if !ok || isTime(t) || u.NumFields() == 0 || tyName(t) == "types.Error" {
		return "", nil
	}
	s := x.prog.sortOf(t)
	if dtByName[s] == nil {
		return "", nil
	}
	return s, u
}

func (x *Exec) fieldComp(sortName string, f *types.Var) string {
	c := dtByName[sortName].ctors[0]
	for _, fl := range c.fields {
		if fl.sel == fieldSel(sortName, f.Name()) {
			return x.comp("P."+sortName[2:]+"."+f.Name(), arrSort("Int", fl.sort))
		}
	}
	panic("field " + f.Name())
}

func (x *Exec) ptrComp(t types.Type) string {
	return x.comp("P."+sanitize(tyName(t)), arrSort("Int", x.prog.sortOf(t)))
}

func (x *Exec) loadPtr(st *State, ref *Term, t types.Type) *Term {
	if s, u := x.structOf(t); u != nil {
		var args []*Term
		for i := 0; i < u.NumFields(); i++ {
			args = append(args, x.loadField(st, ref, s, t, u.Field(i)))
		}
		return App(structCtorName(s), args...)
	}
	v := Select(x.heapGet(st, x.ptrComp(t)), ref)
	st.assume(x.typeFacts(st, v, t))
	return v
}

func (x *Exec) loadField(st *State, ref *Term, s string, t types.Type, f *types.Var) *Term {
	v := Select(x.heapGet(st, x.fieldComp(s, f)), ref)
	ft := x.fieldType(t, f)
	x.assumeLoaded(st, v, ft)
	return v
}

// assumeLoaded adds the facts true of any value found in the heap.
func (x *Exec) assumeLoaded(st *State, v *Term, t types.Type) {
	if isCtorTerm(v) != nil || isLit(v) || v.op == "+" {
		return
	}
	st.assume(x.typeFacts(st, v, t))
}

// fieldType is the type of a field of the (possibly instantiated) struct type t.
func (x *Exec) fieldType(t types.Type, f *types.Var) types.Type {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f.Name() {
			return u.Field(i).Type()
		}
	}
	return f.Type()
}

func (x *Exec) storePtr(st *State, ref *Term, t types.Type, v *Term) {
	if s, u := x.structOf(t); u != nil {
		for i := 0; i < u.NumFields(); i++ {
			c := x.fieldComp(s, u.Field(i))
			x.heapSet(st, c, ref, Store(x.heapGet(st, c), ref, App(fieldSel(s, u.Field(i).Name()), v)))
		}
		return
	}
	c := x.ptrComp(t)
	x.heapSet(st, c, ref, Store(x.heapGet(st, c), ref, v))
}

func (x *Exec) sliceComp(elem types.Type) string {
	return x.comp("A."+sanitize(tyName(elem)), arrSort("Int", arrSort("Int", x.prog.sortOf(elem))))
}

func (x *Exec) mapComps(t types.Type) (dom, val string) {
	m := t.Underlying().(*types.Map)
	n := sanitize(tyName(m.Key())) + "." + sanitize(tyName(m.Elem()))
	ks, vs := x.prog.sortOf(m.Key()), x.prog.sortOf(m.Elem())
	dom = x.comp("Md."+n, arrSort("Int", arrSort(ks, "Bool")))
	val = x.comp("Mv."+n, arrSort("Int", arrSort(ks, vs)))
	return
}

// mapHas and mapGet read a map; the value of an absent key is the zero value, by the
// invariant the model keeps for the values component.
func (x *Exec) mapHas(st *State, m, k *Term, t types.Type) *Term {
	d, _ := x.mapComps(t)
	return Select(Select(x.heapGet(st, d), m), k)
}
func (x *Exec) mapGet(st *State, m, k *Term, t types.Type) *Term {
	_, v := x.mapComps(t)
	return Select(Select(x.heapGet(st, v), m), k)
}

func (x *Exec) mapLoad(st *State, m, k *Term, t types.Type) (*Term, *Term) {
	mt := t.Underlying().(*types.Map)
	has, val := x.mapHas(st, m, k, t), x.mapGet(st, m, k, t)
	st.assume(Implies(Not(has), Eq(val, x.prog.zero(mt.Elem()))))
	st.assume(Implies(Eq(m, Num(0)), Not(has)))
	x.assumeLoaded(st, val, mt.Elem())
	return val, has
}

func (x *Exec) mapStore(st *State, m, k, v *Term, t types.Type) {
	d, c := x.mapComps(t)
	da, va := x.heapGet(st, d), x.heapGet(st, c)
	x.heapSet(st, d, m, Store(da, m, Store(Select(da, m), k, tTrue)))
	x.heapSet(st, c, m, Store(va, m, Store(Select(va, m), k, v)))
}

func (x *Exec) mapDelete(st *State, m, k *Term, t types.Type) {
	d, c := x.mapComps(t)
	da, va := x.heapGet(st, d), x.heapGet(st, c)
	z := x.prog.zero(t.Underlying().(*types.Map).Elem())
	x.heapSet(st, d, m, Store(da, m, Store(Select(da, m), k, tFalse)))
	x.heapSet(st, c, m, Store(va, m, Store(Select(va, m), k, z)))
}

func (x *Exec) newMap(st *State, t types.Type) *Term {
	mt := t.Underlying().(*types.Map)
	d, c := x.mapComps(t)
	ref := x.alloc(st)
	ks, vs := x.prog.sortOf(mt.Key()), x.prog.sortOf(mt.Elem())
	x.heapSet(st, d, ref, Store(x.heapGet(st, d), ref, ConstArr(arrSort(ks, "Bool"), tFalse)))
	x.heapSet(st, c, ref, Store(x.heapGet(st, c), ref, ConstArr(arrSort(ks, vs), x.prog.zero(mt.Elem()))))
	return ref
}

// typeFacts are the facts true of every value of the type: machine ranges, and that
// references are allocated.
func (x *Exec) typeFacts(st *State, v *Term, t types.Type) *Term {
	f := x.prog.valueFacts(v, t)
	return And(f, x.refFacts(st, v, t))
}

func (x *Exec) refFacts(st *State, v *Term, t types.Type) *Term {
	t = types.Unalias(t)
	if isTime(t) {
		return tTrue
	}
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		return And(Le(Num(0), v), Lt(v, x.nref(st)))
	case *types.Interface:
		if isObjIface(t) {
			return And(Le(Num(0), v), Lt(v, x.nref(st)))
		}
		return x.ifaceFacts(v, t)
	case *types.Slice:
		return And(Le(Num(0), App("sl_arr", v)), Lt(App("sl_arr", v), x.nref(st)))
	case *types.Struct:
		if s, _ := x.structOf(t); s != "" {
			var cs []*Term
			for i := 0; i < u.NumFields(); i++ {
				cs = append(cs, x.refFacts(st, App(fieldSel(s, u.Field(i).Name()), v), u.Field(i).Type()))
			}
			return And(cs...)
		}
	}
	return tTrue
}

// ifaceFacts: a value of an interface type is nil or of a type that implements it.
func (x *Exec) ifaceFacts(v *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	if it.NumMethods() == 0 {
		return tTrue
	}
	return Or(App("is-VNil", v), x.implTest(v, t))
}

func (x *Exec) implTest(v *Term, t types.Type) *Term {
	it := t.Underlying().(*types.Interface)
	var cs []*Term
	for _, name := range sortedKeys(ifaceCtor) {
		tt := x.prog.typeByName(name)
		if tt != nil && types.Implements(tt, it) {
			cs = append(cs, App("is-"+ifaceCtor[name], v))
		}
	}
	n := "impl." + sanitize(tyName(t))
	declareFun(n, "Bool", "Int")
	cs = append(cs, And(App("is-VOther", v), mkTerm(n, App("v_tag", v))))
	return Or(cs...)
}

func (p *Program) typeByName(name string) types.Type {
	if name == "string" {
		return types.Typ[types.String]
	}
	i := strings.Index(name, ".")
	for _, pk := range p.pkgs {
		if pkgShort(pk.tpkg) == name[:i] {
			if o := pk.tpkg.Scope().Lookup(name[i+1:]); o != nil {
				return o.Type()
			}
		}
	}
	return nil
}

// ---- obligations ----

func (x *Exec) oblige(st *State, goal *Term, kind, where string, tags []string) {
	if x.panicSink != nil {
		if goal != tTrue {
			x.panicSink.add(st, goal)
		}
		st.assume(goal)
		return
	}
	if x.dry > 0 {
		st.assume(goal)
		return
	}
	x.prove(st, goal, kind, where, tags)
	st.assume(goal)
}

func (x *Exec) prove(st *State, goal *Term, kind, where string, tags []string) {
	if len(tags) == 0 {
		tags = x.fn.own
	}
	if x.dry > 0 || !x.wanted(tags) {
		return
	}
	if goal.op == "and" && len(goal.args) > 1 && kind != "cover" {
		for _, g := range goal.args {
			x.prove(st, g, kind, where, tags)
		}
		return
	}
	if kind != "cover" && !st.knows(goal) {
		if gs := splitGoal(goal, 0); len(gs) > 1 && len(gs) <= 40 {
			for _, g := range gs {
				x.prove1(st, g, kind, where, tags)
			}
			return
		}
	}
	x.prove1(st, goal, kind, where, tags)
}

func (st *State) knows(g *Term) bool {
	for f := st.pc; f != nil; f = f.prev {
		if f.t == g {
			return true
		}
	}
	return false
}

// splitGoal splits what is to be proved of all values into the parts of its conclusion, of
// values not known otherwise.
func splitGoal(g *Term, depth int) []*Term {
	switch {
	case g.op == "and" && g.binders == nil:
		var out []*Term
		for _, a := range g.args {
			out = append(out, splitGoal(a, depth)...)
		}
		return out
	case g.op == "=>":
		var out []*Term
		for _, a := range splitGoal(g.args[1], depth) {
			out = append(out, Implies(g.args[0], a))
		}
		return out
	case g.op == "forall" && g.binders != nil:
		m := map[string]*Term{}
		for _, b := range g.binders {
			m[b.name] = fresh("sk", b.sort)
		}
		return splitGoal(subst(g.args[0], m), depth+1)
	}
	return []*Term{g}
}

func (x *Exec) prove1(st *State, goal *Term, kind, where string, tags []string) {
	o := &Obligation{fn: x.name, kind: kind, where: where, tags: tags, goal: goal}
	if goal == tTrue {
		o.status, o.backend = "proved", "simplifier"
		x.obls = append(x.obls, o)
		return
	}
	o.facts = x.allFacts(st)
	for _, f := range o.facts {
		if f == goal {
			o.status, o.backend = "proved", "simplifier"
			break
		}
	}
	if o.status == "" && !goal.hasQuant() {
		if x.pruner.unsat(o.facts, Not(goal)) {
			o.status, o.backend = "proved", "z3 (incremental)"
		}
	}
	x.obls = append(x.obls, o)
}

// wanted reports whether a clause with these tags is to be proved in this run: untagged
// clauses support everything.
func (x *Exec) wanted(tags []string) bool {
	if x.props == nil || len(tags) == 0 {
		return true
	}
	for _, t := range tags {
		if x.props[t] {
			return true
		}
	}
	return false
}

// feasible prunes paths whose quantifier-free facts are contradictory.
func (x *Exec) feasible(st *State) bool {
	if st.pc != nil && st.pc.t == tFalse {
		return false
	}
	x.steps++
	if x.steps > 60000 {
		panic(unsupported("too many paths"))
	}
	return !x.pruner.unsat(x.allFacts(st), tTrue)
}

func (x *Exec) branch(st *State, c *Term, kt, kf func(*State)) {
	if c == tTrue {
		kt(st)
		return
	}
	if c == tFalse {
		kf(st)
		return
	}
	s1, s2 := st.clone(), st
	s1.add(c, true)
	s2.add(Not(c), true)
	f1, f2 := x.feasible(s1), true
	if f1 {
		f2 = x.feasible(s2)
	}
	if f1 {
		kt(s1)
	}
	if f2 {
		kf(s2)
	}
}

// ---- statements ----

func (x *Exec) execList(fr *Frame, list []ast.Stmt, st *State, k Kont) {
	if len(list) == 0 {
		k.next(st)
		return
	}
	x.exec(fr, list[0], st, k.withNext(func(s *State) { x.execList(fr, list[1:], s, k) }))
}

func (x *Exec) exec(fr *Frame, s ast.Stmt, st *State, k Kont) {
	x.execL(fr, s, "", st, k)
}

func (x *Exec) execL(fr *Frame, s ast.Stmt, label string, st *State, k Kont) {
	switch s := s.(type) {
	case nil:
		k.next(st)
	case *ast.EmptyStmt:
		k.next(st)
	case *ast.BlockStmt:
		x.execList(fr, s.List, st, k)
	case *ast.LabeledStmt:
		x.execL(fr, s.Stmt, s.Label.Name, st, k)
	case *ast.ExprStmt:
		x.evalMulti(fr, s.X, st, func(st *State, _ []*Term) { k.next(st) })
	case *ast.DeclStmt:
		gd := s.Decl.(*ast.GenDecl)
		if gd.Tok != token.VAR {
			k.next(st)
			return
		}
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if i == len(gd.Specs) {
				k.next(st)
				return
			}
			vs := gd.Specs[i].(*ast.ValueSpec)
			if len(vs.Values) == 0 {
				for _, n := range vs.Names {
					o := fr.pkg.info.Defs[n]
					x.define(fr, st, o, x.prog.zero(fr.subst(o.Type())))
				}
				rec(i+1, st)
				return
			}
			if len(vs.Values) == len(vs.Names) {
				x.evalListC(fr, vs.Values, func(j int) types.Type {
					if o := fr.pkg.info.Defs[vs.Names[j]]; o != nil {
						return fr.subst(o.Type())
					}
					return nil
				}, st, func(st *State, ts []*Term) {
					for j, n := range vs.Names {
						x.define(fr, st, fr.pkg.info.Defs[n], ts[j])
					}
					rec(i+1, st)
				})
				return
			}
			x.evalMulti(fr, vs.Values[0], st, func(st *State, ts []*Term) {
				for j, n := range vs.Names {
					x.define(fr, st, fr.pkg.info.Defs[n], ts[j])
				}
				rec(i+1, st)
			})
		}
		rec(0, st)
	case *ast.AssignStmt:
		x.execAssign(fr, s, st, k)
	case *ast.IncDecStmt:
		x.eval(fr, s.X, st, func(st *State, v *Term) {
			n := Num(1)
			if s.Tok == token.DEC {
				n = Num(-1)
			}
			x.assign(fr, s.X, Add(v, n), st, k.next)
		})
	case *ast.ReturnStmt:
		if len(s.Results) == 0 {
			var vs []*Term
			for _, o := range fr.resObj {
				vs = append(vs, x.readVar(fr, st, o))
			}
			k.ret(st, vs)
			return
		}
		if len(s.Results) == 1 && len(fr.resTy) > 1 {
			x.evalMulti(fr, s.Results[0], st, func(st *State, vs []*Term) { k.ret(st, vs) })
			return
		}
		x.evalListC(fr, s.Results, func(j int) types.Type { return fr.resTy[j] }, st, func(st *State, vs []*Term) { k.ret(st, vs) })
	case *ast.IfStmt:
		x.exec(fr, s.Init, st, k.withNext(func(st *State) {
			x.cond(fr, s.Cond, st, func(st *State) {
				x.exec(fr, s.Body, st, k)
			}, func(st *State) {
				if s.Else == nil {
					k.next(st)
				} else {
					x.exec(fr, s.Else, st, k)
				}
			})
		}))
	case *ast.SwitchStmt:
		k2 := k
		k2.brk = copyK(k.brk)
		k2.brk[""] = k.next
		if label != "" {
			k2.brk[label] = k.next
		}
		x.exec(fr, s.Init, st, k.withNext(func(st *State) {
			if s.Tag == nil {
				x.switchTail(fr, s, nil, nil, st, k2)
				return
			}
			x.eval(fr, s.Tag, st, func(st *State, v *Term) {
				x.switchTail(fr, s, v, x.typeOf(fr, s.Tag), st, k2)
			})
		}))
	case *ast.TypeSwitchStmt:
		x.typeSwitch(fr, s, label, st, k)
	case *ast.BranchStmt:
		l := ""
		if s.Label != nil {
			l = s.Label.Name
		}
		switch s.Tok {
		case token.BREAK:
			k.brk[l](st)
		case token.CONTINUE:
			k.cont[l](st)
		default:
			panic(unsupported(s.Tok.String() + " at " + x.pos(s)))
		}
	case *ast.ForStmt:
		x.forStmt(fr, s, label, st, k)
	case *ast.RangeStmt:
		x.rangeStmt(fr, s, label, st, k)
	case *ast.DeferStmt:
		x.deferStmt(fr, s, st, k)
	default:
		panic(unsupported(fmt.Sprintf("statement %T at %s", s, x.pos(s))))
	}
}

func copyK(m map[string]func(*State)) map[string]func(*State) {
	c := map[string]func(*State){}
	for k, v := range m {
		c[k] = v
	}
	return c
}

func (x *Exec) switchTail(fr *Frame, s *ast.SwitchStmt, tag *Term, tagTy types.Type, st *State, k Kont) {
	var def *ast.CaseClause
	var clauses []*ast.CaseClause
	for _, c := range s.Body.List {
		cc := c.(*ast.CaseClause)
		if cc.List == nil {
			def = cc
		} else {
			clauses = append(clauses, cc)
		}
	}
	runBody := func(cc *ast.CaseClause, st *State) {
		for i, b := range cc.Body {
			if br, ok := b.(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				_ = i
				panic(unsupported("fallthrough"))
			}
		}
		x.execList(fr, cc.Body, st, k)
	}
	var rec func(i, j int, st *State)
	rec = func(i, j int, st *State) {
		if i == len(clauses) {
			if def != nil {
				runBody(def, st)
			} else {
				k.next(st)
			}
			return
		}
		cc := clauses[i]
		if j == len(cc.List) {
			rec(i+1, 0, st)
			return
		}
		if tag == nil {
			x.cond(fr, cc.List[j], st, func(st *State) { runBody(cc, st) }, func(st *State) { rec(i, j+1, st) })
			return
		}
		x.eval(fr, cc.List[j], st, func(st *State, v *Term) {
			vt := x.typeOf(fr, cc.List[j])
			c := x.goEq(tag, tagTy, v, vt)
			x.branch(st, c, func(st *State) { runBody(cc, st) }, func(st *State) { rec(i, j+1, st) })
		})
	}
	rec(0, 0, st)
}

func (x *Exec) typeSwitch(fr *Frame, s *ast.TypeSwitchStmt, label string, st *State, k Kont) {
	k2 := k
	k2.brk = copyK(k.brk)
	k2.brk[""] = k.next
	if label != "" {
		k2.brk[label] = k.next
	}
	var subj ast.Expr
	switch a := s.Assign.(type) {
	case *ast.ExprStmt:
		subj = a.X.(*ast.TypeAssertExpr).X
	case *ast.AssignStmt:
		subj = a.Rhs[0].(*ast.TypeAssertExpr).X
	}
	x.exec(fr, s.Init, st, k.withNext(func(st *State) {
		x.eval(fr, subj, st, func(st *State, v *Term) {
			var def *ast.CaseClause
			var clauses []*ast.CaseClause
			for _, c := range s.Body.List {
				cc := c.(*ast.CaseClause)
				if cc.List == nil {
					def = cc
				} else {
					clauses = append(clauses, cc)
				}
			}
			run := func(cc *ast.CaseClause, t types.Type, st *State) {
				if o := fr.pkg.info.Implicits[cc]; o != nil {
					val := v
					if t != nil && !isIface(t) {
						val = x.unbox(v, t)
					}
					x.define(fr, st, o, val)
				}
				x.execList(fr, cc.Body, st, k2)
			}
			var rec func(i, j int, st *State)
			rec = func(i, j int, st *State) {
				if i == len(clauses) {
					if def != nil {
						run(def, nil, st)
					} else {
						k.next(st)
					}
					return
				}
				cc := clauses[i]
				if j == len(cc.List) {
					rec(i+1, 0, st)
					return
				}
				var c *Term
				var ct types.Type
				if id, ok := cc.List[j].(*ast.Ident); ok && id.Name == "nil" {
					c = App("is-VNil", v)
				} else {
					ct = x.typeOf(fr, cc.List[j])
					c = x.typeTest(v, ct)
				}
				if len(cc.List) > 1 {
					ct = nil
				}
				x.branch(st, c, func(st *State) { run(cc, ct, st) }, func(st *State) { rec(i, j+1, st) })
			}
			rec(0, 0, st)
		})
	}))
}

func (x *Exec) execAssign(fr *Frame, s *ast.AssignStmt, st *State, k Kont) {
	switch s.Tok {
	case token.ASSIGN, token.DEFINE:
		lt := func(j int) types.Type {
			if id, ok := s.Lhs[j].(*ast.Ident); ok {
				if id.Name == "_" {
					return nil
				}
				if o := fr.pkg.info.ObjectOf(id); o != nil {
					return fr.subst(o.Type())
				}
			}
			return x.typeOf(fr, s.Lhs[j])
		}
		fin := func(st *State, vs []*Term) {
			var rec func(i int, st *State)
			rec = func(i int, st *State) {
				if i == len(s.Lhs) {
					k.next(st)
					return
				}
				if id, ok := s.Lhs[i].(*ast.Ident); ok {
					if id.Name == "_" {
						rec(i+1, st)
						return
					}
					if o := fr.pkg.info.Defs[id]; o != nil && s.Tok == token.DEFINE {
						x.define(fr, st, o, vs[i])
						rec(i+1, st)
						return
					}
				}
				x.assign(fr, s.Lhs[i], vs[i], st, func(st *State) { rec(i+1, st) })
			}
			rec(0, st)
		}
		if len(s.Rhs) == len(s.Lhs) {
			x.evalListC(fr, s.Rhs, lt, st, fin)
			return
		}
		x.evalMultiT(fr, s.Rhs[0], st, func(st *State, vs []*Term, ts []types.Type) {
			out := make([]*Term, len(vs))
			for i := range vs {
				out[i] = vs[i]
				if t := lt(i); t != nil && ts[i] != nil {
					out[i] = x.coerce(vs[i], ts[i], t)
				}
			}
			fin(st, out)
		})
	default:
		op := map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL}[s.Tok]
		if op == 0 {
			panic(unsupported("assignment " + s.Tok.String()))
		}
		x.eval(fr, s.Lhs[0], st, func(st *State, l *Term) {
			x.eval(fr, s.Rhs[0], st, func(st *State, r *Term) {
				x.assign(fr, s.Lhs[0], x.arith(op, l, r, x.typeOf(fr, s.Lhs[0])), st, k.next)
			})
		})
	}
}

// assign stores v into an lvalue.
func (x *Exec) assign(fr *Frame, l ast.Expr, v *Term, st *State, k func(*State)) {
	switch l := l.(type) {
	case *ast.ParenExpr:
		x.assign(fr, l.X, v, st, k)
	case *ast.Ident:
		if l.Name != "_" {
			x.writeVar(fr, st, fr.pkg.info.ObjectOf(l), v)
		}
		k(st)
	case *ast.StarExpr:
		x.eval(fr, l.X, st, func(st *State, p *Term) {
			x.nonNil(st, p, l)
			x.storePtr(st, p, x.typeOf(fr, l), v)
			k(st)
		})
	case *ast.SelectorExpr:
		sel := fr.pkg.info.Selections[l]
		if sel == nil {
			panic(unsupported("assignment to " + l.Sel.Name))
		}
		if len(sel.Index()) != 1 {
			panic(unsupported("promoted field assignment"))
		}
		xt := x.typeOf(fr, l.X)
		f := sel.Obj().(*types.Var)
		if pt, ok := xt.Underlying().(*types.Pointer); ok {
			x.eval(fr, l.X, st, func(st *State, p *Term) {
				x.nonNil(st, p, l)
				s, _ := x.structOf(pt.Elem())
				c := x.fieldComp(s, f)
				x.guardField(st, p, pt.Elem(), f.Name(), true, l)
				x.heapSet(st, c, p, Store(x.heapGet(st, c), p, v))
				k(st)
			})
			return
		}
		// A field of a struct value: update the whole value in place.
		if id, ok := l.X.(*ast.Ident); ok {
			o := fr.pkg.info.ObjectOf(id)
			if x.boxedVar(fr, o) {
				key, _ := x.lookup(fr, st, o)
				s, _ := x.structOf(xt)
				c := x.fieldComp(s, f)
				x.heapSet(st, c, st.vars[key], Store(x.heapGet(st, c), st.vars[key], v))
				k(st)
				return
			}
		}
		x.eval(fr, l.X, st, func(st *State, old *Term) {
			s, u := x.structOf(xt)
			var args []*Term
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == f.Name() {
					args = append(args, v)
				} else {
					args = append(args, App(fieldSel(s, u.Field(i).Name()), old))
				}
			}
			x.assign(fr, l.X, App(structCtorName(s), args...), st, k)
		})
	case *ast.IndexExpr:
		xt := x.typeOf(fr, l.X)
		switch u := xt.Underlying().(type) {
		case *types.Map:
			x.eval(fr, l.X, st, func(st *State, m *Term) {
				x.evalC(fr, l.Index, u.Key(), st, func(st *State, key *Term) {
					x.oblige(st, Not(Eq(m, Num(0))), "no nil map write", x.pos(l), tagPanic)
					x.mapStore(st, m, key, v, xt)
					k(st)
				})
			})
		case *types.Slice:
			x.eval(fr, l.X, st, func(st *State, s *Term) {
				x.eval(fr, l.Index, st, func(st *State, i *Term) {
					x.inBounds(st, s, i, l)
					c := x.sliceComp(u.Elem())
					a := x.heapGet(st, c)
					arr := App("sl_arr", s)
					x.heapSet(st, c, arr, Store(a, arr, Store(Select(a, arr), Add(App("sl_off", s), i), v)))
					k(st)
				})
			})
		default:
			panic(unsupported("index assignment"))
		}
	default:
		panic(unsupported(fmt.Sprintf("assignment to %T", l)))
	}
}

var tagPanic = []string{"C18"}

func (x *Exec) nonNil(st *State, p *Term, n ast.Node) {
	if p == x.nref0 || p.op == "+" {
		return
	}
	x.oblige(st, Not(Eq(p, Num(0))), "no nil dereference", x.pos(n), tagPanic)
}

func (x *Exec) inBounds(st *State, s, i *Term, n ast.Node) {
	x.oblige(st, And(Le(Num(0), i), Lt(i, App("sl_len", s))), "index in range", x.pos(n), tagPanic)
}

// cond evaluates a boolean expression, splitting paths on && and ||.
func (x *Exec) cond(fr *Frame, e ast.Expr, st *State, kt, kf func(*State)) {
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.cond(fr, e.X, st, kt, kf)
		return
	case *ast.UnaryExpr:
		if e.Op == token.NOT {
			x.cond(fr, e.X, st, kf, kt)
			return
		}
	case *ast.BinaryExpr:
		if e.Op == token.LAND {
			x.cond(fr, e.X, st, func(st *State) { x.cond(fr, e.Y, st, kt, kf) }, kf)
			return
		}
		if e.Op == token.LOR {
			x.cond(fr, e.X, st, kt, func(st *State) { x.cond(fr, e.Y, st, kt, kf) })
			return
		}
	}
	x.eval(fr, e, st, func(st *State, c *Term) { x.branch(st, c, kt, kf) })
}

func (x *Exec) deferStmt(fr *Frame, s *ast.DeferStmt, st *State, k Kont) {
	call := s.Call
	push := func(st *State, d deferred) {
		st.defers[fr.id] = append(append([]deferred{}, st.defers[fr.id]...), d)
		k.next(st)
	}
	if sel, ok := call.Fun.(*ast.SelectorExpr); ok {
		if isMutex(x.typeOf(fr, sel.X)) {
			x.mutexOwner(fr, sel.X, st, func(st *State, o *Term) {
				push(st, func(st *State, k func(*State)) { x.mutexOp(st, o, sel.Sel.Name, s); k(st) })
			})
			return
		}
	}
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		push(st, func(st *State, k func(*State)) {
			x.callLit(fr, lit, nil, nil, st, func(st *State, _ []*Term) { k(st) })
		})
		return
	}
	if id, ok := call.Fun.(*ast.Ident); ok && len(call.Args) == 0 {
		x.eval(fr, id, st, func(st *State, f *Term) {
			if f.op == "pullstop" {
				push(st, func(st *State, k func(*State)) { k(st) })
				return
			}
			push(st, func(st *State, k func(*State)) {
				x.callValue(fr, f, x.typeOf(fr, id).Underlying().(*types.Signature), nil, st, s, func(st *State, _ []*Term) { k(st) })
			})
		})
		return
	}
	// Any other call: its function and arguments are evaluated now.
	x.prepCall(fr, call, st, func(st *State, run func(*State, func(*State, []*Term))) {
		push(st, func(st *State, k func(*State)) { run(st, func(st *State, _ []*Term) { k(st) }) })
	})
}

func (x *Exec) runDefers(fr *Frame, st *State, k func(*State)) {
	ds := st.defers[fr.id]
	if len(ds) == 0 {
		k(st)
		return
	}
	d := ds[len(ds)-1]
	st.defers[fr.id] = ds[:len(ds)-1]
	d(st, func(st *State) { x.runDefers(fr, st, k) })
}

// ---- constants ----

func constTerm(v constant.Value, t types.Type) *Term {
	u, ok := t.Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("constant of type " + tyName(t)))
	}
	switch {
	case u.Info()&types.IsBoolean != 0:
		if constant.BoolVal(v) {
			return tTrue
		}
		return tFalse
	case u.Info()&types.IsString != 0:
		return strConst(constant.StringVal(v))
	case u.Info()&types.IsInteger != 0:
		b, ok := new(big.Int).SetString(constant.ToInt(v).ExactString(), 10)
		if !ok {
			panic(unsupported("integer constant"))
		}
		return BigNum(b)
	case u.Info()&types.IsFloat != 0:
		return fltConst(constant.ToFloat(v))
	}
	panic(unsupported("constant " + v.String()))
}
