package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strings"
)

// yghost is a ghost variable updated at every yield of a sequence.
type yghost struct {
	name, sort string
	init, e    *Sexp
}

// FuncResult is what verifying one function (or lemma) produced.
type FuncResult struct {
	name    string
	obls    []*Obligation
	inlined []string
	called  []string
	err     string
	paths   int
	pruned  int
}

func newExec(prog *Program, sp *Spec, f *FuncSpec, props map[string]bool) *Exec {
	x := &Exec{prog: prog, spec: sp, fn: f, ctx: f.ctx, initComps: map[string]*Term{}, closures: map[*Term]*Closure{},
		props: props, inlined: map[string]bool{}, called: map[string]bool{}, loopSeen: map[ast.Node]string{},
		memoGlob: map[types.Object]*Term{}, met: map[ast.Node]bool{}, frameByID: map[int]*Frame{}, rootNames: map[string]TV{}}
	x.nref0 = Sym("H0.nref")
	x.comp("nref", "Int")
	x.initState = &State{vars: map[varKey]*Term{}, heap: map[string]*Term{}, defers: map[int][]deferred{}, ghosts: map[string]TV{}}
	x.heapGet(x.initState, "nref")
	x.facts0 = append(x.facts0, Lt(Num(0), x.nref0))
	return x
}

// verifyFunc generates the obligations of a function for one instance.
func verifyFunc(prog *Program, sp *Spec, f *FuncSpec, inst string, props map[string]bool, pr *Pruner) (res *FuncResult) {
	name := f.name
	if inst != "" {
		name += "[" + inst + "]"
	}
	x := newExec(prog, sp, f, props)
	x.pruner = pr
	x.name = name
	res = &FuncResult{name: name}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case *unsupportedErr:
				res.err = e.Error()
			case *specErr:
				res.err = "specification: " + e.msg
			default:
				if os.Getenv("GVC_DEBUG") != "" {
					panic(r)
				}
				res.err = fmt.Sprintf("internal: %v", r)
			}
		}
		res.obls = x.obls
		if res.err != "" {
			res.obls = append(res.obls, &Obligation{fn: name, kind: "the function is within the verifier's reach", where: "", status: "failed", detail: res.err})
		}
		res.inlined, res.called = sortedKeys(x.inlined), sortedKeys(x.called)
		res.paths = x.paths
	}()
	if f.lemma != nil {
		x.lemma(f)
		return
	}
	fd := prog.byName[f.name]
	if fd == nil {
		panic(unsupported("no function " + f.name + " in the repository"))
	}
	if f.contract == nil {
		panic(&specErr{f.name + " has no contract"})
	}
	sig := fd.obj.Type().(*types.Signature)
	tenv := map[*types.TypeParam]types.Type{}
	bindT := func(tp *types.TypeParamList) {
		for i := 0; tp != nil && i < tp.Len(); i++ {
			tenv[tp.At(i)] = prog.goType(inst)
		}
	}
	bindT(sig.TypeParams())
	bindT(sig.RecvTypeParams())
	x.tenv = tenv
	fr := x.newFrame(&Frame{name: f.name, pkg: fd.pkg, tenv: tenv, boxed: boxedVars(fd.pkg, fd.decl), isRoot: true})
	x.rootFrame = fr
	x.curFrame = fr
	st := x.initState.clone()
	st.label("entry")
	for _, g := range f.content {
		st = x.content(st, g)
	}
	names := map[string]TV{}
	pi := 0
	bind := func(o types.Object, t types.Type, nm string) *Term {
		v := fresh(nm, prog.sortOf(t))
		st.assume(x.typeFacts(st, v, t))
		if pi < len(f.contract.params) {
			names[f.contract.params[pi]] = TV{v, t}
		}
		pi++
		return v
	}
	var recv *Term
	if sig.Recv() != nil {
		rt := substType(sig.Recv().Type(), tenv)
		nm := "recv"
		recv = bind(nil, rt, nm)
		if _, ok := rt.Underlying().(*types.Pointer); ok {
			st.assume(Lt(Num(0), recv))
		}
	}
	psig := substType(sigNoRecv(sig), tenv).(*types.Signature)
	var as []*Term
	for i := 0; i < psig.Params().Len(); i++ {
		p := psig.Params().At(i)
		nm := p.Name()
		if nm == "" || nm == "_" {
			nm = "arg"
		}
		as = append(as, bind(p, p.Type(), nm))
	}
	x.rootNames = names
	env := &Env{x: x, st: st, old: st, names: names, suffix: x.suffixOf(tenv), ctx: f.ctx}
	for _, r := range append(append([]*Clause{}, f.contract.requires...), f.extraReq...) {
		st.assume(x.clause(env, r))
	}
	for _, g := range append(append([]*yghost{}, f.yghosts...), f.lghosts...) {
		x.comp("Y."+g.name, g.sort)
	}
	x.initState = st.clone()
	initialMark = freshCount
	x.coverAt(st, "the precondition can be met")
	if fd.decl.Recv != nil && len(fd.decl.Recv.List) > 0 && len(fd.decl.Recv.List[0].Names) > 0 {
		x.define(fr, st, fd.pkg.info.Defs[fd.decl.Recv.List[0].Names[0]], recv)
	}
	x.bindParams(fr, fd.decl.Type, as, st)
	x.runBody(fr, fd.decl.Type, psig, fd.decl.Body, st, func(st *State, vs []*Term) {
		x.atExit(st, vs, psig, fd)
	})
	for len(x.meetings) > 0 {
		m := x.meetings[0]
		x.meetings = x.meetings[1:]
		x.met[m.node] = true
		m.run(x.meet(m))
	}
	if x.exits == 0 {
		x.obls = append(x.obls, &Obligation{fn: name, kind: "some path returns", status: "failed", detail: "no path reaches a return"})
	}
	return
}

// content gives a package variable the contents of its initialiser, as objects that exist
// when the function starts, and checks that nothing else could have changed them.
func (x *Exec) content(st *State, name string) *State {
	var obj types.Object
	var pk *Pkg
	for o := range x.prog.globals {
		if o.Pkg() != nil && pkgShort(o.Pkg())+"."+o.Name() == name {
			obj = o
		}
	}
	if obj == nil {
		panic(&specErr{"no package variable " + name})
	}
	for _, p := range x.prog.pkgs {
		if p.tpkg == obj.Pkg() {
			pk = p
		}
	}
	fr := &Frame{id: 0, pkg: pk, name: name}
	var res *State
	x.evalC(fr, x.prog.globals[obj], obj.Type(), st, func(s *State, t *Term) {
		if res != nil {
			panic(unsupported("initialiser of " + name))
		}
		res = s
		x.memoGlob[obj] = t
	})
	if res == nil {
		panic(unsupported("initialiser of " + name))
	}
	x.nref0 = x.nref(res)
	if x.prog.mutated[obj] {
		panic(unsupported("package variable " + name + " may change"))
	}
	for _, u := range x.prog.writtenUses(obj, x.fn.name) {
		x.obls = append(x.obls, &Obligation{fn: x.name, kind: name + " keeps its contents", where: u, status: "failed", detail: "used otherwise than read"})
	}
	x.obls = append(x.obls, &Obligation{fn: x.name, kind: "cover: " + name + " is only read", status: "proved", backend: "syntax"})
	return res
}

// writtenUses lists where functions other than the one named use a package variable
// otherwise than to read it.
func (p *Program) writtenUses(obj types.Object, except string) (out []string) {
	for _, fd := range p.funcs {
		if fd.decl.Body == nil || fd.name == except {
			continue
		}
		ok := map[*ast.Ident]bool{}
		id := func(e ast.Expr) *ast.Ident {
			switch e := ast.Unparen(e).(type) {
			case *ast.Ident:
				return e
			case *ast.SelectorExpr:
				return e.Sel
			}
			return nil
		}
		ast.Inspect(fd.decl.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.RangeStmt:
				ok[id(n.X)] = true
			case *ast.AssignStmt:
				for _, r := range n.Rhs {
					if ix, is := ast.Unparen(r).(*ast.IndexExpr); is {
						ok[id(ix.X)] = true
					}
				}
			case *ast.CallExpr:
				f := types.ExprString(n.Fun)
				if f == "len" || f == "maps.Clone" || f == "slices.Clone" {
					ok[id(n.Args[0])] = true
				}
				if f == "maps.Copy" && len(n.Args) == 2 {
					ok[id(n.Args[1])] = true
				}
			}
			return true
		})
		ast.Inspect(fd.decl.Body, func(n ast.Node) bool {
			if i, is := n.(*ast.Ident); is && fd.pkg.info.Uses[i] == obj && !ok[i] {
				out = append(out, p.fset.Position(i.Pos()).String())
			}
			return true
		})
	}
	return
}

func (x *Exec) newFrame(fr *Frame) *Frame {
	x.frames++
	fr.id = x.frames
	x.frameByID[fr.id] = fr
	return fr
}

func (x *Exec) coverAt(st *State, kind string) {
	x.obls = append(x.obls, &Obligation{fn: x.name, kind: "cover: " + kind, cover: true, goal: tTrue, facts: x.allFacts(st)})
}

func isSeqType(t types.Type) bool {
	s, ok := t.Underlying().(*types.Signature)
	if !ok || s.Params().Len() != 1 || s.Results().Len() != 0 {
		return false
	}
	y, ok := s.Params().At(0).Type().Underlying().(*types.Signature)
	return ok && y.Params().Len() == 1 && y.Results().Len() == 1 && tyName(y.Params().At(0).Type()) == "types.Datum"
}

// atExit proves the postconditions where the function returns.
func (x *Exec) atExit(st *State, vs []*Term, sig *types.Signature, fd *FuncDecl) {
	var rec func(i int, st *State)
	rec = func(i int, st *State) {
		if i == len(vs) {
			x.ensures(st, vs, sig, fd)
			return
		}
		if !isSeqType(sig.Results().At(i).Type()) {
			rec(i+1, st)
			return
		}
		if vs[i].op == "ite" {
			x.branch(st, vs[i].args[0], func(st *State) {
				w := append([]*Term{}, vs...)
				w[i] = vs[i].args[1]
				x.atExit(st, w, sig, fd)
			}, func(st *State) {
				w := append([]*Term{}, vs...)
				w[i] = vs[i].args[2]
				x.atExit(st, w, sig, fd)
			})
			return
		}
		c := x.closures[vs[i]]
		if c == nil || c.lit == nil {
			rec(i+1, st)
			return
		}
		x.runSeq(st, vs[i], c, func(st *State) { rec(i+1, st) })
	}
	rec(0, st)
}

// runSeq iterates a sequence the function returns: its body is executed with a consumer
// that may stop at any value, and a run to the end defines the sequence's elements.
func (x *Exec) runSeq(st *State, q *Term, c *Closure, k func(*State)) {
	cn, ctr, cs := x.yieldComps()
	ds := x.datumSort()
	declareFun("qn", "Int", "Int")
	declareFun("qat", ds, "Int", "Int")
	st.heap[cn] = Num(0)
	st.heap[ctr] = fresh("trace", arrSort("Int", ds))
	st.heap[cs] = tFalse
	for _, g := range x.fn.yghosts {
		env := &Env{x: x, st: st, old: x.initState, names: x.rootNames, ctx: x.ctx, suffix: x.suffixOf(x.tenv)}
		st.heap["Y."+g.name] = env.ev(g.init).t
	}
	before := st.clone()
	x.callLit(c.fr, c.lit, c.sig, []*Term{Sym("yield!")}, st, func(st *State, _ []*Term) {
		x.seqFrame(before, st)
		if st.heap[cs] != tFalse {
			if st.heap[cs] == tTrue {
				x.exits++
				return // the consumer stopped: what it saw is a prefix of a full run
			}
			st.assume(Not(st.heap[cs]))
		}
		n, tr := st.heap[cn], st.heap[ctr]
		st.assume(Eq(mkTerm("qn", q), n))
		qvar++
		b := fmt.Sprintf("i?%d", qvar)
		boundSorts[b] = "Int"
		i := Sym(b)
		st.assume(mkQuant("forall", []Binder{{b, "Int"}}, Implies(And(Le(Num(0), i), Lt(i, n)), Eq(mkTerm("qat", q, i), mkTerm("select", tr, i))),
			[][]*Term{{mkTerm("qat", q, i)}, {mkTerm("select", tr, i)}}))
		for _, l := range x.fn.links {
			// A function of the sequence, defined by what its run did.
			g := st.heap["Y."+l[1]]
			args := []*Term{q}
			var bs []Binder
			for j := range funDecls[l[0]].args[1:] {
				qvar++
				b := fmt.Sprintf("l?%d", qvar)
				boundSorts[b] = funDecls[l[0]].args[1+j]
				bs = append(bs, Binder{b, boundSorts[b]})
				args = append(args, Sym(b))
				g = mkTerm("select", g, Sym(b))
			}
			if len(bs) == 0 {
				st.assume(Eq(mkTerm(l[0], q), g))
				continue
			}
			ap := mkTerm(l[0], args...)
			st.assume(mkQuant("forall", bs, Eq(ap, g), [][]*Term{{ap}, {g}}))
		}
		k(st)
	})
}

// seqFrame: reading a sequence changes nothing that existed.
func (x *Exec) seqFrame(before, st *State) {
	for _, c := range sortedKeys(st.heap) {
		if c == "nref" || strings.HasPrefix(c, "Y.") || strings.HasPrefix(c, "PL.") {
			continue
		}
		x.frameComp(st, c, x.heapGet(before, c), st.heap[c], nil, x.nref(before), "reading the sequence")
	}
}

func (x *Exec) frameComp(st *State, c string, old, nw *Term, except []*Term, below *Term, what string) {
	if old == nw {
		return
	}
	srt := comps[c].sort
	if !strings.HasPrefix(srt, "(Array Int ") {
		x.prove(st, Eq(old, nw), what+" leaves "+c, "", frameTags(c))
		return
	}
	// The stores above the old value are checked one by one where possible.
	qvar++
	b := fmt.Sprintf("r?%d", qvar)
	boundSorts[b] = "Int"
	r := fresh("ref", "Int")
	cond := And(Le(Num(0), r), Lt(r, below))
	for _, e := range except {
		cond = And(cond, Not(Eq(r, e)))
	}
	s := st.clone()
	s.assume(cond)
	x.prove(s, Eq(Select(nw, r), Select(old, r)), what+" leaves "+c, "", frameTags(c))
}

func frameTags(c string) []string { return nil }

func (x *Exec) ensures(st *State, vs []*Term, sig *types.Signature, fd *FuncDecl) {
	x.exits++
	x.paths++
	c := x.fn.contract
	names := map[string]TV{}
	for k, v := range x.rootNames {
		names[k] = v
	}
	for i := range vs {
		if i < len(c.results) {
			names[c.results[i]] = TV{vs[i], sig.Results().At(i).Type()}
		}
	}
	env := &Env{x: x, st: st, old: x.initState, names: names, suffix: x.suffixOf(x.tenv), ctx: x.ctx, fr: x.rootFrame}
	where := fmt.Sprintf("exit %d", x.exits)
	for _, g := range x.fn.ghosts {
		// (ghost "COMP" idx value)
		comp := env.sfx(str(g.list[1]))
		if len(g.list) == 4 {
			i := env.ev(g.list[2]).t
			v := env.ev(g.list[3]).t
			x.heapSet(st, comp, i, Store(x.heapGet(st, comp), i, v))
		} else {
			x.heapSet(st, comp, nil, env.ev(g.list[2]).t)
		}
	}
	for _, a := range x.fn.asserts {
		g := x.clause(env, a)
		x.prove(st, g, "assertion "+a.name, where, a.tags)
		st.assume(g)
	}
	for _, e := range append(append([]*Clause{}, c.ensures...), x.fn.extraEns...) {
		if e.free {
			continue
		}
		x.prove(st, x.clause(env, e), "postcondition "+e.name, where, e.tags)
	}
	mods := c.mods
	if x.fn.hasMods {
		mods = x.fn.mods
	}
	x.frames_(st, env, mods, c.allocs)
	x.coverAt(st, where+" can be reached")
}

// frames_ proves that nothing outside the modifies clause changed.
func (x *Exec) frames_(st *State, env *Env, mods []Mod, allocs bool) {
	whole := map[string]bool{}
	at := map[string][]*Term{}
	eo := *env
	eo.st = x.initState
	for _, m := range mods {
		name := env.sfx(m.comp)
		ns := []string{name}
		if strings.HasSuffix(name, ".*") {
			ns = x.compsWithPrefix(strings.TrimSuffix(name, "*"))
		}
		for _, n := range ns {
			switch {
			case m.idx != nil:
				at[n] = append(at[n], (&eo).ev(m.idx).t)
			case m.kind == "fresh":
			default:
				whole[n] = true
			}
		}
	}
	for _, c := range sortedKeys(st.heap) {
		if c == "nref" || strings.HasPrefix(c, "Y.") || strings.HasPrefix(c, "PL.") || whole[c] {
			continue
		}
		x.frameComp(st, c, x.heapGet(x.initState, c), st.heap[c], at[c], x.nref0, "the function")
	}
	if !allocs && st.heap["nref"] != nil && st.heap["nref"] != x.nref0 {
		x.prove(st, Eq(x.nref(st), x.nref0), "the function allocates nothing", "", nil)
	}
}

// lemma proves closed formulas.
func (x *Exec) lemma(f *FuncSpec) {
	for _, sfx := range []string{"R", "I"} {
		st := x.initState.clone()
		env := &Env{x: x, st: st, old: st, names: map[string]TV{}, suffix: sfx, ctx: f.ctx}
		generic := false
		for _, cl := range f.lemma.list[2:] {
			if strings.Contains(cl.String(), "~") {
				generic = true
			}
		}
		for _, cl := range f.lemma.list[2:] {
			switch cl.head() {
			case "vars":
				for _, b := range cl.list[1:] {
					sn := env.sfx(b.list[1].String())
					var ty types.Type
					if strings.HasPrefix(sn, "@") {
						ty = x.prog.goType(strings.Trim(sn[1:], "\""))
						sn = x.prog.sortOf(ty)
					}
					v := fresh(b.list[0].atom, sn)
					if ty != nil {
						st.assume(x.typeFacts(st, v, ty))
					}
					env.names[b.list[0].atom] = TV{v, ty}
				}
			case "assume":
				c := parseClause(cl)
				st.assume(x.clause(env, c))
			case "check":
				c := parseClause(cl)
				g := x.clause(env, c)
				x.prove(st, g, "lemma "+c.name, "", c.tags)
				st.assume(g)
			}
		}
		x.exits++
		x.coverAt(st, "the lemma's assumptions")
		if !generic {
			break
		}
	}
}

var defString = regexp.MustCompile(`"[^"]*"`)

// prelude is the SMT text common to all queries.
func prelude(prog *Program) string {
	var b strings.Builder
	b.WriteString(preludeSorts())
	b.WriteString(`(declare-const zeroTime Time)
(declare-const nilRType RType)
(declare-const zeroRValue RValue)
(declare-fun unixOf (Int) Time)
(declare-fun utcOf (Time) Time)
(declare-fun msOf (Time) Int)
(define-fun okSlice ((s Slice)) Bool (and (<= 0 (sl_arr s)) (<= 0 (sl_off s)) (<= 0 (sl_len s)) (<= (sl_len s) (sl_cap s)) (<= (sl_cap s) 9223372036854775807) (=> (= (sl_arr s) 0) (and (= (sl_cap s) 0) (= (sl_off s) 0)))))
(define-fun okFlt ((f Real)) Bool (and (<= 0.0 f) (<= f 3.0)))
(define-fun okInt64 ((i Int)) Bool (and (<= (- 9223372036854775808) i) (<= i 9223372036854775807)))
(define-fun okAny1 ((v Any)) Bool (and
 (=> ((_ is VID) v) (<= 0 (v_id v))) (=> ((_ is VString) v) (<= 0.0 (v_str v))) (=> ((_ is VInt) v) (okInt64 (v_int v)))
 (=> ((_ is VFloat) v) (okFlt (v_flt v))) (=> ((_ is VIdent) v) (<= 0.0 (v_ident v))) (=> ((_ is VTempID) v) (<= 0.0 (v_tmp v)))))
(define-fun okAny ((v Any)) Bool (and (okAny1 v) (=> ((_ is VLookup) v) (and (okAny1 (v_la v)) (okAny1 (v_lv v))))))
`)
	for _, d := range defText {
		d = defString.ReplaceAllStringFunc(d, func(q string) string { return strConst(strings.Trim(q, "\"")).op })
		b.WriteString(d + "\n")
	}
	return b.String()
}

func init() {
	for _, n := range []string{"okSlice", "okFlt", "okInt64", "okAny", "okAny1"} {
		defFuns[n] = &FunDecl{nil, "Bool"}
	}
	for _, n := range []string{"unixOf", "utcOf", "msOf", "zeroTime"} {
		preDeclared[n] = true
	}
	preDeclared["nilRType"] = true
	preDeclared["zeroRValue"] = true
	declareFun("zeroTime", "Time")
	declareFun("nilRType", "RType")
	declareFun("zeroRValue", "RValue")
	declareFun("unixOf", "Time", "Int")
	declareFun("utcOf", "Time", "Time")
	declareFun("msOf", "Int", "Time")
	declareFun("hasprefix", "Bool", "Real", "Real")
	declareFun("itoa", "Real", "Int")
	declareFun("ordof", "Int", "Int")
	declareFun("yield!", "Int")
	declareFun("pullstop", "Int")
}

// evalAxioms turns the axioms and the proved lemmas before upto into terms.
func evalAxioms(prog *Program, sp *Spec) []*Axiom {
	var out []*Axiom
	for _, a := range sp.axioms {
		x := newExec(prog, sp, &FuncSpec{}, nil)
		for _, sfx := range []string{"R", "I"} {
			env := &Env{x: x, st: x.initState, names: map[string]TV{}, suffix: sfx}
			t := env.bool(a.e)
			var keys []string
			for _, k := range a.keys {
				keys = append(keys, env.sfx(k))
			}
			out = append(out, &Axiom{name: a.name, t: t, keys: keys})
			if !strings.Contains(a.e.String(), "~") {
				break
			}
		}
	}
	return out
}

func tagsOf(f *FuncSpec) map[string]bool {
	m := map[string]bool{}
	add := func(cs []*Clause) {
		for _, c := range cs {
			for _, t := range c.tags {
				m[t] = true
			}
		}
	}
	if f.contract != nil {
		add(f.contract.ensures)
	}
	add(f.extraEns)
	add(f.asserts)
	for _, l := range f.loops {
		add(l.invs)
		add(l.exits)
	}
	if f.lemma != nil {
		for _, cl := range f.lemma.list[2:] {
			if cl.head() == "check" {
				add([]*Clause{parseClause(cl)})
			}
		}
	} else {
		m["C18"] = true
	}
	for t := range f.props {
		m[t] = true
	}
	return m
}

func sortObls(o []*Obligation) {
	sort.SliceStable(o, func(i, j int) bool { return o[i].fn < o[j].fn })
}
