package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// intrinsic handles built-in functions and mutex methods; it reports whether it did.
func (x *Exec) intrinsic(fr *Frame, e *ast.CallExpr, st *State, k func(*State, []*Term)) bool {
	if sel, ok := e.Fun.(*ast.SelectorExpr); ok {
		if fr.pkg.info.Selections[sel] != nil && isMutex(x.typeOf(fr, sel.X)) {
			x.mutexOwner(fr, sel.X, st, func(st *State, o *Term) {
				x.mutexOp(st, o, sel.Sel.Name, e)
				k(st, nil)
			})
			return true
		}
		return false
	}
	id, ok := ast.Unparen(e.Fun).(*ast.Ident)
	if !ok {
		return false
	}
	b, ok := fr.pkg.info.Uses[id].(*types.Builtin)
	if !ok {
		return false
	}
	switch b.Name() {
	case "len":
		t := x.typeOf(fr, e.Args[0])
		x.eval(fr, e.Args[0], st, func(st *State, v *Term) {
			switch u := t.Underlying().(type) {
			case *types.Slice:
				k(st, []*Term{App("sl_len", v)})
			case *types.Map:
				k(st, []*Term{x.mapLen(st, v, t)})
			case *types.Basic:
				if u.Info()&types.IsString == 0 {
					panic(unsupported("len"))
				}
				declareFun("strlen", "Int", "Real")
				l := mkTerm("strlen", v)
				st.assume(And(Le(Num(0), l), Eq(Eq(l, Num(0)), Eq(v, Sym("0.0")))))
				k(st, []*Term{l})
			default:
				panic(unsupported("len of " + tyName(t)))
			}
		})
	case "cap":
		x.eval(fr, e.Args[0], st, func(st *State, v *Term) { k(st, []*Term{App("sl_cap", v)}) })
	case "append":
		st0 := x.typeOf(fr, e)
		el := st0.Underlying().(*types.Slice).Elem()
		x.evalC(fr, e.Args[0], st0, st, func(st *State, s *Term) {
			if e.Ellipsis.IsValid() {
				x.evalC(fr, e.Args[1], st0, st, func(st *State, t *Term) {
					k(st, []*Term{x.appendSlice(st, s, t, el)})
				})
				return
			}
			x.evalListC(fr, e.Args[1:], func(int) types.Type { return el }, st, func(st *State, vs []*Term) {
				k(st, []*Term{x.appendVals(st, s, vs, el)})
			})
		})
	case "make":
		t := x.typeOf(fr, e)
		switch u := t.Underlying().(type) {
		case *types.Map:
			if len(e.Args) > 1 {
				x.eval(fr, e.Args[1], st, func(st *State, _ *Term) { k(st, []*Term{x.newMap(st, t)}) })
				return true
			}
			k(st, []*Term{x.newMap(st, t)})
		case *types.Slice:
			x.eval(fr, e.Args[1], st, func(st *State, n *Term) {
				fin := func(st *State, c *Term) {
					x.oblige(st, And(Le(Num(0), n), Le(n, c)), "make size in range", x.pos(e), tagPanic)
					comp := x.sliceComp(u.Elem())
					r := x.alloc(st)
					x.heapSet(st, comp, r, Store(x.heapGet(st, comp), r, ConstArr(arrSort("Int", x.prog.sortOf(u.Elem())), x.prog.zero(u.Elem()))))
					k(st, []*Term{App("mkSlice", r, Num(0), n, c)})
				}
				if len(e.Args) > 2 {
					x.eval(fr, e.Args[2], st, fin)
				} else {
					fin(st, n)
				}
			})
		default:
			panic(unsupported("make of " + tyName(t)))
		}
	case "new":
		t := x.typeOf(fr, e).Underlying().(*types.Pointer).Elem()
		r := x.alloc(st)
		x.storePtr(st, r, t, x.prog.zero(t))
		k(st, []*Term{r})
	case "delete":
		t := x.typeOf(fr, e.Args[0])
		x.eval(fr, e.Args[0], st, func(st *State, m *Term) {
			x.evalC(fr, e.Args[1], t.Underlying().(*types.Map).Key(), st, func(st *State, key *Term) {
				x.mapDelete(st, m, key, t)
				k(st, nil)
			})
		})
	case "clear":
		t := x.typeOf(fr, e.Args[0])
		mt, ok := t.Underlying().(*types.Map)
		if !ok {
			panic(unsupported("clear"))
		}
		x.eval(fr, e.Args[0], st, func(st *State, m *Term) {
			d, c := x.mapComps(t)
			ks, vs := x.prog.sortOf(mt.Key()), x.prog.sortOf(mt.Elem())
			x.heapSet(st, d, m, Store(x.heapGet(st, d), m, ConstArr(arrSort(ks, "Bool"), tFalse)))
			x.heapSet(st, c, m, Store(x.heapGet(st, c), m, ConstArr(arrSort(ks, vs), x.prog.zero(mt.Elem()))))
			k(st, nil)
		})
	case "copy":
		t := x.typeOf(fr, e.Args[0])
		el := t.Underlying().(*types.Slice).Elem()
		x.eval(fr, e.Args[0], st, func(st *State, d *Term) {
			x.eval(fr, e.Args[1], st, func(st *State, s *Term) {
				n := Ite(Le(App("sl_len", d), App("sl_len", s)), App("sl_len", d), App("sl_len", s))
				x.copyInto(st, App("sl_arr", d), App("sl_off", d), s, n, el)
				k(st, []*Term{n})
			})
		})
	case "panic":
		x.eval(fr, e.Args[0], st, func(st *State, _ *Term) {
			x.oblige(st, tFalse, "no panic", x.pos(e), tagPanic)
		})
	case "min", "max":
		t := x.typeOf(fr, e)
		if isFloatT(t) {
			panic(unsupported("min of floats"))
		}
		x.evalListC(fr, e.Args, func(int) types.Type { return t }, st, func(st *State, vs []*Term) {
			r := vs[0]
			for _, v := range vs[1:] {
				if b.Name() == "min" {
					r = Ite(Le(r, v), r, v)
				} else {
					r = Ite(Le(v, r), r, v)
				}
			}
			k(st, []*Term{r})
		})
	default:
		panic(unsupported("built-in " + b.Name()))
	}
	return true
}

// decide settles a ground condition with the pruner where it can.
func (x *Exec) decide(st *State, c *Term) *Term {
	if c == tTrue || c == tFalse {
		return c
	}
	fs := x.allFacts(st)
	if x.pruner.unsat(fs, Not(c)) {
		return tTrue
	}
	if x.pruner.unsat(fs, c) {
		return tFalse
	}
	return c
}

func (x *Exec) allFacts(st *State) []*Term {
	return append(st.facts(), x.facts0...)
}

func (x *Exec) appendVals(st *State, s *Term, vs []*Term, el types.Type) *Term {
	if len(vs) == 0 {
		return s
	}
	c := x.sliceComp(el)
	n := App("sl_len", s)
	nn := Add(n, Num(int64(len(vs))))
	fits := x.decide(st, Le(nn, App("sl_cap", s)))
	r := x.alloc(st)
	arr := Ite(fits, App("sl_arr", s), r)
	cp := App("sl_cap", s)
	if fits != tTrue {
		ncap := fresh("cap", "Int")
		st.assume(Le(nn, ncap))
		cp = Ite(fits, cp, ncap)
	}
	a := x.heapGet(st, c)
	content := Select(a, App("sl_arr", s))
	for i, v := range vs {
		content = Store(content, Add(App("sl_off", s), Add(n, Num(int64(i)))), v)
	}
	x.heapSet(st, c, arr, Store(a, arr, content))
	return App("mkSlice", arr, App("sl_off", s), nn, cp)
}

func (x *Exec) appendSlice(st *State, s, t *Term, el types.Type) *Term {
	n := App("sl_len", s)
	tn := App("sl_len", t)
	nn := Add(n, tn)
	c := x.sliceComp(el)
	fits := x.decide(st, Le(nn, App("sl_cap", s)))
	r := x.alloc(st)
	arr := Ite(fits, App("sl_arr", s), r)
	cp := App("sl_cap", s)
	if fits != tTrue {
		ncap := fresh("cap", "Int")
		st.assume(Le(nn, ncap))
		cp = Ite(fits, cp, ncap)
	}
	a := x.heapGet(st, c)
	x.heapSet(st, c, arr, Store(a, arr, Select(a, App("sl_arr", s))))
	x.copyFrom(st, arr, Add(App("sl_off", s), n), Select(a, App("sl_arr", t)), App("sl_off", t), tn, el)
	return App("mkSlice", arr, App("sl_off", s), nn, cp)
}

func (x *Exec) copyInto(st *State, arr, off, src, n *Term, el types.Type) {
	c := x.sliceComp(el)
	x.copyFrom(st, arr, off, Select(x.heapGet(st, c), App("sl_arr", src)), App("sl_off", src), n, el)
}

// copyFrom copies n elements of a source array into the array arr at off.
func (x *Exec) copyFrom(st *State, arr, off, src, srcOff, n *Term, el types.Type) {
	c := x.sliceComp(el)
	a := x.heapGet(st, c)
	old := Select(a, arr)
	nw := fresh("copied", arrSort("Int", x.prog.sortOf(el)))
	qvar++
	b := fmt.Sprintf("i?%d", qvar)
	boundSorts[b] = "Int"
	i := Sym(b)
	st.assume(mkQuant("forall", []Binder{{b, "Int"}},
		Eq(mkTerm("select", nw, i), Ite(And(Le(off, i), Lt(i, Add(off, n))), mkTerm("select", src, Add(srcOff, Sub(i, off))), mkTerm("select", old, i))),
		[][]*Term{{mkTerm("select", nw, i)}}))
	x.heapSet(st, c, arr, Store(a, arr, nw))
}

// mapLen is the number of keys of a map, a function of its key set.
func (x *Exec) mapLen(st *State, m *Term, t types.Type) *Term {
	d, _ := x.mapComps(t)
	ks := x.prog.sortOf(t.Underlying().(*types.Map).Key())
	dom := Select(x.heapGet(st, d), m)
	return x.cardOf(st, dom, ks)
}

func (x *Exec) cardOf(st *State, dom *Term, ks string) *Term {
	cn, wn := "card."+ks, "cardw."+ks
	declareFun(cn, "Int", arrSort(ks, "Bool"))
	declareFun(wn, ks, arrSort(ks, "Bool"))
	n := mkTerm(cn, dom)
	st.assume(Le(Num(0), n))
	st.assume(App("okInt64", n))
	st.assume(Or(Eq(n, Num(0)), Select(dom, mkTerm(wn, dom))))
	qvar++
	b := fmt.Sprintf("k?%d", qvar)
	boundSorts[b] = ks
	st.assume(Or(Not(Eq(n, Num(0))), mkQuant("forall", []Binder{{b, ks}}, Not(mkTerm("select", dom, Sym(b))), nil)))
	return n
}

// ---- mutexes ----

func isMutex(t types.Type) bool {
	switch tyName(t) {
	case "sync.Mutex", "sync.RWMutex", "*sync.Mutex", "*sync.RWMutex":
		return true
	}
	return false
}

// mutexOwner evaluates the object whose lock field a mutex expression denotes.
func (x *Exec) mutexOwner(fr *Frame, e ast.Expr, st *State, k func(*State, *Term)) {
	sel, ok := ast.Unparen(e).(*ast.SelectorExpr)
	if !ok {
		panic(unsupported("mutex at " + x.pos(e)))
	}
	if _, ok := x.typeOf(fr, sel.X).Underlying().(*types.Pointer); !ok {
		panic(unsupported("mutex at " + x.pos(e)))
	}
	x.eval(fr, sel.X, st, func(st *State, p *Term) {
		x.nonNil(st, p, e)
		k(st, p)
	})
}

func (x *Exec) held(st *State) *Term {
	return x.heapGet(st, x.comp("gh.held", arrSort("Int", "Bool")))
}

var tagLock = []string{"C19"}

func (x *Exec) mutexOp(st *State, owner *Term, op string, n ast.Node) {
	h := x.held(st)
	switch op {
	case "Lock":
		x.oblige(st, Not(Select(h, owner)), "the lock is not already held", x.pos(n), []string{"C18", "C19"})
		x.heapSet(st, "gh.held", owner, Store(h, owner, tTrue))
		// What a call reads and writes is one critical section, so that it takes effect as a whole.
		once := x.comp("Y.once", arrSort("Int", "Bool"))
		cur := st.heap[once]
		if cur == nil {
			cur = ConstArr(arrSort("Int", "Bool"), tFalse)
		}
		x.oblige(st, Not(Select(cur, owner)), "one critical section for each call", x.pos(n), tagLock)
		st.heap[once] = Store(cur, owner, tTrue)
	case "Unlock":
		x.oblige(st, Select(h, owner), "the lock is held", x.pos(n), []string{"C18", "C19"})
		x.heapSet(st, "gh.held", owner, Store(h, owner, tFalse))
	default:
		// A shared lock does not exclude other readers, while every read clones indexes.
		x.oblige(st, tFalse, "exclusive locking ("+op+")", x.pos(n), tagLock)
		if strings.HasSuffix(op, "Unlock") {
			x.heapSet(st, "gh.held", owner, Store(h, owner, tFalse))
		} else {
			x.heapSet(st, "gh.held", owner, Store(h, owner, tTrue))
		}
	}
}

// guardField requires the lock of a database for access to its fields.
func (x *Exec) guardField(st *State, p *Term, t types.Type, field string, write bool, n ast.Node) {
	if tyName(t) != "database.indexDatabase" || field == "lock" || field == "logger" {
		return
	}
	if !x.wanted(tagLock) {
		return
	}
	x.oblige(st, Or(Select(x.held(st), p), Le(x.nref0, p)), "the lock is held for access to "+field, x.pos(n), tagLock)
}

func (x *Exec) guardMap(st *State, m *Term, t types.Type, write bool, n ast.Node) {}

// ---- external functions ----

func (x *Exec) tkOf(d *Term, sfx string) *Term {
	s := "S_index_TypedDatum_" + sfx
	return App("mkTK"+sfx, App(s+".E", d), App(s+".A", d), App(s+".V", d))
}

func (x *Exec) treeComp(sfx string) string {
	return x.comp("B.C."+sfx, arrSort("Int", arrSort("TK_"+sfx, "Int")))
}

// externCall gives the assumed contracts of functions outside the module.
func (x *Exec) externCall(name string, f *types.Func, tenv map[*types.TypeParam]types.Type, recv *Term, recvTy types.Type, as []*Term, st *State, n ast.Node, k func(*State, []*Term)) bool {
	one := func(t *Term) bool { k(st, []*Term{t}); return true }
	use := func() { x.called["extern "+name] = true }
	argT := func(i int) types.Type {
		return substType(f.Type().(*types.Signature).Params().At(i).Type(), tenv)
	}
	switch name {
	case "cmp.Less":
		use()
		return one(Lt(as[0], as[1]))
	case "cmp.Compare":
		use()
		return one(Ite(Lt(as[0], as[1]), Num(-1), Ite(Lt(as[1], as[0]), Num(1), Num(0))))
	case "strings.Compare":
		use()
		return one(Ite(Lt(as[0], as[1]), Num(-1), Ite(Lt(as[1], as[0]), Num(1), Num(0))))
	case "strings.HasPrefix":
		use()
		if s, ok := strOf(as[0]); ok {
			if p, ok := strOf(as[1]); ok {
				if strings.HasPrefix(s, p) {
					return one(tTrue)
				}
				return one(tFalse)
			}
		}
		return one(mkTerm("hasprefix", as[0], as[1]))
	case "strconv.Itoa":
		use()
		r := mkTerm("itoa", as[0])
		st.assume(Le(Sym("0.0"), r))
		return one(r)
	case "math.NaN":
		use()
		return one(Sym("0.0"))
	case "math.IsNaN":
		use()
		return one(Eq(as[0], Sym("0.0")))
	case "math.Inf":
		use()
		return one(Ite(Le(Num(0), as[0]), Sym("3.0"), Sym("1.0")))
	case "time.UnixMilli":
		use()
		return one(mkTerm("unixOf", as[0]))
	case "time.(Time).UTC", "time.Time.UTC":
		use()
		return one(mkTerm("utcOf", recv))
	case "time.Time.UnixMilli":
		use()
		r := mkTerm("msOf", recv)
		st.assume(App("okInt64", r))
		return one(r)
	case "time.Time.IsZero":
		use()
		declareFun("tzero", "Bool", "Time")
		return one(mkTerm("tzero", recv))
	case "time.Time.Equal":
		use()
		declareFun("tequal", "Bool", "Time", "Time")
		return one(mkTerm("tequal", recv, as[0]))
	case "time.Time.Truncate", "time.Time.Round":
		use()
		declareFun("ttrunc", "Time", "Time", "Int")
		return one(mkTerm("ttrunc", recv, as[0]))
	case "log.Default":
		use()
		declareFun("log.default", "Int")
		r := Sym("log.default")
		st.assume(And(Lt(Num(0), r), Lt(r, x.nref0)))
		return one(r)
	case "slices.Clip":
		use()
		s := as[0]
		return one(App("mkSlice", App("sl_arr", s), App("sl_off", s), App("sl_len", s), App("sl_len", s)))
	case "slices.Clone":
		use()
		el := argT(0).Underlying().(*types.Slice).Elem()
		return one(x.appendSlice(st, x.prog.zero(argT(0)), as[0], el))
	case "maps.Clone":
		use()
		t := argT(0)
		d, c := x.mapComps(t)
		r := x.alloc(st)
		da, va := x.heapGet(st, d), x.heapGet(st, c)
		x.heapSet(st, d, r, Store(da, r, Select(da, as[0])))
		x.heapSet(st, c, r, Store(va, r, Select(va, as[0])))
		nz := x.decide(st, Not(Eq(as[0], Num(0))))
		return one(Ite(nz, r, Num(0)))
	case "maps.Copy":
		use()
		t := argT(0)
		t2 := argT(1)
		mt := t.Underlying().(*types.Map)
		d, c := x.mapComps(t)
		d2, c2 := x.mapComps(t2)
		x.oblige(st, Not(Eq(as[0], Num(0))), "no nil map write", x.pos(n), tagPanic)
		da, va := x.heapGet(st, d), x.heapGet(st, c)
		sd, sv := Select(x.heapGet(st, d2), as[1]), Select(x.heapGet(st, c2), as[1])
		od, ov := Select(da, as[0]), Select(va, as[0])
		ks, vs := x.prog.sortOf(mt.Key()), x.prog.sortOf(mt.Elem())
		if isEmptyMap(od) {
			x.heapSet(st, d, as[0], Store(da, as[0], sd))
			x.heapSet(st, c, as[0], Store(va, as[0], sv))
			k(st, nil)
			return true
		}
		nd, nv := fresh("dom", arrSort(ks, "Bool")), fresh("vals", arrSort(ks, vs))
		qvar++
		b := fmt.Sprintf("k?%d", qvar)
		boundSorts[b] = ks
		key := Sym(b)
		st.assume(mkQuant("forall", []Binder{{b, ks}}, And(
			Eq(mkTerm("select", nd, key), Or(mkTerm("select", sd, key), mkTerm("select", od, key))),
			Eq(mkTerm("select", nv, key), Ite(mkTerm("select", sd, key), mkTerm("select", sv, key), mkTerm("select", ov, key)))),
			[][]*Term{{mkTerm("select", nd, key)}, {mkTerm("select", nv, key)}}))
		x.heapSet(st, d, as[0], Store(da, as[0], nd))
		x.heapSet(st, c, as[0], Store(va, as[0], nv))
		k(st, nil)
		return true
	case "iter.Pull":
		use()
		r := x.alloc(st)
		sc, pc := x.comp("PL.seq", arrSort("Int", "Int")), x.comp("PL.pos", arrSort("Int", "Int"))
		x.heapSet(st, sc, r, Store(x.heapGet(st, sc), r, as[0]))
		x.heapSet(st, pc, r, Store(x.heapGet(st, pc), r, Num(0)))
		x.oblige(st, Not(Eq(as[0], Num(0))), "no nil sequence", x.pos(n), tagPanic)
		k(st, []*Term{r, Sym("pullstop")})
		return true
	case "types.NewError":
		use()
		if len(as) == 2 {
			arr := Select(x.heapGet(st, x.sliceComp(types.NewInterfaceType(nil, nil))), App("sl_arr", as[1]))
			if ln, ok := numVal(App("sl_len", as[1])); ok {
				if ln.Int64()%2 != 0 {
					x.oblige(st, tFalse, "even error context", x.pos(n), tagPanic)
				}
				for i := int64(0); i < ln.Int64(); i += 2 {
					x.oblige(st, App("is-VGoString", Select(arr, Num(i))), "error context keys are strings", x.pos(n), tagPanic)
				}
			}
		}
		return one(fresh("err", "Int"))
	}
	if strings.HasPrefix(name, "btree.") {
		return x.btreeCall(name, tenv, recv, as, st, n, k)
	}
	return x.pureExtern(name, f, recv, as, k, st)
}

// pureExtern takes what is known of no other function of some packages to depend on its
// arguments alone.
func (x *Exec) pureExtern(name string, f *types.Func, recv *Term, as []*Term, k func(*State, []*Term), st *State) bool {
	if f.Pkg() == nil {
		return false
	}
	switch f.Pkg().Path() {
	case "time", "math", "math/bits", "strings", "strconv", "unicode", "unicode/utf8", "cmp":
	default:
		return false
	}
	switch f.Name() {
	case "Now", "Since", "Until", "Sleep", "After", "Tick", "NewTimer", "AfterFunc", "NewTicker":
		return false
	}
	sig := f.Type().(*types.Signature)
	if sig.TypeParams().Len() > 0 || sig.Variadic() {
		return false
	}
	scalar := func(t types.Type) bool {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			return true
		case *types.Struct:
			return tyName(t) == "time.Time"
		default:
			_ = u
			return false
		}
	}
	args := as
	if sig.Recv() != nil {
		if !scalar(sig.Recv().Type()) {
			return false
		}
		args = append([]*Term{recv}, as...)
	}
	var sorts []string
	for i := 0; i < sig.Params().Len(); i++ {
		if !scalar(sig.Params().At(i).Type()) {
			return false
		}
	}
	for _, a := range args {
		sorts = append(sorts, sortOfTerm(a))
	}
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		t := sig.Results().At(i).Type()
		if !scalar(t) {
			return false
		}
		fn := sanitize(fmt.Sprintf("ext.%s.%d", name, i))
		declareFun(fn, x.prog.sortOf(t), sorts...)
		r := mkTerm(fn, args...)
		st.assume(x.typeFacts(st, r, t))
		rs = append(rs, r)
	}
	x.called["extern "+name] = true
	k(st, rs)
	return true
}

func isEmptyMap(d *Term) bool { return d.op == "constarr" && d.args[0] == tFalse }

func (x *Exec) btreeCall(name string, tenv map[*types.TypeParam]types.Type, recv *Term, as []*Term, st *State, n ast.Node, k func(*State, []*Term)) bool {
	var item types.Type
	for _, t := range tenv {
		item = t
	}
	if item == nil {
		return false
	}
	s := x.prog.sortOf(item)
	if !strings.HasPrefix(s, "S_index_TypedDatum_") {
		return false
	}
	sfx := s[len(s)-1:]
	x.called["extern "+name] = true
	c := x.treeComp(sfx)
	ordC := x.comp("B.ord", arrSort("Int", "Int"))
	switch strings.TrimPrefix(name, "btree.") {
	case "NewG":
		x.oblige(st, Lt(Num(1), as[0]), "btree degree at least 2", x.pos(n), tagPanic)
		r := x.alloc(st)
		o := mkTerm("ordof", as[1])
		x.oblige(st, And(Le(Num(1), o), Le(o, Num(4))), "lesser is one of the four orders", x.pos(n), nil)
		x.heapSet(st, c, r, Store(x.heapGet(st, c), r, ConstArr(arrSort("TK_"+sfx, "Int"), Num(0))))
		x.heapSet(st, ordC, r, Store(x.heapGet(st, ordC), r, o))
		k(st, []*Term{r})
		return true
	}
	m := strings.TrimPrefix(name, "btree.(*BTreeG).")
	if m == name {
		return false
	}
	x.nonNil(st, recv, n)
	cur := Select(x.heapGet(st, c), recv)
	itemAt := func(key *Term) *Term {
		return App(structCtorName(s), App(selOf("TK_"+sfx, 0), key), App(selOf("TK_"+sfx, 1), key), App(selOf("TK_"+sfx, 2), key), Select(cur, key))
	}
	switch m {
	case "Has":
		k(st, []*Term{Not(Eq(Select(cur, x.tkOf(as[0], sfx)), Num(0)))})
	case "Get":
		key := x.tkOf(as[0], sfx)
		has := Not(Eq(Select(cur, key), Num(0)))
		k(st, []*Term{Ite(has, itemAt(key), x.prog.zero(item)), has})
	case "ReplaceOrInsert":
		key := x.tkOf(as[0], sfx)
		has := Not(Eq(Select(cur, key), Num(0)))
		T := App(s+".T", as[0])
		x.oblige(st, Lt(Num(0), T), "stored transaction ids are positive", x.pos(n), nil)
		old := Ite(has, itemAt(key), x.prog.zero(item))
		x.heapSet(st, c, recv, Store(x.heapGet(st, c), recv, Store(cur, key, T)))
		k(st, []*Term{old, has})
	case "Delete":
		key := x.tkOf(as[0], sfx)
		has := Not(Eq(Select(cur, key), Num(0)))
		old := Ite(has, itemAt(key), x.prog.zero(item))
		x.heapSet(st, c, recv, Store(x.heapGet(st, c), recv, Store(cur, key, Num(0))))
		k(st, []*Term{old, has})
	case "Len":
		k(st, []*Term{mkTerm("an"+sfx, cur)})
	case "Clone":
		r := x.alloc(st)
		x.heapSet(st, c, r, Store(x.heapGet(st, c), r, cur))
		x.heapSet(st, ordC, r, Store(x.heapGet(st, ordC), r, Select(x.heapGet(st, ordC), recv)))
		k(st, []*Term{r})
	case "AscendGreaterOrEqual":
		x.ascend(st, recv, x.tkOf(as[0], sfx), as[1], sfx, s, n, func(st *State) { k(st, nil) })
	case "Ascend":
		x.ascend(st, recv, nil, as[0], sfx, s, n, func(st *State) { k(st, nil) })
	default:
		return false
	}
	return true
}

func selOf(dt string, i int) string { return dtByName[dt].ctors[0].fields[i].sel }

// ---- yield and pull ----

func isPullSig(sig *types.Signature) bool {
	return sig.Params().Len() == 0 && sig.Results().Len() == 2 && tyName(sig.Results().At(0).Type()) == "types.Datum" && tyName(sig.Results().At(1).Type()) == "bool"
}

func (x *Exec) pullNext(st *State, f *Term, sig *types.Signature, n ast.Node, k func(*State, []*Term)) {
	ds := x.datumSort()
	declareFun("qn", "Int", "Int")
	declareFun("qat", ds, "Int", "Int")
	sc, pc := x.comp("PL.seq", arrSort("Int", "Int")), x.comp("PL.pos", arrSort("Int", "Int"))
	q := Select(x.heapGet(st, sc), f)
	p := Select(x.heapGet(st, pc), f)
	st.assume(Le(Num(0), mkTerm("qn", q)))
	more := Lt(p, mkTerm("qn", q))
	d := Ite(more, mkTerm("qat", q, p), x.prog.zero(sig.Results().At(0).Type()))
	x.heapSet(st, pc, f, Store(x.heapGet(st, pc), f, Ite(more, Add(p, Num(1)), p)))
	k(st, []*Term{d, more})
}

func (x *Exec) datumSort() string { return x.prog.sortOf(x.prog.goType("types.Datum")) }

func (x *Exec) yieldComps() (n, tr, stop string) {
	n = x.comp("Y.n", "Int")
	tr = x.comp("Y.tr", arrSort("Int", x.datumSort()))
	stop = x.comp("Y.stop", "Bool")
	return
}

// yield hands a value to the consumer of the sequence under verification, who may stop.
func (x *Exec) yield(fr *Frame, st *State, v *Term, n ast.Node, k func(*State, []*Term)) {
	cn, ctr, cs := x.yieldComps()
	x.oblige(st, Not(x.heapGet(st, cs)), "no value after the consumer stopped", x.pos(n), []string{"C05", "C18"})
	if x.fn != nil {
		for _, g := range x.fn.onYield {
			env := &Env{x: x, st: st, old: x.initState, names: map[string]TV{}, ctx: x.ctx, fr: fr, pos: n.Pos(), suffix: x.suffixOf(x.tenv)}
			for n, v := range x.rootNames {
				env.names[n] = v
			}
			env.names["$v"] = TV{v, x.prog.goType("types.Datum")}
			t := env.ev(g.e).t
			x.heapSet(st, "Y."+g.name, nil, t)
		}
	}
	i := x.heapGet(st, cn)
	x.heapSet(st, ctr, nil, Store(x.heapGet(st, ctr), i, v))
	x.heapSet(st, cn, nil, Add(i, Num(1)))
	more := fresh("more", "Bool")
	s2 := st.clone()
	x.heapSet(s2, cs, nil, tTrue)
	st.add(more, true)
	s2.add(Not(more), true)
	k(st, []*Term{tTrue})
	k(s2, []*Term{tFalse})
}
