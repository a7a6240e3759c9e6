package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
)

func (x *Exec) eval(fr *Frame, e ast.Expr, st *State, k func(*State, *Term)) {
	x.evalMulti(fr, e, st, func(st *State, vs []*Term) {
		if len(vs) != 1 {
			panic(unsupported(fmt.Sprintf("%d values at %s", len(vs), x.pos(e))))
		}
		k(st, vs[0])
	})
}

// evalC evaluates e and converts it implicitly to the type t.
func (x *Exec) evalC(fr *Frame, e ast.Expr, t types.Type, st *State, k func(*State, *Term)) {
	if isNilExpr(fr, e) && t != nil {
		k(st, x.prog.zero(t))
		return
	}
	if t == nil {
		x.eval(fr, e, st, k)
		return
	}
	if tv := fr.pkg.info.Types[e]; tv.Value != nil {
		ct := fr.subst(tv.Type)
		if b, ok := ct.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 && !isIface(t) {
			k(st, constTerm(tv.Value, t))
			return
		}
	}
	et := x.typeOf(fr, e)
	x.eval(fr, e, st, func(st *State, v *Term) { k(st, x.coerce(v, et, t)) })
}

func (x *Exec) evalListC(fr *Frame, es []ast.Expr, ty func(int) types.Type, st *State, k func(*State, []*Term)) {
	var rec func(i int, st *State, acc []*Term)
	rec = func(i int, st *State, acc []*Term) {
		if i == len(es) {
			k(st, acc)
			return
		}
		x.evalC(fr, es[i], ty(i), st, func(st *State, v *Term) {
			rec(i+1, st, append(append([]*Term{}, acc...), v))
		})
	}
	rec(0, st, nil)
}

func isNilExpr(fr *Frame, e ast.Expr) bool {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok || id.Name != "nil" {
		return false
	}
	_, isNil := fr.pkg.info.ObjectOf(id).(*types.Nil)
	return isNil
}

func (x *Exec) coerce(v *Term, from, to types.Type) *Term {
	if from == nil || to == nil {
		return v
	}
	if isIface(to) && !isIface(from) {
		if b, ok := from.(*types.Basic); ok && b.Kind() == types.UntypedNil {
			return Sym("VNil")
		}
		return x.box(v, from)
	}
	return v
}

var otherTags = map[string]int{}

func (x *Exec) box(v *Term, t types.Type) *Term {
	t = types.Unalias(t)
	n := tyName(t)
	if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		switch b.Kind() {
		case types.UntypedString:
			n = "string"
		}
	}
	switch c := ifaceCtor[n]; c {
	case "":
	case "VTxnID":
		return Sym("VTxnID")
	case "VLookup":
		s := x.prog.sortOf(t)
		return App("VLookup", App(fieldSel(s, "A"), v), App(fieldSel(s, "V"), v))
	default:
		return App(c, v)
	}
	tag, ok := otherTags[n]
	if !ok {
		tag = len(otherTags) + 1
		otherTags[n] = tag
	}
	if sortOfTerm(v) != "Int" {
		v = fresh("boxed", "Int")
	}
	return App("VOther", Num(int64(tag)), v)
}

func (x *Exec) unbox(v *Term, t types.Type) *Term {
	t = types.Unalias(t)
	n := tyName(t)
	switch c := ifaceCtor[n]; c {
	case "":
	case "VTxnID":
		return Num(0)
	case "VLookup":
		s := x.prog.sortOf(t)
		return App(structCtorName(s), App("v_la", v), App("v_lv", v))
	default:
		return App(ctors[c].fields[0].sel, v)
	}
	if x.prog.sortOf(t) == "Int" {
		return App("v_oid", v)
	}
	panic(unsupported("assertion to " + n))
}

func (x *Exec) typeTest(v *Term, t types.Type) *Term {
	t = types.Unalias(t)
	if isIface(t) {
		it := t.Underlying().(*types.Interface)
		if it.NumMethods() == 0 {
			return Not(App("is-VNil", v))
		}
		return x.implTest(v, t)
	}
	n := tyName(t)
	if c := ifaceCtor[n]; c != "" {
		return App("is-"+c, v)
	}
	tag, ok := otherTags[n]
	if !ok {
		tag = len(otherTags) + 1
		otherTags[n] = tag
	}
	return And(App("is-VOther", v), Eq(App("v_tag", v), Num(int64(tag))))
}

// goEq is Go's == on the operand types.
func (x *Exec) goEq(a *Term, ta types.Type, b *Term, tb types.Type) *Term {
	if isIface(ta) && !isIface(tb) {
		b = x.coerce(b, tb, ta)
		tb = ta
	} else if isIface(tb) && !isIface(ta) {
		a = x.coerce(a, ta, tb)
		ta = tb
	}
	if isIface(ta) {
		// Interfaces are equal when their dynamic types and values are; a nan equals nothing.
		if isCtorTerm(a) != nil && len(a.args) == 0 || isCtorTerm(b) != nil && len(b.args) == 0 {
			return Eq(a, b)
		}
		return And(Eq(a, b), Not(And(App("is-VFloat", a), Eq(App("v_flt", a), Sym("0.0")))))
	}
	if bt, ok := ta.Underlying().(*types.Basic); ok && bt.Info()&types.IsFloat != 0 {
		return And(Eq(a, b), Not(Eq(a, Sym("0.0"))))
	}
	return Eq(a, b)
}

func (x *Exec) arith(op token.Token, l, r *Term, t types.Type) *Term {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
		switch op {
		case token.ADD:
			return Add(l, r)
		case token.SUB:
			return Sub(l, r)
		case token.MUL:
			return mkTerm("*", l, r)
		case token.QUO, token.REM:
			// Go's division is towards zero.
			if n, ok := numVal(r); ok && n.Sign() > 0 {
				fn := map[token.Token]string{token.QUO: "div", token.REM: "mod"}[op]
				if b.Info()&types.IsUnsigned != 0 {
					return mkTerm(fn, l, r)
				}
				return Ite(Le(Num(0), l), mkTerm(fn, l, r), Sub(Num(0), mkTerm(fn, Sub(Num(0), l), r)))
			}
		}
	} else if ok && b.Info()&types.IsString != 0 && op == token.ADD {
		declareFun("strcat", "Real", "Real", "Real")
		return mkTerm("strcat", l, r)
	}
	panic(unsupported("operator " + op.String() + " on " + tyName(t)))
}

func (x *Exec) evalMulti(fr *Frame, e ast.Expr, st *State, k func(*State, []*Term)) {
	x.evalMultiT(fr, e, st, func(st *State, vs []*Term, _ []types.Type) { k(st, vs) })
}

func sameHeap(a, b *State) bool {
	if len(a.heap) < len(b.heap) {
		return false
	}
	for k, v := range a.heap {
		if w := b.heap[k]; w != nil {
			if w != v {
				return false
			}
		} else if v.op != "H0."+sanitize(k) {
			return false
		}
	}
	for k, v := range b.vars {
		if a.vars[k] != v {
			return false
		}
	}
	return true
}

// factsSince lists the facts added to st after base.
func factsSince(st *State, base *Fact) []*Fact {
	var out []*Fact
	for f := st.pc; f != base && f != nil; f = f.prev {
		out = append(out, f)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

type outcome struct {
	st *State
	vs []*Term
}

// summarise merges the outcomes of a side-effect free computation into one.
func summarise(base *State, outs []outcome) ([]*Term, []*Term, bool) {
	if len(outs) == 0 {
		return nil, nil, false
	}
	var facts []*Term
	conds := make([]*Term, len(outs))
	for i, o := range outs {
		if !sameHeap(o.st, base) {
			return nil, nil, false
		}
		c := tTrue
		for _, f := range factsSince(o.st, base.pc) {
			if f.branch {
				c = And(c, f.t)
			} else {
				facts = append(facts, Implies(c, f.t))
			}
		}
		conds[i] = c
	}
	n := len(outs[0].vs)
	res := make([]*Term, n)
	for j := 0; j < n; j++ {
		t := outs[len(outs)-1].vs[j]
		for i := len(outs) - 2; i >= 0; i-- {
			t = Ite(conds[i], outs[i].vs[j], t)
		}
		res[j] = t
	}
	if len(outs) == 1 {
		facts = append(facts, conds[0])
	}
	return res, facts, true
}

// pure runs f from st and, when it has no side effect, continues once with the merged
// result, and otherwise once for each outcome.
func (x *Exec) pure(st *State, f func(*State, func(*State, []*Term)), k func(*State, []*Term)) {
	base := st.clone()
	var outs []outcome
	f(st.clone(), func(s *State, vs []*Term) { outs = append(outs, outcome{s, vs}) })
	if len(outs) == 0 {
		return
	}
	if len(outs) == 1 {
		k(outs[0].st, outs[0].vs)
		return
	}
	if vs, facts, ok := summarise(base, outs); ok {
		for _, t := range facts {
			base.assume(t)
		}
		k(base, vs)
		return
	}
	for _, o := range outs {
		k(o.st, o.vs)
	}
}

func (x *Exec) evalMultiT(fr *Frame, e ast.Expr, st *State, k func(*State, []*Term, []types.Type)) {
	one := func(st *State, t *Term) { k(st, []*Term{t}, []types.Type{x.typeOf(fr, e)}) }
	if tv, ok := fr.pkg.info.Types[e]; ok && tv.Value != nil {
		t := fr.subst(tv.Type)
		if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			t = types.Default(t)
		}
		one(st, constTerm(tv.Value, t))
		return
	}
	switch e := e.(type) {
	case *ast.ParenExpr:
		x.evalMultiT(fr, e.X, st, k)
	case *ast.Ident:
		switch o := fr.pkg.info.ObjectOf(e).(type) {
		case *types.Var:
			one(st, x.readVar(fr, st, o))
		case *types.Func:
			one(st, x.funcValue(fr, o, e, nil, nil))
		case *types.Nil:
			one(st, Sym("VNil"))
		default:
			panic(unsupported("identifier " + e.Name))
		}
	case *ast.FuncLit:
		one(st, x.closure(fr, st, e))
	case *ast.SelectorExpr:
		x.selector(fr, e, st, one)
	case *ast.StarExpr:
		x.eval(fr, e.X, st, func(st *State, p *Term) {
			x.nonNil(st, p, e)
			one(st, x.loadPtr(st, p, x.typeOf(fr, e)))
		})
	case *ast.UnaryExpr:
		x.unary(fr, e, st, one)
	case *ast.BinaryExpr:
		x.binary(fr, e, st, one)
	case *ast.CompositeLit:
		x.composite(fr, e, x.typeOf(fr, e), st, one)
	case *ast.IndexExpr:
		if tv := fr.pkg.info.Types[e.X]; tv.Type != nil {
			if _, ok := tv.Type.Underlying().(*types.Signature); ok {
				x.instFunc(fr, e.X, e, st, one)
				return
			}
		}
		xt := x.typeOf(fr, e.X)
		switch u := xt.Underlying().(type) {
		case *types.Map:
			x.eval(fr, e.X, st, func(st *State, m *Term) {
				x.evalC(fr, e.Index, u.Key(), st, func(st *State, key *Term) {
					x.guardMap(st, m, xt, false, e)
					v, has := x.mapLoad(st, m, key, xt)
					if tv := fr.pkg.info.Types[e]; tv.Type != nil {
						if _, ok := tv.Type.(*types.Tuple); ok {
							k(st, []*Term{v, has}, []types.Type{u.Elem(), types.Typ[types.Bool]})
							return
						}
					}
					k(st, []*Term{v}, []types.Type{u.Elem()})
				})
			})
		case *types.Slice:
			x.eval(fr, e.X, st, func(st *State, s *Term) {
				x.eval(fr, e.Index, st, func(st *State, i *Term) {
					x.inBounds(st, s, i, e)
					one(st, x.sliceLoad(st, s, i, u.Elem()))
				})
			})
		default:
			panic(unsupported("index of " + tyName(xt)))
		}
	case *ast.TypeAssertExpr:
		t := x.typeOf(fr, e.Type)
		x.eval(fr, e.X, st, func(st *State, v *Term) {
			c := x.typeTest(v, t)
			val := func() *Term {
				if isIface(t) {
					return v
				}
				return x.unbox(v, t)
			}
			if tv := fr.pkg.info.Types[e]; tv.Type != nil {
				if _, ok := tv.Type.(*types.Tuple); ok {
					k(st, []*Term{Ite(c, val(), x.prog.zero(t)), c}, []types.Type{t, types.Typ[types.Bool]})
					return
				}
			}
			x.oblige(st, c, "type assertion holds", x.pos(e), tagPanic)
			k(st, []*Term{val()}, []types.Type{t})
		})
	case *ast.SliceExpr:
		x.sliceExpr(fr, e, st, one)
	case *ast.CallExpr:
		x.call(fr, e, st, k)
	default:
		panic(unsupported(fmt.Sprintf("expression %T at %s", e, x.pos(e))))
	}
}

func (x *Exec) sliceLoad(st *State, s, i *Term, elem types.Type) *Term {
	v := Select(Select(x.heapGet(st, x.sliceComp(elem)), App("sl_arr", s)), Add(App("sl_off", s), i))
	x.assumeLoaded(st, v, elem)
	return v
}

func (x *Exec) sliceExpr(fr *Frame, e *ast.SliceExpr, st *State, k func(*State, *Term)) {
	xt := x.typeOf(fr, e.X)
	if _, ok := xt.Underlying().(*types.Slice); !ok {
		panic(unsupported("slice of " + tyName(xt)))
	}
	x.eval(fr, e.X, st, func(st *State, s *Term) {
		get := func(ex ast.Expr, def *Term, st *State, k func(*State, *Term)) {
			if ex == nil {
				k(st, def)
				return
			}
			x.eval(fr, ex, st, k)
		}
		get(e.Low, Num(0), st, func(st *State, lo *Term) {
			get(e.High, App("sl_len", s), st, func(st *State, hi *Term) {
				get(e.Max, App("sl_cap", s), st, func(st *State, mx *Term) {
					x.oblige(st, And(Le(Num(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, App("sl_cap", s))), "slice bounds in range", x.pos(e), tagPanic)
					k(st, App("mkSlice", App("sl_arr", s), Add(App("sl_off", s), lo), Sub(hi, lo), Sub(mx, lo)))
				})
			})
		})
	})
}

func (x *Exec) unary(fr *Frame, e *ast.UnaryExpr, st *State, k func(*State, *Term)) {
	switch e.Op {
	case token.NOT:
		x.eval(fr, e.X, st, func(st *State, v *Term) { k(st, Not(v)) })
	case token.SUB:
		x.eval(fr, e.X, st, func(st *State, v *Term) {
			if sortOfTerm(v) == "Int" {
				k(st, Sub(Num(0), v))
				return
			}
			panic(unsupported("negation"))
		})
	case token.AND:
		switch t := ast.Unparen(e.X).(type) {
		case *ast.CompositeLit:
			ty := x.typeOf(fr, t)
			x.composite(fr, t, ty, st, func(st *State, v *Term) {
				r := x.alloc(st)
				x.storePtr(st, r, ty, v)
				k(st, r)
			})
		case *ast.Ident:
			o := fr.pkg.info.ObjectOf(t)
			key, ok := x.lookup(fr, st, o)
			if !ok || !x.boxedVar(fr, o) {
				panic(unsupported("address of " + t.Name))
			}
			k(st, st.vars[key])
		default:
			panic(unsupported("address-of at " + x.pos(e)))
		}
	default:
		panic(unsupported("operator " + e.Op.String()))
	}
}

func (x *Exec) binary(fr *Frame, e *ast.BinaryExpr, st *State, k func(*State, *Term)) {
	switch e.Op {
	case token.LAND, token.LOR:
		x.eval(fr, e.X, st, func(st *State, l *Term) {
			if l == tTrue || l == tFalse {
				if (l == tTrue) == (e.Op == token.LAND) {
					x.eval(fr, e.Y, st, k)
				} else {
					k(st, l)
				}
				return
			}
			g := l
			if e.Op == token.LOR {
				g = Not(l)
			}
			s2 := st.clone()
			s2.add(g, true)
			base2 := s2.clone()
			var outs []outcome
			x.eval(fr, e.Y, s2, func(s *State, v *Term) { outs = append(outs, outcome{s, []*Term{v}}) })
			if len(outs) == 0 {
				st.assume(Not(g))
				k(st, l)
				return
			}
			if vs, facts, ok := summarise(base2, outs); ok {
				for _, f := range facts {
					st.assume(Implies(g, f))
				}
				if e.Op == token.LAND {
					k(st, And(l, vs[0]))
				} else {
					k(st, Or(l, vs[0]))
				}
				return
			}
			for _, o := range outs {
				k(o.st, o.vs[0])
			}
			st.add(Not(g), true)
			if x.feasible(st) {
				k(st, l)
			}
		})
		return
	}
	lt, rt := x.typeOf(fr, e.X), x.typeOf(fr, e.Y)
	switch e.Op {
	case token.EQL, token.NEQ:
		fin := func(st *State, c *Term) {
			if e.Op == token.NEQ {
				c = Not(c)
			}
			k(st, c)
		}
		if isNilExpr(fr, e.Y) || isNilExpr(fr, e.X) {
			ex, t := e.X, lt
			if isNilExpr(fr, e.X) {
				ex, t = e.Y, rt
			}
			x.eval(fr, ex, st, func(st *State, v *Term) {
				switch {
				case isIface(t):
					fin(st, Eq(v, Sym("VNil")))
				case x.prog.sortOf(t) == "Slice":
					fin(st, Eq(App("sl_arr", v), Num(0)))
				case x.closures[v] != nil:
					fin(st, tFalse)
				default:
					fin(st, Eq(v, Num(0)))
				}
			})
			return
		}
		x.evalPair(fr, e.X, e.Y, st, func(st *State, l, r *Term) {
			fin(st, x.goEq(l, x.operandType(lt, rt), r, x.operandType(rt, lt)))
		})
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		x.evalPair(fr, e.X, e.Y, st, func(st *State, l, r *Term) {
			var c *Term
			switch e.Op {
			case token.LSS:
				c = Lt(l, r)
			case token.LEQ:
				c = Le(l, r)
			case token.GTR:
				c = Lt(r, l)
			case token.GEQ:
				c = Le(r, l)
			}
			if b, ok := lt.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
				// A nan is neither less nor greater than anything.
				c = And(c, Not(Eq(l, Sym("0.0"))), Not(Eq(r, Sym("0.0"))))
			}
			k(st, c)
		})
	default:
		x.evalPair(fr, e.X, e.Y, st, func(st *State, l, r *Term) {
			k(st, x.arith(e.Op, l, r, x.operandType(lt, rt)))
		})
	}
}

func (x *Exec) operandType(a, b types.Type) types.Type {
	if t, ok := a.(*types.Basic); ok && t.Info()&types.IsUntyped != 0 {
		if u, ok := b.(*types.Basic); ok && u.Info()&types.IsUntyped != 0 {
			return types.Default(a)
		}
		return b
	}
	return a
}

func (x *Exec) evalPair(fr *Frame, a, b ast.Expr, st *State, k func(*State, *Term, *Term)) {
	ta, tb := x.operandType(x.typeOf(fr, a), x.typeOf(fr, b)), x.operandType(x.typeOf(fr, b), x.typeOf(fr, a))
	if isIface(ta) != isIface(tb) {
		ta, tb = nil, nil
	}
	x.evalC(fr, a, ta, st, func(st *State, l *Term) {
		x.evalC(fr, b, tb, st, func(st *State, r *Term) { k(st, l, r) })
	})
}

func (x *Exec) composite(fr *Frame, e *ast.CompositeLit, t types.Type, st *State, k func(*State, *Term)) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if u.NumFields() == 0 {
			k(st, Num(0))
			return
		}
		s, _ := x.structOf(t)
		if s == "" {
			panic(unsupported("composite literal of " + tyName(t)))
		}
		vals := make([]*Term, u.NumFields())
		var idx []int
		var exprs []ast.Expr
		for i, el := range e.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				n := kv.Key.(*ast.Ident).Name
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == n {
						idx = append(idx, j)
					}
				}
				exprs = append(exprs, kv.Value)
			} else {
				idx = append(idx, i)
				exprs = append(exprs, el)
			}
		}
		x.evalListC(fr, exprs, func(i int) types.Type { return u.Field(idx[i]).Type() }, st, func(st *State, ts []*Term) {
			for i := range vals {
				vals[i] = nil
			}
			for i, j := range idx {
				vals[j] = ts[i]
			}
			for i := range vals {
				if vals[i] == nil {
					vals[i] = x.prog.zero(u.Field(i).Type())
				}
			}
			k(st, App(structCtorName(s), vals...))
		})
	case *types.Slice:
		for _, el := range e.Elts {
			if _, ok := el.(*ast.KeyValueExpr); ok {
				panic(unsupported("keyed slice literal"))
			}
		}
		x.evalElems(fr, e.Elts, u.Elem(), st, func(st *State, ts []*Term) {
			k(st, x.newSlice(st, u.Elem(), ts))
		})
	case *types.Map:
		m := x.newMap(st, t)
		var rec func(i int, st *State)
		rec = func(i int, st *State) {
			if i == len(e.Elts) {
				k(st, m)
				return
			}
			kv := e.Elts[i].(*ast.KeyValueExpr)
			x.evalElem(fr, kv.Key, u.Key(), st, func(st *State, key *Term) {
				x.evalElem(fr, kv.Value, u.Elem(), st, func(st *State, v *Term) {
					x.mapStore(st, m, key, v, t)
					rec(i+1, st)
				})
			})
		}
		rec(0, st)
	default:
		panic(unsupported("composite literal of " + tyName(t)))
	}
}

func (x *Exec) evalElem(fr *Frame, e ast.Expr, t types.Type, st *State, k func(*State, *Term)) {
	if cl, ok := e.(*ast.CompositeLit); ok && cl.Type == nil {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			x.composite(fr, cl, p.Elem(), st, func(st *State, v *Term) {
				r := x.alloc(st)
				x.storePtr(st, r, p.Elem(), v)
				k(st, r)
			})
			return
		}
		x.composite(fr, cl, t, st, k)
		return
	}
	x.evalC(fr, e, t, st, k)
}

func (x *Exec) evalElems(fr *Frame, es []ast.Expr, t types.Type, st *State, k func(*State, []*Term)) {
	var rec func(i int, st *State, acc []*Term)
	rec = func(i int, st *State, acc []*Term) {
		if i == len(es) {
			k(st, acc)
			return
		}
		x.evalElem(fr, es[i], t, st, func(st *State, v *Term) { rec(i+1, st, append(append([]*Term{}, acc...), v)) })
	}
	rec(0, st, nil)
}

func (x *Exec) newSlice(st *State, elem types.Type, ts []*Term) *Term {
	c := x.sliceComp(elem)
	r := x.alloc(st)
	arr := ConstArr(arrSort("Int", x.prog.sortOf(elem)), x.prog.zero(elem))
	for i, t := range ts {
		arr = Store(arr, Num(int64(i)), t)
	}
	x.heapSet(st, c, r, Store(x.heapGet(st, c), r, arr))
	n := Num(int64(len(ts)))
	return App("mkSlice", r, Num(0), n, n)
}

func (x *Exec) selector(fr *Frame, e *ast.SelectorExpr, st *State, k func(*State, *Term)) {
	sel := fr.pkg.info.Selections[e]
	if sel == nil {
		switch o := fr.pkg.info.ObjectOf(e.Sel).(type) {
		case *types.Var:
			k(st, x.global(st, o))
		case *types.Func:
			k(st, x.funcValue(fr, o, e.Sel, nil, nil))
		default:
			panic(unsupported("selector " + e.Sel.Name))
		}
		return
	}
	switch sel.Kind() {
	case types.FieldVal:
		if len(sel.Index()) != 1 {
			panic(unsupported("promoted field " + e.Sel.Name))
		}
		xt := x.typeOf(fr, e.X)
		f := sel.Obj().(*types.Var)
		if pt, ok := xt.Underlying().(*types.Pointer); ok {
			x.eval(fr, e.X, st, func(st *State, p *Term) {
				x.nonNil(st, p, e)
				s, _ := x.structOf(pt.Elem())
				x.guardField(st, p, pt.Elem(), f.Name(), false, e)
				k(st, x.loadField(st, p, s, pt.Elem(), f))
			})
			return
		}
		// Read a field of an addressable boxed variable without loading the whole.
		if id, ok := ast.Unparen(e.X).(*ast.Ident); ok {
			if o, ok := fr.pkg.info.ObjectOf(id).(*types.Var); ok {
				if key, ok := x.lookup(fr, st, o); ok && x.boxedVar(fr, o) {
					s, _ := x.structOf(xt)
					k(st, x.loadField(st, st.vars[key], s, xt, f))
					return
				}
			}
		}
		x.eval(fr, e.X, st, func(st *State, v *Term) {
			s, _ := x.structOf(xt)
			k(st, App(fieldSel(s, f.Name()), v))
		})
	case types.MethodVal:
		f := sel.Obj().(*types.Func)
		xt := x.typeOf(fr, e.X)
		x.eval(fr, e.X, st, func(st *State, v *Term) {
			k(st, x.funcValue(fr, f, e.Sel, v, xt))
		})
	default:
		panic(unsupported("method expression"))
	}
}
