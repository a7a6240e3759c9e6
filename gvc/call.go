package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// closure makes the value of a function literal. A literal that only reads variables
// which are never reassigned is identified with its captured values, so that evaluating
// it twice on the same values gives the same function.
func (x *Exec) closure(fr *Frame, st *State, lit *ast.FuncLit) *Term {
	sig := fr.subst(fr.pkg.info.Types[lit].Type).(*types.Signature)
	caps, pureCaps := x.captures(fr, st, lit)
	var t *Term
	if pureCaps {
		name := fmt.Sprintf("clo.%s.%d", sanitize(fr.name), x.prog.fset.Position(lit.Pos()).Offset)
		var args []*Term
		var sorts []string
		for _, o := range caps {
			v := x.readVar(fr, st, o)
			args = append(args, v)
			sorts = append(sorts, sortOfTerm(v))
		}
		name += "." + strings.Join(sorts, ".")
		declareFun(sanitize(name), "Int", sorts...)
		t = mkTerm(sanitize(name), args...)
	} else {
		x.nclo++
		t = fresh("clo", "Int")
	}
	if x.closures[t] == nil {
		x.closures[t] = &Closure{lit: lit, fr: fr, sig: sig}
		x.facts0 = append(x.facts0, Lt(Num(0), t))
	}
	return t
}

// captures lists the variables of enclosing frames the literal uses, and whether none of
// them is reassigned after its definition.
func (x *Exec) captures(fr *Frame, st *State, lit *ast.FuncLit) ([]types.Object, bool) {
	seen := map[types.Object]bool{}
	var out []types.Object
	ok := true
	ast.Inspect(lit.Body, func(n ast.Node) bool {
		id, isID := n.(*ast.Ident)
		if !isID {
			return true
		}
		o, isVar := fr.pkg.info.Uses[id].(*types.Var)
		if !isVar || o.IsField() || seen[o] {
			return true
		}
		if o.Pos() >= lit.Pos() && o.Pos() < lit.End() {
			return true
		}
		if _, found := x.lookup(fr, st, o); !found {
			return true
		}
		seen[o] = true
		out = append(out, o)
		if x.boxedVar(fr, o) || x.reassigned(fr, o) {
			ok = false
		}
		return true
	})
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out, ok
}

var reassignedMemo = map[types.Object]int{}

// reassigned reports whether the variable is assigned anywhere but at its definition.
func (x *Exec) reassigned(fr *Frame, o types.Object) bool {
	if v, ok := reassignedMemo[o]; ok {
		return v == 1
	}
	res := 0
	for _, f := range fr.pkg.files {
		if o.Pos() < f.Pos() || o.Pos() >= f.End() {
			continue
		}
		ast.Inspect(f, func(n ast.Node) bool {
			mark := func(e ast.Expr) {
				for {
					switch t := ast.Unparen(e).(type) {
					case *ast.SelectorExpr:
						if _, ok := fr.pkg.info.Types[t.X]; ok {
							if tv := fr.pkg.info.Types[t.X]; tv.Type != nil {
								if _, isPtr := tv.Type.Underlying().(*types.Pointer); isPtr {
									return
								}
							}
						}
						e = t.X
						continue
					case *ast.Ident:
						if fr.pkg.info.Uses[t] == o {
							res = 1
						}
					}
					return
				}
			}
			switch n := n.(type) {
			case *ast.AssignStmt:
				for _, l := range n.Lhs {
					mark(l)
				}
			case *ast.IncDecStmt:
				mark(n.X)
			case *ast.RangeStmt:
				if n.Tok == token.ASSIGN {
					if n.Key != nil {
						mark(n.Key)
					}
					if n.Value != nil {
						mark(n.Value)
					}
				}
			}
			return true
		})
	}
	reassignedMemo[o] = res
	return res == 1
}

// funcValue makes the value of a declared function, instantiated function or bound method.
func (x *Exec) funcValue(fr *Frame, f *types.Func, id *ast.Ident, recv *Term, recvTy types.Type) *Term {
	tenv := map[*types.TypeParam]types.Type{}
	orig := f.Origin()
	osig := orig.Type().(*types.Signature)
	suffix := ""
	if inst, ok := fr.pkg.info.Instances[id]; ok {
		for i := 0; i < inst.TypeArgs.Len(); i++ {
			a := fr.subst(inst.TypeArgs.At(i))
			tenv[osig.TypeParams().At(i)] = a
			suffix += "." + sanitize(tyName(a))
		}
	}
	fd := x.prog.funcs[orig]
	name := "fn." + sanitize(funcName(orig)) + suffix
	var t *Term
	if recv != nil {
		declareFun(name, "Int", sortOfTerm(recv))
		t = mkTerm(name, recv)
	} else {
		declareFun(name, "Int")
		t = Sym(name)
	}
	for _, fc := range x.spec.fnconst {
		if fc[1] == funcName(orig) && recv == nil {
			x.facts0 = appendNew(x.facts0, Eq(mkTerm(fc[0], t), Sym(fc[2])))
		}
	}
	if x.closures[t] == nil {
		x.closures[t] = &Closure{fd: fd, tenv: tenv, recv: recv, recvTy: recvTy, sig: substType(osig, tenv).(*types.Signature)}
		x.facts0 = append(x.facts0, Lt(Num(0), t))
	}
	return t
}

func (x *Exec) instFunc(fr *Frame, fe ast.Expr, whole *ast.IndexExpr, st *State, k func(*State, *Term)) {
	var id *ast.Ident
	switch t := fe.(type) {
	case *ast.Ident:
		id = t
	case *ast.SelectorExpr:
		id = t.Sel
	}
	f := fr.pkg.info.ObjectOf(id).(*types.Func)
	k(st, x.funcValue(fr, f, id, nil, nil))
}

// call evaluates a call expression.
func (x *Exec) call(fr *Frame, e *ast.CallExpr, st *State, k func(*State, []*Term, []types.Type)) {
	// conversion
	if tv, ok := fr.pkg.info.Types[e.Fun]; ok && tv.IsType() {
		t := fr.subst(tv.Type)
		if isNilExpr(fr, e.Args[0]) {
			k(st, []*Term{x.prog.zero(t)}, []types.Type{t})
			return
		}
		at := x.typeOf(fr, e.Args[0])
		x.eval(fr, e.Args[0], st, func(st *State, v *Term) {
			k(st, []*Term{x.convert(v, at, t)}, []types.Type{t})
		})
		return
	}
	var rts []types.Type
	switch rt := x.typeOfCall(fr, e).(type) {
	case nil:
	case *types.Tuple:
		for i := 0; i < rt.Len(); i++ {
			rts = append(rts, rt.At(i).Type())
		}
	default:
		rts = []types.Type{rt}
	}
	if x.intrinsic(fr, e, st, func(st *State, vs []*Term) { k(st, vs, rts) }) {
		return
	}
	x.prepCall(fr, e, st, func(st *State, run func(*State, func(*State, []*Term))) {
		run(st, func(st *State, vs []*Term) { k(st, vs, rts) })
	})
}

func (x *Exec) typeOfCall(fr *Frame, e *ast.CallExpr) types.Type {
	tv, ok := fr.pkg.info.Types[e]
	if !ok || tv.Type == nil || tv.IsVoid() {
		return nil
	}
	return fr.subst(tv.Type)
}

func (x *Exec) convert(v *Term, from, to types.Type) *Term {
	if isIface(to) {
		return x.coerce(v, from, to)
	}
	fs, ts := x.prog.sortOf(from), x.prog.sortOf(to)
	if fs != ts {
		panic(unsupported("conversion from " + tyName(from) + " to " + tyName(to)))
	}
	if fs == "Real" {
		ff, tf := isFloatT(from), isFloatT(to)
		if ff != tf {
			panic(unsupported("conversion from " + tyName(from) + " to " + tyName(to)))
		}
	}
	if fs == "Int" {
		fb, ok1 := from.Underlying().(*types.Basic)
		tb, ok2 := to.Underlying().(*types.Basic)
		if ok1 && ok2 && fb.Kind() != tb.Kind() {
			// An int conversion that may wrap.
			fu, tu := fb.Info()&types.IsUnsigned != 0, tb.Info()&types.IsUnsigned != 0
			if !fu && tu || x.intSize(fb) > x.intSize(tb) || fu && !tu {
				if _, isLit := numVal(v); !isLit {
					n := "conv." + fb.Name() + "." + tb.Name()
					declareFun(n, "Int", "Int")
					r := mkTerm(n, v)
					x.facts0 = append(x.facts0, x.prog.valueFacts(r, to))
					return r
				}
			}
		}
	}
	return v
}

func isFloatT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func (x *Exec) intSize(b *types.Basic) int {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 1
	case types.Int16, types.Uint16:
		return 2
	case types.Int32, types.Uint32:
		return 4
	}
	return 8
}

// calleeOf resolves a static callee.
func (x *Exec) calleeOf(fr *Frame, fun ast.Expr) (f *types.Func, id *ast.Ident, recv ast.Expr) {
	switch t := ast.Unparen(fun).(type) {
	case *ast.Ident:
		f, _ = fr.pkg.info.ObjectOf(t).(*types.Func)
		return f, t, nil
	case *ast.SelectorExpr:
		f, _ = fr.pkg.info.ObjectOf(t.Sel).(*types.Func)
		if f != nil && fr.pkg.info.Selections[t] != nil {
			return f, t.Sel, t.X
		}
		return f, t.Sel, nil
	case *ast.IndexExpr:
		return x.calleeOf(fr, t.X)
	}
	return nil, nil, nil
}

// prepCall evaluates the callee and the arguments, and hands over the rest of the call.
func (x *Exec) prepCall(fr *Frame, e *ast.CallExpr, st *State, k func(*State, func(*State, func(*State, []*Term)))) {
	f, id, recvE := x.calleeOf(fr, e.Fun)
	if f == nil {
		ft := x.typeOf(fr, e.Fun)
		sig := ft.Underlying().(*types.Signature)
		x.eval(fr, e.Fun, st, func(st *State, fv *Term) {
			x.args(fr, e, sig, st, func(st *State, as []*Term) {
				k(st, func(st *State, k2 func(*State, []*Term)) {
					x.callValue(fr, fv, sig, as, st, e, k2)
				})
			})
		})
		return
	}
	orig := f.Origin()
	osig := orig.Type().(*types.Signature)
	tenv := map[*types.TypeParam]types.Type{}
	if inst, ok := fr.pkg.info.Instances[id]; ok {
		for i := 0; i < inst.TypeArgs.Len(); i++ {
			tenv[osig.TypeParams().At(i)] = fr.subst(inst.TypeArgs.At(i))
		}
	}
	if recvE == nil {
		sig := substType(osig, tenv).(*types.Signature)
		x.args(fr, e, sig, st, func(st *State, as []*Term) {
			k(st, func(st *State, k2 func(*State, []*Term)) {
				x.callFunc(orig, tenv, nil, nil, as, st, e, k2)
			})
		})
		return
	}
	rt := x.typeOf(fr, recvE)
	fin := func(st *State, r *Term) {
		named := rt
		if p, ok := rt.(*types.Pointer); ok {
			named = p.Elem()
		}
		if n, ok := types.Unalias(named).(*types.Named); ok && n.TypeArgs() != nil {
			for i := 0; i < n.TypeArgs().Len() && osig.RecvTypeParams() != nil && i < osig.RecvTypeParams().Len(); i++ {
				tenv[osig.RecvTypeParams().At(i)] = n.TypeArgs().At(i)
			}
			if osig.RecvTypeParams() == nil || osig.RecvTypeParams().Len() == 0 {
				// an interface method: its signature mentions the interface's parameters
				tp := n.Origin().TypeParams()
				for i := 0; i < tp.Len(); i++ {
					tenv[tp.At(i)] = n.TypeArgs().At(i)
				}
			}
		}
		sig := substType(types.NewSignatureType(nil, nil, nil, osig.Params(), osig.Results(), osig.Variadic()), tenv).(*types.Signature)
		x.args(fr, e, sig, st, func(st *State, as []*Term) {
			k(st, func(st *State, k2 func(*State, []*Term)) {
				x.callFunc(orig, tenv, r, rt, as, st, e, k2)
			})
		})
	}
	// A pointer-receiver method on an addressable variable takes its address.
	_, ptrRecv := osig.Recv().Type().(*types.Pointer)
	_, isPtr := rt.Underlying().(*types.Pointer)
	if ptrRecv && !isPtr && !isIfaceAny(rt) {
		id, ok := ast.Unparen(recvE).(*ast.Ident)
		if ok {
			o := fr.pkg.info.ObjectOf(id)
			if key, found := x.lookup(fr, st, o); found && x.boxedVar(fr, o) {
				rt = types.NewPointer(rt)
				fin(st, st.vars[key])
				return
			}
		}
		panic(unsupported("address of receiver at " + x.pos(e)))
	}
	x.eval(fr, recvE, st, func(st *State, r *Term) {
		if !ptrRecv && isPtr {
			x.nonNil(st, r, e)
			el := rt.Underlying().(*types.Pointer).Elem()
			r = x.loadPtr(st, r, el)
			rt = el
		}
		fin(st, r)
	})
}

func isIfaceAny(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func (x *Exec) args(fr *Frame, e *ast.CallExpr, sig *types.Signature, st *State, k func(*State, []*Term)) {
	np := sig.Params().Len()
	if len(e.Args) == 1 && np > 1 {
		x.evalMultiT(fr, e.Args[0], st, func(st *State, vs []*Term, ts []types.Type) {
			for i := range vs {
				vs[i] = x.coerce(vs[i], ts[i], sig.Params().At(i).Type())
			}
			k(st, vs)
		})
		return
	}
	if !sig.Variadic() || e.Ellipsis.IsValid() {
		x.evalListC(fr, e.Args, func(i int) types.Type { return sig.Params().At(i).Type() }, st, k)
		return
	}
	el := sig.Params().At(np - 1).Type().(*types.Slice).Elem()
	x.evalListC(fr, e.Args, func(i int) types.Type {
		if i < np-1 {
			return sig.Params().At(i).Type()
		}
		return el
	}, st, func(st *State, ts []*Term) {
		fixed := append([]*Term{}, ts[:np-1]...)
		if len(ts) == np-1 {
			k(st, append(fixed, x.prog.zero(types.NewSlice(el))))
			return
		}
		k(st, append(fixed, x.newSlice(st, el, ts[np-1:])))
	})
}

// callValue calls a function value.
func (x *Exec) callValue(fr *Frame, f *Term, sig *types.Signature, as []*Term, st *State, n ast.Node, k func(*State, []*Term)) {
	if f.op == "ite" {
		x.branch(st, f.args[0], func(st *State) { x.callValue(fr, f.args[1], sig, as, st, n, k) },
			func(st *State) { x.callValue(fr, f.args[2], sig, as, st, n, k) })
		return
	}
	if f.op == "yield!" {
		x.yield(fr, st, as[0], n, k)
		return
	}
	if isPullSig(sig) {
		x.pullNext(st, f, sig, n, k)
		return
	}
	c := x.closures[f]
	if c == nil {
		x.applyUnknown(f, sig, as, st, n, k)
		return
	}
	x.applyClosure(c, as, st, n, k)
}

func (x *Exec) applyClosure(c *Closure, as []*Term, st *State, n ast.Node, k func(*State, []*Term)) {
	if c.lit != nil {
		x.pure(st, func(st *State, k func(*State, []*Term)) {
			x.callLit(c.fr, c.lit, c.sig, as, st, k)
		}, k)
		return
	}
	if c.fd == nil {
		panic(unsupported("call of an external function value at " + x.pos(n)))
	}
	x.callFunc(c.fd.obj, c.tenv, c.recv, c.recvTy, as, st, n, k)
}

// applyUnknown calls an unknown function value, which is assumed to be a total, side
// effect free function of its arguments (comparers, valuers and lessers given by
// callers, who prove it of the functions they give).
func (x *Exec) applyUnknown(f *Term, sig *types.Signature, as []*Term, st *State, n ast.Node, k func(*State, []*Term)) {
	x.oblige(st, Not(Eq(f, Num(0))), "no nil function call", x.pos(n), tagPanic)
	if sig.Results().Len() != 1 {
		panic(unsupported("call of an unknown function value at " + x.pos(n)))
	}
	r := x.papp(f, as, sig.Results().At(0).Type())
	st.assume(x.typeFacts(st, r, sig.Results().At(0).Type()))
	k(st, []*Term{r})
}

func (x *Exec) papp(f *Term, as []*Term, rt types.Type) *Term {
	rs := x.prog.sortOf(rt)
	name := "papp"
	sorts := []string{"Int"}
	for _, a := range as {
		s := sortOfTerm(a)
		name += "." + s
		sorts = append(sorts, s)
	}
	name = sanitize(name + "." + rs)
	declareFun(name, rs, sorts...)
	return mkTerm(name, append([]*Term{f}, as...)...)
}

// callLit runs the body of a function literal in its defining frame.
func (x *Exec) callLit(fr *Frame, lit *ast.FuncLit, sig *types.Signature, as []*Term, st *State, k func(*State, []*Term)) {
	if sig == nil {
		sig = fr.subst(fr.pkg.info.Types[lit].Type).(*types.Signature)
	}
	nf := x.newFrame(&Frame{name: fr.name, pkg: fr.pkg, tenv: fr.tenv, parent: fr, boxed: boxedVars(fr.pkg, lit.Body), depth: fr.depth + 1})
	x.bindParams(nf, lit.Type, as, st)
	x.runBody(nf, lit.Type, sig, lit.Body, st, k)
}

func (x *Exec) bindParams(nf *Frame, ft *ast.FuncType, as []*Term, st *State) {
	i := 0
	for _, f := range ft.Params.List {
		if len(f.Names) == 0 {
			i++
			continue
		}
		for _, n := range f.Names {
			x.define(nf, st, nf.pkg.info.Defs[n], as[i])
			i++
		}
	}
}

func (x *Exec) runBody(nf *Frame, ft *ast.FuncType, sig *types.Signature, body *ast.BlockStmt, st *State, k func(*State, []*Term)) {
	if nf.depth > 60 {
		panic(unsupported("call depth in " + nf.name))
	}
	for i := 0; i < sig.Results().Len(); i++ {
		nf.resTy = append(nf.resTy, sig.Results().At(i).Type())
	}
	named := false
	if ft.Results != nil {
		for _, f := range ft.Results.List {
			for _, n := range f.Names {
				named = true
				o := nf.pkg.info.Defs[n]
				if o == nil {
					o = types.NewVar(n.Pos(), nf.pkg.tpkg, fmt.Sprintf("result%d", len(nf.resObj)), nf.resTy[len(nf.resObj)])
				}
				nf.resObj = append(nf.resObj, o)
				x.defineAlways(nf, st, o, x.prog.zero(nf.subst(o.Type())))
			}
		}
	}
	ret := func(st *State, vs []*Term) {
		if named && len(st.defers[nf.id]) > 0 {
			for i, o := range nf.resObj {
				x.writeVarAlways(nf, st, o, vs[i])
			}
			x.runDefers(nf, st, func(st *State) {
				var out []*Term
				for _, o := range nf.resObj {
					out = append(out, x.readVar(nf, st, o))
				}
				k(st, out)
			})
			return
		}
		x.runDefers(nf, st, func(st *State) { k(st, vs) })
	}
	kt := Kont{ret: ret, brk: map[string]func(*State){}, cont: map[string]func(*State){}}
	kt.next = func(st *State) {
		var vs []*Term
		if named {
			for _, o := range nf.resObj {
				vs = append(vs, x.readVar(nf, st, o))
			}
		} else if sig.Results().Len() > 0 {
			return // a missing return cannot be reached
		}
		ret(st, vs)
	}
	x.exec(nf, body, st, kt)
}

func (x *Exec) defineAlways(fr *Frame, st *State, o types.Object, v *Term) {
	if o.Name() == "_" {
		x.setVar(st, varKey{fr.id, o}, v)
		return
	}
	x.define(fr, st, o, v)
}

func (x *Exec) writeVarAlways(fr *Frame, st *State, o types.Object, v *Term) {
	if o.Name() == "_" {
		x.setVar(st, varKey{fr.id, o}, v)
		return
	}
	x.writeVar(fr, st, o, v)
}

// boxedVars are the variables of a body whose address is taken.
func boxedVars(pk *Pkg, body ast.Node) map[types.Object]bool {
	m := map[types.Object]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				if id, ok := ast.Unparen(n.X).(*ast.Ident); ok {
					if o := pk.info.ObjectOf(id); o != nil {
						m[o] = true
					}
				}
			}
		case *ast.CallExpr:
			// an implicit address for a pointer-receiver method
			if sel, ok := n.Fun.(*ast.SelectorExpr); ok {
				s := pk.info.Selections[sel]
				if s != nil && s.Kind() == types.MethodVal {
					f := s.Obj().(*types.Func)
					if _, ptr := f.Type().(*types.Signature).Recv().Type().(*types.Pointer); ptr {
						if id, ok := ast.Unparen(sel.X).(*ast.Ident); ok {
							if o := pk.info.ObjectOf(id); o != nil {
								if _, isPtr := o.Type().Underlying().(*types.Pointer); !isPtr && !isIfaceAny(o.Type()) {
									m[o] = true
								}
							}
						}
					}
				}
			}
		}
		return true
	})
	return m
}

// callFunc calls a declared function or method: through its contract if it has one,
// otherwise by executing its body.
func (x *Exec) callFunc(f *types.Func, tenv map[*types.TypeParam]types.Type, recv *Term, recvTy types.Type, as []*Term, st *State, n ast.Node, k func(*State, []*Term)) {
	name := funcName(f)
	if recvTy != nil && isIfaceAny(recvTy) && !isIface(recvTy) || recvTy != nil && isIface(recvTy) {
		name = baseName(recvTy) + "." + f.Name()
	}
	if x.externCall(name, f, tenv, recv, recvTy, as, st, n, k) {
		return
	}
	if cs := x.spec.contractFor(name, x); cs != nil {
		if !x.called[name] && announce {
			// The proof of the callee can start now.
			fmt.Println("!" + name)
		}
		x.called[name] = true
		x.callContract(cs, f, tenv, recv, recvTy, as, st, n, k)
		return
	}
	fd := x.prog.funcs[f]
	if fd == nil {
		panic(unsupported("call of " + name + " at " + x.pos(n)))
	}
	x.inlined[name] = true
	sig := f.Type().(*types.Signature)
	x.pure(st, func(st *State, k func(*State, []*Term)) {
		nf := x.newFrame(&Frame{name: name, pkg: fd.pkg, tenv: tenv, boxed: boxedVars(fd.pkg, fd.decl), depth: x.depth})
		x.depth++
		defer func() { x.depth-- }()
		if x.depth > 40 {
			panic(unsupported("recursion in " + name))
		}
		if fd.decl.Recv != nil && len(fd.decl.Recv.List) > 0 && len(fd.decl.Recv.List[0].Names) > 0 {
			x.define(nf, st, fd.pkg.info.Defs[fd.decl.Recv.List[0].Names[0]], recv)
		}
		x.bindParams(nf, fd.decl.Type, as, st)
		x.runBody(nf, fd.decl.Type, substType(sigNoRecv(sig), tenv).(*types.Signature), fd.decl.Body, st, k)
	}, k)
}

func sigNoRecv(s *types.Signature) *types.Signature {
	return types.NewSignatureType(nil, nil, nil, s.Params(), s.Results(), s.Variadic())
}

func appendNew(ts []*Term, t *Term) []*Term {
	for _, u := range ts {
		if u == t {
			return ts
		}
	}
	return append(ts, t)
}
