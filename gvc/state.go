package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"strings"
)

// ---- declarations ----

type FunDecl struct {
	args []string
	ret  string
}

var (
	funDecls   = map[string]*FunDecl{}
	declOrder  []string
	freshCount int
)

func declareFun(name string, ret string, args ...string) {
	if d := funDecls[name]; d != nil {
		return
	}
	funDecls[name] = &FunDecl{args, ret}
	declOrder = append(declOrder, name)
}

// fresh makes a new constant of the given sort.
func fresh(base, sort string) *Term {
	freshCount++
	n := fmt.Sprintf("%s!%d", sanitize(base), freshCount)
	declareFun(n, sort)
	return Sym(n)
}

func symNumber(s string) int {
	i := strings.LastIndexByte(s, '!')
	if i < 0 {
		return -1
	}
	var n int
	if _, err := fmt.Sscanf(s[i+1:], "%d", &n); err != nil {
		return -1
	}
	return n
}

// newerThan reports whether the term mentions a constant made after the mark.
func newerThan(t *Term, mark int) bool {
	m := map[string]bool{}
	t.syms(m)
	for s := range m {
		if symNumber(s) > mark {
			return true
		}
	}
	return false
}

func splitArr(s string) (string, string) {
	s = strings.TrimSuffix(strings.TrimPrefix(s, "(Array "), ")")
	d := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return s[:i], s[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

var boundSorts = map[string]string{}

// sortOfTerm infers the sort of a term.
func sortOfTerm(t *Term) string {
	switch t.op {
	case "true", "false", "=", "<", "<=", ">", ">=", "and", "or", "not", "=>", "forall", "exists", "distinct":
		return "Bool"
	case "ite":
		return sortOfTerm(t.args[1])
	case "select":
		_, v := splitArr(sortOfTerm(t.args[0]))
		return v
	case "store":
		return sortOfTerm(t.args[0])
	case "constarr":
		return t.args[1].op
	case "+", "-", "*":
		return sortOfTerm(t.args[0])
	case "/":
		return "Real"
	case "mod", "div":
		return "Int"
	}
	if strings.HasPrefix(t.op, "is-") && len(t.args) == 1 {
		return "Bool"
	}
	if s := selectors[t.op]; s != nil && len(t.args) == 1 {
		return s.ctor.fields[s.idx].sort
	}
	if c := ctors[t.op]; c != nil {
		return c.dt.name
	}
	if d := funDecls[t.op]; d != nil {
		return d.ret
	}
	if d := defFuns[t.op]; d != nil {
		return d.ret
	}
	if s, ok := boundSorts[t.op]; ok {
		return s
	}
	if len(t.args) == 0 && t.op != "" && t.op[0] >= '0' && t.op[0] <= '9' {
		if strings.Contains(t.op, ".") {
			return "Real"
		}
		return "Int"
	}
	panic("no sort for " + t.op)
}

// ---- states ----

type varKey struct {
	frame int
	obj   types.Object
}

// Fact is a path-condition entry; a branch is a condition that distinguishes this path
// from its siblings, anything else a consequence or assumption.
type Fact struct {
	t      *Term
	branch bool
	prev   *Fact
	n      int
}

type deferred func(st *State, k func(*State))

type State struct {
	vars   map[varKey]*Term
	heap   map[string]*Term
	pc     *Fact
	labels map[string]*State
	defers map[int][]deferred
	ghosts map[string]TV // loop ghosts ($i, $visited) and clause-bound names
	writes *write        // what the path has written
}

// write is one entry of the log of what a path has written: a variable, or a component at
// a place (nil: anywhere).
type write struct {
	comp string
	idx  *Term
	v    varKey
	prev *write
}

func (s *State) wrote(comp string, idx *Term) {
	s.writes = &write{comp: comp, idx: idx, prev: s.writes}
}

// collect adds what a path has written.
func (r *Recorder) collect(s *State) {
	for w := s.writes; w != nil; w = w.prev {
		if w.comp == "" {
			r.vars[w.v] = true
		} else {
			r.addComp(w.comp, w.idx)
		}
	}
}

func (s *State) clone() *State {
	c := &State{vars: make(map[varKey]*Term, len(s.vars)), heap: make(map[string]*Term, len(s.heap)), pc: s.pc,
		labels: s.labels, defers: make(map[int][]deferred, len(s.defers)), ghosts: s.ghosts, writes: s.writes}
	for k, v := range s.vars {
		c.vars[k] = v
	}
	for k, v := range s.heap {
		c.heap[k] = v
	}
	for k, v := range s.defers {
		c.defers[k] = v
	}
	return c
}

func (s *State) label(name string) {
	m := map[string]*State{}
	for k, v := range s.labels {
		m[k] = v
	}
	m[name] = s.clone()
	s.labels = m
}

func (s *State) ghost(name string, v TV) {
	m := map[string]TV{}
	for k, v := range s.ghosts {
		m[k] = v
	}
	m[name] = v
	s.ghosts = m
}

func (s *State) add(t *Term, branch bool) {
	if t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.add(a, branch)
		}
		return
	}
	n := 1
	if s.pc != nil {
		n = s.pc.n + 1
	}
	s.pc = &Fact{t, branch, s.pc, n}
}
func (s *State) assume(t *Term) { s.add(t, false) }
func (s *State) facts() []*Term {
	var out []*Term
	for f := s.pc; f != nil; f = f.prev {
		out = append(out, f.t)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// comps are the sorts of the heap components seen so far; the initial value of component
// c is the constant H0.<c> of the verification at hand.
type compInfo struct {
	name string
	sort string
}

var comps = map[string]*compInfo{}

func (x *Exec) comp(name, sort string) string {
	if c := comps[name]; c == nil {
		comps[name] = &compInfo{name, sort}
	} else if c.sort != sort {
		panic("component " + name + " has sort " + c.sort + " not " + sort)
	}
	return name
}

func (x *Exec) heapGet(st *State, name string) *Term {
	if t := st.heap[name]; t != nil {
		return t
	}
	c := comps[name]
	if c == nil {
		panic(unsupported("unknown component " + name))
	}
	n := "H0." + sanitize(name)
	declareFun(n, c.sort)
	t := Sym(n)
	if _, ok := x.initComps[name]; !ok {
		x.initComps[name] = t
		x.compAxioms(name, t)
	}
	return t
}

// compAxioms are facts every reachable heap satisfies for a fresh component value.
func (x *Exec) compAxioms(name string, t *Term) {}

func (x *Exec) heapSet(st *State, name string, idx *Term, v *Term) {
	st.wrote(name, idx)
	st.heap[name] = v
}

// Recorder collects what a dry run of a loop body writes.
type Recorder struct {
	vars  map[varKey]bool
	comps map[string][]*Term // nil entry: anywhere
	fresh map[string]bool    // written only at references allocated since
}

func newRecorder() *Recorder {
	return &Recorder{vars: map[varKey]bool{}, comps: map[string][]*Term{}, fresh: map[string]bool{}}
}

func (r *Recorder) addComp(name string, idx *Term) {
	for _, i := range r.comps[name] {
		if i == idx {
			return
		}
	}
	r.comps[name] = append(r.comps[name], idx)
}

// Frame is an activation of a function or function literal.
type Frame struct {
	id     int
	name   string
	pkg    *Pkg
	tenv   map[*types.TypeParam]types.Type
	parent *Frame
	boxed  map[types.Object]bool
	resObj []types.Object
	resTy  []types.Type
	depth  int
	yield  types.Object // the yield parameter of a sequence under verification
	isRoot bool
	loopN  *int
	nodes  map[ast.Node]int
}

func (fr *Frame) subst(t types.Type) types.Type {
	if len(fr.tenv) == 0 || t == nil {
		return t
	}
	return substType(t, fr.tenv)
}

func substType(t types.Type, env map[*types.TypeParam]types.Type) types.Type {
	switch t := t.(type) {
	case *types.TypeParam:
		if u, ok := env[t]; ok {
			return u
		}
		return t
	case *types.Alias:
		return substType(types.Unalias(t), env)
	case *types.Named:
		if t.TypeArgs() == nil || t.TypeArgs().Len() == 0 {
			if tp := t.TypeParams(); tp != nil && tp.Len() > 0 {
				// the generic type itself, as in a receiver
				var as []types.Type
				for i := 0; i < tp.Len(); i++ {
					as = append(as, substType(tp.At(i), env))
				}
				n, err := types.Instantiate(nil, t, as, false)
				if err == nil {
					return n
				}
			}
			return t
		}
		var as []types.Type
		ch := false
		for i := 0; i < t.TypeArgs().Len(); i++ {
			a := substType(t.TypeArgs().At(i), env)
			ch = ch || a != t.TypeArgs().At(i)
			as = append(as, a)
		}
		if !ch {
			return t
		}
		n, err := types.Instantiate(nil, t.Origin(), as, false)
		if err != nil {
			panic(unsupported("instantiate " + err.Error()))
		}
		return n
	case *types.Pointer:
		return types.NewPointer(substType(t.Elem(), env))
	case *types.Slice:
		return types.NewSlice(substType(t.Elem(), env))
	case *types.Map:
		return types.NewMap(substType(t.Key(), env), substType(t.Elem(), env))
	case *types.Signature:
		return types.NewSignatureType(nil, nil, nil, substTuple(t.Params(), env), substTuple(t.Results(), env), t.Variadic())
	case *types.Tuple:
		return substTuple(t, env)
	}
	return t
}

func substTuple(t *types.Tuple, env map[*types.TypeParam]types.Type) *types.Tuple {
	var vs []*types.Var
	for i := 0; i < t.Len(); i++ {
		vs = append(vs, types.NewVar(t.At(i).Pos(), t.At(i).Pkg(), t.At(i).Name(), substType(t.At(i).Type(), env)))
	}
	return types.NewTuple(vs...)
}
