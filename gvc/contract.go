package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	name string
	tags []string
	e    *Sexp
	free bool
}

type Mod struct {
	comp string
	idx  *Sexp // nil: anywhere
	kind string
}

type Contract struct {
	name     string
	params   []string
	results  []string
	requires []*Clause
	ensures  []*Clause
	mods     []Mod
	allocs   bool
	tvar     bool
}

type LoopSpec struct {
	invs   []*Clause
	exits  []*Clause
	unroll bool
	meet   bool      // the paths that reach the loop are joined before it
	arrive []*Clause // what holds on each of them
	ghosts []*yghost
}

// FuncSpec directs the verification of one function of the repository.
type FuncSpec struct {
	name      string
	contract  *Contract
	ctx       string
	insts     []string
	loops     map[int]*LoopSpec
	extraReq  []*Clause
	extraEns  []*Clause
	mods      []Mod
	hasMods   bool
	ghosts    []*Sexp // assignments to ghost components at exit
	entry     []*Clause
	local     map[string]string // expected Go types of locals, for renamed ones
	localLast map[string]bool   // which of several: the last declared
	localNth  map[string]int    // or that one in the order of declaration
	props     map[string]bool
	own       []string // the properties whose checks prove the untagged clauses
	lemma     *Sexp
	inline    map[string]bool
	asserts   []*Clause // at exit, before ensures: proved, then assumed
	yghosts   []*yghost
	content   []string // package variables whose initial contents the function reads
	lghosts   []*yghost
	onYield   []*yghost
	weight    int
	links     [][2]string // functions of a returned sequence defined by ghosts
}

type Macro struct {
	params []string
	body   *Sexp
}

type Axiom struct {
	name string
	e    *Sexp
	t    *Term
	keys []string
}

type Spec struct {
	prog      *Program
	macros    map[string]map[string]*Macro // ctx ("" default) -> name
	contracts map[string]*Contract
	funcs     []*FuncSpec
	byFunc    map[string]*FuncSpec
	axioms    []*Axiom
	globals   map[string]string
	inline    map[string]bool
	assumed   []string // free clauses
	fnconst   [][3]string
	ctxHides  map[string]map[string]bool // contexts in which a contract is not used
	strs      []string
	defines   []string
	trusted   []string
}

var defFuns = map[string]*FunDecl{} // define-funs of the prelude
var defText []string

type specErr struct{ msg string }

func (e *specErr) Error() string { return e.msg }

func loadSpec(prog *Program, dir string) (*Spec, error) {
	sp := &Spec{prog: prog, macros: map[string]map[string]*Macro{"": {}}, contracts: map[string]*Contract{},
		byFunc: map[string]*FuncSpec{}, globals: map[string]string{}, inline: map[string]bool{}, ctxHides: map[string]map[string]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	var all []*Sexp
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		ss, err := parseSexps(string(b), filepath.Base(f))
		if err != nil {
			return nil, err
		}
		all = append(all, ss...)
	}
	for _, s := range all {
		collectSpecStrings(s, &sp.strs)
	}
	prog.collectStrings(sp.strs)
	for _, s := range all {
		dropOpen(s)
		if err := sp.decl(s); err != nil {
			return nil, fmt.Errorf("%s: %w", s.pos, err)
		}
	}
	return sp, nil
}

// dropOpen removes the clauses marked :open: those whose proofs are not complete, and which
// are neither proved nor assumed.
func dropOpen(s *Sexp) {
	if os.Getenv("GVC_OPEN") != "" {
		return
	}
	n := 0
	for _, c := range s.list {
		if !c.isAtom() {
			open := false
			for _, a := range c.list {
				open = open || a.isAtom() && a.atom == ":open"
			}
			if open {
				continue
			}
			dropOpen(c)
		}
		s.list[n] = c
		n++
	}
	s.list = s.list[:n]
}

func collectSpecStrings(s *Sexp, out *[]string) {
	if s.isAtom() {
		if strings.HasPrefix(s.atom, "\"") {
			*out = append(*out, strings.Trim(s.atom, "\""))
		}
		return
	}
	for _, c := range s.list {
		collectSpecStrings(c, out)
	}
}

func str(s *Sexp) string { return strings.Trim(s.atom, "\"") }

func parseClause(s *Sexp) *Clause {
	// (ensures name :C01 :C02 expr)
	c := &Clause{}
	for _, a := range s.list[1:] {
		switch {
		case a.isAtom() && strings.HasPrefix(a.atom, ":"):
			if a.atom == ":free" {
				c.free = true
			} else {
				c.tags = append(c.tags, a.atom[1:])
			}
		case c.name == "" && a.isAtom():
			c.name = a.atom
		default:
			c.e = a
		}
	}
	if c.e == nil {
		panic(&specErr{s.pos + ": clause without expression"})
	}
	return c
}

func parseMods(s *Sexp) (mods []Mod, allocs bool) {
	for _, m := range s.list[1:] {
		if m.isAtom() && m.atom == "@alloc" {
			allocs = true
			continue
		}
		md := Mod{comp: str(m.list[0])}
		if len(m.list) > 1 {
			switch {
			case m.list[1].isAtom() && m.list[1].atom == "*":
			case m.list[1].isAtom() && m.list[1].atom == "@fresh":
				md.kind = "fresh"
			default:
				md.idx = m.list[1]
			}
		}
		mods = append(mods, md)
	}
	return
}

// expandGeneric substitutes one of the two storage sorts for the marks of a generic
// declaration: ~ for the suffix, VS~ for the value sort.
func expandGeneric(s *Sexp, sfx string) *Sexp {
	if s.isAtom() {
		a := s.atom
		vs := "Int"
		if sfx == "R" {
			vs = "Real"
		}
		if a == "VS~" {
			a = vs
		}
		return &Sexp{atom: strings.ReplaceAll(a, "~", sfx), pos: s.pos}
	}
	n := &Sexp{pos: s.pos}
	for _, c := range s.list {
		n.list = append(n.list, expandGeneric(c, sfx))
	}
	return n
}

func (sp *Spec) decl(s *Sexp) error {
	if h := s.head(); h == "define~" || h == "fun~" || h == "macro~" {
		for _, sfx := range []string{"R", "I"} {
			d := expandGeneric(s, sfx)
			d.list[0] = &Sexp{atom: h[:len(h)-1], pos: s.pos}
			if err := sp.decl(d); err != nil {
				return err
			}
		}
		return nil
	}
	switch s.head() {
	case "macro", "macro@":
		ctx := ""
		i := 1
		if s.head() == "macro@" {
			ctx = s.list[1].atom
			i = 2
		}
		m := &Macro{body: s.list[i+2]}
		for _, p := range s.list[i+1].list {
			m.params = append(m.params, p.atom)
		}
		if sp.macros[ctx] == nil {
			sp.macros[ctx] = map[string]*Macro{}
		}
		sp.macros[ctx][s.list[i].atom] = m
	case "fun":
		var args []string
		for _, a := range s.list[2].list {
			args = append(args, a.String())
		}
		declareFun(s.list[1].atom, s.list[3].String(), args...)
	case "define":
		// (define name ((x Sort)...) Sort body): an SMT definition
		name := s.list[1].atom
		var args []string
		for _, b := range s.list[2].list {
			args = append(args, b.list[1].String())
		}
		defFuns[name] = &FunDecl{args, s.list[3].String()}
		defText = append(defText, "(define-fun "+s.list[1].String()+" "+s.list[2].String()+" "+s.list[3].String()+" "+s.list[4].String()+")")
	case "component":
		comps[str(s.list[1])] = &compInfo{str(s.list[1]), s.list[2].String()}
	case "axiom":
		a := &Axiom{name: s.list[1].atom, e: s.list[len(s.list)-1]}
		for _, k := range s.list[2 : len(s.list)-1] {
			a.keys = append(a.keys, k.atom)
		}
		sp.axioms = append(sp.axioms, a)
	case "fnconst":
		sp.fnconst = append(sp.fnconst, [3]string{s.list[1].atom, str(s.list[2]), s.list[3].atom})
	case "global":
		sp.globals[str(s.list[1])] = "opaque"
	case "trusted":
		sp.trusted = append(sp.trusted, str(s.list[1]))
	case "contract":
		c, err := sp.parseContract(s)
		if err != nil {
			return err
		}
		sp.contracts[c.name] = c
	case "func", "lemma":
		return sp.parseFunc(s)
	default:
		return fmt.Errorf("unknown declaration %s", s.head())
	}
	return nil
}

func (sp *Spec) parseContract(s *Sexp) (*Contract, error) {
	c := &Contract{name: str(s.list[1])}
	for _, p := range s.list[2].list {
		c.params = append(c.params, p.atom)
	}
	for _, p := range s.list[3].list {
		c.results = append(c.results, p.atom)
	}
	for _, cl := range s.list[4:] {
		switch cl.head() {
		case "requires":
			c.requires = append(c.requires, parseClause(cl))
		case "ensures":
			e := parseClause(cl)
			if e.free {
				sp.assumed = append(sp.assumed, c.name+": "+e.name)
			}
			c.ensures = append(c.ensures, e)
		case "modifies":
			m, a := parseMods(cl)
			c.mods = append(c.mods, m...)
			c.allocs = c.allocs || a
		default:
			return nil, fmt.Errorf("unknown clause %s", cl.head())
		}
	}
	return c, nil
}

func (sp *Spec) parseFunc(s *Sexp) error {
	f := &FuncSpec{name: str(s.list[1]), loops: map[int]*LoopSpec{}, local: map[string]string{}, localLast: map[string]bool{}, localNth: map[string]int{}, inline: map[string]bool{}}
	if s.head() == "lemma" {
		f.lemma = s
	}
	for _, cl := range s.list[2:] {
		switch cl.head() {
		case "contract":
			if len(cl.list) == 2 {
				f.contract = sp.contracts[str(cl.list[1])]
				if f.contract == nil {
					return fmt.Errorf("no contract %s", cl.list[1].atom)
				}
				sp.contracts[f.name] = f.contract
				break
			}
			// inline definition, under the function's own name
			full := &Sexp{list: append([]*Sexp{cl.list[0], s.list[1]}, cl.list[1:]...), pos: cl.pos}
			c, err := sp.parseContract(full)
			if err != nil {
				return err
			}
			f.contract = c
			sp.contracts[c.name] = c
		case "ctx":
			f.ctx = cl.list[1].atom
		case "inst":
			for _, a := range cl.list[1:] {
				f.insts = append(f.insts, a.atom)
			}
		case "inline":
			for _, a := range cl.list[1:] {
				f.inline[str(a)] = true
			}
		case "requires":
			f.extraReq = append(f.extraReq, parseClause(cl))
		case "ensures":
			f.extraEns = append(f.extraEns, parseClause(cl))
		case "assert":
			f.asserts = append(f.asserts, parseClause(cl))
		case "modifies":
			f.mods, _ = parseMods(cl)
			f.hasMods = true
		case "ghost":
			f.ghosts = append(f.ghosts, cl)
		case "yghost":
			g := &yghost{cl.list[1].atom, str(cl.list[2]), cl.list[3], cl.list[4]}
			f.yghosts = append(f.yghosts, g)
			f.onYield = append(f.onYield, g)
		case "link":
			f.links = append(f.links, [2]string{cl.list[1].atom, cl.list[2].atom})
		case "content":
			for _, a := range cl.list[1:] {
				f.content = append(f.content, str(a))
			}
		case "weight":
			fmt.Sscanf(cl.list[1].atom, "%d", &f.weight)
		case "own":
			for _, a := range cl.list[1:] {
				f.own = append(f.own, a.atom)
			}
		case "props":
			f.props = map[string]bool{}
			for _, a := range cl.list[1:] {
				f.props[a.atom] = true
			}
		case "local":
			f.local[cl.list[1].atom] = str(cl.list[2])
			if len(cl.list) > 3 {
				if n, err := strconv.Atoi(cl.list[3].atom); err == nil {
					f.localNth[cl.list[1].atom] = n
				} else {
					f.localLast[cl.list[1].atom] = true
				}
			}
		case "loop":
			l := &LoopSpec{}
			var n int
			fmt.Sscanf(cl.list[1].atom, "%d", &n)
			for _, d := range cl.list[2:] {
				switch {
				case d.isAtom() && d.atom == "unroll":
					l.unroll = true
				case d.head() == "inv":
					l.invs = append(l.invs, parseClause(d))
				case d.head() == "exit":
					l.exits = append(l.exits, parseClause(d))
				case d.isAtom() && d.atom == "meet":
					l.meet = true
				case d.head() == "arrive":
					l.meet = true
					l.arrive = append(l.arrive, parseClause(d))
				case d.head() == "lghost":
					g := &yghost{d.list[1].atom, str(d.list[2]), d.list[3], d.list[4]}
					l.ghosts = append(l.ghosts, g)
					f.lghosts = append(f.lghosts, g)
				default:
					return fmt.Errorf("unknown loop clause %s", d)
				}
			}
			f.loops[n] = l
		case "do", "vars", "assume", "check":
		default:
			return fmt.Errorf("unknown clause %s in func", cl.head())
		}
	}
	sp.funcs = append(sp.funcs, f)
	sp.byFunc[f.name] = f
	return nil
}

func (sp *Spec) contractFor(name string, x *Exec) *Contract {
	if x.fn != nil && x.fn.inline[name] {
		return nil
	}
	return sp.contracts[name]
}

func (sp *Spec) macro(ctx, name string) *Macro {
	if m := sp.macros[ctx][name]; m != nil {
		return m
	}
	return sp.macros[""][name]
}

// ---- evaluation of specification expressions ----

type TV struct {
	t  *Term
	ty types.Type
}

type Env struct {
	x      *Exec
	st     *State
	old    *State
	names  map[string]TV
	fr     *Frame
	pos    token.Pos
	suffix string
	ctx    string
	clause string
}

func (e *Env) with(names map[string]TV) *Env {
	c := *e
	c.names = map[string]TV{}
	for k, v := range e.names {
		c.names[k] = v
	}
	for k, v := range names {
		c.names[k] = v
	}
	return &c
}

func (e *Env) fail(s *Sexp, msg string) {
	panic(&specErr{s.pos + ": " + msg + " in " + s.String()})
}

func (e *Env) sfx(s string) string {
	if strings.Contains(s, "~") {
		if s == "VS~" {
			if e.suffix == "R" {
				return "Real"
			}
			return "Int"
		}
		return strings.ReplaceAll(s, "~", e.suffix)
	}
	return s
}

func (e *Env) bool(s *Sexp) *Term { return e.ev(s).t }

var qvar int

func (p *Program) goType(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(p.goType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(p.goType(s[2:]))
	case strings.HasPrefix(s, "map["):
		d, i := 0, 3
		for ; i < len(s); i++ {
			if s[i] == '[' {
				d++
			} else if s[i] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		return types.NewMap(p.goType(s[4:i]), p.goType(s[i+1:]))
	}
	if strings.Contains(s, "[") {
		i := strings.Index(s, "[")
		t := p.goType(s[:i]).(*types.Named)
		n, err := types.Instantiate(nil, t, []types.Type{p.goType(s[i+1 : len(s)-1])}, false)
		if err != nil {
			panic(err)
		}
		return n
	}
	if !strings.Contains(s, ".") {
		if o := types.Universe.Lookup(s); o != nil {
			return o.Type()
		}
	}
	t := p.typeByName(s)
	if t == nil {
		panic(&specErr{"unknown Go type " + s})
	}
	return t
}

func (e *Env) ev(s *Sexp) TV {
	if s.isAtom() {
		return e.atom(s)
	}
	if len(s.list) == 0 {
		e.fail(s, "empty expression")
	}
	h := e.sfx(s.head())
	x := e.x
	if f := s.list[0]; !f.isAtom() && len(f.list) == 3 && f.list[0].atom == "_" && f.list[1].atom == "is" {
		return TV{App("is-"+f.list[2].atom, e.ev(s.list[1]).t), types.Typ[types.Bool]}
	}
	switch h {
	case "passed":
		if e.st.labels[s.list[1].atom] != nil {
			return TV{tTrue, types.Typ[types.Bool]}
		}
		return TV{tFalse, types.Typ[types.Bool]}
	case "lamb":
		// (lamb ((k S)) "V" body): the array of the body's values
		ne := e.with(nil)
		b := s.list[1].list[0]
		sn := b.list[1].String()
		qvar++
		n := fmt.Sprintf("%s?%d", b.list[0].atom, qvar)
		boundSorts[n] = sn
		ne.names[b.list[0].atom] = TV{Sym(n), nil}
		arr := fresh("lamb", "(Array "+sn+" "+str(s.list[2])+")")
		t := ne.ev(s.list[3]).t
		sel := mkTerm("select", arr, Sym(n))
		pats := [][]*Term{{sel}}
		for _, p := range s.list[4:] {
			pats = append(pats, []*Term{ne.ev(p).t})
		}
		e.st.assume(mkQuant("forall", []Binder{{n, sn}}, Eq(sel, t), pats))
		return TV{arr, nil}
	case "=>":
		if l := s.list[1]; !l.isAtom() && l.head() == "passed" && e.st.labels[l.list[1].atom] == nil {
			return TV{tTrue, types.Typ[types.Bool]}
		}
	case "forall", "exists":
		ne := e.with(nil)
		var bs []Binder
		for _, b := range s.list[1].list {
			sn := e.sfx(b.list[1].String())
			var ty types.Type
			if strings.HasPrefix(sn, "@") {
				ty = x.prog.goType(sn[1:])
				sn = x.prog.sortOf(ty)
			}
			qvar++
			n := fmt.Sprintf("%s?%d", b.list[0].atom, qvar)
			boundSorts[n] = sn
			bs = append(bs, Binder{n, sn})
			ne.names[b.list[0].atom] = TV{Sym(n), ty}
		}
		body := s.list[2]
		var pats [][]*Term
		if body.head() == "!" {
			for i := 2; i+1 < len(body.list); i += 2 {
				if body.list[i].atom == ":pattern" {
					var p []*Term
					for _, q := range body.list[i+1].list {
						p = append(p, ne.ev(q).t)
					}
					pats = append(pats, p)
				}
			}
			body = body.list[1]
		}
		t := ne.bool(body)
		return TV{mkQuant(h, bs, t, cleanPats(pats, bs)), types.Typ[types.Bool]}
	case "let":
		ne := e.with(nil)
		for _, b := range s.list[1].list {
			ne.names[b.list[0].atom] = ne.ev(b.list[1])
		}
		return ne.ev(s.list[2])
	case "old":
		if e.old == nil {
			e.fail(s, "no old state")
		}
		ne := *e
		ne.st = e.old
		return (&ne).ev(s.list[1])
	case "at":
		ne := *e
		ne.st = e.st.labels[s.list[1].atom]
		if ne.st == nil {
			e.fail(s, "no label")
		}
		return (&ne).ev(s.list[2])
	case "heap":
		return TV{x.heapGet(e.st, e.sfx(str(s.list[1]))), nil}
	case "mhas", "mget":
		m := e.ev(s.list[1])
		k := e.ev(s.list[2])
		mt := e.mapType(s, m)
		if h == "mhas" {
			return TV{x.mapHas(e.st, m.t, k.t, mt), types.Typ[types.Bool]}
		}
		return TV{x.mapGet(e.st, m.t, k.t, mt), mt.Underlying().(*types.Map).Elem()}
	case "mdom", "mvals":
		m := e.ev(s.list[1])
		d, v := x.mapComps(e.mapType(s, m))
		if h == "mvals" {
			d = v
		}
		return TV{Select(x.heapGet(e.st, d), m.t), nil}
	case "len":
		v := e.ev(s.list[1])
		if v.ty != nil {
			if _, ok := v.ty.Underlying().(*types.Map); ok {
				return TV{x.mapLen(e.st, v.t, v.ty), types.Typ[types.Int]}
			}
		}
		return TV{App("sl_len", v.t), types.Typ[types.Int]}
	case "idx":
		v := e.ev(s.list[1])
		i := e.ev(s.list[2])
		if v.ty == nil {
			e.fail(s, "untyped slice")
		}
		el := v.ty.Underlying().(*types.Slice).Elem()
		c := x.sliceComp(el)
		return TV{Select(Select(x.heapGet(e.st, c), App("sl_arr", v.t)), Add(App("sl_off", v.t), i.t)), el}
	case ".":
		v := e.ev(s.list[1])
		for _, f := range s.list[2:] {
			v = e.field(s, v, f.atom)
		}
		return v
	case "deref":
		v := e.ev(s.list[1])
		el := v.ty.Underlying().(*types.Pointer).Elem()
		return TV{x.loadPtr(e.st.clone(), v.t, el), el}
	case "as":
		ty := x.prog.goType(e.tyAtom(s.list[1]))
		return TV{e.ev(s.list[2]).t, ty}
	case "is":
		if s.list[1].atom == "nil" {
			return TV{App("is-VNil", e.ev(s.list[2]).t), types.Typ[types.Bool]}
		}
		return TV{x.typeTest(e.ev(s.list[2]).t, x.prog.goType(e.tyAtom(s.list[1]))), types.Typ[types.Bool]}
	case "unbox":
		ty := x.prog.goType(e.tyAtom(s.list[1]))
		return TV{x.unbox(e.ev(s.list[2]).t, ty), ty}
	case "box":
		ty := x.prog.goType(e.tyAtom(s.list[1]))
		return TV{x.box(e.ev(s.list[2]).t, ty), nil}
	case "qn", "qat", "qpos":
		q := e.ev(s.list[1])
		if h == "qn" {
			declareFun("qn", "Int", "Int")
			return TV{mkTerm("qn", q.t), types.Typ[types.Int]}
		}
		dt := x.prog.goType("types.Datum")
		ds := x.prog.sortOf(dt)
		declareFun("qat", ds, "Int", "Int")
		return TV{mkTerm("qat", q.t, e.ev(s.list[2]).t), dt}
	case "fapp":
		// (fapp f a b ...): the result of a function value taken as pure
		f := e.ev(s.list[1])
		var as []TV
		for _, a := range s.list[2:] {
			as = append(as, e.ev(a))
		}
		r, _ := e.funApp(s, f, as)
		return r
	case "fsafe":
		f := e.ev(s.list[1])
		var as []TV
		for _, a := range s.list[2:] {
			as = append(as, e.ev(a))
		}
		_, safe := e.funApp(s, f, as)
		return TV{safe, types.Typ[types.Bool]}
	case "zero":
		ty := x.prog.goType(e.tyAtom(s.list[1]))
		return TV{x.prog.zero(ty), ty}
	case "mk":
		// (mk types.Datum e a v t)
		ty := x.prog.goType(e.tyAtom(s.list[1]))
		sn, _ := x.structOf(ty)
		var as []*Term
		for _, a := range s.list[2:] {
			as = append(as, e.ev(a).t)
		}
		return TV{App(structCtorName(sn), as...), ty}
	case "constarr":
		return TV{ConstArr(e.sfx(s.list[1].String()), e.ev(s.list[2]).t), nil}
	case "allocated":
		return TV{Lt(e.ev(s.list[1]).t, x.nref(e.st)), types.Typ[types.Bool]}
	}
	if h == "" {
		e.fail(s, "bad head")
	}
	if m := x.spec.macro(e.ctx, h); m != nil {
		if len(m.params) != len(s.list)-1 {
			e.fail(s, "macro arity of "+h)
		}
		// Arguments are evaluated in the caller's environment, and the macro's body sees
		// only them, the program's states and locals.
		ne := *e
		ne.names = map[string]TV{}
		for i, p := range m.params {
			ne.names[p] = e.ev(s.list[i+1])
		}
		return (&ne).ev(m.body)
	}
	var as []*Term
	var ty types.Type
	for _, a := range s.list[1:] {
		v := e.ev(a)
		as = append(as, v.t)
		if ty == nil {
			ty = v.ty
		}
	}
	switch h {
	case "ite":
		v := e.ev(s.list[2])
		return TV{App(h, as...), v.ty}
	case "+", "-":
		return TV{App(h, as...), types.Typ[types.Int]}
	case "and", "or", "not", "=>", "=", "<", "<=", ">", ">=", "distinct":
		if len(as) > 2 && (h == "<=" || h == "<") {
			var cs []*Term
			for i := 0; i+1 < len(as); i++ {
				cs = append(cs, App(h, as[i], as[i+1]))
			}
			return TV{And(cs...), types.Typ[types.Bool]}
		}
		return TV{App(h, as...), types.Typ[types.Bool]}
	case "select", "store", "*", "/", "mod", "div":
		return TV{App(h, as...), nil}
	}
	if selectors[h] == nil && ctors[h] == nil && funDecls[h] == nil && defFuns[h] == nil && !strings.HasPrefix(h, "is-") {
		e.fail(s, "unknown function "+h)
	}
	return TV{App(h, as...), nil}
}

func (e *Env) tyAtom(s *Sexp) string {
	return strings.Trim(s.String(), "\"")
}

// cleanPats drops patterns that lost a bound variable to simplification.
func cleanPats(ps [][]*Term, bs []Binder) [][]*Term {
	var out [][]*Term
	for _, p := range ps {
		m := map[string]bool{}
		ok := true
		for _, t := range p {
			t.syms(m)
			if hasInterp(t, map[*Term]bool{}) || len(t.args) == 0 {
				ok = false
			}
		}
		for _, b := range bs {
			if !m[b.name] {
				ok = false
			}
		}
		if ok {
			out = append(out, p)
		}
	}
	return out
}

// hasInterp reports whether a would-be pattern has an operator no pattern may have.
func hasInterp(t *Term, seen map[*Term]bool) bool {
	switch t.op {
	case "and", "or", "not", "=>", "ite", "=", "<", "<=", "forall", "exists":
		return true
	}
	if defFuns[t.op] != nil {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if hasInterp(a, seen) {
			return true
		}
	}
	return false
}

func (e *Env) mapType(s *Sexp, m TV) types.Type {
	if m.ty == nil {
		e.fail(s, "untyped map")
	}
	if _, ok := m.ty.Underlying().(*types.Map); !ok {
		e.fail(s, "not a map")
	}
	return m.ty
}

func (e *Env) field(s *Sexp, v TV, f string) TV {
	f = e.sfx(f)
	if v.ty == nil {
		// by selector of a single-constructor sort
		dt := dtByName[sortOfTerm(v.t)]
		if dt != nil {
			for _, c := range dt.ctors {
				for _, fl := range c.fields {
					if fl.sel == f || strings.HasSuffix(fl.sel, "."+f) {
						return TV{App(fl.sel, v.t), nil}
					}
				}
			}
		}
		e.fail(s, "field "+f+" of untyped value")
	}
	t := v.ty
	ptr := false
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t, ptr = p.Elem(), true
	}
	sn, u := e.x.structOf(t)
	if u == nil {
		e.fail(s, "field "+f+" of "+tyName(t))
	}
	for i := 0; i < u.NumFields(); i++ {
		if u.Field(i).Name() == f {
			if ptr {
				return TV{Select(e.x.heapGet(e.st, e.x.fieldComp(sn, u.Field(i))), v.t), u.Field(i).Type()}
			}
			return TV{App(fieldSel(sn, f), v.t), u.Field(i).Type()}
		}
	}
	e.fail(s, "no field "+f+" in "+tyName(t))
	return TV{}
}

func (e *Env) atom(s *Sexp) TV {
	a := e.sfx(s.atom)
	if strings.HasPrefix(a, "\"") {
		return TV{strConst(strings.Trim(a, "\"")), nil}
	}
	if a[0] >= '0' && a[0] <= '9' {
		return TV{Sym(a), nil}
	}
	if a[0] == '-' && len(a) > 1 && a[1] >= '0' && a[1] <= '9' {
		return TV{mkTerm("-", Sym(a[1:])), nil}
	}
	if v, ok := e.names[a]; ok {
		return v
	}
	switch a {
	case "true":
		return TV{tTrue, types.Typ[types.Bool]}
	case "false":
		return TV{tFalse, types.Typ[types.Bool]}
	case "nref":
		return TV{e.x.nref(e.st), nil}
	}
	if a[0] == '$' && !strings.Contains(a, ".") {
		return e.local(s, a)
	}
	if i := strings.Index(a, "."); i > 0 && !strings.HasSuffix(a, ".") {
		parts := strings.Split(a, ".")
		var v TV
		ok := true
		if n, found := e.names[parts[0]]; found {
			v = n
		} else if parts[0][0] == '$' {
			v = e.local(s, parts[0])
		} else if c := e.pkgConst(parts[0], parts[1]); c != nil && len(parts) == 2 {
			return *c
		} else {
			ok = false
		}
		if ok {
			for _, f := range parts[1:] {
				v = e.field(s, v, f)
			}
			return v
		}
	}
	if funDecls[a] != nil || ctors[a] != nil || defFuns[a] != nil {
		return TV{Sym(a), nil}
	}
	if m := e.x.spec.macro(e.ctx, a); m != nil && len(m.params) == 0 {
		ne := *e
		ne.names = map[string]TV{}
		return (&ne).ev(m.body)
	}
	e.fail(s, "unknown name")
	return TV{}
}

// pkgConst resolves a package-level constant or variable.
func (e *Env) pkgConst(pkg, name string) *TV {
	for _, p := range e.x.prog.pkgs {
		if pkgShort(p.tpkg) != pkg {
			continue
		}
		switch o := p.tpkg.Scope().Lookup(name).(type) {
		case *types.Const:
			t := o.Type()
			if b, ok := t.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
				t = types.Default(t)
			}
			return &TV{constTerm(o.Val(), t), t}
		case *types.Var:
			return &TV{e.x.global(e.st, o), o.Type()}
		}
	}
	return nil
}

// local resolves a program variable in scope, or a ghost of the verification.
func (e *Env) local(s *Sexp, a string) TV {
	if v, ok := e.st.ghosts[a]; ok {
		return v
	}
	switch a {
	case "$yn":
		c, _, _ := e.x.yieldComps()
		return TV{e.x.heapGet(e.st, c), types.Typ[types.Int]}
	case "$ytr":
		_, c, _ := e.x.yieldComps()
		return TV{e.x.heapGet(e.st, c), nil}
	}
	if e.x.fn != nil {
		for _, g := range e.x.fn.yghosts {
			if a == "$"+g.name {
				return TV{e.x.heapGet(e.st, "Y."+g.name), nil}
			}
		}
		for _, g := range e.x.fn.lghosts {
			if a == "$"+g.name {
				return TV{e.x.heapGet(e.st, "Y."+g.name), nil}
			}
		}
	}
	name := a[1:]
	if e.fr == nil {
		e.fail(s, "no locals here")
	}
	o := e.findLocal(name)
	if o == nil && e.x.fn != nil {
		if ty := e.x.fn.local[name]; ty != "" {
			o = e.findByType(ty, e.x.fn.localLast[name], e.x.fn.localNth[name])
		}
	}
	if o == nil {
		if os.Getenv("GVC_DEBUG") != "" {
			debug.PrintStack()
			fmt.Fprintln(os.Stderr, e.fr.id, len(e.st.vars), e.pos)
			for k := range e.st.vars {
				fmt.Fprintln(os.Stderr, k.frame, k.obj)
			}
		}
		e.fail(s, "no local variable "+name)
	}
	return TV{e.x.readVar(e.frameOf(o), e.st, o), e.fr.subst(o.Type())}
}

func (e *Env) frameOf(o types.Object) *Frame { return e.fr }

func (e *Env) visible(o types.Object) bool {
	if e.pos == token.NoPos || o.Parent() == nil {
		return true
	}
	return o.Parent().Contains(e.pos) && o.Pos() <= e.pos
}

func (e *Env) findLocal(name string) types.Object {
	var best types.Object
	for f := e.fr; f != nil; f = f.parent {
		for k := range e.st.vars {
			if k.frame != f.id || k.obj.Name() != name || !e.visible(k.obj) {
				continue
			}
			if best == nil || k.obj.Pos() > best.Pos() {
				best = k.obj
			}
		}
		if best != nil {
			return best
		}
	}
	return nil
}

func (e *Env) findByType(ty string, last bool, nth int) types.Object {
	want := map[string]bool{}
	for n := range e.x.fn.local {
		want[n] = true
	}
	var cands []types.Object
	for f := e.fr; f != nil; f = f.parent {
		for k := range e.st.vars {
			if k.frame == f.id && tyName(f.subst(k.obj.Type())) == ty && e.visible(k.obj) && (nth > 0 || !want[k.obj.Name()]) {
				cands = append(cands, k.obj)
			}
		}
	}
	if len(cands) == 0 {
		return nil
	}
	sort.Slice(cands, func(i, j int) bool { return cands[i].Pos() < cands[j].Pos() })
	if nth > 0 {
		if nth > len(cands) {
			return nil
		}
		return cands[nth-1]
	}
	if last {
		return cands[len(cands)-1]
	}
	return cands[0]
}

// funApp applies a function value purely: a known function by its own (side effect free)
// body, an unknown one as an uninterpreted function.
func (e *Env) funApp(s *Sexp, f TV, as []TV) (TV, *Term) {
	x := e.x
	c := x.closures[f.t]
	var ts []*Term
	for _, a := range as {
		ts = append(ts, a.t)
	}
	if c == nil {
		var rt types.Type
		if f.ty != nil {
			if sig, ok := f.ty.Underlying().(*types.Signature); ok && sig.Results().Len() == 1 {
				rt = sig.Results().At(0).Type()
			}
		}
		if rt == nil {
			e.fail(s, "application of an untyped function value "+f.t.String())
		}
		return TV{x.papp(f.t, ts, rt), rt}, tTrue
	}
	// Execute the function on the given terms, collecting the conditions of its panics.
	sub := *x
	sub.dry = 1
	var outs []outcome
	base := e.st.clone()
	safe := tTrue
	collector := &panicCollector{}
	savedPanic := x.panicSink
	x.panicSink = collector
	savedDry := x.dry
	x.dry++
	collector.base = base.pc
	x.applyClosure(c, ts, base.clone(), &ast.Ident{Name: "spec"}, func(st *State, vs []*Term) { outs = append(outs, outcome{st, vs}) })
	x.dry = savedDry
	x.panicSink = savedPanic
	safe = And(collector.conds...)
	if len(outs) == 0 {
		return TV{x.prog.zero(c.sig.Results().At(0).Type()), c.sig.Results().At(0).Type()}, tFalse
	}
	vs, facts, ok := summarise(base, outs)
	if !ok {
		e.fail(s, "function value with side effects")
	}
	_ = facts
	return TV{vs[0], c.sig.Results().At(0).Type()}, safe
}

// panicCollector gathers, while a function value is applied in a specification, the
// conditions under which it does not panic.
type panicCollector struct {
	base  *Fact
	conds []*Term
}

func (p *panicCollector) add(st *State, goal *Term) {
	c := tTrue
	for _, f := range factsSince(st, p.base) {
		if f.branch {
			c = And(c, f.t)
		}
	}
	p.conds = append(p.conds, Implies(c, goal))
}

// ---- applying contracts at calls ----

func (x *Exec) suffixOf(tenv map[*types.TypeParam]types.Type) string {
	for _, t := range tenv {
		return suffix(x.prog.sortOf(t))
	}
	return ""
}

func (x *Exec) contractEnv(c *Contract, f *types.Func, tenv map[*types.TypeParam]types.Type, recv *Term, recvTy types.Type, as []*Term, st *State) *Env {
	env := &Env{x: x, st: st, names: map[string]TV{}, suffix: x.suffixOf(tenv), ctx: x.ctx}
	sig := substType(sigNoRecv(f.Type().(*types.Signature)), tenv).(*types.Signature)
	i := 0
	if recv != nil || f.Type().(*types.Signature).Recv() != nil {
		env.names[c.params[0]] = TV{recv, recvTy}
		i = 1
	}
	for j, a := range as {
		if i+j < len(c.params) {
			env.names[c.params[i+j]] = TV{a, sig.Params().At(j).Type()}
		}
	}
	return env
}

func (x *Exec) callContract(c *Contract, f *types.Func, tenv map[*types.TypeParam]types.Type, recv *Term, recvTy types.Type, as []*Term, st *State, n ast.Node, k func(*State, []*Term)) {
	if recv != nil && sortOfTerm(recv) == "Int" {
		x.nonNil(st, recv, n)
	}
	env := x.contractEnv(c, f, tenv, recv, recvTy, as, st)
	for _, r := range c.requires {
		x.oblige(st, env.bool(r.e), "precondition "+r.name+" of "+c.name, x.pos(n), r.tags)
	}
	old := st.clone()
	x.havocMods(st, old, c.mods, env)
	if c.allocs {
		x.bumpAlloc(st)
	}
	sig := substType(sigNoRecv(f.Type().(*types.Signature)), tenv).(*types.Signature)
	var res []*Term
	env2 := env.with(nil)
	env2.st, env2.old = st, old
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		nm := "r"
		if i < len(c.results) {
			nm = c.results[i]
		}
		r := fresh(nm, x.prog.sortOf(rt))
		st.assume(x.typeFacts(st, r, rt))
		res = append(res, r)
		if i < len(c.results) {
			env2.names[c.results[i]] = TV{r, rt}
		}
	}
	for _, e := range c.ensures {
		st.assume(env2.bool(e.e))
	}
	// A result the contract gives outright is used directly, so that terms stay simple.
	for i, r := range res {
		for f := st.pc; f != nil && f != old.pc; f = f.prev {
			if f.t.op == "=" && (f.t.args[0] == r && !mentions(f.t.args[1], r) || f.t.args[1] == r && !mentions(f.t.args[0], r)) {
				o := f.t.args[0]
				if o == r {
					o = f.t.args[1]
				}
				if len(o.args) < 12 {
					res[i] = o
				}
				break
			}
		}
	}
	k(st, res)
}

func mentions(t, s *Term) bool {
	m := map[string]bool{}
	t.syms(m)
	return m[s.op]
}

func (x *Exec) bumpAlloc(st *State) {
	o := x.nref(st)
	n := fresh("nref", "Int")
	st.wrote("nref", nil)
	st.heap["nref"] = n
	st.assume(Le(o, n))
}

// havocMods forgets what a modifies clause allows to change.
func (x *Exec) havocMods(st, old *State, mods []Mod, env *Env) {
	for _, m := range mods {
		name := env.sfx(m.comp)
		names := []string{name}
		if strings.HasSuffix(name, ".*") {
			names = x.compsWithPrefix(strings.TrimSuffix(name, "*"))
		}
		for _, nm := range names {
			cur := x.heapGet(st, nm)
			srt := comps[nm].sort
			switch {
			case m.idx != nil:
				e2 := *env
				e2.st = old
				i := e2.ev(m.idx).t
				_, vs := splitArr(srt)
				x.heapSet(st, nm, i, Store(cur, i, fresh("mod", vs)))
			case m.kind == "fresh":
				n := fresh("H", srt)
				x.havocFresh(st, nm, cur, n, x.nref(old))
				st.wrote(nm, x.nref(old))
				st.heap[nm] = n
			default:
				n := fresh("H", srt)
				x.heapSet(st, nm, nil, n)
			}
		}
	}
}

// havocFresh assumes the new value of a component agrees with the old below a reference.
func (x *Exec) havocFresh(st *State, name string, old, nw, below *Term) {
	qvar++
	b := fmt.Sprintf("r?%d", qvar)
	boundSorts[b] = "Int"
	r := Sym(b)
	st.assume(mkQuant("forall", []Binder{{b, "Int"}}, Implies(Lt(r, below), Eq(mkTerm("select", nw, r), mkTerm("select", old, r))), [][]*Term{{mkTerm("select", nw, r)}}))
}

// compsWithPrefix lists the field components of a struct type named by a prefix.
func (x *Exec) compsWithPrefix(p string) []string {
	// P.types_Datum. -> sort S_types_Datum
	sn := "S_" + strings.TrimSuffix(strings.TrimPrefix(p, "P."), ".")
	dt := dtByName[sn]
	if dt == nil {
		panic(&specErr{"no struct for " + p})
	}
	var out []string
	for _, f := range dt.ctors[0].fields {
		fn := f.sel[len(sn)+1:]
		out = append(out, x.comp("P."+sn[2:]+"."+fn, arrSort("Int", f.sort)))
	}
	return out
}
