package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is an immutable, hash-consed SMT-LIB term.
type Term struct {
	op      string
	args    []*Term
	binders []Binder // for forall/exists
	pats    [][]*Term
	id      int
	size    int
	qh      int // nesting of quantifiers inside
}

type Binder struct{ name, sort string }

var termTab = map[string]*Term{}

func mkTerm(op string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	for _, a := range args {
		fmt.Fprintf(&b, " %d", a.id)
	}
	k := b.String()
	if t := termTab[k]; t != nil {
		return t
	}
	n := 1
	for _, a := range args {
		n += a.size
		if n > 1<<30 {
			n = 1 << 30
		}
	}
	t := &Term{op: op, args: args, id: len(termTab) + 1, size: n}
	for _, a := range args {
		t.qh = max(t.qh, a.qh)
	}
	termTab[k] = t
	return t
}

var sortNums = map[string]int{}

// boundName names a bound variable after its place, so that formulas equal up to their
// bound variables are one term.
func boundName(qh, i int, sort string) string {
	n, ok := sortNums[sort]
	if !ok {
		n = len(sortNums)
		sortNums[sort] = n
	}
	b := fmt.Sprintf("q%d.%d.%d?", qh, i, n)
	boundSorts[b] = sort
	return b
}

func mkQuant(q string, bs []Binder, body *Term, pats [][]*Term) *Term {
	if body == tTrue || body == tFalse || len(bs) == 0 {
		return body
	}
	canon := true
	for i, x := range bs {
		canon = canon && x.name == boundName(body.qh+1, i, x.sort)
	}
	if !canon {
		m := map[string]*Term{}
		nb := make([]Binder, len(bs))
		for i, x := range bs {
			n := boundName(body.qh+1, i, x.sort)
			nb[i] = Binder{n, x.sort}
			m[x.name] = Sym(n)
		}
		memo := map[*Term]*Term{}
		np := make([][]*Term, len(pats))
		for i, p := range pats {
			for _, t := range p {
				np[i] = append(np[i], substM(t, m, memo))
			}
		}
		bs, body, pats = nb, substM(body, m, memo), np
		if body == tTrue || body == tFalse {
			return body
		}
	}
	var b strings.Builder
	b.WriteString("Q" + q)
	for _, x := range bs {
		b.WriteString(" " + x.name + ":" + x.sort)
	}
	fmt.Fprintf(&b, " %d", body.id)
	for _, p := range pats {
		b.WriteString("|")
		for _, t := range p {
			fmt.Fprintf(&b, " %d", t.id)
		}
	}
	k := b.String()
	if t := termTab[k]; t != nil {
		return t
	}
	t := &Term{op: q, args: []*Term{body}, binders: bs, pats: pats, id: len(termTab) + 1, size: body.size + 1, qh: body.qh + 1}
	termTab[k] = t
	return t
}

func Sym(s string) *Term { return mkTerm(s) }

var tTrue, tFalse = Sym("true"), Sym("false")

func Num(n int64) *Term { return BigNum(big.NewInt(n)) }
func BigNum(n *big.Int) *Term {
	if n.Sign() < 0 {
		return mkTerm("-", Sym(new(big.Int).Neg(n).String()))
	}
	return Sym(n.String())
}

// numVal returns the integer a literal term denotes.
func numVal(t *Term) (*big.Int, bool) {
	if len(t.args) == 0 && t.op != "" && t.op[0] >= '0' && t.op[0] <= '9' {
		n, ok := new(big.Int).SetString(t.op, 10)
		return n, ok
	}
	if t.op == "-" && len(t.args) == 1 {
		n, ok := numVal(t.args[0])
		if ok {
			return new(big.Int).Neg(n), true
		}
	}
	return nil, false
}

func And(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == tTrue {
			continue
		}
		if t == tFalse {
			return tFalse
		}
		if t.op == "and" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return tFalse
		}
	}
	switch len(out) {
	case 0:
		return tTrue
	case 1:
		return out[0]
	}
	return mkTerm("and", out...)
}

func Or(ts ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == tFalse {
			continue
		}
		if t == tTrue {
			return tTrue
		}
		if t.op == "or" {
			for _, a := range t.args {
				if !seen[a] {
					seen[a] = true
					out = append(out, a)
				}
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return tTrue
		}
	}
	switch len(out) {
	case 0:
		return tFalse
	case 1:
		return out[0]
	}
	return mkTerm("or", out...)
}

func Not(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.op == "not":
		return t.args[0]
	}
	return mkTerm("not", t)
}

func Implies(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return Not(a)
	}
	if a == b {
		return tTrue
	}
	return mkTerm("=>", a, b)
}

func Ite(c, a, b *Term) *Term {
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	case a == tTrue && b == tFalse:
		return c
	case a == tFalse && b == tTrue:
		return Not(c)
	}
	if c.op == "not" {
		return Ite(c.args[0], b, a)
	}
	if a == tTrue {
		return Or(c, b)
	}
	if b == tFalse {
		return And(c, a)
	}
	if a == tFalse {
		return And(Not(c), b)
	}
	if b == tTrue {
		return Or(Not(c), a)
	}
	return mkTerm("ite", c, a, b)
}

// isCtor reports whether op is a datatype constructor registered with the sorts.
func isCtorTerm(t *Term) *Ctor {
	return ctors[t.op]
}

func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if x, ok := numVal(a); ok {
		if y, ok := numVal(b); ok {
			if x.Cmp(y) == 0 {
				return tTrue
			}
			return tFalse
		}
	}
	if isLit(a) && isLit(b) {
		return tFalse
	}
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse {
		return Not(b)
	}
	if b == tFalse {
		return Not(a)
	}
	ca, cb := isCtorTerm(a), isCtorTerm(b)
	if ca != nil && cb != nil {
		if ca != cb {
			return tFalse
		}
		var cs []*Term
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	// offset + base symbols: (+ x 1) = x
	if ba, oa := splitOff(a); ba != nil {
		if bb, ob := splitOff(b); bb == ba {
			if oa.Cmp(ob) != 0 {
				return tFalse
			}
		}
	}
	if a.op == "ite" {
		if _, ok := numVal(b); ok || cb != nil && len(b.args) == 0 {
			return Ite(a.args[0], Eq(a.args[1], b), Eq(a.args[2], b))
		}
	}
	if b.op == "ite" {
		if _, ok := numVal(a); ok || ca != nil && len(a.args) == 0 {
			return Ite(b.args[0], Eq(b.args[1], a), Eq(b.args[2], a))
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm("=", a, b)
}

// isLit reports whether t is a canonically written numeral.
func isLit(t *Term) bool {
	return len(t.args) == 0 && t.op != "" && t.op[0] >= '0' && t.op[0] <= '9'
}

func splitOff(t *Term) (*Term, *big.Int) {
	if t.op == "+" && len(t.args) == 2 {
		if n, ok := numVal(t.args[1]); ok {
			return t.args[0], n
		}
	}
	return t, new(big.Int)
}

func Add(a, b *Term) *Term {
	x, okx := numVal(a)
	y, oky := numVal(b)
	if okx && oky {
		return BigNum(new(big.Int).Add(x, y))
	}
	if okx {
		a, b, x, y, okx, oky = b, a, y, x, oky, okx
	}
	if oky {
		if y.Sign() == 0 {
			return a
		}
		base, off := splitOff(a)
		s := new(big.Int).Add(off, y)
		if s.Sign() == 0 {
			return base
		}
		return mkTerm("+", base, BigNum(s))
	}
	return mkTerm("+", a, b)
}

func Sub(a, b *Term) *Term {
	if y, ok := numVal(b); ok {
		return Add(a, BigNum(new(big.Int).Neg(y)))
	}
	if a == b {
		return Num(0)
	}
	return mkTerm("-", a, b)
}

func cmpTerm(op string, a, b *Term) *Term {
	ba, oa := splitOff(a)
	bb, ob := splitOff(b)
	if x, ok := numVal(a); ok {
		ba, oa = nil, x
	}
	if x, ok := numVal(b); ok {
		bb, ob = nil, x
	}
	if ba == bb {
		c := oa.Cmp(ob)
		if op == "<" && c < 0 || op == "<=" && c <= 0 {
			return tTrue
		}
		return tFalse
	}
	return mkTerm(op, a, b)
}
func Lt(a, b *Term) *Term { return cmpTerm("<", a, b) }
func Le(a, b *Term) *Term { return cmpTerm("<=", a, b) }

func Select(arr, i *Term) *Term {
	for arr.op == "store" {
		e := Eq(arr.args[1], i)
		if e == tTrue {
			return arr.args[2]
		}
		if e == tFalse {
			arr = arr.args[0]
			continue
		}
		break
	}
	if arr.op == "constarr" {
		return arr.args[0]
	}
	return mkTerm("select", arr, i)
}

func Store(arr, i, v *Term) *Term {
	if arr.op == "store" && arr.args[1] == i {
		arr = arr.args[0]
	}
	return mkTerm("store", arr, i, v)
}

// ConstArr is the array of the given sort with value v everywhere.
func ConstArr(sort string, v *Term) *Term {
	t := mkTerm("constarr", v, Sym(sort))
	return t
}

// App applies an operator with simplification.
func App(op string, args ...*Term) *Term {
	switch op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		if len(args) == 2 {
			return Implies(args[0], args[1])
		}
		return Implies(args[0], App("=>", args[1:]...))
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "=":
		if len(args) == 2 {
			return Eq(args[0], args[1])
		}
	case "distinct":
		if len(args) == 2 {
			return Not(Eq(args[0], args[1]))
		}
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case ">":
		return Lt(args[1], args[0])
	case ">=":
		return Le(args[1], args[0])
	case "+":
		if len(args) == 2 {
			return Add(args[0], args[1])
		}
	case "-":
		if len(args) == 2 {
			return Sub(args[0], args[1])
		}
		if n, ok := numVal(args[0]); ok && len(args) == 1 {
			return BigNum(new(big.Int).Neg(n))
		}
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	}
	if s := selectors[op]; s != nil && len(args) == 1 {
		a := args[0]
		if c := isCtorTerm(a); c != nil {
			if c == s.ctor {
				return a.args[s.idx]
			}
		}
		if a.op == "ite" {
			l, r := App(op, a.args[1]), App(op, a.args[2])
			if l.op != op || r.op != op {
				return Ite(a.args[0], l, r)
			}
		}
	}
	if strings.HasPrefix(op, "is-") && len(args) == 1 {
		a := args[0]
		if c := isCtorTerm(a); c != nil {
			if c.name == op[3:] {
				return tTrue
			}
			return tFalse
		}
		if a.op == "ite" {
			return Ite(a.args[0], App(op, a.args[1]), App(op, a.args[2]))
		}
		if ct := ctors[op[3:]]; ct != nil && ct.dt.single() {
			return tTrue
		}
	}
	return mkTerm(op, args...)
}

// write prints the term, introducing lets for shared large subterms.
func (t *Term) String() string {
	var b strings.Builder
	t.write(&b)
	return b.String()
}

func (t *Term) write(b *strings.Builder) {
	switch {
	case t.op == "forall" && t.binders != nil || t.op == "exists" && t.binders != nil:
		b.WriteString("(" + t.op + " (")
		for _, x := range t.binders {
			b.WriteString("(" + x.name + " " + x.sort + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		t.args[0].write(b)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				b.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						b.WriteByte(' ')
					}
					x.write(b)
				}
				b.WriteString(")")
			}
			b.WriteString(")")
		}
		b.WriteString(")")
	case t.op == "constarr":
		b.WriteString("((as const " + t.args[1].op + ") ")
		t.args[0].write(b)
		b.WriteString(")")
	case len(t.args) == 0:
		b.WriteString(t.op)
	default:
		op := t.op
		if strings.HasPrefix(op, "is-") && ctors[op[3:]] != nil {
			op = "(_ is " + op[3:] + ")"
		}
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			a.write(b)
		}
		b.WriteByte(')')
	}
}

// syms collects the leaf symbols of a term.
func (t *Term) syms(out map[string]bool) {
	collectSyms(t, out, map[*Term]bool{})
}

func collectSyms(t *Term, out map[string]bool, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	out[t.op] = true
	for _, a := range t.args {
		collectSyms(a, out, seen)
	}
	for _, p := range t.pats {
		for _, x := range p {
			collectSyms(x, out, seen)
		}
	}
}

func (t *Term) hasQuant() bool { return hasQ(t, map[*Term]bool{}) }
func hasQ(t *Term, seen map[*Term]bool) bool {
	if t.binders != nil {
		return true
	}
	if seen[t] {
		return false
	}
	seen[t] = true
	for _, a := range t.args {
		if hasQ(a, seen) {
			return true
		}
	}
	return false
}

// subst replaces leaf symbols by terms.
func subst(t *Term, m map[string]*Term) *Term {
	return substM(t, m, map[*Term]*Term{})
}

func substM(t *Term, m map[string]*Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	var r *Term
	if t.binders != nil {
		pats := make([][]*Term, len(t.pats))
		for i, p := range t.pats {
			for _, x := range p {
				pats[i] = append(pats[i], substM(x, m, memo))
			}
		}
		r = mkQuant(t.op, t.binders, substM(t.args[0], m, memo), pats)
	} else if len(t.args) == 0 {
		r = t
		if x, ok := m[t.op]; ok {
			r = x
		}
	} else if t.op == "constarr" {
		r = ConstArr(t.args[1].op, substM(t.args[0], m, memo))
	} else {
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = substM(a, m, memo)
			ch = ch || as[i] != a
		}
		if ch {
			r = App(t.op, as...)
		} else {
			r = t
		}
	}
	memo[t] = r
	return r
}

// ---- s-expressions ----

type Sexp struct {
	atom string
	list []*Sexp
	pos  string
}

func (s *Sexp) isAtom() bool { return s.list == nil && s.atom != "" }
func (s *Sexp) String() string {
	if s.isAtom() {
		return s.atom
	}
	var parts []string
	for _, x := range s.list {
		parts = append(parts, x.String())
	}
	return "(" + strings.Join(parts, " ") + ")"
}
func (s *Sexp) head() string {
	if s.list != nil && len(s.list) > 0 && s.list[0].isAtom() {
		return s.list[0].atom
	}
	return ""
}

func parseSexps(src, file string) ([]*Sexp, error) {
	line := 1
	i := 0
	var parse func() (*Sexp, error)
	skip := func() {
		for i < len(src) {
			c := src[i]
			if c == '\n' {
				line++
				i++
			} else if c == ' ' || c == '\t' || c == '\r' {
				i++
			} else if c == ';' {
				for i < len(src) && src[i] != '\n' {
					i++
				}
			} else {
				return
			}
		}
	}
	parse = func() (*Sexp, error) {
		skip()
		if i >= len(src) {
			return nil, fmt.Errorf("%s:%d: unexpected end", file, line)
		}
		pos := fmt.Sprintf("%s:%d", file, line)
		switch c := src[i]; {
		case c == '(':
			i++
			s := &Sexp{list: []*Sexp{}, pos: pos}
			for {
				skip()
				if i >= len(src) {
					return nil, fmt.Errorf("%s: unclosed (", pos)
				}
				if src[i] == ')' {
					i++
					return s, nil
				}
				x, err := parse()
				if err != nil {
					return nil, err
				}
				s.list = append(s.list, x)
			}
		case c == ')':
			return nil, fmt.Errorf("%s: unexpected )", pos)
		case c == '"':
			j := i + 1
			for j < len(src) && src[j] != '"' {
				j++
			}
			s := &Sexp{atom: src[i : j+1], pos: pos}
			i = j + 1
			return s, nil
		default:
			j := i
			for j < len(src) && !strings.ContainsRune(" \t\r\n();\"", rune(src[j])) {
				j++
			}
			s := &Sexp{atom: src[i:j], pos: pos}
			i = j
			return s, nil
		}
	}
	var out []*Sexp
	for {
		skip()
		if i >= len(src) {
			return out, nil
		}
		s, err := parse()
		if err != nil {
			return nil, err
		}
		out = append(out, s)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
