package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Obligation is one proof obligation.
type Obligation struct {
	fn, kind, where string
	tags            []string
	goal            *Term
	facts           []*Term
	status          string // proved, failed
	backend         string
	seconds         float64
	detail          string
	query           string
	cover           bool
}

func (o *Obligation) String() string { return o.fn + ": " + o.kind + " at " + o.where }

// printer writes terms in SMT-LIB, naming shared ground subterms.
type printer struct {
	names map[*Term]string
	out   *strings.Builder
	n     int
	decls map[string]bool
	size  map[*Term]int
	bound map[*Term]bool
	pre   string
	free  bool // bound variables of quantifiers may occur free
}

func newPrinter(pre string) *printer {
	return &printer{names: map[*Term]string{}, out: &strings.Builder{}, decls: map[string]bool{}, size: map[*Term]int{}, bound: map[*Term]bool{}, pre: pre}
}

func (p *printer) hasBound(t *Term) bool {
	if v, ok := p.bound[t]; ok {
		return v
	}
	r := len(t.args) == 0 && strings.Contains(t.op, "?")
	if t.op == "forall" || t.op == "exists" {
		r = true
	}
	for _, a := range t.args {
		if r {
			break
		}
		r = p.hasBound(a)
	}
	p.bound[t] = r
	return r
}

func (p *printer) sz(t *Term) int {
	if v, ok := p.size[t]; ok {
		return v
	}
	n := 1
	for _, a := range t.args {
		n += p.sz(a)
		if n > 1000000 {
			n = 1000000
		}
	}
	p.size[t] = n
	return n
}

func (p *printer) declare(t *Term) {
	m := map[string]bool{}
	t.syms(m)
	var ns []string
	for n := range m {
		if !p.decls[n] {
			p.decls[n] = true
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	for _, n := range ns {
		if bs := boundSorts[n]; p.free && bs != "" {
			fmt.Fprintf(p.out, "(declare-const %s %s)\n", n, bs)
		}
		if d := funDecls[n]; d != nil && !preDeclared[n] {
			fmt.Fprintf(p.out, "(declare-fun %s (%s) %s)\n", n, strings.Join(d.args, " "), d.ret)
		}
	}
}

// preDeclared are functions the prelude declares itself.
var preDeclared = map[string]bool{}

// print returns the text of t, having written the definitions it needs.
func (p *printer) print(t *Term) string {
	var b strings.Builder
	p.walk(t, &b)
	return b.String()
}

func (p *printer) walk(t *Term, b *strings.Builder) {
	if n, ok := p.names[t]; ok {
		b.WriteString(n)
		return
	}
	if len(t.args) > 0 && t.op != "forall" && t.op != "exists" && p.sz(t) > 10 && !p.hasBound(t) {
		var d strings.Builder
		p.raw(t, &d)
		p.n++
		name := fmt.Sprintf("$%s%d", p.pre, p.n)
		fmt.Fprintf(p.out, "(define-fun %s () %s %s)\n", name, sortOfTerm(t), d.String())
		p.names[t] = name
		b.WriteString(name)
		return
	}
	p.raw(t, b)
}

func (p *printer) raw(t *Term, b *strings.Builder) {
	switch {
	case t.op == "forall" || t.op == "exists":
		b.WriteString("(" + t.op + " (")
		for _, x := range t.binders {
			b.WriteString("(" + x.name + " " + x.sort + ")")
		}
		b.WriteString(") ")
		if len(t.pats) > 0 {
			b.WriteString("(! ")
		}
		p.walk(t.args[0], b)
		for _, pt := range t.pats {
			b.WriteString(" :pattern (")
			for i, q := range pt {
				if i > 0 {
					b.WriteByte(' ')
				}
				p.walk(q, b)
			}
			b.WriteByte(')')
		}
		if len(t.pats) > 0 {
			b.WriteByte(')')
		}
		b.WriteByte(')')
	case t.op == "constarr":
		b.WriteString("((as const " + t.args[1].op + ") ")
		p.walk(t.args[0], b)
		b.WriteByte(')')
	case len(t.args) == 0:
		b.WriteString(t.op)
	default:
		op := t.op
		if strings.HasPrefix(op, "is-") && ctors[op[3:]] != nil {
			op = "(_ is " + op[3:] + ")"
		}
		b.WriteString("(" + op)
		for _, a := range t.args {
			b.WriteByte(' ')
			p.walk(a, b)
		}
		b.WriteByte(')')
	}
}

// ---- pruner ----

type Pruner struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	p     *printer
	stack []*Term // asserted, in order
	marks []int   // stack length at each push
	memo  map[string]bool
	n     int
	dead  bool
	spent time.Duration
}

var z3New = "z3-new"

func newPruner(prelude string) *Pruner {
	r := &Pruner{p: newPrinter("p")}
	r.p.free = true
	r.start(prelude)
	return r
}

func (r *Pruner) start(prelude string) {
	r.cmd = exec.Command(z3New, "-in", "-smt2")
	r.in, _ = r.cmd.StdinPipe()
	o, _ := r.cmd.StdoutPipe()
	r.out = bufio.NewReader(o)
	if err := r.cmd.Start(); err != nil {
		r.dead = true
		return
	}
	io.WriteString(r.in, "(set-option :global-declarations true)\n(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :timeout 100)\n"+prelude)
}

func (r *Pruner) close() {
	if r.cmd != nil && r.cmd.Process != nil {
		r.in.Close()
		r.cmd.Process.Kill()
		r.cmd.Wait()
	}
}

var quantMemo = map[*Term]bool{}

func hasQuantM(t *Term) bool {
	if v, ok := quantMemo[t]; ok {
		return v
	}
	r := t.op == "forall" || t.op == "exists"
	for _, a := range t.args {
		if r {
			break
		}
		r = hasQuantM(a)
	}
	quantMemo[t] = r
	return r
}

// unsat reports whether the ground facts contradict the goal.
func (r *Pruner) unsat(facts []*Term, goal *Term) bool {
	if goal == tFalse {
		return true
	}
	if r.dead {
		return false
	}
	t0 := time.Now()
	defer func() { r.spent += time.Since(t0) }()
	var ground []*Term
	for _, f := range facts {
		if f == tFalse {
			return true
		}
		if !hasQuantM(f) {
			ground = append(ground, f)
		}
	}
	p := 0
	for p < len(ground) && p < len(r.stack) && ground[p] == r.stack[p] {
		p++
	}
	var b strings.Builder
	for len(r.marks) > 0 && r.marks[len(r.marks)-1] >= p && len(r.stack) > p {
		b.WriteString("(pop 1)\n")
		r.stack = r.stack[:r.marks[len(r.marks)-1]]
		r.marks = r.marks[:len(r.marks)-1]
	}
	for len(r.stack) > p {
		b.WriteString("(pop 1)\n")
		r.stack = r.stack[:r.marks[len(r.marks)-1]]
		r.marks = r.marks[:len(r.marks)-1]
	}
	if len(r.stack) < len(ground) {
		r.marks = append(r.marks, len(r.stack))
		b.WriteString("(push 1)\n")
		for _, f := range ground[len(r.stack):] {
			r.p.out.Reset()
			r.p.declare(f)
			s := r.p.print(f)
			b.WriteString(r.p.out.String())
			b.WriteString("(assert " + s + ")\n")
		}
		r.stack = append(r.stack, ground[len(r.stack):]...)
	}
	if goal != tTrue {
		r.p.out.Reset()
		r.p.declare(goal)
		s := r.p.print(goal)
		b.WriteString(r.p.out.String())
		b.WriteString("(push 1)\n(assert " + s + ")\n(check-sat)\n(pop 1)\n")
	} else {
		b.WriteString("(check-sat)\n")
	}
	r.n++
	if prunerLog != nil {
		io.WriteString(prunerLog, b.String())
	}
	if _, err := io.WriteString(r.in, b.String()); err != nil {
		r.dead = true
		return false
	}
	for {
		line, err := r.out.ReadString('\n')
		if err != nil {
			r.dead = true
			return false
		}
		line = strings.TrimSpace(line)
		switch line {
		case "sat", "unknown", "timeout":
			return false
		case "unsat":
			return true
		}
		if strings.HasPrefix(line, "(error") {
			fmt.Fprintln(os.Stderr, "pruner: "+line)
			// an error does not answer the check; keep reading
		}
	}
}

var prunerLog io.Writer

// ---- queries ----

func (o *Obligation) smt(prelude string, axioms []*Term, facts []*Term) string {
	p := newPrinter("d")
	var b strings.Builder
	b.WriteString("(set-logic ALL)\n")
	b.WriteString(prelude)
	add := func(t *Term) {
		p.out.Reset()
		p.declare(t)
		s := p.print(t)
		b.WriteString(p.out.String())
		b.WriteString("(assert " + s + ")\n")
	}
	for _, a := range axioms {
		add(a)
	}
	seen := map[*Term]bool{}
	for _, f := range facts {
		if !seen[f] {
			seen[f] = true
			add(f)
		}
	}
	if !o.cover {
		add(Not(o.goal))
	} else {
		add(o.goal)
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// relevant keeps the axioms whose function symbols occur among the facts, transitively.
func relevant(axioms []*Axiom, facts []*Term) []*Term {
	have := map[string]bool{}
	for _, f := range facts {
		f.syms(have)
	}
	var out []*Term
	used := make([]bool, len(axioms))
	for {
		grew := false
		for i, a := range axioms {
			if used[i] {
				continue
			}
			m := map[string]bool{}
			a.t.syms(m)
			ok := true
			if len(a.keys) > 0 {
				ok = false
				for _, k := range a.keys {
					if have[k] {
						ok = true
					}
				}
			} else {
				ok = false
				for s := range m {
					if have[s] && funDecls[s] != nil {
						ok = true
					}
				}
			}
			if ok {
				used[i] = true
				grew = true
				for s := range m {
					have[s] = true
				}
			}
		}
		if !grew {
			break
		}
	}
	for i, a := range axioms {
		if used[i] {
			out = append(out, a.t)
		}
	}
	return out
}

// initialMark is the number of constants that say what the function was given.
var initialMark int

// narrow leaves out the general facts about what the function was given. A proof that does
// without them is a proof.
func narrow(facts []*Term) (out []*Term) {
	for _, f := range facts {
		if hasQuantM(f) {
			given, later := false, false
			m := map[string]bool{}
			f.syms(m)
			for s := range m {
				n := symNumber(s)
				given = given || strings.HasPrefix(s, "H0.") || n >= 0 && n <= initialMark
				later = later || n > initialMark
			}
			if given && !later {
				continue
			}
		}
		out = append(out, f)
	}
	return
}

type backend struct {
	name string
	args func(file string, secs int) []string
}

var backends = []backend{
	{"z3-new", func(f string, s int) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false", f}
	}},
	{"z3", func(f string, s int) []string {
		return []string{"z3", "-smt2", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false", f}
	}},
	{"cvc5", func(f string, s int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", s*1000), f}
	}},
	{"z3-new (mbqi)", func(f string, s int) []string { return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", s), f} }},
	{"z3-new (seed)", func(f string, s int) []string {
		return []string{"z3-new", "-smt2", fmt.Sprintf("-T:%d", s), "auto_config=false", "smt.mbqi=false", "smt.random_seed=7", "smt.arith.solver=2", f}
	}},
}

func runSolver(args []string, secs int) string {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs+2)*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, args[0], args[1:]...)
	out, _ := c.CombinedOutput()
	s := strings.TrimSpace(string(out))
	if i := strings.IndexByte(s, '\n'); i >= 0 && !strings.HasPrefix(s, "(error") {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// maxFail, when positive, is the number of failures after which a function's remaining obligations are left undecided.
var maxFail int

func sameFacts(a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := len(a) - 1; i >= 0; i-- {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// solveAll discharges the obligations in parallel. Those of one program point are first
// tried together.
func solveAll(obls []*Obligation, prelude string, axioms []*Axiom, workers, secs int, dir string) {
	var wg sync.WaitGroup
	ch := make(chan []int)
	var mu sync.Mutex
	var failures atomic.Int32
	// write gives the query, and the one with fewer facts if there is one.
	write := func(o *Obligation, name string) (f, nf string) {
		query := func(facts []*Term, name string) string {
			all := append(append([]*Term{}, facts...), o.goal)
			q := o.smt(prelude, relevant(axioms, all), facts)
			f := filepath.Join(dir, name)
			os.WriteFile(f, []byte(q), 0o644)
			return f
		}
		mu.Lock() // printing uses shared memo tables
		defer mu.Unlock()
		f = query(o.facts, name)
		if few := narrow(o.facts); len(few) < len(o.facts) && !o.cover {
			nf = query(few, "n"+name)
		}
		return
	}
	if os.Getenv("GVC_DUMP") != "" {
		// For development: only write the queries.
		ix, _ := os.Create(filepath.Join(dir, "index"))
		for i, o := range obls {
			if o.status == "" {
				_, nf := write(o, fmt.Sprintf("q%d.smt2", i))
				fmt.Fprintf(ix, "q%d %v %s at %s\n", i, nf != "", o.kind, o.where)
			}
		}
		ix.Close()
		return
	}
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for g := range ch {
				if len(g) > 1 && !(maxFail > 0 && int(failures.Load()) >= maxFail) {
					c := *obls[g[0]]
					var goals []*Term
					for _, i := range g {
						goals = append(goals, obls[i].goal)
					}
					mu.Lock() // terms are shared
					c.goal = And(goals...)
					mu.Unlock()
					f, nf := write(&c, fmt.Sprintf("g%d.smt2", g[0]))
					t0 := time.Now()
					done := false
					for _, a := range attempts(f, nf, 2, 3) {
						if runSolver(a.be.args(a.file, a.secs), a.secs) == "unsat" {
							for _, i := range g {
								obls[i].status, obls[i].backend, obls[i].query = "proved", a.be.name, f
								obls[i].seconds = time.Since(t0).Seconds() / float64(len(g))
							}
							done = true
							break
						}
					}
					if done {
						continue
					}
				}
				for _, i := range g {
					o := obls[i]
					if maxFail > 0 && int(failures.Load()) >= maxFail {
						o.status, o.detail = "skipped", "not attempted after other obligations failed"
						continue
					}
					nf := ""
					o.query, nf = write(o, fmt.Sprintf("q%d.smt2", i))
					t0 := time.Now()
					solveOne(o, o.query, nf, secs)
					o.seconds = time.Since(t0).Seconds()
					if o.status != "proved" {
						failures.Add(1)
					}
				}
			}
		}()
	}
	var g []int
	for i, o := range obls {
		if o.status != "" {
			continue
		}
		if len(g) > 0 && (o.cover || len(g) >= 12 || !sameFacts(o.facts, obls[g[0]].facts)) {
			ch <- g
			g = nil
		}
		g = append(g, i)
		if o.cover {
			ch <- g
			g = nil
		}
	}
	if len(g) > 0 {
		ch <- g
	}
	close(ch)
	wg.Wait()
	// Some exits may be infeasible, but not all of them.
	some := false
	for _, o := range obls {
		some = some || o.cover && o.status == "proved" && strings.HasSuffix(o.kind, "can be reached")
	}
	for _, o := range obls {
		if some && o.cover && o.status == "failed" && strings.HasSuffix(o.kind, "can be reached") {
			o.status, o.backend, o.detail = "proved", "z3-new", "infeasible"
		}
	}
}

type attempt struct {
	be   backend
	file string
	secs int
	few  bool
}

// attempts are the solvers' turns at a query, or at the one with fewer facts.
func attempts(f, nf string, secs, max int) (as []attempt) {
	add := func(file string, is ...int) {
		for _, i := range is {
			if file != "" {
				as = append(as, attempt{backends[i], file, secs, file == nf})
			}
		}
	}
	add(nf, 0)
	add(f, 0, 1)
	if nf != "" && max > 3 {
		add(nf, 1, 2)
	}
	if max > 3 {
		add(f, 2, 3)
	}
	if max > 4 {
		add(f, 4)
	}
	return
}

func solveOne(o *Obligation, f, nf string, secs int) {
	if o.cover {
		// A cover query must not be refuted.
		r := runSolver(backends[0].args(f, 2), 2)
		if r == "unsat" {
			o.status, o.detail = "failed", "the assumptions are contradictory"
		} else {
			o.status, o.backend = "proved", "z3-new"
		}
		return
	}
	var det []string
	for _, a := range append(attempts(f, nf, 3, 4), attempts(f, nf, secs, 5)...) {
		r := runSolver(a.be.args(a.file, a.secs), a.secs)
		if r == "unsat" {
			o.status, o.backend = "proved", a.be.name
			return
		}
		if r == "sat" && !a.few && (strings.Contains(a.be.name, "mbqi") || a.be.name == "cvc5") {
			o.status, o.detail = "failed", a.be.name+": sat"
			return
		}
		det = append(det, a.be.name+": "+r)
	}
	o.status, o.detail = "failed", strings.Join(det, "; ")
}
