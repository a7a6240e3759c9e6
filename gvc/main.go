package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"slices"
	"sort"
	"strings"
	"sync"
	"time"
)

type oblJSON struct {
	Fn, Kind, Where, Status, Backend, Detail, Query string
	Tags                                            []string
	Seconds                                         float64
	Cover                                           bool
}

type resultJSON struct {
	Name    string
	Err     string
	Obls    []oblJSON
	Inlined []string
	Called  []string
	Paths   int
	Seconds float64
}

func main() {
	repo := flag.String("repo", "/repo", "repository under verification")
	spec := flag.String("spec", "/verif/spec", "contracts")
	prop := flag.String("prop", "", "property to check (empty: all)")
	fn := flag.String("func", "", "only this function")
	skip := flag.String("skip", "", "not these functions (comma-separated)")
	inst := flag.String("inst", "", "only this instance")
	child := flag.Bool("child", false, "verify one function and write JSON")
	secs := flag.Int("timeout", 20, "solver seconds per obligation")
	out := flag.String("out", "", "write the results as JSON")
	keep := flag.String("keep", "", "keep queries in this directory")
	verbose := flag.Bool("v", false, "list every obligation")
	plog := flag.String("plog", "", "log of the pruner's input")
	workers := flag.Int("workers", 0, "solvers run at once")
	flag.IntVar(&maxFail, "maxfail", 0, "stop working on a function after this many failures")
	fmt.Sscan(os.Getenv("GVC_STOP"), &stopLoop)
	flag.Parse()

	if *child {
		runChild(*repo, *spec, *prop, *fn, *inst, *secs, *keep, *plog, *workers)
		return
	}
	initSorts()
	prog, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	sp, err := loadSpecSafe(prog, *spec)
	if err != nil {
		fmt.Fprintln(os.Stderr, "spec:", err)
		os.Exit(2)
	}
	type job struct{ fn, inst string }
	var jobs []job
	for _, f := range sp.funcs {
		if *fn != "" && f.name != *fn {
			continue
		}
		if slices.Contains(strings.Split(*skip, ","), f.name) {
			continue
		}
		if *prop != "" && !tagsOf(f)[*prop] {
			continue
		}
		insts := f.insts
		if len(insts) == 0 {
			insts = []string{""}
		}
		for _, i := range insts {
			if *inst != "" && i != *inst {
				continue
			}
			jobs = append(jobs, job{f.name, i})
		}
	}
	// Longest first.
	sort.SliceStable(jobs, func(i, j int) bool { return sp.byFunc[jobs[i].fn].weight > sp.byFunc[jobs[j].fn].weight })
	// A property is also decided for the functions that the others' proofs call by contract.
	var mu sync.Mutex
	known := map[job]bool{}
	for _, j := range jobs {
		known[j] = true
	}
	calledBy := func(names []string) (more []job) {
		for _, n := range names {
			for _, f := range sp.funcs {
				if (f.name != n && (f.contract == nil || f.contract.name != n)) || slices.Contains(strings.Split(*skip, ","), f.name) {
					continue
				}
				insts := f.insts
				if len(insts) == 0 {
					insts = []string{""}
				}
				for _, i := range insts {
					if j := (job{f.name, i}); !known[j] {
						known[j] = true
						more = append(more, j)
					}
				}
			}
		}
		return
	}
	var results []*resultJSON
	var wg sync.WaitGroup
	sem := make(chan bool, runtime.NumCPU())
	exe, _ := os.Executable()
	t0 := time.Now()
	few := len(jobs) < 3 && *prop == ""
	var start func(j job)
	start = func(j job) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			w := 2
			if sp.byFunc[j.fn].weight > 0 {
				w = 6
			}
			if few {
				w = runtime.NumCPU()
			}
			args := []string{"-child", "-repo", *repo, "-spec", *spec, "-prop", *prop, "-func", j.fn, "-inst", j.inst, "-timeout", fmt.Sprint(*secs), "-keep", *keep, "-plog", *plog, "-workers", fmt.Sprint(w), "-maxfail", fmt.Sprint(maxFail)}
			c := exec.Command(exe, args...)
			c.Stderr = os.Stderr
			var b []byte
			o, err := c.StdoutPipe()
			if err == nil {
				err = c.Start()
			}
			if err == nil {
				rd := bufio.NewReader(o)
				for {
					l, e := rd.ReadBytes('\n')
					if len(l) > 0 && l[0] == '!' {
						if *prop != "" {
							mu.Lock()
							for _, j := range calledBy([]string{strings.TrimSpace(string(l[1:]))}) {
								start(j)
							}
							mu.Unlock()
						}
					} else {
						b = append(b, l...)
					}
					if e != nil {
						break
					}
				}
				err = c.Wait()
			}
			r := &resultJSON{}
			if json.Unmarshal(b, r) != nil {
				r = &resultJSON{Name: j.fn, Err: fmt.Sprintf("verifier process: %v", err)}
				r.Obls = []oblJSON{{Fn: j.fn, Kind: "the function is within the verifier's reach", Status: "failed", Detail: r.Err}}
			}
			mu.Lock()
			defer mu.Unlock()
			results = append(results, r)
			if *prop != "" {
				for _, j := range calledBy(r.Called) {
					start(j)
				}
			}
		}()
	}
	for i, j := range jobs {
		if i > 0 {
			time.Sleep(time.Millisecond) // they take their turns in order
		}
		start(j)
	}
	wg.Wait()
	sort.SliceStable(results, func(i, j int) bool { return results[i].Name < results[j].Name })
	_ = workers
	failed := 0
	total := 0
	for _, r := range results {
		bad := 0
		for _, o := range r.Obls {
			total++
			if o.Status != "proved" {
				failed++
				bad++
			}
		}
		fmt.Printf("%-60s %4d obligations %3d failed %3d paths %6.1fs\n", r.Name, len(r.Obls), bad, r.Paths, r.Seconds)
		for _, o := range r.Obls {
			if o.Status != "proved" || *verbose {
				fmt.Printf("    %-7s %s at %s %v  [%s] %.1fs %s %s\n", o.Status, o.Kind, o.Where, o.Tags, o.Backend, o.Seconds, firstLine(o.Detail), firstLine(o.Query))
			}
		}
	}
	fmt.Printf("%d obligations, %d failed, %.1fs\n", total, failed, time.Since(t0).Seconds())
	if *out != "" {
		b, _ := json.MarshalIndent(results, "", " ")
		os.WriteFile(*out, b, 0o644)
	}
	if failed > 0 {
		os.Exit(1)
	}
}

func loadSpecSafe(prog *Program, dir string) (sp *Spec, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(*specErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	return loadSpec(prog, dir)
}

// announce is whether contracts are reported as they are called.
var announce bool

func runChild(repo, spec, prop, fn, inst string, secs int, keep, plog string, workers int) {
	t0 := time.Now()
	announce = true
	initSorts()
	prog, err := loadProgram(repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "load:", err)
		os.Exit(2)
	}
	sp, err := loadSpecSafe(prog, spec)
	if err != nil {
		fmt.Fprintln(os.Stderr, "spec:", err)
		os.Exit(2)
	}
	var props map[string]bool
	if prop != "" {
		props = map[string]bool{prop: true}
	}
	if plog != "" {
		f, _ := os.Create(plog)
		prunerLog = f
	}
	prog.forceSorts()
	pre := prelude(prog)
	axioms := evalAxioms(prog, sp)
	pr := newPruner(pre)
	f := sp.byFunc[fn]
	r := verifyFunc(prog, sp, f, inst, props, pr)
	pr.close()
	dir := keep
	if dir == "" {
		dir, _ = os.MkdirTemp("", "gvc")
		defer os.RemoveAll(dir)
	} else {
		dir = filepath.Join(dir, sanitize(fn+inst))
		os.MkdirAll(dir, 0o755)
	}
	sorts2 := prelude(prog)
	if os.Getenv("GVC_DEBUG") != "" {
		fmt.Fprintf(os.Stderr, "%s: executed in %.1fs (pruner %d queries %.1fs)\n", fn, time.Since(t0).Seconds(), pr.n, pr.spent.Seconds())
	}
	if os.Getenv("GVC_HIST") != "" {
		n := map[string]int{}
		for _, o := range r.obls {
			n[o.kind+" at "+o.where]++
		}
		var ks []string
		for k := range n {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(os.Stderr, "%5d %s\n", n[k], k)
		}
	}
	// For development: only the obligations that match.
	if only := os.Getenv("GVC_ONLY"); only != "" {
		re := regexp.MustCompile(only)
		kept := r.obls[:0]
		for _, o := range r.obls {
			if re.MatchString(o.kind + " at " + o.where) {
				kept = append(kept, o)
			}
		}
		r.obls = kept
	}
	solveAll(r.obls, sorts2, axioms, workers, secs, dir)
	j := &resultJSON{Name: r.name, Err: r.err, Inlined: r.inlined, Called: r.called, Paths: r.paths, Seconds: time.Since(t0).Seconds()}
	for _, o := range r.obls {
		q := o.query
		if keep == "" && o.status != "proved" && q != "" {
			b, _ := os.ReadFile(q)
			if len(b) < 400000 {
				q = string(b)
			}
		}
		if o.status == "proved" {
			q = ""
		}
		j.Obls = append(j.Obls, oblJSON{o.fn, o.kind, o.where, o.status, o.backend, o.detail, q, o.tags, o.seconds, o.cover})
	}
	b, _ := json.Marshal(j)
	os.Stdout.Write(b)
	os.Stdout.WriteString("\n")
	_ = strings.Join
}

// forceSorts declares the struct sorts of every named type before any query is written.
func (p *Program) forceSorts() {
	for _, pp := range p.order {
		pk := p.pkgs[pp]
		for _, n := range pk.tpkg.Scope().Names() {
			if o := pk.tpkg.Scope().Lookup(n); o != nil {
				func() {
					defer func() { recover() }()
					p.sortOf(o.Type())
				}()
			}
		}
	}
	for _, s := range []string{"string", "int64"} {
		func() {
			defer func() { recover() }()
			p.sortOf(p.goType("index.TypedDatum[" + s + "]"))
			p.sortOf(p.goType("index.btreeIndex[" + s + "]"))
		}()
	}
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i] + " ..."
	}
	return s
}
