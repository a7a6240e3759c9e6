package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

// Program is the type-checked source of every non-test package of the module under
// verification, re-read from its working tree on every run.
type Program struct {
	fset    *token.FileSet
	pkgs    map[string]*Pkg // by import path
	order   []string
	funcs   map[*types.Func]*FuncDecl
	byName  map[string]*FuncDecl // "database.(*indexDatabase).Write"
	globals map[types.Object]ast.Expr
	files   []string
	mutated map[types.Object]bool // package variables some function may change
	uninit  map[types.Object]bool // package variables without initialisers
}

type Pkg struct {
	path  string
	files []*ast.File
	tpkg  *types.Package
	info  *types.Info
}

type FuncDecl struct {
	obj  *types.Func
	decl *ast.FuncDecl
	pkg  *Pkg
	name string
}

type listed struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Imports    []string
	Standard   bool
	Module     *struct{ Main bool }
}

type mixImporter struct {
	prog *Program
	gc   types.Importer
}

func (m *mixImporter) Import(path string) (*types.Package, error) {
	if p, ok := m.prog.pkgs[path]; ok && p.tpkg != nil {
		return p.tpkg, nil
	}
	return m.gc.Import(path)
}

func loadProgram(dir string) (*Program, error) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Imports,Standard,Module", "./...")
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %w", err)
	}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	exports := map[string]string{}
	var mine []listed
	for {
		var l listed
		if err := dec.Decode(&l); err == io.EOF {
			break
		} else if err != nil {
			return nil, err
		}
		exports[l.ImportPath] = l.Export
		if l.Module != nil && l.Module.Main {
			mine = append(mine, l)
		}
	}
	prog := &Program{
		fset: token.NewFileSet(), pkgs: map[string]*Pkg{}, funcs: map[*types.Func]*FuncDecl{},
		byName: map[string]*FuncDecl{}, globals: map[types.Object]ast.Expr{},
	}
	gc := importer.ForCompiler(prog.fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	imp := &mixImporter{prog, gc}
	// go list -deps lists dependencies before dependents.
	for _, l := range mine {
		p := &Pkg{path: l.ImportPath, info: &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
			Selections: map[*ast.SelectorExpr]*types.Selection{}, Implicits: map[ast.Node]types.Object{},
			Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
		}}
		for _, f := range l.GoFiles {
			name := filepath.Join(l.Dir, f)
			af, err := parser.ParseFile(prog.fset, name, nil, parser.ParseComments)
			if err != nil {
				return nil, err
			}
			p.files = append(p.files, af)
			prog.files = append(prog.files, name)
		}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(l.ImportPath, prog.fset, p.files, p.info)
		if err != nil {
			return nil, err
		}
		p.tpkg = tp
		prog.pkgs[l.ImportPath] = p
		prog.order = append(prog.order, l.ImportPath)
		for _, af := range p.files {
			for _, d := range af.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					obj, _ := p.info.Defs[d.Name].(*types.Func)
					if obj == nil || d.Body == nil {
						continue
					}
					fd := &FuncDecl{obj: obj, decl: d, pkg: p, name: funcName(obj)}
					prog.funcs[obj] = fd
					prog.byName[fd.name] = fd
				case *ast.GenDecl:
					if d.Tok != token.VAR {
						continue
					}
					for _, s := range d.Specs {
						vs := s.(*ast.ValueSpec)
						for i, n := range vs.Names {
							if obj := p.info.Defs[n]; obj != nil && len(vs.Values) == len(vs.Names) {
								prog.globals[obj] = vs.Values[i]
							}
						}
					}
				}
			}
		}
	}
	sort.Strings(prog.files)
	prog.findMutated()
	return prog, nil
}

// findMutated marks the package variables that some function may assign, or take the
// address of: their values are not those of their initialisers.
func (p *Program) findMutated() {
	p.mutated, p.uninit = map[types.Object]bool{}, map[types.Object]bool{}
	for _, pk := range p.pkgs {
		sc := pk.tpkg.Scope()
		for _, n := range sc.Names() {
			if v, ok := sc.Lookup(n).(*types.Var); ok && p.globals[v] == nil {
				p.uninit[v] = true
			}
		}
	}
	for _, pk := range p.pkgs {
		pkgVar := func(e ast.Expr) types.Object {
			for {
				switch x := e.(type) {
				case *ast.ParenExpr:
					e = x.X
				case *ast.IndexExpr:
					e = x.X
				case *ast.StarExpr:
					e = x.X
				case *ast.SelectorExpr:
					if o, ok := pk.info.Uses[x.Sel].(*types.Var); ok && !o.IsField() {
						return o
					}
					e = x.X
				case *ast.Ident:
					if o, ok := pk.info.Uses[x].(*types.Var); ok && o.Pkg() != nil && o.Parent() == o.Pkg().Scope() {
						return o
					}
					return nil
				default:
					return nil
				}
			}
		}
		mark := func(e ast.Expr) {
			if o := pkgVar(e); o != nil {
				p.mutated[o] = true
			}
		}
		for _, f := range pk.files {
			ast.Inspect(f, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.AssignStmt:
					for _, l := range n.Lhs {
						mark(l)
					}
				case *ast.IncDecStmt:
					mark(n.X)
				case *ast.RangeStmt:
					if n.Key != nil {
						mark(n.Key)
					}
					if n.Value != nil {
						mark(n.Value)
					}
				case *ast.UnaryExpr:
					if n.Op == token.AND {
						mark(n.X)
					}
				case *ast.CallExpr:
					if i, ok := n.Fun.(*ast.Ident); ok && (i.Name == "delete" || i.Name == "clear" || i.Name == "append" || i.Name == "copy") && len(n.Args) > 0 {
						mark(n.Args[0])
					}
					if s, ok := n.Fun.(*ast.SelectorExpr); ok {
						if sel := pk.info.Selections[s]; sel != nil && sel.Kind() == types.MethodVal {
							if sg, ok := sel.Obj().Type().(*types.Signature); ok && sg.Recv() != nil {
								_, ptr := sg.Recv().Type().(*types.Pointer)
								_, isPtr := sel.Recv().Underlying().(*types.Pointer)
								if ptr && !isPtr {
									mark(s.X)
								}
							}
						}
						if t := types.ExprString(n.Fun); (t == "maps.Copy" || strings.HasPrefix(t, "slices.Sort") || t == "slices.Reverse" || t == "maps.DeleteFunc") && len(n.Args) > 0 {
							mark(n.Args[0])
						}
					}
				}
				return true
			})
		}
	}
}

// funcName is the short, stable name contracts use: pkg.Func, pkg.Type.Method or
// pkg.(*Type).Method, without type parameters.
func funcName(f *types.Func) string {
	sig := f.Type().(*types.Signature)
	pkg := ""
	if f.Pkg() != nil {
		pkg = f.Pkg().Path()
		if i := strings.LastIndex(pkg, "/"); i >= 0 {
			pkg = pkg[i+1:]
		}
		if strings.HasSuffix(f.Pkg().Path(), "pkg/database") {
			pkg = "pkgdatabase"
		}
	}
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			if n, ok := p.Elem().(*types.Named); ok {
				return pkg + ".(*" + n.Obj().Name() + ")." + f.Name()
			}
		}
		if n, ok := t.(*types.Named); ok {
			return pkg + "." + n.Obj().Name() + "." + f.Name()
		}
	}
	return pkg + "." + f.Name()
}
