package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/types"
	"math/big"
	"sort"
	"strings"
)

type Field struct{ sel, sort string }
type Ctor struct {
	name   string
	fields []Field
	dt     *Datatype
}
type Datatype struct {
	name  string
	ctors []*Ctor
}

func (d *Datatype) single() bool { return len(d.ctors) == 1 }

type selInfo struct {
	ctor *Ctor
	idx  int
}

var (
	datatypes []*Datatype
	dtByName  = map[string]*Datatype{}
	ctors     = map[string]*Ctor{}
	selectors = map[string]*selInfo{}
	sortDecls []string // uninterpreted sorts
)

func declDatatype(name string, cs ...*Ctor) *Datatype {
	if d := dtByName[name]; d != nil {
		return d
	}
	d := &Datatype{name: name, ctors: cs}
	for _, c := range cs {
		c.dt = d
		ctors[c.name] = c
		for i, f := range c.fields {
			selectors[f.sel] = &selInfo{c, i}
		}
	}
	dtByName[name] = d
	datatypes = append(datatypes, d)
	return d
}

func C(name string, fs ...string) *Ctor {
	c := &Ctor{name: name}
	for i := 0; i+1 < len(fs); i += 2 {
		c.fields = append(c.fields, Field{fs[i], fs[i+1]})
	}
	return c
}

// initSorts declares the sorts of the universal interface value, keys and slices.
// Strings and floats are order codes in the reals: any countable total order embeds in
// them, so a theorem over all reals holds for all strings and all floats. "" is 0; nan is
// 0 (the least float, as in cmp.Less), -inf is 1, 0 is 2, +inf is 3.
func initSorts() {
	sortDecls = append(sortDecls, "Time", "RType", "RValue")
	declDatatype("Slice", C("mkSlice", "sl_arr", "Int", "sl_off", "Int", "sl_len", "Int", "sl_cap", "Int"))
	declDatatype("Any",
		C("VNil"), C("VID", "v_id", "Int"), C("VString", "v_str", "Real"), C("VInt", "v_int", "Int"),
		C("VBool", "v_bool", "Bool"), C("VInst", "v_inst", "Time"), C("VFloat", "v_flt", "Real"),
		C("VIdent", "v_ident", "Real"), C("VTempID", "v_tmp", "Real"), C("VTxnID"),
		C("VLookup", "v_la", "Any", "v_lv", "Any"),
		C("VGoString", "v_gostr", "Real"), C("VErr", "v_err", "Int"), C("VRType", "v_rtype", "RType"),
		C("VOther", "v_tag", "Int", "v_oid", "Int"))
	declDatatype("Key", C("mkK", "k_e", "Int", "k_a", "Int", "k_v", "Any"))
	declDatatype("TK_R", C("mkTKR", "tkeR", "Int", "tkaR", "Int", "tkvR", "Real"))
	declDatatype("TK_I", C("mkTKI", "tkeI", "Int", "tkaI", "Int", "tkvI", "Int"))
}

// ifaceCtor maps concrete types to the constructor boxing them into an interface.
var ifaceCtor = map[string]string{
	"types.ID": "VID", "types.String": "VString", "types.Int": "VInt", "types.Bool": "VBool",
	"types.Inst": "VInst", "types.Float": "VFloat", "types.Ident": "VIdent", "types.TempID": "VTempID",
	"types.TxnID": "VTxnID", "types.LookupRef": "VLookup", "types.Error": "VErr", "string": "VGoString",
}

// objIfaces are interfaces whose values are represented by object references.
var objIfaces = map[string]bool{
	"index.Index": true, "index.TypedIndex": true, "types.Database": true, "types.Snapshot": true,
	"models.Analyzer": true, "pkgdatabase.Database": true,
}

func pkgShort(p *types.Package) string {
	if p == nil {
		return ""
	}
	if strings.HasSuffix(p.Path(), "pkg/database") {
		return "pkgdatabase"
	}
	return p.Name()
}

// tyName is a short stable name for a type.
func tyName(t types.Type) string {
	t = types.Unalias(t)
	switch t := t.(type) {
	case *types.Named:
		n := t.Obj().Name()
		if p := t.Obj().Pkg(); p != nil {
			n = pkgShort(p) + "." + n
		}
		if a := t.TypeArgs(); a != nil && a.Len() > 0 {
			var s []string
			for i := 0; i < a.Len(); i++ {
				s = append(s, tyName(a.At(i)))
			}
			n += "[" + strings.Join(s, ",") + "]"
		}
		return n
	case *types.Pointer:
		return "*" + tyName(t.Elem())
	case *types.Slice:
		return "[]" + tyName(t.Elem())
	case *types.Map:
		return "map[" + tyName(t.Key()) + "]" + tyName(t.Elem())
	case *types.TypeParam:
		return t.Obj().Name()
	case *types.Interface:
		if t.NumMethods() == 0 && t.NumEmbeddeds() == 0 {
			return "any"
		}
	}
	return types.TypeString(t, func(p *types.Package) string { return pkgShort(p) })
}

// baseName is tyName without type arguments.
func baseName(t types.Type) string {
	n := tyName(t)
	if i := strings.Index(n, "["); i > 0 {
		return n[:i]
	}
	return n
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	if n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time" {
		return true
	}
	if s, ok := n.Underlying().(*types.Struct); ok && s.NumFields() == 3 && s.Field(0).Name() == "wall" {
		return true
	}
	return false
}

func isObjIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok && objIfaces[baseName(t)]
}

func isIface(t types.Type) bool {
	if _, ok := types.Unalias(t).(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Interface)
	return ok && !isObjIface(t)
}

func suffix(sortName string) string {
	if sortName == "Real" {
		return "R"
	}
	return "I"
}

func sanitize(s string) string {
	r := strings.NewReplacer("*", "p_", "[]", "s_", "[", "_", "]", "_", ".", "_", " ", "_", "{", "_", "}", "_", ",", "_", "(", "_", ")", "_", ";", "_", "/", "_", "\"", "_", ":", "_")
	return r.Replace(s)
}

var structSorts = map[string]*types.Struct{}

func (p *Program) sortOf(t types.Type) string {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return "Real"
	}
	if isTime(t) {
		return "Time"
	}
	switch tyName(t) {
	case "reflect.Type":
		return "RType"
	case "reflect.Value":
		return "RValue"
	case "sync.Mutex", "sync.RWMutex", "log.Logger", "sync.Map", "types.Error", "reflect.StructField", "reflect.StructTag":
		return "Int"
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsInteger != 0:
			return "Int"
		case u.Info()&types.IsString != 0, u.Info()&types.IsFloat != 0:
			return "Real"
		case u.Kind() == types.UntypedNil:
			return "Any"
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return "Int"
	case *types.Slice:
		return "Slice"
	case *types.Interface:
		if isObjIface(t) {
			return "Int"
		}
		return "Any"
	case *types.Struct:
		if u.NumFields() == 0 {
			return "Int"
		}
		return p.structSort(t, u)
	case *types.Tuple:
		return "Int"
	}
	panic(unsupported("type " + tyName(t)))
}

func structCtorName(s string) string { return "mk_" + s }

func (p *Program) structSort(t types.Type, u *types.Struct) string {
	name := "S_" + sanitize(tyName(t))
	if n, ok := t.(*types.Named); ok && n.TypeArgs() != nil && n.TypeArgs().Len() > 0 {
		// Instances share a sort when their type arguments do.
		name = "S_" + sanitize(baseName(t))
		for i := 0; i < n.TypeArgs().Len(); i++ {
			name += "_" + suffix(p.sortOf(n.TypeArgs().At(i)))
		}
	} else if n, ok := t.(*types.Named); ok && n.TypeParams() != nil && n.TypeParams().Len() > 0 {
		name = "S_" + sanitize(baseName(t))
		for i := 0; i < n.TypeParams().Len(); i++ {
			name += "_R"
		}
	}
	if dtByName[name] != nil {
		return name
	}
	c := &Ctor{name: structCtorName(name)}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		c.fields = append(c.fields, Field{fieldSel(name, f.Name()), p.sortOf(f.Type())})
	}
	declDatatype(name, c)
	return name
}

func fieldSel(sortName, field string) string { return sortName + "." + field }

func (p *Program) zero(t types.Type) *Term {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return Sym("zeroX")
	}
	s := p.sortOf(t)
	switch s {
	case "Int":
		return Num(0)
	case "Bool":
		return tFalse
	case "Any":
		return Sym("VNil")
	case "Time":
		return Sym("zeroTime")
	case "RType":
		return Sym("nilRType")
	case "RValue":
		return Sym("zeroRValue")
	case "Slice":
		return App("mkSlice", Num(0), Num(0), Num(0), Num(0))
	case "Real":
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return Sym("2.0")
		}
		return Sym("0.0")
	}
	u := t.Underlying().(*types.Struct)
	var args []*Term
	for i := 0; i < u.NumFields(); i++ {
		args = append(args, p.zero(u.Field(i).Type()))
	}
	return App(structCtorName(s), args...)
}

// valueFacts are the facts every Go value of the type satisfies (machine ranges, code
// ranges, slice headers). They do not depend on the heap.
func (p *Program) valueFacts(v *Term, t types.Type) *Term {
	t = types.Unalias(t)
	if _, ok := t.(*types.TypeParam); ok {
		return tTrue
	}
	s := p.sortOf(t)
	switch s {
	case "Bool":
		return tTrue
	case "Any":
		return App("okAny", v)
	case "Slice":
		return App("okSlice", v)
	case "Real":
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return App("okFlt", v)
		}
		return Le(Sym("0.0"), v)
	case "Int":
		switch u := t.Underlying().(type) {
		case *types.Basic:
			switch u.Kind() {
			case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
				return Le(Num(0), v)
			case types.Int, types.Int64:
				return App("okInt64", v)
			}
			return tTrue
		case *types.Struct:
			if u.NumFields() == 0 {
				return Eq(v, Num(0))
			}
			return tTrue
		}
		return Le(Num(0), v)
	}
	if u, ok := t.Underlying().(*types.Struct); ok && dtByName[s] != nil {
		var cs []*Term
		for i := 0; i < u.NumFields(); i++ {
			cs = append(cs, p.valueFacts(App(fieldSel(s, u.Field(i).Name()), v), u.Field(i).Type()))
		}
		return And(cs...)
	}
	return tTrue
}

// ---- string constants ----

var strCodes = map[string]int{}
var strList []string

// collectStrings assigns every string constant of the program a code that respects their
// order; "" is 0.
func (p *Program) collectStrings(extra []string) {
	set := map[string]bool{"": true}
	for _, pk := range p.pkgs {
		for _, tv := range pk.info.Types {
			if tv.Value != nil && tv.Value.Kind() == constant.String {
				set[constant.StringVal(tv.Value)] = true
			}
		}
		for _, f := range pk.files {
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && strings.HasPrefix(l.Value, "\"") {
					v := constant.MakeFromLiteral(l.Value, l.Kind, 0)
					if v.Kind() == constant.String {
						set[constant.StringVal(v)] = true
					}
				}
				return true
			})
		}
	}
	for _, s := range extra {
		set[s] = true
	}
	for s := range set {
		strList = append(strList, s)
	}
	sort.Strings(strList)
	for i, s := range strList {
		strCodes[s] = i
	}
}

func strConst(s string) *Term {
	c, ok := strCodes[s]
	if !ok {
		panic(unsupported("string constant not collected: " + s))
	}
	return Sym(fmt.Sprintf("%d.0", c))
}

func strOf(t *Term) (string, bool) {
	if len(t.args) == 0 && strings.HasSuffix(t.op, ".0") {
		var n int
		if _, err := fmt.Sscanf(t.op, "%d.0", &n); err == nil && n < len(strList) {
			return strList[n], true
		}
	}
	return "", false
}

// fltConst encodes a finite float constant with the monotone map 2 + x/(1+|x|).
func fltConst(v constant.Value) *Term {
	r := new(big.Rat)
	if _, ok := r.SetString(v.ExactString()); !ok {
		panic(unsupported("float constant " + v.ExactString()))
	}
	a := new(big.Rat).Abs(r)
	a.Add(a, big.NewRat(1, 1))
	r.Quo(r, a)
	r.Add(r, big.NewRat(2, 1))
	if r.IsInt() {
		return Sym(r.Num().String() + ".0")
	}
	return mkTerm("/", Sym(r.Num().String()+".0"), Sym(r.Denom().String()+".0"))
}

func preludeSorts() string {
	var b strings.Builder
	for _, s := range sortDecls {
		fmt.Fprintf(&b, "(declare-sort %s 0)\n", s)
	}
	b.WriteString("(declare-datatypes (")
	for _, d := range datatypes {
		fmt.Fprintf(&b, "(%s 0)", d.name)
	}
	b.WriteString(") (\n")
	for _, d := range datatypes {
		b.WriteString(" (")
		for _, c := range d.ctors {
			b.WriteString("(" + c.name)
			for _, f := range c.fields {
				fmt.Fprintf(&b, " (%s %s)", f.sel, f.sort)
			}
			b.WriteString(")")
		}
		b.WriteString(")\n")
	}
	b.WriteString("))\n")
	return b.String()
}

type unsupportedErr struct{ msg string }

func unsupported(msg string) error      { return &unsupportedErr{msg} }
func (e *unsupportedErr) Error() string { return "unsupported: " + e.msg }
