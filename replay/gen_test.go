package database_test

// Histories: requests and queries drawn from small pools, so that they meet.

import (
	"fmt"
	"math"
	"math/rand"
	"time"

	. "github.com/dball/destructive/internal/types"
)

// weird is what a caller outside the module could pass for any reference.
type weird struct{ n int }

func (weird) IsERef()        {}
func (weird) IsIDRef()       {}
func (weird) IsVRef()        {}
func (weird) String() string { return "weird" }
func (weird) IsZero() bool   { return false }

// odd is a reference that is no value and cannot be compared.
type odd []int

func (odd) IsERef()        {}
func (odd) IsIDRef()       {}
func (odd) IsVRef()        {}
func (odd) String() string { return "odd" }
func (odd) IsZero() bool   { return false }

type novalue struct{}

func (novalue) IsVRef() {}

var cet = time.FixedZone("CET", 3600)

var pool = map[ID][]Value{
	mString: {String(""), String("a"), String("b"), String("ab"), String("B"), String("\x00"), String("\xff"), String("é"), String("i/1"), String("a\x00")},
	mInt:    {Int(0), Int(1), Int(-1), Int(2), Int(-7), Int(math.MinInt64), Int(math.MaxInt64), Int(1 << 53), Int(1<<53 + 1), Int(math.MinInt64 + 1)},
	mBool:   {Bool(false), Bool(true)},
	mFloat: {Float(0), Float(1.5), Float(-1.5), Float(math.Inf(1)), Float(math.Inf(-1)), Float(math.NaN()), Float(math.Float64frombits(0x7ff8000000000099)), Float(math.Copysign(0, -1)),
		Float(math.MaxFloat64), Float(-math.MaxFloat64), Float(math.SmallestNonzeroFloat64), Float(2), Float(math.Float64frombits(0xfff8000000000001))},
	mInst: {Inst(time.UnixMilli(0).UTC()), Inst(time.UnixMilli(0).In(cet)), Inst(time.Unix(0, -1)), Inst(time.UnixMilli(0).Add(999 * time.Microsecond)), Inst(time.UnixMilli(-1).UTC()),
		Inst(time.UnixMilli(1)), Inst(time.Time{}), Inst(time.Date(2024, 2, 29, 23, 59, 59, 999999999, time.UTC)), Inst(time.Date(2024, 3, 1, 0, 59, 59, 999000000, cet)),
		Inst(time.Date(9999, 1, 1, 0, 0, 0, 0, time.UTC)), Inst(time.Date(-44, 3, 15, 0, 0, 0, 0, time.UTC)), Inst(time.UnixMilli(1700000000123).UTC())},
}

var idents = []Ident{"i/1", "i/2", "i/3", "", "sys", "sysx/1", "my/sys/x", "SYS/x", "/sys/x"}
var sysIdents = []Ident{"sys/db/ident", "sys/x", "sys/", "sys/attr/type", "sys/attr/type/string", "sys/tx/at", "sys/attr/cardinality/many", "sys/attr/unique", "sys/attr/unique/identity", "sys/attr/unique/value", "sys/db/rank", "sys/a/b/c/d/e", "sys//", "sys/x\x00y", "sys/sys/db/ident", "sys/attr/type/string/", "sys/é"}

type gen struct {
	*rand.Rand
	attrs []Attr // declared
	ents  []ID   // entities met
	top   ID     // greatest id issued
	s     *state
	as    map[ID]Attr
	// how wild it is, in percent
	wild, schema, named, retr, lookups, temp int
	combos                                   []Attr
}

func (g *gen) p(n int) bool { return g.Intn(100) < n }

func newGen(seed int64) *gen {
	g := &gen{Rand: rand.New(rand.NewSource(seed))}
	g.wild = []int{0, 0, 2, 4, 12}[g.Intn(5)]
	g.schema = []int{1, 4, 12}[g.Intn(3)]
	g.named = []int{3, 10, 35}[g.Intn(3)]
	g.retr = []int{3, 12, 40}[g.Intn(3)]
	g.lookups = []int{0, 10, 35}[g.Intn(3)]
	g.temp = []int{5, 30, 70}[g.Intn(3)]
	for t := mRef; t <= mFloat; t++ {
		for _, c := range []ID{0, mOne, mMany} {
			for _, u := range []ID{0, mIdentity, mUValue} {
				g.combos = append(g.combos, Attr{Ident: Ident(fmt.Sprintf("u/%d/%d/%d", t, c, u)), Type: t, Cardinality: c, Unique: u})
			}
		}
	}
	g.Shuffle(len(g.combos), func(i, j int) { g.combos[i], g.combos[j] = g.combos[j], g.combos[i] })
	// Bias towards a few unique attributes.
	return g
}

func (g *gen) declare(attrs ...Attr) (cs []Claim) {
	for i, a := range attrs {
		e := TempID(fmt.Sprint("attr", i))
		cs = append(cs, Claim{E: e, A: mIdent, V: String(a.Ident)}, Claim{E: e, A: mType, V: a.Type})
		if a.Unique != 0 {
			cs = append(cs, Claim{E: e, A: mUnique, V: a.Unique})
		}
		if a.Cardinality != 0 {
			cs = append(cs, Claim{E: e, A: mCard, V: a.Cardinality})
		}
	}
	return
}

func (g *gen) value(t ID) VRef {
	if t == mRef {
		switch {
		case g.p(60) && len(g.ents) > 0:
			return g.ent()
		case g.p(50):
			return ID(1 + g.Intn(20))
		case g.p(30):
			return mFirst + 50_000_000 + ID(g.Intn(2))
		case g.p(30):
			return ID(math.MaxUint64 - uint64(g.Intn(2)))
		}
		return g.ent()
	}
	vs := pool[t]
	if len(vs) == 0 {
		return String("a")
	}
	n := len(vs)
	if g.p(60) && n > 4 {
		n = 4
	}
	return vs[g.Intn(n)].(VRef)
}

// alias is the same value in another guise.
func (g *gen) alias(v VRef) VRef {
	switch v := v.(type) {
	case Inst:
		t := time.UnixMilli(time.Time(v).UnixMilli()).UTC()
		if g.p(50) {
			t = t.In(cet)
		}
		return Inst(t.Add([]time.Duration{0, time.Nanosecond, 500 * time.Microsecond, 999999 * time.Nanosecond}[g.Intn(4)]))
	case Float:
		switch f := float64(v); {
		case f == 0 && g.p(50):
			return Float(math.Copysign(0, -1))
		case f == 0:
			return Float(0)
		case f != f:
			return Float(math.Float64frombits([]uint64{0x7ff8000000000099, 0xfff8000000000001, 0x7ff8000000000001, 0x7ff0000000000001}[g.Intn(4)]))
		}
	}
	return v
}

func (g *gen) ent() ID {
	if len(g.ents) == 0 {
		return mFirst
	}
	n := len(g.ents)
	if n > 5 && g.p(85) {
		return g.ents[g.Intn(5)]
	}
	return g.ents[g.Intn(n)]
}

func (g *gen) anyIdent() Ident {
	switch {
	case g.p(50) && len(g.attrs) > 0:
		return g.attrs[g.Intn(len(g.attrs))].Ident
	case g.p(20):
		return sysIdents[g.Intn(len(sysIdents))]
	}
	return idents[g.Intn(len(idents))]
}

func (g *gen) lookup() LookupRef {
	if g.p(85) && len(g.s.data) > 0 {
		// Something somebody holds.
		var ds []Datum
		for _, d := range g.s.sorted() {
			if g.as[d.A].Unique != 0 && (d.E >= mFirst || g.p(3)) {
				ds = append(ds, d)
			}
		}
		if len(ds) > 0 {
			d := ds[g.Intn(len(ds))]
			var a IDRef = d.A
			if g.p(50) {
				a = g.as[d.A].Ident
			}
			v, _ := g.alias(d.V.(VRef)).(Value)
			return LookupRef{A: a, V: v}
		}
	}
	switch {
	case g.p(50):
		return LookupRef{A: mIdent, V: String(g.anyIdent())}
	case g.p(50) && len(g.attrs) > 0:
		a := g.attrs[g.Intn(len(g.attrs))]
		t := a.Type
		if g.p(20) {
			t = mRef + ID(g.Intn(6))
		}
		v, _ := g.value(t).(Value)
		var r IDRef = a.ID
		if g.p(30) {
			r = a.Ident
		}
		return LookupRef{A: r, V: v}
	case g.p(30):
		return LookupRef{A: LookupRef{A: mIdent, V: String("i/1")}, V: Int(1)}
	case g.p(30):
		return LookupRef{A: weird{}, V: String("i/1")}
	case g.p(30):
		return LookupRef{A: mIdent, V: weird{}}
	case g.p(30):
		return LookupRef{A: ID(g.Intn(25)), V: String("i/1")}
	}
	return LookupRef{}
}

// wildRef is malformed.
func (g *gen) wildERef() ERef {
	switch g.Intn(9) {
	case 0:
		return nil
	case 1:
		return ID(0)
	case 2:
		return ID(1 + g.Intn(20))
	case 3:
		return g.top + 1
	case 4:
		return g.top + ID(1+g.Intn(4))
	case 5:
		return weird{}
	case 6:
		return Ident("no/such")
	case 7:
		return g.lookup()
	}
	return ID(math.MaxUint64)
}

func (g *gen) eref(e ID) ERef {
	if g.p(g.lookups) {
		for _, d := range g.s.sorted() {
			if d.E == e && g.as[d.A].Unique != 0 && g.p(60) {
				if d.A == mIdent && g.p(50) {
					return Ident(d.V.(String))
				}
				var a IDRef = d.A
				if g.p(50) {
					a = g.as[d.A].Ident
				}
				v, _ := g.alias(d.V.(VRef)).(Value)
				return LookupRef{A: a, V: v}
			}
		}
	}
	return e
}

func (g *gen) claim() (c Claim) {
	c.Retract = g.p(g.retr)
	var at Attr
	switch {
	case g.p(g.named):
		at = Attr{ID: mIdent, Type: mString, Ident: "sys/db/ident"}
	case len(g.attrs) > 0:
		at = g.attrs[g.Intn(len(g.attrs))]
	default:
		at = Attr{ID: mIdent, Type: mString, Ident: "sys/db/ident"}
	}
	if c.Retract && g.p(80) {
		// Something that is there.
		ds := g.s.sorted()
		d := ds[g.Intn(len(ds))]
		if d.E >= mFirst || g.p(g.wild) {
			c.E, c.A, c.V = g.eref(d.E), d.A, g.alias(d.V.(VRef))
			if g.p(g.wild) {
				c.V = g.value(mRef + ID(g.Intn(6)))
			}
			return
		}
	}
	switch {
	case g.p(g.temp):
		c.E = TempID([]string{"a", "b", "c", "d", "0", ""}[g.Intn(6)])
	case g.p(3):
		c.E = TxnID{}
	case g.p(g.wild):
		c.E = g.wildERef()
	case g.p(g.lookups / 3):
		c.E = g.lookup()
	case g.p(g.lookups / 3):
		c.E = g.anyIdent()
	default:
		c.E = g.eref(g.ent())
	}
	c.A = at.ID
	switch {
	case g.p(20):
		c.A = at.Ident
	case g.p(5):
		c.A = LookupRef{A: Ident("sys/db/ident"), V: String(at.Ident)}
	case g.p(g.wild):
		c.A, _ = g.wildERef().(IDRef)
		if g.p(20) {
			c.A = ID(mTx)
		}
		if g.p(20) {
			c.A = g.ent()
		}
	}
	if at.ID == mIdent {
		c.V = String(g.anyIdent())
		if g.p(70) {
			c.V = String(idents[g.Intn(3)])
		}
		if g.p(g.wild) {
			c.V = String(sysIdents[g.Intn(len(sysIdents))])
		}
		return
	}
	c.V = g.value(at.Type)
	if at.Type == mRef {
		switch {
		case g.p(g.temp):
			c.V = TempID([]string{"a", "b", "c", "d", "0", ""}[g.Intn(6)])
		case g.p(g.lookups):
			c.V = g.lookup()
		case g.p(g.lookups):
			c.V = g.anyIdent()
		}
	}
	if c.Retract && g.p(20) {
		return
	}
	// Values somebody else holds.
	if at.Unique != 0 && g.p(40) {
		for _, d := range g.s.sorted() {
			if d.A == at.ID && g.p(50) {
				c.V = g.alias(d.V.(VRef))
			}
		}
	}
	if g.p(g.wild) {
		c.V = []VRef{nil, weird{}, odd{1}, novalue{}, ID(0), Ident("no/such"), LookupRef{}, TempID("a"), Int(1), String("a"), Bool(true), Float(1), Inst(time.UnixMilli(3)), ID(mMany)}[g.Intn(14)]
	}
	return
}

// schemaClaims declares, redeclares or changes an attribute, whole or in parts.
func (g *gen) schemaClaims() (cs []Claim) {
	var e ERef = TempID([]string{"a", "s1", "s2"}[g.Intn(3)])
	at := g.combos[g.Intn(len(g.combos))]
	switch {
	case g.p(45) && len(g.attrs) > 0:
		at = g.attrs[g.Intn(len(g.attrs))]
		if g.p(60) {
			e = at.ID
		} else if g.p(50) {
			e = at.Ident
		}
		if g.p(30) { // as it is
			cs = append(cs, Claim{E: e, A: mIdent, V: String(at.Ident)}, Claim{E: e, A: mType, V: at.Type})
			if at.Cardinality != 0 {
				cs = append(cs, Claim{E: e, A: mCard, V: at.Cardinality})
			}
			if at.Unique != 0 {
				cs = append(cs, Claim{E: e, A: mUnique, V: at.Unique})
			}
			return
		}
	case g.p(30):
		e = g.ent()
	}
	if g.p(80) {
		i := at.Ident
		if g.p(12) {
			i = g.anyIdent()
		}
		cs = append(cs, Claim{E: e, A: mIdent, V: String(i), Retract: g.p(6)})
	}
	if g.p(85) {
		t := at.Type
		if g.p(12) {
			t = ID(9 + g.Intn(10))
		}
		cs = append(cs, Claim{E: e, A: mType, V: t, Retract: g.p(6)})
	}
	if g.p(60) {
		v := []ID{mOne, mMany, mMany, at.Cardinality, at.Cardinality, at.Cardinality, mIdentity, mFirst}[g.Intn(8)]
		if v != 0 {
			cs = append(cs, Claim{E: e, A: mCard, V: v, Retract: g.p(6)})
		}
	}
	if g.p(60) {
		v := []ID{mIdentity, mUValue, at.Unique, at.Unique, at.Unique, at.Unique, mMany, mFirst}[g.Intn(8)]
		if v != 0 {
			cs = append(cs, Claim{E: e, A: mUnique, V: v, Retract: g.p(6)})
		}
	}
	if g.p(20) {
		cs = append(cs, Claim{E: e, A: mIdent, V: String(at.Ident), Retract: g.p(50)})
	}
	if g.p(30) {
		g.Shuffle(len(cs), func(i, j int) { cs[i], cs[j] = cs[j], cs[i] })
	}
	if g.p(20) {
		cs = append(cs, Claim{E: e, A: Ident("sys/attr/cardinality"), V: Ident("sys/attr/cardinality/many")})
	}
	return
}

func (g *gen) request() (req Request) {
	n := 1 + g.Intn(4)
	if g.p(15) {
		n = 1 + g.Intn(10)
	}
	if g.p(8) {
		n = 0
	}
	var cs []Claim
	for i := 0; i < n; i++ {
		if g.p(g.schema) {
			cs = append(cs, g.schemaClaims()...)
		} else {
			cs = append(cs, g.claim())
		}
	}
	if len(cs) > 1 && g.p(25) {
		// Another claim about the same thing.
		c := cs[g.Intn(len(cs))]
		switch g.Intn(3) {
		case 0:
			c.Retract = !c.Retract
		case 1:
			if a, ok := c.A.(ID); ok {
				c.V = g.value(g.as[a].Type)
			}
		case 2:
			c.E = g.ent()
		}
		cs = append(cs, c)
	}
	// Room behind the claims that is the caller's.
	req.Claims = make([]Claim, len(cs), len(cs)+g.Intn(4))
	copy(req.Claims, cs)
	for i := range req.Claims[len(cs):cap(req.Claims)] {
		req.Claims[:cap(req.Claims)][len(cs)+i] = Claim{E: ID(77), A: ID(88), V: Int(99)}
	}
	if len(cs) == 0 && g.p(50) {
		req.Claims = nil
	}
	if g.p(g.retr/2 + 3) {
		for k := 1 + g.Intn(2); k > 0; k-- {
			cons := map[IDRef]Void{}
			e := g.ent()
			for j := g.Intn(4); j >= 0; j-- {
				switch {
				case g.p(75):
					r, _ := g.eref(e).(IDRef)
					cons[r] = Void{}
				case g.p(50):
					cons[g.lookup()] = Void{}
				case g.p(50):
					cons[g.anyIdent()] = Void{}
				case g.p(20):
					cons[nil] = Void{}
				case g.p(20):
					cons[weird{}] = Void{}
				case g.p(20):
					cons[ID(g.Intn(20))] = Void{}
				default:
					cons[g.ent()] = Void{}
				}
			}
			if g.p(6) {
				cons = map[IDRef]Void{}
			}
			if g.p(2) {
				cons = nil
			}
			req.Retractions = append(req.Retractions, Retraction{Constraints: cons})
		}
	}
	return
}

// see takes note of a new state.
func (g *gen) see(s *state, issued ID) {
	g.s, g.as, g.top = s, s.attrs(), issued
	g.attrs = g.attrs[:0]
	ents := map[ID]bool{}
	for _, d := range s.sorted() {
		if d.E < mFirst {
			continue
		}
		if at, ok := g.as[d.E]; ok {
			if d.A == mType {
				g.attrs = append(g.attrs, at)
			}
			continue
		}
		if !ents[d.E] {
			ents[d.E] = true
			g.ents = append(g.ents, d.E)
		}
	}
	// Those met lately, without repetition.
	seen := map[ID]bool{}
	var es []ID
	for i := len(g.ents) - 1; i >= 0 && len(es) < 9; i-- {
		if !seen[g.ents[i]] {
			seen[g.ents[i]] = true
			es = append(es, g.ents[i])
		}
	}
	g.ents = g.ents[:0]
	for i := len(es) - 1; i >= 0; i-- {
		g.ents = append(g.ents, es[i])
	}
}

// queries are the claims asked of a snapshot: every combination of some of its entities,
// attributes and values, by id and by reference, and of malformed ones.
func (g *gen) queries(max int) (qs []Claim) {
	es := []ERef{nil, ID(0), mIdent, mCard, ID(math.MaxUint64), mFirst, Ident("sys/attr/type"), Ident("no/such"), TempID("a"), TxnID{}, weird{}, odd{2}}
	for _, e := range g.ents {
		es = append(es, e)
	}
	as := []IDRef{nil, ID(0), mIdent, mType, mTx, mTxAt, ID(math.MaxUint64), Ident("sys/db/ident"), Ident("no/such"), weird{}, odd{2}, LookupRef{A: mIdent, V: String("sys/attr/type")}}
	for _, a := range g.attrs {
		as = append(as, a.ID)
		if g.p(30) {
			as = append(as, a.Ident)
			es = append(es, a.ID)
		}
	}
	vs := []VRef{nil, ID(0), weird{}, odd{2}, novalue{}, TempID("a"), Ident("no/such"), Ident("sys/attr/type/string"), mString, mMany, LookupRef{A: mIdent, V: String("sys/attr/type/string")}, String("sys/tx/at")}
	ds := g.s.sorted()
	for i := 0; i < 12; i++ {
		d := ds[g.Intn(len(ds))]
		vs = append(vs, d.V.(VRef))
		if g.p(30) {
			es, as = append(es, d.E), append(as, d.A)
		}
	}
	for i := 0; i < 4; i++ {
		l := g.lookup()
		if g.p(70) {
			es = append(es, l)
		}
		if g.p(50) {
			as = append(as, l)
		}
		if g.p(50) {
			vs = append(vs, l)
		}
		es = append(es, g.anyIdent())
		vs = append(vs, g.anyIdent())
	}
	for t := mRef; t <= mFloat; t++ {
		for _, v := range pool[t] {
			if g.p(25) {
				vs = append(vs, v.(VRef))
			}
		}
	}
	for i := 0; i < max; i++ {
		if g.p(35) {
			// About a datum that is there, more or less.
			d := ds[g.Intn(len(ds))]
			if d.E < mFirst && g.p(70) {
				d = ds[g.Intn(len(ds))]
			}
			c := Claim{}
			if g.p(65) {
				c.E = g.eref(d.E)
			}
			if g.p(70) {
				c.A = d.A
				if g.p(20) {
					c.A = g.as[d.A].Ident
				}
			}
			if g.p(65) {
				c.V = g.alias(d.V.(VRef))
				if g.p(25) {
					c.V = g.value(g.as[d.A].Type)
				}
				if g.p(10) {
					c.V = vs[g.Intn(len(vs))]
				}
			}
			c.Retract = g.p(10)
			qs = append(qs, c)
			continue
		}
		qs = append(qs, Claim{E: es[g.Intn(len(es))], A: as[g.Intn(len(as))], V: vs[g.Intn(len(vs))]})
	}
	return
}
