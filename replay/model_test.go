package database_test

// The reference model: what a database of datums is, written from the properties and
// independent of the code under test. It predicts, for a state and a request, why the
// request must be rejected, or else the state the request leads to.

import (
	"fmt"
	"math"
	"sort"
	"strings"
	"time"

	. "github.com/dball/destructive/internal/types"
)

// The system's own ids, written out here so that a change of them is noticed.
const (
	mIdent, mType, mUnique, mCard   = ID(1), ID(2), ID(3), ID(4)
	mTx, mTxAt                      = ID(5), ID(6)
	mIdentity, mUValue, mOne, mMany = ID(7), ID(8), ID(9), ID(10)
	mRef, mString, mInt, mBool      = ID(11), ID(12), ID(13), ID(14)
	mInst, mFloat                   = ID(15), ID(16)
	mRefType, mDependent, mRank     = ID(17), ID(18), ID(19)
	mFirst                          = ID(0x100000)
)

var sysTable = []Datum{
	{E: mIdent, A: mIdent, V: String("sys/db/ident"), T: mTx},
	{E: mIdent, A: mType, V: mString, T: mTx},
	{E: mIdent, A: mUnique, V: mIdentity, T: mTx},
	{E: mUnique, A: mIdent, V: String("sys/attr/unique"), T: mTx},
	{E: mUnique, A: mType, V: mRef, T: mTx},
	{E: mIdentity, A: mIdent, V: String("sys/attr/unique/identity"), T: mTx},
	{E: mUValue, A: mIdent, V: String("sys/attr/unique/value"), T: mTx},
	{E: mTxAt, A: mIdent, V: String("sys/tx/at"), T: mTx},
	{E: mTxAt, A: mType, V: mInst, T: mTx},
	{E: mType, A: mIdent, V: String("sys/attr/type"), T: mTx},
	{E: mType, A: mType, V: mRef, T: mTx},
	{E: mRef, A: mIdent, V: String("sys/attr/type/ref"), T: mTx},
	{E: mString, A: mIdent, V: String("sys/attr/type/string"), T: mTx},
	{E: mInst, A: mIdent, V: String("sys/attr/type/inst"), T: mTx},
	{E: mInt, A: mIdent, V: String("sys/attr/type/int"), T: mTx},
	{E: mBool, A: mIdent, V: String("sys/attr/type/bool"), T: mTx},
	{E: mFloat, A: mIdent, V: String("sys/attr/type/float"), T: mTx},
	{E: mCard, A: mIdent, V: String("sys/attr/cardinality"), T: mTx},
	{E: mCard, A: mType, V: mRef, T: mTx},
	{E: mOne, A: mIdent, V: String("sys/attr/cardinality/one"), T: mTx},
	{E: mMany, A: mIdent, V: String("sys/attr/cardinality/many"), T: mTx},
	{E: mRefType, A: mIdent, V: String("sys/attr/ref/type"), T: mTx},
	{E: mRefType, A: mType, V: mRef, T: mTx},
	{E: mDependent, A: mIdent, V: String("sys/attr/ref/type/dependent"), T: mTx},
	{E: mRank, A: mIdent, V: String("sys/db/rank"), T: mTx},
	{E: mRank, A: mType, V: mInt, T: mTx},
	{E: mTx, A: mTxAt, V: Inst(time.Time{}), T: mTx},
}

// A vkey identifies a value: two values are the same exactly when their keys are equal.
type vkey struct {
	kind string
	i    int64
	s    string
}

func vk(v any) vkey {
	switch x := v.(type) {
	case ID:
		return vkey{kind: "id", i: int64(x)}
	case String:
		return vkey{kind: "str", s: string(x)}
	case Int:
		return vkey{kind: "int", i: int64(x)}
	case Bool:
		if x {
			return vkey{kind: "bool", i: 1}
		}
		return vkey{kind: "bool"}
	case Inst:
		return vkey{kind: "inst", i: time.Time(x).UnixMilli()}
	case Float:
		f := float64(x)
		switch {
		case f != f:
			return vkey{kind: "flt", s: "nan"}
		case f == 0:
			return vkey{kind: "flt"}
		}
		return vkey{kind: "flt", i: int64(math.Float64bits(f))}
	}
	return vkey{kind: "other", s: fmt.Sprintf("%T %v", v, v)}
}

// vcmp orders two values of one type.
func vcmp(a, b Value) int {
	lt := func(x, y bool) int {
		switch {
		case x:
			return -1
		case y:
			return 1
		}
		return 0
	}
	switch x := a.(type) {
	case ID:
		y, ok := b.(ID)
		if !ok {
			return 2
		}
		return lt(x < y, y < x)
	case String:
		y, ok := b.(String)
		if !ok {
			return 2
		}
		return lt(x < y, y < x)
	case Int:
		y, ok := b.(Int)
		if !ok {
			return 2
		}
		return lt(x < y, y < x)
	case Bool:
		y, ok := b.(Bool)
		if !ok {
			return 2
		}
		return lt(!bool(x) && bool(y), bool(x) && !bool(y))
	case Inst:
		y, ok := b.(Inst)
		if !ok {
			return 2
		}
		i, j := time.Time(x).UnixMilli(), time.Time(y).UnixMilli()
		return lt(i < j, j < i)
	case Float:
		y, ok := b.(Float)
		if !ok {
			return 2
		}
		xn, yn := x != x, y != y
		switch {
		case xn && yn:
			return 0
		case xn:
			return -1
		case yn:
			return 1
		}
		return lt(x < y, y < x)
	}
	return 2
}

func typeOf(v any) ID {
	switch v.(type) {
	case ID:
		return mRef
	case String:
		return mString
	case Int:
		return mInt
	case Bool:
		return mBool
	case Inst:
		return mInst
	case Float:
		return mFloat
	}
	return 0
}

type dkey struct {
	E, A ID
	V    vkey
}

func keyOf(d Datum) dkey { return dkey{d.E, d.A, vk(d.V)} }

type state struct {
	data map[dkey]Datum
}

func newState() *state {
	s := &state{data: map[dkey]Datum{}}
	for _, d := range sysTable {
		s.data[keyOf(d)] = d
	}
	return s
}

func stateOf(ds []Datum) *state {
	s := &state{data: map[dkey]Datum{}}
	for _, d := range ds {
		s.data[keyOf(d)] = d
	}
	return s
}

func (s *state) clone() *state {
	c := &state{data: make(map[dkey]Datum, len(s.data))}
	for k, d := range s.data {
		c.data[k] = d
	}
	return c
}

func (s *state) sorted() (ds []Datum) {
	for _, d := range s.data {
		ds = append(ds, d)
	}
	sortDatums(ds)
	return
}

func sortDatums(ds []Datum) {
	sort.SliceStable(ds, func(i, j int) bool { return dless(ds[i], ds[j]) })
}

func dless(a, b Datum) bool {
	if a.E != b.E {
		return a.E < b.E
	}
	if a.A != b.A {
		return a.A < b.A
	}
	return vcmp(a.V, b.V) == -1
}

func (s *state) one(e, a ID) (v Value) {
	for _, d := range s.data {
		if d.E == e && d.A == a {
			v = d.V
		}
	}
	return
}

// attrs are the attribute definitions the datums record.
func (s *state) attrs() map[ID]Attr {
	as := map[ID]Attr{}
	for _, d := range s.data {
		if d.A == mType {
			as[d.E] = Attr{ID: d.E, Type: d.V.(ID)}
		}
	}
	for _, d := range s.data {
		a, ok := as[d.E]
		if !ok {
			continue
		}
		switch d.A {
		case mIdent:
			a.Ident = Ident(d.V.(String))
		case mCard:
			a.Cardinality = d.V.(ID)
		case mUnique:
			a.Unique = d.V.(ID)
		}
		as[d.E] = a
	}
	return as
}

func (s *state) ident(i Ident) ID {
	for _, d := range s.data {
		if d.A == mIdent && d.V == Value(String(i)) {
			return d.E
		}
	}
	return 0
}

func (s *state) holder(a ID, v Value) ID {
	k := vk(v)
	for _, d := range s.data {
		if d.A == a && vk(d.V) == k {
			return d.E
		}
	}
	return 0
}

func (s *state) lookup(as map[ID]Attr, r LookupRef) ID {
	var a ID
	switch x := r.A.(type) {
	case ID:
		a = x
	case Ident:
		a = s.ident(x)
	default:
		return 0
	}
	at, ok := as[a]
	if !ok || at.Unique == 0 || r.V == nil || typeOf(r.V) != at.Type {
		return 0
	}
	return s.holder(a, r.V)
}

// match resolves a query.
type query struct {
	e, a ID
	v    Value
	none bool
}

func (s *state) resolve(as map[ID]Attr, c Claim) (q query) {
	switch x := c.E.(type) {
	case nil:
	case ID:
		q.e = x
	case Ident:
		q.e = s.ident(x)
		q.none = q.e == 0
	case LookupRef:
		q.e = s.lookup(as, x)
		q.none = q.e == 0
	default:
		q.none = true
	}
	switch x := c.A.(type) {
	case nil:
	case ID:
		q.a = x
	case Ident:
		q.a = s.ident(x)
		q.none = q.none || q.a == 0
	case LookupRef:
		q.a = s.lookup(as, x)
		q.none = q.none || q.a == 0
	default:
		q.none = true
	}
	switch x := c.V.(type) {
	case nil:
	case Ident:
		i := s.ident(x)
		q.v, q.none = i, q.none || i == 0
	case LookupRef:
		i := s.lookup(as, x)
		q.v, q.none = i, q.none || i == 0
	case Value:
		q.v = x
	default:
		q.none = true
	}
	return
}

func (q query) matches(d Datum) bool {
	return !q.none && (q.e == 0 || q.e == d.E) && (q.a == 0 || q.a == d.A) && (q.v == nil || vk(q.v) == vk(d.V))
}

// A reason is why a request must be rejected, and which properties say so.
type reason struct {
	props string
	why   string
}

type outcome struct {
	reasons []reason // why it must be rejected
	may     bool     // rejecting it breaks no property
	must    []string // "one of these properties says it must be accepted"
	next    *state   // what it leads to, if there are no reasons
	same    map[TempID]map[ID]bool
	named   map[ID]bool // entities its retractions name
	claims  []Claim
	touched map[dkey]bool
	guise   map[dkey]bool // claimed by an equal value that is not the one stored
}

func (o *outcome) no(props, f string, args ...any) {
	o.reasons = append(o.reasons, reason{props, fmt.Sprintf(f, args...)})
}

// apply predicts what becomes of a request in state s. When the database has accepted it,
// tx and ids are what it answered; issued is the greatest id known to have been issued.
func (s *state) apply(req Request, accepted bool, tx ID, ids map[TempID]ID, issued ID) (o *outcome) {
	o = &outcome{same: map[TempID]map[ID]bool{}, named: map[ID]bool{}, touched: map[dkey]bool{}, guise: map[dkey]bool{}}
	as := s.attrs()
	for _, r := range req.Retractions {
		var id ID
		bad := false
		for ref := range r.Constraints {
			var x ID
			switch e := ref.(type) {
			case ID:
				x = e
			case Ident:
				x = s.ident(e)
				if x == 0 {
					o.no("C16 C21", "constraint %v resolves to nothing", ref)
					bad = true
				}
			case LookupRef:
				x = s.lookup(as, e)
				if x == 0 {
					o.no("C16 C21", "constraint %v resolves to nothing", ref)
					bad = true
				}
			}
			if x == 0 {
				if !bad {
					o.no("C16", "constraint %v names nothing", ref)
				}
				bad = true
				continue
			}
			if id != 0 && id != x {
				o.no("C16", "constraints name different entities %d and %d", id, x)
				bad = true
			}
			id = x
		}
		if len(r.Constraints) == 0 {
			o.no("C16", "retraction without constraints")
			bad = true
		}
		if !bad {
			o.named[id] = true
		}
	}
	o.claims = append([]Claim{}, req.Claims...)
	if len(o.reasons) == 0 {
		for _, d := range s.sorted() {
			if o.named[d.E] {
				o.claims = append(o.claims, Claim{E: d.E, A: d.A, V: d.V.(VRef), Retract: true})
			}
		}
	}
	type ev struct {
		e, a  ID
		v     Value
		te    TempID
		ist   bool
		tv    TempID
		isv   bool
		retr  bool
		valid bool
		guise bool
	}
	evs := make([]ev, len(o.claims))
	tied := o.same
	for i, c := range o.claims {
		x := &evs[i]
		x.valid, x.retr = true, c.Retract
		bad := func(props, f string, args ...any) {
			o.no(props, f, args...)
			x.valid = false
		}
		switch e := c.E.(type) {
		case ID:
			x.e = e
			switch {
			case e == 0:
				bad("C15 C21", "claim %d: entity id 0", i)
			case accepted && e >= tx:
				bad("C15", "claim %d: entity %d has not been issued before transaction %d", i, e, tx)
			case e > issued && e >= mFirst:
				o.may = true
			}
		case Ident:
			if x.e = s.ident(e); x.e == 0 {
				bad("C21", "claim %d: entity ident %q names nothing", i, e)
			}
		case LookupRef:
			if x.e = s.lookup(as, e); x.e == 0 {
				bad("C21", "claim %d: entity lookup %v finds nothing", i, e)
			}
		case TempID:
			x.te, x.ist = e, true
		case TxnID:
			x.e = tx
		default:
			bad("C21", "claim %d: entity reference %T", i, c.E)
		}
		switch a := c.A.(type) {
		case ID:
			x.a = a
		case Ident:
			if x.a = s.ident(a); x.a == 0 {
				bad("C10 C21", "claim %d: attribute ident %q names nothing", i, a)
			}
		case LookupRef:
			if x.a = s.lookup(as, a); x.a == 0 {
				bad("C10 C21", "claim %d: attribute lookup %v finds nothing", i, a)
			}
		default:
			bad("C10 C21", "claim %d: attribute reference %T", i, c.A)
		}
		at, known := as[x.a]
		if !known {
			bad("C10", "claim %d: attribute %d is unknown", i, x.a)
		}
		switch v := c.V.(type) {
		case Ident:
			id := s.ident(v)
			if id == 0 {
				bad("C10 C21", "claim %d: value ident %q names nothing", i, v)
			}
			x.v = id
		case TempID:
			x.tv, x.isv = v, true
			x.v = ID(0)
		case LookupRef:
			id := s.lookup(as, v)
			if id == 0 {
				bad("C10 C21", "claim %d: value lookup %v finds nothing", i, v)
			}
			x.v = id
		case ID:
			if v == 0 {
				bad("C10 C21", "claim %d: value id 0", i)
			}
			x.v = v
		default:
			val, ok := c.V.(Value)
			if !ok {
				bad("C10", "claim %d: value %T is missing or no value", i, c.V)
			}
			x.v = val
			switch v := val.(type) {
			case Float:
				x.guise = v == 0 || v != v
			case Inst:
				x.guise = !sameValue(v, canon(v))
			}
		}
		if x.valid && typeOf(x.v) != at.Type {
			bad("C10", "claim %d: value %v has not the type of attribute %d", i, x.v, x.a)
		}
		if x.valid && x.ist {
			if tied[x.te] == nil {
				tied[x.te] = map[ID]bool{}
			}
			if !x.retr && at.Unique == mIdentity && !x.isv {
				if h := s.holder(x.a, x.v); h != 0 {
					tied[x.te][h] = true
				}
			}
		}
		if x.valid && x.isv && tied[x.tv] == nil {
			tied[x.tv] = map[ID]bool{}
		}
	}
	if len(o.reasons) != 0 {
		return
	}
	for t, es := range tied {
		if len(es) > 1 {
			o.no("C09", "tempid %q is tied to different entities %v", t, es)
		}
	}
	if len(o.reasons) != 0 {
		return
	}
	// What the tempids denote: as the database answered, or else stand-ins.
	den := map[TempID]ID{}
	stand := ID(1) << 60
	for t, es := range tied {
		if accepted {
			den[t] = ids[t]
			continue
		}
		for e := range es {
			den[t] = e
		}
		if den[t] == 0 {
			stand++
			den[t] = stand
		}
	}
	if !accepted {
		tx = ID(1) << 61
	}
	changes := map[ID]Attr{}
	creates := map[ID]Ident{}
	for i := range evs {
		x := &evs[i]
		if x.ist {
			x.e = den[x.te]
		}
		if x.isv {
			x.v = den[x.tv]
		}
		if _, ok := o.claims[i].E.(TxnID); ok {
			x.e = tx
		}
		if x.e < mFirst {
			_, have := s.data[dkey{x.e, x.a, vk(x.v)}]
			if have == x.retr {
				o.no("C13", "claim %d changes system entity %d", i, x.e)
				return
			}
			// Asserting what is there or retracting what is not changes nothing.
			o.may = true
			continue
		}
		at, isattr := as[x.e]
		switch x.a {
		case mIdent:
			id := Ident(x.v.(String))
			switch {
			case isattr && x.retr:
				o.no("C12", "claim %d retracts the ident of attribute %d", i, x.e)
			case isattr && id != at.Ident:
				o.no("C12", "claim %d changes the ident of attribute %d", i, x.e)
			case isattr:
			case strings.HasPrefix(string(id), "sys/"):
				if x.retr {
					o.may = true
				} else {
					o.no("C13", "claim %d gives entity %d the system ident %q", i, x.e, id)
				}
			case x.retr:
				if creates[x.e] == id {
					delete(creates, x.e)
				}
			default:
				creates[x.e] = id
			}
		case mType, mCard, mUnique:
			id := x.v.(ID)
			had := map[ID]ID{mType: at.Type, mCard: at.Cardinality, mUnique: at.Unique}[x.a]
			switch {
			case isattr && x.retr && had == id:
				o.no("C12", "claim %d retracts part of the definition of attribute %d", i, x.e)
			case x.retr:
				o.may = true
			case isattr && had != id:
				o.no("C12", "claim %d changes the definition of attribute %d", i, x.e)
			case isattr:
			default:
				c := changes[x.e]
				switch x.a {
				case mType:
					c.Type = id
				case mCard:
					c.Cardinality = id
				case mUnique:
					c.Unique = id
				}
				changes[x.e] = c
			}
		}
	}
	for id, c := range changes {
		if _, ok := creates[id]; !ok {
			// An entity that has an ident need not repeat it for the definition to be complete.
			if v := s.one(id, mIdent); v != nil {
				o.may = true
			} else {
				o.no("C12", "attribute %d has no ident", id)
			}
		}
		if c.Type < mRef || c.Type > mFloat {
			o.no("C12", "attribute %d has type %d", id, c.Type)
		}
		if c.Cardinality != 0 && c.Cardinality != mOne && c.Cardinality != mMany {
			o.no("C12", "attribute %d has cardinality %d", id, c.Cardinality)
		}
		if c.Unique != 0 && c.Unique != mIdentity && c.Unique != mUValue {
			o.no("C12", "attribute %d has uniqueness %d", id, c.Unique)
		}
	}
	if len(o.reasons) != 0 {
		return
	}
	n := s.clone()
	for i := range evs {
		x := evs[i]
		k := dkey{x.e, x.a, vk(x.v)}
		o.touched[k] = true
		if x.guise {
			o.guise[k] = true
		}
		at := as[x.a]
		if x.retr {
			delete(n.data, k)
			continue
		}
		if at.Unique != 0 {
			for h, d := range n.data {
				if h.A == x.a && h.V == k.V && h.E != x.e {
					o.no("C08", "claim %d gives entity %d the unique value %v of attribute %d that entity %d holds", i, x.e, x.v, x.a, d.E)
					return
				}
			}
		}
		if _, ok := n.data[k]; ok {
			continue
		}
		if at.Cardinality != mMany {
			for h := range n.data {
				if h.E == x.e && h.A == x.a {
					delete(n.data, h)
				}
			}
		}
		n.data[k] = Datum{E: x.e, A: x.a, V: canon(x.v), T: tx}
	}
	o.next = n
	return
}

// canon is the form in which a stored value is returned.
func canon(v Value) Value {
	if i, ok := v.(Inst); ok {
		return Inst(time.UnixMilli(time.Time(i).UnixMilli()).UTC())
	}
	return v
}

// same reports whether a returned value is exactly the stored one.
func sameValue(a, b Value) bool {
	switch x := a.(type) {
	case Inst:
		y, ok := b.(Inst)
		return ok && time.Time(x) == time.Time(y)
	case Float:
		y, ok := b.(Float)
		return ok && (x != x && y != y || math.Float64bits(float64(x)) == math.Float64bits(float64(y)))
	}
	return a == b
}
