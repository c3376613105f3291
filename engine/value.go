package main

// Run-time values of the interpreted program.

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Val is one of: bool, int64 (all integer kinds), float64, string, *SymStr,
// *Term (symbolic scalar), *Val (pointer), *SymAddr, Struct, Array, Slice,
// *Map, Iface, *Closure, Tuple, *RType, *MapIter, *StrIter.
type Val = any

type Struct []Val
type Array []Val
type Slice []Val
type Tuple []Val

type SymStr struct{ b []Val }

type SymAddr struct {
	arr []Val
	idx *Term
}

type Iface struct {
	t types.Type
	v Val
}

type Closure struct {
	fn  *ssa.Function
	env []Val
	bi  string // builtin name
	nat func(it *Interp, args []Val) Val
}

type RType struct{ t types.Type }

type mapEnt struct {
	k, v Val
	dead bool
}

type Map struct {
	ents []*mapEnt
	idx  map[any]*mapEnt
	n    int
	nsym int
}

func newMap() *Map { return &Map{idx: map[any]*mapEnt{}} }

type MapIter struct {
	m     *Map
	order []*mapEnt // fixed order part
	i     int
	tail  int // index in m.ents to continue from
}

type StrIter struct {
	s Val
	i int
}

// ---------- canonical types

var canonMu sync.Mutex
var canonMap typeutil.Map
var canonFast sync.Map

func canon(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	if c, ok := canonFast.Load(t); ok {
		return c.(types.Type)
	}
	canonMu.Lock()
	defer canonMu.Unlock()
	t0 := t
	t = types.Unalias(t)
	if c := canonMap.At(t); c != nil {
		canonFast.Store(t0, c.(types.Type))
		return c.(types.Type)
	}
	canonMap.Set(t, t)
	canonFast.Store(t0, t)
	canonFast.Store(t, t)
	return t
}

var ptrTypes sync.Map

// ptrTo is the canonical pointer type.
func ptrTo(t types.Type) types.Type {
	t = canon(t)
	if p, ok := ptrTypes.Load(t); ok {
		return p.(types.Type)
	}
	p := canon(types.NewPointer(t))
	ptrTypes.Store(t, p)
	return p
}

// ---------- kinds

type kindT struct {
	c      byte // 'b','i','f','s','p'(unsafe/other)
	w      int
	signed bool
}

func kindOf(t types.Type) kindT {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return kindT{c: 'o'}
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return kindT{'b', 1, false}
	case types.Int, types.Int64, types.UntypedInt:
		return kindT{'i', 64, true}
	case types.Int8:
		return kindT{'i', 8, true}
	case types.Int16:
		return kindT{'i', 16, true}
	case types.Int32, types.UntypedRune:
		return kindT{'i', 32, true}
	case types.Uint, types.Uint64, types.Uintptr:
		return kindT{'i', 64, false}
	case types.Uint8:
		return kindT{'i', 8, false}
	case types.Uint16:
		return kindT{'i', 16, false}
	case types.Uint32:
		return kindT{'i', 32, false}
	case types.Float64, types.UntypedFloat:
		return kindT{'f', 64, true}
	case types.Float32:
		return kindT{'f', 32, true}
	case types.String, types.UntypedString:
		return kindT{c: 's'}
	}
	return kindT{c: 'o'}
}

func norm(v int64, k kindT) int64 {
	switch {
	case k.w == 64:
		return v
	case k.signed:
		sh := uint(64 - k.w)
		return v << sh >> sh
	default:
		return int64(uint64(v) & mask(uint16(k.w)))
	}
}

func zero(t types.Type) Val {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UnsafePointer:
			return (*Val)(nil)
		case u.Kind() == types.UntypedNil:
			return nil
		case u.Info()&types.IsComplex != 0:
			return complex(0, 0)
		}
	case *types.Pointer:
		return (*Val)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Val)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		if len(a) > 0 {
			z := zero(u.Elem())
			switch z.(type) {
			case Struct, Array:
				for i := range a {
					a[i] = zero(u.Elem())
				}
			default:
				for i := range a {
					a[i] = z
				}
			}
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	}
	panic(fmt.Sprintf("zero: %v %T", t, t.Underlying()))
}

// copyVal makes value semantics of structs and arrays explicit.
func copyVal(v Val) Val {
	switch x := v.(type) {
	case Struct:
		s := make(Struct, len(x))
		for i, f := range x {
			switch f.(type) {
			case Struct, Array:
				s[i] = copyVal(f)
			default:
				s[i] = f
			}
		}
		return s
	case Array:
		s := make(Array, len(x))
		for i, f := range x {
			switch f.(type) {
			case Struct, Array:
				s[i] = copyVal(f)
			default:
				s[i] = f
			}
		}
		return s
	}
	return v
}

// storeTo writes v into *p, preserving the identity of embedded cells.
func storeTo(p *Val, v Val) {
	switch x := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			x = copyVal(x).(Struct) // source may alias destination
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(x) {
			if len(d) > 0 && &d[0] == &x[0] {
				return
			}
			x = copyVal(x).(Array)
			for i := range x {
				storeTo(&d[i], x[i])
			}
			return
		}
		*p = copyVal(x)
	default:
		*p = v
	}
}

// ---------- strings

func mkStr(b []Val) Val {
	for _, x := range b {
		if _, ok := x.(*Term); ok {
			return &SymStr{b}
		}
	}
	bs := make([]byte, len(b))
	for i, x := range b {
		bs[i] = byte(x.(int64))
	}
	return string(bs)
}

func strLen(v Val) int {
	switch s := v.(type) {
	case string:
		return len(s)
	case *SymStr:
		return len(s.b)
	}
	panic(fmt.Sprintf("strLen %T", v))
}

func strBytes(v Val) []Val {
	switch s := v.(type) {
	case string:
		out := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			out[i] = int64(s[i])
		}
		return out
	case *SymStr:
		return append([]Val(nil), s.b...)
	}
	panic(fmt.Sprintf("strBytes %T", v))
}

func strAt(v Val, i int) Val {
	switch s := v.(type) {
	case string:
		return int64(s[i])
	case *SymStr:
		return s.b[i]
	}
	panic("strAt")
}

func strSlice(v Val, lo, hi int) Val {
	switch s := v.(type) {
	case string:
		return s[lo:hi]
	case *SymStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic("strSlice")
}

func strConcat(a, b Val) Val {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x + y
		}
		if x == "" {
			return b
		}
	}
	if y, ok := b.(string); ok && y == "" {
		return a
	}
	return mkStr(append(strBytes(a), strBytes(b)...))
}

func (it *Interp) byteTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case int64:
		return it.tt.BV(uint64(x), 8)
	}
	panic("byteTerm")
}

func (it *Interp) strEq(a, b Val) Val {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return x == y
		}
	}
	n := strLen(a)
	if n != strLen(b) {
		return false
	}
	r := it.tt.Bool(true)
	for i := 0; i < n; i++ {
		r = it.tt.And(r, it.tt.Eq(it.byteTerm(strAt(a, i)), it.byteTerm(strAt(b, i))))
	}
	return it.simp(r)
}

// strLess builds a < b lexicographically.
func (it *Interp) strLess(a, b Val, orEq bool) Val {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			if orEq {
				return x <= y
			}
			return x < y
		}
	}
	n, m := strLen(a), strLen(b)
	k := n
	if m < k {
		k = m
	}
	var r *Term
	if orEq {
		r = it.tt.Bool(n <= m)
	} else {
		r = it.tt.Bool(n < m)
	}
	for i := k - 1; i >= 0; i-- {
		x, y := it.byteTerm(strAt(a, i)), it.byteTerm(strAt(b, i))
		r = it.tt.Or(it.tt.Mk(OUlt, sBool, x, y), it.tt.And(it.tt.Eq(x, y), r))
	}
	return it.simp(r)
}

// simp turns constant boolean terms into Go bools.
func (it *Interp) simp(t *Term) Val {
	if t.op == OConst {
		return it.fromConst(t, kindT{})
	}
	return t
}

func (it *Interp) fromConst(t *Term, k kindT) Val {
	switch t.sort.K {
	case 'b':
		return t.val == 1
	case 'f':
		return fval(t.val, t.sort)
	}
	if k.c == 'i' {
		return norm(int64(t.val), k)
	}
	panic("fromConst without kind")
}

// simpK concretises constant terms of integer/float kind k.
func (it *Interp) simpK(t *Term, k kindT) Val {
	if t.op == OConst {
		return it.fromConst(t, k)
	}
	return t
}

func (it *Interp) term(v Val, k kindT) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return it.tt.Bool(x)
	case int64:
		return it.tt.BV(uint64(x), k.w)
	case float64:
		if k.w == 32 {
			return it.tt.F32(x)
		}
		return it.tt.F64(x)
	}
	panic(fmt.Sprintf("term: %T", v))
}

func (it *Interp) boolTerm(v Val) *Term {
	switch x := v.(type) {
	case *Term:
		return x
	case bool:
		return it.tt.Bool(x)
	}
	panic(fmt.Sprintf("boolTerm: %T", v))
}

// eqVal is Go's == on two values of the same static type.
func (it *Interp) eqVal(x, y Val) Val {
	switch a := x.(type) {
	case nil:
		return y == nil
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
		return it.simp(it.tt.Eq(it.tt.Bool(a), y.(*Term)))
	case int64:
		if b, ok := y.(int64); ok {
			return a == b
		}
		t := y.(*Term)
		return it.simp(it.tt.Eq(it.tt.BV(uint64(a), int(t.sort.W)), t))
	case float64:
		if b, ok := y.(float64); ok {
			return a == b
		}
		t := y.(*Term)
		return it.simp(it.tt.Mk(OFEq, sBool, it.term(a, kindT{'f', int(t.sort.W), true}), t))
	case string, *SymStr:
		return it.strEq(x, y)
	case *Term:
		var t *Term
		switch b := y.(type) {
		case *Term:
			t = b
		case bool:
			t = it.tt.Bool(b)
		case int64:
			t = it.tt.BV(uint64(b), int(a.sort.W))
		case float64:
			t = it.term(b, kindT{'f', int(a.sort.W), true})
		}
		if a.sort.K == 'f' {
			return it.simp(it.tt.Mk(OFEq, sBool, a, t))
		}
		return it.simp(it.tt.Eq(a, t))
	case *Val:
		b, _ := y.(*Val)
		return a == b
	case Iface:
		b := y.(Iface)
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if ra, ok := a.v.(*RType); ok {
			if rb, ok := b.v.(*RType); ok {
				return ra.t == rb.t
			}
			return false
		}
		if a.t != b.t {
			return false
		}
		if !types.Comparable(a.t) {
			it.rtPanic("comparing uncomparable type " + a.t.String())
		}
		return it.eqVal(a.v, b.v)
	case Struct:
		b := y.(Struct)
		r := it.tt.Bool(true)
		for i := range a {
			r = it.tt.And(r, it.boolTerm(it.eqVal(a[i], b[i])))
			if r.isFalse() {
				return false
			}
		}
		return it.simp(r)
	case Array:
		b := y.(Array)
		r := it.tt.Bool(true)
		for i := range a {
			r = it.tt.And(r, it.boolTerm(it.eqVal(a[i], b[i])))
			if r.isFalse() {
				return false
			}
		}
		return it.simp(r)
	case *Map:
		b, _ := y.(*Map)
		return a == b
	case *Closure:
		b, _ := y.(*Closure)
		return a == b
	case Slice:
		b, _ := y.(Slice)
		if a != nil && b != nil {
			panic("slice compare")
		}
		return a == nil && b == nil
	case *RType:
		b, ok := y.(*RType)
		return ok && a.t == b.t
	}
	panic(fmt.Sprintf("eqVal %T %T", x, y))
}

// ---------- maps

type ifKey struct {
	t types.Type
	v any
}
type strKey string

// hashKey returns a comparable key for a fully concrete value, or ok=false.
func hashKey(v Val) (any, bool) {
	switch x := v.(type) {
	case bool, int64, string:
		return x, true
	case float64:
		if math.IsNaN(x) {
			return nil, false
		}
		if x == 0 {
			x = 0
		}
		return x, true
	case *Val:
		return x, true
	case *Closure:
		return x, true
	case *RType:
		return x.t, true
	case Iface:
		if x.t == nil {
			return ifKey{}, true
		}
		k, ok := hashKey(x.v)
		if !ok {
			return nil, false
		}
		return ifKey{x.t, k}, true
	case Struct:
		return hashSeq([]Val(x))
	case Array:
		return hashSeq([]Val(x))
	}
	return nil, false
}

func hashSeq(xs []Val) (any, bool) {
	var sb strings.Builder
	for _, f := range xs {
		k, ok := hashKey(f)
		if !ok {
			return nil, false
		}
		if p, ok := k.(*Val); ok {
			fmt.Fprintf(&sb, "%p;", p)
		} else {
			s := fmt.Sprintf("%T:%v", k, k)
			fmt.Fprintf(&sb, "%d:%s;", len(s), s)
		}
	}
	return strKey(sb.String()), true
}

func (it *Interp) checkHashable(k Val) {
	if i, ok := k.(Iface); ok && i.t != nil {
		if _, rt := i.v.(*RType); rt {
			return
		}
		if !types.Comparable(i.t) {
			it.rtPanic("hash of unhashable type " + i.t.String())
		}
		it.checkHashable(i.v)
	}
}

func (it *Interp) mapFind(m *Map, k Val) *mapEnt {
	if m == nil {
		return nil
	}
	h, conc := hashKey(k)
	if !conc {
		it.checkHashable(k)
	}
	if conc {
		if e, ok := m.idx[h]; ok {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
	}
	for _, e := range m.ents {
		if e.dead {
			continue
		}
		if conc {
			if _, c := hashKey(e.k); c {
				continue
			}
		}
		eq := it.eqVal(e.k, k)
		if it.truth(eq) {
			return e
		}
	}
	return nil
}

func (it *Interp) mapSet(m *Map, k, v Val) {
	if e := it.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.n++
	if h, ok := hashKey(k); ok {
		m.idx[h] = e
	} else {
		m.nsym++
	}
}

func (it *Interp) mapDelete(m *Map, k Val) {
	e := it.mapFind(m, k)
	if e == nil {
		return
	}
	e.dead = true
	m.n--
	if h, ok := hashKey(e.k); ok {
		delete(m.idx, h)
	} else {
		m.nsym--
	}
	if len(m.ents) > 32 && m.n*2 < len(m.ents) {
		// compaction would disturb iterators; leave
	}
}

// ---------- description of values for evidence and observations

func (it *Interp) show(v Val, ev *evaluator, d int) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case bool:
		return fmt.Sprint(x)
	case int64:
		return fmt.Sprint(x)
	case float64:
		if math.IsNaN(x) {
			return "NaN"
		}
		return fmt.Sprintf("f%016x", math.Float64bits(x))
	case string:
		return fmt.Sprintf("%q", x)
	case *SymStr:
		b := make([]byte, len(x.b))
		for i, c := range x.b {
			switch y := c.(type) {
			case int64:
				b[i] = byte(y)
			case *Term:
				b[i] = byte(ev.eval(y))
			}
		}
		return fmt.Sprintf("%q", string(b))
	case *Term:
		switch x.sort.K {
		case 'b':
			return fmt.Sprint(ev.eval(x) == 1)
		case 'f':
			return it.show(fval(ev.eval(x), x.sort), ev, d)
		}
		return fmt.Sprint(sext(ev.eval(x), x.sort.W))
	case Iface:
		if x.t == nil {
			return "nil"
		}
		return it.show(x.v, ev, d)
	}
	return fmt.Sprintf("%T", v)
}
