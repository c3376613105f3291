package main

// Hash-consed terms over Bool, bit-vectors and IEEE floats.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Sort struct {
	K uint8 // 'b' bool, 'v' bitvector, 'f' float
	W uint16
}

var (
	sBool = Sort{'b', 1}
	sF64  = Sort{'f', 64}
	sF32  = Sort{'f', 32}
)

func bv(w int) Sort { return Sort{'v', uint16(w)} }

func (s Sort) smt() string {
	switch s.K {
	case 'b':
		return "Bool"
	case 'v':
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	}
	if s.W == 32 {
		return "(_ FloatingPoint 8 24)"
	}
	return "(_ FloatingPoint 11 53)"
}

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OIte
	OEq
	OAdd
	OSub
	OMul
	OUDiv
	OSDiv
	OURem
	OSRem
	OShl
	OLshr
	OAshr
	OBAnd
	OBOr
	OBXor
	OBNot
	ONeg
	OUlt
	OUle
	OSlt
	OSle
	OConcat
	OExtract // a=hi b=lo
	OZext    // to sort width
	OSext
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFAbs
	OFSqrt
	OFEq
	OFLt
	OFLe
	OFIsNaN
	OFIsInf
	OBitsToF // bv -> float
	OFBits   // float -> bv (z3 fp.to_ieee_bv)
	OSToF
	OUToF
	OFToS // RTZ
	OFToU
	OFToF
	OFRound // a: 0 RNE 1 RTZ(trunc) 2 RTN(floor) 3 RTP(ceil)
	OUF
)

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OIte: "ite", OEq: "=", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUDiv: "bvudiv", OSDiv: "bvsdiv", OURem: "bvurem", OSRem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OBNot: "bvnot", ONeg: "bvneg", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OConcat: "concat", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE", OFNeg: "fp.neg", OFAbs: "fp.abs", OFSqrt: "fp.sqrt RNE", OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq", OFIsNaN: "fp.isNaN", OFIsInf: "fp.isInfinite", OFBits: "fp.to_ieee_bv"}

type Term struct {
	op    Op
	sort  Sort
	a, b  uint16
	val   uint64
	name  string
	args  []*Term
	id    int
	vars  []int32 // sorted var ids, nil until computed
	vok   bool
	ufs   bool // contains UF application
	heavy bool
}

type termKey struct {
	op         Op
	sort       Sort
	a, b       uint16
	val        uint64
	name       string
	x, y, z, n int
}

type TermTab struct {
	m      map[termKey]*Term
	nextID int
	folds  int // non-constant applications that normalised to a constant
	ufFns  map[string]func([]uint64) uint64
}

func NewTermTab() *TermTab {
	return &TermTab{m: map[termKey]*Term{}, nextID: 1, ufFns: ufNative}
}

// native meaning of uninterpreted functions (used to evaluate models)
var ufNative = map[string]func([]uint64) uint64{
	"uf_pow": func(a []uint64) uint64 {
		return math.Float64bits(math.Pow(math.Float64frombits(a[0]), math.Float64frombits(a[1])))
	},
	"uf_fmod": func(a []uint64) uint64 {
		return math.Float64bits(math.Mod(math.Float64frombits(a[0]), math.Float64frombits(a[1])))
	},
}

func init() {
	for n, f := range map[string]func(float64) float64{"exp": math.Exp, "log": math.Log, "sin": math.Sin, "cos": math.Cos, "tan": math.Tan, "log10": math.Log10, "exp2": math.Exp2, "log2": math.Log2, "cbrt": math.Cbrt} {
		f := f
		ufNative["uf_"+n] = func(a []uint64) uint64 { return math.Float64bits(f(math.Float64frombits(a[0]))) }
	}
}

func mask(w uint16) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint16) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (tt *TermTab) raw(op Op, s Sort, a, b uint16, val uint64, name string, args ...*Term) *Term {
	k := termKey{op: op, sort: s, a: a, b: b, val: val, name: name, n: len(args)}
	switch len(args) {
	case 0:
	case 1:
		k.x = args[0].id
	case 2:
		k.x, k.y = args[0].id, args[1].id
	case 3:
		k.x, k.y, k.z = args[0].id, args[1].id, args[2].id
	default:
		var sb strings.Builder
		sb.WriteString(name)
		for _, x := range args {
			sb.WriteByte('|')
			sb.WriteString(strconv.Itoa(x.id))
		}
		k.name = sb.String()
	}
	if t, ok := tt.m[k]; ok {
		return t
	}
	t := &Term{op: op, sort: s, a: a, b: b, val: val, name: name, args: append([]*Term(nil), args...), id: tt.nextID}
	tt.nextID++
	if op == OUF {
		t.ufs = true
	}
	switch op {
	case OFAdd, OFSub, OFMul, OFDiv, OFSqrt, OFRound, OMul, OUDiv, OSDiv, OURem, OSRem:
		t.heavy = true
	}
	for _, x := range args {
		if x.ufs {
			t.ufs = true
		}
		if x.heavy {
			t.heavy = true
		}
	}
	tt.m[k] = t
	return t
}

func (tt *TermTab) Bool(b bool) *Term {
	v := uint64(0)
	if b {
		v = 1
	}
	return tt.raw(OConst, sBool, 0, 0, v, "")
}
func (tt *TermTab) BV(v uint64, w int) *Term {
	return tt.raw(OConst, bv(w), 0, 0, v&mask(uint16(w)), "")
}
func (tt *TermTab) F64(f float64) *Term {
	return tt.raw(OConst, sF64, 0, 0, math.Float64bits(f), "")
}
func (tt *TermTab) F32(f float64) *Term {
	return tt.raw(OConst, sF32, 0, 0, uint64(math.Float32bits(float32(f))), "")
}
func (tt *TermTab) Var(name string, s Sort) *Term { return tt.raw(OVar, s, 0, 0, 0, name) }

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.sort.K == 'b' && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.sort.K == 'b' && t.val == 0 }

func allConst(args []*Term) bool {
	for _, a := range args {
		if a.op != OConst || (a.sort.K == 'v' && a.sort.W > 64) {
			return false
		}
	}
	return true
}

// Mk builds a simplified term.
func (tt *TermTab) Mk(op Op, s Sort, args ...*Term) *Term { return tt.MkAB(op, s, 0, 0, "", args...) }

func (tt *TermTab) MkAB(op Op, s Sort, a, b uint16, name string, args ...*Term) *Term {
	t := tt.mkAB(op, s, a, b, name, args...)
	if t.op == OConst && len(args) > 0 && !allConst(args) {
		tt.folds++
	}
	return t
}

func (tt *TermTab) mkAB(op Op, s Sort, a, b uint16, name string, args ...*Term) *Term {
	if allConst(args) && !(s.K == 'v' && s.W > 64) && (op != OUF || ufNative[name] != nil) {
		vals := make([]uint64, len(args))
		for i, x := range args {
			vals[i] = x.val
		}
		return tt.raw(OConst, s, 0, 0, evalOp(op, s, a, b, name, args, vals), "")
	}
	switch op {
	case ONot:
		x := args[0]
		if x.op == ONot {
			return x.args[0]
		}
	case OAnd:
		x, y := args[0], args[1]
		if x.isFalse() || y.isFalse() {
			return tt.Bool(false)
		}
		if x.isTrue() || x == y {
			return y
		}
		if y.isTrue() {
			return x
		}
		if (x.op == ONot && x.args[0] == y) || (y.op == ONot && y.args[0] == x) {
			return tt.Bool(false)
		}
	case OOr:
		x, y := args[0], args[1]
		if x.isTrue() || y.isTrue() {
			return tt.Bool(true)
		}
		if x.isFalse() || x == y {
			return y
		}
		if y.isFalse() {
			return x
		}
		if (x.op == ONot && x.args[0] == y) || (y.op == ONot && y.args[0] == x) {
			return tt.Bool(true)
		}
	case OIte:
		c, x, y := args[0], args[1], args[2]
		if c.isTrue() {
			return x
		}
		if c.isFalse() {
			return y
		}
		if x == y {
			return x
		}
		if s.K == 'b' {
			if x.isTrue() && y.isFalse() {
				return c
			}
			if x.isFalse() && y.isTrue() {
				return tt.Not(c)
			}
			if x.isTrue() {
				return tt.Or(c, y)
			}
			if x.isFalse() {
				return tt.And(tt.Not(c), y)
			}
			if y.isTrue() {
				return tt.Or(tt.Not(c), x)
			}
			if y.isFalse() {
				return tt.And(c, x)
			}
		}
		if c.op == ONot {
			return tt.MkAB(OIte, s, 0, 0, "", c.args[0], y, x)
		}
	case OEq:
		x, y := args[0], args[1]
		if x == y {
			return tt.Bool(true)
		}
		if x.isConst() && !y.isConst() {
			x, y = y, x
		}
		if x.sort.K == 'b' {
			if y.isTrue() {
				return x
			}
			if y.isFalse() {
				return tt.Not(x)
			}
		}
		if y.isConst() {
			switch x.op {
			case OIte:
				// ite(c, k1, k2) = k with constants
				if x.args[1].isConst() && x.args[2].isConst() && x.sort.K != 'f' {
					e1, e2 := x.args[1].val == y.val, x.args[2].val == y.val
					switch {
					case e1 && e2:
						return tt.Bool(true)
					case e1:
						return x.args[0]
					case e2:
						return tt.Not(x.args[0])
					default:
						return tt.Bool(false)
					}
				}
			case OZext:
				in := x.args[0]
				if x.sort.W <= 64 {
					if y.val > mask(in.sort.W) {
						return tt.Bool(false)
					}
					return tt.MkAB(OEq, sBool, 0, 0, "", in, tt.BV(y.val, int(in.sort.W)))
				}
			}
		}
		if x.id > y.id {
			x, y = y, x
		}
		args = []*Term{x, y}
	case OAdd:
		x, y := args[0], args[1]
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.val == 0 {
			return x
		}
		if y.isConst() && x.op == OAdd && x.args[1].isConst() && s.W <= 64 {
			return tt.MkAB(OAdd, s, 0, 0, "", x.args[0], tt.BV(x.args[1].val+y.val, int(s.W)))
		}
		if !y.isConst() && x.id > y.id {
			x, y = y, x
		}
		args = []*Term{x, y}
	case OSub:
		x, y := args[0], args[1]
		if y.isConst() && s.W <= 64 {
			return tt.MkAB(OAdd, s, 0, 0, "", x, tt.BV(-y.val, int(s.W)))
		}
		if x == y && s.W <= 64 {
			return tt.BV(0, int(s.W))
		}
		if x.isConst() && x.val == 0 && s.W <= 64 {
			return tt.Mk(ONeg, s, y)
		}
	case ONeg:
		if args[0].op == ONeg {
			return args[0].args[0]
		}
	case OMul:
		x, y := args[0], args[1]
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && s.W <= 64 {
			if y.val == 0 {
				return y
			}
			if y.val == 1 {
				return x
			}
			if y.val == mask(s.W) {
				return tt.Mk(ONeg, s, x)
			}
		}
		if !y.isConst() && x.id > y.id {
			x, y = y, x
		}
		args = []*Term{x, y}
	case OUDiv, OSDiv:
		if args[1].isConst() && args[1].val == 1 && s.W > 1 {
			return args[0]
		}
	case OBAnd:
		x, y := args[0], args[1]
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && s.W <= 64 {
			if y.val == 0 {
				return y
			}
			if y.val == mask(s.W) {
				return x
			}
		}
		if x == y {
			return x
		}
		args = []*Term{x, y}
	case OBOr, OBXor:
		x, y := args[0], args[1]
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() && y.val == 0 && s.W <= 64 {
			return x
		}
		args = []*Term{x, y}
	case OShl, OLshr, OAshr:
		if args[1].isConst() && args[1].val == 0 {
			return args[0]
		}
	case OUlt:
		if args[0] == args[1] {
			return tt.Bool(false)
		}
		if args[1].isConst() && args[1].val == 0 && args[1].sort.W <= 64 {
			return tt.Bool(false)
		}
		if t := tt.zextCmp(op, args); t != nil {
			return t
		}
	case OUle:
		if args[0] == args[1] {
			return tt.Bool(true)
		}
		if args[0].isConst() && args[0].val == 0 && args[0].sort.W <= 64 {
			return tt.Bool(true)
		}
		if t := tt.zextCmp(op, args); t != nil {
			return t
		}
	case OSlt:
		if args[0] == args[1] {
			return tt.Bool(false)
		}
		if t := tt.zextCmp(op, args); t != nil {
			return t
		}
	case OSle:
		if args[0] == args[1] {
			return tt.Bool(true)
		}
		if t := tt.zextCmp(op, args); t != nil {
			return t
		}
	case OExtract:
		x := args[0]
		if b == 0 && a+1 == x.sort.W {
			return x
		}
		switch x.op {
		case OExtract:
			return tt.MkAB(OExtract, s, a+x.b, b+x.b, "", x.args[0])
		case OZext, OSext:
			in := x.args[0]
			if a < in.sort.W {
				return tt.MkAB(OExtract, s, a, b, "", in)
			}
			if x.op == OZext && b >= in.sort.W && s.W <= 64 {
				return tt.BV(0, int(s.W))
			}
		case OConcat:
			lo := x.args[1]
			if a < lo.sort.W {
				return tt.MkAB(OExtract, s, a, b, "", lo)
			}
			if b >= lo.sort.W {
				return tt.MkAB(OExtract, s, a-lo.sort.W, b-lo.sort.W, "", x.args[0])
			}
		case OIte:
			if x.args[1].isConst() && x.args[2].isConst() && x.sort.W <= 64 {
				return tt.MkAB(OIte, s, 0, 0, "", x.args[0], tt.MkAB(OExtract, s, a, b, "", x.args[1]), tt.MkAB(OExtract, s, a, b, "", x.args[2]))
			}
		}
	case OZext, OSext:
		x := args[0]
		if x.sort.W == s.W {
			return x
		}
		if x.op == op {
			return tt.MkAB(op, s, 0, 0, "", x.args[0])
		}
		if op == OSext && x.op == OZext {
			return tt.MkAB(OZext, s, 0, 0, "", x.args[0])
		}
	case OFNeg:
		if args[0].op == OFNeg {
			return args[0].args[0]
		}
	case OFBits:
		if args[0].op == OBitsToF {
			return args[0].args[0]
		}
	case OBitsToF:
		if args[0].op == OFBits {
			return args[0].args[0]
		}
	case OFToF:
		if args[0].sort == s {
			return args[0]
		}
	case OFIsNaN:
		if args[0].op == OSToF || args[0].op == OUToF {
			return tt.Bool(false)
		}
	case OFEq:
		if args[0] == args[1] {
			return tt.Not(tt.Mk(OFIsNaN, sBool, args[0]))
		}
	case OFLt:
		if args[0] == args[1] {
			return tt.Bool(false)
		}
	}
	return tt.raw(op, s, a, b, 0, name, args...)
}

// zextCmp narrows comparisons of zero-extended values.
func (tt *TermTab) zextCmp(op Op, args []*Term) *Term {
	x, y := args[0], args[1]
	if x.sort.W > 64 {
		return nil
	}
	inner := func(t *Term) *Term {
		if t.op == OZext && t.args[0].sort.W < t.sort.W {
			return t.args[0]
		}
		return nil
	}
	uop := op
	if op == OSlt {
		uop = OUlt
	} else if op == OSle {
		uop = OUle
	}
	xi, yi := inner(x), inner(y)
	if xi != nil && yi != nil && xi.sort == yi.sort {
		return tt.MkAB(uop, sBool, 0, 0, "", xi, yi)
	}
	if xi != nil && y.isConst() {
		if op == OSlt || op == OSle {
			if sext(y.val, y.sort.W) < 0 {
				return tt.Bool(false)
			}
		}
		if y.val > mask(xi.sort.W) {
			return tt.Bool(true)
		}
		return tt.MkAB(uop, sBool, 0, 0, "", xi, tt.BV(y.val, int(xi.sort.W)))
	}
	if yi != nil && x.isConst() {
		if op == OSlt || op == OSle {
			if sext(x.val, x.sort.W) < 0 {
				return tt.Bool(true)
			}
		}
		if x.val > mask(yi.sort.W) {
			return tt.Bool(false)
		}
		return tt.MkAB(uop, sBool, 0, 0, "", tt.BV(x.val, int(yi.sort.W)), yi)
	}
	return nil
}

func (tt *TermTab) Not(x *Term) *Term    { return tt.Mk(ONot, sBool, x) }
func (tt *TermTab) And(x, y *Term) *Term { return tt.Mk(OAnd, sBool, x, y) }
func (tt *TermTab) Or(x, y *Term) *Term  { return tt.Mk(OOr, sBool, x, y) }
func (tt *TermTab) Eq(x, y *Term) *Term  { return tt.Mk(OEq, sBool, x, y) }
func (tt *TermTab) Ite(c, x, y *Term) *Term {
	return tt.Mk(OIte, x.sort, c, x, y)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fval(v uint64, s Sort) float64 {
	if s.W == 32 {
		return float64(math.Float32frombits(uint32(v)))
	}
	return math.Float64frombits(v)
}
func fbits(f float64, s Sort) uint64 {
	if s.W == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

func evalOp(op Op, s Sort, a, b uint16, name string, args []*Term, v []uint64) uint64 {
	m := mask(s.W)
	w := s.W
	if len(args) > 0 {
		w = args[0].sort.W
	}
	switch op {
	case ONot:
		return 1 - v[0]
	case OAnd:
		return v[0] & v[1]
	case OOr:
		return v[0] | v[1]
	case OIte:
		if v[0] == 1 {
			return v[1]
		}
		return v[2]
	case OEq:
		if args[0].sort.K == 'f' {
			x, y := fval(v[0], args[0].sort), fval(v[1], args[1].sort)
			if math.IsNaN(x) && math.IsNaN(y) {
				return 1
			}
			return b2u(v[0] == v[1])
		}
		return b2u(v[0] == v[1])
	case OAdd:
		return (v[0] + v[1]) & m
	case OSub:
		return (v[0] - v[1]) & m
	case OMul:
		return (v[0] * v[1]) & m
	case OUDiv:
		if v[1] == 0 {
			return m
		}
		return v[0] / v[1]
	case OURem:
		if v[1] == 0 {
			return v[0]
		}
		return v[0] % v[1]
	case OSDiv:
		x, y := sext(v[0], w), sext(v[1], w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OSRem:
		x, y := sext(v[0], w), sext(v[1], w)
		if y == 0 {
			return v[0]
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OShl:
		if v[1] >= uint64(w) {
			return 0
		}
		return (v[0] << v[1]) & m
	case OLshr:
		if v[1] >= uint64(w) {
			return 0
		}
		return v[0] >> v[1]
	case OAshr:
		sh := v[1]
		if sh >= uint64(w) {
			sh = 63
		}
		return uint64(sext(v[0], w)>>sh) & m
	case OBAnd:
		return v[0] & v[1]
	case OBOr:
		return v[0] | v[1]
	case OBXor:
		return v[0] ^ v[1]
	case OBNot:
		return ^v[0] & m
	case ONeg:
		return -v[0] & m
	case OUlt:
		return b2u(v[0] < v[1])
	case OUle:
		return b2u(v[0] <= v[1])
	case OSlt:
		return b2u(sext(v[0], w) < sext(v[1], w))
	case OSle:
		return b2u(sext(v[0], w) <= sext(v[1], w))
	case OConcat:
		return (v[0]<<args[1].sort.W | v[1]) & m
	case OExtract:
		return (v[0] >> b) & m
	case OZext:
		return v[0]
	case OSext:
		return uint64(sext(v[0], w)) & m
	case OFAdd, OFSub, OFMul, OFDiv:
		x, y := fval(v[0], s), fval(v[1], s)
		var r float64
		if s.W == 32 {
			var r32 float32
			switch op {
			case OFAdd:
				r32 = float32(x) + float32(y)
			case OFSub:
				r32 = float32(x) - float32(y)
			case OFMul:
				r32 = float32(x) * float32(y)
			default:
				r32 = float32(x) / float32(y)
			}
			return uint64(math.Float32bits(r32))
		}
		switch op {
		case OFAdd:
			r = x + y
		case OFSub:
			r = x - y
		case OFMul:
			r = x * y
		default:
			r = x / y
		}
		return math.Float64bits(r)
	case OFNeg:
		return v[0] ^ (1 << (s.W - 1))
	case OFAbs:
		return v[0] &^ (1 << (s.W - 1))
	case OFSqrt:
		return fbits(math.Sqrt(fval(v[0], s)), s)
	case OFEq:
		return b2u(fval(v[0], args[0].sort) == fval(v[1], args[0].sort))
	case OFLt:
		return b2u(fval(v[0], args[0].sort) < fval(v[1], args[0].sort))
	case OFLe:
		return b2u(fval(v[0], args[0].sort) <= fval(v[1], args[0].sort))
	case OFIsNaN:
		return b2u(math.IsNaN(fval(v[0], args[0].sort)))
	case OFIsInf:
		return b2u(math.IsInf(fval(v[0], args[0].sort), 0))
	case OBitsToF, OFBits:
		return v[0]
	case OSToF:
		i := sext(v[0], w)
		if s.W == 32 {
			return uint64(math.Float32bits(float32(i)))
		}
		return math.Float64bits(float64(i))
	case OUToF:
		if s.W == 32 {
			return uint64(math.Float32bits(float32(v[0])))
		}
		return math.Float64bits(float64(v[0]))
	case OFToS:
		f := fval(v[0], args[0].sort)
		return uint64(int64(f)) & m
	case OFToU:
		f := fval(v[0], args[0].sort)
		return uint64(f) & m
	case OFToF:
		return fbits(fval(v[0], args[0].sort), s)
	case OFRound:
		f := fval(v[0], s)
		switch a {
		case 0:
			f = math.RoundToEven(f)
		case 1:
			f = math.Trunc(f)
		case 2:
			f = math.Floor(f)
		case 3:
			f = math.Ceil(f)
		}
		return fbits(f, s)
	case OUF:
		return ufNative[name](v)
	}
	panic(fmt.Sprint("evalOp ", op))
}

type Model map[string]uint64

type evaluator struct {
	m    Model
	memo map[int]uint64
	// wide holds >64 bit values as hi parts
	hi map[int]uint64
}

func newEval(m Model) *evaluator { return &evaluator{m: m, memo: map[int]uint64{}} }

func (e *evaluator) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return e.m[t.name]
	}
	if v, ok := e.memo[t.id]; ok {
		return v
	}
	if t.sort.K == 'v' && t.sort.W > 64 {
		lo, hi := e.wide(t)
		_ = hi
		e.memo[t.id] = lo
		return lo
	}
	if len(t.args) > 0 && t.args[0].sort.K == 'v' && t.args[0].sort.W > 64 {
		// extract from a wide value
		lo, hi := e.wide(t.args[0])
		var r uint64
		switch t.op {
		case OExtract:
			if t.b >= 64 {
				r = hi >> (t.b - 64)
			} else {
				r = lo >> t.b
				if t.b > 0 {
					r |= hi << (64 - t.b)
				}
			}
			r &= mask(t.sort.W)
		case OUlt, OUle, OEq:
			lo2, hi2 := e.wide(t.args[1])
			switch t.op {
			case OEq:
				r = b2u(lo == lo2 && hi == hi2)
			case OUlt:
				r = b2u(hi < hi2 || hi == hi2 && lo < lo2)
			default:
				r = b2u(hi < hi2 || hi == hi2 && lo <= lo2)
			}
		default:
			panic("wide eval op")
		}
		e.memo[t.id] = r
		return r
	}
	vals := make([]uint64, len(t.args))
	for i, a := range t.args {
		vals[i] = e.eval(a)
	}
	if t.op == OUF && ufNative[t.name] == nil {
		panic("no native uf " + t.name)
	}
	r := evalOp(t.op, t.sort, t.a, t.b, t.name, t.args, vals)
	e.memo[t.id] = r
	return r
}

func (e *evaluator) wide(t *Term) (lo, hi uint64) {
	if t.sort.W <= 64 {
		return e.eval(t), 0
	}
	switch t.op {
	case OZext:
		return e.eval(t.args[0]), 0
	case OMul:
		l0, h0 := e.wide(t.args[0])
		l1, h1 := e.wide(t.args[1])
		hi, lo = bits.Mul64(l0, l1)
		hi += h0*l1 + h1*l0
		return
	case OConcat:
		return e.eval(t.args[1]), e.eval(t.args[0])
	case OAdd:
		l0, h0 := e.wide(t.args[0])
		l1, h1 := e.wide(t.args[1])
		var c uint64
		lo, c = bits.Add64(l0, l1, 0)
		hi, _ = bits.Add64(h0, h1, c)
		return
	case OUDiv, OURem:
		l0, h0 := e.wide(t.args[0])
		l1, h1 := e.wide(t.args[1])
		if h1 == 0 && l1 != 0 {
			qh := h0 / l1
			ql, r := bits.Div64(h0%l1, l0, l1)
			if t.op == OUDiv {
				return ql, qh
			}
			return r, 0
		}
	}
	panic("wide eval")
}

// variable sets
func (tt *TermTab) varsOf(t *Term) []int32 {
	if t.vok {
		return t.vars
	}
	t.vok = true
	if t.op == OVar {
		t.vars = []int32{int32(t.id)}
		return t.vars
	}
	if len(t.args) == 1 {
		t.vars = tt.varsOf(t.args[0])
		return t.vars
	}
	set := map[int32]bool{}
	for _, a := range t.args {
		for _, v := range tt.varsOf(a) {
			set[v] = true
		}
	}
	if len(set) == 0 {
		return nil
	}
	out := make([]int32, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	t.vars = out
	return out
}

// SMT-LIB text of one node; children referenced by ref()
func (t *Term) smtNode(ref func(*Term) string) string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case 'b':
			if t.val == 1 {
				return "true"
			}
			return "false"
		case 'v':
			if t.sort.W%4 == 0 {
				return fmt.Sprintf("#x%0*x", t.sort.W/4, t.val)
			}
			return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.W)
		}
		f := fval(t.val, t.sort)
		if math.IsNaN(f) {
			if t.sort.W == 32 {
				return "(_ NaN 8 24)"
			}
			return "(_ NaN 11 53)"
		}
		if t.sort.W == 32 {
			return fmt.Sprintf("((_ to_fp 8 24) #x%08x)", t.val)
		}
		return fmt.Sprintf("((_ to_fp 11 53) #x%016x)", t.val)
	case OVar:
		return t.name
	}
	var sb strings.Builder
	sb.WriteByte('(')
	eb, sbb := 11, 53
	if t.sort.W == 32 {
		eb, sbb = 8, 24
	}
	switch t.op {
	case OExtract:
		fmt.Fprintf(&sb, "(_ extract %d %d)", t.a, t.b)
	case OZext:
		fmt.Fprintf(&sb, "(_ zero_extend %d)", t.sort.W-t.args[0].sort.W)
	case OSext:
		fmt.Fprintf(&sb, "(_ sign_extend %d)", t.sort.W-t.args[0].sort.W)
	case OBitsToF:
		fmt.Fprintf(&sb, "(_ to_fp %d %d)", eb, sbb)
	case OSToF, OFToF:
		fmt.Fprintf(&sb, "(_ to_fp %d %d) RNE", eb, sbb)
	case OUToF:
		fmt.Fprintf(&sb, "(_ to_fp_unsigned %d %d) RNE", eb, sbb)
	case OFToS:
		fmt.Fprintf(&sb, "(_ fp.to_sbv %d) RTZ", t.sort.W)
	case OFToU:
		fmt.Fprintf(&sb, "(_ fp.to_ubv %d) RTZ", t.sort.W)
	case OFRound:
		fmt.Fprintf(&sb, "fp.roundToIntegral %s", []string{"RNE", "RTZ", "RTN", "RTP"}[t.a])
	case OUF:
		sb.WriteString(t.name)
	default:
		n, ok := opNames[t.op]
		if !ok {
			panic(fmt.Sprint("smt op ", t.op))
		}
		sb.WriteString(n)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(ref(a))
	}
	sb.WriteByte(')')
	return sb.String()
}
