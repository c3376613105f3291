package main

// Models of the environment: harness API, reflection, runtime services,
// assembly routines, and the ANTLR-generated parser.

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(it *Interp, caller *frame, fn *ssa.Function, args []Val) (Val, bool)

var intrinsics map[string]intrinsic

func intrinsicFor(fn *ssa.Function) intrinsic {
	if f, ok := intrinsics[fn.String()]; ok {
		return f
	}
	if o := fn.Origin(); o != nil {
		if f, ok := intrinsics[o.String()]; ok {
			return f
		}
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if fn.Origin() != nil && fn.Origin().Pkg != nil {
		pkg = fn.Origin().Pkg.Pkg.Path()
	}
	switch pkg {
	case "sync/atomic", "internal/runtime/atomic":
		return atomicIntrinsic(fn)
	case "sync", "internal/sync":
		return syncIntrinsic(fn)
	case pkgOC + "/parser":
		if r := fn.Signature.Recv(); r != nil && strings.HasSuffix(r.Type().String(), ".CypherParser") && strings.HasPrefix(fn.Name(), "OC_") {
			return parseRule
		}
	case "fmt":
		switch fn.Name() {
		case "Sprintf", "Sprint", "Sprintln", "Errorf", "Print", "Println", "Printf", "Fprint", "Fprintf", "Fprintln":
			return fmtIntrinsic
		}
	}
	return nil
}

var ki64 = kindT{'i', 64, true}
var ku8 = kindT{'i', 8, false}
var kf64 = kindT{'f', 64, true}

func (it *Interp) newVar(name string, s Sort) *Term {
	ps := it.path
	if ps == nil || ps.h == nil || ps.h.fn == nil {
		it.unsupported("nondeterministic value outside a path")
	}
	ps.nvar++
	clean := strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, name)
	return it.tt.Var(fmt.Sprintf("v%d_%c%d_%s", ps.nvar, s.K, s.W, clean), s)
}

func (it *Interp) rng(v *Term, lo, hi int64) {
	w := int(v.sort.W)
	it.bound(v, lo, hi)
	it.assume(it.simp(it.tt.And(it.tt.Mk(OSle, sBool, it.tt.BV(uint64(lo), w), v), it.tt.Mk(OSle, sBool, v, it.tt.BV(uint64(hi), w)))))
}

func expandAlphabet(a string) [][2]byte {
	var out [][2]byte
	for i := 0; i < len(a); i++ {
		if i+2 < len(a) && a[i+1] == '-' {
			out = append(out, [2]byte{a[i], a[i+2]})
			i += 2
			continue
		}
		out = append(out, [2]byte{a[i], a[i]})
	}
	return out
}

func goStr(v Val) string {
	s, ok := v.(string)
	if !ok {
		return "?"
	}
	return s
}

func variadicBools(it *Interp, v Val) []*Term {
	var out []*Term
	for _, x := range v.(Slice) {
		out = append(out, it.boolTerm(x))
	}
	return out
}

func init() {
	intrinsics = map[string]intrinsic{}
	initCivil()
	reg := func(name string, f func(it *Interp, a []Val) Val) {
		intrinsics[name] = func(it *Interp, caller *frame, fn *ssa.Function, args []Val) (Val, bool) { return f(it, args), true }
	}
	regMaybe := func(name string, f intrinsic) { intrinsics[name] = f }
	vf := func(name string, f func(it *Interp, a []Val) Val) { reg(pkgVF+"."+name, f) }

	// ----- harness API
	vf("Reg", func(it *Interp, a []Val) Val { return true })
	vf("Int", func(it *Interp, a []Val) Val {
		n := goStr(a[0])
		v := it.newVar(n, bv(64))
		it.path.nd = append(it.path.nd, nondet{'i', n, v})
		return v
	})
	vf("IntRange", func(it *Interp, a []Val) Val {
		n := goStr(a[0])
		v := it.newVar(n, bv(64))
		it.path.nd = append(it.path.nd, nondet{'i', n, v})
		it.rng(v, a[1].(int64), a[2].(int64))
		return v
	})
	vf("Choice", func(it *Interp, a []Val) Val {
		n := goStr(a[0])
		v := it.newVar(n, bv(64))
		it.path.nd = append(it.path.nd, nondet{'i', n, v})
		it.rng(v, 0, it.concInt(a[1], ki64)-1)
		return it.concretize(v, ki64)
	})
	vf("Bool", func(it *Interp, a []Val) Val {
		n := goStr(a[0])
		v := it.newVar(n, sBool)
		it.path.nd = append(it.path.nd, nondet{'b', n, v})
		return v
	})
	vf("Float", func(it *Interp, a []Val) Val {
		n := goStr(a[0])
		v := it.newVar(n, bv(64))
		it.path.nd = append(it.path.nd, nondet{'f', n, v})
		return it.tt.Mk(OBitsToF, sF64, v)
	})
	vf("Str", func(it *Interp, a []Val) Val {
		n := goStr(a[0])
		lo, hi := it.concInt(a[1], ki64), it.concInt(a[2], ki64)
		ln := lo
		if hi > lo {
			lv := it.newVar(n+"_len", bv(64))
			it.rng(lv, lo, hi)
			ln = it.concretize(lv, ki64)
		}
		bs := make([]Val, ln)
		al := expandAlphabet(goStr(a[3]))
		// register first so that traces of paths ending in assume are complete
		for i := range bs {
			bs[i] = it.newVar(fmt.Sprintf("%s_%d", n, i), bv(8))
		}
		s := mkStr(bs)
		it.path.nd = append(it.path.nd, nondet{'s', n, s})
		if len(al) > 0 {
			for _, b := range bs {
				t := b.(*Term)
				c := it.tt.Bool(false)
				for _, r := range al {
					if r[0] == r[1] {
						c = it.tt.Or(c, it.tt.Eq(t, it.tt.BV(uint64(r[0]), 8)))
					} else {
						c = it.tt.Or(c, it.tt.And(it.tt.Mk(OUle, sBool, it.tt.BV(uint64(r[0]), 8), t), it.tt.Mk(OUle, sBool, t, it.tt.BV(uint64(r[1]), 8))))
					}
				}
				it.assume(it.simp(c))
			}
		}
		return s
	})
	vf("Assume", func(it *Interp, a []Val) Val { it.assume(a[0]); return nil })
	vf("Assert", func(it *Interp, a []Val) Val { it.assertHolds(a[0], goStr(a[1])); return nil })
	vf("Reached", func(it *Interp, a []Val) Val { it.path.marks[goStr(a[0])] = true; return nil })
	vf("MapOrders", func(it *Interp, a []Val) Val {
		it.path.mapMode = 0
		if a[0] == true {
			it.path.mapMode = 1
			if it.eng.thorough {
				it.path.mapMode = 2
			}
		}
		return nil
	})
	vf("Observe", func(it *Interp, a []Val) Val {
		it.path.obs = append(it.path.obs, obs{goStr(a[0]), a[1]})
		return nil
	})
	vf("Pick", func(it *Interp, a []Val) Val {
		v := a[0]
		if it.eng.thorough {
			v = a[1]
		}
		it.path.nd = append(it.path.nd, nondet{'i', "pick", v})
		return v
	})
	vf("And", func(it *Interp, a []Val) Val {
		r := it.tt.Bool(true)
		for _, x := range variadicBools(it, a[0]) {
			r = it.tt.And(r, x)
		}
		return it.simp(r)
	})
	vf("Or", func(it *Interp, a []Val) Val {
		r := it.tt.Bool(false)
		for _, x := range variadicBools(it, a[0]) {
			r = it.tt.Or(r, x)
		}
		return it.simp(r)
	})
	vf("Implies", func(it *Interp, a []Val) Val {
		return it.simp(it.tt.Or(it.tt.Not(it.boolTerm(a[0])), it.boolTerm(a[1])))
	})
	vf("Iff", func(it *Interp, a []Val) Val { return it.simp(it.tt.Eq(it.boolTerm(a[0]), it.boolTerm(a[1]))) })
	vf("IteInt", func(it *Interp, a []Val) Val {
		return it.simpK(it.tt.Ite(it.boolTerm(a[0]), it.term(a[1], ki64), it.term(a[2], ki64)), ki64)
	})
	vf("IteFloat", func(it *Interp, a []Val) Val {
		return it.simpK(it.tt.Ite(it.boolTerm(a[0]), it.term(a[1], kf64), it.term(a[2], kf64)), kf64)
	})
	vf("SameFloat", func(it *Interp, a []Val) Val {
		// SMT-LIB = on floats: one NaN, signed zeros distinct
		return it.simp(it.tt.Eq(it.term(a[0], kf64), it.term(a[1], kf64)))
	})

	// ----- math
	f1 := func(name string, sym func(it *Interp, x *Term) Val, conc func(float64) float64) {
		reg("math."+name, func(it *Interp, a []Val) Val {
			if f, ok := a[0].(float64); ok {
				return conc(f)
			}
			return sym(it, a[0].(*Term))
		})
	}
	rnd := func(mode uint16) func(it *Interp, x *Term) Val {
		return func(it *Interp, x *Term) Val { return it.simpK(it.tt.MkAB(OFRound, sF64, mode, 0, "", x), kf64) }
	}
	for _, p := range []string{"", "arch"} {
		_ = p
	}
	f1("Floor", rnd(2), math.Floor)
	f1("Ceil", rnd(3), math.Ceil)
	f1("Trunc", rnd(1), math.Trunc)
	f1("RoundToEven", rnd(0), math.RoundToEven)
	f1("Round", func(it *Interp, x *Term) Val {
		// half away from zero: trunc(x) adjusted by comparing the exact remainder
		tt := it.tt
		t := tt.MkAB(OFRound, sF64, 1, 0, "", x)
		d := tt.Mk(OFAbs, sF64, tt.Mk(OFSub, sF64, x, t))
		one := tt.Ite(tt.Mk(OFLt, sBool, x, tt.F64(0)), tt.F64(-1), tt.F64(1))
		up := tt.Mk(OFLe, sBool, tt.F64(0.5), d)
		return it.simpK(tt.Ite(up, tt.Mk(OFAdd, sF64, t, one), t), kf64)
	}, math.Round)
	f1("Abs", func(it *Interp, x *Term) Val { return it.simpK(it.tt.Mk(OFAbs, sF64, x), kf64) }, math.Abs)
	f1("Sqrt", func(it *Interp, x *Term) Val { return it.simpK(it.tt.Mk(OFSqrt, sF64, x), kf64) }, math.Sqrt)
	intrinsics["math.sqrt"] = intrinsics["math.Sqrt"]
	for n, c := range map[string]func(float64) float64{"Exp": math.Exp, "Log": math.Log, "Sin": math.Sin, "Cos": math.Cos, "Tan": math.Tan, "Log10": math.Log10, "Exp2": math.Exp2, "Log2": math.Log2, "Cbrt": math.Cbrt} {
		uf := "uf_" + strings.ToLower(n)
		f1(n, func(it *Interp, x *Term) Val { return it.simpK(it.tt.MkAB(OUF, sF64, 0, 0, uf, x), kf64) }, c)
	}
	reg("math.Pow", func(it *Interp, a []Val) Val { return it.uf2("uf_pow", a) })
	reg("math.Mod", func(it *Interp, a []Val) Val { return it.uf2("uf_fmod", a) })
	reg("math.Float64bits", func(it *Interp, a []Val) Val {
		if f, ok := a[0].(float64); ok {
			return int64(math.Float64bits(f))
		}
		return it.tt.Mk(OFBits, bv(64), a[0].(*Term))
	})
	reg("math.Float64frombits", func(it *Interp, a []Val) Val {
		if f, ok := a[0].(int64); ok {
			return math.Float64frombits(uint64(f))
		}
		return it.tt.Mk(OBitsToF, sF64, a[0].(*Term))
	})
	reg("math.Float32bits", func(it *Interp, a []Val) Val {
		if f, ok := a[0].(float64); ok {
			return int64(math.Float32bits(float32(f)))
		}
		return it.tt.Mk(OFBits, bv(32), a[0].(*Term))
	})
	reg("math.Float32frombits", func(it *Interp, a []Val) Val {
		if f, ok := a[0].(int64); ok {
			return float64(math.Float32frombits(uint32(f)))
		}
		return it.tt.Mk(OBitsToF, sF32, a[0].(*Term))
	})
	for _, n := range []string{"Float64bits", "Float64frombits", "Float32bits", "Float32frombits"} {
		intrinsics["internal/strconv."+strings.ToLower(n)] = intrinsics["math."+n]
	}
	reg("math/bits.Mul64", func(it *Interp, a []Val) Val {
		x, xc := a[0].(int64)
		y, yc := a[1].(int64)
		if xc && yc {
			hi, lo := bits.Mul64(uint64(x), uint64(y))
			return Tuple{int64(hi), int64(lo)}
		}
		ku := kindT{'i', 64, false}
		p := it.tt.Mk(OMul, bv(128), it.tt.Mk(OZext, bv(128), it.term(a[0], ku)), it.tt.Mk(OZext, bv(128), it.term(a[1], ku)))
		return Tuple{it.tt.MkAB(OExtract, bv(64), 127, 64, "", p), it.tt.MkAB(OExtract, bv(64), 63, 0, "", p)}
	})
	reg("math.archFloor", func(it *Interp, a []Val) Val { panic("arch") })
	for _, n := range []string{"LeadingZeros64", "TrailingZeros64", "Len64", "OnesCount64", "LeadingZeros32", "TrailingZeros32", "Len32", "Len", "TrailingZeros", "LeadingZeros"} {
		n := n
		regMaybe("math/bits."+n, func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
			x, ok := a[0].(int64)
			if !ok {
				return nil, false
			}
			u := uint64(x)
			switch n {
			case "LeadingZeros64", "LeadingZeros":
				return int64(bits.LeadingZeros64(u)), true
			case "TrailingZeros64", "TrailingZeros":
				return int64(bits.TrailingZeros64(u)), true
			case "Len64", "Len":
				return int64(bits.Len64(u)), true
			case "OnesCount64":
				return int64(bits.OnesCount64(u)), true
			case "LeadingZeros32":
				return int64(bits.LeadingZeros32(uint32(u))), true
			case "TrailingZeros32":
				return int64(bits.TrailingZeros32(uint32(u))), true
			case "Len32":
				return int64(bits.Len32(uint32(u))), true
			}
			return nil, false
		})
	}

	// ----- strings and bytes (assembly routines)
	idxByte := func(it *Interp, a []Val) Val {
		n := seqLen(a[0])
		for i := 0; i < n; i++ {
			if it.truth(it.eqVal(seqAt(a[0], i), a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	lastIdxByte := func(it *Interp, a []Val) Val {
		for i := seqLen(a[0]) - 1; i >= 0; i-- {
			if it.truth(it.eqVal(seqAt(a[0], i), a[1])) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	idx := func(it *Interp, a []Val) Val {
		if x, ok := a[0].(string); ok {
			if y, ok := a[1].(string); ok {
				return int64(strings.Index(x, y))
			}
		}
		x, y := seqStr(a[0]), seqStr(a[1])
		n, m := strLen(x), strLen(y)
		for i := 0; i+m <= n; i++ {
			if it.truth(it.strEq(strSlice(x, i, i+m), y)) {
				return int64(i)
			}
		}
		return int64(-1)
	}
	count := func(it *Interp, a []Val) Val {
		n := seqLen(a[0])
		c := 0
		for i := 0; i < n; i++ {
			if it.truth(it.eqVal(seqAt(a[0], i), a[1])) {
				c++
			}
		}
		return int64(c)
	}
	cmp := func(it *Interp, a []Val) Val {
		x, y := seqStr(a[0]), seqStr(a[1])
		if it.truth(it.strEq(x, y)) {
			return int64(0)
		}
		if it.truth(it.strLess(x, y, false)) {
			return int64(-1)
		}
		return int64(1)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, idxByte)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByte", "internal/bytealg.LastIndexByteString"} {
		reg(n, lastIdxByte)
	}
	for _, n := range []string{"internal/bytealg.Index", "internal/bytealg.IndexString", "strings.Index", "internal/stringslite.Index", "bytes.Index"} {
		reg(n, idx)
	}
	for _, n := range []string{"internal/bytealg.Count", "internal/bytealg.CountString"} {
		reg(n, count)
	}
	for _, n := range []string{"internal/bytealg.Compare", "internal/bytealg.CompareString", "strings.Compare"} {
		reg(n, cmp)
	}
	for _, n := range []string{"internal/bytealg.Equal", "bytes.Equal"} {
		reg(n, func(it *Interp, a []Val) Val { return it.strEq(seqStr(a[0]), seqStr(a[1])) })
	}
	reg("internal/bytealg.MakeNoZero", func(it *Interp, a []Val) Val {
		n := int(it.concInt(a[0], ki64))
		s := make(Slice, n)
		for i := range s {
			s[i] = int64(0)
		}
		return s
	})
	reg("(*strings.Builder).copyCheck", func(it *Interp, a []Val) Val {
		if p, ok := a[0].(*Val); ok && p == nil {
			it.nilDeref()
		}
		return nil
	})
	reg("(*strings.Builder).String", func(it *Interp, a []Val) Val {
		p := a[0].(*Val)
		if p == nil {
			it.nilDeref()
		}
		for _, f := range (*p).(Struct) {
			if s, ok := f.(Slice); ok {
				return mkStr(append([]Val(nil), s...))
			}
		}
		return ""
	})
	reg("strings.Clone", func(it *Interp, a []Val) Val { return a[0] })
	reg("internal/stringslite.Clone", func(it *Interp, a []Val) Val { return a[0] })
	for _, n := range []string{"ToUpper", "ToLower"} {
		up := n == "ToUpper"
		regMaybe("strings."+n, func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
			s, ok := a[0].(string)
			if !ok {
				return nil, false
			}
			if up {
				return strings.ToUpper(s), true
			}
			return strings.ToLower(s), true
		})
	}

	// ----- runtime services
	for _, n := range []string{"runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer", "time.initLocal", "internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Enable", "internal/race.Disable", "internal/race.Read", "internal/race.Write"} {
		reg(n, func(it *Interp, a []Val) Val { return nil })
	}
	reg("internal/abi.NoEscape", func(it *Interp, a []Val) Val { return a[0] })
	reg("internal/abi.Escape", func(it *Interp, a []Val) Val { return a[0] })
	reg("runtime.fastrand64", func(it *Interp, a []Val) Val { return int64(4) })
	reg("time.now", func(it *Interp, a []Val) Val { return Tuple{int64(1700000000), int64(0), int64(1)} })
	reg("time.runtimeNow", func(it *Interp, a []Val) Val { return Tuple{int64(1700000000), int64(0), int64(1)} })
	reg("time.runtimeNano", func(it *Interp, a []Val) Val { return int64(1) })
	reg("time.runtimeIsBubbled", func(it *Interp, a []Val) Val { return false })
	reg("os.Getenv", func(it *Interp, a []Val) Val { return "" })
	reg("syscall.Getenv", func(it *Interp, a []Val) Val { return Tuple{"", false} })

	// ----- reflection
	typeOf := func(it *Interp, a []Val) Val {
		v := a[0].(Iface)
		if v.t == nil {
			return Iface{}
		}
		if rt, ok := v.v.(*RType); ok {
			_ = rt
		}
		return it.rtype(v.t)
	}
	reg("reflect.TypeOf", typeOf)
	reg("internal/reflectlite.TypeOf", typeOf)
	regMaybe("reflect.TypeFor", func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
		ta := fn.TypeArgs()
		if len(ta) != 1 {
			return nil, false
		}
		return it.rtype(canon(ta[0])), true
	})
	reg("reflect.DeepEqual", func(it *Interp, a []Val) Val { return it.deepEqual(a[0], a[1], 0) })
	regMaybe("errors.Is", func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
		return it.errorsIs(caller, a[0].(Iface), a[1].(Iface), 0), true
	})
	regMaybe("errors.As", func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
		return it.errorsAs(caller, a[0].(Iface), a[1].(Iface)), true
	})
	sortSlice := func(stable bool) intrinsic {
		return func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
			x := a[0].(Iface)
			s, ok := x.v.(Slice)
			if !ok {
				it.unsupported("sort.Slice of %T", x.v)
			}
			less := a[1].(*Closure)
			for i := 1; i < len(s); i++ {
				for j := i; j > 0; j-- {
					if !it.truth(it.callClosure(caller, less, []Val{int64(j), int64(j - 1)})) {
						break
					}
					u, v := copyVal(s[j-1]), copyVal(s[j])
					storeTo(&s[j-1], v)
					storeTo(&s[j], u)
				}
			}
			return nil, true
		}
	}
	regMaybe("sort.Slice", sortSlice(false))
	regMaybe("sort.SliceStable", sortSlice(true))

	// ----- strconv with concrete arguments
	regMaybe("strconv.ParseFloat", func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
		s, ok := a[0].(string)
		if !ok {
			return nil, false
		}
		if f, err := strconv.ParseFloat(s, 64); err == nil && a[1] == int64(64) {
			return Tuple{f, Iface{}}, true
		}
		return nil, false
	})
	regMaybe("strconv.FormatFloat", func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
		f, ok := a[0].(float64)
		c, ok2 := a[1].(int64)
		p, ok3 := a[2].(int64)
		b, ok4 := a[3].(int64)
		if ok && ok2 && ok3 && ok4 {
			return strconv.FormatFloat(f, byte(c), int(p), int(b)), true
		}
		it.path.opaque = true
		return "<float>", true
	})
	itoa := func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
		if x, ok := a[0].(int64); ok {
			if len(a) == 1 || a[1] == int64(10) {
				return strconv.FormatInt(x, 10), true
			}
		}
		if x, ok := a[0].(*Term); ok && (len(a) == 1 || a[1] == int64(10)) {
			if v := it.formatDec(x, true); v != nil {
				return v, true
			}
		}
		return nil, false
	}
	regMaybe("strconv.Itoa", itoa)
	regMaybe("strconv.FormatInt", itoa)

	// ----- ANTLR runtime and generated lexer/parser
	const antlr = "github.com/antlr/antlr4/runtime/Go/antlr"
	regMaybe(antlr+".NewInputStream", func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
		p := it.alloc(fn.Signature.Results().At(0).Type())
		it.path.streams[p] = a[0]
		return p, true
	})
	regMaybe(antlr+".NewCommonTokenStream", func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
		p := it.alloc(fn.Signature.Results().At(0).Type())
		it.path.streams[p] = a[0].(Iface).v
		return p, true
	})
	mk := func(base string) intrinsic {
		return func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
			rt := fn.Signature.Results().At(0).Type()
			p := it.alloc(rt)
			bp := it.allocField(p, rt, base)
			bt := fieldType(rt, base)
			it.allocField(bp, bt, "BaseRecognizer")
			it.path.streams[p] = a[0].(Iface).v
			it.path.streams[bp] = a[0].(Iface).v
			return p, true
		}
	}
	regMaybe(pkgOC+"/parser.NewCypherLexer", mk("BaseLexer"))
	regMaybe(pkgOC+"/parser.NewCypherParser", mk("BaseParser"))
}

func (it *Interp) uf2(name string, a []Val) Val {
	x, xc := a[0].(float64)
	y, yc := a[1].(float64)
	if xc && yc {
		return math.Float64frombits(ufNative[name]([]uint64{math.Float64bits(x), math.Float64bits(y)}))
	}
	return it.simpK(it.tt.MkAB(OUF, sF64, 0, 0, name, it.term(a[0], kf64), it.term(a[1], kf64)), kf64)
}

func seqLen(v Val) int {
	if s, ok := v.(Slice); ok {
		return len(s)
	}
	return strLen(v)
}
func seqAt(v Val, i int) Val {
	if s, ok := v.(Slice); ok {
		return s[i]
	}
	return strAt(v, i)
}
func seqStr(v Val) Val {
	if s, ok := v.(Slice); ok {
		return mkStr(append([]Val(nil), s...))
	}
	return v
}

// ---------- sync

func atomicIntrinsic(fn *ssa.Function) intrinsic {
	n := fn.Name()
	isMeth := fn.Signature.Recv() != nil
	if isMeth || fn.Blocks != nil {
		if isMeth {
			return nil // methods delegate to the functions below
		}
	}
	var ek kindT
	if fn.Signature.Params().Len() > 0 {
		if p, ok := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer); ok {
			ek = kindOf(p.Elem())
		}
	}
	switch {
	case strings.HasPrefix(n, "Load"):
		return func(it *Interp, c *frame, fn *ssa.Function, a []Val) (Val, bool) {
			p, ok := a[0].(*Val)
			if !ok {
				return nil, false
			}
			if p == nil {
				it.nilDeref()
			}
			return copyVal(*p), true
		}
	case strings.HasPrefix(n, "Store"):
		return func(it *Interp, c *frame, fn *ssa.Function, a []Val) (Val, bool) {
			*(a[0].(*Val)) = a[1]
			return nil, true
		}
	case strings.HasPrefix(n, "Add"), strings.HasPrefix(n, "Xadd"):
		return func(it *Interp, c *frame, fn *ssa.Function, a []Val) (Val, bool) {
			p := a[0].(*Val)
			*p = it.binop(token.ADD, ek, ek, *p, a[1])
			return *p, true
		}
	case strings.HasPrefix(n, "CompareAndSwap"), strings.HasPrefix(n, "Cas"):
		return func(it *Interp, c *frame, fn *ssa.Function, a []Val) (Val, bool) {
			p := a[0].(*Val)
			if it.truth(it.eqVal(*p, a[1])) {
				*p = a[2]
				return true, true
			}
			return false, true
		}
	case strings.HasPrefix(n, "Swap"):
		return func(it *Interp, c *frame, fn *ssa.Function, a []Val) (Val, bool) {
			p := a[0].(*Val)
			o := *p
			*p = a[1]
			return o, true
		}
	}
	return nil
}

func syncIntrinsic(fn *ssa.Function) intrinsic {
	r := fn.Signature.Recv()
	if r == nil {
		return nil
	}
	tn := r.Type().String()
	nop := func(it *Interp, c *frame, fn *ssa.Function, a []Val) (Val, bool) { return nil, true }
	switch {
	case strings.HasSuffix(tn, ".Mutex"), strings.HasSuffix(tn, ".RWMutex"):
		if strings.HasPrefix(fn.Name(), "Try") {
			return func(it *Interp, c *frame, fn *ssa.Function, a []Val) (Val, bool) { return true, true }
		}
		return nop
	case strings.HasSuffix(tn, ".Once"):
		if fn.Name() == "Do" || fn.Name() == "doSlow" {
			return func(it *Interp, c *frame, fn *ssa.Function, a []Val) (Val, bool) {
				p := a[0].(*Val)
				st := (*p).(Struct)
				// any non-zero marker in the first leaf
				leaf := &st[0]
				for {
					if s, ok := (*leaf).(Struct); ok && len(s) > 0 {
						leaf = &s[len(s)-1]
						continue
					}
					break
				}
				if *leaf == Val(int64(1)) || *leaf == Val(true) {
					return nil, true
				}
				switch (*leaf).(type) {
				case bool:
					*leaf = true
				default:
					*leaf = int64(1)
				}
				it.callClosure(c, a[1].(*Closure), nil)
				return nil, true
			}
		}
	case strings.HasSuffix(tn, ".Pool"):
		if fn.Name() == "Put" {
			return nop
		}
		if fn.Name() == "Get" {
			return func(it *Interp, c *frame, fn *ssa.Function, a []Val) (Val, bool) {
				st := (*(a[0].(*Val))).(Struct)
				for _, f := range st {
					if cl, ok := f.(*Closure); ok && cl != nil {
						return it.callClosure(c, cl, nil), true
					}
				}
				return Iface{}, true
			}
		}
	}
	return nil
}

// ---------- fmt

func (it *Interp) concreteIface(v Val, d int) (any, bool) {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return nil, true
		}
		if rt, ok := x.v.(*RType); ok {
			return rt.t.String(), true
		}
		k := kindOf(x.t)
		if it.hasMethod(x.t, "Error") || it.hasMethod(x.t, "String") {
			return nil, false
		}
		switch y := x.v.(type) {
		case bool:
			return y, true
		case string:
			return y, true
		case float64:
			if k.w == 32 {
				return float32(y), true
			}
			return y, true
		case int64:
			switch {
			case k.w == 64 && k.signed:
				return int(y), true
			case k.w == 32 && k.signed:
				return int32(y), true
			case k.w == 8 && !k.signed:
				return byte(y), true
			case k.signed:
				return y, true
			default:
				return uint64(y), true
			}
		}
	}
	return nil, false
}

func (it *Interp) hasMethod(t types.Type, name string) bool {
	return it.P.prog.MethodSets.MethodSet(t).Lookup(nil, name) != nil
}

// fmtArg renders one operand as text where that is possible without fmt.
func (it *Interp) fmtArg(caller *frame, v Val, d int) (Val, bool) {
	x, ok := v.(Iface)
	if !ok {
		return nil, false
	}
	if x.t == nil {
		return "<nil>", true
	}
	if _, rt := x.v.(*RType); !rt {
		for _, m := range []string{"Error", "String"} {
			if sel := it.P.prog.MethodSets.MethodSet(x.t).Lookup(nil, m); sel != nil {
				if sg, ok := sel.Obj().Type().(*types.Signature); ok && sg.Params().Len() == 0 && sg.Results().Len() == 1 {
					f := it.P.prog.MethodValue(sel)
					if p, isP := x.v.(*Val); isP && p == nil {
						return "<nil>", true
					}
					return it.call(caller, f, []Val{copyVal(x.v)}, nil), true
				}
			}
		}
	}
	if c, ok := it.concreteIface(v, 0); ok {
		return fmt.Sprint(c), true
	}
	switch y := x.v.(type) {
	case *SymStr:
		return y, true
	case *Term:
		k := kindOf(x.t)
		if k.c == 'i' {
			if k.w < 64 {
				return nil, false
			}
			return it.call(caller, it.P.pkgs["strconv"].Func("FormatInt"), []Val{y, int64(10)}, nil), true
		}
		if k.c == 'b' {
			if it.truth(y) {
				return "true", true
			}
			return "false", true
		}
	case Slice:
		if y == nil || d > 3 {
			return "[]", true
		}
		et := x.t.Underlying().(*types.Slice).Elem()
		var out Val = "["
		for i, e := range y {
			if i > 0 {
				out = strConcat(out, " ")
			}
			ie, isI := e.(Iface)
			if !isI {
				ie = Iface{canon(et), e}
			}
			s, ok := it.fmtArg(caller, ie, d+1)
			if !ok {
				return nil, false
			}
			out = strConcat(out, s)
		}
		return strConcat(out, "]"), true
	}
	return nil, false
}

const opaqueText = "<formatted text>"

func fmtIntrinsic(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
	n := fn.Name()
	switch n {
	case "Print", "Println", "Printf":
		return Tuple{int64(0), Iface{}}, true
	case "Fprint", "Fprintf", "Fprintln":
		w := a[0].(Iface)
		var s Val
		if n == "Fprintf" {
			s = it.format(caller, goStrSym(a[1]), a[2].(Slice))
		} else {
			s = it.sprint(caller, a[1].(Slice), n == "Fprintln")
		}
		if w.t == nil {
			it.nilDeref()
		}
		for _, m := range []string{"Write"} {
			if sel := it.P.prog.MethodSets.MethodSet(w.t).Lookup(nil, m); sel != nil {
				return it.call(caller, it.P.prog.MethodValue(sel), []Val{w.v, Slice(strBytes(s))}, nil), true
			}
		}
		return Tuple{int64(0), Iface{}}, true
	case "Sprint", "Sprintln":
		return it.sprint(caller, a[0].(Slice), n == "Sprintln"), true
	case "Sprintf":
		return it.format(caller, goStrSym(a[0]), a[1].(Slice)), true
	case "Errorf":
		f := goStrSym(a[0])
		args := a[1].(Slice)
		s := it.format(caller, f, it.errArgs(args))
		if i := wrapIndex(f); i >= 0 && i < len(args) {
			if e, ok := args[i].(Iface); ok && e.t != nil {
				p := new(Val)
				*p = Struct{s, e}
				return Iface{it.P.wrapErrT, p}, true
			}
		}
		p := new(Val)
		*p = Struct{s}
		return Iface{it.P.errStrT, p}, true
	}
	return nil, false
}

// errArgs replaces the operands of an error text that have symbolic parts and
// would have to be formatted: the texts of errors are not modelled beyond the
// names and texts in them.
func (it *Interp) errArgs(args Slice) Slice {
	out := make(Slice, len(args))
	for i, a := range args {
		out[i] = a
		x, ok := a.(Iface)
		if !ok || x.t == nil {
			continue
		}
		if _, sym := x.v.(*SymStr); sym || it.hasMethod(x.t, "Error") || !symbolicVal(x.v, 0) {
			continue
		}
		it.path.opaque = true
		out[i] = Iface{canon(types.Typ[types.String]), opaqueText}
	}
	return out
}

// symbolicVal: v has symbolic parts (to a small depth).
func symbolicVal(v Val, d int) bool {
	if d > 4 {
		return true
	}
	switch x := v.(type) {
	case *Term, *SymStr:
		return true
	case Struct:
		for _, f := range x {
			if symbolicVal(f, d+1) {
				return true
			}
		}
	case Slice:
		for _, f := range x {
			if symbolicVal(f, d+1) {
				return true
			}
		}
	case Iface:
		return x.t != nil && symbolicVal(x.v, d+1)
	case *Val:
		return x != nil
	case *Map:
		return x != nil
	}
	return false
}

func goStrSym(v Val) string {
	if s, ok := v.(string); ok {
		return s
	}
	return "%v"
}

func wrapIndex(f string) int {
	n := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			break
		}
		if f[i] == '%' {
			continue
		}
		if f[i] == 'w' {
			return n
		}
		n++
	}
	return -1
}

func (it *Interp) sprint(caller *frame, args Slice, ln bool) Val {
	var out Val = ""
	for i, x := range args {
		s, ok := it.fmtArg(caller, x, 0)
		if !ok {
			it.path.opaque = true
			return opaqueText
		}
		if i > 0 && (ln || !isStrIface(args[i-1]) && !isStrIface(x)) {
			out = strConcat(out, " ")
		}
		out = strConcat(out, s)
	}
	if ln {
		out = strConcat(out, "\n")
	}
	return out
}

func isStrIface(v Val) bool {
	x, ok := v.(Iface)
	return ok && x.t != nil && kindOf(x.t).c == 's'
}

// fmtPadded is the text %0Nd writes for a symbolic integer.
func (it *Interp) fmtPadded(caller *frame, arg Val, width string) (Val, bool) {
	w, err := strconv.Atoi(width)
	if err != nil {
		return nil, false
	}
	s, ok := it.fmtArg(caller, arg, 0)
	if !ok {
		return nil, false
	}
	b := strBytes(s)
	for _, x := range b {
		if c, ok := x.(int64); ok && c != '-' && (c < '0' || c > '9') {
			return nil, false
		}
	}
	sign := 0
	if len(b) > 0 && b[0] == int64('-') {
		sign = 1
	}
	out := append([]Val(nil), b[:sign]...)
	for i := len(b); i < w; i++ {
		out = append(out, int64('0'))
	}
	return mkStr(append(out, b[sign:]...)), true
}

func (it *Interp) format(caller *frame, f string, args Slice) Val {
	var out Val = ""
	n := 0
	lit := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		out = strConcat(out, f[lit:i])
		st := i
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i >= len(f) {
			lit = i
			break
		}
		lit = i + 1
		verb := f[i]
		if verb == '%' {
			out = strConcat(out, "%")
			continue
		}
		if n >= len(args) {
			out = strConcat(out, "%!"+string(verb)+"(MISSING)")
			continue
		}
		arg := args[n]
		n++
		plain := i == st+1
		if c, ok := it.concreteIface(arg, 0); ok && verb != 'T' && verb != 'w' {
			out = strConcat(out, fmt.Sprintf(f[st:i+1], c))
			continue
		}
		if verb == 'T' {
			ia, _ := arg.(Iface)
			if ia.t == nil {
				out = strConcat(out, "<nil>")
			} else {
				out = strConcat(out, types.TypeString(ia.t, func(p *types.Package) string { return p.Name() }))
			}
			continue
		}
		if plain && (verb == 'v' || verb == 's' || verb == 'w' || verb == 'd') {
			if s, ok := it.fmtArg(caller, arg, 0); ok {
				out = strConcat(out, s)
				continue
			}
		}
		if verb == 'd' && st+2 < i && f[st+1] == '0' {
			if s, ok := it.fmtPadded(caller, arg, f[st+2:i]); ok {
				out = strConcat(out, s)
				continue
			}
		}
		it.path.opaque = true
		out = strConcat(out, opaqueText)
	}
	if lit < len(f) {
		out = strConcat(out, f[lit:])
	}
	return out
}

// ---------- reflection

func (it *Interp) rtype(t types.Type) Val {
	rt := it.P.pkgs["reflect"]
	var ht types.Type
	if rt != nil && rt.Type("rtype") != nil {
		ht = ptrTo(rt.Type("rtype").Type())
	} else {
		ht = it.P.rtErrT
	}
	return Iface{ht, &RType{canon(t)}}
}

func (it *Interp) rtypeMethod(rt *RType, name string, args []Val) Val {
	switch name {
	case "Elem":
		switch u := rt.t.Underlying().(type) {
		case *types.Pointer:
			return it.rtype(u.Elem())
		case *types.Slice:
			return it.rtype(u.Elem())
		case *types.Array:
			return it.rtype(u.Elem())
		case *types.Map:
			return it.rtype(u.Elem())
		}
		panic(targetPanic{Iface{it.P.rtErrT, "reflect: Elem of invalid type"}})
	case "String":
		return types.TypeString(rt.t, func(p *types.Package) string { return p.Name() })
	case "Name":
		if n, ok := rt.t.(*types.Named); ok {
			return n.Obj().Name()
		}
		if b, ok := rt.t.(*types.Basic); ok {
			return b.Name()
		}
		return ""
	case "PkgPath":
		if n, ok := rt.t.(*types.Named); ok && n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path()
		}
		return ""
	case "Implements", "ConvertibleTo", "AssignableTo":
		o := args[0].(Iface)
		if o.t == nil {
			panic(targetPanic{Iface{it.P.rtErrT, "reflect: nil type passed to Type." + name}})
		}
		ot := o.v.(*RType).t
		if i, ok := ot.Underlying().(*types.Interface); ok {
			return it.implements(rt.t, i, ot)
		}
		switch name {
		case "ConvertibleTo":
			return types.ConvertibleTo(rt.t, ot)
		case "AssignableTo":
			return types.AssignableTo(rt.t, ot)
		}
		panic(targetPanic{Iface{it.P.rtErrT, "reflect: non-interface type passed to Type.Implements"}})
	case "Comparable":
		return types.Comparable(rt.t)
	case "Kind":
		switch u := rt.t.Underlying().(type) {
		case *types.Basic:
			if u.Kind() >= types.Bool && u.Kind() <= types.Complex128 {
				return int64(u.Kind())
			}
			if u.Kind() == types.String {
				return int64(24)
			}
			return int64(26)
		case *types.Array:
			return int64(17)
		case *types.Chan:
			return int64(18)
		case *types.Signature:
			return int64(19)
		case *types.Interface:
			return int64(20)
		case *types.Map:
			return int64(21)
		case *types.Pointer:
			return int64(22)
		case *types.Slice:
			return int64(23)
		case *types.Struct:
			return int64(25)
		}
	}
	it.unsupported("reflect.Type.%s", name)
	return nil
}

func (it *Interp) deepEqual(x, y Val, d int) Val {
	if d > 40 {
		it.unsupported("DeepEqual depth")
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			return false
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		if a.t != b.t {
			return false
		}
		return it.deepEqual(a.v, b.v, d+1)
	case Struct:
		b := y.(Struct)
		r := it.tt.Bool(true)
		for i := range a {
			r = it.tt.And(r, it.boolTerm(it.deepEqual(a[i], b[i], d+1)))
		}
		return it.simp(r)
	case Array:
		b := y.(Array)
		r := it.tt.Bool(true)
		for i := range a {
			r = it.tt.And(r, it.boolTerm(it.deepEqual(a[i], b[i], d+1)))
		}
		return it.simp(r)
	case Slice:
		b := y.(Slice)
		if (a == nil) != (b == nil) || len(a) != len(b) {
			return false
		}
		r := it.tt.Bool(true)
		for i := range a {
			r = it.tt.And(r, it.boolTerm(it.deepEqual(a[i], b[i], d+1)))
		}
		return it.simp(r)
	case *Map:
		b := y.(*Map)
		if (a == nil) != (b == nil) {
			return false
		}
		if a == nil || a == b {
			return true
		}
		if a.n != b.n {
			return false
		}
		r := it.tt.Bool(true)
		for _, e := range a.ents {
			if e.dead {
				continue
			}
			o := it.mapFind(b, e.k)
			if o == nil {
				return false
			}
			r = it.tt.And(r, it.boolTerm(it.deepEqual(e.v, o.v, d+1)))
		}
		return it.simp(r)
	case *Val:
		b, _ := y.(*Val)
		if a == b {
			return true
		}
		if a == nil || b == nil {
			return false
		}
		return it.deepEqual(*a, *b, d+1)
	case *Closure:
		b, _ := y.(*Closure)
		return a == nil && b == nil
	}
	return it.eqVal(x, y)
}

func (it *Interp) unwrap(caller *frame, e Iface) []Iface {
	sel := it.P.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Unwrap")
	if sel == nil {
		return nil
	}
	r := it.call(caller, it.P.prog.MethodValue(sel), []Val{copyVal(e.v)}, nil)
	switch x := r.(type) {
	case Iface:
		if x.t == nil {
			return nil
		}
		return []Iface{x}
	case Slice:
		var out []Iface
		for _, y := range x {
			if i, ok := y.(Iface); ok && i.t != nil {
				out = append(out, i)
			}
		}
		return out
	}
	return nil
}

func (it *Interp) errorsIs(caller *frame, e, target Iface, d int) Val {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if d > 50 {
		it.unsupported("errors.Is depth")
	}
	if types.Comparable(target.t) && it.truth(it.eqVal(e, target)) {
		return true
	}
	if sel := it.P.prog.MethodSets.MethodSet(e.t).Lookup(nil, "Is"); sel != nil {
		if it.truth(it.call(caller, it.P.prog.MethodValue(sel), []Val{copyVal(e.v), target}, nil)) {
			return true
		}
	}
	for _, u := range it.unwrap(caller, e) {
		if it.errorsIs(caller, u, target, d+1) == true {
			return true
		}
	}
	return false
}

func (it *Interp) errorsAs(caller *frame, e, target Iface) Val {
	if e.t == nil {
		return false
	}
	if target.t == nil {
		panic(targetPanic{Iface{it.P.rtErrT, "errors: target cannot be nil"}})
	}
	pt, ok := target.t.Underlying().(*types.Pointer)
	if !ok {
		panic(targetPanic{Iface{it.P.rtErrT, "errors: target must be a non-nil pointer"}})
	}
	want := canon(pt.Elem())
	cell := target.v.(*Val)
	var try func(e Iface, d int) bool
	try = func(e Iface, d int) bool {
		if i, ok := want.Underlying().(*types.Interface); ok {
			if it.implements(e.t, i, want) {
				*cell = e
				return true
			}
		} else if e.t == want {
			storeTo(cell, e.v)
			return true
		}
		for _, u := range it.unwrap(caller, e) {
			if d < 50 && try(u, d+1) {
				return true
			}
		}
		return false
	}
	return try(e, 0)
}

// ---------- parse tree import

func structOf(t types.Type) *types.Struct {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	s, _ := t.Underlying().(*types.Struct)
	return s
}

func fieldIdx(t types.Type, name string) int {
	s := structOf(t)
	if s == nil {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func fieldType(t types.Type, name string) types.Type {
	return structOf(t).Field(fieldIdx(t, name)).Type()
}

func (it *Interp) alloc(pt types.Type) *Val {
	p := new(Val)
	*p = zero(pt.Underlying().(*types.Pointer).Elem())
	return p
}

func (it *Interp) setField(p *Val, t types.Type, name string, v Val) {
	i := fieldIdx(t, name)
	if i < 0 {
		it.unsupported("no field %s in %v", name, t)
	}
	(*p).(Struct)[i] = v
}

func (it *Interp) allocField(p *Val, t types.Type, name string) *Val {
	i := fieldIdx(t, name)
	if i < 0 {
		it.unsupported("no field %s in %v", name, t)
	}
	q := it.alloc(structOf(t).Field(i).Type())
	(*p).(Struct)[i] = q
	return q
}

func (it *Interp) parserInput(p Val) Val {
	for i := 0; i < 5; i++ {
		q, ok := p.(*Val)
		if !ok {
			break
		}
		n, ok := it.path.streams[q]
		if !ok {
			break
		}
		p = n
	}
	switch p.(type) {
	case string, *SymStr:
		return p
	}
	it.unsupported("parser input not traceable")
	return nil
}

func parseRule(it *Interp, caller *frame, fn *ssa.Function, args []Val) (Val, bool) {
	pp := args[0].(*Val)
	if pp == nil {
		it.nilDeref()
	}
	input := it.parserInput(it.path.streams[pp])
	rep, isC := input.(string)
	var byteOf []int // byte offset of each rune of the representative
	var res *ParseResult
	index := func() {
		byteOf = byteOf[:0]
		for i := range rep {
			byteOf = append(byteOf, i)
		}
		byteOf = append(byteOf, len(rep))
	}
	if isC {
		index()
		res = it.eng.native.parse(fn.Name(), rep)
	} else {
		// The text is parsed through a representative: every symbolic byte is
		// restricted to one class of bytes that the lexer treats alike inside
		// quoted and number tokens; if a symbolic byte turns out to lie in any
		// other token it is enumerated value by value instead.
		n := strLen(input)
		b := make([]byte, n)
		sym := make([]*Term, n)
		open := make([]int, n) // where the quotes around a byte put in a coarse class begin, or -1
		var q quoting
		for i := range b {
			open[i] = -1
			switch c := strAt(input, i).(type) {
			case int64:
				b[i] = byte(c)
			case *Term:
				sym[i] = c
				tab := &lexPlain
				if q.quote != 0 {
					tab, open[i] = lexQuoted[q.quote], q.open
					if q.esc == 10 {
						tab = &lexEscape
					} else if q.esc > 0 {
						tab = lexHex[q.quote]
					}
				}
				b[i] = it.lexClass(c, tab)
			}
			q.next(i, b[i])
		}
		for {
			rep = string(b)
			index()
			res = it.eng.native.parse(fn.Name(), rep)
			again := false
			for i, c := range sym {
				if c == nil {
					continue
				}
				ok := false
				for _, t := range res.Toks {
					if t.Start >= 0 && t.Stop >= t.Start && t.Stop+1 < len(byteOf) && byteOf[t.Start] <= i && i < byteOf[t.Stop+1] {
						switch t.Name {
						case "StringLiteral", "EscapedSymbolicName":
							ok = open[i] < 0 || open[i] == byteOf[t.Start]
						case "HexInteger", "DecimalInteger", "OctalInteger", "RegularDecimalReal", "ExponentDecimalReal", "HexDigit", "ZeroDigit":
							ok = open[i] < 0
						}
					}
				}
				if !ok || len(res.LErr) > 0 || len(res.PErr) > 0 {
					b[i] = byte(it.concretize(c, kindT{'i', 8, false}))
					sym[i] = nil
					again = true
					break
				}
			}
			if !again {
				break
			}
		}
	}
	if res.Fail != "" {
		panic(targetPanic{Iface{it.P.rtErrT, "parser: " + res.Fail}})
	}
	// error listeners
	if len(res.LErr) > 0 {
		q, _ := it.path.streams[pp].(*Val)
		lx, _ := it.path.streams[q].(*Val)
		if lx == nil {
			it.unsupported("lexer not traceable")
		}
		lt := it.P.pkgs[pkgOC+"/parser"].Type("CypherLexer")
		it.notify(caller, lx, ptrTo(lt.Type()), "BaseLexer", res.LErr)
	}
	it.notify(caller, pp, fn.Signature.Recv().Type(), "BaseParser", res.PErr)
	ap := it.P.pkgs["github.com/antlr/antlr4/runtime/Go/antlr"]
	ctype := func(p *ssa.Package, n string) types.Type {
		m := p.Type(n)
		if m == nil {
			it.unsupported("no type %s", n)
		}
		return ptrTo(m.Type())
	}
	tokT := ctype(ap, "CommonToken")
	toks := make([]Val, len(res.Toks))
	for i, t := range res.Toks {
		p := it.alloc(tokT)
		bt := fieldType(tokT, "BaseToken")
		bp := it.allocField(p, tokT, "BaseToken")
		it.setField(bp, bt, "tokenType", int64(t.Type))
		it.setField(bp, bt, "channel", int64(t.Chan))
		it.setField(bp, bt, "start", int64(t.Start))
		it.setField(bp, bt, "stop", int64(t.Stop))
		it.setField(bp, bt, "tokenIndex", int64(t.Idx))
		it.setField(bp, bt, "line", int64(t.Line))
		it.setField(bp, bt, "column", int64(t.Col))
		var txt Val = unhex(t.Text)
		if !isC && t.Start >= 0 && symbolicIn(input, byteOf, t) && t.Stop >= t.Start && t.Stop+1 < len(byteOf) {
			txt = strSlice(input, byteOf[t.Start], byteOf[t.Stop+1])
		}
		it.setField(bp, bt, "text", txt)
		toks[i] = Iface{tokT, p}
	}
	termT, errT := ctype(ap, "TerminalNodeImpl"), ctype(ap, "ErrorNodeImpl")
	oc := it.P.pkgs[pkgOC+"/parser"]
	bprT := ctype(ap, "BaseParserRuleContext")
	brT := ctype(ap, "BaseRuleContext")
	var build func(n *PNode, parent Iface) Iface
	build = func(n *PNode, parent Iface) Iface {
		if n.T == "" {
			tp := it.alloc(termT)
			it.setField(tp, termT, "symbol", toks[n.S])
			it.setField(tp, termT, "parentCtx", parent)
			if n.Err {
				ep := it.alloc(errT)
				it.setField(ep, errT, "TerminalNodeImpl", tp)
				return Iface{errT, ep}
			}
			return Iface{termT, tp}
		}
		t := ctype(oc, n.T)
		p := it.alloc(t)
		bp := it.allocField(p, t, "BaseParserRuleContext")
		rp := it.allocField(bp, bprT, "BaseRuleContext")
		it.setField(rp, brT, "RuleIndex", int64(n.R))
		it.setField(rp, brT, "parentCtx", parent)
		if n.S >= 0 {
			it.setField(bp, bprT, "start", toks[n.S])
		}
		if n.E >= 0 {
			it.setField(bp, bprT, "stop", toks[n.E])
		}
		me := Iface{t, p}
		var ch Slice
		for _, c := range n.C {
			ch = append(ch, build(c, me))
		}
		it.setField(bp, bprT, "children", ch)
		return me
	}
	return build(res.Root, Iface{}), true
}

// lexClasses are sets of bytes that quoted and number tokens do not tell apart;
// every byte not listed is a class of its own, except that the remaining ASCII
// bytes form one class.
var lexClasses = [][]byte{
	[]byte("1234567"), []byte("89"),
	[]byte("ghijklmopqsvwyz"), []byte("GHIJKLMOPQSVWYZ"), []byte("acdACD"),
}

const lexSingles = "0befnrtuxBEFNRTUX'\"\\`.+-_$/*"

type lexTab struct {
	class [128]int
	rep   map[int]byte
}

var lexPlain lexTab

// inside quotes and not after a backslash only the quote and the backslash
// are told apart from the other bytes
var lexQuoted = map[byte]*lexTab{}

// right after a backslash, and where the digits of an escape may be
var lexEscape lexTab
var lexHex = map[byte]*lexTab{}

func (l *lexTab) set(rest byte, singles string) {
	l.rep = map[int]byte{}
	for i := 0; i < len(singles); i++ {
		l.class[singles[i]] = 1000 + int(singles[i])
	}
	for i := 127; i >= 0; i-- {
		l.rep[l.class[i]] = byte(i)
	}
	l.rep[l.class[rest]] = rest
}

func init() {
	for i := range lexPlain.class {
		lexPlain.class[i] = 500
	}
	for n, c := range lexClasses {
		for _, b := range c {
			lexPlain.class[b] = n
		}
	}
	lexPlain.set('!', lexSingles)
	for _, q := range "'\"`" {
		t, h := &lexTab{}, &lexTab{}
		t.set('!', string(q)+"\\")
		for i := range h.class {
			if isHex(byte(i)) {
				h.class[i] = 1
			}
		}
		h.set('!', string(q)+"\\")
		lexQuoted[byte(q)], lexHex[byte(q)] = t, h
	}
	lexEscape.set('!', "'\"\\bfnrtuBFNRTU")
}

// quoting follows the quotes of a text from left to right.
type quoting struct {
	quote byte // open quote, or 0
	open  int
	esc   int // bytes left that may belong to an escape sequence
}

func (q *quoting) next(i int, b byte) {
	switch {
	case q.quote == 0:
		if b == '\'' || b == '"' || b == '`' {
			q.quote, q.open, q.esc = b, i, 0
		}
	case q.esc == 10: // right after the backslash
		q.esc = 0
		if b == 'u' || b == 'U' {
			q.esc = 8
		}
	case q.esc > 0 && isHex(b):
		q.esc--
	case b == q.quote:
		q.quote = 0
	case b == '\\' && q.quote != '`':
		q.esc = 10
	default:
		q.esc = 0
	}
}

func isHex(b byte) bool {
	return b >= '0' && b <= '9' || b >= 'a' && b <= 'f' || b >= 'A' && b <= 'F'
}

// lexClass forks over the lexical classes of a byte and returns the
// representative of the class chosen on this path.
func (it *Interp) lexClass(t *Term, tab *lexTab) byte {
	ps := it.path
	for n := 0; n < 200; n++ {
		var v uint64
		if i := len(ps.decs); i < len(ps.prefix) {
			v = ps.prefix[i].val
		} else {
			v = ps.ev.eval(t)
			if v >= 128 {
				it.unsupported("symbolic non-ASCII byte in parsed text")
			}
			v = uint64(tab.rep[tab.class[v]])
		}
		if it.decideV(it.inLexClass(t, tab, tab.class[v]), v) {
			return byte(v)
		}
	}
	panic("lexClass")
}

func (it *Interp) inLexClass(t *Term, tab *lexTab, cl int) *Term {
	c := it.tt.Bool(false)
	for lo := 0; lo < 128; lo++ {
		if tab.class[lo] != cl {
			continue
		}
		hi := lo
		for hi+1 < 128 && tab.class[hi+1] == cl {
			hi++
		}
		r := it.tt.Eq(t, it.tt.BV(uint64(lo), 8))
		if hi > lo {
			r = it.tt.And(it.tt.Mk(OUle, sBool, it.tt.BV(uint64(lo), 8), t), it.tt.Mk(OUle, sBool, t, it.tt.BV(uint64(hi), 8)))
		}
		c = it.tt.Or(c, r)
		lo = hi
	}
	return c
}

// symbolicIn reports whether token t covers a symbolic byte of the input.
func symbolicIn(input Val, byteOf []int, t *PTok) bool {
	if t.Stop+1 >= len(byteOf) || t.Start >= len(byteOf) {
		return false
	}
	for i := byteOf[t.Start]; i < byteOf[t.Stop+1]; i++ {
		if _, ok := strAt(input, i).(*Term); ok {
			return true
		}
	}
	return false
}

func unhex(s string) string {
	b := make([]byte, len(s)/2)
	for i := range b {
		v, _ := strconv.ParseUint(s[2*i:2*i+2], 16, 8)
		b[i] = byte(v)
	}
	return string(b)
}

func (it *Interp) notify(caller *frame, p *Val, t types.Type, base string, errs []PErr) {
	if len(errs) == 0 {
		return
	}
	bt := fieldType(t, base)
	bp := (*p).(Struct)[fieldIdx(t, base)].(*Val)
	rt := fieldType(bt, "BaseRecognizer")
	rp := (*bp).(Struct)[fieldIdx(bt, "BaseRecognizer")].(*Val)
	ls, _ := (*rp).(Struct)[fieldIdx(rt, "listeners")].(Slice)
	for _, e := range errs {
		for _, l := range ls {
			li := l.(Iface)
			if li.t == nil {
				it.nilDeref()
			}
			sel := it.P.prog.MethodSets.MethodSet(li.t).Lookup(nil, "SyntaxError")
			if sel == nil {
				continue
			}
			it.call(caller, it.P.prog.MethodValue(sel), []Val{copyVal(li.v), Iface{}, Iface{}, int64(e.Line), int64(e.Col), unhex(e.Msg), Iface{}}, nil)
		}
	}
}

var _ = time.Now
