package h

import (
	"time"

	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P04_Pairs", P04_Pairs)
var _ = vf.Reg("P04_Transitive", P04_Transitive)
var _ = vf.Reg("P04_Mixed", P04_Mixed)
var _ = vf.Reg("P04_Incomparable", P04_Incomparable)
var _ = vf.Reg("P04_Chained", P04_Chained)
var _ = vf.Reg("P04_Strings", P04_Strings)
var _ = vf.Reg("P04_Literals", P04_Literals)

// compare evaluates a op b.
func compare(op string, a, b interface{}) bool {
	v, err := ret("$a "+op+" $b", a, b)
	must(err, "comparison-error")
	r, ok := v.(bool)
	vf.Assert(ok, "comparison-not-boolean")
	return r
}

func durLess(a, b oc.Duration) bool {
	return vf.Or(a.Months < b.Months,
		vf.And(a.Months == b.Months, vf.Or(a.Days < b.Days,
			vf.And(a.Days == b.Days, vf.Or(a.Seconds < b.Seconds,
				vf.And(a.Seconds == b.Seconds, a.Nanos < b.Nanos))))))
}

func bytesLess(a, b string) bool {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	less, eq := false, true
	for i := 0; i < n; i++ {
		less = vf.Or(less, vf.And(eq, a[i] < b[i]))
		eq = vf.And(eq, a[i] == b[i])
	}
	return vf.Or(less, vf.And(eq, len(a) < len(b)))
}

func bytesEq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	eq := true
	for i := 0; i < len(a); i++ {
		eq = vf.And(eq, a[i] == b[i])
	}
	return eq
}

// refOrder gives (a<b, a=b) in the natural order of the kind.
func refOrder(a, b interface{}) (bool, bool) {
	switch x := a.(type) {
	case int:
		y := b.(int)
		return x < y, x == y
	case float64:
		y := b.(float64)
		return x < y, x == y
	case string:
		y := b.(string)
		return bytesLess(x, y), bytesEq(x, y)
	case bool:
		y := b.(bool)
		return vf.And(!x, y), vf.Iff(x, y)
	case oc.Duration:
		y := b.(oc.Duration)
		return durLess(x, y), vf.And(x.Months == y.Months, x.Days == y.Days, x.Seconds == y.Seconds, x.Nanos == y.Nanos)
	case oc.Date:
		return timeLess(x.Time(), b.(oc.Date).Time())
	case oc.LocalTime:
		return timeLess(x.Time(), b.(oc.LocalTime).Time())
	case oc.LocalDateTime:
		return timeLess(x.Time(), b.(oc.LocalDateTime).Time())
	}
	panic("refOrder")
}

func timeLess(a, b time.Time) (bool, bool) {
	return vf.Or(a.Unix() < b.Unix(), vf.And(a.Unix() == b.Unix(), a.Nanosecond() < b.Nanosecond())),
		vf.And(a.Unix() == b.Unix(), a.Nanosecond() == b.Nanosecond())
}

// every operator against the reference order, for every comparable kind
func P04_Pairs() {
	k := 1 + vf.Choice("kind", nPrim-1)
	a, b := value(k, "a"), value(k, "b")
	if k == kFloat {
		vf.Assume(!isNaN(a.(float64)))
		vf.Assume(!isNaN(b.(float64)))
	}
	lt, eq := refOrder(a, b)
	op := cmps[vf.Choice("op", len(cmps))]
	r := compare(op, a, b)
	vf.Observe("r", r)
	switch op {
	case "=":
		vf.Assert(vf.Iff(r, eq), "eq")
	case "<>":
		vf.Assert(vf.Iff(r, !eq), "ne")
	case "<":
		vf.Assert(vf.Iff(r, lt), "lt")
	case "<=":
		vf.Assert(vf.Iff(r, vf.Or(lt, eq)), "le")
	case ">":
		vf.Assert(vf.Iff(r, vf.And(!lt, !eq)), "gt")
	case ">=":
		vf.Assert(vf.Iff(r, !lt), "ge")
	}
}

// trichotomy, antisymmetry and transitivity
func P04_Transitive() {
	k := 1 + vf.Choice("kind", nPrim-1)
	a, b, c := value(k, "a"), value(k, "b"), value(k, "c")
	if k == kFloat {
		vf.Assume(!isNaN(a.(float64)))
		vf.Assume(!isNaN(b.(float64)))
		vf.Assume(!isNaN(c.(float64)))
	}
	ab, bc, ac := compare("<", a, b), compare("<", b, c), compare("<", a, c)
	vf.Assert(vf.Implies(vf.And(ab, bc), ac), "transitive")
	ba, eq := compare("<", b, a), compare("=", a, b)
	vf.Assert(vf.Or(ab, ba, eq), "total")
	vf.Assert(!vf.Or(vf.And(ab, ba), vf.And(ab, eq), vf.And(ba, eq)), "exclusive")
	le, be := compare("<=", a, b), compare("=", b, a)
	vf.Assert(vf.Iff(le, vf.Or(ab, eq)), "le")
	vf.Assert(vf.Iff(eq, be), "symmetric")
}

// integers and floats compare as doubles; NaN is unequal to and unordered with everything
func P04_Mixed() {
	a, b := num("a"), num("b")
	_, ai := a.(int)
	_, bi := b.(int)
	if ai && bi {
		return
	}
	x, y := toF(a), toF(b)
	op := cmps[vf.Choice("op", len(cmps))]
	r := compare(op, a, b)
	switch op {
	case "=":
		vf.Assert(vf.Iff(r, x == y), "eq")
	case "<>":
		vf.Assert(vf.Iff(r, x != y), "ne")
	case "<":
		vf.Assert(vf.Iff(r, x < y), "lt")
	case "<=":
		vf.Assert(vf.Iff(r, x <= y), "le")
	case ">":
		vf.Assert(vf.Iff(r, x > y), "gt")
	case ">=":
		vf.Assert(vf.Iff(r, x >= y), "ge")
	}
}

func comparable_(a, b int) bool {
	isNum := func(k int) bool { return k == kInt || k == kFloat }
	return a == b && a < kList || isNum(a) && isNum(b)
}

func P04_Incomparable() {
	ka, kb := 1+vf.Choice("ka", nKinds-1), 1+vf.Choice("kb", nKinds-1)
	if comparable_(ka, kb) || ka >= kList && ka == kb {
		return
	}
	a, b := value(ka, "a"), value(kb, "b")
	_, err := ret("$a "+cmps[vf.Choice("op", len(cmps))]+" $b", a, b)
	vf.Assert(err != nil, "incomparable")
}

// a op b op c is the conjunction of the two comparisons
func P04_Chained() {
	a, b, c := vf.Int("a"), vf.Int("b"), vf.Int("c")
	o1, o2 := cmps[vf.Choice("o1", 6)], cmps[vf.Choice("o2", 6)]
	v, err := ret("$a "+o1+" $b "+o2+" $c", a, b, c)
	must(err, "error")
	r, ok := v.(bool)
	vf.Assert(ok, "kind")
	vf.Assert(vf.Iff(r, vf.And(refCmp(o1, a, b), refCmp(o2, b, c))), "chained")
}

func refCmp(op string, a, b int) bool {
	switch op {
	case "=":
		return a == b
	case "<>":
		return a != b
	case "<":
		return a < b
	case "<=":
		return a <= b
	case ">":
		return a > b
	}
	return a >= b
}

// longer strings of any bytes
func P04_Strings() {
	n := vf.Pick(3, 5)
	a, b := vf.Str("a", 0, n, ""), vf.Str("b", 0, n, "")
	lt, eq := refOrder(a, b)
	vf.Assert(vf.Iff(compare("<", a, b), lt), "lt")
	vf.Assert(vf.Iff(compare("=", a, b), eq), "eq")
	vf.Assert(vf.Iff(compare(">=", a, b), !lt), "ge")
}

// literals compare like parameters
func P04_Literals() {
	d := vf.Str("d", 1, 2, "1-9")
	x := 0
	for i := 0; i < len(d); i++ {
		x = x*10 + int(d[i]-'0')
	}
	b := vf.Int("b")
	i := vf.Choice("op", 6)
	v, err := ret(d+" "+cmps[i]+" $a", b)
	must(err, "error")
	vf.Assert(vf.Iff(v == true, refCmp(cmps[i], x, b)), "literal-left")
	v, err = ret("$a "+cmps[i]+" -"+d, b)
	must(err, "error")
	vf.Assert(vf.Iff(v == true, refCmp(cmps[i], b, -x)), "literal-right")
}
