package h

import (
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P08_Range", P08_Range)
var _ = vf.Reg("P08_RangeConst", P08_RangeConst)
var _ = vf.Reg("P08_Kinds", P08_Kinds)

// assertProgression: v is exactly the terms a, a+s, ... up to b. n is the number
// of terms, chosen by fork; larger results are outside the bound.
func assertProgression(f func() (interface{}, error), a, b, s, n int) {
	up, down := s > 0, s < 0
	empty := vf.Or(s == 0, vf.And(up, a > b), vf.And(down, a < b))
	if n == 0 {
		vf.Assume(empty)
	} else {
		vf.Assume(!empty)
		step, rem := uint64(s), uint64(b)-uint64(a)
		if down {
			step, rem = -step, -rem
		}
		for i := 1; i < n; i++ {
			vf.Assume(rem >= step)
			rem -= step
		}
		vf.Assume(rem < step)
	}
	v, err := f()
	must(err, "error")
	l, ok := v.([]oc.Value)
	vf.Assert(ok, "kind")
	vf.Assert(len(l) == n, "length")
	at := a
	for i := range l {
		x, ok := l[i].Get().(int)
		vf.Assert(ok, "element-kind")
		vf.Assert(x == at, "element")
		at += s
	}
}

func P08_Range() {
	a, b := vf.Int("a"), vf.Int("b")
	n := vf.Choice("n", vf.Pick(6, 17))
	switch vf.Choice("form", 3) {
	case 0:
		assertProgression(func() (interface{}, error) { return ret("range($a, $b)", a, b) }, a, b, 1, n)
	case 1:
		s := vf.Int("s")
		assertProgression(func() (interface{}, error) { return ret("range($a, $b, $c)", a, b, s) }, a, b, s, n)
	case 2:
		s := vf.Int("s")
		assertProgression(func() (interface{}, error) {
			v, err := ret("size(range($a, $b, $c))", a, b, s)
			must(err, "size-error")
			vf.Assert(v == n, "size")
			return ret("range($a, $b, $c)", a, b, s)
		}, a, b, s, n)
	}
}

// steps written in the query, from any start
func P08_RangeConst() {
	a, b := vf.Int("a"), vf.Int("b")
	n := vf.Choice("n", 5)
	k := vf.Choice("step", 6)
	txt := []string{"1", "-1", "2", "-3", "0", "9223372036854775807"}[k]
	s := []int{1, -1, 2, -3, 0, 9223372036854775807}[k]
	assertProgression(func() (interface{}, error) { return ret("range($a, $b, "+txt+")", a, b) }, a, b, s, n)
}

// arguments that are not integers are errors
func P08_Kinds() {
	k := vf.Choice("kind", nKinds)
	if k == kInt || k == kNull {
		return
	}
	x := value(k, "x")
	q := []string{"range($a, 3)", "range(3, $a)", "range(1, 3, $a)"}[vf.Choice("pos", 3)]
	_, err := ret(q, x)
	vf.Assert(err != nil, "non-integer-argument")
}
