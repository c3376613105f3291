package h

import (
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P07_Index", P07_Index)
var _ = vf.Reg("P07_IndexLiteral", P07_IndexLiteral)
var _ = vf.Reg("P07_Slice", P07_Slice)
var _ = vf.Reg("P07_SliceLiteral", P07_SliceLiteral)
var _ = vf.Reg("P07_Concat", P07_Concat)
var _ = vf.Reg("P07_Aliasing", P07_Aliasing)
var _ = vf.Reg("P07_In", P07_In)
var _ = vf.Reg("P07_InLiteral", P07_InLiteral)

// intList is a list of n symbolic integers, as a value and as plain numbers.
// The backing array has spare capacity.
func intList(name string, n int) ([]oc.Value, []int) {
	l := make([]oc.Value, 0, n+4)
	var p []int
	for i := 0; i < n; i++ {
		x := vf.Int(name + digit(i))
		p = append(p, x)
		l = append(l, rv(x))
	}
	return l, p
}

func assertInts(v interface{}, want []int, id string) {
	l, ok := v.([]oc.Value)
	vf.Assert(ok, id+"-kind")
	vf.Assert(len(l) == len(want), id+"-length")
	for i := range want {
		vf.Assert(l[i] != nil, id+"-nil-element")
		x, ok := l[i].Get().(int)
		vf.Assert(ok, id+"-element-kind")
		vf.Assert(x == want[i], id+"-element")
	}
}

// assertElement checks list[i] for a list with the elements p.
func assertElement(v interface{}, p []int, i int, id string) {
	n := len(p)
	if v == nil {
		vf.Assert(vf.Or(i >= n, i < -n), id+"-null")
		return
	}
	x, ok := v.(int)
	vf.Assert(ok, id+"-kind")
	vf.Assert(vf.And(i < n, i >= -n), id+"-out-of-range")
	match := false
	for k := range p {
		match = vf.Or(match, vf.And(vf.Or(i == k, i == k-n), x == p[k]))
	}
	vf.Assert(match, id)
}

func P07_Index() {
	n := vf.Choice("n", vf.Pick(5, 9))
	l, p := intList("l", n)
	i := vf.Int("i")
	v, err := ret("$a[$b]", l, i)
	must(err, "error")
	assertElement(v, p, i, "index")
}

func P07_IndexLiteral() {
	i := vf.Int("i")
	x, y, z := vf.Int("x"), vf.Int("y"), vf.Int("z")
	switch vf.Choice("form", 6) {
	case 0:
		v, err := ret("[$a, $b, $c][$d]", x, y, z, i)
		must(err, "error")
		assertElement(v, []int{x, y, z}, i, "literal")
	case 1:
		v, err := ret("[10, 20, 30][$a]", i)
		must(err, "error")
		assertElement(v, []int{10, 20, 30}, i, "const-literal")
	case 2:
		v, err := ret("[[$a, $b], [$c]][0][$d]", x, y, z, i)
		must(err, "error")
		assertElement(v, []int{x, y}, i, "nested")
	case 3:
		v, err := ret("([$a] + [$b, $c])[$d]", x, y, z, i)
		must(err, "error")
		assertElement(v, []int{x, y, z}, i, "concatenated")
	case 4:
		v, err := ret("[$a, $b, $c][1..][$d]", x, y, z, i)
		must(err, "error")
		assertElement(v, []int{y, z}, i, "sliced")
	case 5:
		v, err := ret("[$a, $b, $c][-1]", x, y, z)
		must(err, "error")
		vf.Assert(v == z, "last")
	}
}

// clip is i limited to [0,n].
func clip(i, n int) int { return vf.IteInt(i < 0, 0, vf.IteInt(i > n, n, i)) }

// assertSlice checks v = p[from..to] for non-negative bounds.
func assertSlice(v interface{}, p []int, from, to int, id string) {
	n := len(p)
	f, t := clip(from, n), clip(to, n)
	l, ok := v.([]oc.Value)
	vf.Assert(ok, id+"-kind")
	vf.Assert(len(l) == vf.IteInt(f > t, 0, t-f), id+"-length")
	for i := range l {
		x, ok := l[i].Get().(int)
		vf.Assert(ok, id+"-element-kind")
		match := false
		for k := range p {
			match = vf.Or(match, vf.And(k == f+i, x == p[k]))
		}
		vf.Assert(match, id+"-element")
	}
}

func P07_Slice() {
	n := vf.Choice("n", vf.Pick(4, 7))
	l, p := intList("l", n)
	from, to := vf.Int("from"), vf.Int("to")
	var v interface{}
	var err error
	switch vf.Choice("form", 4) {
	case 0:
		v, err = ret("$a[$b..$c]", l, from, to)
	case 1:
		v, err = ret("$a[$b..]", l, from)
		to = n
	case 2:
		v, err = ret("$a[..$c]", l, 0, to)
		from = 0
	case 3:
		v, err = ret("$a[..]", l)
		from, to = 0, n
	}
	if err != nil {
		vf.Assert(vf.Or(from < 0, to < 0), "error")
		return
	}
	vf.Assert(vf.And(from >= 0, to >= 0), "negative-bound")
	assertSlice(v, p, from, to, "slice")
	assertInts(l, p, "operand-changed")
}

func P07_SliceLiteral() {
	x, y, z := vf.Int("x"), vf.Int("y"), vf.Int("z")
	i, j := vf.IntRange("i", 0, 5), vf.IntRange("j", 0, 5)
	switch vf.Choice("form", 5) {
	case 0:
		v, err := ret("[$a, $b, $c][$d..$e]", x, y, z, i, j)
		must(err, "error")
		assertSlice(v, []int{x, y, z}, i, j, "literal")
	case 1:
		v, err := ret("[1, 2, 3, 4][$a..$b]", i, j)
		must(err, "error")
		assertSlice(v, []int{1, 2, 3, 4}, i, j, "const-literal")
	case 2:
		v, err := ret("[1, 2, 3, 4][1..3]")
		must(err, "error")
		assertInts(v, []int{2, 3}, "const")
	case 3:
		v, err := ret("range(0, 5)[$a..$b]", i, j)
		must(err, "error")
		assertSlice(v, []int{0, 1, 2, 3, 4, 5}, i, j, "range")
	case 4:
		v, err := ret("[$a, $b, $c][1..][..1]", x, y, z)
		must(err, "error")
		assertInts(v, []int{y}, "twice")
	}
}

func P07_Concat() {
	l1, p1 := intList("a", vf.Choice("n1", 3))
	l2, p2 := intList("b", vf.Choice("n2", 3))
	l3, p3 := intList("c", vf.Choice("n3", 2))
	var all []int
	all = append(append(append(all, p1...), p2...), p3...)
	switch vf.Choice("form", 3) {
	case 0:
		v, err := ret("$a + $b + $c", l1, l2, l3)
		must(err, "error")
		assertInts(v, all, "concat")
	case 1:
		v, err := ret("$a + ($b + $c)", l1, l2, l3)
		must(err, "error")
		assertInts(v, all, "grouped")
	case 2:
		v, err := ret("size($a + $b + $c)", l1, l2, l3)
		must(err, "error")
		vf.Assert(v == len(all), "size")
	}
	assertInts(l1, p1, "left-changed")
	assertInts(l2, p2, "right-changed")
}

// results do not share storage: one expression cannot change another's value
func P07_Aliasing() {
	l1, p1 := intList("a", 3)
	l2, p2 := intList("b", 1)
	l3, p3 := intList("c", 1)
	k := vf.IntRange("k", 0, 3)
	q := []string{
		"return $a + $b as x, $a + $c as y, $a as z",
		"return $a[0..$k] + $b as x, $a[0..$k] + $c as y, $a as z",
		"return ($a + $b)[0..4] as x, $a + $c as y, $a[..] as z",
	}[vf.Choice("q", 3)]
	ctx := bind(newCtx(), l1, l2, l3)
	ctx.SetParameter("$k", rv(k))
	v, err := oc_eval(ctx, q)
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Rows) == 1, "rows")
	x, ok := cell(rs, 0, "x").([]oc.Value)
	vf.Assert(ok && len(x) > 0, "x")
	y, ok := cell(rs, 0, "y").([]oc.Value)
	vf.Assert(ok && len(y) > 0, "y")
	vf.Assert(x[len(x)-1].Get() == p2[0], "x-overwritten")
	vf.Assert(y[len(y)-1].Get() == p3[0], "y-overwritten")
	assertInts(cell(rs, 0, "z"), p1, "z")
	assertInts(l1, p1, "operand-changed")
}

func P07_In() {
	group := vf.Choice("group", 5)
	n := vf.Choice("n", vf.Pick(4, 5))
	if group == 1 || group == 0 {
		n = vf.IteInt(n > 3, 3, n)
	}
	x := caseVal(group, "x")
	l := make([]oc.Value, 0)
	found, hasNull := false, false
	for i := 0; i < n; i++ {
		e := caseVal(group, "e"+digit(i))
		l = append(l, rv(e))
		if e == nil {
			hasNull = true
		} else if x != nil {
			found = vf.Or(found, sameVal(x, e))
		}
	}
	v, err := ret("$a in $b", x, l)
	must(err, "error")
	assertTri(v, tri{null: vf.Or(x == nil, vf.And(!found, hasNull)), b: found}, "in")
}

func P07_InLiteral() {
	x, y, z := vf.Int("x"), vf.Int("y"), vf.Int("z")
	in := vf.Or(x == y, x == z)
	switch vf.Choice("form", 6) {
	case 0:
		v, err := ret("$a in [$b, $c]", x, y, z)
		must(err, "error")
		assertTri(v, tri{b: in}, "literal")
	case 1:
		v, err := ret("not ($a in [$b, null, $c])", x, y, z)
		must(err, "error")
		assertTri(v, tri{null: !in, b: !in}, "negated-with-null")
	case 2:
		v, err := ret("$a in ([$b] + [$c])", x, y, z)
		must(err, "error")
		assertTri(v, tri{b: in}, "concatenation")
	case 3:
		v, err := ret("$a in range(1, 4)", x)
		must(err, "error")
		assertTri(v, tri{b: vf.And(x >= 1, x <= 4)}, "range")
	case 4:
		v, err := ret("$a in []", x)
		must(err, "error")
		assertTri(v, tri{}, "empty")
	case 5:
		v, err := ret("$a in [1, 5, 9]", x)
		must(err, "error")
		assertTri(v, tri{b: vf.Or(x == 1, x == 5, x == 9)}, "const")
	}
}
