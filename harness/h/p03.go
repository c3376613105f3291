package h

import "verif/harness/vf"

var _ = vf.Reg("P03_Arithmetic", P03_Arithmetic)
var _ = vf.Reg("P03_Comparison", P03_Comparison)
var _ = vf.Reg("P03_Chains", P03_Chains)
var _ = vf.Reg("P03_IsNull", P03_IsNull)
var _ = vf.Reg("P03_Functions", P03_Functions)
var _ = vf.Reg("P03_NullSources", P03_NullSources)

func assertNull(v interface{}, err error, id string) {
	vf.Assert(err == nil, id+"-error")
	vf.Assert(v == nil, id)
}

// a null operand on either side, any kind on the other
func P03_Arithmetic() {
	op := string(rune(opStr("op")))
	k := vf.Choice("kind", nKinds)
	a := value(k, "a")
	v, err := ret("null "+op+" $a", a)
	assertNull(v, err, "null-left")
	v, err = ret("$a "+op+" null", a)
	assertNull(v, err, "null-right")
	v, err = ret("$a "+op+" $b", a, nil)
	assertNull(v, err, "null-parameter")
}

var cmps = []string{"=", "<>", "<", "<=", ">", ">="}

func P03_Comparison() {
	op := cmps[vf.Choice("op", len(cmps))]
	k := vf.Choice("kind", nKinds)
	a := value(k, "a")
	v, err := ret("null "+op+" $a", a)
	assertNull(v, err, "null-left")
	v, err = ret("$a "+op+" null", a)
	assertNull(v, err, "null-right")
	v, err = ret("not ($a "+op+" null)", a)
	assertNull(v, err, "null-not")
}

// null stays null through longer expressions
func P03_Chains() {
	a, b := num("a"), num("b")
	o1, o2 := opStr("o1"), opStr("o2")
	ops := []string{string(rune(o1)), string(rune(o2))}
	if o1 == '/' || o1 == '%' || o2 == '/' || o2 == '%' {
		vf.Assume(!isZero(a) && !isZero(b))
	}
	q := []string{
		"null " + ops[0] + " $a " + ops[1] + " $b",
		"$a " + ops[0] + " null " + ops[1] + " $b",
		"$a " + ops[0] + " $b " + ops[1] + " null",
		"$a " + ops[0] + " (null " + ops[1] + " $b)",
		"-null " + ops[0] + " $a",
		"($a " + ops[0] + " null) = $b",
	}[vf.Choice("form", 6)]
	v, err := ret(q, a, b)
	assertNull(v, err, "null-in-chain")
}

func P03_IsNull() {
	k := vf.Choice("kind", nKinds)
	a := value(k, "a")
	v, err := ret("$a is null", a)
	must(err, "is-null-error")
	vf.Assert(v == (k == kNull), "is-null")
	v, err = ret("$a is not null", a)
	must(err, "is-not-null-error")
	vf.Assert(v == (k != kNull), "is-not-null")
	v, err = ret("not ($a is null)", a)
	must(err, "not-is-null-error")
	vf.Assert(v == (k != kNull), "not-is-null")
}

func P03_Functions() {
	s, i := vf.Str("s", 0, 2, ""), vf.Int("i")
	q := []string{
		"left(null, $i)", "left($s, null)", "right(null, $i)", "right($s, null)", "substring(null, $i)", "substring($s, null)",
		"substring($s, 0, null)", "substring(null, 0, 1)", "split(null, $s)", "split($s, null)", "trim(null)", "ltrim(null)", "rtrim(null)",
		"toInteger(null)", "toIntegerOrNull(null)", "toFloat(null)", "toFloatOrNull(null)", "size(null)", "labels(null)",
		"null starts with $s", "$s starts with null", "null ends with $s", "$s ends with null", "null contains $s", "$s contains null",
		"not null", "-null", "+null", "date(null)", "null starts with null",
		"null.p", "null[$i]", "[1, 2][null]", "null in [1]", "1 in null", "1 in [null]", "null[0..1]", "[1][null..1]", "[1][0..null]",
	}
	f := q[vf.Choice("f", len(q))]
	ctx := newCtx()
	ctx.SetParameter("$s", rv(s)).SetParameter("$i", rv(i))
	v, err := oc_eval(ctx, "return "+f)
	must(err, "error")
	vf.Assert(single(v) == nil, "null-argument")
}

// null from every source behaves the same
func P03_NullSources() {
	g := graphOf(1)
	g.nodes[0].SetLabels(labelSet("L"))
	ctx := g.ctx()
	ctx.SetParameter("$n", rv(nil)).SetParameter("$x", rv(vf.Int("x"))).SetParameter("$list", rv(valueList(rv(1), rv(nil))))
	src := []string{"null", "$n", "n.missing", "$list[1]", "[null][0]", "$list[5]", "(case when false then 1 end)", "(null + 1)", "toIntegerOrNull('z')"}[vf.Choice("src", 9)]
	form := []string{"E + $x", "$x - E", "E * E", "$x = E", "E < $x", "-E", "E = E", "not (E = 1)"}[vf.Choice("form", 8)]
	v, err := oc_eval(ctx, "match (n:L) return "+subst(form, src))
	must(err, "error")
	vf.Assert(single(v) == nil, "null-source")
	v, err = oc_eval(ctx, "match (n:L) return "+src+" is null, "+src+" is not null")
	must(err, "error")
	vf.Assert(cell(rows(v), 0, "1") == true, "source-is-null")
	vf.Assert(cell(rows(v), 0, "2") == false, "source-is-not-null")
}
