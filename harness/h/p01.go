package h

import "verif/harness/vf"

var _ = vf.Reg("P01_Binary", P01_Binary)
var _ = vf.Reg("P01_Chain", P01_Chain)
var _ = vf.Reg("P01_Chain4", P01_Chain4)
var _ = vf.Reg("P01_Unary", P01_Unary)
var _ = vf.Reg("P01_Grouping", P01_Grouping)
var _ = vf.Reg("P01_Sources", P01_Sources)
var _ = vf.Reg("P01_FarApart", P01_FarApart)

const ops = "+-*/%^"

func opStr(name string) byte { return ops[vf.Choice(name, len(ops))] }

// one operator, any pair of numbers
func P01_Binary() {
	op := opStr("op")
	a, b := num("a"), num("b")
	if op == '/' || op == '%' {
		vf.Assume(!isZero(b))
	}
	v, err := ret("$a "+string(rune(op))+" $b", a, b)
	must(err, "no-error")
	w, _ := arith(op, a, b)
	assertNum(v, w, "value")
}

func level(op byte) int {
	switch op {
	case '+', '-':
		return 1
	case '*', '/', '%':
		return 2
	}
	return 3
}

// a op b op c: precedence and left associativity
func P01_Chain() {
	o1, o2 := opStr("o1"), opStr("o2")
	var a, b, c interface{}
	switch vf.Choice("kinds", vf.Pick(4, 8)) {
	case 0:
		a, b, c = vf.Int("a"), vf.Int("b"), vf.Int("c")
	case 1:
		a, b, c = vf.Float("a"), vf.Float("b"), vf.Float("c")
	case 2:
		a, b, c = vf.Int("a"), vf.Float("b"), vf.Int("c")
	case 3:
		a, b, c = vf.Int("a"), vf.Int("b"), vf.Float("c")
	case 4:
		a, b, c = vf.Float("a"), vf.Int("b"), vf.Int("c")
	case 5:
		a, b, c = vf.Float("a"), vf.Float("b"), vf.Int("c")
	case 6:
		a, b, c = vf.Float("a"), vf.Int("b"), vf.Float("c")
	case 7:
		a, b, c = vf.Int("a"), vf.Float("b"), vf.Float("c")
	}
	var w interface{}
	var ok bool
	if level(o2) > level(o1) {
		w, ok = arith(o2, b, c)
		vf.Assume(ok)
		w, ok = arith(o1, a, w)
	} else {
		w, ok = arith(o1, a, b)
		vf.Assume(ok)
		w, ok = arith(o2, w, c)
	}
	vf.Assume(ok)
	v, err := ret("$a "+string(rune(o1))+" $b "+string(rune(o2))+" $c", a, b, c)
	must(err, "no-error")
	assertNum(v, w, "value")
}

// longer chains of one level
func P01_Chain4() {
	lv := "+-"
	if vf.Choice("lv", 2) == 1 {
		lv = "*/%"
	}
	n := vf.Pick(4, 5)
	q := "$a"
	w := interface{}(vf.Int("v0"))
	vs := []interface{}{w}
	for i := 1; i < n; i++ {
		op := lv[vf.Choice("op"+string(rune('0'+i)), len(lv))]
		x := vf.Int("v" + string(rune('0'+i)))
		vs = append(vs, x)
		q += string(rune(op)) + "$" + string(rune('a'+i))
		var ok bool
		w, ok = arith(op, w, x)
		vf.Assume(ok)
	}
	v, err := ret(q, vs...)
	must(err, "no-error")
	assertNum(v, w, "value")
}

func neg(v interface{}) interface{} {
	if i, ok := v.(int); ok {
		return -i
	}
	return -v.(float64)
}

func P01_Unary() {
	a, b := num("a"), num("b")
	var q string
	var w interface{}
	switch vf.Choice("form", 7) {
	case 0:
		q, w = "-$a", neg(a)
	case 1:
		q, w = "- -$a", a
	case 2:
		q, w = "+$a", a
	case 3:
		q = "-$a - -$b"
		w, _ = arith('-', neg(a), neg(b))
	case 4:
		q = "$b * -$a"
		w, _ = arith('*', b, neg(a))
	case 5:
		q = "-$a ^ $b"
		w, _ = arith('^', neg(a), b)
	case 6:
		q = "-($a + $b)"
		w, _ = arith('+', a, b)
		w = neg(w)
	}
	v, err := ret(q, a, b)
	must(err, "no-error")
	assertNum(v, w, "value")
}

func P01_Grouping() {
	a, b, c := vf.Int("a"), vf.Int("b"), num("c")
	o1, o2 := opStr("o1"), opStr("o2")
	var q string
	var w interface{}
	var ok bool
	s1, s2 := string(rune(o1)), string(rune(o2))
	if vf.Choice("side", 2) == 0 {
		q = "$a " + s1 + " ($b " + s2 + " $c)"
		w, ok = arith(o2, b, c)
		vf.Assume(ok)
		w, ok = arith(o1, a, w)
	} else {
		q = "($a" + s1 + "$b)" + s2 + "$c"
		w, ok = arith(o1, a, b)
		vf.Assume(ok)
		w, ok = arith(o2, w, c)
	}
	vf.Assume(ok)
	v, err := ret(q, a, b, c)
	must(err, "no-error")
	assertNum(v, w, "value")
}

// operands from literals, variables, properties, list elements and calls
func P01_Sources() {
	op := opStr("op")
	y := vf.Int("y")
	x := y
	var src string
	ctx := newCtx()
	switch vf.Choice("src", 6) {
	case 0:
		d := vf.Str("lit", 1, 2, "1-9")
		src = d
		x = 0
		for i := 0; i < len(d); i++ {
			x = x*10 + int(d[i]-'0')
		}
	case 1:
		src = "x"
		ctx.SetVar("x", rv(x))
	case 2:
		src = "[0, $x][1]"
	case 3:
		src = "toInteger($x)"
	case 4:
		src = "case when true then $x else 0 end"
	case 5:
		src = "($x)"
	}
	ctx.SetParameter("$x", rv(x))
	ctx.SetParameter("$y", rv(y))
	w, ok := arith(op, x, y)
	vf.Assume(ok)
	val, err := oc_eval(ctx, "return "+src+" "+string(rune(op))+" $y")
	must(err, "no-error")
	assertNum(single(val), w, "left-value")
	w, ok = arith(op, y, x)
	vf.Assume(ok)
	val, err = oc_eval(ctx, "return $y "+string(rune(op))+" "+src)
	must(err, "no-error")
	assertNum(single(val), w, "right-value")
}

// quotients and remainders of floats far apart in size, where rounding matters
func P01_FarApart() {
	op := "/%"[vf.Choice("op", 2)]
	x := vf.Float("x")
	c := []float64{0.1, 3, 7.5, 1e-300}[vf.Choice("c", 4)]
	var a, b interface{} = x, c
	if vf.Choice("big", 2) == 0 {
		vf.Assume(vf.And(x >= 1e17, x <= 1e300))
	} else {
		vf.Assume(vf.And(x >= 1e-5, x <= 0.9))
		a, b = c*1e16, x
	}
	v, err := ret("$a "+string(rune(op))+" $b", a, b)
	must(err, "no-error")
	w, _ := arith(op, a, b)
	assertNum(v, w, "far-apart")
}
