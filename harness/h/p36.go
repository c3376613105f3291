package h

import (
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P36_Pairs", P36_Pairs)
var _ = vf.Reg("P36_Prefix", P36_Prefix)
var _ = vf.Reg("P36_Postfix", P36_Postfix)
var _ = vf.Reg("P36_Repeated", P36_Repeated)
var _ = vf.Reg("P36_Triples", P36_Triples)
var _ = vf.Reg("P36_Redundant", P36_Redundant)

// binding strength of the operators, weakest first
var binding = map[string]int{
	"or": 1, "xor": 2, "and": 3, "=": 5, "<>": 5, "<": 5, ">=": 5, ">": 5, "<=": 5, "+": 6, "-": 6, "*": 7, "/": 7, "%": 7, "^": 8, "in": 10,
}

var binaryOps = []string{"or", "xor", "and", "=", "<", "+", "-", "*", "/", "%", "^", "in"}

// grouped writes a op b op c ... with the parentheses that precedence implies:
// stronger operators first, equal ones from the left, adjacent comparisons
// joined by AND.
func grouped(operands, ops []string) string {
	if len(ops) == 0 {
		return operands[0]
	}
	weakest := 0
	for i, o := range ops {
		if binding[o] <= binding[ops[weakest]] {
			weakest = i // the last of the weakest: they group from the left
		}
	}
	if binding[ops[weakest]] == 5 {
		// a < b < c is a < b and b < c
		n := 0
		for _, o := range ops {
			if binding[o] == 5 {
				n++
			}
		}
		if n > 1 {
			var parts []string
			from := 0
			prev := ""
			prevOp := ""
			for i := 0; i <= len(ops); i++ {
				if i == len(ops) || binding[ops[i]] == 5 {
					x := grouped(operands[from:i+1], ops[from:i])
					if prevOp != "" {
						parts = append(parts, "("+prev+" "+prevOp+" "+x+")")
					}
					prev = x
					if i < len(ops) {
						prevOp = ops[i]
					}
					from = i + 1
				}
			}
			s := parts[0]
			for _, p := range parts[1:] {
				s = "(" + s + " and " + p + ")"
			}
			return s
		}
	}
	l := grouped(operands[:weakest+1], ops[:weakest])
	r := grouped(operands[weakest+1:], ops[weakest+1:])
	return "(" + l + " " + ops[weakest] + " " + r + ")"
}

// operand is a small value of one of the kinds operators accept.
func operand(name string, kinds ...int) interface{} {
	switch k := kinds[vf.Choice(name+".kind", len(kinds))]; k {
	case kInt:
		return vf.IntRange(name, -3, 3)
	case kList:
		return valueList(rv(vf.IntRange(name, -3, 3)), rv(true))
	default:
		return value(k, name)
	}
}

// sameMeaning asserts that both texts give the same for the same parameters.
// In a chain of comparisons later operands may be looked at, or compared, even
// when an earlier comparison has decided it.
func sameMeaning(q1, q2 string, id string, params ...interface{}) {
	v, verr := eval("return "+q1+" as x", params...)
	w, werr := eval("return "+q2+" as x", params...)
	if verr != nil && werr == nil && comparisons(q1) > 1 {
		return
	}
	assertSameResult(v, verr, w, werr, id)
}

func comparisons(q string) int {
	n := 0
	for i := range q {
		if q[i] == '=' || q[i] == '<' {
			n++
		}
	}
	return n
}

// every two binary operators
func P36_Pairs() {
	o1, o2 := binaryOps[vf.Choice("op1", len(binaryOps))], binaryOps[vf.Choice("op2", len(binaryOps))]
	vs := []interface{}{operand("a", kInt, kBool), operand("b", kInt, kBool, kList), operand("c", kInt, kBool, kList)}
	ps := []string{"$a", "$b", "$c"}
	sameMeaning("$a "+o1+" $b "+o2+" $c", grouped(ps, []string{o1, o2}), "pair", vs...)
}

var _ = vf.Reg("P36_Comparisons", P36_Comparisons)

// chains of every comparison, between other operators
func P36_Comparisons() {
	ops := []string{"=", "<>", "<", "<=", ">", ">="}
	o1, o2 := ops[vf.Choice("op1", 6)], ops[vf.Choice("op2", 6)]
	vs := []interface{}{vf.IntRange("a", -3, 3), vf.IntRange("b", -3, 3), vf.IntRange("c", -3, 3), vf.IntRange("d", -3, 3)}
	ps := []string{"$a", "$b", "$c", "$d"}
	o := []string{o1, o2}
	switch k := vf.Choice("form", 4); k {
	case 0:
		o = append(o, ops[vf.Choice("op3", vf.Pick(2, 6))])
	case 1:
		o = []string{o1, "+", o2}
	case 2:
		o = []string{"-", o1, o2}
	case 3:
		o = []string{o1, o2, "*"}
	}
	q := ps[0]
	for i, x := range o {
		q += " " + x + " " + ps[i+1]
	}
	sameMeaning(q, grouped(ps, o), "comparisons", vs...)
}

// three operators
func P36_Triples() {
	ops := []string{"or", "xor", "and", "=", "<", "+", "-", "*", "/", "^", "in"}
	var o []string
	n := vf.Pick(6, len(ops))
	q := "$a"
	for i := 0; i < 3; i++ {
		x := ops[vf.Choice("op"+digit(i), n)]
		o = append(o, x)
		q += " " + x + " $" + string(rune('b'+i))
	}
	// kinds for which something can be computed
	var vs []interface{}
	for i := 0; i < 4; i++ {
		vs = append(vs, operand(string(rune('a'+i)), kInt, kBool))
	}
	sameMeaning(q, grouped([]string{"$a", "$b", "$c", "$d"}, o), "triple", vs...)
}

// prefix operators with one on either side
func P36_Prefix() {
	o := binaryOps[vf.Choice("op", len(binaryOps))]
	not := func(x string) string { return "(not " + x + ")" }
	var q, r string
	signs := false
	switch vf.Choice("form", 7) {
	case 0: // NOT reaches over everything stronger than itself
		q = "not $a " + o + " $b"
		if binding[o] > 3 {
			r = not("($a " + o + " $b)")
		} else {
			r = "(" + not("$a") + " " + o + " $b)"
		}
	case 1:
		vf.Assume(binding[o] <= 3)
		q, r = "$a "+o+" not $b", "($a "+o+" (not $b))"
	case 2:
		vf.Assume(o != "in")
		q, r = "-$a "+o+" $b", "((-$a) "+o+" $b)"
	case 3: // a sign is weaker than IN
		vf.Assume(o != "in")
		q, r = "$a "+o+" -$b", "($a "+o+" (-$b))"
	case 4: // and so are two NOTs
		signs = true
		q, r = "not not $a "+o+" $b", "(not (not ($a "+o+" $b)))"
		if binding[o] <= 3 {
			r = "((not (not $a)) " + o + " $b)"
		}
	case 5: // two signs on something that is not a number are left open
		vf.Assume(o != "in")
		signs = true
		q, r = "- -$a "+o+" $b", "((-(-$a)) "+o+" $b)"
	case 6:
		vf.Assume(binding[o] > 3 && o != "in")
		q, r = "not -$a "+o+" - $b", "(not ((-$a) "+o+" (-$b)))"
	}
	a, b := operand("a", kInt, kBool, kNull), operand("b", kInt, kBool, kNull, kList)
	if signs {
		if _, err := eval("return "+r, a, b); err != nil {
			return
		}
	}
	sameMeaning(q, r, "prefix", a, b)
}

// any number of signs and of NOTs
func P36_Repeated() {
	n := vf.Choice("n", vf.Pick(6, 9))
	x, y := "$a", "$a"
	word := []string{"not ", "- "}[vf.Choice("op", 2)]
	for i := 0; i < n; i++ {
		x, y = word+x, "("+word+y+")"
	}
	a := operand("a", kInt, kBool, kNull, kFloat)
	v, verr := eval("return "+y+" as x", a)
	if verr != nil && n%2 == 0 {
		// an even number of them on something they are not defined for is left open
		return
	}
	w, werr := eval("return "+x+" as x", a)
	assertSameResult(w, werr, v, verr, "repeated")
	w, werr = eval("return [false, "+x+"][1] as x", a)
	assertSameResult(w, werr, v, verr, "repeated-inside")
}

// indexes, null tests, IN, string operators and property access
func P36_Postfix() {
	o := binaryOps[vf.Choice("op", len(binaryOps)-1)]
	forms := [][2]string{
		{"$a " + o + " $b is null", "($a " + o + " ($b is null))"},
		{"$a is null " + o + " $b is not null", "(($a is null) " + o + " ($b is not null))"},
		{"$a " + o + " $l[0]", "($a " + o + " ($l[0]))"},
		{"$l[0] " + o + " $b", "(($l[0]) " + o + " $b)"},
		{"$a " + o + " $b in $l", "($a " + o + " ($b in $l))"},
		{"$a in $l " + o + " $b", "(($a in $l) " + o + " $b)"},
		{"$a " + o + " $s starts with 'a'", "($a " + o + " ($s starts with 'a'))"},
		{"$s ends with 'a' " + o + " $b", "(($s ends with 'a') " + o + " $b)"},
		{"$s contains 'a' " + o + " $s contains 'b'", "(($s contains 'a') " + o + " ($s contains 'b'))"},
		{"not $a is null " + o + " $b", "((not ($a is null)) " + o + " $b)"},
		{"-$l[0] " + o + " $b", "((-($l[0])) " + o + " $b)"},
		{"$l[0..1][0] " + o + " $b", "((($l[0..1])[0]) " + o + " $b)"},
		{"$l[0] " + o + " n.p", "(($l[0]) " + o + " (n.p))"},
		{"-n.p " + o + " n.p is null", "((-(n.p)) " + o + " ((n.p) is null))"},
		{"case when $a then $b else $a end " + o + " $b", "((case when $a then $b else $a end) " + o + " $b)"},
		{"size($l) " + o + " $b", "((size($l)) " + o + " $b)"},
		{"[$a, $b][0] " + o + " $b", "(([$a, $b][0]) " + o + " $b)"},
	}
	f := forms[vf.Choice("form", len(forms))]
	if f[0][:5] == "not $" && binding[o] > 3 {
		f[1] = "(not (($a is null) " + o + " $b))"
	}
	g := graphOf(1)
	g.nodes[0].SetProperty("p", vf.IntRange("p", -3, 3))
	a, b := operand("a", kInt, kBool, kNull), operand("b", kInt, kBool)
	s := vf.Str("s", 0, 1, "ab")
	l := valueList(rv(vf.IntRange("l0", -3, 3)), rv(2))
	mk := func() *oc.EvalContext {
		return bind(g.ctx(), a, b).SetParameter("$s", rv(s)).SetParameter("$l", rv(l))
	}
	v, verr := oc_eval(mk(), "match (n) return "+f[0]+" as x")
	w, werr := oc_eval(mk(), "match (n) return "+f[1]+" as x")
	assertSameResult(v, verr, w, werr, "postfix")
}

// parentheses that change nothing, and white space, change nothing; those that
// matter are respected
func P36_Redundant() {
	ops := []string{"or", "xor", "and", "=", "<", "+", "-", "*"}
	o1, o2 := ops[vf.Choice("op1", len(ops))], ops[vf.Choice("op2", len(ops))]
	a, b, c := operand("a", kInt, kBool), operand("b", kInt, kBool), operand("c", kInt, kBool)
	// (a op1 b) op2 c evaluated in two steps
	v, verr := eval("return ($a "+o1+" $b) "+o2+" $c as x", a, b, c)
	var w oc.Value
	x, werr := eval("return $a "+o1+" $b as x", a, b)
	if werr == nil {
		w, werr = eval("return $a "+o2+" $b as x", single(x), c)
	}
	// NULL operands cannot arise here except by null results, which propagate alike
	assertSameResult(v, verr, w, werr, "left-steps")
	v, verr = eval("return $a "+o1+" ($b "+o2+" $c) as x", a, b, c)
	x, werr = eval("return $a "+o2+" $b as x", b, c)
	if werr == nil {
		w, werr = eval("return $a "+o1+" $b as x", a, single(x))
	}
	if verr == nil && werr != nil || verr != nil && werr == nil {
		// a connective decided by its left operand does not look at the right one
		vf.Assert(werr != nil && (o1 == "and" || o1 == "or"), "right-steps-error")
	} else {
		assertSameResult(v, verr, w, werr, "right-steps")
	}
	v, verr = eval("return ((($a)) "+o1+"\n ( $b )"+o2+" \t$c) as x", a, b, c)
	w, werr = eval("return $a "+o1+" $b "+o2+" $c as x", a, b, c)
	if len(o2) == 1 {
		assertSameResult(v, verr, w, werr, "redundant")
	}
}

var _ = vf.Reg("P36_Signs", P36_Signs)
var _ = vf.Reg("P36_PostfixChains", P36_PostfixChains)

// any mixture of signs: a plus changes nothing
func P36_Signs() {
	n := 1 + vf.Choice("n", vf.Pick(3, 6))
	x, y := "$a", "$a"
	minus := 0
	space := []string{"", " "}[vf.Choice("space", 2)]
	for i := 0; i < n; i++ {
		if vf.Choice("sign"+digit(i), 2) == 1 {
			x = "-" + space + x
			y = "(-" + y + ")"
			minus++
		} else {
			x = "+" + space + x
		}
	}
	a := operand("a", kInt, kNull, kFloat)
	form := [][2]string{{"X", "X"}, {"2 * X", "(2 * X)"}, {"1 + X", "(1 + X)"}, {"3 - X", "(3 - X)"}, {"[X][0]", "([X][0])"}, {"X = $a", "(X = $a)"}}[vf.Choice("form", 6)]
	put := func(s, e string) string {
		out := ""
		for i := range s {
			if s[i] == 'X' {
				out += e
			} else {
				out += s[i : i+1]
			}
		}
		return out
	}
	v, verr := eval("return "+put(form[0], x)+" as x", a)
	w, werr := eval("return "+put(form[1], y)+" as x", a)
	assertSameResult(v, verr, w, werr, "signs")
}

// tests, indexes and string operators apply to the result of the one before them
func P36_PostfixChains() {
	ops := []string{" is null", " is not null", "[0]", "[0..1]", " in $l", " starts with 'a'", " in [true, false]", "[-1]", "[1..]"}
	n := 2 + vf.Choice("n", vf.Pick(1, 3))
	k := vf.Choice("operand", 5)
	x := []string{"$a", "$l", "$s", "null", "[[$a, $a], [$a]]"}[k]
	y := x
	for i := 0; i < n; i++ {
		o := ops[vf.Choice("op"+digit(i), len(ops))]
		x, y = x+o, "("+y+o+")"
	}
	a := operand("a", kInt, kBool)
	s := vf.Str("s", 0, 1, "ab")
	l := valueList(rv(a), rv(nil))
	mk := func() *oc.EvalContext { return bind(newCtx(), a).SetParameter("$s", rv(s)).SetParameter("$l", rv(l)) }
	v, verr := oc_eval(mk(), "return "+x+" as x")
	w, werr := oc_eval(mk(), "return "+y+" as x")
	assertSameResult(v, verr, w, werr, "postfix-chain")
}
