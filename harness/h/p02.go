package h

import (
	"errors"
	"math"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P02_DivideByZero", P02_DivideByZero)
var _ = vf.Reg("P02_Kinds", P02_Kinds)
var _ = vf.Reg("P02_KindsChain", P02_KindsChain)
var _ = vf.Reg("P02_Propagate", P02_Propagate)
var _ = vf.Reg("P02_PropagateQuery", P02_PropagateQuery)

// division by zero is an error exactly when the divisor is zero
func P02_DivideByZero() {
	op := "/%"[vf.Choice("op", 2)]
	a, b := num("a"), num("b")
	var v interface{}
	var err error
	switch vf.Choice("form", 5) {
	case 0:
		v, err = ret("$a "+string(rune(op))+" $b", a, b)
	case 1:
		v, err = ret("$a "+string(rune(op))+" $b * $c", a, b, vf.Int("c"))
	case 2:
		v, err = ret("$c - $a "+string(rune(op))+" $b + $c", a, b, vf.Int("c"))
	case 3:
		v, err = ret("$c * $a "+string(rune(op))+" $b", a, b, 1)
	case 4:
		v, err = ret("$a "+string(rune(op))+" $b + $c", a, b, nil)
	}
	vf.Assert(vf.Iff(err != nil, isZero(b)), "error-iff-zero")
	if err != nil {
		vf.Assert(errors.Is(err, oc.ErrDivideByZero), "which-error")
	}
	_ = v
}

var _ = vf.Reg("P02_DurationByZero", P02_DurationByZero)

// a duration divided by zero is an error, whichever kind of number the zero is
func P02_DurationByZero() {
	d := duration("d")
	var z interface{} = 0
	switch vf.Choice("zero", 4) {
	case 1:
		z = 0.0
	case 2:
		z = math.Copysign(0, -1)
	case 3:
		z = vf.Int("z")
		vf.Assume(z.(int) == 0)
	}
	_, err := ret([]string{"$a / $b", "$a / ($b * 1)", "2 * $a / $b", "$a / $b / 2", "$a / 2 / $b"}[vf.Choice("form", 5)], d, z)
	vf.Assert(err != nil && errors.Is(err, oc.ErrDivideByZero), "duration-by-zero")
}

// defined tells whether an arithmetic operator is defined for two non-null kinds.
func defined(op byte, a, b int) bool {
	isNum := func(k int) bool { return k == kInt || k == kFloat }
	isTemp := func(k int) bool { return k == kDate || k == kTime || k == kDateTime }
	if isNum(a) && isNum(b) {
		return true
	}
	switch op {
	case '+':
		return a == kStr && b == kStr || a == kList && b == kList ||
			a == kDur && (b == kDur || isTemp(b)) || isTemp(a) && b == kDur
	case '-':
		return a == kDur && b == kDur || isTemp(a) && b == kDur
	case '*':
		return a == kDur && isNum(b) || isNum(a) && b == kDur
	case '/':
		return a == kDur && isNum(b)
	}
	return false
}

// an operator applied to kinds it is not defined for is an error
func P02_Kinds() {
	op := opStr("op")
	ka, kb := 1+vf.Choice("ka", nKinds-1), 1+vf.Choice("kb", nKinds-1)
	if defined(op, ka, kb) {
		return
	}
	a, b := value(ka, "a"), value(kb, "b")
	_, err := ret("$a "+string(rune(op))+" $b", a, b)
	vf.Assert(err != nil, "undefined-kinds")
}

// ... whatever precedes or follows
func P02_KindsChain() {
	op := opStr("op")
	pair := [][2]int{{kStr, kInt}, {kInt, kStr}, {kBool, kInt}, {kInt, kBool}, {kDate, kDate}, {kMap, kInt}, {kList, kInt}, {kDur, kStr}, {kTime, kInt}, {kFloat, kDate}, {kNode, kInt}}[vf.Choice("pair", 11)]
	if defined(op, pair[0], pair[1]) {
		return
	}
	a, b := value(pair[0], "a"), value(pair[1], "b")
	c := value([]int{kNull, kInt, kStr, kList}[vf.Choice("kc", 4)], "c")
	var q string
	o := string(rune(op))
	switch vf.Choice("form", 5) {
	case 0:
		q = "($a " + o + " $b) + $c"
	case 1:
		q = "$c * ($a " + o + " $b)"
	case 2:
		q = "$c ^ ($a " + o + " $b)"
	case 3:
		o2 := map[byte]string{'+': "-", '-': "+", '*': "/", '/': "*", '%': "*", '^': "^"}[op]
		q = "$a " + o + " $b " + o2 + " $c"
	case 4:
		q = "$c - ($a " + o + " $b) - $c"
	}
	_, err := ret(q, a, b, c)
	vf.Assert(err != nil, "undefined-kinds-in-chain")
}

var errForms = []string{
	"[E, $x]", "[$x, E]", "{k: E}", "{j: $x, k: E}", "size([E])", "toInteger(E)", "left('abc', E)", "substring('abc', 1, E)",
	"E is null", "E is not null", "not (E = 1)", "E = $x", "$x = E", "$x < E", "1 <> E", "[1, 2][E]", "[E][0]",
	"[1, 2][E..2]", "[1, 2][0..E]", "[E, 2][0..1]", "1 in [2, E]", "(E) in [$x]", "'a' starts with (toString0(E))",
	"case when E = 1 then 2 else 3 end", "case E when 1 then 2 end", "case $x when E then 2 end",
	"case when true then E else 1 end", "case when false then 1 else E end", "case $x when $x then E end",
	"-(E)", "$x + (E)", "(E) - $x", "$x * (E)", "(E) % 2", "2 ^ (E)", "(E) ^ 2", "1 + 2 * (E) - 3",
	"(E = 1) and true", "true and (E = 1)", "(E = 1) or false", "false or (E = 1)", "(E = 1) xor true", "true xor (E = 1)",
	"range(1, E)", "range(E, 3, 1)", "(E) + null", "null + (E)", "E < $x < 3", "(E).p", "[[E]]", "{a: {b: [E]}}", "toFloat(-(E))", "((E))",
}

func subst(f, e string) string {
	out := ""
	for i := 0; i < len(f); i++ {
		if f[i] == 'E' {
			out += e
		} else {
			out += f[i : i+1]
		}
	}
	return out
}

// an error of an evaluated operand is the error of the enclosing expression
func P02_Propagate() {
	oc.RegisterGlobalFunc(oc.Function{Name: "toString0", MinArgs: 1, MaxArgs: 1, ValueFunc: func(ctx *oc.EvalContext, args []oc.Value) (oc.Value, error) {
		return rv("a"), nil
	}})
	f := errForms[vf.Choice("form", len(errForms))]
	x := vf.Int("x")
	var v interface{}
	var err error
	switch vf.Choice("err", 4) {
	case 0:
		v, err = eval2(subst(f, "($y / $z)"), x, vf.Int("y"), 0)
		vf.Assert(errors.Is(err, oc.ErrDivideByZero), "error-lost")
	case 1:
		v, err = eval2(subst(f, "nosuchvariable"), x, 0, 0)
		_, is := err.(oc.ErrUnknownVariable)
		vf.Assert(is, "error-lost")
	case 2:
		v, err = eval2(subst(f, "nosuchfunction($y)"), x, 0, 0)
		_, is := err.(oc.ErrUnknownFunction)
		vf.Assert(is, "error-lost")
	case 3:
		v, err = eval2(subst(f, "$nosuchparameter"), x, 0, 0)
		_, is := err.(oc.ErrUnknownParameter)
		vf.Assert(is, "error-lost")
	}
	_ = v
}

func eval2(expr string, x, y, z interface{}) (interface{}, error) {
	ctx := newCtx()
	ctx.SetParameter("$x", rv(x)).SetParameter("$y", rv(y)).SetParameter("$z", rv(z))
	v, err := oc.ParseAndEvaluate("return "+expr, ctx)
	if err != nil {
		return nil, err
	}
	return single(v), nil
}

var errQueries = []string{
	"match (n:L) where E = 1 return n", "match (n:L) where n.p = 1 and E = 1 return n", "match (n:L {p: E}) return n", "match (n)-[r:R {p: E}]->(m) return n",
	"match (n:L) return n, E", "match (n:L) return E as a, n", "return 1 skip E", "return 1 limit E", "match (n:L) return n limit E", "match (n) return n skip E",
	"create (m {p: E})", "create (m)-[r:R {p: E}]->(k)", "match (n:L) create (m {p: E}) return m", "merge (m:M {p: E})", "match (n:L) merge (m:M {p: E}) return m",
	"match (n:L) set n.p = E", "match (n:L) set n = {q: E}", "match (n:L) set n += {q: E} return n", "match (n:L) set n:X, n.p = E return n",
	"merge (m:M {p: 1}) on create set m.q = E", "match (n:L) merge (m:L) on match set m.q = E return m",
	"match (n:L) delete E", "return 1 as a union return E as a", "return E as a union all return 1 as a",
	"match (n:L), (m {p: E}) return n, m", "match (n:L) match (m {p: E}) return n, m",
}

// ... and of the query
func P02_PropagateQuery() {
	g := graphOf(2)
	g.nodes[0].SetLabels(lpg.NewStringSet("L"))
	g.nodes[0].SetProperty("p", 1)
	g.edge(0, 1, "R")
	q := subst(errQueries[vf.Choice("query", len(errQueries))], "($y / $z)")
	ctx := oc.NewEvalContext(g.g)
	ctx.SetParameter("$y", rv(vf.Int("y"))).SetParameter("$z", rv(0))
	_, err := oc.ParseAndEvaluate(q, ctx)
	vf.Assert(errors.Is(err, oc.ErrDivideByZero), "error-lost")
}

var _ = vf.Reg("P02_NullNeighbour", P02_NullNeighbour)

// a null operand does not hide the error of another one
func P02_NullNeighbour() {
	a := vf.Int("a")
	ops := []string{"+", "-", "*", "/", "%", "^"}
	o, p := ops[vf.Choice("op", 6)], ops[vf.Choice("op2", 6)]
	bad := []string{"($a / 0)", "($a % 0)", "toInteger('x')", "(true * $a)", "(-'x')"}[vf.Choice("bad", 5)]
	x := []string{"null", "$n", "$a"}
	q := ""
	switch vf.Choice("shape", 4) {
	case 0:
		q = x[vf.Choice("x", 3)] + " " + o + " " + bad
	case 1:
		q = bad + " " + o + " " + x[vf.Choice("x", 3)]
	case 2:
		q = x[vf.Choice("x", 3)] + " " + o + " " + x[vf.Choice("y", 3)] + " " + p + " " + bad
	case 3:
		q = x[vf.Choice("x", 3)] + " " + o + " " + bad + " " + p + " " + x[vf.Choice("y", 3)]
	}
	vf.Assume(a != 0)
	ctx := newCtx()
	ctx.SetParameter("$a", rv(a))
	ctx.SetParameter("$n", rv(nil))
	_, err := oc_eval(ctx, "return "+q)
	vf.Assert(err != nil, "null-neighbour")
}
