package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P33_Decimal", P33_Decimal)
var _ = vf.Reg("P33_DecimalLong", P33_DecimalLong)
var _ = vf.Reg("P33_DecimalLimit", P33_DecimalLimit)
var _ = vf.Reg("P33_Octal", P33_Octal)
var _ = vf.Reg("P33_OctalLong", P33_OctalLong)
var _ = vf.Reg("P33_Hex", P33_Hex)
var _ = vf.Reg("P33_HexLong", P33_HexLong)
var _ = vf.Reg("P33_Real", P33_Real)
var _ = vf.Reg("P33_Exponent", P33_Exponent)
var _ = vf.Reg("P33_Extremes", P33_Extremes)
var _ = vf.Reg("P33_Positions", P33_Positions)
var _ = vf.Reg("P33_RealPositions", P33_RealPositions)
var _ = vf.Reg("P33_Patterns", P33_Patterns)
var _ = vf.Reg("P33_Updates", P33_Updates)

// horner is the number the digits spell in the base; they have to fit.
func horner(s string, base uint64) uint64 {
	n := uint64(0)
	for i := 0; i < len(s); i++ {
		c := s[i]
		d := uint64(c - '0')
		if base == 16 && c > '9' {
			d = uint64(c|32) - 'a' + 10
		}
		n = n*base + d
	}
	return n
}

func assertLiteral(text string, want interface{}, id string) {
	v, err := ret(text)
	must(err, id+"-error")
	assertNum(v, want, id)
}

func assertNoLiteral(text, id string) {
	_, err := ret(text)
	vf.Assert(err != nil, id+"-accepted")
	_, err = oc.Parse("return " + text)
	vf.Assert(err != nil, id+"-parsed")
}

// digits is a string of n characters of a class; in the quick tier those in the
// middle of a long one are fixed.
func digits(n int, class string, middle string) string {
	if n <= 8 || vf.Pick(0, 1) == 1 {
		return vf.Str("s", n, n, class)
	}
	s := vf.Str("s", 3, 3, class)
	for len(s) < n-2 {
		s += middle
	}
	return s + vf.Str("t", 2, 2, class)
}

// every digit string
func P33_Decimal() {
	s := vf.Str("s", 1, vf.Pick(4, 6), "0-9")
	if len(s) > 1 && s[0] == '0' {
		// octal, when all digits are
		for i := range s {
			if s[i] >= '8' {
				assertNoLiteral(s, "not-octal")
				return
			}
		}
		assertLiteral(s, int(horner(s, 8)), "octal")
		return
	}
	assertLiteral(s, int(horner(s, 10)), "decimal")
}

// up to 19 digits; the digits are of one lexical class so that only their values vary
func P33_DecimalLong() {
	n := 5 + vf.Choice("n", 15)
	class := []string{"1-7", "8-9"}[vf.Choice("class", 2)]
	vf.Assume(!(class == "8-9" && n > 18))
	s := digits(n, class, class[2:])
	assertLiteral(s, int(horner(s, 10)), "decimal")
}

// around the largest integer
func P33_DecimalLimit() {
	switch vf.Choice("case", 4) {
	case 0:
		s := vf.Str("s", 2, 2, "0-9")
		t := "92233720368547758" + s
		if horner(s, 10) <= 7 {
			assertLiteral(t, int(horner(t, 10)), "limit")
		} else {
			assertNoLiteral(t, "over")
		}
	case 1:
		assertNoLiteral("9"+digits(18, "3-7", "5"), "over")
	case 2:
		assertNoLiteral(digits(20+vf.Choice("n", vf.Pick(2, 5)), "1-7", "1"), "over")
	case 3:
		s := "-922337203685477580" + vf.Str("s", 1, 1, "0-9")
		if s[len(s)-1] <= '7' {
			assertLiteral(s, -int(horner(s[1:], 10)), "negative-limit")
		} else {
			assertNoLiteral(s, "negative-over")
		}
	}
}

func P33_Octal() {
	s := "0" + vf.Str("s", 1, vf.Pick(3, 5), "0-9")
	for i := range s {
		if s[i] >= '8' {
			assertNoLiteral(s, "not-octal")
			return
		}
	}
	assertLiteral(s, int(horner(s, 8)), "octal")
}

func P33_OctalLong() {
	n := []int{0, 1, 9, 19, 20, 21, 22, 23, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13, 14, 15, 16, 17, 18}[vf.Choice("n", vf.Pick(8, 24))]
	s := digits(n, "1-7", "5")
	z := "0000"[:1+vf.Choice("zeros", 4)]
	switch {
	case n == 0 && len(z) == 1:
		assertLiteral(z, 0, "zero")
	case n <= 21:
		assertLiteral(z+s, int(horner(s, 8)), "octal")
	default:
		assertNoLiteral(z+s, "over")
	}
}

func P33_Hex() {
	s := vf.Str("s", 1, vf.Pick(2, 3), "0-9a-fA-F")
	assertLiteral("0x"+s, int(horner(s, 16)), "hex")
}

func P33_HexLong() {
	n := []int{0, 1, 9, 14, 15, 16, 17, 18, 2, 3, 4, 5, 6, 7, 8, 10, 11, 12, 13}[vf.Choice("n", vf.Pick(8, 19))]
	class := []string{"1-7", "8-9", "c-d", "C-D", "0"}[vf.Choice("class", 5)]
	s := digits(n, class, class[:1])
	switch {
	case n == 0:
		assertNoLiteral("0x"+s, "empty")
	case class == "0":
		assertLiteral("0x"+s+"7fffffffffffffff", 9223372036854775807, "zeros")
	case n <= 15 || n == 16 && class == "1-7":
		assertLiteral("0x"+s, int(horner(s, 16)), "hex")
	default:
		assertNoLiteral("0x"+s, "over")
	}
}

func pow10(n int) float64 {
	f := 1.0
	for ; n > 0; n-- {
		f *= 10
	}
	return f
}

// with a decimal point: the numerator and the power of ten are exact
func P33_Real() {
	a, b := vf.Str("a", 0, vf.Pick(2, 3), "0-9"), vf.Str("b", 1, vf.Pick(2, 3), "0-9")
	assertLiteral(a+"."+b, float64(horner(a+b, 10))/pow10(len(b)), "real")
}

func P33_Exponent() {
	a, b := vf.Str("a", 0, vf.Pick(1, 2), "0-9"), vf.Str("b", 0, vf.Pick(1, 2), "0-9")
	vf.Assume(len(a)+len(b) > 0)
	t := a
	if len(b) > 0 {
		t += "." + b
	}
	x := []int{0, 1, 3, 12, 2, 4, 5, 6, 7, 8, 9, 10, 11, 13, 14, 15, 16, 17, 18, 19}[vf.Choice("exp", vf.Pick(4, 20))]
	neg := vf.Choice("neg", 2) == 1
	t += []string{"e", "E"}[vf.Choice("e", 2)]
	if neg {
		t += "-"
		x = -x
	}
	n := x
	if n < 0 {
		n = -n
	}
	if vf.Choice("zero", 2) == 1 || n > 9 {
		t += digit(n / 10)
	}
	t += digit(n % 10)
	m := float64(horner(a+b, 10))
	x -= len(b)
	if x < 0 {
		m /= pow10(-x)
	} else {
		m *= pow10(x)
	}
	assertLiteral(t, m, "exponent")
}

// particular literals at the ends of the range of doubles, and malformed ones
func P33_Extremes() {
	good := []struct {
		text string
		v    float64
	}{
		{"1.7976931348623157e308", 1.7976931348623157e308}, {"5e-324", 5e-324}, {"2.2250738585072014e-308", 2.2250738585072014e-308},
		{"1e-400", 0}, {"0.1", 0.1}, {"9007199254740993.0", 9007199254740992}, {"123456789012345678901234567890.0", 123456789012345678901234567890.0},
		{"0.30000000000000004", 0.30000000000000004}, {"1e22", 1e22}, {"1e23", 1e23}, {".5", 0.5}, {"007.5", 7.5}, {"0e0", 0}, {"089e1", 890}, {"-1.5", -1.5}, {"-.25e2", -25},
	}
	bad := []string{"1e309", "1.8e308", "1e99999", "1e", "1e+5", "1.e5", ".", ".e1", "0x", "0xg", "0x1.5", "09", "1_000", "0b1", "1.2.3", "1e5.5", "0X1F", "00x1", "12abc"}
	k := vf.Choice("k", len(good)+len(bad))
	if k < len(good) {
		assertLiteral(good[k].text, good[k].v, "real")
		return
	}
	// some of these are several tokens; 1.e5 looks up a property of a number
	_, err := ret(bad[k-len(good)])
	vf.Assert(err != nil, "malformed-accepted")
}

// a literal with symbolic digits in some notation, with its value
func literal() (string, int) {
	s := vf.Str("d", 2, 2, "1-7")
	switch vf.Choice("notation", 3) {
	case 1:
		return "0" + s, int(horner(s, 8))
	case 2:
		return "0x" + s, int(horner(s, 16))
	}
	return s, int(horner(s, 10))
}

// every position of an expression
func P33_Positions() {
	l, v := literal()
	a := vf.Int("a")
	ctx := bind(newCtx(), a)
	one := func(q string) interface{} {
		r, err := oc_eval(ctx, q)
		must(err, "error")
		return single(r)
	}
	switch vf.Choice("position", 16) {
	case 0:
		assertNum(one("return -"+l), -v, "negated")
	case 1:
		assertNum(one("return $a+"+l), a+v, "added")
	case 2:
		assertNum(one("return "+l+"-$a"), v-a, "subtracted")
	case 3:
		assertNum(one("return ["+l+",1]["+"0]"), v, "in-list")
	case 4:
		assertNum(one("return [1,"+l+"][1]"), v, "in-list")
	case 5:
		r := one("return {k:" + l + ",j:1}").(map[string]oc.Value)
		assertNum(r["k"].Get(), v, "in-map")
	case 6:
		assertNum(one("return toInteger("+l+")"), v, "argument")
	case 7:
		vf.Assert(one("return $a<"+l) == interface{}(a < v), "compared")
	case 8:
		vf.Assert(one("return "+l+"=$a") == interface{}(v == a), "compared")
	case 9:
		assertNum(one("return case when true then "+l+" else 1 end"), v, "in-case")
	case 10:
		vf.Assert(one("return case $a when "+l+" then true else false end") == interface{}(a == v), "case-test")
	case 11:
		assertNum(one("return ("+l+")*2"), 2*v, "in-parentheses")
	case 12:
		assertNum(one("return 5 as x union all return "+l+" as x limit 0"), 5, "unused")
	case 13:
		vf.Assert(one("return $a in [0,"+l+"]") == interface{}(vf.Or(a == 0, a == v)), "in-operator")
	case 14:
		vf.Assume(v < 12)
		assertNum(one("return [0,1,2,3,4,5,6,7,8,9,10,11]["+l+"]"), v, "index")
	case 15:
		vf.Assume(v < 12)
		r := one("return [0,1,2,3,4,5,6,7,8,9,10,11][" + l + "..]").([]oc.Value)
		vf.Assert(len(r) == 12-v, "slice")
	}
}

func P33_RealPositions() {
	s := vf.Str("d", 2, 2, "1-7")
	l := s[:1] + "." + s[1:]
	v := float64(horner(s, 10)) / 10
	a := vf.Int("a")
	vf.Assume(vf.And(a > -100, a < 100))
	ctx := bind(newCtx(), a)
	one := func(q string) interface{} {
		r, err := oc_eval(ctx, q)
		must(err, "error")
		return single(r)
	}
	switch vf.Choice("position", 6) {
	case 0:
		assertNum(one("return -"+l), -v, "negated")
	case 1:
		assertNum(one("return ["+l+"][0]"), v, "in-list")
	case 2:
		vf.Assert(one("return $a<"+l) == interface{}(float64(a) < v), "compared")
	case 3:
		assertNum(one("return case when false then 1 else "+l+" end"), v, "in-case")
	case 4:
		r := one("return {k: " + l + "}").(map[string]oc.Value)
		assertNum(r["k"].Get(), v, "in-map")
	case 5:
		assertNum(one("return toFloat("+l+")"), v, "argument")
	}
}

// in patterns, conditions and result windows
func P33_Patterns() {
	l, v := literal()
	g := graphOf(2)
	g.symProps("p", false)
	n := 0
	count := func(q string, want int, id string) {
		r, err := oc_eval(g.ctx(), q)
		must(err, "error")
		vf.Assert(len(rows(r).Rows) == want, id)
	}
	p0, p1 := g.nodes[0], g.nodes[1]
	val := func(x *lpg.Node) int { p, _ := x.GetProperty("p"); return native(p).(int) }
	switch vf.Choice("position", 4) {
	case 0:
		if val(p0) == v {
			n++
		}
		if val(p1) == v {
			n++
		}
		count("match (n {p:"+l+"}) return n", n, "property")
	case 1:
		if val(p0) > v {
			n++
		}
		if val(p1) > v {
			n++
		}
		count("match (n) where n.p>"+l+" return n", n, "where")
	case 2:
		vf.Assume(v < 12)
		count("return 1 union all return 1 limit "+l, 2, "limit")
		count("match (n) return n skip "+l, 0, "skip")
	case 3:
		g.edge(0, 1, "R")
		vf.Assume(v > 1)
		count("match (n)-[*"+l+"]->(m) return n", 0, "hops")
		count("match (n)-[*1.."+l+"]->(m) return n", 1, "hops-range")
	}
}

func P33_Updates() {
	l, v := literal()
	g := graphOf(1)
	want := takeSnap(g.g)
	switch vf.Choice("position", 4) {
	case 0:
		rs := run(g.ctx(), "create (n {p:"+l+"}) return n as n")
		want.newNode(rs[0]["n"], nil, props{"p": v}, "created")
	case 1:
		run(g.ctx(), "match (n) set n.p="+l+",n.q=-"+l)
		want.nodes[0].props["p"], want.nodes[0].props["q"] = v, -v
	case 2:
		rs := run(g.ctx(), "merge (n:A {p: "+l+"}) return n as n")
		want.newNode(rs[0]["n"], []string{"A"}, props{"p": v}, "merged")
	case 3:
		run(g.ctx(), "match (n) set n+={p:"+l+"}")
		want.nodes[0].props["p"] = v
	}
	assertSame(g.g, want, "literal")
}
