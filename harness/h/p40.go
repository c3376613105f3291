package h

import (
	"errors"
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P40_Expressions", P40_Expressions)
var _ = vf.Reg("P40_Rows", P40_Rows)
var _ = vf.Reg("P40_Updates", P40_Updates)
var _ = vf.Reg("P40_Clauses", P40_Clauses)
var _ = vf.Reg("P40_Unknown", P40_Unknown)
var _ = vf.Reg("P40_Unbound", P40_Unbound)
var _ = vf.Reg("P40_Operands", P40_Operands)
var _ = vf.Reg("P40_Kinds", P40_Kinds)
var _ = vf.Reg("P40_Elements", P40_Elements)

type boomError struct{}

func (*boomError) Error() string { return "boom" }

// boom registers boom(x, v), which fails when x is k, and is v otherwise.
func boom(k int) *spy {
	failed := &spy{}
	s := register("boom", 2, 2, form(), nil)
	s.f = func(a []interface{}) (oc.Value, error) {
		if x, ok := a[0].(int); ok && x == k {
			failed.calls = append(failed.calls, nil)
			return nil, &boomError{}
		}
		return rv(a[1]), nil
	}
	return failed
}

// assertFailure: the query fails exactly if the function failed, and with its error.
func (failed *spy) assertFailure(v oc.Value, err error, id string) {
	if len(failed.calls) == 0 {
		must(err, id+"-error-from-nowhere")
		vf.Assert(v != nil, id+"-no-result")
		return
	}
	vf.Assert(err != nil, id+"-error-lost")
	var b *boomError
	vf.Assert(errors.As(err, &b), id+"-error-replaced")
}

// @(v) in a text is a call with the given key.
func booming(text, key string) string { return strings.Replace(text, "@(", "boom("+key+", ", -1) }

var boomExprs = []string{
	"@(1) + 2", "1 + @(2)", "1 + 2 - @(3) + 4", "3 - @(1) - 1", "@(2) * 3", "2 * @(3) / 1", "7 % @(4)", "2 ^ @(3)", "@(2) ^ 2 ^ 1", "-@(1)", "+@(1)", "- (1 + @(1))",
	"@(1) < 2", "1 <= @(2)", "@(1) = @(1)", "1 <> @(2)", "@('a') > 'b'",
	"@(true) and false", "true and @(true)", "false and @(true)", "null and @(true)", "@(false) or true", "false or @(true)", "null or @(false)", "true or @(true)", "@(true) xor true", "false xor @(true)", "null xor @(true)", "not @(true)",
	"@(1) in [1]", "1 in @([1])", "1 in [2, @(1)]", "null in @([1])", "[1] + @([2])", "@([1]) + [2]", "[1, 2][@(0)]", "@([1, 2])[0]", "[1, 2][@(0)..]", "[1, 2][..@(1)]", "[1, 2][@(0)..@(1)]", "@([1, 2])[0..1]",
	"'abc' starts with @('a')", "@('abc') starts with 'a'", "'abc' ends with @('c')", "'abc' contains @('b')", "@('abc') contains 'b'",
	"@(1) is null", "@(1) is not null", "[@(1)]", "[1, @(2), 3]", "{k: @(1)}", "{k: 1, l: [@(2)]}", "(@(1))", "@(@(1))", "@(1) + @(2)",
	"case @(1) when 1 then 2 end", "case 1 when @(1) then 2 end", "case 1 when 2 then 3 when @(1) then 4 end", "case 1 when 1 then @(2) end", "case 1 when 2 then 3 else @(4) end", "case when @(true) then 1 end", "case when false then 1 when @(true) then 2 else 3 end", "case when true then @(1) else 2 end", "case when false then 1 else @(2) end", "case when true then 1 else @(2) end",
	"size(@('a'))", "left('abc', @(1))", "range(@(1), 2)", "range(1, @(2), 1)", "toInteger(@('1'))", "toFloat(@(1))", "toIntegerOrNull(@(1))", "trim(@(' a'))", "ltrim(@(' a'))", "rtrim(@(' a'))", "right(@('ab'), 1)", "toFloatOrNull(@('1'))", "split('a', @('b'))", "split(@('a'), 'b')", "substring('abc', @(1), 1)", "date(@('2020-01-01'))", "labels(@(null))",
	"@(1) + @(1) * @(1) - @(1)", "@(true) and @(false) or @(true)", "1 < @(2) and @(true)",
}

// an operand of any operator, element, alternative or argument
func P40_Expressions() {
	k, a := vf.Int("k"), vf.Int("a")
	text := boomExprs[vf.Choice("expr", len(boomExprs))]
	failed := boom(k)
	v, err := eval("return "+booming(text, "$a")+" as x", a)
	failed.assertFailure(v, err, "expression")
}

// any row of a query that reads
func P40_Rows() {
	g := graphOf(2)
	k := vf.Int("k")
	for i, n := range g.nodes {
		n.SetProperty("p", vf.Int("p"+digit(i)))
	}
	g.edge(0, 1, "R").SetProperty("p", vf.Int("w"))
	failed := boom(k)
	text := []string{
		"match (n) return @(n) as n", "match (n) where @(true) return n", "match (n) where n.p > 1 and @(true) return n.p", "match (n) where not @(true) return n",
		"match (n) return n, n.p, @(1)", "match (n) return n.p + @(1) as x", "match (n) match (m {q: @(1)}) return m", "match (n) match (n {p: @(1)}) return n", "match (n) match (n)-[r {p: @(1)}]->(m) return r", "match (n) match (n)-[r]->(m {p: @(1)}) return r",
		"match (n)-[r]->(m) where @(true) return r", "match (n) match (m) where @(true) return m", "match (n) match (m) return @(m) as m", "match (n) return n.p union all match (n) return @(1)", "match (n) return @(n.p) as x union match (n) return n.p as x",
		"match (n) where @(n.p) = 1 match (m) return m", "match (n) return case when @(true) then n.p else 1 end", "match (n), (m) where m.p = @(1) return m", "match (n) return *, @(1) as x", "match (n) where @(n.p) is null return n",
	}
	v, err := oc_eval(g.ctx(), booming(text[vf.Choice("query", len(text))], "n.p"))
	failed.assertFailure(v, err, "row")
}

// any expression of a clause that updates
func P40_Updates() {
	g := graphOf(2)
	k := vf.Int("k")
	for i, n := range g.nodes {
		n.SetProperty("p", vf.Int("p"+digit(i)))
	}
	failed := boom(k)
	text := []string{
		"match (n) set n.q = @(1)", "match (n) set n.q = 1, n.z = @(1)", "match (n) set n = @({q: 1})", "match (n) set n += @({q: 1})", "match (n) set n += {q: @(1)}", "match (n) set n = {q: 1, z: @(1)} return n",
		"match (n) create (n)-[:S {w: @(1)}]->(m) return m", "match (n) create (m {q: @(1)})", "match (n) create (m:B)-[:S]->(o {q: 1, z: @(1)})", "match (n) create (m:B), (o {q: @(1)})", "match (n) create (m) create (o {q: @(1)})",
		"match (n) merge (m:B {q: @(1)})", "match (n) merge (n)-[r:S {w: @(1)}]->(m) return m", "match (n) merge (m:B {q: 1}) on create set m.z = @(1)", "match (n) merge (m:B {q: 1}) on match set m.z = @(1)", "match (n) merge (m:B {q: 1}) on match set m.z = @(1) on create set m.y = @(2) return m", "match (n) merge (n)-[r:S]->(m {q: @(1)})", "match (n) merge (n) on match set n.q = @(1), n.z = 1",
		"match (n) delete @(n)", "match (n) detach delete @(n)", "match (n) set n.q = 1 return @(n) as n", "match (n) create (m:B) return @(m) as m", "match (n) remove n.q set n.z = @(1)", "match (n) set n.q = @(1) remove n.q return n", "match (n) set n:B return @(1)", "match (n) detach delete n return @(1)",
	}
	v, err := oc_eval(g.ctx(), booming(text[vf.Choice("query", len(text))], "n.p"))
	failed.assertFailure(v, err, "update")
}

// clauses without rows before them, SKIP and LIMIT, and both sides of UNION
func P40_Clauses() {
	g := graphOf(1)
	g.nodes[0].SetProperty("q", 1)
	k, a, b := vf.Int("k"), vf.Int("a"), vf.Int("b")
	failed := boom(k)
	text := []string{
		"match (n) return n skip @(0)", "match (n) return n limit @(1)", "match (n) return n skip @(0) limit @(1)", "return 1 skip @(0)", "return 1 limit @(1)", "create (n) return n limit @(1)", "match (n) set n.q = 1 return n skip @(0)",
		"match (n {q: @(1)}) return n", "match (n)-[r {q: @(1)}]->(m) return n", "match (n {q: 1})-[r]->(m {q: @(1)}) return n", "match (n), (m {q: @(1)}) return n", "match (n {q: 1, z: @(1)}) return n",
		"create (n {q: @(1)})", "create (n {q: 1, z: @(1)})-[:R {w: 1}]->(m) return n", "create (n)-[:R {w: @(1)}]->(m) return n", "create (n), (m {q: @(1)})", "create (n) create (m {q: @(1)})", "create (n) set n.q = @(1)", "create (n) return @(n) as n", "create (n) set n = {q: @(1)} return n",
		"merge (n {q: @(1)})", "merge (n:A {q: @(1)}) return n", "merge (n {q: 1})-[r:R {w: @(1)}]->(m)", "merge (n)-[r:R]->(m {q: @(1)}) return m", "merge (n {q: 1}) on match set n.z = @(1)", "merge (n {q: 2}) on create set n.z = @(1)", "merge (n {q: 1}) set n.z = @(1)", "merge (n {q: 1}) return @(n) as n", "merge (n {q: 2}) on create set n.z = 1 on match set n.z = @(2) return n",
		"return @(1) as x union return 1 as x", "return 1 as x union return @(1) as x", "return 1 as x union all return @(1) as x", "return @(1) as x union all return 2 as x", "return 1 as x union return 2 as x union all return @(1) as x", "create (n) return 1 as x union match (n) return @(1) as x",
		"return @(1), 2", "return 1, @(2)", "return @(1) as x, @(1) as y", "return 1 + 2, [1, {k: @(1)}]",
	}
	t := booming(text[vf.Choice("query", len(text))], "$a")
	if i := strings.LastIndex(t, "$a"); i != strings.Index(t, "$a") {
		t = t[:i] + "$b" + t[i+2:]
	}
	v, err := oc_eval(bind(g.ctx(), a, b), t)
	failed.assertFailure(v, err, "clause")
}

// an unknown parameter, function or variable anywhere that is evaluated
func P40_Unknown() {
	g := graphOf(1)
	g.nodes[0].SetProperty("q", 1)
	what := vf.Choice("what", 3)
	text := []string{
		"return @", "return 1, @", "return 1 + @", "return @ < 1", "return [1, @]", "return {k: @}", "return -@", "return not @", "return @ is null", "return case @ when 1 then 2 end", "return case when true then @ end", "return size(@)", "return [1, 2][@]", "return [1, 2][@..]", "return 1 in @", "return 'a' starts with @", "return @ ^ 2", "return 2 * @", "return true and @", "return false or @", "return true xor @",
		"match (n) where @ return n", "match (n) return @", "match (n) return n skip @", "match (n) return n limit @", "match (n {q: @}) return n", "match (n)-[r {q: @}]->() return n", "match (n) match (n {q: @}) return n",
		"create (n {q: @})", "create (n)-[:R {q: @}]->()", "match (n) set n.q = @", "match (n) set n = @", "match (n) set n += @", "merge (n {q: @})", "merge (n)-[:R {q: @}]->()", "merge (n {q: 1}) on match set n.q = @", "merge (n {q: 2}) on create set n.q = @", "match (n) delete @", "match (n) detach delete @", "return 1 union return @",
		"match (n @) return n", "match (n)-[r @]->() return n", "create (n @)", "create ()-[:R @]->()", "merge (n @)", "merge ()-[:R @]->()",
	}
	n := len(text)
	if what != 0 {
		n -= 6 // only parameters stand for a whole property map
	}
	q := strings.Replace(text[vf.Choice("query", n)], "@", []string{"$nosuch", "nosuch(1)", "nosuch"}[what], 1)
	v, err := oc_eval(g.ctx(), q)
	vf.Assert(err != nil && v == nil, "unknown-no-error")
	switch what {
	case 0:
		var e oc.ErrUnknownParameter
		vf.Assert(errors.As(err, &e), "unknown-parameter")
		vf.Assert(e.Key == "$nosuch", "unknown-parameter-name")
	case 1:
		var e oc.ErrUnknownFunction
		vf.Assert(errors.As(err, &e), "unknown-function")
		vf.Assert(e.Name == "nosuch", "unknown-function-name")
	case 2:
		var e oc.ErrUnknownVariable
		vf.Assert(errors.As(err, &e), "unknown-variable")
		vf.Assert(e.Name == "nosuch", "unknown-variable-name")
	}
}

// clauses that address a variable nobody bound
func P40_Unbound() {
	g := graphOf(2)
	text := []string{
		"return nosuch.p", "match (n) return nosuch.p", "match (n) where nosuch.p > 1 return n", "match (n) return n.p + nosuch.p", "return [nosuch.p]", "match (n {p: nosuch.p}) return n", "create (n {p: nosuch.p})",
		"match (n) set nosuch.p = 1", "match (n) set n.p = nosuch.p", "match (n) set nosuch = {p: 1}", "match (n) set nosuch += {p: 1}", "match (n) set nosuch:A", "match (n) set n = nosuch", "match (n) set n += nosuch", "create (n) set nosuch.p = 1", "create (n) set nosuch:A",
		"match (n) remove nosuch.p", "match (n) remove nosuch:A", "create (n) remove nosuch.p", "create (n) remove nosuch:A", "match (n) remove n.p, nosuch.p",
		"match (n) delete nosuch", "match (n) detach delete nosuch", "match (n) detach delete n, nosuch", "merge (n) on create set nosuch.p = 1 on match set nosuch.p = 1", "merge (n) on match set nosuch:A", "merge (n:Z) on create set nosuch:A", "merge (n:Z) on create set n = nosuch",
	}
	v, err := oc_eval(g.ctx(), text[vf.Choice("query", len(text))])
	vf.Assert(err != nil && v == nil, "unbound-no-error")
	var e oc.ErrUnknownVariable
	vf.Assert(errors.As(err, &e), "unbound-kind")
	vf.Assert(e.Name == "nosuch", "unbound-name")
}

// a value that is not an element cannot stand in a pattern, be assigned to, or be deleted;
// a value that is not a map cannot be assigned to a node
func P40_Kinds() {
	g := graphOf(2)
	g.edge(0, 1, "R")
	ctx := g.ctx()
	k := []int{kBool, kInt, kFloat, kStr, kList, kMap, kDur}[vf.Choice("kind", 7)]
	ctx.SetVar("v", rv(value(k, "v")))
	text := []string{
		"match (v) return v", "match (v:A) return v", "match (v)-[r]->(m) return m", "match (n)-[r]->(v) return n", "match (n)-[r]->(m), (v) return n", "match (n) match (v) return n", "match (n)-[v]->(m) return n", "match (n)-[v*1..2]->(m) return n",
		"create (v)-[:S]->(m)", "create (m)-[:S]->(v)", "match (n) create (n)-[:S]->(v)", "merge (v)", "merge (v)-[:S]->(m)", "match (n) merge (n)-[:S]->(v)", "merge (n)-[v:S]->(m)",
		"match (n) set v:A", "match (n) set v = {p: 1}", "match (n) set v += {p: 1}", "match (n) remove v:A", "match (n) delete v", "match (n) detach delete v",
		"match (n) where v.p = 1 return n", "match (n) set v.p = 1", "match (n) remove v.p",
		"match (n) set n = v", "match (n) set n += v", "merge (n) on match set n = v",
	}
	q := vf.Choice("query", len(text))
	if k == kMap && q >= len(text)-6 {
		return
	}
	v, err := oc_eval(ctx, text[q])
	if q != 19 && q != 20 { // deleting such a value is left open
		vf.Assert(err != nil && v == nil, "kind-no-error")
	}
	n, m, r := g.g.NumNodes(), g.g.NumEdges(), 0
	for _, x := range g.nodes {
		r += x.GetLabels().Len()
		x.ForEachProperty(func(string, interface{}) bool { r++; return true })
	}
	vf.Assert(n == 2 || q >= 8 && q < 15, "kind-nodes")
	vf.Assert(m == 1, "kind-relationships")
	vf.Assert(r == 0, "kind-changed")
}

// a node is not a relationship, and a relationship not a node
func P40_Elements() {
	g := graphOf(2)
	g.symEdges(2, []string{"R"})
	g.edge(0, 1, "R")
	text := []string{"match ()-[r]->() match (r) return r", "match ()-[r]->() match (r)-[s]->(m) return r", "match ()-[r]->() match (n)-[s]->(r) return r", "match ()-[r]->() match (n) match (r) return r", "match (n)-[r]->() merge (r)", "match ()-[r]->() merge (r)-[:S]->(m)", "match ()-[r]->() create (r)-[:S]->(m)"}
	v, err := oc_eval(g.ctx(), text[vf.Choice("query", len(text))])
	vf.Assert(err != nil && v == nil, "element-no-error")
}

// the kinds an operand or argument may have
var operandKinds = []struct {
	text  string
	kinds []int
}{
	{"1 in ['a', $a]", []int{}},
	{"1 in [$a]", []int{kNull, kInt, kFloat}},
	{"1 in $a", []int{kNull, kList}},
	{"case $a when 1 then 2 end", []int{kNull, kInt, kFloat}},
	{"case 1 when $a then 2 end", []int{kNull, kInt, kFloat}},
	{"case 'a' when $a then 2 end", []int{kNull, kStr}},
	{"range($a, 2)", []int{kInt}},
	{"range(1, $a)", []int{kInt}},
	{"range(1, 2, $a)", []int{kInt}},
	{"left($a, 1)", []int{kNull, kStr}},
	{"left('a', $a)", []int{kNull, kInt}},
	{"right($a, 1)", []int{kNull, kStr}},
	{"right('a', $a)", []int{kNull, kInt}},
	{"substring($a, 1)", []int{kNull, kStr}},
	{"substring('abc', $a)", []int{kNull, kInt}},
	{"substring('abc', 1, $a)", []int{kNull, kInt}},
	{"split($a, 'a')", []int{kNull, kStr}},
	{"split('a', $a)", []int{kNull, kStr}},
	{"trim($a)", []int{kNull, kStr}},
	{"ltrim($a)", []int{kNull, kStr}},
	{"rtrim($a)", []int{kNull, kStr}},
	{"toFloat($a)", []int{kNull, kInt, kFloat, kStr}},
	{"toInteger($a)", []int{kNull, kInt, kFloat, kBool, kStr}},
	{"date($a)", []int{kNull, kStr, kMap}},
	{"date({year: $a})", []int{kNull, kInt}},
	{"date({year: 2020, month: $a})", []int{kNull, kInt}},
	{"date({year: 2020, month: 1, day: $a})", []int{kNull, kInt}},
	{"date({timezone: $a})", []int{kStr}},
	{"parseDate($a, 'YYYY')", []int{kNull, kStr}},
	{"parseDate('2020', $a)", []int{kNull, kStr}},
	{"labels($a)", []int{kNull, kNode}},
	{"type($a)", []int{kNull, kPath}},
	{"-$a", []int{kNull, kInt, kFloat}},
	{"not $a", []int{kNull, kBool}},
	{"$a and true", []int{kNull, kBool}},
	{"true and $a", []int{kNull, kBool}},
	{"true xor $a", []int{kNull, kBool}},
	{"$a xor false", []int{kNull, kBool}},
	{"$a or false", []int{kNull, kBool}},
	{"false or $a", []int{kNull, kBool}},
	{"1 - $a", []int{kNull, kInt, kFloat}},
	{"$a - 1", []int{kNull, kInt, kFloat}},
	{"1.5 + $a", []int{kNull, kInt, kFloat}},
	{"2 / $a", []int{kNull, kInt, kFloat, kDur}},
	{"$a / 2", []int{kNull, kInt, kFloat, kDur}},
	{"2 * $a", []int{kNull, kInt, kFloat, kDur}},
	{"$a * 2", []int{kNull, kInt, kFloat, kDur}},
	{"7 % $a", []int{kNull, kInt, kFloat}},
	{"$a % 7", []int{kNull, kInt, kFloat}},
	{"2 ^ $a", []int{kNull, kInt, kFloat}},
	{"$a ^ 2", []int{kNull, kInt, kFloat}},
	{"1 + 2 + $a", []int{kNull, kInt, kFloat}},
	{"1 < $a", []int{kNull, kInt, kFloat}},
	{"$a >= 1", []int{kNull, kInt, kFloat}},
	{"$a = 1", []int{kNull, kInt, kFloat}},
	{"'a' <> $a", []int{kNull, kStr}},
	{"'a' + $a", []int{kNull, kStr}},
	{"true = $a", []int{kNull, kBool}},
	{"'a' starts with $a", []int{kNull, kStr}},
	{"$a starts with 'a'", []int{kNull, kStr}},
	{"'a' ends with $a", []int{kNull, kStr}},
	{"$a ends with 'a'", []int{kNull, kStr}},
	{"'a' contains $a", []int{kNull, kStr}},
	{"$a contains 'a'", []int{kNull, kStr}},
	{"[1, 2][$a]", []int{kNull, kInt}},
	{"[1, 2][$a..]", []int{kNull, kInt}},
	{"[1, 2][..$a]", []int{kNull, kInt}},
	{"[1, 2][0..$a]", []int{kNull, kInt}},
	{"$a[0]", []int{kNull, kList}},
	{"$a[0..1]", []int{kNull, kList}},
	{"case when $a then 1 end", []int{kNull, kBool}},
	{"case when false then 1 when $a then 1 end", []int{kNull, kBool}},
	{"$a.k", []int{kNull, kNode, kPath, kMap}},
	{"[1] + $a", []int{kNull, kList}},
	// operands that would not be needed for the result
	{"[][$a]", []int{kNull, kInt}},
	{"[][$a..]", []int{kNull, kInt}},
	{"[][..$a]", []int{kNull, kInt}},
	{"[][0..$a]", []int{kNull, kInt}},
	{"[] + $a", []int{kNull, kList}},
	{"$a + []", []int{kNull, kList}},
	{"'' + $a", []int{kNull, kStr}},
	{"'' starts with $a", []int{kNull, kStr}},
	{"$a contains ''", []int{kNull, kStr}},
	{"left('', $a)", []int{kNull, kInt}},
	{"left($a, 0)", []int{kNull, kStr}},
	{"right('', $a)", []int{kNull, kInt}},
	{"right($a, 0)", []int{kNull, kStr}},
	{"substring('', $a)", []int{kNull, kInt}},
	{"substring($a, 0)", []int{kNull, kStr}},
	{"substring('', 0, $a)", []int{kNull, kInt}},
	{"split('', $a)", []int{kNull, kStr}},
	{"split($a, '')", []int{kNull, kStr}},
	{"0 * $a", []int{kNull, kInt, kFloat, kDur}},
	{"0 + $a", []int{kNull, kInt, kFloat}},
	{"$a - 0", []int{kNull, kInt, kFloat}},
	{"$a / 1", []int{kNull, kInt, kFloat, kDur}},
	{"$a ^ 0", []int{kNull, kInt, kFloat}},
	{"1 ^ $a", []int{kNull, kInt, kFloat}},
	{"$a ^ 1", []int{kNull, kInt, kFloat}},
	{"range($a, $a)", []int{kInt}},
	{"range(1, 1, $a)", []int{kInt}},
	{"range(2, 1, $a)", []int{kInt}},
	{"1 > 2 = $a", []int{kNull, kInt, kFloat}},
}

// an operand or argument of any other kind is an error
func P40_Operands() {
	t := operandKinds[vf.Choice("operand", len(operandKinds))]
	k := vf.Choice("kind", kSet)
	for _, x := range t.kinds {
		vf.Assume(x != k)
	}
	g := graphOf(2)
	g.edge(0, 1, "R")
	var a interface{}
	switch k {
	case kNode:
		a = g.nodes[0]
	case kPath:
		a = lpg.NewPathFromElements(lpg.PathElement{Edge: g.edges[0]})
	default:
		a = value(k, "a")
	}
	v, err := oc_eval(bind(g.ctx(), a), "return "+t.text)
	vf.Assert(err != nil && v == nil, "operand-no-error")
}
