package h

import (
	"time"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P30_Binary", P30_Binary)
var _ = vf.Reg("P30_Unary", P30_Unary)
var _ = vf.Reg("P30_Paths", P30_Paths)
var _ = vf.Reg("P30_Index", P30_Index)
var _ = vf.Reg("P30_Slice", P30_Slice)
var _ = vf.Reg("P30_Case", P30_Case)
var _ = vf.Reg("P30_Functions", P30_Functions)
var _ = vf.Reg("P30_StringFunctions", P30_StringFunctions)
var _ = vf.Reg("P30_Parameters", P30_Parameters)
var _ = vf.Reg("P30_Variables", P30_Variables)
var _ = vf.Reg("P30_Deleted", P30_Deleted)
var _ = vf.Reg("P30_Limits", P30_Limits)
var _ = vf.Reg("P30_Prefixes", P30_Prefixes)
var _ = vf.Reg("P30_Malformed", P30_Malformed)

// Every harness of this file asserts that nothing panics (a panic that is not
// caught is a violation) and that a call gives a value or an error.

func attempt(q string, ctx *oc.EvalContext) (oc.Value, error) {
	v, err := oc.ParseAndEvaluate(q, ctx)
	vf.Assert(vf.Or(err != nil, v != nil), "value-or-error")
	return v, err
}

// tiny is a value of the kind from a small domain; it is used where the library
// compares values by their texts.
func tiny(kind int, name string) interface{} {
	switch kind {
	case kInt:
		return vf.IntRange(name, -2, 2)
	case kFloat:
		return []float64{0, -1.5, 1e300}[vf.Choice(name, 3)]
	case kDur:
		return oc.Duration{Months: int64(vf.Choice(name, 2)), Seconds: -3, Nanos: 7}
	case kDate:
		return oc.Date(time.Unix(0, 0))
	case kTime:
		return oc.LocalTime(time.Unix(3600, 5))
	case kDateTime:
		return oc.LocalDateTime(time.Unix(-86401, 0))
	case kList:
		return []oc.Value{rv(vf.IntRange(name, -2, 2)), rv(nil)}
	case kMap:
		return map[string]oc.Value{"k": rv(vf.IntRange(name, -2, 2))}
	case kNode:
		return lpg.NewGraph().NewNode([]string{"L"}, map[string]interface{}{"p": vf.IntRange(name, -2, 2)})
	case kPath:
		g := lpg.NewGraph()
		n := g.NewNode([]string{"L"}, nil)
		return lpg.NewPathFromElements(lpg.PathElement{Edge: g.NewEdge(n, n, "R", map[string]interface{}{"p": vf.IntRange(name, -2, 2)})})
	}
	return value(kind, name)
}

// every operator on every pair of kinds
func P30_Binary() {
	ops := []string{"+", "-", "*", "/", "%", "^", "=", "<>", "<", "<=", ">", ">=", "and", "or", "xor", "in", "starts with", "ends with", "contains"}
	op := ops[vf.Choice("op", len(ops))]
	ka, kb := vf.Choice("a.kind", nKinds), vf.Choice("b.kind", nKinds)
	// a temporal value and a duration: P11
	vf.Assume(!(ka == kDur && kb >= kDate && kb <= kDateTime || kb == kDur && ka >= kDate && ka <= kDateTime))
	a, b := value(ka, "a"), value(kb, "b")
	attempt("return $a "+op+" $b", bind(newCtx(), a, b))
}

func P30_Unary() {
	text := []string{"-$a", "+$a", "not $a", "$a is null", "$a is not null", "[$a, $a]", "{k: $a}", "$a.p", "$a.k", "$a = $a", "[$a] = [$a]", "$a + [$a]", "[$a] + $a", "$a in [$a]", "$a in $a", "($a)", "- - $a", "not not $a"}
	attempt("return "+text[vf.Choice("text", len(text))], bind(newCtx(), value(vf.Choice("a.kind", nKinds), "a")))
}

// paths of no, one and several relationships
func aPath(name string) interface{} {
	g := lpg.NewGraph()
	n, m := g.NewNode([]string{"L"}, nil), g.NewNode(nil, nil)
	e, f := g.NewEdge(n, m, "R", map[string]interface{}{"p": vf.Int(name + ".p")}), g.NewEdge(m, n, "S", nil)
	switch vf.Choice(name+".path", 5) {
	case 0:
		return &lpg.Path{}
	case 1:
		return lpg.NewPathFromElements(lpg.PathElement{Edge: e})
	case 2:
		return lpg.NewPathFromElements(lpg.PathElement{Edge: e}, lpg.PathElement{Edge: f})
	case 3:
		return lpg.NewPathFromElements(lpg.PathElement{Edge: e, Reverse: true})
	}
	// what a query binds
	rs := run(oc.NewEvalContext(g), "create p = (:L)<-[:R]-()-[:R]->() return p as p")
	return rs[0]["p"]
}

func P30_Paths() {
	a := aPath("a")
	text := []string{
		"type($a)", "labels($a)", "size($a)", "$a.p", "$a.q", "$a is null", "not $a", "-$a", "$a + $a", "$a = $a", "$a <> $a", "$a in [$a]", "[$a] = [$a]",
		"$a[0]", "$a[0..1]", "case $a when $a then 1 end", "case when $a then 1 end", "{k: $a}.k", "$a and true", "toInteger($a)", "toFloatOrNull($a)", "left($a, 1)", "$a < $a", "'x' + $a", "$a =~ 'x'",
	}
	attempt("return "+text[vf.Choice("text", len(text))], bind(newCtx(), a))
}

var _ = vf.Reg("P30_Relationships", P30_Relationships)

// no, one and several relationships, as the library's own lists
func P30_Relationships() {
	g := lpg.NewGraph()
	n, m := g.NewNode([]string{"L"}, nil), g.NewNode(nil, nil)
	e, f := g.NewEdge(n, m, "R", map[string]interface{}{"p": vf.Int("p")}), g.NewEdge(m, n, "S", nil)
	ctx := oc.NewEvalContext(g)
	a := []interface{}{[]*lpg.Edge{}, []*lpg.Edge(nil), []*lpg.Edge{e}, []*lpg.Edge{f, e}, e, []oc.Value{rv(e), rv(nil)}, []oc.Value{}, []oc.Value{rv([]*lpg.Edge{e})}, map[string]oc.Value(nil), []oc.Value(nil)}[vf.Choice("a", 10)]
	ctx.SetParameter("$a", rv(a))
	ctx.SetVar("a", rv(a))
	text := []string{
		"return $a.p", "return $a.p.q", "return a.p", "return $a", "return type($a)", "return labels($a)", "return size($a)", "return $a is null", "return not $a", "return -$a", "return $a + $a", "return $a = $a", "return $a in [$a]", "return $a[0]", "return $a[0..1]",
		"match (n)-[a]->(m) return n", "match (n)-[a]-(m) return a", "match (n) set n.p = $a return n.p", "set a.p = 1", "remove a.p", "delete a", "detach delete a", "delete $a", "return case when $a then 1 else 2 end", "return $a < $a", "return a as a union return a as a",
	}
	attempt(text[vf.Choice("text", len(text))], ctx)
}

func P30_Index() {
	a, b := value(vf.Choice("a.kind", nKinds), "a"), value(vf.Choice("b.kind", nKinds), "b")
	text := []string{"$a[$b]", "[$a, 1, 2][$b]", "{k: $a}[$b]"}
	attempt("return "+text[vf.Choice("text", 3)], bind(newCtx(), a, b))
}

func P30_Slice() {
	a := value([]int{kNull, kInt, kStr, kList, kMap, kNode}[vf.Choice("a.kind", 6)], "a")
	b, c := value(vf.Choice("b.kind", kDate), "b"), value(vf.Choice("c.kind", kDate), "c")
	text := []string{"$a[$b..$c]", "$a[$b..]", "$a[..$c]", "[1, $a, 3][$b..$c]", "$a[..]"}
	attempt("return "+text[vf.Choice("text", 5)], bind(newCtx(), a, b, c))
}

func P30_Case() {
	a, b, c := value(vf.Choice("a.kind", nKinds), "a"), value(vf.Choice("b.kind", nKinds), "b"), vf.Int("c")
	text := []string{"case $a when $b then $c else 1 end", "case when $a then $c when $b then 1 end", "case $a when 1 then $b when $c then 2 end"}
	attempt("return "+text[vf.Choice("text", 3)], bind(newCtx(), a, b, c))
}

// every function on every kind
func P30_Functions() {
	fs := []struct {
		name     string
		min, max int
	}{
		{"labels", 1, 1}, {"type", 1, 1}, {"size", 1, 1}, {"toInteger", 1, 1}, {"toIntegerOrNull", 1, 1}, {"toFloat", 1, 1}, {"toFloatOrNull", 1, 1},
		{"left", 2, 2}, {"right", 2, 2}, {"split", 2, 2}, {"trim", 1, 1}, {"ltrim", 1, 1}, {"rtrim", 1, 1}, {"substring", 2, 3}, {"date", 1, 1}, {"parseDate", 2, 2},
	}
	f := fs[vf.Choice("function", len(fs))]
	k := f.min + vf.Choice("optional", f.max-f.min+1)
	var args []interface{}
	for i := 0; i < k; i++ {
		n := "arg" + digit(i)
		kind := vf.Choice(n+".kind", nKinds)
		if i > 1 {
			kind = []int{kNull, kInt, kStr}[vf.Choice(n+".kind3", 3)]
		}
		if (f.name == "date" || f.name == "parseDate") && kind == kStr {
			args = append(args, []string{"", "2020-01-02", "x", "2006-01-02"}[vf.Choice(n+".text", 4)])
			continue
		}
		if kind == kStr { // longer ones below
			args = append(args, vf.Str(n, 0, 1, ""))
			continue
		}
		args = append(args, value(kind, n))
	}
	attempt("return "+callText(f.name, k), bind(newCtx(), args...))
}

func P30_StringFunctions() {
	f := []string{"left($a, $b)", "right($a, $b)", "substring($a, $b)", "substring($a, $b, $c)", "split($a, $d)", "trim($a)", "ltrim($a)", "rtrim($a)", "size($a)", "toInteger($a)", "range($b, $b + 3)", "range($b, $b - 3, -1)"}
	attempt("return "+f[vf.Choice("function", len(f))], bind(newCtx(), vf.Str("a", 0, vf.Pick(2, 3), ""), vf.Int("b"), vf.Int("c"), vf.Str("d", 0, 1, "")))
}

// parameters of every kind wherever a query takes a value
func P30_Parameters() {
	g := graphOf(2)
	g.nodes[0].SetProperty("p", vf.IntRange("p", -2, 2))
	g.edge(0, 1, "R").SetProperty("w", 1)
	q := []string{
		"match (n {p: $a}) return n", "match (n)-[r {w: $a}]->(m) return r", "match (n) where $a return n", "match (n) where n.p = $a return n", "match (n) where n.p < $a or $a return n",
		"create (n {p: $a}) return n", "create (n)-[:R {p: $a}]->(m) return n", "match (n) set n.p = $a return n", "match (n) set n = {q: $a} return n", "match (n) set n += {q: $a} return n",
		"merge (n {p: $a}) return n", "merge (n {p: $a}) on match set n.q = $a on create set n.z = $a return n", "merge (n)-[r:S {p: $a}]->(m) return n",
		"match (n $a) return n", "create (n $a) return n", "match (n) set n = $a return n", "match (n) set n += $a return n", "merge (n $a) return n",
		"match (n) delete $a return 1", "match (n) return n skip $a", "match (n) return n limit $a", "return $a.p, $a.q", "match (n) return n.p + $a, $a", "return $a union return $a", "return $a union all return 1", "return $nosuch", "match (n)-[r]->(m) set r.p = $a return r",
	}
	attempt(q[vf.Choice("query", len(q))], bind(g.ctx(), tiny(vf.Choice("a.kind", nKinds), "a")))
}

// variables of every kind wherever a query uses a variable
func P30_Variables() {
	g := graphOf(2)
	g.edge(0, 1, "R")
	ctx := g.ctx()
	k := vf.Choice("kind", nKinds+1)
	switch k {
	case kNode: // of this graph
		ctx.SetVar("v", rv(g.nodes[0]))
	case kPath:
		ctx.SetVar("v", rv(lpg.NewPathFromElements(lpg.PathElement{Edge: g.edges[0]})))
	case nKinds:
	default:
		ctx.SetVar("v", rv(value(k, "v")))
	}
	q := []string{
		"match (v) return v", "match (v)-[r]->(m) return r", "match (n)-[v]->(m) return v", "match (n)-[v]-(v) return n", "match (n), (v) return v",
		"create (v) return v", "create (v:A) return v", "create (v)-[:R]->(m) return v", "create (n)-[v:R]->(m) return v", "merge (v) return v", "merge (v)-[:S]->(m) return m", "merge (n)-[v:S]->(m) return m",
		"match (n) set v.p = 1 return v", "match (n) set v = {p: 1} return v", "match (n) set v += {p: 1} return v", "match (n) set v:A return v", "match (n) set n = v return n", "match (n) set n += v return n", "match (n) set v = v return v",
		"match (n) remove v.p return v", "match (n) remove v:A return v", "match (n) delete v return n", "match (n) detach delete v return n", "match (n) detach delete n, v return n", "return v", "return v.p", "return v + 1", "return *", "match (n) where v return n", "match (n) where v.p = n.p return n",
		"set v.p = 1", "set v = {p: 1}", "set v:A", "remove v.p", "remove v:A", "delete v", "detach delete v", "set v.p = 1 return v", "delete v return 1",
	}
	attempt(q[vf.Choice("query", len(q))], ctx)
}

// using what the query has deleted
func P30_Deleted() {
	g := graphOf(2)
	g.nodes[0].SetProperty("p", vf.Int("p"))
	g.nodes[1].SetLabels(labelSet("A"))
	g.symEdges(2, []string{"R"})
	g.edge(1, 0, "R")
	first := []string{"match (n)-[r]->(m) delete r", "match (n:A) detach delete n", "match (n)-[r]->(m) detach delete n", "match (n)-[r]->(m) detach delete n, m", "match (n)-[r]->(m) delete n, r, m"}[vf.Choice("delete", 5)]
	then := []string{
		"return n", "return n.p as p, n as n", "return *", "set n.p = 1", "set n += {p: 1}", "set n = {p: 1}", "set n:A", "remove n.p", "remove n:A", "delete n", "detach delete n",
		"create (n)-[:R]->(x)", "create (n)-[:R]->(n)", "merge (n)", "merge (n)-[:S]->(x)", "match (n) return n", "match (n)-[s]->(x) return x", "match (x) return x", "create (x:B) return n, x",
	}[vf.Choice("then", 19)]
	attempt(first+" "+then, g.ctx())
}

func P30_Limits() {
	g := graphOf(2)
	a, b := value(vf.Choice("a.kind", kDate), "a"), value(vf.Choice("b.kind", kDate), "b")
	attempt("match (n) return n skip $a limit $b", bind(g.ctx(), a, b))
}

// every beginning of a query is a query or an error
func P30_Prefixes() {
	g := graphOf(1)
	g.nodes[0].SetProperty("p", vf.Int("p"))
	q := []string{
		"match (n:A {p: $a})-[r:R*1..2]->(m) where n.p > 1 and not m.q is null return n.p as x, [1, 2][0..1] as y skip 1 limit 2",
		"merge (n:A {p: 'x'}) on create set n.q = -1.5e3 on match set n += {z: $a, y: 0x1F} return n union all return $a as n",
		"match (n), (m) create (n)-[:R {w: case when $a > 1 then 2 else 3 end}]->(m) set n.p = 1, m:B remove n.p detach delete m",
	}[vf.Choice("query", 3)]
	// the bytes of the text are concrete
	n := vf.Choice("length", len(q)+1)
	attempt(q[:n], bind(g.ctx(), vf.Int("a")))
}

// text that is not a query is an error
func P30_Malformed() {
	bad := []string{
		"", " ", ";", "retrun 1", "return", "return return", "return 1 +", "return (1", "return 1)", "return 'x", "return \"x", "return `x", "return [1, 2", "return {a: 1", "return {1: 2}", "match n return n",
		"match (n return n", "match (n) return n limit", "return 1 limit 1 skip 1", "create", "create (n", "match (n) set", "match (n) set n.p", "match (n) delete", "return 1 return 2", "return case end", "return 1 as", "return #", "return 1 as 1", "return $", "return a b",
		"return '\\q'", "return '\\u12'", "match (n)-[r->(m) return n", "match (n)--(m return n", "return 1..2", "return 0x", "return 1e", "return /", "/* x", "return 1 /* x", "return not", "return x in", "return 1 union", "union return 1", "return 1 == 1", "return \x00", "\xff", "return \xff",
		"return 9223372036854775808", "return 0x8000000000000000", "return 01000000000000000000000", "return 99999999999999999999999", "return -9223372036854775809", "return 1e999", "match (n {p: 9223372036854775808}) return n", "match (n)-[*99999999999999999999]->(m) return n", "return 1 limit 9223372036854775808",
	}
	q := bad[vf.Choice("text", len(bad))]
	_, err := attempt(q, newCtx())
	vf.Assert(err != nil, "accepted")
	_, err = oc.Parse(q)
	vf.Assert(err != nil, "parsed")
}
