package h

import (
	"strings"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P12_Expressions", P12_Expressions)
var _ = vf.Reg("P12_Constants", P12_Constants)
var _ = vf.Reg("P12_KeptResults", P12_KeptResults)
var _ = vf.Reg("P12_Reading", P12_Reading)
var _ = vf.Reg("P12_Updating", P12_Updating)
var _ = vf.Reg("P12_OtherContext", P12_OtherContext)
var _ = vf.Reg("P12_Calls", P12_Calls)
var _ = vf.Reg("P12_ConstParameters", P12_ConstParameters)

// identical compares two query values structurally; numbers of different kinds
// differ, null is null.
func identical(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int:
		y, ok := b.(int)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && vf.SameFloat(x, y)
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && bytesEq(x, y)
	case oc.Duration:
		y, ok := b.(oc.Duration)
		return ok && vf.And(x.Months == y.Months, x.Days == y.Days, x.Seconds == y.Seconds, x.Nanos == y.Nanos)
	case oc.Date:
		y, ok := b.(oc.Date)
		return ok && sameInstant(x.Time(), y.Time())
	case oc.LocalTime:
		y, ok := b.(oc.LocalTime)
		return ok && sameInstant(x.Time(), y.Time())
	case oc.LocalDateTime:
		y, ok := b.(oc.LocalDateTime)
		return ok && sameInstant(x.Time(), y.Time())
	case *lpg.Node:
		y, ok := b.(*lpg.Node)
		return ok && x == y
	case *lpg.Path:
		y, ok := b.(*lpg.Path)
		if !ok || x.NumEdges() != y.NumEdges() || x.NumNodes() != y.NumNodes() {
			return false
		}
		for i := 0; i < x.NumEdges(); i++ {
			if x.GetEdge(i) != y.GetEdge(i) {
				return false
			}
		}
		return true
	case []oc.Value:
		y, ok := b.([]oc.Value)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vf.And(r, identical(x[i].Get(), y[i].Get()))
		}
		return r
	case map[string]oc.Value:
		y, ok := b.(map[string]oc.Value)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return false
			}
			r = vf.And(r, identical(v.Get(), w.Get()))
		}
		return r
	case lpg.StringSet:
		y, ok := b.(lpg.StringSet)
		if !ok || x.Len() != y.Len() {
			return false
		}
		for _, s := range x.Slice() {
			if !y.Has(s) {
				return false
			}
		}
		return true
	}
	vf.Fail("unexpected-value-type")
	return false
}

func assertRows(got, want oc.ResultSet, id string) {
	vf.Assert(len(got.Cols) == len(want.Cols), id+"-columns")
	for i := range want.Cols {
		vf.Assert(got.Cols[i] == want.Cols[i], id+"-column")
	}
	vf.Assert(len(got.Rows) == len(want.Rows), id+"-rows")
	for i := range want.Rows {
		vf.Assert(len(got.Rows[i]) == len(want.Rows[i]), id+"-row-width")
		for _, c := range want.Cols {
			vf.Assert(identical(cell(got, i, c), cell(want, i, c)), id+"-value")
		}
	}
}

// assertSameResult: both failed, or both gave the same rows
func assertSameResult(v oc.Value, err error, w oc.Value, werr error, id string) {
	vf.Assert((err == nil) == (werr == nil), id+"-error")
	if err == nil {
		assertRows(rows(v), rows(w), id)
	}
}

var reevaluated = []string{
	"$a + 1", "1 + 2 + $a", "2 * 3 - $a", "-$a", "-(1 + 2) + $a", "+$a", "$a / 2 * 3", "7 % $a", "2 ^ 3",
	"$a > 1", "1 < $a", "1 < 2 and $a > 3", "$a = 1 or $b = 2", "not $a = 1", "$a = 1 xor true", "1 <> $a",
	"1 < 2", "true and false", "not true", "null is null",
	"case $a when 1 then 2 when $b then 3 else 4 end", "case when $a = $b then 'x' else 'y' end", "case 1 when 1 then $a end",
	"[1, $a, 3][1]", "[1, 2, 3][$a]", "[1, 2, 3] + [$a]", "[1, 2] + [3] + [4]", "$a in [1, 2]", "1 in [1, $a]", "[1, 2, 3][$a..2]", "[1, 2, 3][1..]",
	"{k: $a}.k", "{k: 1}.k + $a", "{k: 1, l: [$a]}", "{k: 1}", "[[1], [$a]]",
	"'x' + 'y'", "'xy' starts with 'x'", "$a is null", "$a is not null",
	"toInteger('12') + $a", "toFloat(1) + 1", "range(1, 3)", "toIntegerOrNull($a)", "left('abc', $a)", "substring('abc', 1)", "size([1, $a])",
	"$a", "null", "1", "'x'", "1.5", "[]", "{}",
}

// any expression, evaluated again with other parameter values
func P12_Expressions() {
	q := "return " + reevaluated[vf.Choice("expr", len(reevaluated))] + " as x"
	pick := func(n string) interface{} {
		switch vf.Choice(n+".kind", 3) {
		case 0:
			return vf.Int(n)
		case 1:
			return vf.Bool(n)
		}
		return nil
	}
	b1, b2 := vf.Int("b1"), vf.Int("b2")
	a1 := pick("a1")
	var a2 interface{} = vf.Int("a2")
	e, err := oc.Parse(q)
	must(err, "parse")
	_, _ = e.Evaluate(bind(newCtx(), a1, b1))
	v, verr := e.Evaluate(bind(newCtx(), a2, b2))
	w, werr := eval(q, a2, b2)
	assertSameResult(v, verr, w, werr, "second")
	v, verr = e.Evaluate(bind(newCtx(), a1, b1))
	w, werr = eval(q, a1, b1)
	assertSameResult(v, verr, w, werr, "third")
}

// an expression without variables gives the same value in every context
func P12_Constants() {
	forms := []string{"1 + 2", "[1, 2]", "{k: [1, 2]}", "'a' + 'b'", "-5", "1 < 2", "case 1 when 1 then [1] end", "[1] + [2]", "[1, 2, 3][0..2]", "toInteger('3')", "range(0, 2)", "null"}
	q := "return " + forms[vf.Choice("form", len(forms))] + " as x"
	e, err := oc.Parse(q)
	must(err, "parse")
	v, err := e.Evaluate(newCtx())
	must(err, "first")
	ctx := newCtx()
	ctx.SetVar("x", rv(vf.Int("x")))
	ctx.SetParameter("$x", rv(vf.Int("p")))
	w, err := e.Evaluate(ctx)
	must(err, "second")
	f, err := eval(q)
	must(err, "fresh")
	assertRows(rows(w), rows(f), "second")
	assertRows(rows(v), rows(f), "first")
}

// what an evaluation returned stays as it was when later ones run
func P12_KeptResults() {
	forms := []string{"[1, 2] + [$a]", "[1, $a] + [$a] + [3]", "([1, 2] + [3]) + [$a]", "[1, 2, 3][0..2] + [$a]", "{k: $a}", "{k: 1, l: [$a, 1]}", "[[1, 2] + [$a]]", "$l + [$a]", "$l[0..1] + [$a]", "[$a] + $l", "[1, 2] + [$a] + $l", "range(0, 1) + [$a]"}
	e, err := oc.Parse("return " + forms[vf.Choice("form", len(forms))] + " as x")
	must(err, "parse")
	l := make([]oc.Value, 2, 6)
	l0, l1, l2 := vf.Int("l0"), vf.Int("l1"), vf.Int("l2")
	l[0], l[1] = rv(l0), rv(l1)
	l = append(l, rv(l2))[:2]
	run := func(a int) interface{} {
		ctx := newCtx()
		ctx.SetParameter("$a", rv(a)).SetParameter("$l", rv(l))
		v, err := e.Evaluate(ctx)
		must(err, "error")
		return single(v)
	}
	a1, a2 := vf.Int("a1"), vf.Int("a2")
	r1 := run(a1)
	k1 := deepCopy(r1)
	r2 := run(a2)
	k2 := deepCopy(r2)
	r3 := run(a1)
	vf.Assert(identical(r1, k1), "first-altered")
	vf.Assert(identical(r2, k2), "second-altered")
	vf.Assert(identical(r3, k1), "not-reproduced")
	vf.Assert(identical([]oc.Value(l), []oc.Value{rv(l0), rv(l1)}), "parameter-altered")
	vf.Assert(identical([]oc.Value(l[:3]), []oc.Value{rv(l0), rv(l1), rv(l2)}), "parameter-tail-altered")
}

func deepCopy(v interface{}) interface{} {
	switch x := v.(type) {
	case []oc.Value:
		r := make([]oc.Value, len(x))
		for i := range x {
			r[i] = rv(deepCopy(x[i].Get()))
		}
		return r
	case map[string]oc.Value:
		r := map[string]oc.Value{}
		for k, e := range x {
			r[k] = rv(deepCopy(e.Get()))
		}
		return r
	}
	return v
}

// small graph with a symbolic property on each node
func reGraph(name string) *G {
	g := &G{g: lpg.NewGraph()}
	for i := 0; i < 2; i++ {
		g.node([]string{"A"}, map[string]interface{}{"p": vf.Int(name + digit(i))})
	}
	switch vf.Choice(name+".edges", 3) {
	case 1:
		g.edge(0, 1, "R")
	case 2:
		g.edge(1, 0, "S")
	}
	return g
}

var reQueries = []string{
	"match (n:A {p: $a}) return n.p as x, $b as y",
	"match (n:A) where n.p > $a return n as x",
	"match (n:A)-[r:R]->(m) return n as x, m as y, r as z",
	"match (n)-[r]-(m {p: $a}) return n as x, m as y",
	"match (n)-[r*1..2]->(m) return n as x, m as y",
	"match (n), (m) where n.p < m.p return n as x, m as y",
	"match (n) return n.p as x union match (m) return m.p as x",
	"match (n) return n.p as x skip 1 limit 1",
	"match (n {p: $a}) return n as x union all match (n {p: $b}) return n as x",
	"match (n) where (n)-[:R]->(:A) return n as x",
}

// a reading query, evaluated again on another graph
func P12_Reading() {
	q := reQueries[vf.Choice("query", len(reQueries)-1)]
	g1 := graphOf(2)
	for i, n := range g1.nodes {
		n.SetLabels(labelSet("A"))
		n.SetProperty("p", i)
	}
	g1.edge(0, 1, "R")
	g2 := reGraph("h")
	a1, a2, b := vf.Int("a1"), vf.Int("a2"), vf.Int("b")
	e, err := oc.Parse(q)
	must(err, "parse")
	_, err = e.Evaluate(bind(g1.ctx(), a1, b))
	must(err, "first")
	v, verr := e.Evaluate(bind(g2.ctx(), a2, b))
	w, werr := oc.ParseAndEvaluate(q, bind(g2.ctx(), a2, b))
	assertSameResult(v, verr, w, werr, "second")
}

var reUpdates = []string{
	"create (n:A {p: $a}) return n.p as x",
	"create (n:A {p: 1})-[r:R]->(m:B {q: [1, $a]}) return m.q as x",
	"match (n:A) set n.p = $a return n.p as x",
	"match (n:A) set n = {q: $a} return n.q as x",
	"match (n:A) set n += {q: 1} return n.p as x",
	"match (n:A {p: $a}) set n:L return n.p as x",
	"match (n:A {p: $a}) remove n.p return n.p as x",
	"merge (n:A {p: $a}) on create set n.c = 1 on match set n.m = 1 return n.p as x",
	"match (n:A {p: $a}) detach delete n",
	"match (n:A) create (n)-[:T]->(m:N {q: n.p + 1}) return m.q as x",
}

// updSnap is a description of a graph that does not mention identities
func updEqual(a, b *lpg.Graph) bool {
	x, y := takeSnap(a), takeSnap(b)
	if len(x.nodes) != len(y.nodes) || len(x.edges) != len(y.edges) {
		return false
	}
	r := true
	for i, n := range x.nodes {
		m := y.nodes[i]
		if len(n.labels) != len(m.labels) || len(n.props) != len(m.props) {
			return false
		}
		for l := range n.labels {
			if !m.labels[l] {
				return false
			}
		}
		for k, v := range n.props {
			w, ok := m.props[k]
			if !ok {
				return false
			}
			r = vf.And(r, identical(native(v), native(w)))
		}
	}
	pos := func(s snap, n *lpg.Node) int {
		for i := range s.nodes {
			if s.nodes[i].n == n {
				return i
			}
		}
		return -1
	}
	for i, e := range x.edges {
		f := y.edges[i]
		if e.label != f.label || pos(x, e.from) != pos(y, f.from) || pos(x, e.to) != pos(y, f.to) {
			return false
		}
	}
	return r
}

// an updating query run twice does to the graph what two fresh copies do
func P12_Updating() {
	q := reUpdates[vf.Choice("query", len(reUpdates))]
	p0, p1 := vf.Int("p0"), vf.Int("p1")
	mk := func() *G {
		g := &G{g: lpg.NewGraph()}
		g.node([]string{"A"}, map[string]interface{}{"p": p0})
		g.node([]string{"A"}, map[string]interface{}{"p": p1})
		g.edge(0, 1, "R")
		return g
	}
	g, h := mk(), mk()
	a1, a2 := vf.Int("a1"), vf.Int("a2")
	e, err := oc.Parse(q)
	must(err, "parse")
	for i, a := range []int{a1, a2} {
		v, verr := e.Evaluate(bind(g.ctx(), a))
		w, werr := oc.ParseAndEvaluate(q, bind(h.ctx(), a))
		vf.Assert((verr == nil) == (werr == nil), "error")
		if verr != nil {
			return
		}
		vr, wr := rows(v), rows(w)
		vf.Assert(len(vr.Rows) == len(wr.Rows), "rows")
		for j := range wr.Rows {
			for _, c := range wr.Cols {
				vf.Assert(identical(cell(vr, j, c), cell(wr, j, c)), "value"+digit(i))
			}
		}
		vf.Assert(updEqual(g.g, h.g), "graph"+digit(i))
	}
}

// variables seen by the second evaluation are those of its own context
func P12_OtherContext() {
	forms := []string{"x", "x + 1", "x + y", "case x when y then 1 else 2 end", "[x, y]", "[[x], y][0]", "x < y and y < 3", "x in [1, y]", "-x"}
	q := "return " + forms[vf.Choice("form", len(forms))] + " as r"
	e, err := oc.Parse(q)
	must(err, "parse")
	ctx := newCtx()
	y := vf.Int("y")
	ctx.SetVar("y", rv(y))
	in := func(name string, outer bool) *oc.EvalContext {
		c := ctx
		if !outer {
			c = ctx.SubContext()
		}
		c.SetVar("x", rv(vf.Int(name)))
		return c
	}
	c1 := in("x1", vf.Choice("outer", 2) == 1)
	_, err = e.Evaluate(c1)
	must(err, "first")
	c2 := in("x2", false)
	v, verr := e.Evaluate(c2)
	w, werr := oc.ParseAndEvaluate(q, c2)
	assertSameResult(v, verr, w, werr, "second")
}

var reCalls = []string{
	"left($s, 1)", "left('ab', $n)", "left($s, $n)", "right($s, 1)", "right('ab', $n)", "substring($s, 1)", "substring($s, 0, $n)", "substring('abc', $n, 1)", "substring($s, $n, 1)",
	"split($s, 'x')", "split('axb', $s)", "trim($s)", "ltrim($s)", "rtrim($s)", "size($s)", "size([$n, 1])",
	"range($n, 2)", "range(0, $n)", "range($n, 4, 2)", "range(0, $n, 1)", "toInteger($s)", "toIntegerOrNull($n)", "toFloat($n)", "toFloatOrNull($n)",
	"[left($s, 1), 1]", "{k: right($s, 1)}.k", "left($s, 1) + 'x'", "left(left($s, 2), 1)", "size(left($s, 1)) + 1", "case left($s, 1) when 'x' then 1 else 2 end",
	"range($n, 2)[0]", "range($n, 2) + [1]", "size(range($n, 2)) > 1",
}

// function calls with arguments of every origin, evaluated again
func P12_Calls() {
	q := "return " + reCalls[vf.Choice("call", len(reCalls))] + " as x"
	e, err := oc.Parse(q)
	must(err, "parse")
	run := func(i int, s string, n int) {
		mk := func() *oc.EvalContext {
			ctx := newCtx()
			ctx.SetParameter("$s", rv(s)).SetParameter("$n", rv(n))
			return ctx
		}
		v, verr := e.Evaluate(mk())
		w, werr := oc.ParseAndEvaluate(q, mk())
		assertSameResult(v, verr, w, werr, "evaluation"+digit(i))
	}
	run(0, "axb", 1)
	s, n := vf.Str("s", 0, 2, "ax 1"), vf.IntRange("n", 0, 2)
	run(1, s, n)
	run(2, "axb", 1)
}

// a parameter bound to a value marked constant is still the parameter of that
// evaluation
func P12_ConstParameters() {
	forms := []string{"$n", "$n + 1", "-$n", "$n * 2 + 1", "$n < 1", "not $n = 1", "[$n, 1]", "[$n][0]", "{k: $n}.k", "case $n when 1 then 2 else 3 end", "case when $n > 1 then $n end",
		"$n in [1, 2]", "1 in [$n]", "[1, 2, 3][$n]", "[1, 2, 3][0..$n]", "[1] + [$n]", "range(0, $n)", "toFloat($n)", "$n is null", "$n ^ 2", "$n % 2", "$n / 2", "size([$n])", "$n = 1 and $n < 3", "$n = 1 or $n = 2", "$n = 1 xor true", "left('ab', $n)", "[[$n]]", "{k: {l: $n}}"}
	q := "return " + forms[vf.Choice("form", len(forms))] + " as x"
	variable := vf.Choice("variable", 2) == 1
	if variable {
		q = strings.ReplaceAll(q, "$n", "n")
	}
	e, err := oc.Parse(q)
	must(err, "parse")
	run := func(i, n int) {
		mk := func() *oc.EvalContext {
			ctx := newCtx()
			if variable {
				ctx.SetVar("n", oc.RValue{Value: n, Const: true})
			} else {
				ctx.SetParameter("$n", oc.RValue{Value: n, Const: true})
			}
			return ctx
		}
		v, verr := e.Evaluate(mk())
		w, werr := oc.ParseAndEvaluate(q, mk())
		assertSameResult(v, verr, w, werr, "evaluation"+digit(i))
	}
	run(0, 1)
	run(1, vf.IntRange("n", -1, 3))
	run(2, 1)
}

var _ = vf.Reg("P12_Reregister", P12_Reregister)

// a function that is registered again between two evaluations is the new one
// for a kept copy as it is for a fresh one
func P12_Reregister() {
	a, b := vf.Int("a"), vf.Int("b")
	f1, f2 := form(), form()
	k := vf.Choice("query", 4)
	q := []string{"return spyRe($a) as x", "return spyRe(1) + 1 as x", "match (n:A) where spyRe($a) = $a return n as x", "return spyRe(spyRe(2)) as x"}[k]
	e, err := oc.Parse(q)
	must(err, "parse")
	g := graphOf(1)
	g.nodes[0].SetLabels(labelSet("A"))
	s1 := register("spyRe", 1, 1, f1, giving(a))
	_, err = e.Evaluate(bind(g.ctx(), a))
	must(err, "first")
	n1 := len(s1.calls)
	if k == 3 {
		vf.Assert(n1 == 2, "first-calls")
	} else {
		vf.Assert(n1 == 1, "first-calls")
	}
	min := 1 + vf.Choice("min", 2)
	s2 := register("spyRe", min, 2, f2, giving(b))
	v1, err1 := e.Evaluate(bind(g.ctx(), a))
	vf.Assert(len(s1.calls) == n1, "old-function-called")
	n2 := len(s2.calls)
	v2, err2 := oc_eval(bind(g.ctx(), a), q)
	vf.Assert((err1 != nil) == (err2 != nil), "same-outcome")
	vf.Assert((err1 != nil) == (min == 2), "arity")
	vf.Assert(len(s2.calls) == 2*n2, "same-calls")
	assertSameResult(v1, err1, v2, err2, "same")
}
