package h

import (
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P34_Queries", P34_Queries)
var _ = vf.Reg("P34_Expressions", P34_Expressions)
var _ = vf.Reg("P34_Lists", P34_Lists)
var _ = vf.Reg("P34_Failing", P34_Failing)

var readQueries = []string{
	"match (n:A) return n",
	"match (n:A) return n.p, n.q, labels(n), n as x",
	"match (n:A {p: $a}) return n.p + 1",
	"match (n)-[r:R]->(m) return n, r, m, type(r), r.w",
	"match (n)-[r:R {w: $a}]-(m {p: $a}) return r",
	"match (n:A)-[r*1..2]->(m) return r, m.p",
	"match (n) where n.p > $a and n.q is null return n.p as p skip 1 limit 1",
	"match (n:A) match (m:B) where n.p = m.p return n, m",
	"match (n), (m) return n.p, m.p",
	"match (n) return n.p as x union match (m) return m.q as x",
	"match (n) return n union all match (n:A) return n",
	"match (n) return *",
	"match (n) return case when n.p = $a then n else null end as x, [n, n.p, n.nosuch] as y, {k: n.p, l: n} as z",
	"match (n:C {z: 1})-[:Q]->(m:D {y: $a}) return n, m",
	"match (a)-[r]->(b) match (b)-[s]->(c) return a, r, b, s, c",
	"match (n:A) return size(labels(n)), toFloat(n.p), -n.p, n.p in [1, $a], [n.p] + [$a]",
}

// reading leaves the graph and the parameters alone
func P34_Queries() {
	g := graphOf(2)
	g.symLabels(nil, []string{"A"}, []string{"A", "B"})
	g.optProps("p")
	g.nodes[0].SetProperty("q", vf.Int("q"))
	g.symEdges(vf.Pick(1, 2), []string{"R"})
	for i, e := range g.edges {
		e.SetProperty("w", vf.Int("w"+digit(i)))
	}
	a := vf.Int("a")
	want := takeSnap(g.g)
	q := readQueries[vf.Choice("query", len(readQueries))]
	ctx := bind(g.ctx(), a)
	e, err := oc.Parse(q)
	must(err, "parse")
	_, err = e.Evaluate(ctx)
	must(err, "error")
	assertSame(g.g, want, "read")
	p, err := ctx.GetParameter("$a")
	must(err, "parameter-gone")
	vf.Assert(identical(p.Get(), a), "parameter")
	_, err = e.Evaluate(g.ctx().SetParameter("$a", rv(a)))
	must(err, "again-error")
	assertSame(g.g, want, "read-again")
}

// operators and functions do not alter their operands
func P34_Expressions() {
	forms := []string{
		"$a + $b", "$b + $a", "$a - $b", "$a * 2", "$a / 2", "-$a", "$a = $b", "$a <> $b", "$a < $b", "$a in [$b]", "[$a, $b]", "{k: $a, l: $b}", "{k: $a}.k", "[$a][0]", "[$a, $b][0..1]",
		"case $a when $b then $a else $b end", "$a is null", "size([$a])", "toFloat($a)", "$a + $b + $a", "date($a)", "left($a, 1)", "trim($a)", "labels($a)", "type($a)",
	}
	ka, kb := vf.Choice("a.kind", nKinds), vf.Choice("b.kind", vf.Pick(4, nKinds))
	vf.Assume(!(ka == kDur && kb >= kDate && kb <= kDateTime || kb == kDur && ka >= kDate && ka <= kDateTime))
	a, b := tiny(ka, "a"), tiny(kb, "b")
	// a set counts as its members, a map as its entries
	ca, cb := deepCopy(a), deepCopy(b)
	ctx := bind(newCtx(), a, b)
	oc_eval(ctx, "return "+forms[vf.Choice("form", len(forms))])
	vf.Assert(identical(a, ca), "left-altered")
	vf.Assert(identical(b, cb), "right-altered")
	pa, err := ctx.GetParameter("$a")
	must(err, "gone")
	pb, err := ctx.GetParameter("$b")
	must(err, "gone")
	vf.Assert(identical(pa.Get(), ca), "left-parameter")
	vf.Assert(identical(pb.Get(), cb), "right-parameter")
	_, err = ctx.GetVar("a")
	vf.Assert(err != nil, "variable-made")
}

// lists given as parameters with room to grow, and values read from the graph
func P34_Lists() {
	mk := func(name string) []oc.Value {
		l := make([]oc.Value, 3, 8)
		for i := range l {
			l[i] = rv(vf.Int(name + digit(i)))
		}
		if name != "s" && vf.Choice(name+"null", 2) == 1 {
			l[1] = rv(nil)
		}
		return l[:2]
	}
	l, m := mk("l"), mk("m")
	g := graphOf(1)
	stored := mk("s")
	g.nodes[0].SetProperty("p", rv(stored))
	cl, cm, cs := deepCopy(l[:3]), deepCopy(m[:3]), deepCopy(stored[:3])
	forms := []string{
		"$l + $m", "$m + $l + $m", "$l + [1]", "[1] + $l", "$l[0..1] + $m", "$l[1..] + [1, 2]", "$l[..1] + [7]", "n.p + [1]", "n.p + $l", "n.p[0..1] + [5]", "n.p[0] + 1", "$l[0] + $l[1]",
		"{k: $l}.k + [1]", "[$l, $m][0] + [1]", "case when true then $l end + $m", "($l + $m)[0..2] + [3]", "$l[-1]", "$l in [$m]", "$l[0] in $m", "size($l + $m)",
		"1 in $l", "$m[0] in $l", "null in $l", "$l in $m", "$l = $m", "[$l] = [$m]", "$l[1] in $l + $m", "size($l)", "$l is null", "case $l when $m then $l end", "$l[0..] = $m",
	}
	q := "match (n) return " + forms[vf.Choice("form", len(forms))] + " as x"
	e, err := oc.Parse(q)
	must(err, "parse")
	for i := 0; i < 2; i++ {
		ctx := g.ctx()
		ctx.SetParameter("$l", rv(l)).SetParameter("$m", rv(m))
		e.Evaluate(ctx)
	}
	vf.Assert(identical(l[:3], cl), "left-altered")
	vf.Assert(identical(m[:3], cm), "right-altered")
	vf.Assert(identical(stored[:3], cs), "stored-altered")
	x, ok := g.nodes[0].GetProperty("p")
	vf.Assert(ok && identical(native(x), []oc.Value(stored)), "property-altered")
}

// a reading query that fails leaves the graph alone as well
func P34_Failing() {
	g := graphOf(2)
	g.symLabels(nil, []string{"A"})
	g.optProps("p")
	g.symEdges(1, []string{"R"})
	a := vf.IntRange("a", -1, 1)
	want := takeSnap(g.g)
	q := []string{
		"match (n:A) return 1 / $a",
		"match (n:A) return n.p + true",
		"match (n:A) return n union match (n:A) return nosuch",
		"match (n)-[r:R]->(m) return r.w.x",
		"match (n) return nosuch(n)",
		"match (n:A) return $nosuch",
		"match (n) return [1, 2][true]",
		"match (n {p: 1 / $a}) return n",
	}[vf.Choice("query", 8)]
	ctx := bind(g.ctx(), a)
	oc_eval(ctx, q)
	assertSame(g.g, want, "failing")
	p, err := ctx.GetParameter("$a")
	must(err, "parameter-gone")
	vf.Assert(identical(p.Get(), a), "parameter")
}
