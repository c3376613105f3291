package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

// Names that differ in case, in length or in the way they are written are
// different names: of properties, labels, types, variables and parameters.

var _ = vf.Reg("P13_Names", P13_Names)
var _ = vf.Reg("P14_Names", P14_Names)
var _ = vf.Reg("P18_Names", P18_Names)
var _ = vf.Reg("P19_Names", P19_Names)
var _ = vf.Reg("P20_Names", P20_Names)
var _ = vf.Reg("P22_Names", P22_Names)
var _ = vf.Reg("P27_Names", P27_Names)

var keyNames = []string{"p", "P", "pp", "p p"}

// named is a graph of two nodes with properties and labels of confusable names
// and a relationship of each of two types between them.
func named() *G {
	g := graphOf(2)
	g.symLabels([]string{"A", "AA"}, []string{"a", "A"}, []string{"a"})
	for i, n := range g.nodes {
		for j, k := range keyNames {
			n.SetProperty(k, vf.Int("k"+digit(j)+digit(i)))
		}
	}
	g.edge(0, 1, "R").SetProperty("p", vf.Int("w"))
	g.edge(0, 1, "r").SetProperty("P", vf.Int("w1"))
	return g
}

// variables, parameters and columns
func P13_Names() {
	a, b, c := vf.Int("a"), vf.Int("b"), vf.Int("c")
	g := graphOf(2)
	g.nodes[0].SetProperty("p", a)
	g.nodes[1].SetProperty("P", b)
	g.nodes[1].SetProperty("pp", c)
	ctx := g.ctx()
	ctx.SetParameter("$a", rv(a))
	ctx.SetParameter("$A", rv(b))
	ctx.SetParameter("$aa", rv(c))
	for i, v := range []string{"n", "N", "nn", "n n"} {
		ctx.SetVar(v, rv([]int{a, b, c, b}[i]))
	}
	q := []string{
		"return $a as x, $A as X, $aa as xx",
		"return n as x, N as X, nn as xx",
		"return n as x, `n n` as X, `nn` as xx",
		"return [$a, $A, $aa][0] as x, [n, N, nn][1] as X, [$aa][0] as xx",
		"return $a+N-$A as x, $A+n-$a as X, nn+N-$A as xx",
		"match (p {p: $a}), (P {P: $A}) return p.p as x, P.P as X, P.pp as xx",
	}
	k := vf.Choice("query", len(q))
	vf.MapOrders(vf.Choice("orders", 2) == 1)
	v, err := oc_eval(ctx, q[k])
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Rows) == 1, "rows")
	vf.Assert(identical(cell(rs, 0, "x"), a), "names-lower")
	vf.Assert(identical(cell(rs, 0, "X"), b), "names-upper")
	vf.Assert(identical(cell(rs, 0, "xx"), c), "names-longer")
}

// labels, types, properties and variables of a pattern
func P14_Names() {
	g := graphOf(2)
	g.symLabels([]string{"A", "AA"}, []string{"a", "A"}, []string{"a"})
	for i, n := range g.nodes {
		for j, k := range keyNames {
			n.SetProperty(k, vf.Int("k"+digit(j)+digit(i)))
		}
	}
	g.edge(0, 1, "R")
	g.edge(0, 1, "r")
	a := vf.Int("a")
	n := []pnode{nd("n", "A"), nd("n", "a"), nd("n", "AA"), nd("n", "A", "a"),
		{v: "n", key: "p", val: a, txt: "$a"}, {v: "n", key: "P", val: a, txt: "$a"}, {v: "n", key: "pp", val: a, txt: "$a"}}[vf.Choice("node", 7)]
	cs := [][]chain{
		{hops(n)},
		{hops(n), hops(nd("N", "a"))},
		{hops(n, rel("r", '>', "R"), nd("N"))},
		{hops(n, rel("r", '>', "r"), nd("N"), rel("R", '<'), nd("nn"))},
		{hops(nd("N", "A"), rel("R", '-', "R", "r"), n)},
	}[vf.Choice("pattern", 5)]
	g.assertMatch(bind(g.ctx(), a), ", ", cs, match{}, "names")
}

func P18_Names() {
	g := named()
	want := takeSnap(g.g)
	a, b, c := vf.Int("a"), vf.Int("b"), vf.Int("c")
	ctx := bind(g.ctx(), a, b, c)
	ctx.SetParameter("$m", rv(map[string]oc.Value{"p": rv(a), "P": rv(b), "pp": rv(c), "p p": rv(b)}))
	vf.MapOrders(vf.Choice("orders", 2) == 1)
	switch vf.Choice("query", 3) {
	case 0:
		rs := run(ctx, "create (n:A:a:AA {p: $a, P: $b, pp: $c, `p p`: $b})-[r:r {P: $c, p: $b}]->(N:a {P: $c})-[R:R]->(nn:AA {pp: $a, p: $c}) return n as n, N as N, nn as nn, r as r, R as R")
		vf.Assert(len(rs) == 1, "rows")
		n := want.newNode(rs[0]["n"], []string{"A", "a", "AA"}, props{"p": a, "P": b, "pp": c, "p p": b}, "n")
		N := want.newNode(rs[0]["N"], []string{"a"}, props{"P": c}, "N")
		nn := want.newNode(rs[0]["nn"], []string{"AA"}, props{"pp": a, "p": c}, "nn")
		want.newEdge(rs[0]["r"], "r", n, N, props{"P": c, "p": b}, "r")
		want.newEdge(rs[0]["R"], "R", N, nn, props{}, "R")
	case 1:
		rs := run(ctx, "create (n:A $m), (N $m), (N)-[r:r $m]->(n) return n as n, N as N, r as r")
		vf.Assert(len(rs) == 1, "rows")
		n := want.newNode(rs[0]["n"], []string{"A"}, props{"p": a, "P": b, "pp": c, "p p": b}, "n")
		N := want.newNode(rs[0]["N"], nil, props{"p": a, "P": b, "pp": c, "p p": b}, "N")
		want.newEdge(rs[0]["r"], "r", N, n, props{"p": a, "P": b, "pp": c, "p p": b}, "r")
	case 2:
		rs := run(ctx, "match (n)-[r:R]->(N) create (N)-[R:r {P: n.p, p: n.P}]->(nn:a {P: N.P, p: N.p, pp: N.pp}) return R as R, nn as nn")
		vf.Assert(len(rs) == 1, "rows")
		p := want.node(g.nodes[1]).props
		nn := want.newNode(rs[0]["nn"], []string{"a"}, props{"p": p["p"], "P": p["P"], "pp": p["pp"]}, "nn")
		p = want.node(g.nodes[0]).props
		want.newEdge(rs[0]["R"], "r", g.nodes[1], nn, props{"P": p["p"], "p": p["P"]}, "R")
	}
	assertSame(g.g, want, "names")
}

func P19_Names() {
	g := named()
	want := takeSnap(g.g)
	a, b := vf.Int("a"), vf.Int("b")
	ctx := bind(g.ctx(), a, b)
	n, m := g.nodes[0], g.nodes[1]
	pn, pm := want.node(n).props, want.node(m).props
	np, nP := pn["p"], pn["P"]
	vf.MapOrders(vf.Choice("orders", 2) == 1)
	q := "match (n)-[:R]->(N) "
	switch vf.Choice("query", 7) {
	case 0:
		q += "set n.p = $a, n.P = $b, N.pp = $a"
		pn["p"], pn["P"], pm["pp"] = a, b, a
	case 1:
		q += "set n.P = n.p, N.`p p` = n.P"
		pn["P"], pm["p p"] = np, np
	case 2:
		q += "set N += {p: $a, P: n.P, ppp: $b}"
		pm["p"], pm["P"], pm["ppp"] = a, nP, b
	case 3:
		q += "set N = {P: $a, p: n.P}"
		pm["P"], pm["p"] = a, nP
		delete(pm, "pp")
		delete(pm, "p p")
	case 4:
		q += "set n.P = null, N += {p: null, `p p`: $a}"
		delete(pn, "P")
		delete(pm, "p")
		pm["p p"] = a
	case 5:
		q += "set N:AA:aa, n:a"
		want.node(m).labels["AA"] = true
		want.node(m).labels["aa"] = true
		want.node(n).labels["a"] = true
	case 6:
		q += "set N = n"
		want.node(m).props = map[string]interface{}{"p": np, "P": nP, "pp": pn["pp"], "p p": pn["p p"]}
	}
	_, err := oc_eval(ctx, q)
	must(err, "error")
	assertSame(g.g, want, "names")
}

func P20_Names() {
	g := named()
	want := takeSnap(g.g)
	n, m := want.node(g.nodes[0]), want.node(g.nodes[1])
	q := "match (n)-[:r]->(N) remove "
	vf.MapOrders(vf.Choice("orders", 2) == 1)
	switch vf.Choice("query", 6) {
	case 0:
		q += "n.P, N.p"
		delete(n.props, "P")
		delete(m.props, "p")
	case 1:
		q += "n.`p p`, n.pp, N.`P`"
		delete(n.props, "p p")
		delete(n.props, "pp")
		delete(m.props, "P")
	case 2:
		q += "n:A, N:a"
		delete(n.labels, "A")
		delete(m.labels, "a")
	case 3:
		q += "n:AA, N:AA:A"
		delete(n.labels, "AA")
		delete(m.labels, "AA")
		delete(m.labels, "A")
	case 4:
		q += "n:a, n.p, n.P"
		delete(n.labels, "a")
		delete(n.props, "p")
		delete(n.props, "P")
	case 5:
		q += "n.ppp, n.pP, n:aA, N:B"
	}
	_, err := oc_eval(g.ctx(), q)
	must(err, "error")
	assertSame(g.g, want, "names")
}

func P22_Names() {
	g := graphOf(2)
	g.symLabels([]string{"A"}, []string{"a"}, []string{"A", "a"})
	p, P := make([]int, 2), make([]int, 2)
	for i, n := range g.nodes {
		p[i], P[i] = vf.Int("p"+digit(i)), vf.Int("P"+digit(i))
		n.SetProperty("p", p[i])
		n.SetProperty("P", P[i])
	}
	a, b := vf.Int("a"), vf.Int("b")
	want := takeSnap(g.g)
	vf.MapOrders(vf.Choice("orders", 2) == 1)
	switch vf.Choice("query", 3) {
	case 0:
		rs := run(bind(g.ctx(), a, b), "merge (n:A {p: $a, P: $b}) return n as n")
		var m []*lpg.Node
		for i, n := range g.nodes {
			if n.HasLabel("A") && vf.And(p[i] == a, P[i] == b) {
				m = append(m, n)
			}
		}
		if len(m) == 0 {
			vf.Assert(len(rs) == 1, "rows")
			want.newNode(rs[0]["n"], []string{"A"}, props{"p": a, "P": b}, "created")
		} else {
			mergedNodes(rs, m, "n", "matched")
		}
	case 1:
		rs := run(bind(g.ctx(), a, b), "merge (N:a {P: $b}) on create set N.p = $a on match set N.pp = $a return N as N")
		var m []*lpg.Node
		for i, n := range g.nodes {
			if n.HasLabel("a") && P[i] == b {
				m = append(m, n)
				want.put(n, "pp", a)
			}
		}
		if len(m) == 0 {
			vf.Assert(len(rs) == 1, "rows")
			want.newNode(rs[0]["N"], []string{"a"}, props{"P": b, "p": a}, "created")
		} else {
			mergedNodes(rs, m, "N", "matched")
		}
	case 2:
		g.edge(0, 1, []string{"R", "r"}[vf.Choice("type", 2)])
		g.nodes[0].SetLabels(labelSet("A"))
		g.nodes[1].SetLabels(labelSet("a"))
		want = takeSnap(g.g)
		rs := run(g.ctx(), "match (n:A) match (N:a) merge (n)-[r:r]->(N) return r as r")
		vf.Assert(len(rs) == 1, "rows")
		if g.edges[0].GetLabel() == "r" {
			vf.Assert(elem(rs[0]["r"]) == interface{}(g.edges[0]), "matched")
		} else {
			want.newEdge(rs[0]["r"], "r", g.nodes[0], g.nodes[1], props{}, "created")
		}
	}
	assertSame(g.g, want, "names")
}

// each property's filter is applied to its own key and value
func P27_Names() {
	g := graphOf(1)
	want := takeSnap(g.g)
	a, b, c := vf.Str("a", 1, 2, "bc"), vf.Str("b", 1, 2, "bc"), vf.Str("c", 1, 1, "bc")
	ctx := g.ctx()
	ctx.PropertyValueFromNativeFilter = func(key string, v interface{}) interface{} {
		if s, ok := v.(string); ok {
			return key + ":" + s
		}
		return v
	}
	if vf.Choice("derived", 2) == 1 {
		ctx = ctx.SubContext()
	}
	bind(ctx, a, b, c)
	ctx.SetParameter("$m", rv(map[string]oc.Value{"a": rv(a), "ab": rv(b), "A": rv(c)}))
	vf.MapOrders(vf.Choice("orders", 2) == 1)
	n := g.nodes[0]
	ps := props{"a": "a:" + a, "ab": "ab:" + b, "A": "A:" + c}
	switch vf.Choice("clause", 6) {
	case 0:
		rs := run(ctx, "create (n:L {a: $a, ab: $b, A: $c})-[r:R {ab: $a, a: $b}]->(m {abb: $c, a: $b}) return n as n, r as r, m as m")
		x := want.newNode(rs[0]["n"], []string{"L"}, ps, "n")
		y := want.newNode(rs[0]["m"], nil, props{"abb": "abb:" + c, "a": "a:" + b}, "m")
		want.newEdge(rs[0]["r"], "R", x, y, props{"ab": "ab:" + a, "a": "a:" + b}, "r")
	case 1:
		rs := run(ctx, "create (n:L $m) return n as n")
		want.newNode(rs[0]["n"], []string{"L"}, ps, "n")
	case 2:
		run(ctx, "match (n) set n.a = $a, n.ab = $b set n.A = $c return n as n")
		for k, v := range ps {
			want.put(n, k, v)
		}
	case 3:
		run(ctx, "match (n) set n += {a: $a, ab: $b, A: $c} return n as n")
		for k, v := range ps {
			want.put(n, k, v)
		}
	case 4:
		run(ctx, "match (n) set n = $m return n as n")
		for k, v := range ps {
			want.put(n, k, v)
		}
	case 5:
		rs := run(ctx, "merge (n:L {a: $a, ab: $b}) on create set n.A = $c, n.abb = $a return n as n")
		ps["abb"] = "abb:" + a
		want.newNode(rs[0]["n"], []string{"L"}, ps, "n")
	}
	vf.MapOrders(false)
	assertSame(g.g, want, "names")
}

var _ = vf.Reg("P25_Names", P25_Names)

// properties read by keys that are easily confused, any of which may be absent
func P25_Names() {
	g := graphOf(2)
	g.edge(0, 1, "R")
	var n, r [3]interface{}
	for i, k := range keyNames[:3] {
		if vf.Choice("n"+digit(i)+"?", 2) == 1 {
			n[i] = vf.Int("n" + digit(i))
			g.nodes[0].SetProperty(k, n[i])
		}
		if vf.Choice("r"+digit(i)+"?", 2) == 1 {
			r[i] = vf.Int("r" + digit(i))
			g.edges[0].SetProperty(k, r[i])
		}
	}
	rs := run(g.ctx(), "match (n)-[r]->(m) return n."+keyNames[0]+" as a, n."+keyNames[1]+" as b, n."+keyNames[2]+" as c, r."+keyNames[0]+" as d, r."+keyNames[1]+" as e, r."+keyNames[2]+" as f")
	vf.Assert(len(rs) == 1, "rows")
	for i, k := range []string{"a", "b", "c"} {
		vf.Assert(identical(rs[0][k], n[i]), "names-node")
	}
	for i, k := range []string{"d", "e", "f"} {
		vf.Assert(identical(rs[0][k], r[i]), "names-relationship")
	}
}
