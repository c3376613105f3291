package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P18_UnnamedRows", P18_UnnamedRows)
var _ = vf.Reg("P18_Node", P18_Node)
var _ = vf.Reg("P18_Relationship", P18_Relationship)
var _ = vf.Reg("P18_Shapes", P18_Shapes)
var _ = vf.Reg("P18_Anonymous", P18_Anonymous)
var _ = vf.Reg("P18_Rows", P18_Rows)
var _ = vf.Reg("P18_Bound", P18_Bound)
var _ = vf.Reg("P18_Pairs", P18_Pairs)
var _ = vf.Reg("P18_Sequence", P18_Sequence)
var _ = vf.Reg("P18_PathVariable", P18_PathVariable)
var _ = vf.Reg("P18_BoundWithLabels", P18_BoundWithLabels)
var _ = vf.Reg("P18_Findable", P18_Findable)
var _ = vf.Reg("P18_Parameters", P18_Parameters)

// somewhere is a small graph that CREATE must leave alone.
func somewhere(n int) *G {
	g := graphOf(n)
	g.symLabels([]string{"A"}, []string{"B", "X"})
	for i, x := range g.nodes {
		x.SetProperty("p", vf.Int("p"+digit(i)))
	}
	if n > 1 {
		g.edge(0, 1, "R").SetProperty("w", vf.Int("w"))
	}
	return g
}

func run(ctx *oc.EvalContext, q string) []row {
	v, err := oc_eval(ctx, q)
	must(err, "error")
	rs := rows(v)
	return rowsOf(rs)
}

// one node: every label set, and properties of every scalar kind
func P18_Node() {
	g := somewhere(vf.Choice("nodes", 3))
	want := takeSnap(g.g)
	labels := [][]string{nil, {"A"}, {"B"}, {"A", "B"}, {"B", "A", "L"}, {"A", "A"}}[vf.Choice("labels", 6)]
	q := "create (n"
	for _, l := range labels {
		q += ":" + l
	}
	ctx := g.ctx()
	p := props{}
	kinds := []int{kInt, kFloat, kStr, kBool, kNull, kList, kDur, kDate}
	n := vf.Choice("props", 3)
	for i := 0; i < n; i++ {
		key := "k" + digit(i)
		k := kinds[vf.Choice("kind"+digit(i), len(kinds))]
		v := value(k, key)
		ctx.SetParameter("$"+key, rv(v))
		if k != kNull {
			p[key] = v
		}
		if i == 0 {
			q += " {"
		} else {
			q += ", "
		}
		q += key + ": $" + key
		if i == n-1 {
			q += "}"
		}
	}
	rs := run(ctx, q+") return n as n")
	vf.Assert(len(rs) == 1, "rows")
	want.newNode(rs[0]["n"], labels, p, "node")
	assertSame(g.g, want, "node")
}

// one relationship between two new nodes
func P18_Relationship() {
	g := somewhere(vf.Choice("nodes", 3))
	want := takeSnap(g.g)
	a, b, c := vf.Int("a"), vf.Str("b", 0, 1, ""), vf.Int("c")
	ctx := bind(g.ctx(), a, b, c)
	left := vf.Choice("dir", 2) == 1
	typ := []string{"R", "S"}[vf.Choice("type", 2)]
	p, ptext := props{}, ""
	switch vf.Choice("props", 4) {
	case 1:
		p["w"], ptext = a, " {w: $a}"
	case 2:
		p["w"], p["v"], ptext = a+c, b, " {w: $a + $c, v: $b}"
	case 3:
		p["v"], ptext = b, " {w: null, v: $b}"
	}
	r := "-[r:" + typ + ptext + "]->"
	if left {
		r = "<-[r:" + typ + ptext + "]-"
	}
	rs := run(ctx, "create (x:A {p: $a})"+r+"(y:B {p: $c, q: $b}) return x as x, r as r, y as y")
	vf.Assert(len(rs) == 1, "rows")
	x := want.newNode(rs[0]["x"], []string{"A"}, props{"p": a}, "x")
	y := want.newNode(rs[0]["y"], []string{"B"}, props{"p": c, "q": b}, "y")
	if left {
		want.newEdge(rs[0]["r"], typ, y, x, p, "r")
	} else {
		want.newEdge(rs[0]["r"], typ, x, y, p, "r")
	}
	assertSame(g.g, want, "relationship")
}

// several parts, shared nodes, loops and longer chains
func P18_Shapes() {
	g := somewhere(2)
	want := takeSnap(g.g)
	a, b := vf.Int("a"), vf.Int("b")
	ctx := bind(g.ctx(), a, b)
	A, B, L := []string{"A"}, []string{"B"}, []string{"L"}
	type shape struct {
		text string
		f    func(r row)
	}
	w := &want
	shapes := []shape{
		{"create (x:A), (y:B) return x as x, y as y", func(r row) {
			w.newNode(r["x"], A, nil, "x")
			w.newNode(r["y"], B, nil, "y")
		}},
		{"create (x:A {p: $a}), (y:B {p: $b}), (x)-[r:R]->(y), (x)<-[s:S]-(y) return x as x, y as y, r as r, s as s", func(r row) {
			x, y := w.newNode(r["x"], A, props{"p": a}, "x"), w.newNode(r["y"], B, props{"p": b}, "y")
			w.newEdge(r["r"], "R", x, y, nil, "r")
			w.newEdge(r["s"], "S", y, x, nil, "s")
		}},
		{"create (x:A)-[r:R {w: $a}]->(x) return x as x, r as r", func(r row) {
			x := w.newNode(r["x"], A, nil, "x")
			w.newEdge(r["r"], "R", x, x, props{"w": a}, "r")
		}},
		{"create (x:A)-[r:R {w: $a}]->(y:B)<-[s:S {w: $b}]-(z:L) return x as x, y as y, z as z, r as r, s as s", func(r row) {
			x, y, z := w.newNode(r["x"], A, nil, "x"), w.newNode(r["y"], B, nil, "y"), w.newNode(r["z"], L, nil, "z")
			w.newEdge(r["r"], "R", x, y, props{"w": a}, "r")
			w.newEdge(r["s"], "S", z, y, props{"w": b}, "s")
		}},
		{"create (x:A)<-[r:R]-(y:B)-[s:S]->(z:L)-[t:T]->(x) return x as x, y as y, z as z, r as r, s as s, t as t", func(r row) {
			x, y, z := w.newNode(r["x"], A, nil, "x"), w.newNode(r["y"], B, nil, "y"), w.newNode(r["z"], L, nil, "z")
			w.newEdge(r["r"], "R", y, x, nil, "r")
			w.newEdge(r["s"], "S", y, z, nil, "s")
			w.newEdge(r["t"], "T", z, x, nil, "t")
		}},
		{"create (x:A {p: $a}), (y:B {p: x.p, q: x.p + $b}) return x as x, y as y", func(r row) {
			w.newNode(r["x"], A, props{"p": a}, "x")
			w.newNode(r["y"], B, props{"p": a, "q": a + b}, "y")
		}},
		{"create (x:A)-[r:R]->(y:B), (x)-[s:R]->(y) return x as x, y as y, r as r, s as s", func(r row) {
			x, y := w.newNode(r["x"], A, nil, "x"), w.newNode(r["y"], B, nil, "y")
			w.newEdge(r["r"], "R", x, y, nil, "r")
			w.newEdge(r["s"], "R", x, y, nil, "s")
		}},
		{"create (x:A)-[r:R]->(y:B)-[s:S]->(x)-[t:T]->(z:L) return x as x, y as y, z as z, r as r, s as s, t as t", func(r row) {
			x, y, z := w.newNode(r["x"], A, nil, "x"), w.newNode(r["y"], B, nil, "y"), w.newNode(r["z"], L, nil, "z")
			w.newEdge(r["r"], "R", x, y, nil, "r")
			w.newEdge(r["s"], "S", y, x, nil, "s")
			w.newEdge(r["t"], "T", x, z, nil, "t")
		}},
		{"create (x:A)<-[r:R]-(x)-[s:S]->(y:B)-[q:S]->(y)<-[t:T]-(x) return x as x, y as y, r as r, s as s, t as t, q as q", func(r row) {
			x, y := w.newNode(r["x"], A, nil, "x"), w.newNode(r["y"], B, nil, "y")
			w.newEdge(r["r"], "R", x, x, nil, "r")
			w.newEdge(r["s"], "S", x, y, nil, "s")
			w.newEdge(r["q"], "S", y, y, nil, "q")
			w.newEdge(r["t"], "T", x, y, nil, "t")
		}},
		{"create (x:A)-[:R]->(y:B)<-[:S]-(z:L)-[:T]->(y)-[:R]->(x), (z)-[:S]->(z) return x as x, y as y, z as z", func(r row) {
			x, y, z := w.newNode(r["x"], A, nil, "x"), w.newNode(r["y"], B, nil, "y"), w.newNode(r["z"], L, nil, "z")
			_, es := fresh(g.g, *w)
			vf.Assert(len(es) == 5, "relationships")
			ends := []struct {
				t    string
				f, l *lpg.Node
			}{{"R", x, y}, {"S", z, y}, {"T", z, y}, {"R", y, x}, {"S", z, z}}
			for _, e := range ends {
				for _, f := range es {
					if f.e.GetLabel() == e.t && f.e.GetFrom() == e.f && f.e.GetTo() == e.l {
						w.newEdge(f.e, e.t, e.f, e.l, nil, "e")
					}
				}
			}
		}},
	}
	s := shapes[vf.Choice("shape", len(shapes))]
	rs := run(ctx, s.text)
	vf.Assert(len(rs) == 1, "rows")
	s.f(rs[0])
	assertSame(g.g, want, "shape")
}

// fresh gives the elements of the graph that are not in s.
func fresh(g *lpg.Graph, s snap) (ns []nodeSnap, es []edgeSnap) {
	now := takeSnap(g)
	for _, n := range now.nodes {
		if s.node(n.n) == nil {
			ns = append(ns, n)
		}
	}
	for _, e := range now.edges {
		if s.edge(e.e) == nil {
			es = append(es, e)
		}
	}
	return
}

// elements without variables, and queries that return nothing
func P18_Anonymous() {
	g := somewhere(vf.Choice("nodes", 3))
	want := takeSnap(g.g)
	a, b := vf.Int("a"), vf.Int("b")
	ctx := bind(g.ctx(), a, b)
	q := []string{
		"create (:L {p: $a})-[:S {w: $b}]->(:X)",
		"create (x:L {p: $a})-[:S {w: $b}]->(y:X)",
		"create (:X)<-[:S {w: $b}]-(:L {p: $a})",
		"create (:X)<-[r:S {w: $b}]-(n:L {p: $a})",
		"create (n:L {p: $a}) create (n)-[:S {w: $b}]->(:X)",
	}[vf.Choice("query", 5)]
	if vf.Choice("return", 2) == 1 {
		q += " return 1 as one"
	}
	_, err := oc_eval(ctx, q)
	must(err, "error")
	ns, es := fresh(g.g, want)
	vf.Assert(len(ns) == 2 && len(es) == 1, "anonymous-count")
	x, y := ns[0].n, ns[1].n
	if !ns[0].labels["L"] {
		x, y = y, x
	}
	want.newNode(x, []string{"L"}, props{"p": a}, "x")
	want.newNode(y, []string{"X"}, nil, "y")
	want.newEdge(es[0].e, "S", x, y, props{"w": b}, "r")
	assertSame(g.g, want, "anonymous")
}

// one set of elements for each row
func P18_Rows() {
	n := vf.Choice("nodes", 4)
	g := graphOf(n)
	g.symLabels([]string{"A"}, []string{"B"})
	p := make([]int, n)
	for i, x := range g.nodes {
		p[i] = vf.Int("p" + digit(i))
		x.SetProperty("p", p[i])
	}
	k := vf.Int("k")
	want := takeSnap(g.g)
	type q struct {
		text string
		f    func(i int, r row)
	}
	w := &want
	M := []string{"M"}
	qs := []q{
		{"match (n:A) create (n)-[r:R {w: n.p}]->(m:M {p: n.p + $a}) return n as n, r as r, m as m", func(i int, r row) {
			m := w.newNode(r["m"], M, props{"p": p[i] + k}, "m")
			w.newEdge(r["r"], "R", g.nodes[i], m, props{"w": p[i]}, "r")
		}},
		{"match (n:A) create (m:M {p: n.p}) return n as n, m as m", func(i int, r row) {
			w.newNode(r["m"], M, props{"p": p[i]}, "m")
		}},
		{"match (n:A) create (m:M)<-[r:R]-(n) return n as n, m as m, r as r", func(i int, r row) {
			m := w.newNode(r["m"], M, nil, "m")
			w.newEdge(r["r"], "R", g.nodes[i], m, nil, "r")
		}},
		{"match (n:A) create (n)-[r:R {w: $a}]->(n) return n as n, r as r", func(i int, r row) {
			w.newEdge(r["r"], "R", g.nodes[i], g.nodes[i], props{"w": k}, "r")
		}},
		{"match (n:A) create (m:M {p: n.p}) create (m)-[r:R {w: m.p}]->(n) return n as n, m as m, r as r", func(i int, r row) {
			m := w.newNode(r["m"], M, props{"p": p[i]}, "m")
			w.newEdge(r["r"], "R", m, g.nodes[i], props{"w": p[i]}, "r")
		}},
		{"match (n:A) create (m:M), (o:M {p: n.p}), (m)-[r:R]->(o) return n as n, m as m, o as o, r as r", func(i int, r row) {
			m, o := w.newNode(r["m"], M, nil, "m"), w.newNode(r["o"], M, props{"p": p[i]}, "o")
			w.newEdge(r["r"], "R", m, o, nil, "r")
		}},
	}
	s := qs[vf.Choice("query", len(qs))]
	rs := run(bind(g.ctx(), k), s.text)
	seen := map[int]bool{}
	for _, r := range rs {
		i := g.index(r["n"].(*lpg.Node))
		vf.Assert(i >= 0 && g.nodes[i].HasLabel("A") && !seen[i], "row")
		seen[i] = true
		s.f(i, r)
	}
	for i, x := range g.nodes {
		vf.Assert(seen[i] == x.HasLabel("A"), "row-missing")
	}
	assertSame(g.g, want, "rows")
}

// bound nodes are reused
func P18_Bound() {
	g := somewhere(2)
	want := takeSnap(g.g)
	k := vf.Int("k")
	ctx := bind(g.ctx(), k)
	switch vf.Choice("query", 4) {
	case 0:
		// by a variable of the context
		ctx.SetVar("n", rv(g.nodes[1]))
		rs := run(ctx, "create (n)-[r:S {w: $a}]->(m:M) return r as r, m as m")
		vf.Assert(len(rs) == 1, "rows")
		m := want.newNode(rs[0]["m"], []string{"M"}, nil, "m")
		want.newEdge(rs[0]["r"], "S", g.nodes[1], m, props{"w": k}, "r")
	case 1:
		rs := run(ctx, "match (n)-[e:R]->(m) create (m)-[r:S {w: e.w}]->(n) return r as r")
		vf.Assert(len(rs) == 1, "rows")
		w, _ := g.edges[0].GetProperty("w")
		want.newEdge(rs[0]["r"], "S", g.nodes[1], g.nodes[0], props{"w": native(w)}, "r")
	case 2:
		rs := run(ctx, "match (n)-[:R]->(m) create (m)-[r:S {w: n.p + m.p}]->(n) return r as r")
		vf.Assert(len(rs) == 1, "rows")
		a, _ := g.nodes[0].GetProperty("p")
		b, _ := g.nodes[1].GetProperty("p")
		want.newEdge(rs[0]["r"], "S", g.nodes[1], g.nodes[0], props{"w": native(a).(int) + native(b).(int)}, "r")
	case 3:
		rs := run(ctx, "match (n)-[:R]->(m) create (n)<-[r:S]-(o:M)-[s:S]->(m) return r as r, s as s, o as o")
		vf.Assert(len(rs) == 1, "rows")
		o := want.newNode(rs[0]["o"], []string{"M"}, nil, "o")
		want.newEdge(rs[0]["r"], "S", o, g.nodes[0], nil, "r")
		want.newEdge(rs[0]["s"], "S", o, g.nodes[1], nil, "s")
	}
	assertSame(g.g, want, "bound")
}

// one relationship for each pair of rows
func P18_Pairs() {
	g := graphOf(vf.Choice("nodes", vf.Pick(3, 4)))
	g.symLabels([]string{"A"}, []string{"B"}, []string{"A", "B"})
	g.symEdges(1, []string{"R"})
	want := takeSnap(g.g)
	k := vf.Int("k")
	rs := run(bind(g.ctx(), k), "match (n:A) match (m:B) create (n)-[r:R {w: $a}]->(m) return n as n, m as m, r as r")
	seen := map[[2]int]bool{}
	for _, r := range rs {
		i, j := g.index(r["n"].(*lpg.Node)), g.index(r["m"].(*lpg.Node))
		vf.Assert(!seen[[2]int{i, j}], "pair-repeated")
		seen[[2]int{i, j}] = true
		want.newEdge(r["r"], "R", g.nodes[i], g.nodes[j], props{"w": k}, "r")
	}
	for i, n := range g.nodes {
		for j, m := range g.nodes {
			vf.Assert(seen[[2]int{i, j}] == (n.HasLabel("A") && m.HasLabel("B")), "pair")
		}
	}
	assertSame(g.g, want, "pairs")
}

// clauses see what earlier clauses created, and the context keeps the variables
func P18_Sequence() {
	g := somewhere(1)
	want := takeSnap(g.g)
	a, b := vf.Int("a"), vf.Int("b")
	ctx := bind(g.ctx(), a, b)
	run(ctx, "create (n:L {p: $a})")
	rs := run(ctx, "create (n)-[r:R {w: n.p}]->(m:M {p: $b}) return n as n, r as r, m as m")
	vf.Assert(len(rs) == 1, "rows")
	n := want.newNode(rs[0]["n"], []string{"L"}, props{"p": a}, "n")
	m := want.newNode(rs[0]["m"], []string{"M"}, props{"p": b}, "m")
	want.newEdge(rs[0]["r"], "R", n, m, props{"w": a}, "r")
	assertSame(g.g, want, "sequence")
	// again, in a fresh context: new elements
	rs = run(bind(g.ctx(), a, b), "create (n:L {p: $a}) set n.q = $b return n as n")
	vf.Assert(len(rs) == 1, "rows")
	want.newNode(rs[0]["n"], []string{"L"}, props{"p": a, "q": b}, "again")
	assertSame(g.g, want, "again")
}

// createdPath creates a path of n relationships, in alternating directions.
func createdPath(g *G, want *snap, n int) {
	q := "create p = (n0)"
	out := "p as p, n0 as n0"
	for i := 1; i <= n; i++ {
		d := digit(i)
		if i%2 == 1 {
			q += "-[r" + d + ":R" + d + "]->"
		} else {
			q += "<-[r" + d + ":R" + d + "]-"
		}
		q += "(n" + d + ")"
		out += ", r" + d + " as r" + d + ", n" + d + " as n" + d
	}
	rs := run(g.ctx(), q+" return "+out)
	vf.Assert(len(rs) == 1, "rows")
	p, ok := rs[0]["p"].(*lpg.Path)
	vf.Assert(ok && p.NumEdges() == n, "path-length")
	prev := want.newNode(rs[0]["n0"], nil, nil, "n0")
	vf.Assert(p.First() == prev, "first")
	for i := 1; i <= n; i++ {
		d := digit(i)
		x := want.newNode(rs[0]["n"+d], nil, nil, "n")
		from, to := prev, x
		if i%2 == 0 {
			from, to = x, prev
		}
		e := want.newEdge(rs[0]["r"+d], "R"+d, from, to, nil, "r")
		vf.Assert(p.GetEdge(i-1) == e, "path-edge")
		prev = x
	}
	vf.Assert(p.Last() == prev, "last")
}

// a path variable is bound to the created path
func P18_PathVariable() {
	g := somewhere(1)
	want := takeSnap(g.g)
	switch vf.Choice("query", 4) {
	case 3:
		many := 3 + vf.Choice("many", vf.Pick(2, 4))
		createdPath(g, &want, many)
	case 0:
		rs := run(g.ctx(), "create p = (x:A)-[r:R]->(y:B) return p as p, x as x, y as y, r as r")
		vf.Assert(len(rs) == 1, "rows")
		x, y := want.newNode(rs[0]["x"], []string{"A"}, nil, "x"), want.newNode(rs[0]["y"], []string{"B"}, nil, "y")
		e := want.newEdge(rs[0]["r"], "R", x, y, nil, "r")
		p, ok := rs[0]["p"].(*lpg.Path)
		vf.Assert(ok && p.NumEdges() == 1 && p.GetEdge(0) == e && p.First() == x && p.Last() == y, "path")
	case 1:
		rs := run(g.ctx(), "create p = (x:A)<-[r:R]-(y:B)-[s:S]->(z) return p as p, x as x, y as y, z as z, r as r, s as s")
		vf.Assert(len(rs) == 1, "rows")
		x, y, z := want.newNode(rs[0]["x"], []string{"A"}, nil, "x"), want.newNode(rs[0]["y"], []string{"B"}, nil, "y"), want.newNode(rs[0]["z"], nil, nil, "z")
		e := want.newEdge(rs[0]["r"], "R", y, x, nil, "r")
		f := want.newEdge(rs[0]["s"], "S", y, z, nil, "s")
		p, ok := rs[0]["p"].(*lpg.Path)
		vf.Assert(ok && p.NumEdges() == 2 && p.GetEdge(0) == e && p.GetEdge(1) == f && p.First() == x && p.Last() == z, "path")
	case 2:
		rs := run(g.ctx(), "create p = (x:A) return p as p, x as x")
		vf.Assert(len(rs) == 1, "rows")
		x := want.newNode(rs[0]["x"], []string{"A"}, nil, "x")
		if n, ok := rs[0]["p"].(*lpg.Node); ok {
			vf.Assert(n == x, "path")
		} else {
			p, ok := rs[0]["p"].(*lpg.Path)
			vf.Assert(ok && p.NumEdges() == 0 && p.First() == x, "path")
		}
	}
	assertSame(g.g, want, "path")
}

// a bound node cannot be given labels or properties again
func P18_BoundWithLabels() {
	g := somewhere(2)
	want := takeSnap(g.g)
	q := []string{"match (n:A) create (n:L)", "match (n:A) create (n {p: $a})", "match (n:A) create (n:L)-[:R]->(m)", "match (n)-[r:R]->(m) create (n)-[r:S]->(m)"}[vf.Choice("query", 4)]
	_, err := oc_eval(bind(g.ctx(), vf.Int("a")), q)
	vf.Assert((err != nil) == (q[:9] != "match (n:" || g.nodes[0].HasLabel("A") || g.nodes[1].HasLabel("A")), "error")
	assertSame(g.g, want, "unchanged")
}

// what was created is found by later queries
func P18_Findable() {
	g := somewhere(vf.Choice("nodes", 3))
	a := vf.Int("a")
	ctx := bind(g.ctx(), a)
	rs := run(ctx, "create (x:L {p: $a})-[r:T]->(y:M) return x as x, r as r, y as y")
	vf.Assert(len(rs) == 1, "rows")
	x, y := rs[0]["x"], rs[0]["y"]
	for _, q := range []string{
		"match (n:L) return n as n", "match (n:L)-[:T]->(m:M) return n as n, m as m", "match (m)<-[r:T]-(n) return n as n, m as m",
		"match (n)-[r:T]->(m:M) return n as n, m as m", "match (n) match (n)-[:T]->(m) return n as n, m as m", "match (n) where n.p = $a match (n:L) return n as n",
	} {
		rs := run(bind(g.ctx(), a), q)
		vf.Assert(len(rs) == 1, "found")
		vf.Assert(rs[0]["n"] == x, "found-from")
		if m, ok := rs[0]["m"]; ok {
			vf.Assert(m == y, "found-to")
		}
	}
}

// properties given as a whole by a parameter
func P18_Parameters() {
	g := somewhere(2)
	want := takeSnap(g.g)
	kinds := []int{kInt, kFloat, kStr, kBool, kNull, kList, kDate}
	m, p := map[string]oc.Value{}, props{}
	n := vf.Choice("props", 3)
	for i := 0; i < n; i++ {
		k := kinds[vf.Choice("kind"+digit(i), len(kinds))]
		v := value(k, "v"+digit(i))
		m["k"+digit(i)] = rv(v)
		if k != kNull {
			p["k"+digit(i)] = v
		}
	}
	ctx := g.ctx()
	ctx.SetParameter("$m", rv(m))
	switch vf.Choice("on", 4) {
	case 0:
		rs := run(ctx, "create (n:A $m) return n as n")
		vf.Assert(len(rs) == 1, "rows")
		want.newNode(rs[0]["n"], []string{"A"}, p, "node")
	case 1:
		rs := run(ctx, "create (n:A)-[r:R $m]->(m $m) return n as n, r as r, m as m")
		vf.Assert(len(rs) == 1, "rows")
		x, y := want.newNode(rs[0]["n"], []string{"A"}, nil, "x"), want.newNode(rs[0]["m"], nil, p, "y")
		want.newEdge(rs[0]["r"], "R", x, y, p, "r")
	case 2:
		rs := run(ctx, "match (n:X) create (m:L $m) return n as n, m as m")
		k := 0
		for _, x := range g.nodes {
			if want.node(x).labels["X"] {
				k++
			}
		}
		vf.Assert(len(rs) == k, "rows")
		for _, r := range rs {
			want.newNode(r["m"], []string{"L"}, p, "row")
		}
	case 3: // only a map of properties will do
		k := vf.Choice("kind", nKinds)
		if k == kMap {
			return
		}
		ctx.SetParameter("$m", rv(value(k, "v")))
		_, err := oc_eval(ctx, "create (n:A $m)")
		vf.Assert(err != nil, "not-a-map")
		return
	}
	assertSame(g.g, want, "parameters")
}

// one set of elements for each row, when nothing is bound
func P18_UnnamedRows() {
	n := vf.Choice("nodes", 4)
	g := graphOf(n)
	g.symLabels([]string{"A"})
	g.symEdges(1, []string{"R"})
	as := 0
	for _, x := range g.nodes {
		if x.HasLabel("A") {
			as++
		}
	}
	a := vf.Int("a")
	want := takeSnap(g.g)
	type q struct {
		text string
		rows int
	}
	s := []q{
		{"match (:A) create (:M {p: $a})", as},
		{"match () create (:M {p: $a})", n},
		{"match (), () create (:M {p: $a})", n * n},
		{"match (:A) match () create (:M {p: $a})", as * n},
		{"match ()-[]->() create (:M {p: $a})", len(g.edges)},
		{"match ()-[]->(), (:A) create (:M {p: $a})", len(g.edges) * as},
	}[vf.Choice("query", 6)]
	_, err := oc_eval(bind(g.ctx(), a), s.text)
	must(err, "error")
	ns, es := fresh(g.g, want)
	vf.Assert(len(ns) == s.rows && len(es) == 0, "unnamed-rows")
	for _, x := range ns {
		want.newNode(x.n, []string{"M"}, props{"p": a}, "m")
	}
	assertSame(g.g, want, "unnamed")
}

var _ = vf.Reg("P18_ManyLabels", P18_ManyLabels)
var _ = vf.Reg("P18_PathOfNode", P18_PathOfNode)
var _ = vf.Reg("P18_PropertyNames", P18_PropertyNames)

// any number of labels and of properties
func P18_ManyLabels() {
	g := somewhere(1)
	want := takeSnap(g.g)
	n, m := vf.Choice("labels", 9), vf.Choice("properties", 9)
	var labels []string
	props := map[string]interface{}{}
	ctx := g.ctx()
	q := "create (x"
	for i := 0; i < n; i++ {
		labels = append(labels, "L"+digit(i))
		q += ":L" + digit(i)
	}
	for i := 0; i < m; i++ {
		v := vf.Int("v" + digit(i))
		props["p"+digit(i)] = v
		ctx.SetParameter("$v"+digit(i), rv(v))
		q += []string{" {", ", "}[vf.IteInt(i > 0, 1, 0)] + "p" + digit(i) + ": $v" + digit(i)
	}
	if m > 0 {
		q += "}"
	}
	rs := run(ctx, q+") return x as x")
	vf.Assert(len(rs) == 1, "rows")
	want.newNode(rs[0]["x"], labels, props, "x")
	assertSame(g.g, want, "many")
}

// a path variable of a pattern that is a single node, also where the variable has
// a value already
func P18_PathOfNode() {
	g := somewhere(2)
	want := takeSnap(g.g)
	ctx := g.ctx()
	if vf.Choice("bound", 2) == 1 {
		ctx.SetVar("p", rv([]interface{}{nil, vf.Int("v"), g.nodes[0]}[vf.Choice("value", 3)]))
	}
	q := []string{"create p = (:X)", "match (n) create p = (:X)", "create p = (x:X)", "match (n:A) create p = (:X), (:Y)"}[vf.Choice("query", 4)]
	_, err := oc_eval(ctx, q)
	must(err, "error")
	rows := 1
	switch q[:9] {
	case "match (n)":
		rows = 2
	case "match (n:":
		rows = 0
		for _, n := range g.nodes {
			if n.HasLabel("A") {
				rows++
			}
		}
	}
	ns, es := fresh(g.g, want)
	x := 0
	for _, n := range ns {
		if n.labels["X"] {
			x++
		}
		vf.Assert(len(n.labels) == 1 && len(n.props) == 0, "contents")
	}
	vf.Assert(x == rows && len(es) == 0, "created")
}

// properties are stored under the names that were written
func P18_PropertyNames() {
	names := []string{"$p", "1", "a b", "a.b", "`", "P", "p", "", "match", "é", "_", "$", "a:b", "'", " "}
	k := names[vf.Choice("name", len(names))]
	a := vf.Int("a")
	g := graphOf(1)
	want := takeSnap(g.g)
	e := oc.EscapePropertyKeyLiteral(k)
	if k == "" {
		return
	}
	rs := run(bind(g.ctx(), a), "create (x {"+e+": $a})-[r:R {"+e+": $a}]->(y) set y."+e+" = $a return x as x, r as r, y as y")
	vf.Assert(len(rs) == 1, "rows")
	props := map[string]interface{}{k: a}
	x := want.newNode(rs[0]["x"], nil, props, "x")
	y := want.newNode(rs[0]["y"], nil, props, "y")
	want.newEdge(rs[0]["r"], "R", x, y, props, "r")
	assertSame(g.g, want, "names")
	v, err := oc_eval(bind(g.ctx(), a), "match (x {"+e+": $a})-[r {"+e+": $a}]->(y) return x."+e+" + r."+e+" + y."+e+" as s")
	must(err, "error")
	vf.Assert(single(v) == a+a+a, "read")
}
