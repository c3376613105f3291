package h

import (
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P27_Create", P27_Create)
var _ = vf.Reg("P27_CreateRows", P27_CreateRows)
var _ = vf.Reg("P27_Kinds", P27_Kinds)
var _ = vf.Reg("P27_Parameter", P27_Parameter)
var _ = vf.Reg("P27_Merge", P27_Merge)
var _ = vf.Reg("P27_MergeActions", P27_MergeActions)
var _ = vf.Reg("P27_Set", P27_Set)
var _ = vf.Reg("P27_SetMap", P27_SetMap)
var _ = vf.Reg("P27_SetNode", P27_SetNode)
var _ = vf.Reg("P27_Mixed", P27_Mixed)
var _ = vf.Reg("P27_ReadBack", P27_ReadBack)
var _ = vf.Reg("P27_NotWritten", P27_NotWritten)

// filtered is what the property filter of these harnesses returns: a record of
// the key and the value it was given.
type filtered struct {
	key string
	v   interface{}
}

// filterCtx is a context with or without a filter, possibly derived from the one
// the filter was installed on; f gives the property expected for a value.
func filterCtx(g *G) (*oc.EvalContext, func(key string, v interface{}) interface{}) {
	ctx := g.ctx()
	k := vf.Choice("filter", 4)
	if k == 0 {
		return ctx, func(key string, v interface{}) interface{} { return v }
	}
	ctx.PropertyValueFromNativeFilter = func(key string, v interface{}) interface{} {
		_, ok := v.(oc.Value)
		vf.Assert(!ok, "filter-gets-plain-value")
		return &filtered{key, v}
	}
	for ; k > 1; k-- {
		ctx = ctx.SubContext()
	}
	return ctx, func(key string, v interface{}) interface{} { return &filtered{key, v} }
}

// created nodes and relationships, in every position of a path
func P27_Create() {
	g := somewhere(vf.Choice("nodes", 2))
	want := takeSnap(g.g)
	a, b, c := vf.Int("a"), vf.Str("b", 0, 1, ""), vf.Bool("c")
	ctx, f := filterCtx(g)
	bind(ctx, a, b, c)
	left := vf.Choice("left", 2) == 1
	r := "-[r:R {p: $c, w: $a + 1}]->"
	if left {
		r = "<-[r:R {p: $c, w: $a + 1}]-"
	}
	rs := run(ctx, "create (x:A {p: $a, q: $b})"+r+"(y:B {p: $b, z: null}), (z {w: $a}) return x as x, y as y, z as z, r as r")
	vf.Assert(len(rs) == 1, "rows")
	x := want.newNode(rs[0]["x"], []string{"A"}, props{"p": f("p", a), "q": f("q", b)}, "x")
	y := want.newNode(rs[0]["y"], []string{"B"}, props{"p": f("p", b)}, "y")
	want.newNode(rs[0]["z"], nil, props{"w": f("w", a)}, "z")
	if left {
		x, y = y, x
	}
	want.newEdge(rs[0]["r"], "R", x, y, props{"p": f("p", c), "w": f("w", a+1)}, "r")
	assertSame(g.g, want, "create")
}

// one creation per row, from the row's own values
func P27_CreateRows() {
	g, p, q := marked(vf.Choice("nodes", vf.Pick(3, 4)))
	want := takeSnap(g.g)
	ctx, f := filterCtx(g)
	rs := run(ctx, "match (n:A) create (m:X {p: n.p, q: n.q})-[r:S {q: n.q}]->(n) return n as n, m as m, r as r")
	c := 0
	for i, n := range g.nodes {
		if !n.HasLabel("A") {
			continue
		}
		c++
		for _, r := range rs {
			if r["n"] != interface{}(n) {
				continue
			}
			ps := props{"q": f("q", q[i].v)}
			if p[i].ok {
				ps["p"] = f("p", p[i].v)
			}
			m := want.newNode(r["m"], []string{"X"}, ps, "m")
			want.newEdge(r["r"], "S", m, n, props{"q": f("q", q[i].v)}, "r")
		}
	}
	vf.Assert(len(rs) == c, "rows")
	assertSame(g.g, want, "rows")
}

// values of every kind
func P27_Kinds() {
	g := graphOf(1)
	want := takeSnap(g.g)
	k := []int{kInt, kFloat, kStr, kBool, kDur, kDate, kTime, kDateTime, kList}[vf.Choice("kind", 9)]
	v := value(k, "v")
	ctx, f := filterCtx(g)
	bind(ctx, v)
	switch vf.Choice("clause", 4) {
	case 0:
		rs := run(ctx, "create (n:A {p: $a}) return n as n")
		want.newNode(rs[0]["n"], []string{"A"}, props{"p": f("p", v)}, "create")
	case 1:
		run(ctx, "match (n) set n.p = $a return n as n")
		want.put(g.nodes[0], "p", f("p", v))
	case 2:
		run(ctx, "match (n) set n += {p: $a} return n as n")
		want.put(g.nodes[0], "p", f("p", v))
	case 3:
		run(ctx, "match (n) set n = {p: $a} return n as n")
		want.put(g.nodes[0], "p", f("p", v))
	}
	assertSame(g.g, want, "kinds")
}

// properties given as a parameter
func P27_Parameter() {
	g := graphOf(1)
	want := takeSnap(g.g)
	a, b := vf.Int("a"), vf.Str("b", 0, 1, "")
	ctx, f := filterCtx(g)
	bind(ctx, map[string]oc.Value{"p": rv(a), "q": rv(b), "z": rv(nil)})
	ps := props{"p": f("p", a), "q": f("q", b)}
	switch vf.Choice("clause", 4) {
	case 0:
		rs := run(ctx, "create (n $a) return n as n")
		want.newNode(rs[0]["n"], nil, ps, "n")
	case 1:
		rs := run(ctx, "create (n)-[r:R $a]->(m) return n as n, m as m, r as r")
		n, m := want.newNode(rs[0]["n"], nil, props{}, "n"), want.newNode(rs[0]["m"], nil, props{}, "m")
		want.newEdge(rs[0]["r"], "R", n, m, ps, "r")
	case 2:
		run(ctx, "match (n) set n += $a return n as n")
		want.put(g.nodes[0], "p", ps["p"])
		want.put(g.nodes[0], "q", ps["q"])
	case 3:
		run(ctx, "match (n) set n = $a return n as n")
		want.put(g.nodes[0], "p", ps["p"])
		want.put(g.nodes[0], "q", ps["q"])
	}
	assertSame(g.g, want, "parameter")
}

// what MERGE creates; what it matches is left alone
func P27_Merge() {
	g, p, q := marked(vf.Choice("nodes", 3))
	want := takeSnap(g.g)
	a, b := vf.Int("a"), vf.Int("b")
	ctx, f := filterCtx(g)
	bind(ctx, a, b)
	switch vf.Choice("shape", 3) {
	case 0:
		n := 0
		for i, x := range g.nodes {
			if x.HasLabel("A") && p[i].ok && p[i].v == a {
				n++
			}
		}
		rs := run(ctx, "merge (n:A {p: $a}) return n as n")
		if n == 0 {
			want.newNode(rs[0]["n"], []string{"A"}, props{"p": f("p", a)}, "n")
		}
	case 1:
		rs := run(ctx, "merge (n:L {p: $a})-[r:S {w: $b}]->(m:X {q: $b, p: $a}) return n as n, m as m, r as r")
		n := want.newNode(rs[0]["n"], []string{"L"}, props{"p": f("p", a)}, "n")
		m := want.newNode(rs[0]["m"], []string{"X"}, props{"q": f("q", b), "p": f("p", a)}, "m")
		want.newEdge(rs[0]["r"], "S", n, m, props{"w": f("w", b)}, "r")
	case 2:
		rs := run(ctx, "match (n:A) merge (n)-[r:S {w: n.q}]->(m:X {q: n.q}) return n as n, m as m, r as r")
		for i, x := range g.nodes {
			if !x.HasLabel("A") {
				continue
			}
			for _, r := range rs {
				if r["n"] == interface{}(x) {
					m := want.newNode(r["m"], []string{"X"}, props{"q": f("q", q[i].v)}, "m")
					want.newEdge(r["r"], "S", x, m, props{"w": f("w", q[i].v)}, "r")
				}
			}
		}
	}
	assertSame(g.g, want, "merge")
}

// the SET of a MERGE
func P27_MergeActions() {
	g, p, _ := marked(vf.Choice("nodes", vf.Pick(3, 4)))
	want := takeSnap(g.g)
	a, b := vf.Int("a"), vf.Int("b")
	ctx, f := filterCtx(g)
	bind(ctx, a, b)
	q := "merge (n:A {p: $a}) on create set n.q = $b, n += {z: $a} on match set n.z = $b + 1, n += {q: $a} return n as n"
	rs := run(ctx, q)
	found := false
	for i, x := range g.nodes {
		if x.HasLabel("A") && p[i].ok && p[i].v == a {
			found = true
			want.put(x, "z", f("z", b+1))
			want.put(x, "q", f("q", a))
		}
	}
	if !found {
		vf.Assert(len(rs) == 1, "rows")
		want.newNode(rs[0]["n"], []string{"A"}, props{"p": f("p", a), "q": f("q", b), "z": f("z", a)}, "n")
	}
	assertSame(g.g, want, "actions")
}

// single properties, of every row
func P27_Set() {
	g, p, q := marked(vf.Choice("nodes", vf.Pick(3, 4)))
	want := takeSnap(g.g)
	a := vf.Int("a")
	ctx, f := filterCtx(g)
	bind(ctx, a)
	run(ctx, "match (n:A) set n.z = n.q + $a, n.y = n.p, n.q = $a return n as n")
	for i, x := range g.nodes {
		if !x.HasLabel("A") {
			continue
		}
		want.put(x, "z", f("z", q[i].v+a))
		if p[i].ok {
			want.put(x, "y", f("y", p[i].v))
		}
		want.put(x, "q", f("q", a))
	}
	assertSame(g.g, want, "set")
}

// maps, replacing and adding
func P27_SetMap() {
	g, _, q := marked(vf.Choice("nodes", vf.Pick(3, 4)))
	want := takeSnap(g.g)
	a := vf.Int("a")
	ctx, f := filterCtx(g)
	bind(ctx, a)
	replace := vf.Choice("replace", 2) == 1
	op := "+="
	if replace {
		op = "="
	}
	run(ctx, "match (n:A) set n "+op+" {p: $a, z: n.q, y: null} return n as n")
	for i, x := range g.nodes {
		if !x.HasLabel("A") {
			continue
		}
		if replace {
			want.put(x, "q", nil)
		}
		want.put(x, "p", f("p", a))
		want.put(x, "z", f("z", q[i].v))
	}
	assertSame(g.g, want, "map")
}

// the properties of another node
func P27_SetNode() {
	g, p, q := marked(2)
	want := takeSnap(g.g)
	ctx, f := filterCtx(g)
	replace := vf.Choice("replace", 2) == 1
	op := "+="
	if replace {
		op = "="
	}
	run(ctx, "match (n)-[:R]->(m) set m "+op+" n return n as n")
	m := g.nodes[1]
	if replace {
		want.put(m, "p", nil)
	}
	if p[0].ok {
		want.put(m, "p", f("p", p[0].v))
	}
	want.put(m, "q", f("q", q[0].v))
	assertSame(g.g, want, "node")
}

// several clauses in one query
func P27_Mixed() {
	g, _, q := marked(2)
	want := takeSnap(g.g)
	a := vf.Int("a")
	ctx, f := filterCtx(g)
	bind(ctx, a)
	rs := run(ctx, "match (n)-[:R]->(m) create (x:X {p: n.q}) set x.q = m.q merge (y:L {p: $a}) on create set y.q = n.q set n.q = $a return x as x, y as y")
	vf.Assert(len(rs) == 1, "rows")
	want.newNode(rs[0]["x"], []string{"X"}, props{"p": f("p", q[0].v), "q": f("q", q[1].v)}, "x")
	want.newNode(rs[0]["y"], []string{"L"}, props{"p": f("p", a), "q": f("q", q[0].v)}, "y")
	want.put(g.nodes[0], "q", f("q", a))
	assertSame(g.g, want, "mixed")
}

// what was filtered is what a query reads
func P27_ReadBack() {
	g := graphOf(1)
	a, b := vf.Int("a"), vf.Int("b")
	k := value([]int{kInt, kStr, kBool, kFloat}[vf.Choice("kind", 4)], "k")
	ctx := bind(g.ctx(), a, b)
	calls := 0
	ctx.PropertyValueFromNativeFilter = func(key string, v interface{}) interface{} {
		calls++
		if key == "p" {
			return k
		}
		return v
	}
	q := []string{
		"create (n {p: $a, q: $b}) return n.p as x, n.q as y",
		"match (n) set n.p = $a, n.q = $b return n.p as x, n.q as y",
		"match (n) set n += {q: $b, p: $a} return n.p as x, n.q as y",
		"match (n) set n = {q: $b, p: $a} return n.p as x, n.q as y",
		"merge (n:A) on create set n.p = $a, n.q = $b return n.p as x, n.q as y",
	}[vf.Choice("clause", 5)]
	rs := run(ctx, q)
	vf.Assert(len(rs) == 1, "rows")
	vf.Assert(identical(rs[0]["x"], k), "filtered")
	vf.Assert(identical(rs[0]["y"], b), "unfiltered")
	vf.Assert(calls == 2, "calls")
}

// reading, removing and labelling do not involve the filter
func P27_NotWritten() {
	g, _, _ := marked(2)
	a := vf.Int("a")
	ctx := bind(g.ctx(), a)
	ctx.PropertyValueFromNativeFilter = func(key string, v interface{}) interface{} {
		vf.Fail("filter-called")
		return nil
	}
	want := takeSnap(g.g)
	switch vf.Choice("clause", 6) {
	case 0:
		run(ctx, "match (n {q: $a})-[r {w: $a}]->(m) where n.p = m.p return n.p as x, r.w as y")
	case 1:
		run(ctx, "match (n)-[:R]->(m) remove n.q return m.q as x")
		want.put(g.nodes[0], "q", nil)
	case 2:
		run(ctx, "match (n)-[:R]->(m) set m:X return m.q as x")
		want.node(g.nodes[1]).labels["X"] = true
	case 3:
		run(ctx, "match (n)-[:R]->(m) set m.q = null return m.p as x")
		want.put(g.nodes[1], "q", nil)
	case 4:
		run(ctx, "match (n)-[:R]->(m) set m += {q: null, z: null} return m.p as x")
		want.put(g.nodes[1], "q", nil)
	case 5:
		run(ctx, "match (n)-[:R]->(m) merge (n)-[r:R]->(m) on create set m.q = $a return m.p as x")
	}
	assertSame(g.g, want, "left")
}
