package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P22_Node", P22_Node)
var _ = vf.Reg("P22_NodeKinds", P22_NodeKinds)
var _ = vf.Reg("P22_Path", P22_Path)
var _ = vf.Reg("P22_Bound", P22_Bound)
var _ = vf.Reg("P22_Rows", P22_Rows)
var _ = vf.Reg("P22_RowsMatch", P22_RowsMatch)
var _ = vf.Reg("P22_Actions", P22_Actions)
var _ = vf.Reg("P22_RowActions", P22_RowActions)
var _ = vf.Reg("P22_Sequence", P22_Sequence)
var _ = vf.Reg("P22_RelationshipProperties", P22_RelationshipProperties)
var _ = vf.Reg("P22_Parameters", P22_Parameters)

// merged compares the rows of a MERGE with the elements that match.
func mergedNodes(rs []row, want []*lpg.Node, v, id string) {
	vf.Assert(len(rs) == len(want), id+"-rows")
	for _, n := range want {
		k := 0
		for _, r := range rs {
			if r[v] == interface{}(n) {
				k++
			}
		}
		vf.Assert(k == 1, id+"-match-bound")
	}
}

// a single node: matched by label and property or created, and the second time matched
func P22_Node() {
	g := graphOf(vf.Choice("nodes", vf.Pick(3, 4)))
	g.symLabels([]string{"A"}, []string{"B"}, []string{"A", "B"})
	p := g.optProps("p")
	a := vf.Int("a")
	want := takeSnap(g.g)
	var m []*lpg.Node
	for i, n := range g.nodes {
		if n.HasLabel("A") && p[i].ok && p[i].v == a {
			m = append(m, n)
		}
	}
	ctx := bind(g.ctx(), a)
	q := "merge (n:A {p: $a}) return n as n"
	rs := run(ctx, q)
	if len(m) == 0 {
		vf.Assert(len(rs) == 1, "created-rows")
		m = append(m, want.newNode(rs[0]["n"], []string{"A"}, props{"p": a}, "created"))
	} else {
		mergedNodes(rs, m, "n", "matched")
	}
	assertSame(g.g, want, "node")
	// again
	mergedNodes(run(bind(g.ctx(), a), q), m, "n", "again")
	assertSame(g.g, want, "again")
}

// values that a MERGE pattern can be matched on
func P22_NodeKinds() {
	g := graphOf(1)
	k := []int{kInt, kStr}[vf.Choice("kind", 2)]
	a, b := value(k, "a"), value(k, "b")
	g.nodes[0].SetLabels(labelSet("A"))
	g.nodes[0].SetProperty("p", b)
	want := takeSnap(g.g)
	two := vf.Choice("two", 2) == 1
	q := "merge (n:A {p: $a}) return n as n"
	ps := props{"p": a}
	if two {
		q = "merge (n:A {p: $a, q: 1}) return n as n"
		ps["q"] = 1
		if vf.Choice("hasq", 2) == 1 {
			g.nodes[0].SetProperty("q", 1)
			want = takeSnap(g.g)
			two = false
		}
	}
	rs := run(bind(g.ctx(), a), q)
	vf.Assert(len(rs) == 1, "rows")
	if vf.And(!two, equal(a, b)) {
		vf.Assert(rs[0]["n"] == interface{}(g.nodes[0]), "matched")
	} else {
		want.newNode(rs[0]["n"], []string{"A"}, ps, "created")
	}
	assertSame(g.g, want, "kinds")
	rs = run(bind(g.ctx(), a), q)
	vf.Assert(len(rs) == 1, "again-rows")
	assertSame(g.g, want, "again")
}

// a whole path is matched, or a whole path is created
func P22_Path() {
	g := graphOf(vf.Pick(2, 3))
	g.symLabels([]string{"A"}, []string{"B"}, []string{"A", "B"})
	g.symEdges(2, []string{"R", "S"})
	d := dirs[vf.Choice("dir", 3)]
	c := hops(nd("x", "A"), rel("r", d, "R"), nd("y", "B"))
	want := takeSnap(g.g)
	n := 0
	g.matchAll([]chain{c}, match{}, func(match) { n++ })
	q := "merge " + c.text() + " return x as x, r as r, y as y"
	v, err := oc_eval(g.ctx(), q)
	must(err, "error")
	rs := rows(v)
	if n > 0 {
		var ms []match
		g.matchAll([]chain{c}, match{}, func(m match) { ms = append(ms, m) })
		assertMatches(rs, ms, []string{"x", "r", "y"}, "matched")
	} else {
		vf.Assert(len(rs.Rows) == 1, "created-rows")
		r := rowsOf(rs)[0]
		x, y := want.newNode(r["x"], []string{"A"}, nil, "x"), want.newNode(r["y"], []string{"B"}, nil, "y")
		if d == '<' {
			want.newEdge(r["r"], "R", y, x, nil, "r")
		} else {
			want.newEdge(r["r"], "R", x, y, nil, "r")
		}
	}
	assertSame(g.g, want, "path")
	_, err = oc_eval(g.ctx(), q)
	must(err, "error")
	assertSame(g.g, want, "again")
}

// relationships between bound nodes
func P22_Bound() {
	g := graphOf(vf.Pick(2, 3))
	g.symLabels([]string{"A"}, []string{"B"}, []string{"A", "B"})
	g.symEdges(vf.Pick(1, 2), []string{"R", "S"})
	want := takeSnap(g.g)
	d := dirs[vf.Choice("dir", 2)]
	c := hops(nd("x"), rel("r", d, "R"), nd("y"))
	q := "match (x:A) match (y:B) merge " + c.text() + " return x as x, r as r, y as y"
	rs := run(g.ctx(), q)
	total := 0
	for i, x := range g.nodes {
		for j, y := range g.nodes {
			if !x.HasLabel("A") || !y.HasLabel("B") {
				continue
			}
			from, to := x, y
			if d == '<' {
				from, to = y, x
			}
			var es []*lpg.Edge
			for _, e := range g.edges {
				if e.GetLabel() == "R" && e.GetFrom() == from && e.GetTo() == to {
					es = append(es, e)
				}
			}
			var got []*lpg.Edge
			for _, r := range rs {
				if r["x"] == interface{}(x) && r["y"] == interface{}(y) {
					got = append(got, elem(r["r"]).(*lpg.Edge))
				}
			}
			if len(es) == 0 {
				vf.Assert(len(got) == 1, "created-once")
				// the opposite pair of rows may already have created it
				if want.edge(got[0]) == nil {
					want.newEdge(got[0], "R", from, to, nil, "r")
				}
				vf.Assert(got[0].GetFrom() == from && got[0].GetTo() == to, "ends")
				total++
				continue
			}
			vf.Assert(len(got) == len(es), "matched-all")
			for k, e := range es {
				_ = k
				found := false
				for _, f := range got {
					found = found || e == f
				}
				vf.Assert(found, "matched")
				total++
			}
			_, _ = i, j
		}
	}
	vf.Assert(len(rs) == total, "rows")
	assertSame(g.g, want, "bound")
	run(g.ctx(), q)
	assertSame(g.g, want, "again")
}

// a row sees what an earlier row created
func P22_Rows() {
	n := vf.Choice("nodes", vf.Pick(4, 4))
	g := graphOf(n)
	p := make([]int, n)
	for i, x := range g.nodes {
		x.SetLabels(labelSet("A"))
		p[i] = vf.Int("p" + digit(i))
		x.SetProperty("p", p[i])
	}
	want := takeSnap(g.g)
	rs := run(g.ctx(), "match (n:A) merge (m:M {p: n.p}) return n as n, m as m")
	vf.Assert(len(rs) == n, "rows")
	of := map[int]*lpg.Node{}
	for _, r := range rs {
		i := g.index(r["n"].(*lpg.Node))
		vf.Assert(of[i] == nil, "row-repeated")
		of[i] = r["m"].(*lpg.Node)
		if want.node(of[i]) == nil {
			want.newNode(of[i], []string{"M"}, props{"p": p[i]}, "m")
		}
	}
	for i := range p {
		for j := range p {
			vf.Assert(vf.Iff(of[i] == of[j], p[i] == p[j]), "one-per-value")
		}
	}
	assertSame(g.g, want, "rows")
}

// every match of every row is bound
func P22_RowsMatch() {
	g := graphOf(2)
	g.nodes[0].SetLabels(labelSet("A"))
	g.nodes[1].SetLabels(labelSet("A"))
	k := vf.Choice("targets", 3)
	a := vf.Int("a")
	var q []int
	for i := 0; i < k; i++ {
		q = append(q, vf.Int("q"+digit(i)))
		g.node([]string{"M"}, map[string]interface{}{"q": q[i]})
	}
	want := takeSnap(g.g)
	rs := run(bind(g.ctx(), a), "match (n:A) merge (m:M {q: $a}) return n as n, m as m")
	found := 0
	for i := 0; i < k; i++ {
		if q[i] == a {
			found++
		}
	}
	if found == 0 {
		m := want.newNode(rs[0]["m"], []string{"M"}, props{"q": a}, "m")
		vf.Assert(len(rs) == 2, "created-rows")
		vf.Assert(rs[1]["m"] == interface{}(m) && rs[0]["n"] != rs[1]["n"], "created-once")
	} else {
		vf.Assert(len(rs) == 2*found, "matched-rows")
		for i := 0; i < k; i++ {
			for _, n := range g.nodes[:2] {
				c := 0
				for _, r := range rs {
					if r["n"] == interface{}(n) && r["m"] == interface{}(g.nodes[2+i]) {
						c++
					}
				}
				vf.Assert(vf.Iff(q[i] == a, c == 1), "matched")
				vf.Assert(c <= 1, "matched-once")
			}
		}
	}
	assertSame(g.g, want, "rows")
}

// ON CREATE runs when it created, ON MATCH when it matched
func P22_Actions() {
	g := graphOf(vf.Choice("nodes", 3))
	p := make([]int, len(g.nodes))
	for i, x := range g.nodes {
		x.SetLabels(labelSet("A"))
		p[i] = vf.Int("p" + digit(i))
		x.SetProperty("p", p[i])
	}
	a, b, c := vf.Int("a"), vf.Int("b"), vf.Int("c")
	type act struct {
		text              string
		onCreate, onMatch func(n *lpg.Node)
	}
	want := takeSnap(g.g)
	none := func(n *lpg.Node) {}
	cr := func(n *lpg.Node) { want.put(n, "c", b) }
	ma := func(n *lpg.Node) { want.put(n, "m", c) }
	acts := []act{
		{" on create set n.c = $b", cr, none},
		{" on match set n.m = $c", none, ma},
		{" on create set n.c = $b on match set n.m = $c", cr, ma},
		{" on match set n.m = $c on create set n.c = $b", cr, ma},
		{" on create set n.c = $b, n:X on match set n.m = $c, n:L", func(n *lpg.Node) { cr(n); want.node(n).labels["X"] = true }, func(n *lpg.Node) { ma(n); want.node(n).labels["L"] = true }},
		{" on create set n.c = $b on create set n.d = $c", func(n *lpg.Node) { cr(n); want.put(n, "d", c) }, none},
		{" on match set n.m = $c on match set n.k = $b", none, func(n *lpg.Node) { ma(n); want.put(n, "k", b) }},
		{" on create set n.c = $b on match set n.m = $c on create set n.d = n.c on match set n.k = n.m", func(n *lpg.Node) { cr(n); want.put(n, "d", b) }, func(n *lpg.Node) { ma(n); want.put(n, "k", c) }},
		{" on match set n += {m: n.p} on create set n += {c: n.p}", func(n *lpg.Node) { want.put(n, "c", a) }, func(n *lpg.Node) { want.put(n, "m", a) }},
	}
	k := acts[vf.Choice("actions", len(acts))]
	tail := []string{"", " return n as n"}[vf.Choice("return", 2)]
	_, err := oc_eval(bind(g.ctx(), a, b, c), "merge (n:A {p: $a})"+k.text+tail)
	must(err, "error")
	matched := false
	for i, n := range g.nodes {
		if p[i] == a {
			matched = true
			k.onMatch(n)
		}
	}
	if !matched {
		ns, _ := fresh(g.g, want)
		vf.Assert(len(ns) == 1, "created")
		want.newNode(ns[0].n, []string{"A"}, props{"p": a}, "created")
		k.onCreate(ns[0].n)
	}
	assertSame(g.g, want, "actions")
}

// actions of one row concern that row's elements
func P22_RowActions() {
	g := graphOf(3)
	p := make([]int, 3)
	for i, x := range g.nodes {
		x.SetLabels(labelSet([]string{"A", "A", "M"}[i]))
		p[i] = vf.Int("p" + digit(i))
		x.SetProperty("p", p[i])
	}
	want := takeSnap(g.g)
	rs := run(g.ctx(), "match (n:A) merge (m:M {p: n.p}) on create set m.c = n.p, n.new = true on match set m.m = n.p, n.old = true return n as n, m as m")
	vf.Assert(len(rs) == 2, "rows")
	ns, _ := fresh(g.g, want)
	news := 0
	first := -1
	for i := 0; i < 2; i++ {
		if vf.And(p[i] == p[2]) {
			want.put(g.nodes[2], "m", p[i])
			want.put(g.nodes[i], "old", true)
			continue
		}
		if first >= 0 && p[first] == p[i] {
			// one of the two rows created it and the other matched it
			x := want.node(ns[0].n)
			x.props["m"] = p[i]
			_, made := g.nodes[first].GetProperty("new")
			c, o := first, i
			if !made {
				c, o = i, first
			}
			delete(want.node(g.nodes[first]).props, "new")
			want.put(g.nodes[c], "new", true)
			want.put(g.nodes[o], "old", true)
			continue
		}
		first = i
		vf.Assert(len(ns) > news, "created")
		for _, r := range rs {
			if r["n"] == interface{}(g.nodes[i]) {
				want.newNode(r["m"], []string{"M"}, props{"p": p[i], "c": p[i]}, "m")
			}
		}
		want.put(g.nodes[i], "new", true)
		news++
	}
	vf.Assert(len(ns) == news, "created-count")
	assertSame(g.g, want, "row-actions")
}

// clauses before and after a MERGE
func P22_Sequence() {
	g := graphOf(vf.Choice("nodes", 3))
	for _, n := range g.nodes {
		n.SetLabels(labelSet("A"))
		n.SetProperty("p", vf.Int("p"))
	}
	a := vf.Int("a")
	want := takeSnap(g.g)
	has := false
	var ms []*lpg.Node
	for _, n := range g.nodes {
		if native(want.node(n).props["p"]).(int) == a {
			has = true
			ms = append(ms, n)
		}
	}
	switch vf.Choice("query", 4) {
	case 0:
		run(bind(g.ctx(), a), "create (n:A {p: $a}) merge (m:A {p: $a}) return n as n, m as m")
		ns, _ := fresh(g.g, want)
		vf.Assert(len(ns) == 1, "create-then-merge")
		want.newNode(ns[0].n, []string{"A"}, props{"p": a}, "n")
	case 1:
		run(bind(g.ctx(), a), "merge (n:A {p: $a}) create (m:B {p: n.p}) return 1 as one")
		ns, _ := fresh(g.g, want)
		k := len(ms)
		if !has {
			k = 1
		}
		c := 0
		for _, n := range ns {
			if n.labels["A"] {
				c++
				want.newNode(n.n, []string{"A"}, props{"p": a}, "n")
			} else {
				k--
				want.newNode(n.n, []string{"B"}, props{"p": a}, "m")
			}
		}
		vf.Assert(k == 0, "create-per-row")
		vf.Assert(has == (c == 0), "merged")
	case 2:
		run(bind(g.ctx(), a), "merge (n:A {p: $a}) merge (m:A {p: $a}) return n as n, m as m")
		ns, _ := fresh(g.g, want)
		vf.Assert(has == (len(ns) == 0) && len(ns) <= 1, "merge-twice")
		for _, n := range ns {
			want.newNode(n.n, []string{"A"}, props{"p": a}, "n")
		}
	case 3:
		run(bind(g.ctx(), a), "merge (n:A {p: $a}) set n.q = n.p + 1 return n as n")
		ns, _ := fresh(g.g, want)
		vf.Assert(has == (len(ns) == 0) && len(ns) <= 1, "merge-set")
		for _, n := range ns {
			want.newNode(n.n, []string{"A"}, props{"p": a, "q": a + 1}, "n")
		}
		for _, n := range ms {
			want.put(n, "q", a+1)
		}
	}
	assertSame(g.g, want, "sequence")
}

// properties of the relationship take part in the match
func P22_RelationshipProperties() {
	g := graphOf(2)
	g.nodes[0].SetLabels(labelSet("A"))
	g.nodes[1].SetLabels(labelSet("B"))
	k := vf.Choice("edges", 3)
	var w []int
	for i := 0; i < k; i++ {
		w = append(w, vf.Int("w"+digit(i)))
		g.edge(0, 1, "R").SetProperty("w", w[i])
	}
	a, b := vf.Int("a"), vf.Int("b")
	want := takeSnap(g.g)
	rs := run(bind(g.ctx(), a, b), "match (x:A) match (y:B) merge (x)-[r:R {w: $a}]->(y) on create set x.c = $b return r as r")
	found := 0
	for i := range w {
		if w[i] == a {
			found++
		}
	}
	if found == 0 {
		vf.Assert(len(rs) == 1, "created-rows")
		want.newEdge(rs[0]["r"], "R", g.nodes[0], g.nodes[1], props{"w": a}, "r")
		want.put(g.nodes[0], "c", b)
	} else {
		vf.Assert(len(rs) == found, "matched-rows")
	}
	assertSame(g.g, want, "relationship")
}

var _ = vf.Reg("P22_FindingKinds", P22_FindingKinds)

// MERGE on properties that are neither integers nor strings
func P22_FindingKinds() {
	k := []int{kFloat, kBool}[vf.Choice("kind", 2)]
	a := value(k, "a")
	if f, ok := a.(float64); ok {
		vf.Assume(!isNaN(f))
	}
	g := graphOf(0)
	q := "merge (n:A {p: $a}) return n as n"
	run(bind(g.ctx(), a), q)
	run(bind(g.ctx(), a), q)
	vf.Assert(g.g.NumNodes() == 1, []string{"float-merged-twice", "bool-merged-twice"}[vf.IteInt(k == kBool, 1, 0)])
}

// properties given as a whole by a parameter
func P22_Parameters() {
	g := graphOf(2)
	g.symLabels([]string{"A"}, []string{"B"})
	p, q := g.optProps("p"), g.optProps("q")
	a, b := vf.Int("a"), vf.Int("b")
	two := vf.Choice("two", 2) == 1
	ps := props{"p": a}
	pm := map[string]oc.Value{"p": rv(a)}
	if two {
		ps["q"], pm["q"] = b, rv(b)
	}
	var m []*lpg.Node
	for i, n := range g.nodes {
		if n.HasLabel("A") && p[i].ok && p[i].v == a && (!two || q[i].ok && q[i].v == b) {
			m = append(m, n)
		}
	}
	want := takeSnap(g.g)
	merge := func() []row {
		ctx := g.ctx()
		ctx.SetParameter("$m", rv(pm))
		return run(ctx, "merge (n:A $m) return n as n")
	}
	rs := merge()
	if len(m) == 0 {
		vf.Assert(len(rs) == 1, "created-rows")
		m = append(m, want.newNode(rs[0]["n"], []string{"A"}, ps, "created"))
	} else {
		mergedNodes(rs, m, "n", "matched")
	}
	assertSame(g.g, want, "parameters")
	mergedNodes(merge(), m, "n", "again")
	assertSame(g.g, want, "again")
}

var _ = vf.Reg("P22_Null", P22_Null)

// null matches nothing and cannot be stored, so a pattern that asks for it
// could only be created again and again
func P22_Null() {
	g := graphOf(2)
	g.symLabels([]string{"A"}, []string{"B"})
	g.edge(0, 1, "R")
	g.nodes[vf.Choice("withq", 2)].SetProperty("q", vf.Int("q"))
	want := takeSnap(g.g)
	ctx := g.ctx()
	ctx.SetParameter("$n", rv(nil))
	ctx.SetParameter("$m", rv(map[string]oc.Value{"p": rv(nil)}))
	ctx.SetParameter("$o", rv(map[string]oc.Value{"k": rv(vf.Int("k")), "p": rv(nil)}))
	q := []string{
		"merge (n:A {p: null})",
		"merge (n:A {q: 1, p: $n})",
		"merge (n:A $m)",
		"merge (n:A $o)",
		"merge (n:A {p: 1 + $n}) return n as n",
		"merge (:A)-[r:R {p: null}]->(:B)",
		"merge (:A)-[r:R $m]->(:B) return r as r",
		"merge (:A)-[:R]->(:B {p: $n}) on create set n.c = 1",
	}[vf.Choice("query", 8)]
	for i := 0; i < 2; i++ {
		_, err := oc_eval(ctx, q)
		vf.Assert(err != nil, "no-error")
		assertSame(g.g, want, "unchanged")
	}
}

var _ = vf.Reg("P22_NullRow", P22_NullRow)

// the same for a value taken from a row
func P22_NullRow() {
	g := graphOf(1)
	g.symLabels([]string{"A"}, []string{"B"})
	has := vf.Choice("has", 2) == 1
	if has {
		g.nodes[0].SetProperty("p", vf.Int("p"))
	}
	want := takeSnap(g.g)
	q := "match (n:A) merge (m:M {p: n.p}) return m as m"
	for i := 0; i < 2; i++ {
		v, err := oc_eval(g.ctx(), q)
		if g.nodes[0].HasLabel("A") && !has {
			vf.Assert(err != nil, "no-error")
			assertSame(g.g, want, "unchanged")
			continue
		}
		must(err, "error")
		rs := rowsOf(rows(v))
		if !g.nodes[0].HasLabel("A") {
			vf.Assert(len(rs) == 0, "none")
		} else {
			vf.Assert(len(rs) == 1, "one")
			if i == 0 {
				want.newNode(rs[0]["m"], []string{"M"}, props{"p": native(want.node(g.nodes[0]).props["p"])}, "m")
			}
		}
		assertSame(g.g, want, "again")
	}
}

var _ = vf.Reg("P22_BoundUnnamed", P22_BoundUnnamed)

// one row for each match, also where the relationship has no variable
func P22_BoundUnnamed() {
	g := graphOf(2)
	g.nodes[0].SetLabels(labelSet("A"))
	g.nodes[1].SetLabels(labelSet("B"))
	g.symEdges(vf.Pick(2, 3), []string{"R", "S"})
	want := takeSnap(g.g)
	k := vf.Choice("query", 3)
	n := 0
	for _, e := range g.edges {
		if e.GetLabel() == "R" && e.GetFrom() == g.nodes[0] && e.GetTo() == g.nodes[1] {
			n++
		}
	}
	q := []string{"match (x:A) match (y:B) merge (x)-[:R]->(y) return x as x, y as y", "match (x:A), (y:B) merge (y)<-[:R]-(x) return x as x, y as y", "merge (x:A)-[:R]->(y:B) return x as x, y as y"}[k]
	rs := run(g.ctx(), q)
	if n > 0 {
		vf.Assert(len(rs) == n, "matched-rows")
	} else {
		vf.Assert(len(rs) == 1, "created-rows")
		x, y := g.nodes[0], g.nodes[1]
		if k == 2 {
			x, y = want.newNode(rs[0]["x"], []string{"A"}, nil, "x"), want.newNode(rs[0]["y"], []string{"B"}, nil, "y")
		}
		_, es := fresh(g.g, want)
		vf.Assert(len(es) == 1, "created")
		want.newEdge(es[0].e, "R", x, y, nil, "r")
	}
	if k < 2 || n > 0 {
		for _, r := range rs {
			vf.Assert(r["x"] == interface{}(g.nodes[0]) && r["y"] == interface{}(g.nodes[1]), "bound")
		}
	}
	assertSame(g.g, want, "bound-unnamed")
}
