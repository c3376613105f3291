package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	"verif/harness/vf"
)

var _ = vf.Reg("P21_Detach", P21_Detach)
var _ = vf.Reg("P21_Plain", P21_Plain)
var _ = vf.Reg("P21_Relationships", P21_Relationships)
var _ = vf.Reg("P21_NodesAndRelationships", P21_NodesAndRelationships)
var _ = vf.Reg("P21_Repeated", P21_Repeated)
var _ = vf.Reg("P21_Paths", P21_Paths)
var _ = vf.Reg("P21_LongPaths", P21_LongPaths)
var _ = vf.Reg("P21_Where", P21_Where)
var _ = vf.Reg("P21_Computed", P21_Computed)
var _ = vf.Reg("P21_Later", P21_Later)
var _ = vf.Reg("P21_ThenUpdate", P21_ThenUpdate)
var _ = vf.Reg("P21_Afterwards", P21_Afterwards)

// dropNode removes a node and its relationships from the expected graph.
func (s *snap) dropNode(n *lpg.Node) {
	var ns []nodeSnap
	for _, x := range s.nodes {
		if x.n != n {
			ns = append(ns, x)
		}
	}
	s.nodes = ns
	var es []edgeSnap
	for _, x := range s.edges {
		if x.from != n && x.to != n {
			es = append(es, x)
		}
	}
	s.edges = es
}

func (s *snap) dropEdge(e *lpg.Edge) {
	var es []edgeSnap
	for _, x := range s.edges {
		if x.e != e {
			es = append(es, x)
		}
	}
	s.edges = es
}

// small is any graph of n nodes with up to m relationships.
func small(n, m int, types ...string) *G {
	g := graphOf(n)
	g.symLabels([]string{"A"}, []string{"B"})
	for i, x := range g.nodes {
		x.SetProperty("p", vf.Int("p"+digit(i)))
	}
	g.symEdges(m, types)
	for i, e := range g.edges {
		e.SetProperty("w", vf.Int("w"+digit(i)))
	}
	return g
}

func P21_Detach() {
	g := small(1+vf.Choice("nodes", 3), vf.Pick(2, 3), "R")
	want := takeSnap(g.g)
	_, err := oc_eval(g.ctx(), "match (n:A) detach delete n")
	must(err, "error")
	for _, n := range g.nodes {
		if want.node(n).labels["A"] {
			want.dropNode(n)
		}
	}
	assertSame(g.g, want, "detach")
}

func P21_Plain() {
	g := small(1+vf.Choice("nodes", 3), 2, "R")
	want := takeSnap(g.g)
	_, err := oc_eval(g.ctx(), "match (n:A) delete n")
	attached := false
	for _, e := range want.edges {
		if want.node(e.from).labels["A"] || want.node(e.to).labels["A"] {
			attached = true
		}
	}
	vf.Assert((err != nil) == attached, "error-iff-attached")
	if err == nil {
		for _, n := range g.nodes {
			if want.node(n).labels["A"] {
				want.dropNode(n)
			}
		}
	}
	assertSame(g.g, want, "plain")
}

func P21_Relationships() {
	g := small(vf.Pick(2, 3), vf.Pick(2, 3), "R", "S")
	want := takeSnap(g.g)
	q := vf.Choice("query", 5)
	_, err := oc_eval(g.ctx(), []string{
		"match (n)-[r:R]->(m) delete r",
		"match (n)<-[r:R]-(m) detach delete r",
		"match (n:A)-[r]->(m) delete r",
		"match (n)-[r:R]-(m) delete r",
		"match (n)-[r:R|S]->(n) delete r",
	}[q])
	must(err, "error")
	for _, e := range append([]edgeSnap{}, want.edges...) {
		if [](func() bool){
			func() bool { return e.label == "R" },
			func() bool { return e.label == "R" },
			func() bool { return want.node(e.from).labels["A"] },
			func() bool { return e.label == "R" },
			func() bool { return e.from == e.to },
		}[q]() {
			want.dropEdge(e.e)
		}
	}
	assertSame(g.g, want, "relationships")
}

// nodes can be deleted together with all their relationships
func P21_NodesAndRelationships() {
	g := small(vf.Pick(2, 3), vf.Pick(3, 2), "R", "S")
	want := takeSnap(g.g)
	order := []string{"n, r", "r, n", "r, n, m", "r delete n"}[vf.Choice("order", 4)]
	_, err := oc_eval(g.ctx(), "match (n)-[r:R]->(m) delete "+order)
	gone := map[*lpg.Node]bool{}
	for _, e := range want.edges {
		if e.label == "R" {
			gone[e.from] = true
			if order == "r, n, m" {
				gone[e.to] = true
			}
		}
	}
	left := false
	for _, e := range want.edges {
		if e.label != "R" && (gone[e.from] || gone[e.to]) {
			left = true
		}
	}
	vf.Assert((err != nil) == left, "error-iff-attached")
	if err != nil && order == "r delete n" {
		// the first clause has been executed
		for _, e := range append([]edgeSnap{}, want.edges...) {
			if e.label == "R" {
				want.dropEdge(e.e)
			}
		}
	}
	if err == nil {
		for _, e := range append([]edgeSnap{}, want.edges...) {
			if e.label == "R" {
				want.dropEdge(e.e)
			}
		}
		for n := range gone {
			want.dropNode(n)
		}
	}
	assertSame(g.g, want, "both")
}

// elements reached through several rows and variables
func P21_Repeated() {
	g := small(vf.Pick(2, 3), vf.Pick(3, 2), "R")
	want := takeSnap(g.g)
	q := vf.Choice("query", 4)
	_, err := oc_eval(g.ctx(), []string{
		"match (n)-[r]->(m) detach delete n, m",
		"match (n)-[r]->(m) detach delete r, n, r, n",
		"match (n:A) match (m:A) detach delete n, m",
		"match (n)-[r]->(m) detach delete m return 1 as one",
	}[q])
	must(err, "error")
	a := map[*lpg.Node]bool{}
	for _, n := range g.nodes {
		a[n] = want.node(n).labels["A"]
	}
	switch q {
	case 2:
		for _, n := range g.nodes {
			if a[n] {
				want.dropNode(n)
			}
		}
	default:
		for _, e := range append([]edgeSnap{}, want.edges...) {
			if q != 3 {
				want.dropNode(e.from)
			}
			if q == 0 || q == 3 {
				want.dropNode(e.to)
			}
		}
	}
	assertSame(g.g, want, "repeated")
}

// deleting the relationships of variable length paths
func P21_Paths() {
	g := small(3, 2, "R", "S")
	want := takeSnap(g.g)
	_, err := oc_eval(g.ctx(), "match (n:A)-[r:R*1..2]->(m) delete r")
	must(err, "error")
	gone := map[*lpg.Edge]bool{}
	for _, e := range want.edges {
		if e.label == "R" && want.node(e.from).labels["A"] {
			gone[e.e] = true
			for _, f := range want.edges {
				if f.label == "R" && f.e != e.e && f.from == e.to {
					gone[f.e] = true
				}
			}
		}
	}
	for e := range gone {
		want.dropEdge(e)
	}
	assertSame(g.g, want, "paths")
}

// all the relationships of a long path
func P21_LongPaths() {
	n := 4 + vf.Choice("n", vf.Pick(3, 5)) // relationships of the chain
	g := graphOf(n + 2)
	g.nodes[0].SetLabels(labelSet("A"))
	g.nodes[n].SetLabels(labelSet("B"))
	for i := 0; i < n; i++ {
		g.edge(i, i+1, "R").SetProperty("w", vf.Int("w"+digit(i)))
	}
	g.edge(vf.Choice("from", 2)*n, n+1, "S")
	want := takeSnap(g.g)
	k := 1 + vf.Choice("k", n)
	q := []string{
		"match (:A)-[r:R*" + digit(k) + "]->() delete r",
		"match ()-[r:R*" + digit(k) + "]->(:B) delete r",
		"match (:A)-[r*1.." + digit(k) + "]->(x) where x.p is null delete r, r",
		"match (a:A)-[r:R*" + digit(n) + "]->(b:B) detach delete a, r, b",
	}
	c := vf.Choice("query", len(q))
	_, err := oc_eval(g.ctx(), q[c])
	must(err, "error")
	for i, e := range g.edges[:n] {
		if c == 0 && i < k || c == 1 && i >= n-k || c == 2 && i < k || c == 3 {
			want.dropEdge(e)
		}
	}
	if c == 2 && g.edges[n].GetFrom() == g.nodes[0] || c == 2 && k > n {
		want.dropEdge(g.edges[n])
	}
	if c == 3 {
		want.dropNode(g.nodes[0])
		want.dropNode(g.nodes[n])
	}
	assertSame(g.g, want, "long")
}

// only the rows kept by WHERE are deleted
func P21_Where() {
	g := small(2, 2, "R")
	want := takeSnap(g.g)
	a := vf.Int("a")
	if vf.Choice("what", 2) == 0 {
		_, err := oc_eval(bind(g.ctx(), a), "match (n) where n.p > $a detach delete n")
		must(err, "error")
		for _, n := range g.nodes {
			if want.node(n).props["p"].(int) > a {
				want.dropNode(n)
			}
		}
	} else {
		_, err := oc_eval(bind(g.ctx(), a), "match (n)-[r]->(m) where r.w <= $a and n.p <> m.p delete r")
		must(err, "error")
		for _, e := range append([]edgeSnap{}, want.edges...) {
			if vf.And(e.props["w"].(int) <= a, want.node(e.from).props["p"].(int) != want.node(e.to).props["p"].(int)) {
				want.dropEdge(e.e)
			}
		}
	}
	assertSame(g.g, want, "where")
}

// later queries do not see what was deleted
func P21_Later() {
	g := small(vf.Pick(2, 3), 2, "R", "S")
	want := takeSnap(g.g)
	edges := vf.Choice("what", 2) == 1
	q := "match (n:A) detach delete n"
	if edges {
		q = "match (n:A)-[r:R]->(m) delete r"
	}
	_, err := oc_eval(g.ctx(), q)
	must(err, "error")
	for _, n := range g.nodes {
		if edges {
			for _, e := range append([]edgeSnap{}, want.edges...) {
				if e.label == "R" && e.from == n && want.node(n).labels["A"] {
					want.dropEdge(e.e)
				}
			}
		} else if want.node(n).labels["A"] {
			want.dropNode(n)
		}
	}
	// the reference matcher works on what is left
	left := &G{g: g.g}
	for _, n := range want.nodes {
		left.nodes = append(left.nodes, n.n)
	}
	for _, e := range want.edges {
		left.edges = append(left.edges, e.e)
	}
	p := []chain{
		hops(nd("n")),
		hops(nd("n", "A")),
		hops(nd("n", "B")),
		hops(nd("n"), rel("r", '>', "R"), nd("m")),
		hops(nd("n"), rel("r", '>'), nd("m")),
		hops(nd("n"), rel("r", '-', "S"), nd("m", "B")),
	}[vf.Choice("pattern", 6)]
	left.assertMatch(left.ctx(), "", []chain{p}, match{}, "later")
}

// updates that follow a DELETE in the same query
func P21_ThenUpdate() {
	g := small(2, 1, "R")
	want := takeSnap(g.g)
	a := vf.Int("a")
	_, err := oc_eval(bind(g.ctx(), a), "match (n)-[r:R]->(m) delete r set n.q = $a, m.q = n.p")
	must(err, "error")
	for _, e := range append([]edgeSnap{}, want.edges...) {
		want.dropEdge(e.e)
		want.put(e.from, "q", a)
		want.put(e.to, "q", native(want.node(e.from).props["p"]))
	}
	assertSame(g.g, want, "then")
}

var _ = vf.Reg("P21_FindingNewest", P21_FindingNewest)
var _ = vf.Reg("P21_ThenCreate", P21_ThenCreate)

// thenCreate deletes one node and then creates another in a later query.
func thenCreate(n, victim int, id string) {
	g := graphOf(n)
	for i, x := range g.nodes {
		x.SetLabels(labelSet("A"))
		x.SetProperty("p", i)
	}
	a := vf.Int("a")
	want := takeSnap(g.g)
	_, err := oc_eval(bind(g.ctx(), victim), "match (n {p: $a}) detach delete n")
	must(err, id+"-error")
	want.dropNode(g.nodes[victim])
	rs := run(bind(g.ctx(), a), "create (n:B {p: $a}) return n as n")
	vf.Assert(len(rs) == 1, id+"-rows")
	m := want.newNode(rs[0]["n"], []string{"B"}, props{"p": a}, id)
	vf.Assert(len(run(g.ctx(), "match (n:B) return n as n")) == 1, id+"-by-label")
	vf.Assert(len(run(g.ctx(), "match (n) return n as n")) == n, id+"-by-scan")
	assertSame(g.g, want, id)
	_, err = oc_eval(g.ctx(), "match (n:A) match (m:B) create (m)-[:R]->(n)")
	must(err, id+"-error")
	for i, x := range g.nodes {
		if i != victim {
			want.newEdge(outgoing(m, x), "R", m, x, nil, id)
		}
	}
	assertSame(g.g, want, id)
}

func outgoing(from, to *lpg.Node) *lpg.Edge {
	for it := from.GetEdges(lpg.OutgoingEdge); it.Next(); {
		if it.Edge().GetTo() == to {
			return it.Edge()
		}
	}
	return nil
}

func P21_ThenCreate() {
	n := 2 + vf.Choice("n", 3)
	v := vf.Choice("victim", n)
	// deleting the newest node is the known finding
	vf.Assume(v < n-1)
	thenCreate(n, v, "then-create")
}

// the newest node is deleted
func P21_FindingNewest() {
	n := 2 + vf.Choice("n", 2)
	thenCreate(n, n-1, "newest")
}

// what follows a DELETE in the same query or in the same context does not bring
// back what was deleted and leaves the graph consistent, or is refused
func P21_Afterwards() {
	g := small(vf.Pick(2, 3), vf.Pick(2, 2), "R")
	g.node([]string{"X"}, nil) // not the newest one, see the finding
	g.g.AddNodePropertyIndex("p", lpg.HashIndex)
	gone := map[*lpg.Node]bool{}
	first := []string{"match (n:A) detach delete n", "match (n:A), (m:A) detach delete n, m", "match (n:A)-[r]->(m) detach delete n", "match (n:A)-[r]->(m) delete r detach delete n"}[vf.Choice("delete", 4)]
	for i, n := range g.nodes {
		out := false
		for _, e := range g.edges {
			out = out || e.GetFrom() == g.nodes[i]
		}
		if n.HasLabel("A") && (out || first[11] != '-') {
			gone[n] = true
		}
	}
	then := []string{
		"detach delete n", "set n.p = 1", "set n += {p: 1}", "set n = {p: 1}", "set n:B", "remove n.p", "remove n:A",
		"create (n)-[:R]->(x)", "create (x)-[:R]->(n)", "create (n)-[:R]->(n)", "merge (n)-[:S]->(x)", "create (x:B)",
	}[vf.Choice("then", 12)]
	oc_eval(g.ctx(), first+" "+then)
	got := takeSnap(g.g)
	for _, r := range run(g.ctx(), "match (n {p: 1}) return n as n") {
		vf.Assert(!gone[r["n"].(*lpg.Node)], "after-indexed")
	}
	for _, n := range g.nodes {
		vf.Assert(gone[n] == (got.node(n) == nil), "after-nodes")
	}
	vf.Assert(g.g.NumNodes() == len(got.nodes) && g.g.NumEdges() == len(got.edges), "after-counts")
	for _, e := range got.edges {
		vf.Assert(got.node(e.from) != nil && got.node(e.to) != nil, "after-dangling")
	}
	for _, l := range []string{"A", "B"} {
		for it := g.g.GetNodesWithAllLabels(labelSet(l)); it.Next(); {
			vf.Assert(!gone[it.Node()], "after-labelled")
		}
	}
}

// what is deleted is what the expressions give for each row; null deletes nothing
func P21_Computed() {
	g := graphOf(vf.Pick(2, 3))
	g.symLabels([]string{"A"}, []string{"B"})
	var p []int
	for i, n := range g.nodes {
		p = append(p, vf.Int("p"+digit(i)))
		n.SetProperty("p", p[i])
	}
	g.symEdges(1, []string{"R"})
	a := vf.Int("a")
	want := takeSnap(g.g)
	items := []string{"case when n.p = $a then n end, m", "m, case when n.p = $a then n end", "null, case n.p when $a then n end, null, m", "case when n.p = $a then n else m end", "case when n.p = $a then n end, case when m.p = $a then m end", "null", "n.nosuch, m"}
	k := vf.Choice("items", len(items))
	_, err := oc_eval(bind(g.ctx(), a), "match (n:A) match (m:B) detach delete "+items[k])
	must(err, "error")
	gone := map[*lpg.Node]bool{}
	for i, n := range g.nodes {
		for j, m := range g.nodes {
			if !want.node(n).labels["A"] || !want.node(m).labels["B"] {
				continue
			}
			pn, pm := p[i] == a, p[j] == a
			switch k {
			case 0, 1, 2:
				gone[m] = true
				if pn {
					gone[n] = true
				}
			case 3:
				if pn {
					gone[n] = true
				} else {
					gone[m] = true
				}
			case 4:
				if pn {
					gone[n] = true
				}
				if pm {
					gone[m] = true
				}
			case 6:
				gone[m] = true
			}
		}
	}
	for _, n := range g.nodes {
		if gone[n] {
			want.dropNode(n)
		}
	}
	assertSame(g.g, want, "computed")
}
