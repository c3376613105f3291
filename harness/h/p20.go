package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	"verif/harness/vf"
)

var _ = vf.Reg("P20_Property", P20_Property)
var _ = vf.Reg("P20_Labels", P20_Labels)
var _ = vf.Reg("P20_Both", P20_Both)
var _ = vf.Reg("P20_Rows", P20_Rows)
var _ = vf.Reg("P20_Later", P20_Later)
var _ = vf.Reg("P20_Errors", P20_Errors)

func P20_Property() {
	g, _, _ := marked(vf.Choice("nodes", 4))
	want := takeSnap(g.g)
	keys := [][]string{{"p"}, {"q"}, {"z"}, {"p", "q"}, {"p", "z"}, {"p", "p"}}[vf.Choice("keys", 6)]
	text := ""
	for i, k := range keys {
		if i > 0 {
			text += ", "
		}
		text += "n." + k
	}
	ret := vf.Choice("return", 2) == 1
	if ret {
		text += " return n as n, n.p as p, n.q as q"
	}
	v, err := oc_eval(g.ctx(), "match (n:A) remove "+text)
	must(err, "error")
	for _, n := range g.nodes {
		if n.HasLabel("A") {
			for _, k := range keys {
				want.put(n, k, nil)
			}
		}
	}
	assertSame(g.g, want, "property")
	if ret {
		for _, r := range rowsOf(rows(v)) {
			n := r["n"].(*lpg.Node)
			for _, k := range []string{"p", "q"} {
				vf.Assert(identical(native(want.node(n).props[k]), r[k]), "read-in-query")
			}
		}
	}
}

func P20_Labels() {
	n := vf.Choice("nodes", vf.Pick(3, 4))
	g := graphOf(n)
	g.symLabels([]string{"A"}, []string{"B"}, []string{"A", "B"}, []string{"A", "B", "X"}, nil)
	g.symProps("p", false)
	if n > 1 {
		g.edge(0, 1, "R")
	}
	want := takeSnap(g.g)
	s := [][]string{{"A"}, {"B"}, {"A", "B"}, {"X", "L"}, {"L"}, {"B", "X"}, {"A", "B", "X"}, {"X", "B", "A", "L"}}[vf.Choice("labels", 8)]
	text := ""
	for _, l := range s {
		text += ":" + l
	}
	m := "(n)"
	if vf.Choice("where", 2) == 1 {
		m = "(n:A)"
	}
	_, err := oc_eval(g.ctx(), "match "+m+" remove n"+text)
	must(err, "error")
	for _, n := range g.nodes {
		w := want.node(n)
		if m == "(n:A)" && !w.labels["A"] {
			continue
		}
		for _, l := range s {
			delete(w.labels, l)
		}
	}
	assertSame(g.g, want, "labels")
}

// several items and several clauses
func P20_Both() {
	g, _, q := marked(2)
	a := vf.Int("a")
	want := takeSnap(g.g)
	type rem struct {
		text string
		f    func(i int, n *lpg.Node)
	}
	unlabel := func(n *lpg.Node, l string) { delete(want.node(n).labels, l) }
	r := []rem{
		{"remove n.p, n:A", func(i int, n *lpg.Node) { want.put(n, "p", nil); unlabel(n, "A") }},
		{"remove n:A remove n.p", func(i int, n *lpg.Node) { want.put(n, "p", nil); unlabel(n, "A") }},
		{"remove n:A set n:B, n.p = $a", func(i int, n *lpg.Node) {
			want.put(n, "p", a)
			unlabel(n, "A")
			want.node(n).labels["B"] = true
		}},
		{"set n.r = n.q remove n.q", func(i int, n *lpg.Node) { want.put(n, "r", q[i].v); want.put(n, "q", nil) }},
		{"remove n.q set n.r = n.q", func(i int, n *lpg.Node) { want.put(n, "q", nil) }},
		{"set n:X remove n:X:A", func(i int, n *lpg.Node) { unlabel(n, "A") }},
		{"remove n:A, n:B", func(i int, n *lpg.Node) { unlabel(n, "A"); unlabel(n, "B") }},
		{"remove n:B, n.p, n:A, n.q", func(i int, n *lpg.Node) {
			unlabel(n, "A")
			unlabel(n, "B")
			want.put(n, "p", nil)
			want.put(n, "q", nil)
		}},
		{"remove n:B remove n:A:B, n:X, n.q", func(i int, n *lpg.Node) {
			unlabel(n, "A")
			unlabel(n, "B")
			want.put(n, "q", nil)
		}},
		{"remove n.p, n.q, n.p", func(i int, n *lpg.Node) { want.put(n, "p", nil); want.put(n, "q", nil) }},
	}[vf.Choice("remove", 10)]
	_, err := oc_eval(bind(g.ctx(), a), "match (n:A) "+r.text)
	must(err, "error")
	for i, n := range g.nodes {
		if n.HasLabel("A") || takenA(want, n) {
			r.f(i, n)
		}
	}
	assertSame(g.g, want, "both")
}

// takenA: the node had label A before the query
func takenA(s snap, n *lpg.Node) bool { return s.node(n).labels["A"] }

// nodes reached by several rows, or by two variables
func P20_Rows() {
	g := graphOf(vf.Pick(2, 3))
	for i, n := range g.nodes {
		n.SetLabels(labelSet("A", "B"))
		n.SetProperty("p", vf.Int("p"+digit(i)))
		n.SetProperty("q", vf.Int("q"+digit(i)))
	}
	g.symEdges(vf.Pick(3, 2), []string{"R"})
	want := takeSnap(g.g)
	_, err := oc_eval(g.ctx(), "match (n)-[:R]->(m) remove n.p, m:B, m.q")
	must(err, "error")
	for _, e := range g.edges {
		want.put(e.GetFrom(), "p", nil)
		want.put(e.GetTo(), "q", nil)
		delete(want.node(e.GetTo()).labels, "B")
	}
	assertSame(g.g, want, "rows")
}

// later queries no longer see what was removed
func P20_Later() {
	g, p, _ := marked(2)
	a := vf.Int("a")
	had := []bool{g.nodes[0].HasLabel("A"), g.nodes[1].HasLabel("A")}
	_, err := oc_eval(g.ctx(), "match (n:A) remove n:A, n.p")
	must(err, "error")
	vf.Assert(len(run(g.ctx(), "match (n:A) return n as n")) == 0, "label-found")
	rs := run(bind(g.ctx(), a), "match (n {p: $a}) return n as n")
	for i, n := range g.nodes {
		found := false
		for _, r := range rs {
			if r["n"] == interface{}(n) {
				found = true
			}
		}
		vf.Assert(vf.Iff(found, vf.And(!had[i], p[i].ok, p[i].v == a)), "property-found")
	}
	for i, r := range run(g.ctx(), "match (n) where n.p is null return n as n") {
		_ = i
		j := g.index(r["n"].(*lpg.Node))
		vf.Assert(had[j] || !p[j].ok, "null")
	}
}

func P20_Errors() {
	g, _, _ := marked(2)
	some := g.nodes[0].HasLabel("A") || g.nodes[1].HasLabel("A")
	want := takeSnap(g.g)
	_, err := oc_eval(g.ctx(), "match (n:A) remove "+[]string{"m.p", "m:A"}[vf.Choice("bad", 2)])
	vf.Assert((err != nil) == some, "error")
	assertSame(g.g, want, "unchanged")
}

var _ = vf.Reg("P20_Null", P20_Null)

// nothing is removed from null, and the other rows and items are still processed
func P20_Null() {
	g, _, _ := marked(2)
	want := takeSnap(g.g)
	ctx := g.ctx()
	ctx.SetVar("o", rv(nil))
	_, err := oc_eval(ctx, "match (n:A) "+[]string{"remove o:A, n:A", "remove o:A:B remove n:A", "remove n:A, o:B"}[vf.Choice("query", 3)])
	must(err, "error")
	for i := range want.nodes {
		delete(want.nodes[i].labels, "A")
	}
	assertSame(g.g, want, "null")
}

var _ = vf.Reg("P20_NullProperty", P20_NullProperty)

// a property of null is skipped as a label of null is
func P20_NullProperty() {
	g, _, _ := marked(2)
	want := takeSnap(g.g)
	ctx := g.ctx()
	ctx.SetVar("o", rv(nil))
	k := vf.Choice("query", 5)
	_, err := oc_eval(ctx, "match (n:A) "+[]string{"remove o.p, n.p", "remove n.p, o.p", "remove o.p remove n.p", "remove o.p, o:A, n.p", "remove n.p remove o.p.q"}[k])
	must(err, "error")
	for i, n := range g.nodes {
		if n.HasLabel("A") {
			want.put(g.nodes[i], "p", nil)
		}
	}
	assertSame(g.g, want, "null")
}
