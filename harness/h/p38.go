package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P38_Labels", P38_Labels)
var _ = vf.Reg("P38_Types", P38_Types)
var _ = vf.Reg("P38_Updated", P38_Updated)
var _ = vf.Reg("P38_Where", P38_Where)
var _ = vf.Reg("P38_Kinds", P38_Kinds)
var _ = vf.Reg("P38_Given", P38_Given)

// assertLabelList: each label once, and nothing else.
func assertLabelList(v interface{}, want map[string]bool, id string) {
	l, ok := v.([]oc.Value)
	vf.Assert(ok, id+"-list")
	n := 0
	for _, y := range want {
		if y {
			n++
		}
	}
	vf.Assert(len(l) == n, id+"-length")
	seen := map[string]bool{}
	for _, x := range l {
		s, ok := x.Get().(string)
		vf.Assert(ok && want[s] && !seen[s], id+"-label")
		seen[s] = true
	}
}

var labelSets = [][]string{nil, {"A"}, {"B"}, {"A", "B"}, {"B", "A", "x y"}, {"a"}}

// labels() of every matched node, in the projection and inside other expressions
func P38_Labels() {
	g := graphOf(vf.Pick(2, 3))
	g.symLabels(labelSets...)
	rs := run(g.ctx(), "match (n) return n as n, labels(n) as l, size(labels(n)) as s, 'B' in labels(n) as b, labels(n) + ['Z'] as z")
	vf.Assert(len(rs) == len(g.nodes), "rows")
	for _, r := range rs {
		n := r["n"].(*lpg.Node)
		want := labelsOf(n)
		assertLabelList(r["l"], want, "labels")
		vf.Assert(r["s"] == interface{}(len(want)), "size")
		vf.Assert(r["b"] == interface{}(want["B"]), "in")
		z := map[string]bool{"Z": true}
		for k, y := range want {
			z[k] = y
		}
		assertLabelList(r["z"], z, "concatenated")
	}
}

// type() of every matched relationship, in every direction
func P38_Types() {
	g := graphOf(2)
	g.symEdges(vf.Pick(2, 3), []string{"R", "S", "r"})
	d := dirs[vf.Choice("dir", 4)]
	c := hops(nd("n"), rel("r", d), nd("m"))
	rs := run(g.ctx(), "match "+c.text()+" return r as r, type(r) as t, type(r) = 'R' as e, size(type(r)) as s")
	var want []match
	g.matchAll([]chain{c}, match{}, func(m match) { want = append(want, m) })
	vf.Assert(len(rs) == len(want), "rows")
	for _, r := range rs {
		t := elem(r["r"]).(*lpg.Edge).GetLabel()
		vf.Assert(r["t"] == interface{}(t), "type")
		vf.Assert(r["e"] == interface{}(t == "R"), "compared")
		vf.Assert(r["s"] == interface{}(len(t)), "size")
	}
}

// what updating clauses do is seen by labels() and type() afterwards
func P38_Updated() {
	g := graphOf(2)
	g.symLabels(labelSets...)
	qs := []struct {
		q        string
		add, sub []string
	}{
		{"match (n) set n:C return n as n, labels(n) as l", []string{"C"}, nil},
		{"match (n) set n:A:C return n as n, labels(n) as l", []string{"A", "C"}, nil},
		{"match (n) remove n:A return n as n, labels(n) as l", nil, []string{"A"}},
		{"match (n) remove n:A:B return n as n, labels(n) as l", nil, []string{"A", "B"}},
		{"match (n) set n:C remove n:B return n as n, labels(n) as l", []string{"C"}, []string{"B"}},
	}
	var before []map[string]bool
	for _, n := range g.nodes {
		before = append(before, labelsOf(n))
	}
	k := vf.Choice("query", len(qs)+1)
	if k == len(qs) {
		rs := run(g.ctx(), "match (n:A) create (n)-[r:T]->(m:L:M)<-[s:`u v`]-(n) return labels(m) as l, type(r) as r, type(s) as s")
		for _, r := range rs {
			assertLabelList(r["l"], map[string]bool{"L": true, "M": true}, "created")
			vf.Assert(r["r"] == interface{}("T") && r["s"] == interface{}("u v"), "created-type")
		}
		return
	}
	rs := run(g.ctx(), qs[k].q)
	vf.Assert(len(rs) == len(g.nodes), "rows")
	for _, r := range rs {
		want := before[g.index(r["n"].(*lpg.Node))]
		for _, l := range qs[k].add {
			want[l] = true
		}
		for _, l := range qs[k].sub {
			delete(want, l)
		}
		assertLabelList(r["l"], want, "updated")
	}
}

// rows selected by their labels and types
func P38_Where() {
	g := graphOf(2)
	g.symLabels(labelSets...)
	g.symEdges(2, []string{"R", "S"})
	s := vf.Str("s", 1, 1, "ABRSabs")
	k := vf.Choice("query", 3)
	q := []string{"match (n)-[r]->(m) where type(r) = $a return r as r", "match (n)-[r]->(m) where $a in labels(n) return r as r", "match (n)-[r]->(m) where not type(r) = $a and not $a in labels(m) return r as r"}[k]
	rs := run(bind(g.ctx(), s), q)
	n := 0
	for _, e := range g.edges {
		has := func(n *lpg.Node) bool {
			for l := range labelsOf(n) {
				if l == s {
					return true
				}
			}
			return false
		}
		keep := false
		switch k {
		case 0:
			keep = e.GetLabel() == s
		case 1:
			keep = has(e.GetFrom())
		case 2:
			keep = !(e.GetLabel() == s) && !has(e.GetTo())
		}
		c := 0
		for _, r := range rs {
			if elem(r["r"]) == interface{}(e) {
				c++
			}
		}
		if keep {
			n++
			vf.Assert(c == 1, "kept")
		} else {
			vf.Assert(c == 0, "dropped")
		}
	}
	vf.Assert(len(rs) == n, "rows")
}

// of anything else they are errors; labels of null are null
func P38_Kinds() {
	k := vf.Choice("kind", nKinds)
	x, err := ret("labels($a)", value(k, "a"))
	switch k {
	case kNode:
		must(err, "labels-error")
		assertLabelList(x, map[string]bool{"L": true}, "labels")
	case kNull:
		vf.Assert(err == nil && x == nil, "labels-null")
	default:
		vf.Assert(err != nil, "labels-kind")
	}
	if k == kNull {
		return // left open
	}
	x, err = ret("type($a)", value(k, "b"))
	if k == kPath {
		vf.Assert(err == nil && x == interface{}("R"), "type")
	} else {
		vf.Assert(err != nil, "type-kind")
	}
}

// elements given by the application, and paths of several relationships
func P38_Given() {
	g := graphOf(2)
	g.symLabels(labelSets...)
	e, f := g.edge(0, 1, []string{"R", "long name"}[vf.Choice("type", 2)]), g.edge(1, 0, "S")
	ctx := g.ctx()
	ctx.SetVar("n", rv(g.nodes[0]))
	ctx.SetParameter("$m", rv(g.nodes[1]))
	ctx.SetVar("e", rv(e))
	ctx.SetVar("p", rv(lpg.NewPathFromElements(lpg.PathElement{Edge: e}, lpg.PathElement{Edge: f})))
	ctx.SetVar("q", rv(lpg.NewPathFromElements(lpg.PathElement{Edge: f})))
	r := run(ctx, "return labels(n) as n, labels($m) as m, type(e) as e, type(q) as q")
	vf.Assert(len(r) == 1, "rows")
	assertLabelList(r[0]["n"], labelsOf(g.nodes[0]), "variable")
	assertLabelList(r[0]["m"], labelsOf(g.nodes[1]), "parameter")
	vf.Assert(r[0]["e"] == interface{}(e.GetLabel()) && r[0]["q"] == interface{}("S"), "types")
	_, err := oc_eval(ctx, "return type(p)")
	vf.Assert(err != nil, "several-relationships")
	ctx.SetVar("z", rv(&lpg.Path{}))
	_, err = oc_eval(ctx, "return type(z)")
	vf.Assert(err != nil, "no-relationships")
}
