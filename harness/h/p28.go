package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P28_OneHop", P28_OneHop)
var _ = vf.Reg("P28_Labels", P28_Labels)
var _ = vf.Reg("P28_TwoHops", P28_TwoHops)
var _ = vf.Reg("P28_ThreeHops", P28_ThreeHops)
var _ = vf.Reg("P28_Middle", P28_Middle)
var _ = vf.Reg("P28_Properties", P28_Properties)
var _ = vf.Reg("P28_Lengths", P28_Lengths)
var _ = vf.Reg("P28_Itself", P28_Itself)
var _ = vf.Reg("P28_Reused", P28_Reused)
var _ = vf.Reg("P28_Invalid", P28_Invalid)
var _ = vf.Reg("P28_NoTarget", P28_NoTarget)

func parsePattern(text string) oc.PatternPart {
	p, err := oc.ParsePatternExpr(text)
	must(err, "parse-error")
	return p
}

// assertReached asserts that the nodes found are exactly those wanted, which may
// have repetitions.
func assertReached(p oc.PatternPart, from *lpg.Node, want []*lpg.Node, id string) {
	got, err := p.FindRelative(from)
	must(err, id+"-error")
	for _, n := range got {
		ok := false
		for _, w := range want {
			ok = ok || n == w
		}
		vf.Assert(ok, id+"-extra")
	}
	for _, w := range want {
		ok := false
		for _, n := range got {
			ok = ok || n == w
		}
		vf.Assert(ok, id+"-missing")
	}
}

// assertRelative checks the chain at every node.
func (g *G) assertRelative(c chain, id string) {
	p := parsePattern(c.text())
	for _, n := range g.nodes {
		var want []*lpg.Node
		g.matchAll([]chain{c}, match{"this": n}, func(m match) { want = append(want, m["target"].(*lpg.Node)) })
		assertReached(p, n, want, id)
	}
}

// one relationship: types and directions
func P28_OneHop() {
	g := graphOf(vf.Pick(2, 3))
	g.symEdges(vf.Pick(2, 3), []string{"R", "S"})
	types := [][]string{nil, {"R"}, {"S"}, {"S", "R"}, {"T"}}[vf.Choice("types", 5)]
	v := []string{"", "r"}[vf.Choice("var", 2)]
	g.assertRelative(hops(nd("this"), rel(v, dirs[vf.Choice("dir", 3)], types...), nd("target")), "one")
}

// labels of both ends
func P28_Labels() {
	g := graphOf(vf.Pick(2, 3))
	g.symLabels(nil, []string{"A"}, []string{"B"}, []string{"A", "B"})
	g.symEdges(vf.Pick(2, 2), []string{"R"})
	ls := [][]string{nil, {"A"}, {"A", "B"}}
	d := dirs[vf.Choice("dir", 3)]
	g.assertRelative(hops(nd("this", ls[vf.Choice("from", 3)]...), rel("", d), nd("target", ls[vf.Choice("to", 3)]...)), "labels")
}

// two relationships, each in either direction
func P28_TwoHops() {
	g := graphOf(vf.Pick(2, 3))
	g.symEdges(vf.Pick(3, 3), []string{"R"})
	v := []string{"", "x"}[vf.Choice("var", 2)]
	g.assertRelative(hops(nd("this"), rel("", dirs[vf.Choice("dir1", 3)]), nd(v), rel("", dirs[vf.Choice("dir2", 3)]), nd("target")), "two")
}

// a path of three, with types and labels on the way
func P28_ThreeHops() {
	g := graphOf(3)
	g.nodes[0].SetLabels(labelSet("A"))
	g.nodes[1].SetLabels(labelSet("A", "B"))
	g.edge(0, 1, "R")
	g.edge(1, 2, "S")
	g.symEdges(vf.Pick(1, 2), []string{"R", "S"})
	d := dirs[vf.Choice("dir", 3)]
	c := []chain{
		hops(nd("this"), rel("", '>', "R"), nd(""), rel("", d, "S"), nd("", "A"), rel("", '<'), nd("target")),
		hops(nd("this"), rel("", '<', "S"), nd("", "B"), rel("", '<', "R"), nd(""), rel("", d, "R"), nd("target")),
		hops(nd("this", "A"), rel("", d), nd("x"), rel("", '>'), nd("y"), rel("", '>'), nd("target")),
	}[vf.Choice("pattern", 3)]
	g.assertRelative(c, "three")
}

// the target on the way, and variables used twice
func P28_Middle() {
	g := graphOf(vf.Pick(2, 3))
	g.symEdges(vf.Pick(2, 3), []string{"R"})
	d := dirs[vf.Choice("dir", 3)]
	c := []chain{
		hops(nd("this"), rel("", d), nd("target"), rel("", '>'), nd("")),
		hops(nd("this"), rel("", d), nd("target"), rel("", '<'), nd("z")),
		hops(nd("this"), rel("", d), nd("target"), rel("", '>'), nd("this")),
		hops(nd("this"), rel("r", d), nd("x"), rel("r", '-'), nd("target")),
		hops(nd("this"), rel("", d), nd("target"), rel("", '>'), nd("target")),
	}[vf.Choice("pattern", 5)]
	g.assertRelative(c, "middle")
}

// property constraints with literals
func P28_Properties() {
	g := graphOf(2)
	g.symProps("p", true)
	g.symEdges(vf.Pick(2, 3), []string{"R"})
	d := dirs[vf.Choice("dir", 3)]
	c := []chain{
		hops(nd("this"), rel("", d), pnode{v: "target", key: "p", val: 7, txt: "7"}),
		hops(pnode{v: "this", key: "p", val: -3, txt: "-3"}, rel("", d), nd("target")),
		hops(nd("this"), rel("", d), pnode{key: "p", val: 0, txt: "0"}, rel("", '-'), nd("target")),
	}[vf.Choice("pattern", vf.Pick(2, 3))]
	g.assertRelative(c, "properties")
}

// relationships of variable length
func P28_Lengths() {
	g := graphOf(2)
	g.symEdges(vf.Pick(2, 3), []string{"R"})
	h, min, max := symHops()
	d := dirs[vf.Choice("dir", 3)]
	p := parsePattern("(this)" + arrow(d, h) + "(target)")
	for _, n := range g.nodes {
		var want []*lpg.Node
		for _, t := range g.trails(n, d, nil, min, max) {
			want = append(want, t.to)
		}
		assertReached(p, n, want, "lengths")
	}
}

// a pattern of one node
func P28_Itself() {
	g := graphOf(2)
	g.symLabels(nil, []string{"A"}, []string{"B"})
	g.symEdges(1, []string{"R"})
	p := parsePattern("(this)-[:R]->(this)")
	for _, n := range g.nodes {
		assertReached(p, n, nil, "no-target")
	}
	d := dirs[vf.Choice("dir", 3)]
	g.assertRelative(hops(nd("this"), rel("", d), nd("this", "A"), rel("", '-'), nd("target")), "loop")
}

// a parsed pattern keeps nothing of the graphs it was evaluated in
func P28_Reused() {
	c := hops(nd("this"), rel("r", dirs[vf.Choice("dir", 3)], "R"), nd("x"), rel("s", '>'), nd("target", "B"))
	p := parsePattern(c.text())
	check := func(g *G, id string) {
		for _, n := range g.nodes {
			var want []*lpg.Node
			g.matchAll([]chain{c}, match{"this": n}, func(m match) { want = append(want, m["target"].(*lpg.Node)) })
			assertReached(p, n, want, id)
		}
	}
	g := graphOf(2)
	g.symLabels(nil, []string{"B"})
	g.symEdges(2, []string{"R"})
	check(g, "before")
	// the graph grows, and another graph
	g.node([]string{"B"}, nil)
	g.edge(vf.Choice("from", 2), 2, "R")
	check(g, "grown")
	o := graphOf(2)
	o.nodes[0].SetLabels(labelSet("B"))
	o.edge(0, 1, "R")
	o.edge(1, 0, "S")
	check(o, "other")
	check(g, "again")
}

// what is not a pattern is an error
func P28_Invalid() {
	for _, s := range []string{"", "(this", "this)", "(this)-[", "(this)-[]->", "(this)-[*a]->(target)", "(this {p: 99999999999999999999})-->(target)"} {
		_, err := oc.ParsePatternExpr(s)
		vf.Assert(err != nil, "invalid-"+s)
	}
	// a parameter cannot have a value
	g := graphOf(1)
	_, err := parsePattern("(this {p: $a})-->(target)").FindRelative(g.nodes[0])
	vf.Assert(err != nil, "parameter")
}

// a pattern that does not name a target reaches nothing
func P28_NoTarget() {
	g := graphOf(2)
	g.symEdges(2, []string{"R"})
	p := parsePattern("(this)" + arrow(dirs[vf.Choice("dir", 3)], "") + "(x)")
	for _, n := range g.nodes {
		assertReached(p, n, nil, "nothing")
	}
}
