package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P15_Empty", P15_Empty)
var _ = vf.Reg("P15_Bounds", P15_Bounds)
var _ = vf.Reg("P15_Three", P15_Three)
var _ = vf.Reg("P15_Ends", P15_Ends)
var _ = vf.Reg("P15_Types", P15_Types)
var _ = vf.Reg("P15_Prefix", P15_Prefix)
var _ = vf.Reg("P15_Long", P15_Long)
var _ = vf.Reg("P15_FindingZeroLength", P15_FindingZeroLength)
var _ = vf.Reg("P15_FindingEmptyInterval", P15_FindingEmptyInterval)
var _ = vf.Reg("P15_FindingBackward", P15_FindingBackward)

// trail is a path without repeated relationships
type trail struct {
	from, to *lpg.Node
	edges    []*lpg.Edge
}

// trails enumerates the trails with min..max relationships (max < 0: unbounded).
func (g *G) trails(from *lpg.Node, dir byte, types []string, min, max int) []trail {
	var out []trail
	var rec func(t trail)
	rec = func(t trail) {
		if len(t.edges) >= min && len(t.edges) > 0 {
			out = append(out, trail{t.from, t.to, append([]*lpg.Edge(nil), t.edges...)})
		}
		if max >= 0 && len(t.edges) >= max {
			return
		}
	next:
		for _, e := range g.edges {
			ok := len(types) == 0
			for _, x := range types {
				if e.GetLabel() == x {
					ok = true
				}
			}
			if !ok {
				continue
			}
			for _, x := range t.edges {
				if x == e {
					continue next
				}
			}
			var to *lpg.Node
			switch {
			case dir != '<' && e.GetFrom() == t.to:
				to = e.GetTo()
			case dir != '>' && e.GetTo() == t.to:
				to = e.GetFrom()
			default:
				continue
			}
			rec(trail{t.from, to, append(append([]*lpg.Edge(nil), t.edges...), e)})
		}
	}
	rec(trail{from, from, nil})
	return out
}

func (g *G) allTrails(dir byte, types []string, min, max int) []trail {
	var out []trail
	for _, n := range g.nodes {
		out = append(out, g.trails(n, dir, types, min, max)...)
	}
	return out
}

// assertTrails asserts that the rows (n, r, m) are exactly the trails.
func assertTrails(rs oc.ResultSet, want []trail, id string) {
	vf.Assert(len(rs.Rows) == len(want), id+"-count")
	used := make([]bool, len(want))
	for i := range rs.Rows {
		n, m := elem(cell(rs, i, "n")), elem(cell(rs, i, "m"))
		p, ok := cell(rs, i, "r").(*lpg.Path)
		vf.Assert(ok, id+"-path-kind")
		found := false
		for j, w := range want {
			if used[j] || n != interface{}(w.from) || m != interface{}(w.to) || p.NumEdges() != len(w.edges) {
				continue
			}
			same, rev := true, true
			for k, e := range w.edges {
				same = same && p.GetEdge(k) == e
				rev = rev && p.GetEdge(len(w.edges)-1-k) == e
			}
			if same || rev {
				used[j], found = true, true
				break
			}
		}
		vf.Assert(found, id+"-row")
	}
}

// hop bounds and how they are written
func symHops() (string, int, int) {
	i, j := vf.Choice("min", 3), vf.Choice("max", 4)
	switch vf.Choice("bounds", 5) {
	case 0:
		return "*", 1, -1
	case 1:
		return "*" + digit(i+1), i + 1, i + 1
	case 2:
		return "*" + digit(i+1) + "..", i + 1, -1
	case 3:
		return "*.." + digit(j), 1, j
	}
	vf.Assume(j > i) // an empty interval is a known finding
	return "*" + digit(i+1) + ".." + digit(j), i + 1, j
}

func arrow(dir byte, inner string) string {
	switch dir {
	case '>':
		return "-[" + inner + "]->"
	case '<':
		return "<-[" + inner + "]-"
	}
	return "-[" + inner + "]-"
}

// two nodes, up to three relationships, every bound
func P15_Bounds() {
	g := graphOf(2)
	g.symEdges(vf.Pick(2, 3), []string{"R"})
	h, min, max := symHops()
	d := dirs[vf.Choice("dir", 3)]
	v, err := oc_eval(g.ctx(), "match (n)"+arrow(d, "r"+h)+"(m) return n as n, r as r, m as m")
	must(err, "error")
	assertTrails(rows(v), g.allTrails(d, nil, min, max), "bounds")
}

// three nodes in a row or a cycle, with one more relationship anywhere
func P15_Three() {
	g := graphOf(3)
	g.edge(0, 1, "R")
	g.edge(1, 2, "R")
	if vf.Choice("more", 2) == 1 {
		g.edge(vf.Choice("from", 3), vf.Choice("to", 3), "R")
	}
	if vf.Pick(0, 1) == 1 && vf.Choice("more2", 2) == 1 {
		g.edge(vf.Choice("from2", 3), vf.Choice("to2", 3), "R")
	}
	h, min, max := symHops()
	d := dirs[vf.Choice("dir", 3)]
	v, err := oc_eval(g.ctx(), "match (n)"+arrow(d, "r"+h)+"(m) return n as n, r as r, m as m")
	must(err, "error")
	assertTrails(rows(v), g.allTrails(d, nil, min, max), "three")
}

// constrained ends, from which the search may start
func P15_Ends() {
	g := graphOf(3)
	g.edge(0, 1, "R")
	g.edge(vf.Choice("from", 3), vf.Choice("to", 3), "R")
	a := vf.Int("a")
	all := func(n *lpg.Node) bool { return true }
	fok, tok := all, all
	ct := ":A"
	ok := func(n *lpg.Node) bool { return n.HasLabel("A") }
	if vf.Choice("constraint", 2) == 0 {
		g.symLabels(nil, []string{"A"})
	} else {
		ct = " {p: $a}"
		p := make([]int, 3)
		for i, n := range g.nodes {
			p[i] = vf.Int("p" + digit(i))
			n.SetProperty("p", p[i])
		}
		ok = func(n *lpg.Node) bool { return p[g.index(n)] == a }
	}
	ft, mt := ct, ""
	if vf.Choice("end", 2) == 0 {
		fok = ok
	} else {
		ft, mt, tok = "", ct, ok
	}
	d := dirs[vf.Choice("dir", 3)]
	hs, min, max := "*", 1, -1
	if vf.Choice("h", 2) == 1 {
		hs, min, max = "*2", 2, 2
	}
	v, err := oc_eval(bind(g.ctx(), a), "match (n"+ft+")"+arrow(d, "r"+hs)+"(m"+mt+") return n as n, r as r, m as m")
	must(err, "error")
	var want []trail
	for _, t := range g.allTrails(d, nil, min, max) {
		if fok(t.from) && tok(t.to) {
			want = append(want, t)
		}
	}
	assertTrails(rows(v), want, "ends")
}

// every relationship of the path satisfies the type constraint
func P15_Types() {
	g := graphOf(2)
	g.symEdges(vf.Pick(2, 3), []string{"R", "S"})
	types := [][]string{{"R"}, {"R", "S"}, {"T"}}[vf.Choice("types", 3)]
	tt := ":" + types[0]
	for _, t := range types[1:] {
		tt += "|" + t
	}
	d := dirs[vf.Choice("dir", 3)]
	v, err := oc_eval(g.ctx(), "match (n)"+arrow(d, "r"+tt+"*1..2")+"(m) return n as n, r as r, m as m")
	must(err, "error")
	assertTrails(rows(v), g.allTrails(d, types, 1, 2), "types")
}

// a variable-length leg after or before a plain one
func P15_Prefix() {
	g := graphOf(3)
	g.edge(0, 1, "S")
	g.edge(1, 2, "R")
	g.edge(vf.Choice("from", 3), vf.Choice("to", 3), []string{"R", "S"}[vf.Choice("type", 2)])
	d := dirs[vf.Choice("dir", 3)]
	v, err := oc_eval(g.ctx(), "match (a)-[s:S]->(n)"+arrow(d, "r:R*1..2")+"(m) return a as a, s as s, n as n, r as r, m as m")
	must(err, "error")
	var want []trail
	for _, e := range g.edges {
		if e.GetLabel() == "S" {
			want = append(want, g.trails(e.GetTo(), d, []string{"R"}, 1, 2)...)
		}
	}
	assertTrails(rows(v), want, "prefix")
}

// longer chains and cycles, where bounds of more than a few relationships matter
func P15_Long() {
	n := vf.Pick(6, 8)
	g := graphOf(n)
	for i := 1; i < n; i++ {
		t := "R"
		if i == n-1 && vf.Choice("last", 2) == 1 {
			t = "S"
		}
		g.edge(i-1, i, t)
	}
	switch vf.Choice("shape", 3) {
	case 1: // a cycle
		g.edge(n-1, 0, "R")
	case 2: // a short cut
		i := vf.Choice("from", 3)
		g.edge(i, i+2, "R")
	}
	typ, types := "", []string(nil)
	if vf.Choice("typed", 2) == 1 {
		typ, types = ":R", []string{"R"}
	}
	i, j := vf.Choice("min", 6), vf.Choice("max", 6)
	h, min, max := "", i+1, j+1
	switch vf.Choice("bounds", 4) {
	case 0:
		vf.Assume(j == 0)
		h, max = "*"+digit(i+1), i+1
	case 1:
		vf.Assume(j == 0)
		h, max = "*"+digit(i+1)+"..", -1
	case 2:
		vf.Assume(i == 0)
		h = "*.." + digit(j+1)
	case 3:
		vf.Assume(j >= i)
		h = "*" + digit(i+1) + ".." + digit(j+1)
	}
	d := dirs[vf.Choice("dir", 2)]
	v, err := oc_eval(g.ctx(), "match (n)"+arrow(d, "r"+typ+h)+"(m) return n as n, r as r, m as m")
	must(err, "error")
	assertTrails(rows(v), g.allTrails(d, types, min, max), "long")
}

// known finding: a path of no relationships is not matched
func P15_FindingZeroLength() {
	g := graphOf(2)
	g.edge(0, 1, "R")
	v, err := oc_eval(g.ctx(), "match (n)-[*0..1]->(m) return n as n, m as m")
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Rows) >= 1, "one-hop-missing")
	vf.Assert(len(rs.Rows) == 3, "zero-hops-missing")
}

// known finding: bounds that exclude every path
func P15_FindingEmptyInterval() {
	g := graphOf(2)
	g.edge(0, 1, "R")
	v, err := oc_eval(g.ctx(), "match (n)-[*1..0]->(m) return n as n, m as m")
	must(err, "error")
	vf.Assert(len(rows(v).Rows) == 0, "rows-outside-bounds")
}

// known finding: a variable-length leg that is followed from its end
func P15_FindingBackward() {
	g := graphOf(4)
	g.edge(0, 1, "S")
	g.edge(1, 2, "R")
	g.edge(2, 3, "R")
	g.nodes[3].SetLabels(labelSet("D"))
	panicked, _ := vf.Catch(func() {
		v, err := oc_eval(g.ctx(), "match (a)-[:S]->(n)-[r:R*1..2]->(m:D) return a as a, m as m")
		must(err, "error")
		vf.Assert(len(rows(v).Rows) == 1, "rows")
	})
	vf.Assert(!panicked, "panic-following-backward")
}

// bounds that exclude every path, apart from the known finding
func P15_Empty() {
	g := graphOf(3)
	g.edge(0, 1, "R")
	g.edge(1, 2, "R")
	if vf.Choice("more", 2) == 1 {
		g.edge(vf.Choice("from", 3), vf.Choice("to", 3), "R")
	}
	min, max := 2+vf.Choice("min", 3), 1+vf.Choice("max", 3)
	vf.Assume(min > max)
	v, err := oc_eval(g.ctx(), "match (n)"+arrow(dirs[vf.Choice("dir", 3)], "r*"+digit(min)+".."+digit(max))+"(m) return n as n, m as m")
	must(err, "error")
	vf.Assert(len(rows(v).Rows) == 0, "empty-interval")
}
