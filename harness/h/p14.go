package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P14_Nodes", P14_Nodes)
var _ = vf.Reg("P14_Properties", P14_Properties)
var _ = vf.Reg("P14_Edges", P14_Edges)
var _ = vf.Reg("P14_EdgesThree", P14_EdgesThree)
var _ = vf.Reg("P14_ManyTypes", P14_ManyTypes)
var _ = vf.Reg("P14_Chains", P14_Chains)
var _ = vf.Reg("P14_Labelled", P14_Labelled)
var _ = vf.Reg("P14_Combined", P14_Combined)
var _ = vf.Reg("P14_Bound", P14_Bound)
var _ = vf.Reg("P14_Parallel", P14_Parallel)
var _ = vf.Reg("P14_EdgeProperties", P14_EdgeProperties)
var _ = vf.Reg("P14_Strings", P14_Strings)
var _ = vf.Reg("P14_Parameters", P14_Parameters)
var _ = vf.Reg("P14_Narrowing", P14_Narrowing)
var _ = vf.Reg("P14_NarrowingGiven", P14_NarrowingGiven)

// ---- reference matcher

type pnode struct {
	v      string   // variable, "" when anonymous
	labels []string // required labels
	key    string   // property that must equal val, "" for none
	val    int
	txt    string // text of the value
}

type prel struct {
	v     string
	types []string
	dir   byte // '>', '<', '-'
}

// chain is a path pattern: nodes[0] rels[0] nodes[1] ...
type chain struct {
	nodes []pnode
	rels  []prel
}

func (c chain) text() string {
	s := ""
	for i, n := range c.nodes {
		if i > 0 {
			r := c.rels[i-1]
			d := ""
			if r.v != "" || len(r.types) > 0 {
				d = "[" + r.v
				for j, t := range r.types {
					if j == 0 {
						d += ":" + t
					} else {
						d += "|" + t
					}
				}
				d += "]"
			}
			switch r.dir {
			case '>':
				s += "-" + d + "->"
			case '<':
				s += "<-" + d + "-"
			case '=':
				s += "<-" + d + "->"
			default:
				s += "-" + d + "-"
			}
		}
		s += "(" + n.v
		for _, l := range n.labels {
			s += ":" + l
		}
		if n.key != "" {
			s += " {" + n.key + ": " + n.txt + "}"
		}
		s += ")"
	}
	return s
}

// match is one way to match the patterns: values of the named variables.
type match map[string]interface{}

func (g *G) nodeMatches(p pnode, n *lpg.Node) bool {
	for _, l := range p.labels {
		if !n.HasLabel(l) {
			return false
		}
	}
	if p.key == "" {
		return true
	}
	v, ok := n.GetProperty(p.key)
	if !ok {
		return false
	}
	i, ok := native(v).(int)
	return ok && i == p.val
}

// matchAll enumerates every match of the chains, extending m.
func (g *G) matchAll(cs []chain, m match, f func(match)) {
	if len(cs) == 0 {
		f(m)
		return
	}
	c := cs[0]
	var step func(i int, at *lpg.Node, m match)
	bindNode := func(p pnode, n *lpg.Node, m match) (match, bool) {
		if !g.nodeMatches(p, n) {
			return nil, false
		}
		return with(m, p.v, n)
	}
	step = func(i int, at *lpg.Node, m match) {
		if i == len(c.rels) {
			g.matchAll(cs[1:], m, f)
			return
		}
		r := c.rels[i]
		for _, e := range g.edges {
			ok := len(r.types) == 0
			for _, t := range r.types {
				if e.GetLabel() == t {
					ok = true
				}
			}
			if !ok {
				continue
			}
			var ends []*lpg.Node
			if r.dir != '<' && e.GetFrom() == at {
				ends = append(ends, e.GetTo())
			}
			if r.dir != '>' && e.GetTo() == at && !(len(ends) == 1 && ends[0] == at) {
				ends = append(ends, e.GetFrom())
			}
			for _, to := range ends {
				m1, ok := with(m, r.v, e)
				if !ok {
					continue
				}
				if m2, ok := bindNode(c.nodes[i+1], to, m1); ok {
					step(i+1, to, m2)
				}
			}
		}
	}
	for _, n := range g.nodes {
		if m1, ok := bindNode(c.nodes[0], n, m); ok {
			step(0, n, m1)
		}
	}
}

func with(m match, v string, x interface{}) (match, bool) {
	if v == "" {
		return m, true
	}
	if o, ok := m[v]; ok {
		return m, o == x
	}
	r := match{v: x}
	for k, o := range m {
		r[k] = o
	}
	return r, true
}

// elem is the node or relationship a cell holds.
func elem(v interface{}) interface{} {
	switch x := v.(type) {
	case *lpg.Node:
		return x
	case *lpg.Path:
		vf.Assert(x.NumEdges() == 1, "relationship-value")
		return x.GetEdge(0)
	case *lpg.Edge:
		return x
	case []*lpg.Edge:
		vf.Assert(len(x) == 1, "relationship-value")
		return x[0]
	}
	vf.Fail("not-an-element")
	return nil
}

// assertMatches asserts that the rows are exactly the matches, over vars.
func assertMatches(rs oc.ResultSet, want []match, vars []string, id string) {
	vf.Assert(len(rs.Rows) == len(want), id+"-count")
	used := make([]bool, len(want))
	for i := range rs.Rows {
		got := match{}
		for _, v := range vars {
			got[v] = elem(cell(rs, i, v))
		}
		found := false
		for j, w := range want {
			if used[j] {
				continue
			}
			same := true
			for _, v := range vars {
				if w[v] != got[v] {
					same = false
				}
			}
			if same {
				used[j], found = true, true
				break
			}
		}
		vf.Assert(found, id+"-row")
	}
}

func varsOf(cs []chain) []string {
	var vs []string
	add := func(v string) {
		if v == "" {
			return
		}
		for _, x := range vs {
			if x == v {
				return
			}
		}
		vs = append(vs, v)
	}
	for _, c := range cs {
		for _, n := range c.nodes {
			add(n.v)
		}
		for _, r := range c.rels {
			add(r.v)
		}
	}
	return vs
}

func returning(vars []string) string {
	s := " return "
	for i, v := range vars {
		if i > 0 {
			s += ", "
		}
		s += v + " as " + v
	}
	if len(vars) == 0 {
		s += "1 as one"
	}
	return s
}

func (g *G) assertMatch(ctx *oc.EvalContext, sep string, cs []chain, bound match, id string) {
	q := "match "
	for i, c := range cs {
		if i > 0 {
			q += sep
		}
		q += c.text()
	}
	vars := varsOf(cs)
	v, err := oc_eval(ctx, q+returning(vars))
	must(err, id+"-error")
	var want []match
	g.matchAll(cs, bound, func(m match) { want = append(want, m) })
	assertMatches(rows(v), want, vars, id)
}

func nd(v string, labels ...string) pnode { return pnode{v: v, labels: labels} }

func hops(first pnode, rest ...interface{}) chain {
	c := chain{nodes: []pnode{first}}
	for _, x := range rest {
		switch y := x.(type) {
		case prel:
			c.rels = append(c.rels, y)
		case pnode:
			c.nodes = append(c.nodes, y)
		}
	}
	return c
}

func rel(v string, dir byte, types ...string) prel { return prel{v: v, dir: dir, types: types} }

// ---- harnesses

// node patterns: labels
func P14_Nodes() {
	g := graphOf(vf.Pick(2, 3))
	g.symLabels(nil, []string{"A"}, []string{"B"}, []string{"A", "B"})
	cs := [][]chain{
		{hops(nd("n"))},
		{hops(nd("n", "A"))},
		{hops(nd("n", "A", "B"))},
		{hops(nd("n", "C"))},
		{hops(nd("n", "B")), hops(nd("m", "A"))},
		{hops(nd("n", "A")), hops(nd("n", "B"))},
		{hops(nd("", "A"))},
		{hops(nd("n")), hops(nd("m")), hops(nd("o", "A"))},
	}[vf.Choice("pattern", 8)]
	g.assertMatch(g.ctx(), ", ", cs, match{}, "nodes")
}

// node patterns: property constraints
func P14_Properties() {
	n := vf.Pick(2, 3)
	g := graphOf(n)
	g.symProps("p", true)
	g.symProps("q", false)
	a, b := vf.Int("a"), vf.Int("b")
	ctx := bind(g.ctx(), a, b)
	pa := pnode{v: "n", key: "p", val: a, txt: "$a"}
	switch vf.Choice("pattern", 6) {
	case 5: // a property that is null equals nothing
		ctx.SetParameter("$z", rv(nil))
		q := []string{"(n {p: null})", "(n {p: $z})", "(n {p: $a, q: $z})", "(n {nosuch: null})", "(n), (m {p: $z})", "(n) match (n {q: null})", "(n) match (m {p: n.nosuch})"}[vf.Choice("null", 7)]
		v, err := oc_eval(ctx, "match "+q+" return n as n")
		must(err, "error")
		vf.Assert(len(rows(v).Rows) == 0, "null")
	case 0:
		g.assertMatch(ctx, ", ", []chain{hops(pa)}, match{}, "one")
	case 1:
		g.assertMatch(ctx, ", ", []chain{hops(pa), hops(pnode{v: "m", key: "q", val: b, txt: "$b"})}, match{}, "two")
	case 2:
		g.assertMatch(ctx, ", ", []chain{hops(pa), hops(pnode{v: "n", key: "q", val: b, txt: "$b"})}, match{}, "same")
	case 3:
		g.assertMatch(ctx, ", ", []chain{hops(pnode{v: "n", key: "p", val: 7, txt: "7"})}, match{}, "literal")
	case 4: // two properties in one map
		v, err := oc_eval(ctx, "match (n {p: $a, q: $b}) return n as n")
		must(err, "error")
		var want []match
		for _, x := range g.nodes {
			p, ok := x.GetProperty("p")
			q, _ := x.GetProperty("q")
			if ok && vf.And(p.(int) == a, q.(int) == b) {
				want = append(want, match{"n": x})
			}
		}
		assertMatches(rows(v), want, []string{"n"}, "both")
	}
}

var dirs = []byte{'>', '<', '-', '='}

// one relationship, every direction and type constraint, two nodes
func P14_Edges() {
	g := graphOf(2)
	g.symEdges(vf.Pick(2, 3), []string{"R", "S"})
	d := dirs[vf.Choice("dir", 4)]
	var types []string
	switch vf.Choice("types", 4) {
	case 1:
		types = []string{"R"}
	case 2:
		types = []string{"S", "R"}
	case 3:
		types = []string{"T", "S", "U", "R"}
	}
	v := []string{"r", ""}[vf.Choice("named", 2)]
	end := nd("m")
	switch vf.Choice("end", 3) {
	case 1:
		end = nd("")
	case 2:
		end = nd("n")
	}
	g.assertMatch(g.ctx(), ", ", []chain{hops(nd("n"), rel(v, d, types...), end)}, match{}, "edge")
}

func P14_EdgesThree() {
	g := graphOf(3)
	g.symEdges(vf.Pick(2, 3), []string{"R"})
	d := dirs[vf.Choice("dir", 4)]
	g.assertMatch(g.ctx(), ", ", []chain{hops(nd("n"), rel("r", d, "R"), nd("m"))}, match{}, "edge")
}

// any number of alternative types, in any order
func P14_ManyTypes() {
	g := graphOf(2)
	g.symEdges(vf.Pick(1, 2), []string{"R", "S", "T", "U", "V"})
	all := []string{"R", "S", "T", "U", "V", "R"}
	n := 1 + vf.Choice("n", 5)
	from := vf.Choice("from", 2)
	types := append([]string{}, all[from:from+n]...)
	if vf.Choice("reversed", 2) == 1 {
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			types[i], types[j] = types[j], types[i]
		}
	}
	r := rel("r", dirs[vf.Choice("dir", 3)], types...)
	if vf.Choice("hops", 2) == 1 {
		g.assertMatch(g.ctx(), ", ", []chain{hops(nd("n"), r, nd("m"), rel("s", '>', types...), nd("o"))}, match{}, "types")
		return
	}
	g.assertMatch(g.ctx(), ", ", []chain{hops(nd("n"), r, nd("m"))}, match{}, "types")
}

// two and three relationships in a row
func P14_Chains() {
	g := graphOf(vf.Pick(2, 3))
	g.symEdges(vf.Pick(2, 3), []string{"R"})
	d1, d2 := dirs[vf.Choice("dir1", 3)], dirs[vf.Choice("dir2", 3)]
	var c chain
	switch vf.Choice("pattern", 5) {
	case 0:
		c = hops(nd("a"), rel("r", d1), nd("b"), rel("s", d2), nd("c"))
	case 1:
		c = hops(nd("a"), rel("", d1), nd(""), rel("", d2), nd("c"))
	case 2:
		c = hops(nd("a"), rel("r", d1), nd("b"), rel("s", d2), nd("a"))
	case 3:
		c = hops(nd("a"), rel("r", d1), nd("b"), rel("r", d2), nd("c"))
	case 4:
		c = hops(nd("a"), rel("r", d1), nd("b"), rel("s", '>'), nd("c"), rel("t", d2), nd("d"))
	}
	g.assertMatch(g.ctx(), ", ", []chain{c}, match{}, "chain")
}

// labels on both ends
func P14_Labelled() {
	g := graphOf(3)
	g.symLabels(nil, []string{"A"}, []string{"B"})
	g.symEdges(vf.Pick(1, 2), []string{"R"})
	d := dirs[vf.Choice("dir", 3)]
	c := [][]chain{
		{hops(nd("n", "A"), rel("r", d), nd("m"))},
		{hops(nd("n"), rel("r", d), nd("m", "B"))},
		{hops(nd("n", "A"), rel("r", d), nd("m", "B"))},
		{hops(nd("n", "A"), rel("r", d), nd("m", "B"), rel("s", d), nd("o"))},
	}[vf.Choice("pattern", vf.Pick(3, 4))]
	g.assertMatch(g.ctx(), ", ", c, match{}, "labelled")
}

// several patterns sharing variables, as a list and as clauses
func P14_Combined() {
	g := graphOf(2)
	g.symEdges(vf.Pick(2, 3), []string{"R"})
	sep := []string{", ", " match "}[vf.Choice("sep", 2)]
	cs := [][]chain{
		{hops(nd("a"), rel("r", '>'), nd("b")), hops(nd("b"), rel("s", '>'), nd("c"))},
		{hops(nd("a"), rel("r", '>'), nd("b")), hops(nd("c"), rel("s", '>'), nd("a"))},
		{hops(nd("a"), rel("r", '>'), nd("b")), hops(nd("c"), rel("s", '-'), nd("d"))},
		{hops(nd("a"), rel("r", '>'), nd("b")), hops(nd("c"), rel("r", '>'), nd("d"))},
		{hops(nd("a"), rel("r", '<'), nd("b")), hops(nd("a"), rel("s", '-'), nd("b"))},
		{hops(nd("a"), rel("", '>'), nd("")), hops(nd("b"))},
		{hops(nd("a"), rel("r", '>'), nd("b")), hops(nd("b"), rel("s", '>'), nd("c")), hops(nd("c"), rel("t", '>'), nd("a"))},
	}[vf.Choice("pattern", 7)]
	g.assertMatch(g.ctx(), sep, cs, match{}, "combined")
}

// variables bound before the query restrict it to their values
func P14_Bound() {
	g := graphOf(vf.Pick(2, 3))
	g.symEdges(2, []string{"R"})
	b := match{}
	ctx := g.ctx()
	set := func(name string) {
		n := g.nodes[vf.Choice(name, len(g.nodes))]
		b[name] = n
		ctx.SetVar(name, oc.ValueOf(n))
	}
	switch vf.Choice("bound", 3) {
	case 0:
		set("a")
	case 1:
		set("b")
	case 2:
		set("a")
		set("b")
	}
	if vf.Choice("sub", 2) == 1 {
		ctx = ctx.SubContext()
	}
	d := dirs[vf.Choice("dir", 3)]
	cs := [][]chain{
		{hops(nd("a"))},
		{hops(nd("a"), rel("r", d), nd("b"))},
		{hops(nd("c"), rel("r", d), nd("b"))},
		{hops(nd("a"), rel("r", d), nd("b"), rel("s", d), nd("c"))},
		{hops(nd("a"), rel("r", d), nd("c")), hops(nd("c"), rel("s", d), nd("b"))},
	}[vf.Choice("pattern", 5)]
	g.assertMatch(ctx, ", ", cs, b, "bound")
}

// parallel relationships are different matches
func P14_Parallel() {
	g := graphOf(2)
	for i := 0; i < 2+vf.Choice("n", 2); i++ {
		t := []string{"R", "S"}[vf.Choice("type"+digit(i), 2)]
		if vf.Choice("rev"+digit(i), 2) == 1 {
			g.edge(1, 0, t)
		} else {
			g.edge(0, 1, t)
		}
	}
	c := []chain{
		hops(nd("n"), rel("r", '>', "R"), nd("m"), rel("s", '<', "S"), nd("o")),
		hops(nd("n"), rel("", '>'), nd("m")),
		hops(nd("n"), rel("r", '-', "R", "S"), nd("m"), rel("", '>', "S"), nd("n")),
	}[vf.Choice("pattern", 3)]
	g.assertMatch(g.ctx(), ", ", []chain{c}, match{}, "parallel")
}

// property constraints on relationships
func P14_EdgeProperties() {
	g := graphOf(2)
	a := vf.Int("a")
	w := []int{vf.Int("w0"), vf.Int("w1")}
	g.edge(0, 1, "R").SetProperty("w", w[0])
	g.edge(vf.Choice("from", 2), vf.Choice("to", 2), []string{"R", "S"}[vf.Choice("type", 2)]).SetProperty("w", w[1])
	g.edge(1, 0, "R")
	k := vf.Choice("pattern", 5)
	q := []string{"-[r {w: $a}]->", "-[r:R {w: $a}]->", "<-[r {w: $a}]-", "-[r:R {w: $a}]-", "-[r:R|S {w: $a}]->"}[k]
	named := vf.Choice("named", 2) == 0
	if !named {
		q = []string{"-[{w: $a}]->", "-[:R {w: $a}]->", "<-[{w: $a}]-", "-[:R {w: $a}]-", "-[:R|S {w: $a}]->"}[k]
	}
	text, vars := "match (n)"+q+"(m) return n as n, m as m", []string{"n", "m"}
	if named {
		text, vars = text+", r as r", []string{"n", "r", "m"}
	}
	v, err := oc_eval(bind(g.ctx(), a), text)
	must(err, "error")
	c := []chain{
		hops(nd("n"), rel("r", '>'), nd("m")),
		hops(nd("n"), rel("r", '>', "R"), nd("m")),
		hops(nd("n"), rel("r", '<'), nd("m")),
		hops(nd("n"), rel("r", '-', "R"), nd("m")),
		hops(nd("n"), rel("r", '>', "R", "S"), nd("m")),
	}[k]
	var want []match
	g.matchAll([]chain{c}, match{}, func(m match) {
		x, ok := m["r"].(*lpg.Edge).GetProperty("w")
		if ok && x.(int) == a {
			want = append(want, m)
		}
	})
	assertMatches(rows(v), want, vars, "edge-properties")
}

// string valued property constraints
func P14_Strings() {
	g := graphOf(2)
	s := vf.Str("s", 0, 2, "")
	for i, n := range g.nodes {
		n.SetProperty("p", vf.Str("p"+digit(i), 0, 2, ""))
	}
	v, err := oc_eval(bind(g.ctx(), s), "match (n {p: $a}) return n as n")
	must(err, "error")
	var want []match
	for _, n := range g.nodes {
		x, _ := n.GetProperty("p")
		if bytesEq(x.(string), s) {
			want = append(want, match{"n": n})
		}
	}
	assertMatches(rows(v), want, []string{"n"}, "strings")
}

// narrowing mentions nodes again, with constraints that the first mention lacks
func narrowing(a int) [][]chain {
	p := func(v string, l ...string) pnode { return pnode{v: v, labels: l, key: "p", val: a, txt: "$a"} }
	return [][]chain{
		{hops(nd("a", "A")), hops(nd("a", "B"))},
		{hops(nd("a")), hops(p("a"))},
		{hops(nd("a"), rel("r", '>'), nd("b")), hops(nd("b", "B"))},
		{hops(nd("a"), rel("r", '>'), nd("b")), hops(nd("a", "A"))},
		{hops(nd("a"), rel("r", '-'), nd("b")), hops(p("b", "B"))},
		{hops(nd("b")), hops(nd("a"), rel("r", '>'), nd("b", "B"))},
		{hops(nd("a")), hops(nd("a", "A"), rel("r", '<'), nd("b"))},
		{hops(nd("b")), hops(nd("a"), rel("r", '-'), p("b"))},
		{hops(nd("a"), rel("r", '>'), nd("b")), hops(nd("b", "B"), rel("s", '>'), nd("a", "A"))},
		{hops(nd("a", "A"), rel("r", '>'), nd("a", "B"))},
		{hops(nd("a"), rel("r", '>'), nd("b"), rel("s", '>'), nd("a", "A"))},
		{hops(nd("a"), rel("r", '>'), nd("b"), rel("s", '<'), p("a"))},
		{hops(nd("a")), hops(nd("b")), hops(nd("a", "A"), rel("r", '>'), p("b"))},
	}
}

func narrowed() (*G, *oc.EvalContext, []chain) {
	g := graphOf(2)
	g.symLabels(nil, []string{"A"}, []string{"B"}, []string{"A", "B"})
	g.symProps("p", false)
	g.symEdges(vf.Pick(1, 2), []string{"R"})
	a := vf.Int("a")
	return g, bind(g.ctx(), a), narrowing(a)[vf.Choice("pattern", 13)]
}

// constraints on a node that is already bound
func P14_Narrowing() {
	g, ctx, cs := narrowed()
	g.assertMatch(ctx, []string{", ", " match "}[vf.Choice("sep", 2)], cs, match{}, "narrowing")
}

// constraints on a node bound before the query
func P14_NarrowingGiven() {
	g, ctx, cs := narrowed()
	b := match{}
	for _, v := range []string{"a", "b"} {
		if v == "a" || vf.Choice("also", 2) == 1 {
			n := g.nodes[vf.Choice(v+"is", len(g.nodes))]
			b[v] = n
			ctx.SetVar(v, oc.ValueOf(n))
		}
	}
	g.assertMatch(ctx, ", ", cs, b, "given")
}

var _ = vf.Reg("P14_FindingConstraintKinds", P14_FindingConstraintKinds)

// property constraints with values that are neither integers nor strings
func P14_FindingConstraintKinds() {
	k := []int{kFloat, kBool}[vf.Choice("kind", 2)]
	a := value(k, "a")
	if f, ok := a.(float64); ok {
		vf.Assume(!isNaN(f))
	}
	g := graphOf(1)
	g.nodes[0].SetProperty("p", a)
	v, err := oc_eval(bind(g.ctx(), a), "match (n {p: $a}) return n as n")
	must(err, "constraint-kind-error")
	vf.Assert(len(rows(v).Rows) == 1, []string{"float-constraint-never-matches", "bool-constraint-never-matches"}[vf.IteInt(k == kBool, 1, 0)])
}

// property constraints given as a whole by a parameter
func P14_Parameters() {
	g := graphOf(2)
	a, b := vf.Int("a"), vf.Int("b")
	hp, hq := vf.Choice("p", 2) == 1, vf.Choice("q", 2) == 1
	m := map[string]oc.Value{}
	if hp {
		m["p"] = rv(a)
	}
	if hq {
		m["q"] = rv(b)
	}
	p, q := []int{vf.Int("p0"), vf.Int("p1")}, []int{vf.Int("q0"), vf.Int("q1")}
	ok := func(i int) bool { return vf.And(vf.Or(!hp, p[i] == a), vf.Or(!hq, q[i] == b)) }
	ctx := g.ctx()
	ctx.SetParameter("$m", rv(m))
	var want []match
	switch vf.Choice("on", 3) {
	case 0:
		for i, n := range g.nodes {
			n.SetProperty("p", p[i])
			n.SetProperty("q", q[i])
			if ok(i) {
				want = append(want, match{"n": n})
			}
		}
		v, err := oc_eval(ctx, "match (n $m) return n as n")
		must(err, "error")
		assertMatches(rows(v), want, []string{"n"}, "node")
	case 1:
		for i := 0; i < 2; i++ {
			e := g.edge(i, 1, "R")
			e.SetProperty("p", p[i])
			e.SetProperty("q", q[i])
			if ok(i) {
				want = append(want, match{"n": g.nodes[i], "r": e})
			}
		}
		v, err := oc_eval(ctx, "match (n)-[r:R $m]->(o) return n as n, r as r")
		must(err, "error")
		assertMatches(rows(v), want, []string{"n", "r"}, "relationship")
	case 2: // only a map of properties will do
		k := vf.Choice("kind", nKinds)
		if k == kMap {
			return
		}
		ctx.SetParameter("$m", rv(value(k, "v")))
		_, err := oc_eval(ctx, []string{"match (n $m) return n", "match (n)-[$m]->() return n"}[vf.Choice("query", 2)])
		vf.Assert(err != nil, "not-a-map")
	}
}

var _ = vf.Reg("P14_Parenthesized", P14_Parenthesized)

// a pattern in parentheses means the same
func P14_Parenthesized() {
	g := graphOf(vf.Pick(2, 3))
	g.symLabels(nil, []string{"A"})
	g.symEdges(2, []string{"R"})
	d1, d2 := dirs[vf.Choice("dir1", 3)], dirs[vf.Choice("dir2", 3)]
	cs := [][]chain{
		{hops(nd("a", "A"))},
		{hops(nd("a"), rel("r", d1), nd("b"))},
		{hops(nd("a"), rel("r", d1), nd("b"), rel("s", d2), nd("c"))},
		{hops(nd("a"), rel("", d1), nd("b", "A"), rel("s", d2), nd("a"))},
		{hops(nd("a"), rel("r", d1), nd("b"), rel("s", d2), nd("c"), rel("t", '>'), nd("d", "A"))},
		{hops(nd("a"), rel("r", d1), nd("b")), hops(nd("b"), rel("s", d2), nd("c"))},
	}[vf.Choice("pattern", 6)]
	open, shut := []string{"(", "(("}[vf.Choice("parentheses", 2)], ""
	for i := range open {
		if open[i] == '(' {
			shut += ")"
		}
	}
	q := "match "
	for i, c := range cs {
		if i > 0 {
			q += ", "
		}
		q += open + c.text() + shut
	}
	vars := varsOf(cs)
	v, err := oc_eval(g.ctx(), q+returning(vars))
	must(err, "error")
	var want []match
	g.matchAll(cs, match{}, func(m match) { want = append(want, m) })
	assertMatches(rows(v), want, vars, "parenthesized")
}
