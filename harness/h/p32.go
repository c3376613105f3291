package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P32_Match", P32_Match)
var _ = vf.Reg("P32_MatchProperties", P32_MatchProperties)
var _ = vf.Reg("P32_MatchParts", P32_MatchParts)
var _ = vf.Reg("P32_Repeated", P32_Repeated)
var _ = vf.Reg("P32_Create", P32_Create)
var _ = vf.Reg("P32_CreateRows", P32_CreateRows)
var _ = vf.Reg("P32_Merge", P32_Merge)
var _ = vf.Reg("P32_MergePath", P32_MergePath)
var _ = vf.Reg("P32_Set", P32_Set)
var _ = vf.Reg("P32_Delete", P32_Delete)
var _ = vf.Reg("P32_Maps", P32_Maps)
var _ = vf.Reg("P32_Union", P32_Union)
var _ = vf.Reg("P32_UnionSets", P32_UnionSets)
var _ = vf.Reg("P32_Product", P32_Product)
var _ = vf.Reg("P32_Columns", P32_Columns)
var _ = vf.Reg("P32_Relative", P32_Relative)
var _ = vf.Reg("P32_Context", P32_Context)

// Every harness of this file runs the same program twice on two identical
// worlds, the second time with the iteration order of every map that the library
// ranges over chosen by the engine, and asserts that the outcomes agree.

// twin is a copy of the graph: the same elements in the same order.
func (g *G) twin() *G {
	t := &G{g: lpg.NewGraph()}
	for _, n := range g.nodes {
		ps := map[string]interface{}{}
		n.ForEachProperty(func(k string, v interface{}) bool { ps[k] = v; return true })
		t.node(n.GetLabels().Slice(), ps)
	}
	for _, e := range g.edges {
		ps := map[string]interface{}{}
		e.ForEachProperty(func(k string, v interface{}) bool { ps[k] = v; return true })
		t.edges = append(t.edges, t.g.NewEdge(t.nodes[g.index(e.GetFrom())], t.nodes[g.index(e.GetTo())], e.GetLabel(), ps))
	}
	return t
}

// outcome is everything a run leaves behind.
type outcome struct {
	g    *G
	err  error
	rs   oc.ResultSet
	vars map[string]oc.Value
	snap snap
}

// sameNode: both are the same element of the original graph, or both are new and
// look the same.
func sameNode(a, b *outcome, x, y *lpg.Node) bool {
	i, j := a.g.index(x), b.g.index(y)
	if i >= 0 || j >= 0 {
		return i == j
	}
	p, q := a.snap.node(x), b.snap.node(y)
	if p == nil || q == nil {
		return p == nil && q == nil
	}
	return vf.And(sameLabels(p.labels, q.labels), sameProps(p.props, q.props))
}

func sameLabels(p, q map[string]bool) bool {
	if len(p) != len(q) {
		return false
	}
	for l := range p {
		if !q[l] {
			return false
		}
	}
	return true
}

func sameProps(p, q map[string]interface{}) bool {
	if len(p) != len(q) {
		return false
	}
	r := true
	for k, v := range p {
		w, ok := q[k]
		if !ok {
			return false
		}
		r = vf.And(r, sameProp(v, w))
	}
	return r
}

func sameEdge(a, b *outcome, x, y *lpg.Edge) bool {
	i, j := edgeIndex(a.g, x), edgeIndex(b.g, y)
	if i >= 0 || j >= 0 {
		return i == j
	}
	p, q := a.snap.edge(x), b.snap.edge(y)
	if p == nil || q == nil {
		return p == nil && q == nil
	}
	return p.label == q.label && vf.And(sameProps(p.props, q.props), sameNode(a, b, p.from, q.from), sameNode(a, b, p.to, q.to))
}

func edgeIndex(g *G, e *lpg.Edge) int {
	for i, x := range g.edges {
		if x == e {
			return i
		}
	}
	return -1
}

// same compares a value of one run with one of the other.
func same(a, b *outcome, x, y interface{}) bool {
	switch v := x.(type) {
	case *lpg.Node:
		w, ok := y.(*lpg.Node)
		return ok && sameNode(a, b, v, w)
	case *lpg.Edge:
		w, ok := y.(*lpg.Edge)
		return ok && sameEdge(a, b, v, w)
	case *lpg.Path:
		w, ok := y.(*lpg.Path)
		if !ok || v.NumEdges() != w.NumEdges() {
			return false
		}
		r := true
		for i := 0; i < v.NumEdges(); i++ {
			r = vf.And(r, sameEdge(a, b, v.GetEdge(i), w.GetEdge(i)))
		}
		return r
	case []oc.Value:
		w, ok := y.([]oc.Value)
		if !ok || len(v) != len(w) {
			return false
		}
		r := true
		for i := range v {
			r = vf.And(r, same(a, b, v[i].Get(), w[i].Get()))
		}
		return r
	case map[string]oc.Value:
		w, ok := y.(map[string]oc.Value)
		return ok && sameRowIn(a, b, v, w)
	}
	switch y.(type) {
	case *lpg.Node, *lpg.Edge, *lpg.Path, []oc.Value, map[string]oc.Value:
		return false
	}
	return identical(x, y)
}

func sameRowIn(a, b *outcome, x, y map[string]oc.Value) bool {
	if len(x) != len(y) {
		return false
	}
	r := true
	for k, v := range x {
		w, ok := y[k]
		if !ok {
			return false
		}
		r = vf.And(r, same(a, b, v.Get(), w.Get()))
	}
	return r
}

// assertMultiset asserts that the two sequences have the same elements the same
// number of times; eq is an equivalence between and within them.
func assertMultiset(n, m int, eq func(i, j int) bool, id string) {
	vf.Assert(n == m, id+"-count")
	// rows usually come in the same order
	straight := true
	for i := 0; i < n; i++ {
		straight = vf.And(straight, eq(i, i))
	}
	if straight {
		return
	}
	// a matching of the two, if there is one
	used := make([]bool, m)
	for i := 0; i < n; i++ {
		found := false
		for j := 0; j < m && !found; j++ {
			if !used[j] && eq(i, j) {
				used[j], found = true, true
			}
		}
		vf.Assert(found, id)
	}
}

func assertOutcome(a, b *outcome, id string) {
	vf.Assert((a.err == nil) == (b.err == nil), id+"-error")
	if a.err != nil {
		return
	}
	vf.Assert(len(a.rs.Cols) == len(b.rs.Cols), id+"-columns")
	for i, c := range a.rs.Cols {
		vf.Assert(c == b.rs.Cols[i], id+"-columns")
	}
	assertMultiset(len(a.rs.Rows), len(b.rs.Rows), func(i, j int) bool {
		return sameRowIn(a, b, a.rs.Rows[i], b.rs.Rows[j])
	}, id+"-rows")
	assertMultiset(len(a.snap.nodes), len(b.snap.nodes), func(i, j int) bool {
		p, q := a.snap.nodes[i], b.snap.nodes[j]
		return a.g.index(p.n) == b.g.index(q.n) && vf.And(sameLabels(p.labels, q.labels), sameProps(p.props, q.props))
	}, id+"-nodes")
	assertMultiset(len(a.snap.edges), len(b.snap.edges), func(i, j int) bool {
		p, q := a.snap.edges[i], b.snap.edges[j]
		return p.label == q.label && vf.And(sameProps(p.props, q.props), sameNode(a, b, p.from, q.from), sameNode(a, b, p.to, q.to))
	}, id+"-edges")
	vf.Assert(sameRowIn(a, b, a.vars, b.vars), id+"-variables")
}

// both runs the queries, one after the other in the same context, on the graph
// and on its twin.
func both(g *G, params map[string]interface{}, id string, queries ...string) {
	exec := func(g *G, orders bool) *outcome {
		ctx := g.ctx()
		for k, v := range params {
			ctx.SetParameter("$"+k, rv(v))
		}
		o := &outcome{g: g}
		for _, q := range queries {
			vf.MapOrders(orders)
			v, err := oc.ParseAndEvaluate(q, ctx)
			vf.MapOrders(false)
			if err != nil {
				o.err = err
				return o
			}
			o.rs = rows(v)
		}
		o.vars = ctx.GetVarsNearestScope()
		o.snap = takeSnap(g.g)
		return o
	}
	t := g.twin()
	assertOutcome(exec(g, false), exec(t, true), id)
}

// shape adds relationships: one of a few small shapes, or any two.
func (g *G) shape(any int) {
	if any > 0 {
		g.symEdges(2, []string{"R", "S"})
		return
	}
	switch vf.Choice("shape", 4) {
	case 0:
		g.edge(0, 1, "R")
	case 1:
		g.edge(0, 1, "R")
		g.edge(1, 0, "R")
	case 2:
		g.edge(0, 0, "R")
	case 3:
		g.edge(0, 1, "R")
		g.edge(0, 1, "S")
	}
}

// someProps gives the nodes a property; in the quick tier only the first one can
// be without.
func (g *G) someProps(key string) {
	if vf.Pick(0, 1) == 1 {
		g.optProps(key)
		return
	}
	for i, n := range g.nodes {
		if i > 0 || vf.Choice("has"+key, 2) == 1 {
			n.SetProperty(key, vf.Int(key+digit(i)))
		}
	}
}

// a pattern with several variables
func P32_Match() {
	g := graphOf(2)
	g.symLabels([]string{"A"}, []string{"A", "B"})
	g.shape(vf.Pick(0, 1))
	q := []string{
		"match (x)-[r]->(y) return *",
		"match (x:A)-[r:R|S]->(y:B) return *",
		"match (x)-[r]-(y) return x as x, r as r, y as y",
		"match (x)-[r:R]->(y)<-[s]-(z) return *",
		"match (x)-[r*1..2]->(y) return *",
		"match (x)-[r]->(y) return *, labels(x) as l",
	}[vf.Choice("q", 6)]
	both(g, nil, "match", q)
}

// constraints on several properties, from a literal or from a parameter
func P32_MatchProperties() {
	g := graphOf(1)
	g.optProps("p")
	g.optProps("q")
	a, b := vf.Int("a"), vf.Int("b")
	m := map[string]oc.Value{"p": rv(a), "q": rv(b)}
	if vf.Choice("three", 2) == 1 {
		m["r"] = rv(1)
		if vf.Choice("hasr", 2) == 1 {
			g.nodes[0].SetProperty("r", 1)
		}
	}
	g.edges = append(g.edges, g.g.NewEdge(g.nodes[0], g.nodes[0], "R", map[string]interface{}{"p": vf.Int("ep"), "q": b}))
	q := []string{
		"match (n {p: $a, q: $b}) return *",
		"match (n $m) return *",
		"match (n $m)-[r]->(o) return *",
		"match (n)-[r {p: $a, q: $b}]->(o {p: $a}) return *",
		"match (n)-[r $m]->(o) return *",
		"match (n {q: $b}), (o $m) return *",
	}[vf.Choice("q", 6)]
	both(g, map[string]interface{}{"a": a, "b": b, "m": m}, "properties", q)
}

// several patterns and reading clauses
func P32_MatchParts() {
	g := graphOf(2)
	g.symProps("p", false)
	g.shape(vf.Pick(0, 1))
	a := vf.Int("a")
	q := []string{
		"match (x), (y) where x.p < y.p return *",
		"match (x) match (y) where x.p <= $a return *",
		"match (x)-[r]->(y), (z {p: $a}) return *",
		"match (x)-[r]->(y) match (x)-[s]-(z) return *",
		"match (x)-[r]->(y) match (z) where z.p = y.p return x.p as a, z.p as b",
		"match (x) return x.p as x, x.p as y, $a as z",
	}[vf.Choice("q", 6)]
	both(g, map[string]interface{}{"a": a}, "parts", q)
}

// variables that occur more than once
func P32_Repeated() {
	g := graphOf(2)
	g.shape(vf.Pick(0, 1))
	q := []string{
		"match (x)-[r]->(y)-[s]->(x) return *",
		"match (x)-[r]->(x) return *",
		"match (x)-[r]->(y), (y)-[s]->(x) return *",
		"match (x)-[r]->(y) match (y)-[s]->(x) return *",
	}[vf.Choice("q", 4)]
	both(g, nil, "repeated", q)
}

func someMap(keys []string) map[string]oc.Value {
	m := map[string]oc.Value{}
	for _, k := range keys {
		switch vf.Choice("in"+k, 3) {
		case 1:
			m[k] = rv(vf.Int("m" + k))
		case 2:
			m[k] = rv(nil)
		}
	}
	return m
}

func P32_Create() {
	g := graphOf(0)
	m := someMap([]string{"p", "q", "r"}[:vf.Pick(2, 3)])
	a, b := vf.Int("a"), vf.Str("b", 0, 1, "")
	q := []string{
		"create (n $m) return *",
		"create (n:A:B {p: $a, q: $b, r: null}) return *",
		"create (n $m)-[r:R $m]->(o:B {p: $a}) return *",
		"create (n $m), (o:A $m)<-[r:R {p: $a, q: $b}]-(s) return *, n.p as p",
	}[vf.Choice("q", 4)]
	both(g, map[string]interface{}{"a": a, "b": b, "m": m}, "create", q)
}

// one element per matched row, from variables of the row
func P32_CreateRows() {
	g := graphOf(2)
	g.someProps("p")
	g.shape(vf.Pick(0, 1))
	a := vf.Int("a")
	q := []string{
		"match (x) create (y:N {p: x.p, q: $a}) return *",
		"match (x)-[r]->(y) create (x)-[s:S {p: y.p, q: 1}]->(z:N {p: x.p}) return *",
		"match (x), (y) create (x)-[s:S {p: x.p, q: y.p}]->(y)",
		"match (x) create (y:N {p: x.p}) set y.q = x.p, x.q = $a return *",
	}[vf.Choice("q", 4)]
	both(g, map[string]interface{}{"a": a}, "create-rows", q)
}

func P32_Merge() {
	g := graphOf(vf.Choice("nodes", 2) + 1)
	g.symLabels([]string{"A"})
	g.symProps("p", false)
	g.optProps("q")
	a, b := vf.Int("a"), vf.Int("b")
	m := map[string]oc.Value{"p": rv(a), "q": rv(b)}
	s := map[string]oc.Value{"p": rv(b), "z": rv(a)}
	q := []string{
		"merge (n:A {p: $a, q: $b}) return *",
		"merge (n:A $m) return *",
		"merge (n:A {p: $a}) on create set n.q = $b, n.z = $a on match set n += $s return *",
		"merge (n:A {p: $a, q: $b}) on create set n += $s on match set n.z = $b return n.p as p, n.z as z",
	}[vf.Choice("q", 4)]
	both(g, map[string]interface{}{"a": a, "b": b, "m": m, "s": s}, "merge", q)
}

func P32_MergePath() {
	g := graphOf(2)
	g.symProps("p", false)
	g.shape(vf.Pick(0, 1))
	a := vf.Int("a")
	q := []string{
		"merge (x {p: $a})-[r:R]->(y) return *",
		"match (x) match (y) merge (x)-[r:R]->(y) return *",
		"match (x)-[r]->(y) merge (y)-[s:R]->(x) on create set x.n = y.p, y.n = x.p on match set x.o = y.p return *",
		"match (x) merge (y {p: x.p, q: $a}) return *",
		"match (x) merge (x)-[r:R]->(y:N) return *",
	}[vf.Choice("q", 5)]
	both(g, map[string]interface{}{"a": a}, "merge-path", q)
}

func P32_Set() {
	g := graphOf(2)
	g.someProps("p")
	g.nodes[0].SetProperty("q", vf.Int("q"))
	m := someMap([]string{"p", "q", "r"})
	a := vf.Int("a")
	q := []string{
		"match (n) set n = $m return *",
		"match (n) set n += $m return *",
		"match (n), (o) set n = o return *",
		"match (n), (o) set n += o, n.z = o.p return *",
		"match (n) set n += {p: $a, q: null, z: n.p}, n:A:B remove n.z return *",
		"match (n) set n = $m, n.p = $a set n += $m remove n.q, n:A",
		"match (n) where n.p = $a set n = {q: n.p, p: n.q} return *",
	}[vf.Choice("q", 7)]
	both(g, map[string]interface{}{"a": a, "m": m}, "set", q)
}

func P32_Delete() {
	g := graphOf(2)
	g.symProps("p", false)
	g.shape(vf.Pick(0, 1))
	a := vf.Int("a")
	q := []string{
		"match (x)-[r:R]->(y) delete r",
		"match (x)-[r]->(y) delete r, x",
		"match (x)-[r]->(y) detach delete x, y",
		"match (x)-[r]-(y) where x.p = $a detach delete y return *",
		"match (x) where x.p = $a detach delete x",
	}[vf.Choice("q", 5)]
	both(g, map[string]interface{}{"a": a}, "delete", q)
}

// maps as values
func P32_Maps() {
	g := graphOf(0)
	m := someMap([]string{"k", "l"})
	n := map[string]oc.Value{"k": rv(vf.Int("nk")), "l": rv([]oc.Value{rv(vf.Int("nl"))}), "m": rv(m)}
	a := vf.Int("a")
	q := []string{
		"return $m = $n as r",
		"return {k: $a, l: 2} = $m as r",
		"return $m <> {l: null, k: $a} as r",
		"return {k: $a, l: $m, j: [$n]} as r",
		"return [$m] = [{k: $a, l: 1}] as r",
		"return $m in [$n, {l: $a, k: 1}, $m] as r",
		"return case $m when {k: $a} then 1 when {l: $a, k: 2} then 2 else 3 end as r",
		"return $n = {m: $m, l: [$a], k: 5} as r",
		"return {k: 1 / $a, l: 2 / $a, m: 1} as r",
	}[vf.Choice("q", 9)]
	both(g, map[string]interface{}{"a": a, "m": m, "n": n}, "maps", q)
}

func P32_Union() {
	g := graphOf(2)
	g.someProps("p")
	a, b := vf.Int("a"), vf.Int("b")
	q := []string{
		"return $a as x, $b as y union return $b as x, $a as y",
		"match (n) return n.p as x, $a as y, 1 as z union match (n) return $a as x, n.p as y, 1 as z",
		"match (n) return * union match (n) where n.p = $a return *",
		"match (n) return n.p as x, $a as y union all match (n) return $a as x, n.p as y union return $a as x, $b as y",
		"match (n) return n as x, {k: $a, l: n.p} as y union match (n) return n as x, {l: $b, k: n.p} as y",
		"match (n), (m) return n.p as x, m.p as y union match (n), (m) return m.p as x, n.p as y",
	}[vf.Choice("q", 6)]
	both(g, map[string]interface{}{"a": a, "b": b}, "union", q)
}

// the library's Union over rows of several columns
func P32_UnionSets() {
	var in [2][]row
	for s := range in {
		for i := vf.Choice("rows"+digit(s), 3); i > 0; i-- {
			n := digit(s) + digit(i)
			r := row{"x": vf.Int("x" + n)}
			switch vf.Choice("shape"+n, 3) {
			case 1:
				r["y"] = vf.Int("y" + n)
			case 2:
				r["y"] = nil
				r["z"] = vf.Int("z" + n)
			}
			in[s] = append(in[s], r)
		}
	}
	vf.Assume(len(in[0])+len(in[1]) <= vf.Pick(3, 4))
	all := vf.Choice("all", 2) == 1
	var o [2]*outcome
	for k := range o {
		r, s := resultSet([]string{"x"}, in[0]), resultSet([]string{"x"}, in[1])
		vf.MapOrders(k == 1)
		err := r.Union(s, all)
		vf.MapOrders(false)
		o[k] = &outcome{g: graphOf(0), err: err, rs: r}
	}
	assertOutcome(o[0], o[1], "union-sets")
}

func P32_Product() {
	var in [2][]row
	for s := range in {
		for i := vf.Choice("rows"+digit(s), 3); i > 0; i-- {
			// column b is shared: the last set gives its value
			in[s] = append(in[s], row{col(s * 2): vf.Int("a" + digit(s) + digit(i)), "b": vf.Int("b" + digit(s) + digit(i))})
		}
	}
	all := vf.Choice("all", 2) == 1
	var o [2]*outcome
	for k := range o {
		x, y := resultSet(nil, in[0]), resultSet(nil, in[1])
		vf.MapOrders(k == 1)
		rs := oc.CartesianProduct([]oc.ResultSet{x, y}, all, func(m map[string]oc.Value) bool {
			v, ok := m["b"]
			return ok && v.Get().(int) > 0
		})
		vf.MapOrders(false)
		o[k] = &outcome{g: graphOf(0), rs: rs}
	}
	assertOutcome(o[0], o[1], "product")
}

// the combinations of column values
func P32_Columns() {
	var in []row
	w := 1 + vf.Choice("width", 3)
	for i := vf.Choice("rows", 3); i > 0; i-- {
		r := row{}
		for c := 0; c < w; c++ {
			r[col(c)] = vf.Int(col(c) + digit(i))
		}
		in = append(in, r)
	}
	var o [2]*outcome
	for k := range o {
		x := resultSet(nil, in)
		out := oc.NewResultSet()
		vf.MapOrders(k == 1)
		x.CartesianProduct(func(m map[string]oc.Value) bool {
			c := map[string]oc.Value{}
			for k, v := range m {
				c[k] = v
			}
			out.Append(c)
			return true
		})
		vf.MapOrders(false)
		o[k] = &outcome{g: graphOf(0), rs: *out}
	}
	assertOutcome(o[0], o[1], "columns")
}

// FindRelative
func P32_Relative() {
	g := graphOf(2)
	g.symLabels([]string{"A", "B"})
	g.shape(vf.Pick(0, 1))
	text := []string{
		"(this)-[r]->(target)",
		"(this:A)-[r:R]-(x)-[s]->(target:B)",
		"(this)-[]->(x)-[]->(target)<-[]-(this)",
	}[vf.Choice("text", 3)]
	p := parsePattern(text)
	for _, n := range g.nodes {
		vf.MapOrders(false)
		a, e := p.FindRelative(n)
		vf.MapOrders(true)
		b, f := p.FindRelative(n)
		vf.MapOrders(false)
		vf.Assert((e == nil) == (f == nil), "relative-error")
		assertMultiset(len(a), len(b), func(i, j int) bool { return a[i] == b[j] }, "relative")
	}
}

// names set together, and queries that follow each other in one context
func P32_Context() {
	g := graphOf(2)
	g.someProps("p")
	a := vf.Int("a")
	q := [][]string{
		{"create (n:A {p: $a}) return *", "match (n) return *"},
		{"match (x), (y) return *", "match (x)  return x.p as p"},
		{"match (x {p: $a}) return *", "merge (x)-[r:R]->(y:B {p: $a, q: 1}) return *"},
		{"create (x:A {p: $a})-[r:R]->(y) return x as x, y as y", "match (x)-[s]->(y) set x += {p: 1, q: y.p}, y = x return *"},
	}[vf.Choice("q", 4)]
	both(g, map[string]interface{}{"a": a}, "context", q...)
	ctx := newCtx()
	vf.MapOrders(true)
	ctx.SetVars(map[string]oc.Value{"x": rv(a), "y": rv(vf.Int("y")), "z": rv(nil)})
	vf.MapOrders(false)
	v, err := ctx.GetVar("x")
	must(err, "context-variable")
	vf.Assert(v.Get().(int) == a, "context-variable")
	vf.Assert(len(ctx.GetVarsNearestScope()) == 3, "context-variables")
}
