package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P19_Property", P19_Property)
var _ = vf.Reg("P19_Several", P19_Several)
var _ = vf.Reg("P19_Map", P19_Map)
var _ = vf.Reg("P19_Node", P19_Node)
var _ = vf.Reg("P19_Labels", P19_Labels)
var _ = vf.Reg("P19_Rows", P19_Rows)
var _ = vf.Reg("P19_Repeated", P19_Repeated)
var _ = vf.Reg("P19_Kinds", P19_Kinds)
var _ = vf.Reg("P19_Later", P19_Later)
var _ = vf.Reg("P19_Errors", P19_Errors)

// marked is a graph of n nodes, some labelled A, with optional properties p and
// q and a relationship between the first two.
func marked(n int) (*G, []opt, []opt) {
	g := graphOf(n)
	g.symLabels([]string{"A"}, []string{"B"})
	p := g.optProps("p")
	q := make([]opt, n)
	for i, x := range g.nodes {
		q[i] = opt{true, vf.Int("q" + digit(i))}
		x.SetProperty("q", q[i].v)
	}
	if n > 1 {
		g.edge(0, 1, "R").SetProperty("w", vf.Int("w"))
	}
	return g, p, q
}

// put changes the expected properties of one node; nil removes.
func (s *snap) put(n *lpg.Node, key string, v interface{}) {
	x := s.node(n)
	if v == nil {
		delete(x.props, key)
		return
	}
	x.props[key] = v
}

// one property assigned from an expression over the row's own values
func P19_Property() {
	g, p, q := marked(vf.Choice("nodes", vf.Pick(3, 4)))
	a := vf.Int("a")
	want := takeSnap(g.g)
	type item struct {
		text, key string
		f         func(i int) interface{}
	}
	items := []item{
		{"n.p = $a", "p", func(i int) interface{} { return a }},
		{"n.p = n.q + $a", "p", func(i int) interface{} { return q[i].v + a }},
		{"n.q = n.p", "q", func(i int) interface{} {
			if p[i].ok {
				return p[i].v
			}
			return nil
		}},
		{"n.r = n.q * 2", "r", func(i int) interface{} { return q[i].v * 2 }},
		{"n.p = null", "p", func(i int) interface{} { return nil }},
		{"n.z = null", "z", func(i int) interface{} { return nil }},
		{"n.p = $b", "p", func(i int) interface{} { return nil }},
		{"n.r = case when n.q > $a then n.q else null end", "r", func(i int) interface{} {
			if q[i].v > a {
				return q[i].v
			}
			return nil
		}},
		{"n.p = (n.p)", "p", func(i int) interface{} {
			if p[i].ok {
				return p[i].v
			}
			return nil
		}},
	}
	it := items[vf.Choice("item", len(items))]
	tail := []string{"", " return n as n"}[vf.Choice("return", 2)]
	v, err := oc_eval(bind(g.ctx(), a, nil), "match (n:A) set "+it.text+tail)
	must(err, "error")
	c := 0
	for i, n := range g.nodes {
		if n.HasLabel("A") {
			c++
			want.put(n, it.key, it.f(i))
		}
	}
	if tail != "" {
		vf.Assert(len(rows(v).Rows) == c, "rows")
	}
	assertSame(g.g, want, "property")
}

// items apply from left to right
func P19_Several() {
	g, _, q := marked(2)
	a, b := vf.Int("a"), vf.Int("b")
	want := takeSnap(g.g)
	ctx := bind(g.ctx(), a, b)
	type set struct {
		text string
		f    func(i int, n *lpg.Node)
	}
	s := []set{
		{"set n.p = $a, n.r = n.p + $b", func(i int, n *lpg.Node) { want.put(n, "p", a); want.put(n, "r", a+b) }},
		{"set n.p = $a, n.p = $b", func(i int, n *lpg.Node) { want.put(n, "p", b) }},
		{"set n.q = n.q + 1, n.q = n.q * 2", func(i int, n *lpg.Node) { want.put(n, "q", (q[i].v+1)*2) }},
		{"set n.p = null, n.q = $a, n:X", func(i int, n *lpg.Node) {
			want.put(n, "p", nil)
			want.put(n, "q", a)
			want.node(n).labels["X"] = true
		}},
		{"set n.p = $a set n.q = n.p", func(i int, n *lpg.Node) { want.put(n, "p", a); want.put(n, "q", a) }},
		{"set n = {p: $a}, n.q = $b, n += {r: n.p}", func(i int, n *lpg.Node) {
			want.put(n, "p", a)
			want.put(n, "q", b)
			want.put(n, "r", a)
		}},
		{"set n.q = null set n.q = $b", func(i int, n *lpg.Node) { want.put(n, "q", b) }},
	}[vf.Choice("set", 7)]
	_, err := oc_eval(ctx, "match (n:A) "+s.text)
	must(err, "error")
	for i, n := range g.nodes {
		if n.HasLabel("A") {
			s.f(i, n)
		}
	}
	assertSame(g.g, want, "several")
}

// SET n = map replaces, SET n += map merges
func P19_Map() {
	g, _, q := marked(vf.Pick(1, 2))
	g.node([]string{"A"}, map[string]interface{}{"p": 1})
	q = append(q, opt{})
	g.nodes[len(g.nodes)-1].SetProperty("q", 2)
	q[len(q)-1].v = 2
	want := takeSnap(g.g)
	m := map[string]oc.Value{}
	ctx := g.ctx()
	text := ""
	plus := vf.Choice("merge", 2) == 1
	var keys []string
	val := map[string]interface{}{}
	for _, k := range []string{"p", "q", "r"} {
		switch vf.Choice("m"+k, 4) {
		case 0:
			continue
		case 1:
			val[k] = vf.Int("v" + k)
		case 2:
			val[k] = nil
		case 3:
			val[k] = vf.Str("v"+k, 0, 1, "")
		}
		keys = append(keys, k)
		m[k] = rv(val[k])
		ctx.SetParameter("$"+k, m[k])
		if text != "" {
			text += ", "
		}
		text += k + ": $" + k
	}
	own := false
	if vf.Choice("form", 2) == 0 {
		text = "{" + text + "}"
	} else if vf.Choice("own", 2) == 1 {
		// a map that reads the node it is assigned to
		own = true
		text = "{s: n.q}"
		keys, val = nil, nil
	} else {
		text = "$m"
		ctx.SetParameter("$m", rv(m))
	}
	op := " = "
	if plus {
		op = " += "
	}
	_, err := oc_eval(ctx, "match (n:A) set n"+op+text)
	must(err, "error")
	for i, n := range g.nodes {
		if !n.HasLabel("A") {
			continue
		}
		if !plus {
			want.node(n).props = map[string]interface{}{}
		}
		for _, k := range keys {
			want.put(n, k, val[k])
		}
		if own {
			want.put(n, "s", q[i].v)
		}
	}
	assertSame(g.g, want, "map")
	// the map itself is not affected
	vf.Assert(own || len(m) == len(keys), "map-changed")
	for _, k := range keys {
		vf.Assert(identical(m[k].Get(), val[k]), "map-changed")
	}
}

// SET n = m and SET n += m with nodes
func P19_Node() {
	g, _, _ := marked(2)
	want := takeSnap(g.g)
	op := []string{"=", "+="}[vf.Choice("op", 2)]
	self := vf.Choice("self", 2) == 1
	src := "m"
	if self {
		src = "n"
	}
	_, err := oc_eval(g.ctx(), "match (n:A) match (m:B) set n "+op+" "+src)
	must(err, "error")
	var from *lpg.Node
	for _, m := range g.nodes {
		if m.HasLabel("B") {
			from = m
		}
	}
	for _, n := range g.nodes {
		if !n.HasLabel("A") || from == nil || self {
			continue
		}
		if op == "=" {
			want.node(n).props = map[string]interface{}{}
		}
		for k, v := range want.node(from).props {
			want.put(n, k, v)
		}
	}
	assertSame(g.g, want, "node")
}

// SET n:L adds labels
func P19_Labels() {
	n := vf.Choice("nodes", 3)
	g := graphOf(n)
	g.symLabels([]string{"A"}, []string{"B"}, []string{"A", "X"}, []string{"A", "L"})
	g.symProps("p", false)
	if n > 1 {
		g.edge(0, 1, "R")
	}
	want := takeSnap(g.g)
	s := [][]string{{"X"}, {"L", "X"}, {"A"}, {"A", "B", "X"}, {"X", "X"}}[vf.Choice("labels", 5)]
	q := "match (n:A) set n"
	for _, l := range s {
		q += ":" + l
	}
	if vf.Choice("twice", 2) == 1 {
		q += ", n:L"
		s = append(s, "L")
	}
	_, err := oc_eval(g.ctx(), q)
	must(err, "error")
	for _, n := range g.nodes {
		w := want.node(n)
		if w.labels["A"] {
			for _, l := range s {
				w.labels[l] = true
			}
		}
	}
	assertSame(g.g, want, "labels")
}

// the values of each row are used for that row
func P19_Rows() {
	n := 2 + vf.Choice("nodes", 2)
	g := graphOf(n)
	g.nodes[0].SetLabels(labelSet("B"))
	g.symEdges(2, []string{"R"})
	p := make([]int, n)
	for i, x := range g.nodes {
		p[i] = vf.Int("p" + digit(i))
		x.SetProperty("p", p[i])
	}
	// every node is the source of at most one relationship
	deg := map[*lpg.Node]int{}
	for _, e := range g.edges {
		deg[e.GetFrom()]++
		vf.Assume(deg[e.GetFrom()] <= 1)
	}
	want := takeSnap(g.g)
	q := vf.Choice("query", 3)
	_, err := oc_eval(g.ctx(), []string{
		"match (n)-[:R]->(m) set n.q = m.p",
		"match (n)-[:R]->(m) set n.q = m.p + n.p, n:X",
		"match (b:B) match (n)-[:R]->(m) set n.q = m.p - b.p",
	}[q])
	must(err, "error")
	for _, e := range g.edges {
		i, j := g.index(e.GetFrom()), g.index(e.GetTo())
		want.put(e.GetFrom(), "q", []int{p[j], p[j] + p[i], p[j] - p[0]}[q])
		if q == 1 {
			want.node(e.GetFrom()).labels["X"] = true
		}
	}
	assertSame(g.g, want, "rows")
}

// a node reached by several rows is updated for each of them
func P19_Repeated() {
	g := graphOf(2)
	g.symEdges(3, []string{"R"})
	a := vf.Int("a")
	for _, n := range g.nodes {
		n.SetProperty("c", 0)
	}
	want := takeSnap(g.g)
	_, err := oc_eval(bind(g.ctx(), a), "match (n)-[:R]->(m) set n.c = n.c + $a, m.in = true")
	must(err, "error")
	for _, n := range g.nodes {
		k := 0
		for _, e := range g.edges {
			if e.GetFrom() == n {
				k += a
			}
			if e.GetTo() == n {
				want.put(n, "in", true)
			}
		}
		want.put(n, "c", k)
	}
	assertSame(g.g, want, "repeated")
}

// values of every kind can be stored and read back
func P19_Kinds() {
	g := graphOf(1)
	k := []int{kNull, kInt, kFloat, kStr, kBool, kDur, kDate, kTime, kDateTime, kList}[vf.Choice("kind", 10)]
	a := value(k, "a")
	if k == kList {
		a = []interface{}{a, []oc.Value{}, []oc.Value{rv(vf.Int("a0"))}, []oc.Value{rv([]oc.Value{})}}[vf.Choice("list", 4)]
	}
	if k == kStr && vf.Choice("empty", 2) == 1 {
		a = ""
	}
	if vf.Choice("had", 2) == 1 {
		g.nodes[0].SetProperty("p", vf.Int("old"))
	}
	want := takeSnap(g.g)
	form := []string{"set n.p = $a", "set n += {p: $a}", "set n = {p: $a}"}[vf.Choice("form", 3)]
	v, err := oc_eval(bind(g.ctx(), a), "match (n) "+form+" return n.p as x")
	must(err, "error")
	vf.Assert(identical(single(v), a), "read-in-query")
	want.put(g.nodes[0], "p", a)
	assertSame(g.g, want, "kinds")
	v, err = oc_eval(g.ctx(), "match (n) return n.p as x")
	must(err, "error")
	vf.Assert(identical(single(v), a), "read-later")
}

// later queries select by the new values
func P19_Later() {
	g, _, q := marked(2)
	a := vf.Int("a")
	_, err := oc_eval(bind(g.ctx(), a), "match (n:A) set n.q = $a, n:X")
	must(err, "error")
	v, err := oc_eval(bind(g.ctx(), a), "match (n {q: $a}) return n as n")
	must(err, "error")
	found := map[*lpg.Node]bool{}
	rs := rows(v)
	for i := range rs.Rows {
		found[cell(rs, i, "n").(*lpg.Node)] = true
	}
	v, err = oc_eval(g.ctx(), "match (n:X) return n as n")
	must(err, "error")
	rs = rows(v)
	lab := map[*lpg.Node]bool{}
	for i := range rs.Rows {
		lab[cell(rs, i, "n").(*lpg.Node)] = true
	}
	for i, n := range g.nodes {
		vf.Assert(lab[n] == n.HasLabel("A"), "label-found")
		vf.Assert(vf.Iff(found[n], vf.Or(n.HasLabel("A"), q[i].v == a)), "value-found")
	}
}

// an assignment that fails or makes no sense is an error
func P19_Errors() {
	g, _, _ := marked(2)
	some := g.nodes[0].HasLabel("A") || g.nodes[1].HasLabel("A")
	bad := []string{"n.q = 1 / 0", "n.q = nosuch", "m.q = 1", "n = 5", "n += 'x'", "n = [1]", "n.q = n.q - 'x'", "n.q = $nosuch", "m:X"}
	b := vf.Choice("bad", len(bad))
	want := takeSnap(g.g)
	_, err := oc_eval(g.ctx(), "match (n:A) set "+bad[b])
	vf.Assert((err != nil) == some, "error")
	assertSame(g.g, want, "unchanged")
}

var _ = vf.Reg("P19_OldKinds", P19_OldKinds)
var _ = vf.Reg("P19_Texts", P19_Texts)

// what a property had before does not matter, however alike the two values are
func P19_OldKinds() {
	vals := []interface{}{1, "1", 1.0, true, "true", "[1]", []oc.Value{rv(1)}, []oc.Value{rv("1")}, "", []oc.Value{}, "1.0", false, vf.Int("i")}
	g := graphOf(1)
	old, a := vals[vf.Choice("old", len(vals))], vals[vf.Choice("new", len(vals))]
	var e interface{} = old
	if l, ok := old.([]oc.Value); ok {
		e = rv(l)
	}
	_, err := oc_eval(bind(g.ctx(), e), "match (n) set n.p = $a")
	must(err, "before")
	want := takeSnap(g.g)
	form := []string{"set n.p = $a", "set n += {p: $a}", "set n = {p: $a}", "set n += $m", "set n = $m"}[vf.Choice("form", 5)]
	ctx := bind(g.ctx(), a).SetParameter("$m", rv(map[string]oc.Value{"p": rv(a)}))
	v, err := oc_eval(ctx, "match (n) "+form+" return n.p as x")
	must(err, "error")
	vf.Assert(identical(single(v), a), "read-in-query")
	want.put(g.nodes[0], "p", a)
	assertSame(g.g, want, "old-kinds")
}

// operators that are only part of the text of the assigned value mean nothing
func P19_Texts() {
	g := graphOf(1)
	n := g.nodes[0]
	o := vf.Int("o")
	n.SetProperty("o", o)
	n.SetProperty("s", "t")
	want := takeSnap(g.g)
	text := []string{"=", "+=", "x+=y", "x=y", "n.o", ":A", "n:A", "+", ",", "}", "{q: 1}", "set n = {}"}[vf.Choice("text", 12)]
	q, s := "'"+text+"'", interface{}(text)
	switch vf.Choice("as", 4) {
	case 1:
		q, s = "['"+text+"']", []oc.Value{rv(text)}
	case 2:
		q, s = "'a' + "+q, "a"+text
	case 3:
		q, s = "case '"+text+"' when '"+text+"' then $a end", vf.Int("a")
	}
	if vf.Choice("name", 2) == 1 && text != "set n = {}" {
		k := oc.EscapePropertyKeyLiteral(text)
		q = "{q: " + q + ", " + k + ": 1}"
		switch vf.Choice("op", 2) {
		case 0:
			want.node(n).props = map[string]interface{}{"q": s, text: 1}
			q = "set n = " + q
		case 1:
			want.put(n, "q", s)
			want.put(n, text, 1)
			q = "set n += " + q
		}
	} else {
		switch vf.Choice("op", 4) {
		case 0:
			want.node(n).props = map[string]interface{}{"q": s}
			q = "set n = {q: " + q + "}"
		case 1:
			want.put(n, "q", s)
			q = "set n += {q: " + q + "}"
		case 2:
			want.put(n, "q", s)
			q = "set n.q = " + q
		case 3:
			want.put(n, "q", s)
			want.put(n, "z", 1)
			q = "set n.q = " + q + ", n.z = 1"
		}
	}
	_, err := oc_eval(bind(g.ctx(), s), "match (n) "+q)
	must(err, "error")
	assertSame(g.g, want, "texts")
}
