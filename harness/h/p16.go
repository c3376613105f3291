package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P16_Where", P16_Where)
var _ = vf.Reg("P16_WhereRelationship", P16_WhereRelationship)
var _ = vf.Reg("P16_WhereErrors", P16_WhereErrors)
var _ = vf.Reg("P16_Columns", P16_Columns)
var _ = vf.Reg("P16_Unnamed", P16_Unnamed)
var _ = vf.Reg("P16_SkipLimit", P16_SkipLimit)
var _ = vf.Reg("P16_SkipLimitUpdating", P16_SkipLimitUpdating)
var _ = vf.Reg("P16_SkipLimitLarge", P16_SkipLimitLarge)
var _ = vf.Reg("P16_Clauses", P16_Clauses)
var _ = vf.Reg("P16_Star", P16_Star)

// a value that may be absent
type opt struct {
	ok bool
	v  int
}

func (g *G) optProps(key string) []opt {
	out := make([]opt, len(g.nodes))
	for i, n := range g.nodes {
		if vf.Choice("has"+key+digit(i), 2) == 0 {
			continue
		}
		out[i] = opt{true, vf.Int(key + digit(i))}
		n.SetProperty(key, out[i].v)
	}
	return out
}

func cmp3(a opt, op string, b opt) tri {
	if !a.ok || !b.ok {
		return tri{null: true}
	}
	return tri{b: refCmp(op, a.v, b.v)}
}

// the rows kept are exactly those for which the predicate is true
func P16_Where() {
	g := graphOf(vf.Pick(2, 3))
	g.symLabels([]string{"A"})
	p := g.optProps("p")
	q := g.optProps("q")
	a := opt{true, vf.Int("a")}
	var b opt
	var bv interface{}
	if vf.Choice("bnull", 2) == 0 {
		b = opt{true, vf.Int("b")}
		bv = b.v
	}
	type where struct {
		text string
		f    func(i int) tri
	}
	ws := []where{
		{"n.p = $a", func(i int) tri { return cmp3(p[i], "=", a) }},
		{"n.p < n.q", func(i int) tri { return cmp3(p[i], "<", q[i]) }},
		{"not n.p = $b", func(i int) tri { return kNot(cmp3(p[i], "=", b)) }},
		{"n.p >= $a and n.q <> $b", func(i int) tri { return kAnd(cmp3(p[i], ">=", a), cmp3(q[i], "<>", b)) }},
		{"n.p > $a or n.q > $b", func(i int) tri { return kOr(cmp3(p[i], ">", a), cmp3(q[i], ">", b)) }},
		{"n.p = $b xor n.q = $a", func(i int) tri { return kXor(cmp3(p[i], "=", b), cmp3(q[i], "=", a)) }},
		{"n.p is null", func(i int) tri { return tri{b: !p[i].ok} }},
		{"n.p is not null and n.p <= $a", func(i int) tri { return kAnd(tri{b: p[i].ok}, cmp3(p[i], "<=", a)) }},
		{"null", func(i int) tri { return tri{null: true} }},
		{"$a = $b", func(i int) tri { return cmp3(a, "=", b) }},
		{"case when n.p = $a then true when n.q = $a then false else null end", func(i int) tri {
			x, y := cmp3(p[i], "=", a), cmp3(q[i], "=", a)
			if vf.And(!x.null, x.b) {
				return tri{b: true}
			}
			if vf.And(!y.null, y.b) {
				return tri{b: false}
			}
			return tri{null: true}
		}},
		{"not (n.p < $a and n.q < $a)", func(i int) tri { return kNot(kAnd(cmp3(p[i], "<", a), cmp3(q[i], "<", a))) }},
	}
	w := ws[vf.Choice("where", len(ws))]
	v, err := oc_eval(bind(g.ctx(), a.v, bv), "match (n:A) where "+w.text+" return n as n")
	must(err, "error")
	rs := rows(v)
	kept := make([]bool, len(g.nodes))
	for i := range rs.Rows {
		j := g.index(cell(rs, i, "n").(*lpg.Node))
		vf.Assert(!kept[j], "row-repeated")
		kept[j] = true
	}
	for i := range g.nodes {
		t := w.f(i)
		vf.Assert(vf.Iff(kept[i], vf.And(!t.null, t.b)), "kept-iff-true")
	}
}

// predicates over the variables of a relationship pattern
func P16_WhereRelationship() {
	g := graphOf(2)
	g.edge(0, 1, "R")
	g.edge(1, 0, "R")
	g.edge(0, 0, "S")
	w := make([]int, 3)
	for i, e := range g.edges {
		w[i] = vf.Int("w" + digit(i))
		e.SetProperty("w", w[i])
	}
	p := []int{vf.Int("p0"), vf.Int("p1")}
	for i, n := range g.nodes {
		n.SetProperty("p", p[i])
	}
	a := vf.Int("a")
	type where struct {
		text string
		f    func(n, m, r int) bool
	}
	ws := []where{
		{"r.w > $a", func(n, m, r int) bool { return w[r] > a }},
		{"n.p < m.p", func(n, m, r int) bool { return p[n] < p[m] }},
		{"n.p + r.w = m.p", func(n, m, r int) bool { return p[n]+w[r] == p[m] }},
		{"n.p = m.p or r.w = $a", func(n, m, r int) bool { return vf.Or(p[n] == p[m], w[r] == a) }},
		{"not (r.w <= n.p and r.w <= m.p)", func(n, m, r int) bool { return !vf.And(w[r] <= p[n], w[r] <= p[m]) }},
	}
	k := ws[vf.Choice("where", len(ws))]
	v, err := oc_eval(bind(g.ctx(), a), "match (n)-[r]->(m) where "+k.text+" return n as n, r as r, m as m")
	must(err, "error")
	rs := rows(v)
	kept := make([]bool, 3)
	for i := range rs.Rows {
		e := elem(cell(rs, i, "r")).(*lpg.Edge)
		for j, x := range g.edges {
			if x == e {
				vf.Assert(!kept[j], "row-repeated")
				kept[j] = true
				vf.Assert(cell(rs, i, "n") == interface{}(e.GetFrom()) && cell(rs, i, "m") == interface{}(e.GetTo()), "ends")
			}
		}
	}
	for j, e := range g.edges {
		vf.Assert(vf.Iff(kept[j], k.f(g.index(e.GetFrom()), g.index(e.GetTo()), j)), "kept-iff-true")
	}
}

// a predicate that fails is an error, and one that has some other value never
// keeps a row
func P16_WhereErrors() {
	g := graphOf(2)
	p := vf.Int("p")
	g.nodes[1].SetProperty("p", p)
	other := []string{"n.p", "1", "'x'", "[true]", "n", "$a"}
	fail := []string{"1 / n.p = 1", "nosuch", "$nosuch", "n.p - 'x' = 1", "not n.p", "true and $a"}
	c := bind(g.ctx(), vf.Int("a"))
	if i := vf.Choice("other?", 2); i == 1 {
		w := other[vf.Choice("other", len(other))]
		v, err := oc_eval(c, "match (n) where "+w+" return n as n")
		vf.Assert(err != nil || len(rows(v).Rows) == 0, "kept")
		return
	}
	w := fail[vf.Choice("fail", len(fail))]
	_, err := oc_eval(c, "match (n) where "+w+" return n as n")
	if w == fail[0] {
		vf.Assert(vf.Iff(err != nil, p == 0), "division")
		return
	}
	vf.Assert(err != nil, "accepted")
}

// names, order and values of the columns
func P16_Columns() {
	g := graphOf(2)
	p := []int{vf.Int("p0"), vf.Int("p1")}
	for i, n := range g.nodes {
		n.SetProperty("p", p[i])
	}
	k := vf.Int("k")
	type item struct {
		text, alias string
		f           func(i int) int
	}
	items := []item{
		{"n.p", "a", func(i int) int { return p[i] }},
		{"n.p + $a", "", func(i int) int { return p[i] + k }},
		{"$a", "k", func(i int) int { return k }},
		{"n.p * 2", "b", func(i int) int { return p[i] * 2 }},
		{"n.p", "", func(i int) int { return p[i] }},
	}
	n := 1 + vf.Choice("n", vf.Pick(2, 3))
	q := "match (n) return n as n"
	var cols []string
	var sel []item
	for i := 0; i < n; i++ {
		it := items[vf.Choice("item"+digit(i), len(items))]
		for _, s := range sel {
			vf.Assume(s.alias == "" || s.alias != it.alias)
		}
		sel = append(sel, it)
		q += ", " + it.text
		c := digit(i + 2)
		if it.alias != "" {
			q += " as " + it.alias
			c = it.alias
		}
		cols = append(cols, c)
	}
	v, err := oc_eval(bind(g.ctx(), k), q)
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Cols) == n+1, "column-count")
	vf.Assert(rs.Cols[0] == "n", "column-name")
	for i, c := range cols {
		vf.Assert(rs.Cols[i+1] == c, "column-name")
	}
	vf.Assert(len(rs.Rows) == 2, "rows")
	seen := map[int]bool{}
	for r := range rs.Rows {
		j := g.index(cell(rs, r, "n").(*lpg.Node))
		seen[j] = true
		vf.Assert(len(rs.Rows[r]) == n+1, "row-width")
		for i, c := range cols {
			vf.Assert(cell(rs, r, c) == interface{}(sel[i].f(j)), "value")
		}
	}
	vf.Assert(len(seen) == 2, "all-rows")
}

// items without a name are named after their places, also next to * and when
// an alias is used twice
func P16_Unnamed() {
	g := graphOf(2)
	p := []int{vf.Int("p0"), vf.Int("p1")}
	for i, n := range g.nodes {
		n.SetProperty("p", p[i])
	}
	g.edge(0, 1, "R")
	k := vf.Int("k")
	head := []string{"match (n)", "match (n)-[r]->(m)", "match (n)-[r]-(m)"}[vf.Choice("head", 3)]
	star := vf.Choice("star", 2) == 1
	q, place := head+" return ", 0
	if star {
		q += "*"
	}
	values := map[string]func(i int) int{}
	n := 1 + vf.Choice("n", 3)
	for i := 0; i < n; i++ {
		if star || i > 0 {
			q += ", "
		}
		place++
		name := digit(place)
		f := func(j int) int { return p[j] }
		switch vf.Choice("item"+digit(i), 4) {
		case 0:
			q += "n.p"
		case 1:
			q += "n.p + $a"
			f = func(j int) int { return p[j] + k }
		case 2:
			q += "$a as x"
			f = func(j int) int { return k }
			name = "x"
		case 3:
			q += "n.p - 1 as x"
			f = func(j int) int { return p[j] - 1 }
			name = "x"
		}
		if _, twice := values[name]; twice && name == "x" {
			f = nil // any of the two
		}
		values[name] = f
	}
	q += ", n as node"
	v, err := oc_eval(bind(g.ctx(), k), q)
	must(err, "error")
	rs := rows(v)
	for i, row := range rs.Rows {
		j := g.index(cell(rs, i, "node").(*lpg.Node))
		for name, f := range values {
			x, ok := row[name]
			vf.Assert(ok, "column-missing")
			if f != nil {
				vf.Assert(x.Get() == interface{}(f(j)), "column-value")
			}
		}
		if star {
			y, ok := row["n"]
			vf.Assert(ok && y.Get() == interface{}(g.nodes[j]), "star")
		}
	}
	vf.Assert(len(rs.Rows) > 0, "rows")
}

func column(rs oc.ResultSet, c string) []interface{} {
	var out []interface{}
	for i := range rs.Rows {
		out = append(out, cell(rs, i, c))
	}
	return out
}

// window asserts that got is all[s : s+l]
func window(got, all []interface{}, s, l int, hasS, hasL bool, id string) {
	if !hasS {
		s = 0
	}
	n := len(all)
	lo := vf.IteInt(s > n, n, s)
	hi := n
	if hasL {
		hi = vf.IteInt(l > n-lo, n, lo+l)
	}
	vf.Assert(len(got) == hi-lo, id+"-count")
	for i, x := range got {
		ok := false
		for j, y := range all {
			ok = vf.Or(ok, vf.And(j == lo+i, x == y))
		}
		vf.Assert(ok, id+"-row")
	}
}

func skipLimit(base string, ctx func() *oc.EvalContext, hi int, id string) {
	all, err := oc_eval(ctx(), base)
	must(err, id+"-error")
	hasS, hasL := vf.Choice("skip?", 2) == 1, vf.Choice("limit?", 2) == 1
	q := base
	var s, l int
	c := ctx()
	lit := vf.Choice("form", 3)
	if hasS {
		s = vf.IntRange("s", 0, hi)
		switch lit {
		case 0:
			q += " skip $s"
			c.SetParameter("$s", rv(s))
		case 1:
			s = 1
			q += " skip 1"
		case 2:
			q += " skip $s + 1 - 1"
			c.SetParameter("$s", rv(s))
		}
	}
	if hasL {
		l = vf.IntRange("l", 0, hi)
		switch lit {
		case 0:
			q += " limit $l"
			c.SetParameter("$l", rv(l))
		case 1:
			l = 2
			q += " limit 2"
		case 2:
			q += " limit $l * 1"
			c.SetParameter("$l", rv(l))
		}
	}
	v, err := oc_eval(c, q)
	must(err, id+"-error")
	a, b := rows(v), rows(all)
	vf.Assert(len(a.Cols) == len(b.Cols), id+"-columns")
	window(column(a, "x"), column(b, "x"), s, l, hasS, hasL, id)
}

func skipGraph(n int) *G {
	g := graphOf(n)
	for i, x := range g.nodes {
		x.SetLabels(labelSet("A"))
		x.SetProperty("p", vf.Int("p"+digit(i)))
	}
	return g
}

func P16_SkipLimit() {
	g := skipGraph(vf.Choice("n", vf.Pick(4, 5)))
	base := []string{"match (n:A) return n.p as x", "match (n:A) where n.p = n.p return n.p as x", "match (n) match (n) return n.p as x"}[vf.Choice("query", 3)]
	skipLimit(base, g.ctx, 1<<63-1, "reading")
}

func P16_SkipLimitUpdating() {
	n := vf.Choice("n", 4)
	g := skipGraph(n)
	base := []string{
		"match (n:A) set n.q = 1 return n.p as x",
		"match (n:A) remove n.q return n.p as x",
		"match (n:A) merge (n) return n.p as x",
	}[vf.Choice("query", 3)]
	skipLimit(base, g.ctx, 1<<63-1, "updating")
	for _, x := range g.nodes {
		_, ok := x.GetProperty("q")
		vf.Assert(ok == (base == "match (n:A) set n.q = 1 return n.p as x"), "updated-outside-window")
	}
}

// without MATCH there is one row; CREATE and MERGE run whatever is returned
func P16_SkipLimitLarge() {
	p := vf.Int("p")
	base := []string{"return $p as x", "create (n:A {p: $p}) return n.p as x", "create (n:A {p: $p}) set n.q = 1 return n.p as x", "merge (n:Z {p: $p}) return n.p as x"}[vf.Choice("query", 4)]
	g := graphOf(0)
	ctx := func() *oc.EvalContext {
		c := g.ctx()
		c.SetParameter("$p", rv(p))
		return c
	}
	skipLimit(base, ctx, 1<<63-1, "single")
}

// several reading clauses with their own WHERE
func P16_Clauses() {
	g := graphOf(2)
	g.symLabels([]string{"A"})
	p := g.optProps("p")
	a, b := opt{true, vf.Int("a")}, opt{true, vf.Int("b")}
	v, err := oc_eval(bind(g.ctx(), a.v, b.v), "match (n:A) where n.p > $a match (m:A) where m.p < $b and m.p <> n.p return n as n, m as m")
	must(err, "error")
	rs := rows(v)
	kept := map[[2]int]bool{}
	for i := range rs.Rows {
		k := [2]int{g.index(cell(rs, i, "n").(*lpg.Node)), g.index(cell(rs, i, "m").(*lpg.Node))}
		vf.Assert(!kept[k], "row-repeated")
		kept[k] = true
	}
	for i := range g.nodes {
		for j := range g.nodes {
			t := kAnd(cmp3(p[i], ">", a), kAnd(cmp3(p[j], "<", b), cmp3(p[j], "<>", p[i])))
			vf.Assert(vf.Iff(kept[[2]int{i, j}], vf.And(!t.null, t.b)), "kept-iff-true")
		}
	}
}

// RETURN * has every variable, with its value, and nothing else
func P16_Star() {
	g := graphOf(2)
	g.symLabels([]string{"A"}, []string{"B"})
	g.symEdges(vf.Pick(1, 2), []string{"R", "S"})
	for i, n := range g.nodes {
		n.SetProperty("p", vf.Int("p"+digit(i)))
	}
	k := vf.Int("k")
	type query struct {
		text string
		vars []string
		read bool
	}
	qs := []query{
		{"match (n)", []string{"n"}, true},
		{"match (n:A) where n.p > $a", []string{"n"}, true},
		{"match (n)-[r]->(m)", []string{"n", "r", "m"}, true},
		{"match (n)-[:R]->(m)", []string{"n", "m"}, true},
		{"match (n)-[r]-()", []string{"n", "r"}, true},
		{"match (n)-[r]->(n)", []string{"n", "r"}, true},
		{"match (n)-[r:R*1..2]->(m)", []string{"n", "r", "m"}, true},
		{"match (:A)", nil, true},
		{"match (n), (m:B)", []string{"n", "m"}, true},
		{"match (n) match (n)-[r]->(m)", []string{"n", "r", "m"}, true},
		{"match (n:A), (n)-->(m) match (o:B)", []string{"n", "m", "o"}, true},
		{"create (n:C {p: $a})", []string{"n"}, false},
		{"create (n:C)-[r:R]->(m), (:C)", []string{"n", "r", "m"}, false},
		{"match (n:A) create (n)-[r:R]->(m:C)", []string{"n", "r", "m"}, false},
		{"match (n:A) set n.p = $a", []string{"n"}, false},
		{"merge (n:A {p: $a})", []string{"n"}, false},
		{"match (n:A) merge (n)-[r:R]->(m:C)", []string{"n", "r", "m"}, false},
	}
	q := qs[vf.Choice("query", len(qs))]
	text, page := q.text+" return *", vf.Choice("page", 2) == 1
	for _, v := range q.vars {
		text += ", " + v + " as " + v + "0"
	}
	if page {
		text += " skip 1 limit 1"
	}
	v, err := oc_eval(bind(g.ctx(), k), text)
	must(err, "error")
	for i, row := range rows(v).Rows {
		vf.Assert(len(row) == 2*len(q.vars), "width")
		for _, x := range q.vars {
			_, ok := row[x]
			vf.Assert(ok, "variable-missing")
			vf.Assert(identical(cell(rows(v), i, x), cell(rows(v), i, x+"0")), "value")
		}
	}
	if q.read {
		w, err := oc_eval(bind(g.ctx(), k), q.text+" return *")
		must(err, "star-error")
		if !page {
			vf.Assert(len(rows(w).Rows) == len(rows(v).Rows), "star-rows")
		}
		for _, row := range rows(w).Rows {
			vf.Assert(len(row) == len(q.vars), "star-width")
			for _, x := range q.vars {
				_, ok := row[x]
				vf.Assert(ok, "star-missing")
			}
		}
	}
}

var _ = vf.Reg("P16_Shadow", P16_Shadow)

// the names given to items do not change what the other items mean
func P16_Shadow() {
	g := graphOf(2)
	p := []int{vf.Int("p0"), vf.Int("p1")}
	w := vf.Int("w")
	for i, n := range g.nodes {
		n.SetProperty("p", p[i])
	}
	g.edge(0, 1, "R").SetProperty("w", w)
	k := vf.Int("k")
	type item struct {
		text string
		v    interface{}
	}
	items := []item{{"n.p", p[0]}, {"m.p", p[1]}, {"r.w", w}, {"n", g.nodes[0]}, {"m", g.nodes[1]}, {"n.p + m.p", p[0] + p[1]}, {"k", k}, {"case when true then n.p end", p[0]}}
	names := []string{"n", "m", "r", "k", "p"}
	var want []item
	var cols []string
	q := "match (n)-[r]->(m) return "
	c := 2 + vf.Choice("n", vf.Pick(1, 2))
	for i := 0; i < c; i++ {
		it := items[vf.Choice("item"+digit(i), len(items))]
		col := names[vf.Choice("name"+digit(i), len(names))]
		for _, x := range cols {
			vf.Assume(x != col)
		}
		if i > 0 {
			q += ", "
		}
		q += it.text + " as " + col
		want, cols = append(want, it), append(cols, col)
	}
	ctx := g.ctx()
	ctx.SetVar("k", rv(k))
	v, err := oc_eval(ctx, q)
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Rows) == 1, "rows")
	for i, it := range want {
		vf.Assert(identical(cell(rs, 0, cols[i]), it.v), "value")
	}
	_, err = oc_eval(g.ctx(), "match (n) return n.p as x, x as y")
	vf.Assert(err != nil, "name-of-another-item")
}
