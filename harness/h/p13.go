package h

import (
	"errors"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P13_Nulls", P13_Nulls)
var _ = vf.Reg("P13_History", P13_History)
var _ = vf.Reg("P13_Query", P13_Query)
var _ = vf.Reg("P13_Undefined", P13_Undefined)
var _ = vf.Reg("P13_AfterQuery", P13_AfterQuery)
var _ = vf.Reg("P13_AfterMerge", P13_AfterMerge)
var _ = vf.Reg("P13_Rows", P13_Rows)
var _ = vf.Reg("P13_Branches", P13_Branches)

// scopes is a tree of contexts with a reference copy of its contents:
// 0 root, 1 child of 0, 2 child of 1, 3 child of 0.
type scopes struct {
	c      [4]*oc.EvalContext
	vars   [4]map[string]int
	params [4]map[string]int
}

var scopeParent = [4]int{-1, 0, 1, 0}

func newScopes(g *lpg.Graph) *scopes {
	s := &scopes{}
	s.c[0] = oc.NewEvalContext(g)
	for i := 1; i < 4; i++ {
		s.c[i] = s.c[scopeParent[i]].SubContext()
	}
	for i := range s.vars {
		s.vars[i], s.params[i] = map[string]int{}, map[string]int{}
	}
	return s
}

func nearest(m *[4]map[string]int, i int, name string) (int, bool) {
	for ; i >= 0; i = scopeParent[i] {
		if v, ok := m[i][name]; ok {
			return v, true
		}
	}
	return 0, false
}

func assertScoped(v oc.Value, err error, m *[4]map[string]int, i int, name, id string) {
	want, ok := nearest(m, i, name)
	if !ok {
		vf.Assert(err != nil, id+"-undefined")
		return
	}
	must(err, id+"-error")
	got, isInt := v.Get().(int)
	vf.Assert(isInt, id+"-kind")
	vf.Assert(got == want, id+"-value")
}

func (s *scopes) check() {
	for i := range s.c {
		for _, n := range []string{"x", "y"} {
			v, err := s.c[i].GetVar(n)
			assertScoped(v, err, &s.vars, i, n, "var")
			v, err = s.c[i].GetParameter("$" + n)
			assertScoped(v, err, &s.params, i, n, "param")
		}
	}
}

// any history of settings and removals in a tree of contexts
func P13_History() {
	s := newScopes(lpg.NewGraph())
	n := vf.Pick(2, 3)
	for k := 0; k < n; k++ {
		i := vf.Choice("ctx"+digit(k), 4)
		name := "x"
		if k > 0 && vf.Choice("name"+digit(k), 2) == 1 {
			name = "y"
		}
		v := vf.Int("v" + digit(k))
		switch vf.Choice("op"+digit(k), 4) {
		case 0:
			s.c[i].SetVar(name, rv(v))
			s.vars[i][name] = v
		case 1:
			s.c[i].RemoveVar(name)
			delete(s.vars[i], name)
		case 2:
			s.c[i].SetParameter("$"+name, rv(v))
			s.params[i][name] = v
		case 3:
			s.c[i].SetVars(map[string]oc.Value{name: rv(v), "1": rv(v)})
			s.vars[i][name] = v
			_, err := s.c[i].GetVar("1")
			vf.Assert(err != nil, "unnamed-set")
		}
		// reading changes nothing
		s.check()
	}
}

// references inside expressions of every kind resolve to the nearest scope
func P13_Query() {
	s := newScopes(lpg.NewGraph())
	for i := range s.c {
		if vf.Choice("var"+digit(i), 2) == 1 {
			v := vf.Int("x" + digit(i))
			s.c[i].SetVar("x", rv(v))
			s.vars[i]["x"] = v
		}
		if i != 1 {
			v := vf.Int("p" + digit(i))
			s.c[i].SetParameter("$x", rv(v))
			s.params[i]["x"] = v
		}
	}
	i := vf.Choice("at", 4)
	q := []string{"x", "[x][0]", "case when true then x else 0 end", "case x when x then x end", "x + 0", "(x)", "toInteger(x)"}[vf.Choice("form", 7)]
	v, err := oc.ParseAndEvaluate("return "+q+" as r", s.c[i])
	want, ok := nearest(&s.vars, i, "x")
	if !ok {
		var u oc.ErrUnknownVariable
		vf.Assert(err != nil, "undefined")
		vf.Assert(errors.As(err, &u) && u.Name == "x", "names-variable")
	} else {
		must(err, "error")
		vf.Assert(single(v) == want, "value")
	}
	v, err = oc.ParseAndEvaluate("return $x as r", s.c[i])
	want, _ = nearest(&s.params, i, "x")
	must(err, "param-error")
	vf.Assert(single(v) == want, "param-value")
	s.check()
}

func P13_Undefined() {
	forms := []string{"return E", "return 1 + E", "return [1, E]", "return {k: E}", "return case E when 1 then 2 end", "return case 1 when E then 2 end", "return toInteger(E)", "return E is null", "return E.p", "return 1 in [E]", "return not E", "return E[0]", "match (n {p: E}) return n", "match (n) where n.p = E return n", "match (n) return n.p + E", "create (n {p: E})", "match (n) set n.p = E", "return 1 as a union return E as a", "match (n) return n skip E", "match (n) return n limit E"}
	f := forms[vf.Choice("form", len(forms))]
	g := graphOf(1)
	g.nodes[0].SetProperty("p", vf.Int("p"))
	ctx := g.ctx().SubContext()
	sib := ctx.SubContext()
	sib.SetVar("zz", rv(1))
	sib.SetParameter("$zz", rv(1))
	if vf.Choice("what", 2) == 0 {
		_, err := oc_eval(ctx, subst(f, "zz"))
		var u oc.ErrUnknownVariable
		vf.Assert(err != nil, "var-accepted")
		vf.Assert(errors.As(err, &u) && u.Name == "zz", "names-variable")
		return
	}
	_, err := oc_eval(ctx, subst(f, "$zz"))
	var u oc.ErrUnknownParameter
	vf.Assert(err != nil, "param-accepted")
	vf.Assert(errors.As(err, &u) && (u.Key == "$zz" || u.Key == "zz"), "names-parameter")
}

// named variables of a query are visible in the context it ran in, and only there
func P13_AfterQuery() {
	p, a := vf.Int("p"), vf.Int("a")
	g := graphOf(1)
	g.nodes[0].SetLabels(labelSet("A"))
	g.nodes[0].SetProperty("p", p)
	g.node([]string{"B"}, nil)
	g.edge(0, 1, "R")
	root := g.ctx()
	root.SetVar("k", rv(a))
	root.SetVar("n", rv(a))
	root.SetParameter("$a", rv(a))
	ctx := root.SubContext()
	sib := root.SubContext()
	// hide the outer n so that it does not restrict the pattern
	names := []string{"m", "r"}
	q := []string{
		"match (m:A)-[r]->(o) return m",
		"match (m:A) where m.p = $a return m.p",
		"match (m:A) set m.q = $a return m.q",
		"match (m:A)-[r:R]->() return r.p union match (m:A)-[r:R]->() return r.p",
		"create (m:A {p: 1})-[r:S]->(:B)",
		"create (m:A {p: 1})-[r:S]->(:B) return m.p",
		"merge (m:A {p: $a}) return m",
	}[vf.Choice("query", 7)]
	v, err := oc_eval(ctx, q)
	must(err, "error")
	_ = v
	for _, n := range names {
		got, err := ctx.GetVar(n)
		if n == "m" && q[0] == 'm' && q[1] == 'a' {
			if bound := p == a || q != "match (m:A) where m.p = $a return m.p"; bound {
				must(err, "not-visible")
				vf.Assert(got.Get() == interface{}(g.nodes[0]), "value")
			} else {
				vf.Assert(err != nil, "visible-without-row")
			}
		}
		if q[0] == 'c' {
			must(err, "created-not-visible")
			if n == "m" {
				x, ok := got.Get().(*lpg.Node)
				vf.Assert(ok && x != g.nodes[0] && x.HasLabel("A"), "created-value")
			}
		}
		if n == "m" && q == "merge (m:A {p: $a}) return m" {
			must(err, "merged-not-visible")
			x, ok := got.Get().(*lpg.Node)
			vf.Assert(ok, "merged-kind")
			vf.Assert(vf.Iff(x == g.nodes[0], p == a), "merged-value")
		}
		_, err = root.GetVar(n)
		vf.Assert(err != nil, "leaked-to-parent")
		_, err = sib.GetVar(n)
		vf.Assert(err != nil, "leaked-to-sibling")
	}
	_, err = ctx.GetVar("1")
	vf.Assert(err != nil, "unnamed-visible")
	got, err := ctx.GetVar("k")
	must(err, "outer-lost")
	vf.Assert(got.Get() == interface{}(a), "outer-value")
	got, err = root.GetVar("n")
	must(err, "outer-lost")
	vf.Assert(got.Get() == interface{}(a), "parent-value")
}

// what MERGE matched or created is visible whether or not it is returned
func P13_AfterMerge() {
	p, a := vf.Int("p"), vf.Int("a")
	g := graphOf(1)
	g.nodes[0].SetLabels(labelSet("A"))
	g.nodes[0].SetProperty("p", p)
	g.node([]string{"B"}, nil)
	g.edge(0, 1, "R")
	root := bind(g.ctx(), a)
	ctx := root.SubContext()
	q := []string{
		"merge (m:A {p: $a})",
		"merge (m:A {p: $a})-[r:R]->(o:B)",
		"merge (m:A {p: $a})-[r:R]->(o:B) on create set m.q = 1 on match set o.q = 2",
		"match (o:B) merge (m:A {p: $a})",
		"match (m:A)-[:R]->(o) merge (m)-[r:S]->(o)",
		"match (m:A)-[:R]->(o) merge (m)-[r:R]->(o)",
		"match (m:A) merge (m)-[r:S]->(o:C)",
		"merge (m:A {p: $a}) merge (o:C)",
		"merge (m:A {p: $a}) create (m)-[r:T]->(o:D)",
		"merge (m:A {p: $a}) set m.q = 1 merge (m)-[r:T]->(o:D)",
	}[vf.Choice("query", 10)]
	if vf.Choice("return", 2) == 1 {
		q += " return m as x"
	}
	had := g.g.NumNodes()
	_, err := oc_eval(ctx, q)
	must(err, "error")
	see := func(name string) *lpg.Node {
		v, err := ctx.GetVar(name)
		must(err, "not-visible-"+name)
		n, ok := v.Get().(*lpg.Node)
		vf.Assert(ok, "kind-"+name)
		return n
	}
	m := see("m")
	if q[:5] == "merge" {
		vf.Assert(vf.Iff(m == g.nodes[0], p == a), "merged")
	} else if q[:10] == "match (m:A" {
		vf.Assert(m == g.nodes[0], "matched")
	}
	x, _ := m.GetProperty("p")
	if q[:9] != "match (m:" {
		vf.Assert(identical(native(x), a), "merged-value")
	}
	if containsText(q, "(o") {
		o := see("o")
		vf.Assert(o != m, "other")
		if containsText(q, "(o:C") || containsText(q, "(o:D") {
			vf.Assert(o != g.nodes[0] && o != g.nodes[1], "created")
		}
		if containsText(q, "[r:") {
			v, err := ctx.GetVar("r")
			must(err, "not-visible-r")
			e, ok := elem(v.Get()).(*lpg.Edge)
			vf.Assert(ok && e.GetFrom() == m && e.GetTo() == o, "relationship")
		}
	}
	vf.Assert(g.g.NumNodes() >= had, "nodes")
	for _, n := range []string{"m", "o", "r"} {
		_, err = root.GetVar(n)
		vf.Assert(err != nil, "leaked-to-parent")
	}
}

func containsText(s, t string) bool {
	for i := 0; i+len(t) <= len(s); i++ {
		if s[i:i+len(t)] == t {
			return true
		}
	}
	return false
}

// each row is evaluated with its own values, next to outer variables
func P13_Rows() {
	g := graphOf(3)
	var p [3]int
	for i, n := range g.nodes {
		p[i] = vf.Int("p" + digit(i))
		n.SetLabels(labelSet("A"))
		n.SetProperty("p", p[i])
	}
	k := vf.Int("k")
	root := g.ctx()
	root.SetVar("k", rv(k))
	root.SetVar("o", rv(g.nodes[1]))
	ctx := root.SubContext()
	q := []string{
		"match (n:A) return n as n, n.p + k as x",
		"match (n:A) where n.p = n.p return n as n, n.p + k as x",
		"match (n:A), (o) return n as n, n.p + k as x",
		"match (o) match (n:A) return n as n, n.p + k as x",
		"match (n:A) set n.q = n.p + k return n as n, n.q as x",
	}[vf.Choice("query", 5)]
	v, err := oc_eval(ctx, q)
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Rows) == 3, "rows")
	seen := 0
	for i := range rs.Rows {
		n, ok := cell(rs, i, "n").(*lpg.Node)
		vf.Assert(ok, "node")
		j := g.index(n)
		seen |= 1 << uint(j)
		vf.Assert(cell(rs, i, "x") == interface{}(p[j]+k), "row-value")
	}
	vf.Assert(seen == 7, "all-rows")
	_, err = root.GetVar("n")
	vf.Assert(err != nil, "leaked")
	o, err := root.GetVar("o")
	must(err, "outer-lost")
	vf.Assert(o.Get() == interface{}(g.nodes[1]), "outer-value")
}

// the parts of a UNION do not see each other's variables, and neither does a
// later query see those of one that failed
func P13_Branches() {
	g := graphOf(3)
	g.symLabels([]string{"A"}, []string{"B"}, nil)
	g.symEdges(1, []string{"R"})
	c1 := []chain{hops(nd("n", "A")), hops(nd("n", "A"), rel("r", '>'), nd("m")), hops(nd("m", "A"))}[vf.Choice("first", 3)]
	c2 := []chain{hops(nd("n", "B")), hops(nd("n"), rel("r", '<'), nd("m", "B")), hops(nd("m", "B"))}[vf.Choice("second", 3)]
	var want []match
	all := func(c chain, v string) {
		g.matchAll([]chain{c}, match{}, func(m match) { want = append(want, match{"x": m[v]}) })
	}
	v1, v2 := c1.nodes[0].v, c2.nodes[0].v
	q1, q2 := "match "+c1.text()+" return "+v1+" as x", "match "+c2.text()+" return "+v2+" as x"
	ctx := g.ctx()
	switch vf.Choice("form", 3) {
	case 0:
		all(c1, v1)
		all(c2, v2)
		q1 += " union all " + q2
	case 1:
		all(c1, v1)
		all(c2, v2)
		all(c1, v1)
		q1 += " union all " + q2 + " union all " + q1
	case 2: // a failing query before
		_, err := oc_eval(ctx, "match "+c1.text()+" return 1 / 0")
		n := 0
		g.matchAll([]chain{c1}, match{}, func(match) { n++ })
		vf.Assert((err != nil) == (n > 0), "failing")
		q1 = q2
		all(c2, v2)
	}
	v, err := oc_eval(ctx, q1)
	must(err, "error")
	assertMatches(rows(v), want, []string{"x"}, "branches")
}

// null is a value as any other: it hides the values of enclosing contexts
func P13_Nulls() {
	outer := oc.NewEvalContext(lpg.NewGraph())
	inner := outer.SubContext()
	a, b := vf.Int("a"), vf.Int("b")
	outer.SetVar("x", rv(a))
	outer.SetParameter("$x", rv(b))
	how := vf.Choice("how", 3)
	switch how {
	case 0:
		inner.SetVar("x", rv(nil))
	case 1:
		inner.SetVars(map[string]oc.Value{"x": rv(nil), "y": rv(a)})
	case 2:
		inner.SetParameter("$x", rv(nil))
	}
	ctx := inner
	if vf.Choice("deeper", 2) == 1 {
		ctx = inner.SubContext()
	}
	v, err := oc.ParseAndEvaluate("return [x, $x] as r", ctx)
	must(err, "error")
	l, ok := single(v).([]oc.Value)
	vf.Assert(ok && len(l) == 2, "list")
	if how < 2 {
		vf.Assert(l[0].Get() == nil, "null-variable")
		vf.Assert(l[1].Get() == b, "parameter")
	} else {
		vf.Assert(l[0].Get() == a, "variable")
		vf.Assert(l[1].Get() == nil, "null-parameter")
	}
	v, err = oc.ParseAndEvaluate("return [x, $x] as r", outer)
	must(err, "outer-error")
	l, ok = single(v).([]oc.Value)
	vf.Assert(ok && len(l) == 2 && l[0].Get() == a && l[1].Get() == b, "outer")
}

var _ = vf.Reg("P13_NameForms", P13_NameForms)

// parameters and variables of every form of name
func P13_NameForms() {
	names := []string{"0", "7", "10", "123456789012345678901234567890", "9223372036854775808", "a", "A", "_", "_1", "a1", "match", "é", "`a b`", "`1`", "`$a`", "`a.b`", "`A`"}
	i := vf.Choice("a", len(names))
	a, b := vf.Int("va"), vf.Int("vb")
	j := vf.Choice("b", len(names))
	plain := func(s string) string {
		if s[0] == '`' {
			return s[1 : len(s)-1]
		}
		return s
	}
	ni, nj := plain(names[i]), plain(names[j])
	vf.Assume(ni != nj)
	ctx := newCtx()
	ctx.SetParameter("$"+ni, rv(a)).SetParameter("$"+nj, rv(b))
	reserved := func(s string) bool { return s == "match" }
	if !reserved(names[i]) && !reserved(names[j]) {
		v, err := oc_eval(ctx, "return [$"+names[i]+", $"+names[j]+", $"+names[i]+"] as x")
		must(err, "parameter-error")
		vf.Assert(identical(single(v), valueList(rv(a), rv(b), rv(a))), "parameter")
	}
	_, err := oc_eval(newCtx().SetParameter("$"+ni, rv(a)), "return $"+names[j])
	vf.Assert(err != nil, "parameter-undefined")
	for _, n := range []string{names[i], names[j]} {
		if n[0] >= '0' && n[0] <= '9' || reserved(n) {
			return
		}
	}
	ctx = newCtx()
	ctx.SetVar(ni, rv(a))
	ctx.SetVar(nj, rv(b))
	v, err := oc_eval(ctx, "return ["+names[i]+", "+names[j]+"] as x")
	must(err, "variable-error")
	vf.Assert(identical(single(v), valueList(rv(a), rv(b))), "variable")
}
