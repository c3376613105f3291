package h

import (
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P06_Searched", P06_Searched)
var _ = vf.Reg("P06_Simple", P06_Simple)
var _ = vf.Reg("P06_Lazy", P06_Lazy)
var _ = vf.Reg("P06_Rows", P06_Rows)
var _ = vf.Reg("P06_Conditions", P06_Conditions)
var _ = vf.Reg("P06_Results", P06_Results)

// caseText builds a CASE expression; whens[i] and thens[i] are expressions.
func caseText(test string, whens, thens []string, els string) string {
	q := "case " + test
	for i := range whens {
		q += " when " + whens[i] + " then " + thens[i]
	}
	if els != "" {
		q += " else " + els
	}
	return q + " end"
}

func P06_Searched() {
	n := 1 + vf.Choice("n", vf.Pick(3, 5))
	ctx := newCtx()
	var whens, thens []string
	sel, found := 0, false
	els := ""
	for i := 0; i < n; i++ {
		w, wv := symTri("w" + digit(i))
		t := vf.Int("t" + digit(i))
		ctx.SetParameter("$w"+digit(i), rv(wv)).SetParameter("$t"+digit(i), rv(t))
		whens, thens = append(whens, "$w"+digit(i)), append(thens, "$t"+digit(i))
		hit := vf.And(!found, !w.null, w.b)
		sel = vf.IteInt(hit, t, sel)
		found = vf.Or(found, hit)
	}
	hasElse := vf.Choice("else", 2) == 1
	if hasElse {
		e := vf.Int("e")
		ctx.SetParameter("$e", rv(e))
		els = "$e"
		sel = vf.IteInt(found, sel, e)
	}
	v, err := oc_eval(ctx, "return "+caseText("", whens, thens, els))
	must(err, "error")
	r := single(v)
	if r == nil {
		vf.Assert(vf.And(!found, !hasElse), "null-result")
		return
	}
	vf.Assert(vf.Or(found, hasElse), "value-without-match")
	g, ok := r.(int)
	vf.Assert(ok, "kind")
	vf.Assert(g == sel, "selected")
}

// caseVal is null or a value comparable with the other values of the group.
func caseVal(group int, name string) interface{} {
	if vf.Choice(name+".null", 2) == 1 {
		return nil
	}
	switch group {
	case 0:
		return num(name)
	case 1:
		return vf.Str(name, 0, 1, "")
	case 2:
		return vf.Bool(name)
	case 3:
		return duration(name)
	}
	return oc.Date(instant(name))
}

// sameVal is equality of two values of one group, null being equal to nothing.
func sameVal(a, b interface{}) bool {
	if a == nil || b == nil {
		return false
	}
	if x, ok := a.(int); ok {
		if y, ok := b.(int); ok {
			return x == y
		}
	}
	switch a.(type) {
	case int, float64:
		return toF(a) == toF(b)
	}
	_, eq := refOrder(a, b)
	return eq
}

func P06_Simple() {
	n := 1 + vf.Choice("n", vf.Pick(2, 3))
	group := vf.Choice("group", 5)
	ctx := newCtx()
	x := caseVal(group, "x")
	ctx.SetParameter("$x", rv(x))
	var whens, thens []string
	sel, found := 0, false
	for i := 0; i < n; i++ {
		w := caseVal(group, "w"+digit(i))
		t := vf.Int("t" + digit(i))
		ctx.SetParameter("$w"+digit(i), rv(w)).SetParameter("$t"+digit(i), rv(t))
		whens, thens = append(whens, "$w"+digit(i)), append(thens, "$t"+digit(i))
		hit := vf.And(!found, sameVal(x, w))
		sel = vf.IteInt(hit, t, sel)
		found = vf.Or(found, hit)
	}
	els := ""
	hasElse := vf.Choice("else", 2) == 1
	if hasElse {
		e := vf.Int("e")
		ctx.SetParameter("$e", rv(e))
		els = "$e"
		sel = vf.IteInt(found, sel, e)
	}
	v, err := oc_eval(ctx, "return "+caseText("$x", whens, thens, els))
	must(err, "error")
	r := single(v)
	if r == nil {
		vf.Assert(vf.And(!found, !hasElse), "null-result")
		return
	}
	vf.Assert(vf.Or(found, hasElse), "value-without-match")
	g, ok := r.(int)
	vf.Assert(ok, "kind")
	vf.Assert(g == sel, "selected")
}

var probed []int

// probe(i, v) records i and returns v.
func regProbe() {
	probed = nil
	oc.RegisterGlobalFunc(oc.Function{Name: "probe", MinArgs: 2, MaxArgs: 2, ValueFunc: func(ctx *oc.EvalContext, args []oc.Value) (oc.Value, error) {
		probed = append(probed, args[0].Get().(int))
		return rv(args[1].Get()), nil
	}})
}

// only the selected branch is evaluated, and exactly once
func P06_Lazy() {
	regProbe()
	a, av := symTri("a")
	b, bv := symTri("b")
	ctx := newCtx()
	ctx.SetParameter("$a", rv(av)).SetParameter("$b", rv(bv)).SetParameter("$z", rv(0))
	var q string
	ba, bb := vf.And(!a.null, a.b), vf.And(!b.null, b.b)
	form := vf.Choice("form", 4)
	switch form {
	case 0:
		q = "case when $a then probe(1, 10) when $b then probe(2, 20) else probe(3, 30) end"
	case 1:
		q = "case true when $a then probe(1, 10) when $b then probe(2, 20) else probe(3, 30) end"
	case 2: // an unselected branch that fails
		q = "case when $a then probe(1, 10) when $b then 1/$z else probe(3, 30) end"
	case 3:
		q = "case when $a then nosuchfunction(1) when $b then probe(2, 20) else nosuchvariable end"
	}
	v, err := oc_eval(ctx, "return "+q)
	want := 3
	if ba {
		want = 1
	} else if bb {
		want = 2
	}
	if form == 2 && want == 2 || form == 3 && want != 2 {
		vf.Assert(err != nil, "selected-branch-error")
		vf.Assert(len(probed) == 0, "unselected-evaluated")
		return
	}
	must(err, "unselected-branch-error")
	vf.Assert(single(v) == want*10, "value")
	vf.Assert(len(probed) == 1 && probed[0] == want, "evaluated-branches")
}

// CASE in a projection is decided anew for each row
func P06_Rows() {
	g := graphOf(3)
	for i, n := range g.nodes {
		n.SetLabels(labelSet("L"))
		if vf.Choice("has"+digit(i), 2) == 1 {
			n.SetProperty("p", vf.Int("p"+digit(i)))
		}
	}
	k, d := vf.Int("k"), vf.Int("d")
	ctx := g.ctx()
	ctx.SetParameter("$k", rv(k)).SetParameter("$d", rv(d))
	q := []string{
		"match (n:L) return n as n, case n.p when $k then 1 when $d then 2 else 3 end as c",
		"match (n:L) return n as n, case when n.p = $k then 1 when n.p = $d then 2 else 3 end as c",
		"match (n:L) return n as n, case $k when n.p then 1 else case $d when n.p then 2 else 3 end end as c",
	}[vf.Choice("q", 3)]
	v, err := oc_eval(ctx, q)
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Rows) == 3, "rows")
	for _, n := range g.nodes {
		p, ok := n.GetProperty("p")
		want := 3
		if ok {
			x := p.(int)
			want = vf.IteInt(x == k, 1, vf.IteInt(x == d, 2, 3))
		}
		seen := 0
		for i := range rs.Rows {
			if cell(rs, i, "n") == n {
				seen++
				c, ok := cell(rs, i, "c").(int)
				vf.Assert(ok && c == want, "row-branch")
			}
		}
		vf.Assert(seen == 1, "row-per-node")
	}
}

// a condition that is neither boolean nor null is an error
func P06_Conditions() {
	k := vf.Choice("kind", nKinds)
	if k == kBool || k == kNull {
		return
	}
	_, err := ret("case when $a then 1 else 2 end", value(k, "a"))
	vf.Assert(err != nil, "non-boolean-condition")
}

// the result of the selected alternative is the value of the expression, whatever
// it is, null included
func P06_Results() {
	n := vf.Pick(2, 3)
	ctx := newCtx()
	var whens, thens []string
	kinds := []int{kNull, kInt, kStr, kBool, kList}
	var vals []interface{}
	sel := n // the ELSE
	simple := vf.Choice("simple", 2) == 1
	x := vf.Int("x")
	ctx.SetParameter("$x", rv(x))
	for i := 0; i < n; i++ {
		t := value(kinds[vf.Choice("t"+digit(i), vf.Pick(3, len(kinds)))], "t"+digit(i))
		vals = append(vals, t)
		var hit bool
		if simple {
			w := vf.Int("w" + digit(i))
			ctx.SetParameter("$w"+digit(i), rv(w))
			hit = w == x
		} else {
			w, wv := symTri("w" + digit(i))
			ctx.SetParameter("$w"+digit(i), rv(wv))
			hit = vf.And(!w.null, w.b)
		}
		ctx.SetParameter("$t"+digit(i), rv(t))
		whens, thens = append(whens, "$w"+digit(i)), append(thens, "$t"+digit(i))
		sel = vf.IteInt(vf.And(sel == n, hit), i, sel)
	}
	els := ""
	vals = append(vals, nil)
	if vf.Choice("else", 2) == 1 {
		vals[n] = value(kinds[vf.Choice("e", 2)], "e")
		ctx.SetParameter("$e", rv(vals[n]))
		els = "$e"
	}
	test := ""
	if simple {
		test = "$x"
	}
	v, err := oc_eval(ctx, "return "+caseText(test, whens, thens, els))
	must(err, "error")
	r := single(v)
	for i := range vals {
		if sel == i {
			vf.Assert(identical(r, vals[i]), "result")
		}
	}
}

var _ = vf.Reg("P06_Kinds", P06_Kinds)

// values that cannot be compared: the error of the comparison is the error of the
// CASE, unless an earlier alternative was selected
func P06_Kinds() {
	a, b := value(vf.Choice("a.kind", nKinds), "a"), value(vf.Choice("b.kind", nKinds), "b")
	_, cmp := ret("$a = $b", a, b)
	if a == nil || b == nil {
		cmp = nil
	}
	first := vf.Choice("first", 3)
	q := "case $a "
	switch first {
	case 1:
		q += "when null then 7 "
	case 2:
		q = "case 1 when 1 then 7 when $a then 8 "
	}
	q += "when $b then 1"
	if vf.Choice("else", 2) == 1 {
		q += " else 2"
	}
	v, err := ret(q+" end", a, b)
	if first == 2 {
		must(err, "not-reached")
		vf.Assert(v == 7, "first")
		return
	}
	vf.Assert(vf.Iff(err != nil, cmp != nil), "error-iff-incomparable")
}
