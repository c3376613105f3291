package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P25_Integers", P25_Integers)
var _ = vf.Reg("P25_Floats", P25_Floats)
var _ = vf.Reg("P25_Kinds", P25_Kinds)
var _ = vf.Reg("P25_Containers", P25_Containers)
var _ = vf.Reg("P25_Parameters", P25_Parameters)
var _ = vf.Reg("P25_Properties", P25_Properties)
var _ = vf.Reg("P25_PropertyOfRelationship", P25_PropertyOfRelationship)
var _ = vf.Reg("P25_Wrapped", P25_Wrapped)
var _ = vf.Reg("P25_Unsupported", P25_Unsupported)
var _ = vf.Reg("P25_RoundTrip", P25_RoundTrip)
var _ = vf.Reg("P25_NoProperties", P25_NoProperties)

// goInt is an integer of one of Go's types, with its value.
func goInt(k int, name string) (interface{}, int) {
	switch k {
	case 0:
		v := vf.Int(name)
		return v, v
	case 1:
		v := vf.Int(name)
		return int64(v), v
	case 2:
		v := vf.IntRange(name, -1<<31, 1<<31-1)
		return int32(v), v
	case 3:
		v := vf.IntRange(name, -1<<15, 1<<15-1)
		return int16(v), v
	case 4:
		v := vf.IntRange(name, -128, 127)
		return int8(v), v
	case 5:
		v := vf.IntRange(name, 0, 1<<32-1)
		return uint32(v), v
	case 6:
		v := vf.IntRange(name, 0, 1<<16-1)
		return uint16(v), v
	}
	v := vf.IntRange(name, 0, 255)
	return uint8(v), v
}

func P25_Integers() {
	x, want := goInt(vf.Choice("type", 8), "x")
	v := oc.ValueOf(x)
	got, ok := v.Get().(int)
	vf.Assert(ok, "int-kind")
	vf.Observe("got", got)
	vf.Assert(got == want, "int-value")
}

func P25_Floats() {
	f := vf.Float("f")
	if vf.Choice("single", 2) == 0 {
		got, ok := oc.ValueOf(f).Get().(float64)
		vf.Assert(ok && vf.SameFloat(got, f), "float64")
		return
	}
	s := float32(f)
	got, ok := oc.ValueOf(s).Get().(float64)
	vf.Assert(ok && vf.SameFloat(got, float64(s)), "float32")
}

// every other kind is itself
func P25_Kinds() {
	k := vf.Choice("kind", nKinds)
	x := value(k, "x")
	v := oc.ValueOf(x)
	vf.Assert(v != nil, "nil-value")
	vf.Assert(identical(v.Get(), x), "value")
	w := oc.ValueOf(v)
	vf.Assert(identical(w.Get(), x), "value-of-value")
}

func P25_Containers() {
	k := vf.Choice("kind", kList)
	x := value(k, "x")
	l := []oc.Value{oc.ValueOf(x), oc.ValueOf(1)}
	got, ok := oc.ValueOf(l).Get().([]oc.Value)
	vf.Assert(ok && len(got) == 2, "list")
	vf.Assert(identical(got[0].Get(), x) && got[1].Get() == interface{}(1), "list-value")
	m := map[string]oc.Value{"k": oc.ValueOf(x)}
	gm, ok := oc.ValueOf(m).Get().(map[string]oc.Value)
	vf.Assert(ok && len(gm) == 1, "map")
	vf.Assert(identical(gm["k"].Get(), x), "map-value")
}

// parameters yield the value that was set
func P25_Parameters() {
	ctx := newCtx()
	if vf.Choice("int", 2) == 1 {
		x, want := goInt(vf.Choice("type", 8), "x")
		ctx.SetParameter("$x", oc.ValueOf(x))
		v, err := oc_eval(ctx, "return $x as a, $x + 1 as b, -$x as c")
		must(err, "int-error")
		rs := rows(v)
		vf.Assert(identical(cell(rs, 0, "a"), want), "int-read")
		vf.Assert(identical(cell(rs, 0, "b"), want+1), "int-plus")
		vf.Assert(identical(cell(rs, 0, "c"), -want), "int-minus")
		return
	}
	x := value(vf.Choice("kind", nKinds), "x")
	ctx.SetParameter("$x", oc.ValueOf(x))
	sub := ctx.SubContext()
	for _, c := range []*oc.EvalContext{ctx, sub} {
		v, err := oc_eval(c, "return $x as a, [$x] as b, {k: $x} as c")
		must(err, "error")
		rs := rows(v)
		vf.Assert(identical(cell(rs, 0, "a"), x), "read")
		vf.Assert(identical(cell(rs, 0, "b"), valueList(rv(x))), "read-in-list")
		vf.Assert(identical(cell(rs, 0, "c"), map[string]oc.Value{"k": rv(x)}), "read-in-map")
	}
}

// properties stored by the application, with every supported Go type
func P25_Properties() {
	g := graphOf(1)
	var x, want interface{}
	if vf.Choice("int", 2) == 1 {
		x, want = goInt(vf.Choice("type", 8), "x")
	} else if vf.Choice("float32", 2) == 1 {
		f := float32(vf.Float("x"))
		x, want = f, float64(f)
	} else {
		x = value([]int{kInt, kFloat, kStr, kBool, kDur, kDate, kTime, kDateTime, kList, kMap}[vf.Choice("kind", 10)], "x")
		want = x
	}
	g.nodes[0].SetProperty("p", x)
	v, err := oc_eval(g.ctx(), "match (n) return n.p as a, [n.p] as b, n.nosuch as c, n.p is null as d")
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Rows) == 1, "rows")
	vf.Assert(identical(cell(rs, 0, "a"), want), "read")
	vf.Assert(identical(cell(rs, 0, "b"), valueList(rv(want))), "read-in-list")
	vf.Assert(cell(rs, 0, "c") == nil, "absent")
	vf.Assert(cell(rs, 0, "d") == interface{}(false), "not-null")
	// reading leaves the property alone
	y, ok := g.nodes[0].GetProperty("p")
	vf.Assert(ok && identical(oc.ValueOf(y).Get(), want), "stored")
}

func P25_PropertyOfRelationship() {
	g := graphOf(2)
	g.edge(0, 1, "R")
	x, want := goInt(vf.Choice("type", 8), "x")
	g.edges[0].SetProperty("w", x)
	g.nodes[0].SetProperty("p", x)
	v, err := oc_eval(g.ctx(), "match (n)-[r]->(m) where r.w = n.p return r.w as a, r.w + n.p as b, m.p as c, r.nosuch as d")
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Rows) == 1, "rows")
	vf.Assert(identical(cell(rs, 0, "a"), want), "read")
	vf.Assert(identical(cell(rs, 0, "b"), want+want), "sum")
	vf.Assert(cell(rs, 0, "c") == nil && cell(rs, 0, "d") == nil, "absent")
}

type wrapped struct{ v interface{} }

func (w wrapped) GetNativeValue() interface{} { return w.v }

// stored values that know their native value
func P25_Wrapped() {
	g := graphOf(1)
	x := value([]int{kNull, kInt, kFloat, kStr, kBool, kDate}[vf.Choice("kind", 6)], "x")
	g.nodes[0].SetProperty("p", wrapped{x})
	v, err := oc_eval(g.ctx(), "match (n) return n.p as a")
	must(err, "error")
	vf.Assert(identical(single(v), x), "wrapped")
}

// a property of a type the language does not have is an error, not some value
func P25_Unsupported() {
	var x interface{}
	switch vf.Choice("type", 6) {
	case 0:
		x = struct{ a int }{5}
	case 1:
		x = []interface{}{5}
	case 2:
		x = complex(1, 2)
	case 3:
		i := 5
		x = &i
	case 4:
		x = map[string]interface{}{"k": 5}
	case 5:
		x = wrapped{[]int{5}}
	}
	g := graphOf(1)
	g.nodes[0].SetProperty("p", x)
	q := []string{"match (n) return n.p as a", "match (n) return [n.p] as a", "match (n) where n.p = 1 return n as n", "match (n) set n.q = n.p", "match (n) create (m {q: n.p})"}[vf.Choice("query", 5)]
	_, err := oc_eval(g.ctx(), q)
	vf.Assert(err != nil, "accepted")
	p, _ := vf.Catch(func() { oc.ValueOf(x) })
	vf.Assert(p, "converted")
}

// what a query stores another query reads
func P25_RoundTrip() {
	k := []int{kInt, kFloat, kStr, kBool, kDur, kDate, kTime, kDateTime, kList}[vf.Choice("kind", 9)]
	x := value(k, "x")
	g := graphOf(1)
	ctx := bind(g.ctx(), x)
	form := vf.Choice("form", 3)
	_, err := oc_eval(ctx, []string{"match (n) set n.p = $a", "create (n:L {p: $a})", "match (n) create (n)-[r:R {p: $a}]->(n)"}[form])
	must(err, "write-error")
	v, err := oc_eval(g.ctx(), []string{"match (n) return n.p as x", "match (n:L) return n.p as x", "match ()-[r]->() return r.p as x"}[form])
	must(err, "read-error")
	vf.Assert(identical(single(v), x), "round-trip")
	switch form {
	case 0:
		y, ok := g.nodes[0].GetProperty("p")
		vf.Assert(ok && identical(native(y), x), "stored")
	case 2:
		for it := g.nodes[0].GetEdges(lpg.OutgoingEdge); it.Next(); {
			y, ok := it.Edge().GetProperty("p")
			vf.Assert(ok && identical(native(y), x), "stored")
		}
	}
}

// values that have no properties: reading one is an error, or null of null
func P25_NoProperties() {
	g := graphOf(3)
	for i := 0; i < 2; i++ {
		g.edge(i, i+1, "R").SetProperty("p", vf.Int("w"+digit(i)))
	}
	for i, n := range g.nodes {
		n.SetProperty("p", vf.Int("p"+digit(i)))
		n.SetLabels(labelSet([]string{"A", "B", "C"}[i]))
	}
	q := []string{
		"match (:A)-[r*2]->(:C) return r.p",
		"match (:A)-[r*1..2]->(:C) return r.p",
		"match (:A)-[r*2]->(:C) where r.p = 1 return 1",
		"match (:A)-[r*2]->(:C) return [r.p]",
		"match (n:A)-[r*2]->(:C) set n.q = r.p",
		"match (n:A)-[r*2]->(:C) create (m {q: r.p})",
		"match (n:A) return n.p.p",
	}[vf.Choice("query", 7)]
	want := takeSnap(g.g)
	_, err := oc_eval(g.ctx(), q)
	vf.Assert(err != nil, "accepted")
	assertSame(g.g, want, "no-properties")
	k := []int{kInt, kFloat, kStr, kBool, kDur, kDate, kList, kSet}[vf.Choice("kind", 8)]
	_, err = ret([]string{"$a.p", "[$a.p]", "$a.p + 1", "{k: $a}.k.p"}[vf.Choice("form", 4)], value(k, "a"))
	vf.Assert(err != nil, "scalar-accepted")
}
