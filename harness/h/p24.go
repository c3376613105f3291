package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P24_Kinds", P24_Kinds)
var _ = vf.Reg("P24_Lists", P24_Lists)
var _ = vf.Reg("P24_Maps", P24_Maps)
var _ = vf.Reg("P24_Nested", P24_Nested)
var _ = vf.Reg("P24_Elements", P24_Elements)
var _ = vf.Reg("P24_Paths", P24_Paths)
var _ = vf.Reg("P24_Sets", P24_Sets)
var _ = vf.Reg("P24_Transitive", P24_Transitive)
var _ = vf.Reg("P24_Operator", P24_Operator)

func isSame(a, b interface{}) bool {
	p, r := false, false
	p, _ = vf.Catch(func() { r = oc.IsValueSame(rv(a), rv(b)) })
	vf.Assert(!p, "panic")
	return r
}

func noNaN(v interface{}) interface{} {
	if f, ok := v.(float64); ok {
		vf.Assume(!isNaN(f))
	}
	return v
}

// assertSameness compares both directions with the reference, and each value
// with itself.
func assertSameness(a, b interface{}, id string) {
	want := equal(a, b)
	vf.Assert(vf.Iff(isSame(a, b), want), id)
	vf.Assert(vf.Iff(isSame(b, a), want), id+"-symmetric")
	vf.Assert(isSame(a, a), id+"-reflexive")
	vf.Assert(isSame(b, b), id+"-reflexive")
}

// values of every pair of kinds
func P24_Kinds() {
	a := noNaN(value(vf.Choice("ka", nKinds), "a"))
	b := noNaN(value(vf.Choice("kb", nKinds), "b"))
	assertSameness(a, b, "same")
}

func small2(name string) interface{} {
	return value([]int{kNull, kInt, kStr}[vf.Choice(name+".kind", 3)], name)
}

func P24_Lists() {
	list := func(name string) interface{} {
		out := []oc.Value{}
		for i, n := 0, vf.Choice(name+".len", 3); i < n; i++ {
			out = append(out, rv(small2(name+digit(i))))
		}
		return out
	}
	assertSameness(list("a"), list("b"), "list")
}

func P24_Maps() {
	m := func(name string) interface{} {
		out := map[string]oc.Value{}
		for _, k := range []string{"x", "y"} {
			if vf.Choice(name+".has"+k, 2) == 1 {
				out[k] = rv(small2(name + k))
			}
		}
		return out
	}
	assertSameness(m("a"), m("b"), "map")
}

func P24_Nested() {
	v := func(name string) interface{} {
		x := small2(name)
		switch vf.Choice(name+".shape", 6) {
		case 0:
			return x
		case 1:
			return valueList(rv(x))
		case 2:
			return valueList(rv(valueList(rv(x))))
		case 3:
			return map[string]oc.Value{"k": rv(x)}
		case 4:
			return valueList(rv(map[string]oc.Value{"k": rv(x)}))
		}
		return map[string]oc.Value{"k": rv(valueList(rv(x), rv(1)))}
	}
	assertSameness(v("a"), v("b"), "nested")
}

// nodes and relationships are compared by identity
func P24_Elements() {
	g := graphOf(2)
	p := vf.Int("p")
	for _, n := range g.nodes {
		n.SetLabels(labelSet("A"))
		n.SetProperty("p", p)
	}
	g.edge(0, 1, "R")
	g.edge(0, 1, "R")
	elems := []interface{}{g.nodes[0], g.nodes[1], g.edges[0], g.edges[1]}
	i, j := vf.Choice("i", 4), vf.Choice("j", 4)
	vf.Assert(isSame(elems[i], elems[j]) == (i == j), "identity")
	l := vf.Choice("wrap", 2)
	if l == 1 {
		vf.Assert(isSame(valueList(rv(elems[i])), valueList(rv(elems[j]))) == (i == j), "identity-in-list")
	}
}

// paths are the same when they go through the same relationships
func P24_Paths() {
	g := graphOf(2)
	g.edge(0, 1, "R")
	g.edge(1, 0, "R")
	g.edge(0, 1, "R")
	type step struct {
		e   int
		rev bool
	}
	ps := [][]step{
		{{0, false}}, {{1, true}}, {{2, false}}, {{0, true}}, {{1, false}},
		{{0, false}, {1, false}}, {{1, false}, {0, false}}, {{2, false}, {1, false}}, {{0, false}, {0, true}},
	}
	mk := func(s []step) *lpg.Path {
		var es []lpg.PathElement
		for _, x := range s {
			es = append(es, lpg.PathElement{Edge: g.edges[x.e], Reverse: x.rev})
		}
		return lpg.NewPathFromElements(es...)
	}
	i, j := vf.Choice("i", len(ps)), vf.Choice("j", len(ps))
	vf.Assert(isSame(mk(ps[i]), mk(ps[j])) == (i == j), "path")
	p := mk(ps[i])
	vf.Assert(isSame(p, p), "path-itself")
}

func P24_Sets() {
	sets := [][]string{{}, {"x"}, {"y"}, {"x", "y"}, {"y", "x"}, {"x", "z"}}
	i, j := vf.Choice("i", len(sets)), vf.Choice("j", len(sets))
	same := i == j || (i == 3 && j == 4) || (i == 4 && j == 3)
	vf.Assert(isSame(labelSet(sets[i]...), labelSet(sets[j]...)) == same, "set")
	vf.Assert(!isSame(labelSet(sets[i]...), valueList()), "set-list")
}

// transitivity, within one kind of number
func P24_Transitive() {
	k := vf.Choice("kind", nPrim)
	var v [3]interface{}
	for i := range v {
		kk := k
		if vf.Choice("null"+digit(i), 2) == 1 {
			kk = kNull
		}
		v[i] = noNaN(value(kk, "v"+digit(i)))
		if vf.Choice("list", 2) == 1 {
			v[i] = valueList(rv(v[i]))
		}
	}
	ab, bc, ac := isSame(v[0], v[1]), isSame(v[1], v[2]), isSame(v[0], v[2])
	vf.Assert(vf.Implies(vf.And(ab, bc), ac), "transitive")
	vf.Assert(vf.Implies(vf.And(ab, !bc), !ac), "transitive-not")
}

// agreement with the = operator on values it can compare
func P24_Operator() {
	k := 1 + vf.Choice("kind", nPrim-1)
	a, b := value(k, "a"), value(k, "b")
	if k == kFloat && vf.Choice("mixed", 2) == 1 {
		a = vf.Int("i")
	}
	v, err := ret("$a = $b", a, b)
	must(err, "operator-error")
	vf.Assert(vf.Iff(v.(bool), isSame(a, b)), "operator")
}
