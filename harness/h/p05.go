package h

import (
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P05_Binary", P05_Binary)
var _ = vf.Reg("P05_Many", P05_Many)
var _ = vf.Reg("P05_Precedence", P05_Precedence)
var _ = vf.Reg("P05_NonBoolean", P05_NonBoolean)
var _ = vf.Reg("P05_Computed", P05_Computed)

// tri is a truth value: null, or a boolean.
type tri struct{ null, b bool }

func symTri(name string) (tri, interface{}) {
	if vf.Choice(name+".null", 2) == 1 {
		return tri{null: true}, nil
	}
	b := vf.Bool(name)
	return tri{b: b}, b
}

func kAnd(a, b tri) tri {
	f := vf.Or(vf.And(!a.null, !a.b), vf.And(!b.null, !b.b))
	return tri{null: vf.And(!f, vf.Or(a.null, b.null)), b: !f}
}

func kNot(a tri) tri { return tri{a.null, !a.b} }

func kOr(a, b tri) tri { return kNot(kAnd(kNot(a), kNot(b))) }

func kXor(a, b tri) tri { return tri{vf.Or(a.null, b.null), !vf.Iff(a.b, b.b)} }

func assertTri(v interface{}, w tri, id string) {
	if v == nil {
		vf.Assert(w.null, id+"-null")
		return
	}
	b, ok := v.(bool)
	vf.Assert(ok, id+"-kind")
	vf.Assert(!w.null, id+"-not-null")
	vf.Assert(vf.Iff(b, w.b), id)
}

var conns = []string{"and", "or", "xor"}

func conn(c int, a, b tri) tri {
	switch c {
	case 0:
		return kAnd(a, b)
	case 1:
		return kOr(a, b)
	}
	return kXor(a, b)
}

func P05_Binary() {
	c := vf.Choice("conn", 3)
	a, av := symTri("a")
	b, bv := symTri("b")
	v, err := ret("$a "+conns[c]+" $b", av, bv)
	must(err, "error")
	assertTri(v, conn(c, a, b), "table")
	v, err = ret("$b "+conns[c]+" $a", av, bv)
	must(err, "error")
	assertTri(v, conn(c, a, b), "commuted")
	v, err = ret("not $a", av)
	must(err, "error")
	assertTri(v, kNot(a), "not")
	v, err = ret("not ($a "+conns[c]+" $b)", av, bv)
	must(err, "error")
	assertTri(v, kNot(conn(c, a, b)), "negated")
}

// any number of operands of one connective
func P05_Many() {
	c := vf.Choice("conn", 3)
	n := 3 + vf.Choice("n", vf.Pick(2, 4))
	q := ""
	var w tri
	var vs []interface{}
	for i := 0; i < n; i++ {
		t, v := symTri("v" + digit(i))
		vs = append(vs, v)
		if i == 0 {
			q, w = "$a", t
		} else {
			q += " " + conns[c] + " $" + string(rune('a'+i))
			w = conn(c, w, t)
		}
	}
	v, err := ret(q, vs...)
	must(err, "error")
	assertTri(v, w, "value")
}

// NOT > AND > XOR > OR
func P05_Precedence() {
	c1, c2 := vf.Choice("c1", 3), vf.Choice("c2", 3)
	a, av := symTri("a")
	b, bv := symTri("b")
	d, dv := symTri("d")
	lv := []int{2, 0, 1}
	var w tri
	n := vf.Choice("not", 4)
	q := []string{"", "not ", "", "not "}[n] + "$a " + conns[c1] + []string{" ", " ", " not ", " not not "}[n] + "$b " + conns[c2] + " $c"
	x, y := a, b
	if n == 1 || n == 3 {
		x = kNot(a)
	}
	if n == 2 {
		y = kNot(b)
	}
	if lv[c2] > lv[c1] {
		w = conn(c1, x, conn(c2, y, d))
	} else {
		w = conn(c2, conn(c1, x, y), d)
	}
	v, err := ret(q, av, bv, dv)
	must(err, "error")
	assertTri(v, w, "value")
}

// a non-boolean operand that has to be inspected is an error
func P05_NonBoolean() {
	c := vf.Choice("conn", 3)
	k := 1 + vf.Choice("kind", nKinds-1)
	if k == kBool {
		return
	}
	x := value(k, "x")
	// the neutral element never decides the value, so the other operand is inspected
	neutral := []bool{true, false, vf.Bool("other")}[c]
	_, err := ret("$a "+conns[c]+" $b", x, neutral)
	vf.Assert(err != nil, "left")
	_, err = ret("$b "+conns[c]+" $a", x, neutral)
	vf.Assert(err != nil, "right")
	_, err = ret("not $a", x)
	vf.Assert(err != nil, "not")
}

// operands that are themselves computed, in WHERE and CASE as well
func P05_Computed() {
	x, y := vf.Int("x"), vf.Int("y")
	c := vf.Choice("conn", 3)
	ctx := newCtx()
	ctx.SetParameter("$x", rv(x)).SetParameter("$y", rv(y))
	w := conn(c, tri{b: x < y}, tri{b: x == 5})
	v, err := oc_eval(ctx, "return $x < $y "+conns[c]+" $x = 5")
	must(err, "error")
	assertTri(single(v), w, "comparison-operands")
	g := graphOf(1)
	gctx := oc.NewEvalContext(g.g)
	gctx.SetParameter("$x", rv(x)).SetParameter("$y", rv(y))
	v, err = oc_eval(gctx, "match (n) where $x < $y "+conns[c]+" $x = 5 return n")
	must(err, "error")
	vf.Assert(vf.Iff(len(rows(v).Rows) == 1, w.b), "where")
	v, err = oc_eval(ctx, "return case when $x < $y "+conns[c]+" $x = 5 then 1 else 2 end")
	must(err, "error")
	vf.Assert(vf.Iff(single(v) == 1, w.b), "case")
}
