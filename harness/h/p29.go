package h

import (
	"errors"

	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P29_Arity", P29_Arity)
var _ = vf.Reg("P29_Kinds", P29_Kinds)
var _ = vf.Reg("P29_Outcome", P29_Outcome)
var _ = vf.Reg("P29_Unknown", P29_Unknown)
var _ = vf.Reg("P29_ArgumentError", P29_ArgumentError)
var _ = vf.Reg("P29_Nested", P29_Nested)
var _ = vf.Reg("P29_Rows", P29_Rows)
var _ = vf.Reg("P29_Where", P29_Where)
var _ = vf.Reg("P29_Again", P29_Again)
var _ = vf.Reg("P29_Constants", P29_Constants)
var _ = vf.Reg("P29_Updates", P29_Updates)
var _ = vf.Reg("P29_BuiltinArity", P29_BuiltinArity)

// spy is a registered function that records the arguments of every call.
type spy struct {
	calls [][]interface{}
	f     func(args []interface{}) (oc.Value, error)
}

// register registers a function in one of the two forms.
func register(name string, min, max int, byValue bool, f func(args []interface{}) (oc.Value, error)) *spy {
	s := &spy{f: f}
	fn := oc.Function{Name: name, MinArgs: min, MaxArgs: max}
	if byValue {
		fn.ValueFunc = func(ctx *oc.EvalContext, args []oc.Value) (oc.Value, error) {
			var in []interface{}
			for _, a := range args {
				in = append(in, a.Get())
			}
			s.calls = append(s.calls, in)
			return s.f(in)
		}
	} else {
		fn.Func = func(ctx *oc.EvalContext, args []oc.Evaluatable) (oc.Value, error) {
			var in []interface{}
			for _, a := range args {
				v, err := a.Evaluate(ctx)
				if err != nil {
					return nil, err
				}
				in = append(in, v.Get())
			}
			s.calls = append(s.calls, in)
			return s.f(in)
		}
	}
	oc.RegisterGlobalFunc(fn)
	return s
}

func giving(v interface{}) func([]interface{}) (oc.Value, error) {
	return func([]interface{}) (oc.Value, error) { return rv(v), nil }
}

func (s *spy) assertCall(i int, id string, want ...interface{}) {
	vf.Assert(len(s.calls[i]) == len(want), id+"-arguments")
	for j := range want {
		vf.Assert(identical(s.calls[i][j], want[j]), id+"-argument")
	}
}

func form() bool { return vf.Choice("form", 2) == 1 }

func callText(name string, n int) string {
	s := name + "("
	for i := 0; i < n; i++ {
		if i > 0 {
			s += ", "
		}
		s += "$" + string(rune('a'+i))
	}
	return s + ")"
}

// every declared arity and every number of arguments
func P29_Arity() {
	min := vf.Choice("min", 4)
	max := vf.Choice("max", 5) - 1
	vf.Assume(max < 0 || max >= min)
	k := vf.Choice("args", 5)
	name := []string{"spyArity", "ns.spyArity", "a.b.c"}[vf.Choice("name", 3)]
	r := vf.Int("result")
	s := register(name, min, max, form(), giving(r))
	args := make([]interface{}, 5)
	for i := range args {
		args[i] = vf.Int("arg" + digit(i))
	}
	v, err := ret(callText(name, k), args...)
	if k < min || max >= 0 && k > max {
		vf.Assert(err != nil, "arity-no-error")
		vf.Assert(errors.As(err, new(oc.ErrInvalidFunctionCall)), "arity-error-kind")
		vf.Assert(len(s.calls) == 0, "arity-invoked")
		return
	}
	must(err, "error")
	vf.Assert(len(s.calls) == 1, "calls")
	s.assertCall(0, "arity", args[:k]...)
	vf.Assert(identical(v, r), "result")
}

// arguments and results of every kind
func P29_Kinds() {
	ka, kb := vf.Choice("a.kind", nKinds), vf.Choice("b.kind", vf.Pick(3, nKinds))
	a, b := value(ka, "a"), value(kb, "b")
	s := register("spyKinds", 2, 2, form(), func(in []interface{}) (oc.Value, error) { return rv(in[0]), nil })
	v, err := ret("spyKinds($b, $a)", b, a)
	_ = v
	must(err, "error")
	vf.Assert(len(s.calls) == 1, "calls")
	s.assertCall(0, "kinds", a, b)
	vf.Assert(identical(v, a), "result")
}

// the result or error of the function is that of the call
func P29_Outcome() {
	boom := errors.New("boom")
	a := vf.Int("a")
	fail := vf.Bool("fail")
	s := register("spyOutcome", 1, 1, form(), func(in []interface{}) (oc.Value, error) {
		if fail {
			return nil, boom
		}
		return rv(in[0]), nil
	})
	text := []string{"spyOutcome($a)", "spyOutcome($a) + 1", "[spyOutcome($a)]", "{k: spyOutcome($a)}", "-spyOutcome($a)", "spyOutcome($a) > 0", "case when true then spyOutcome($a) else 0 end"}[vf.Choice("text", 7)]
	_, err := ret(text, a)
	vf.Assert(len(s.calls) == 1, "calls")
	s.assertCall(0, "outcome", a)
	vf.Assert(fail == (err != nil), "error")
	if fail {
		vf.Assert(errors.Is(err, boom), "own-error")
	}
}

// unknown functions, in every position
func P29_Unknown() {
	s := register("spyKnown", 0, -1, form(), giving(1))
	c := []struct{ text, name string }{
		{"nosuch()", "nosuch"}, {"nosuch($a)", "nosuch"}, {"x.y.nosuch($a, 1)", "x.y.nosuch"}, {"spyknown()", "spyknown"}, {"x.spyKnown()", "x.spyKnown"},
		{"1 + nosuch($a)", "nosuch"}, {"[nosuch($a)]", "nosuch"}, {"spyKnown(nosuch($a))", "nosuch"}, {"spyKno()", "spyKno"}, {"TRIM('x')", "TRIM"},
	}[vf.Choice("call", 10)]
	_, err := ret(c.text, vf.Int("a"))
	vf.Assert(err != nil, "no-error")
	var u oc.ErrUnknownFunction
	vf.Assert(errors.As(err, &u), "error-kind")
	vf.Assert(u.Name == c.name, "error-name")
	vf.Assert(len(s.calls) == 0, "invoked")
}

// an argument that cannot be evaluated is the error of the call
func P29_ArgumentError() {
	s := register("spyArg", 0, -1, form(), giving(1))
	a := vf.Int("a")
	text := []string{"spyArg($nosuch)", "spyArg($a, x)", "spyArg($a, $a / 0)", "spyArg($a % 0, $a)", "spyArg(1, 'a' - 1)", "spyArg($a, 1, -'x', 2)"}[vf.Choice("text", 6)]
	_, err := ret(text, a)
	vf.Assert(err != nil, "no-error")
	vf.Assert(len(s.calls) == 0, "invoked")
}

// calls as arguments
func P29_Nested() {
	a, b := vf.Int("a"), vf.Int("b")
	f := form()
	in := register("spyInner", 1, 1, f, func(x []interface{}) (oc.Value, error) { return rv(x[0].(int) * 2), nil })
	out := register("spyOuter", 2, 3, !f, func(x []interface{}) (oc.Value, error) { return rv(x[0].(int) - x[1].(int)), nil })
	v, err := ret("spyOuter(spyInner($a), spyInner($b) + 1) + spyInner(3)", a, b)
	must(err, "error")
	vf.Assert(len(in.calls) == 3 && len(out.calls) == 1, "calls")
	in.assertCall(0, "first", a)
	in.assertCall(1, "second", b)
	in.assertCall(2, "third", 3)
	out.assertCall(0, "outer", a*2, b*2+1)
	vf.Assert(identical(v, a*2-(b*2+1)+6), "result")
}

// once for each row, with the row's values
func P29_Rows() {
	g, p, q := marked(vf.Choice("nodes", vf.Pick(4, 5)))
	c := vf.Int("c")
	s := register("spyRows", 3, 3, form(), func(x []interface{}) (oc.Value, error) { return rv(x[1]), nil })
	ctx := g.ctx()
	ctx.SetParameter("$c", rv(c))
	rs := run(ctx, "match (n) return n as n, spyRows(n.p, n.q, $c) as x")
	vf.Assert(len(rs) == len(g.nodes), "rows")
	vf.Assert(len(s.calls) == len(g.nodes), "calls")
	for i, n := range g.nodes {
		k := 0
		for j, r := range rs {
			if r["n"] != interface{}(n) {
				continue
			}
			k++
			vf.Assert(identical(r["x"], q[i].v), "row-result")
			s.assertCall(j, "row", opt.get(p[i]), q[i].v, c)
		}
		vf.Assert(k == 1, "row-once")
	}
}

func (o opt) get() interface{} {
	if o.ok {
		return o.v
	}
	return nil
}

// in WHERE, once for each match, and the rows it keeps
func P29_Where() {
	g, _, q := marked(vf.Choice("nodes", vf.Pick(4, 5)))
	c := vf.Int("c")
	s := register("spyWhere", 2, 2, form(), func(x []interface{}) (oc.Value, error) { return rv(x[0].(int) < x[1].(int)), nil })
	ctx := g.ctx()
	ctx.SetParameter("$c", rv(c))
	rs := run(ctx, "match (n) where spyWhere(n.q, $c) return n as n")
	vf.Assert(len(s.calls) == len(g.nodes), "calls")
	for i, n := range g.nodes {
		k := 0
		for _, r := range rs {
			if r["n"] == interface{}(n) {
				k++
			}
		}
		vf.Assert(k == vf.IteInt(q[i].v < c, 1, 0), "kept")
	}
}

// a parsed query calls the function again with the new values
func P29_Again() {
	a, b, c := vf.Int("a"), vf.Int("b"), vf.Int("c")
	s := register("spyAgain", 2, 2, form(), func(x []interface{}) (oc.Value, error) { return rv(x[0]), nil })
	e, err := oc.Parse("return spyAgain($a, $b) as x, spyAgain($b, 1) as y")
	must(err, "parse")
	once := func(i int, a, b int) {
		v, err := e.Evaluate(bind(newCtx(), a, b))
		must(err, "error")
		rs := rows(v)
		vf.Assert(identical(cell(rs, 0, "x"), a) && identical(cell(rs, 0, "y"), b), "result")
		vf.Assert(len(s.calls) == 2*i+2, "calls")
	}
	once(0, a, b)
	once(1, c, a)
	once(2, b, b)
	assertBoth := func(i, a, b int) {
		for j := 2 * i; j < 2*i+2; j++ {
			if len(s.calls[j]) == 2 && identical(s.calls[j][1], 1) && identical(s.calls[j][0], b) {
				continue
			}
			s.assertCall(j, "again", a, b)
		}
	}
	assertBoth(0, a, b)
	assertBoth(1, c, a)
	assertBoth(2, b, b)
}

// constant arguments: every evaluation is a call
func P29_Constants() {
	n := 0
	g := graphOf(vf.Choice("nodes", 4))
	r := vf.Int("r")
	s := register("spyConst", 0, -1, form(), func(x []interface{}) (oc.Value, error) { n++; return rv(r + n), nil })
	c := []struct {
		text string
		args []interface{}
	}{
		{"spyConst()", nil}, {"spyConst(1)", []interface{}{1}}, {"spyConst(1, 'x', true, null)", []interface{}{1, "x", true, nil}},
		{"spyConst(1 + 2, -3)", []interface{}{3, -3}},
	}[vf.Choice("args", 4)]
	e, err := oc.Parse("match (m) return " + c.text + " as x")
	must(err, "parse")
	for k := 0; k < 2; k++ {
		v, err := e.Evaluate(g.ctx())
		must(err, "error")
		rs := rows(v)
		vf.Assert(len(rs.Rows) == len(g.nodes), "rows")
		for i := range rs.Rows {
			vf.Assert(identical(cell(rs, i, "x"), r+k*len(g.nodes)+i+1), "result")
		}
		vf.Assert(len(s.calls) == (k+1)*len(g.nodes), "calls")
	}
	for i := range s.calls {
		s.assertCall(i, "constant", c.args...)
	}
}

// in updating clauses
func P29_Updates() {
	g, _, q := marked(vf.Choice("nodes", 3))
	want := takeSnap(g.g)
	a := vf.Int("a")
	s := register("spySet", 1, 1, form(), func(x []interface{}) (oc.Value, error) { return rv(x[0].(int) + 1), nil })
	ctx := bind(g.ctx(), a)
	switch vf.Choice("clause", 3) {
	case 0:
		rs := run(ctx, "create (n:A {p: spySet($a)}) return n as n")
		want.newNode(rs[0]["n"], []string{"A"}, props{"p": a + 1}, "n")
		vf.Assert(len(s.calls) == 1, "calls")
		s.assertCall(0, "create", a)
	case 1:
		run(ctx, "match (n) set n.q = spySet(n.q) return n as n")
		for i, n := range g.nodes {
			want.put(n, "q", q[i].v+1)
		}
		vf.Assert(len(s.calls) == len(g.nodes), "calls")
	case 2:
		run(ctx, "match (n) set n += {r: spySet($a)} return n as n")
		for _, n := range g.nodes {
			want.put(n, "r", a+1)
		}
		vf.Assert(len(s.calls) == len(g.nodes), "calls")
	}
	assertSame(g.g, want, "update")
}

// the functions of the library
func P29_BuiltinArity() {
	fs := []struct {
		name     string
		min, max int
	}{
		{"range", 2, 3}, {"labels", 1, 1}, {"timestamp", 0, 0}, {"type", 1, 1}, {"size", 1, 1}, {"toInteger", 1, 1}, {"toIntegerOrNull", 1, 1},
		{"toFloat", 1, 1}, {"toFloatOrNull", 1, 1}, {"left", 2, 2}, {"right", 2, 2}, {"split", 2, 2}, {"trim", 1, 1}, {"ltrim", 1, 1}, {"rtrim", 1, 1},
		{"substring", 2, 3}, {"date", 0, 1}, {"parseDate", 2, 2},
	}
	f := fs[vf.Choice("function", len(fs))]
	k := vf.Choice("args", 5)
	vf.Assume(k < f.min || k > f.max)
	var args []interface{}
	kind := vf.Choice("kind", kDur)
	for i := 0; i < k; i++ {
		args = append(args, value(kind, "arg"+digit(i)))
	}
	_, err := ret(callText(f.name, k), args...)
	vf.Assert(err != nil, "no-error")
	vf.Assert(errors.As(err, new(oc.ErrInvalidFunctionCall)), "error-kind")
}

var _ = vf.Reg("P29_Positions", P29_Positions)

// a call is one invocation wherever it stands
func P29_Positions() {
	g := graphOf(2)
	a, b := vf.Int("a"), vf.Int("b")
	c := []struct {
		q string
		n int
	}{
		{"return case @(1, $a) when 1 then 'x' when 2 then 'y' when 3 then 'z' else 'w' end as x", 1},
		{"return case @(1, $a) when $b then 'x' when $b + 1 then 'y' when $b + 2 then 'z' when 7 then 'v' end as x", 1},
		{"return case when @(1, $a) = $b then 1 else 2 end as x", 1},
		{"return case $a when $a then @(1, $b) when $b then 2 end as x", 1},
		{"return case $a when $a + 1 then 1 when $a + 2 then 2 when $a + 3 then 3 else @(1, $b) end as x", 1},
		{"return @(1, $a) in [1, 2, 3, $b] as x", 1},
		{"return $a in [@(1, 1), @(2, 2), @(3, $b)] as x", 3},
		{"return [1, 2, 3, 4][@(1, 1)] as x", 1},
		{"return [1, 2, 3, 4][@(1, 0)..@(2, 2)] as x", 2},
		{"return @(1, $a) < @(2, $b) as x", 2},
		{"return @(1, $a) is null as x", 1},
		{"return @(1, $a) is not null as x, not @(2, $b) = 1 as y", 2},
		{"return @(1, $a) + @(2, $b) * @(3, 2) - -@(4, 1) as x", 4},
		{"return @(1, 1) ^ @(2, 2) % @(3, 3) as x", 3},
		{"return {k: @(1, $a), l: {m: @(2, $b)}} as x", 2},
		{"return 'abc' starts with toString(@(1, 1)) as x", -1},
		{"return size([@(1, $a), [@(2, $b)]]) as x", 2},
		{"return range(@(1, 1), @(2, 3), @(3, 1)) as x", 3},
		{"return @(1, $a) = 1 xor @(2, $b) = 2 xor @(3, $b) = 3 as x", 3},
		{"match (n) return 1 as x skip @(1, 0) limit @(2, 2)", 2},
		{"return @(1, 1) as x union return @(2, 2) as x union all return @(3, 3) as x", 3},
		{"create (n:A {p: @(1, $a), q: @(2, $b)})-[:R {w: @(3, 1)}]->(:B {p: @(4, 2)})", 4},
	}[vf.Choice("query", 22)]
	if c.n < 0 {
		return
	}
	q := ""
	for i := range c.q {
		if c.q[i] == '@' {
			q += "spyPos"
		} else {
			q += c.q[i : i+1]
		}
	}
	s := register("spyPos", 2, 2, form(), func(x []interface{}) (oc.Value, error) { return rv(x[1]), nil })
	_, err := oc_eval(bind(g.ctx(), a, b), q)
	must(err, "error")
	for i := 1; i <= c.n; i++ {
		n := 0
		for _, x := range s.calls {
			if x[0] == interface{}(i) {
				n++
			}
		}
		vf.Assert(n == 1, "once")
	}
	vf.Assert(len(s.calls) == c.n, "calls")
}
