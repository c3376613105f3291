package h

import (
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P17_Values", P17_Values)
var _ = vf.Reg("P17_Rows", P17_Rows)
var _ = vf.Reg("P17_Columns", P17_Columns)
var _ = vf.Reg("P17_Parts", P17_Parts)
var _ = vf.Reg("P17_Matches", P17_Matches)
var _ = vf.Reg("P17_Mixed", P17_Mixed)
var _ = vf.Reg("P17_Nested", P17_Nested)

// equal is the reference for sameness of two values: null is the same as null,
// numbers are the same when they are numerically equal, containers when their
// contents are, and elements of the graph when they are identical.
func equal(a, b interface{}) bool {
	if a == nil || b == nil {
		return a == nil && b == nil
	}
	switch x := a.(type) {
	case int:
		switch y := b.(type) {
		case int:
			return x == y
		case float64:
			return float64(x) == y
		}
		return false
	case float64:
		switch y := b.(type) {
		case int:
			return x == float64(y)
		case float64:
			return x == y
		}
		return false
	case []oc.Value:
		y, ok := b.([]oc.Value)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for i := range x {
			r = vf.And(r, equal(x[i].Get(), y[i].Get()))
		}
		return r
	case map[string]oc.Value:
		y, ok := b.(map[string]oc.Value)
		if !ok || len(x) != len(y) {
			return false
		}
		r := true
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				return false
			}
			r = vf.And(r, equal(v.Get(), w.Get()))
		}
		return r
	}
	return identical(a, b)
}

type row map[string]interface{}

func sameRow(a, b row) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for k, v := range a {
		w, ok := b[k]
		if !ok {
			return false
		}
		r = vf.And(r, equal(v, w))
	}
	return r
}

func rowsOf(rs oc.ResultSet) []row {
	var out []row
	for _, r := range rs.Rows {
		x := row{}
		for k, v := range r {
			x[k] = v.Get()
		}
		out = append(out, x)
	}
	return out
}

func oneOf(x row, all []row) int {
	n := 0
	for _, y := range all {
		n += vf.IteInt(sameRow(x, y), 1, 0)
	}
	return n
}

// assertUnion asserts that got is the union of the parts.
func assertUnion(got []row, all bool, parts [][]row, id string) {
	var flat []row
	for _, p := range parts {
		flat = append(flat, p...)
	}
	if all {
		vf.Assert(len(got) == len(flat), id+"-all-count")
		for i := range got {
			vf.Assert(len(got[i]) == len(flat[i]), id+"-all-width")
			for k, v := range flat[i] {
				w, ok := got[i][k]
				vf.Assert(ok, id+"-all-column")
				vf.Assert(identical(v, w), id+"-all-value")
			}
		}
		return
	}
	for _, x := range flat {
		vf.Assert(oneOf(x, got) == 1, id+"-exactly-once")
	}
	for _, x := range got {
		vf.Assert(oneOf(x, flat) >= 1, id+"-invented")
	}
}

func resultSet(cols []string, rs []row) oc.ResultSet {
	out := *oc.NewResultSet()
	out.Cols = cols
	for _, r := range rs {
		x := map[string]oc.Value{}
		for k, v := range r {
			x[k] = rv(v)
		}
		out.Append(x)
	}
	return out
}

// the library's Union over single-column parts, with values of every kind
func P17_Values() {
	all := vf.Choice("all", 2) == 1
	other := []int{kInt, kFloat, kStr, kBool, kDur, kDate, kList, kMap}[vf.Choice("kind", 8)]
	mixed := other == kInt && vf.Choice("mixed", 2) == 1
	n := 0
	part := func(max int) []row {
		var out []row
		for k := vf.Choice("rows"+digit(n), max+1); len(out) < k; n++ {
			k := other
			switch vf.Choice("k"+digit(n), 3) {
			case 1:
				k = kNull
			case 2:
				if other == kInt {
					vf.Assume(mixed)
					k = kFloat
				}
				if other == kFloat {
					k = kStr
				}
				if other > kFloat {
					vf.Assume(false)
				}
			}
			v := value(k, "v"+digit(n))
			if f, ok := v.(float64); ok {
				vf.Assume(!isNaN(f))
				// numbers large enough to lose precision are not transitively equal
				vf.Assume(vf.And(f < 1<<53, f > -(1<<53)))
			}
			if other == kInt && k == kInt {
				// integers that meet floats are small
				vf.Assume(vf.Or(!mixed, vf.And(v.(int) < 1000, v.(int) > -1000)))
			}
			out = append(out, row{"x": v})
		}
		return out
	}
	a, b := part(vf.Pick(2, 2)), part(vf.Pick(1, 2))
	r := resultSet([]string{"x"}, a)
	must(r.Union(resultSet([]string{"x"}, b), all), "error")
	assertUnion(rowsOf(r), all, [][]row{a, b}, "values")
	vf.Assert(len(r.Cols) == 1 && r.Cols[0] == "x", "columns")
}

// rows of two columns are compared as a whole
func P17_Rows() {
	all := vf.Choice("all", 2) == 1
	na, nb := vf.Choice("na", 3), vf.Choice("nb", 3)
	vf.Assume(na+nb <= vf.Pick(3, 4))
	var rs []row
	for i := 0; i < na+nb; i++ {
		r := row{"x": vf.Int("x" + digit(i)), "y": interface{}(nil)}
		if vf.Choice("y"+digit(i), 2) == 1 {
			r["y"] = vf.Int("y" + digit(i))
		}
		rs = append(rs, r)
	}
	c := []string{"x", "y"}
	r := resultSet(c, rs[:na])
	must(r.Union(resultSet(c, rs[na:]), all), "error")
	assertUnion(rowsOf(r), all, [][]row{rs[:na], rs[na:]}, "rows")
}

// parts with other columns: rows of different shape are never the same
func P17_Columns() {
	all := vf.Choice("all", 2) == 1
	cols := [][]string{{"x"}, {"y"}, {"x", "y"}, {"y", "x"}, {}}
	var parts [][]row
	var sets []oc.ResultSet
	for p := 0; p < 2; p++ {
		c := cols[vf.Choice("cols"+digit(p), len(cols))]
		var rs []row
		for i := vf.Choice("rows"+digit(p), vf.Pick(3-p, 3)); i > 0; i-- {
			r := row{}
			for j, k := range c {
				r[k] = vf.Int(k + digit(p) + digit(i))
				// a null is not the same as no column
				if j == len(c)-1 && vf.Choice("null"+digit(p)+digit(i), 2) == 1 {
					r[k] = nil
				}
			}
			rs = append(rs, r)
		}
		parts = append(parts, rs)
		sets = append(sets, resultSet(c, rs))
	}
	// a part without rows may be entirely empty
	if vf.Choice("empty", 2) == 1 {
		vf.Assume(len(parts[0]) == 0)
		sets[0] = oc.ResultSet{}
		sets[0] = *oc.NewResultSet()
	}
	must(sets[0].Union(sets[1], all), "error")
	assertUnion(rowsOf(sets[0]), all, parts, "columns")
}

// queries of two or three parts
func P17_Parts() {
	n := 2 + vf.Choice("parts", 2)
	all := vf.Choice("all", 2) == 1
	op := " union "
	if all {
		op = " union all "
	}
	ctx := newCtx()
	q := ""
	var parts [][]row
	for i := 0; i < n; i++ {
		r := row{}
		for j, c := range []string{"x", "y"} {
			name := c + digit(i)
			k := []int{kInt, kNull, kStr}[vf.Choice("k"+name, 3-j)]
			if j == 1 && k == kInt {
				k = kBool
			}
			r[c] = value(k, name)
			ctx.SetParameter("$"+name, rv(r[c]))
		}
		if i > 0 {
			q += op
		}
		q += "return $x" + digit(i) + " as x, $y" + digit(i) + " as y"
		parts = append(parts, []row{r})
	}
	v, err := oc_eval(ctx, q)
	must(err, "error")
	rs := rows(v)
	vf.Assert(len(rs.Cols) == 2 && rs.Cols[0] == "x" && rs.Cols[1] == "y", "columns")
	assertUnion(rowsOf(rs), all, parts, "parts")
}

// parts that read the graph, each in its own scope
func P17_Matches() {
	g := graphOf(2)
	g.symLabels([]string{"A"}, []string{"B"}, []string{"A", "B"})
	p := []int{vf.Int("p0"), vf.Int("p1")}
	for i, n := range g.nodes {
		n.SetProperty("p", p[i])
	}
	all := vf.Choice("all", 2) == 1
	op := " union "
	if all {
		op = " union all "
	}
	c := []string{"n", "n.p"}[vf.Choice("value", 2)]
	part := func(l string) []row {
		var out []row
		for i, n := range g.nodes {
			if labelsOf(n)[l] {
				if c == "n" {
					out = append(out, row{"x": n})
				} else {
					out = append(out, row{"x": p[i]})
				}
			}
		}
		return out
	}
	v, err := oc_eval(g.ctx(), "match (n:A) return "+c+" as x"+op+"match (n:B) return "+c+" as x"+op+"match (n:A) return "+c+" as x")
	must(err, "error")
	assertUnion(rowsOf(rows(v)), all, [][]row{part("A"), part("B"), part("A")}, "matches")
}

// UNION and UNION ALL combine from the left
func P17_Mixed() {
	var p []row
	ctx := newCtx()
	for i := 0; i < 3; i++ {
		x := vf.Int("x" + digit(i))
		p = append(p, row{"x": x})
		ctx.SetParameter("$x"+digit(i), rv(x))
	}
	if vf.Choice("order", 2) == 0 {
		v, err := oc_eval(ctx, "return $x0 as x union all return $x1 as x union return $x2 as x")
		must(err, "error")
		assertUnion(rowsOf(rows(v)), false, [][]row{p}, "distinct-last")
		return
	}
	v, err := oc_eval(ctx, "return $x0 as x union return $x1 as x union all return $x2 as x")
	must(err, "error")
	got := rowsOf(rows(v))
	vf.Assert(len(got) >= 2, "all-last-count")
	assertUnion(got[:len(got)-1], false, [][]row{p[:2]}, "all-last")
	vf.Assert(sameRow(got[len(got)-1], p[2]), "all-last-row")
}

// lists, maps and lists of lists
func P17_Nested() {
	ctx := newCtx()
	cell := func(i int) interface{} {
		a := value([]int{kInt, kNull}[vf.Choice("k"+digit(i), 2)], "v"+digit(i))
		switch vf.Choice("shape"+digit(i), 6) {
		case 0:
			return valueList(rv(a))
		case 1:
			return valueList(rv(a), rv(vf.Int("w"+digit(i))))
		case 2:
			return map[string]oc.Value{"k": rv(a)}
		case 3:
			return map[string]oc.Value{"k": rv(a), "l": rv(vf.Int("w" + digit(i)))}
		case 4:
			return valueList(rv(valueList(rv(a))))
		}
		return map[string]oc.Value{"l": rv(a)}
	}
	var parts [][]row
	for i := 0; i < 2; i++ {
		x := cell(i)
		parts = append(parts, []row{{"x": x}})
		ctx.SetParameter("$x"+digit(i), rv(x))
	}
	v, err := oc_eval(ctx, "return $x0 as x union return $x1 as x")
	must(err, "error")
	assertUnion(rowsOf(rows(v)), false, parts, "nested")
}
