package h

import (
	"unicode"

	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P37_History", P37_History)
var _ = vf.Reg("P37_Names", P37_Names)

// table is what a result set is expected to hold.
type table struct {
	rows  []map[string]interface{}
	nodes map[*lpg.Node]bool
	edges map[*lpg.Edge]bool
}

func newTable() *table { return &table{nil, map[*lpg.Node]bool{}, map[*lpg.Edge]bool{}} }

func (t *table) row(r map[string]interface{}) {
	t.rows = append(t.rows, r)
	for _, v := range r {
		switch x := v.(type) {
		case *lpg.Node:
			t.nodes[x] = true
		case *lpg.Edge:
			t.edges[x] = true
		case []*lpg.Edge:
			for _, e := range x {
				t.edges[e] = true
			}
		}
	}
}

func sameCell(a, b interface{}) bool {
	switch x := a.(type) {
	case *lpg.Edge:
		y, ok := b.(*lpg.Edge)
		return ok && x == y
	case []*lpg.Edge:
		y, ok := b.([]*lpg.Edge)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if x[i] != y[i] {
				return false
			}
		}
		return true
	}
	return identical(a, b)
}

func (t *table) check(rs *oc.ResultSet, g *G, id string) {
	vf.Assert(len(rs.Rows) == len(t.rows), id+"-rows")
	for i, r := range t.rows {
		vf.Assert(len(rs.Rows[i]) == len(r), id+"-width")
		for k, v := range r {
			c, ok := rs.Rows[i][k]
			vf.Assert(ok && sameCell(c.Get(), v), id+"-cell")
		}
	}
	vf.Assert(rs.Nodes.Len() == len(t.nodes), id+"-nodes")
	for _, n := range g.nodes {
		vf.Assert(rs.Nodes.Has(n) == t.nodes[n], id+"-node")
	}
	vf.Assert(rs.Edges.Len() == len(t.edges), id+"-edges")
	for _, e := range rs.Edges.Slice() {
		vf.Assert(t.edges[e], id+"-edge")
	}
	for _, k := range []string{"a", "b", "1"} {
		col := rs.Column(k)
		n := 0
		for _, r := range t.rows {
			v, ok := r[k]
			if !ok {
				continue
			}
			vf.Assert(n < len(col) && sameCell(col[n].Get(), v), id+"-column-cell")
			n++
		}
		vf.Assert(n == len(col), id+"-column")
	}
}

// any sequence of the operations that fill a result set
func P37_History() {
	g := graphOf(2)
	g.edge(0, 1, "R")
	g.edge(1, 1, "S")
	g.edge(1, 0, "R")
	x := vf.Int("x")
	cells := func(name string) map[string]interface{} {
		r := map[string]interface{}{}
		for _, k := range []string{"a", "b"} {
			switch vf.Choice(name+k, vf.Pick(6, 7)) {
			case 1:
				r[k] = g.nodes[0]
			case 2:
				r[k] = g.edges[0]
			case 3:
				// a list of any length, in any order
				var l []*lpg.Edge
				for n := vf.Choice(name+k+".n", vf.Pick(4, 5)); len(l) < n; {
					l = append(l, g.edges[(len(l)*vf.Pick(1, 2))%len(g.edges)])
				}
				r[k] = l
			case 4:
				r[k] = x
			case 5:
				r[k] = nil
			case 6:
				r[k] = g.nodes[1]
			}
		}
		return r
	}
	vals := func(r map[string]interface{}) map[string]oc.Value {
		m := map[string]oc.Value{}
		for k, v := range r {
			m[k] = rv(v)
		}
		return m
	}
	rs, want := oc.NewResultSet(), newTable()
	var others []*oc.ResultSet
	var tables []*table
	for i := 0; i < vf.Pick(2, 3); i++ {
		n := digit(i)
		switch vf.Choice("op"+n, 4) {
		case 0:
			r := cells("row" + n)
			must(rs.Append(vals(r)), "append")
			want.row(r)
		case 1:
			other, ot := oc.NewResultSet(), newTable()
			r := cells("other" + n)
			must(other.Append(vals(r)), "append")
			ot.row(r)
			other.AddPath(g.nodes[1], nil)
			ot.nodes[g.nodes[1]] = true
			rs.Add(*other)
			want.rows = append(want.rows, r)
			for x := range ot.nodes {
				want.nodes[x] = true
			}
			for x := range ot.edges {
				want.edges[x] = true
			}
			others, tables = append(others, other), append(tables, ot)
		case 2:
			switch vf.Choice("path"+n, 3) {
			case 0:
				rs.AddPath(g.nodes[1], []*lpg.Edge{g.edges[1], g.edges[1]})
				want.nodes[g.nodes[1]], want.edges[g.edges[1]] = true, true
			case 1:
				rs.AddPath(nil, []*lpg.Edge{g.edges[0]})
				want.edges[g.edges[0]] = true
			case 2:
				rs.AddPath(g.nodes[0], nil)
				want.nodes[g.nodes[0]] = true
			}
		case 3:
			other := oc.NewResultSet()
			r := cells("union" + n)
			must(other.Append(vals(r)), "append")
			must(rs.Union(*other, true), "union")
			want.row(r)
			ot := newTable()
			ot.row(r)
			others, tables = append(others, other), append(tables, ot)
		}
		want.check(rs, g, "history")
		// the sets that were added stay as they are
		for j, other := range others {
			tables[j].check(other, g, "other")
		}
	}
	// and adding to one of them does not change the set it was added to
	for _, other := range others {
		other.AddPath(g.nodes[0], []*lpg.Edge{g.edges[0], g.edges[1], g.edges[2]})
		must(other.Append(map[string]oc.Value{"a": rv(g.nodes[1])}), "append")
	}
	want.check(rs, g, "source-changed")
}

// names that do not start with a digit name variables and results
func P37_Names() {
	s := vf.Str("s", 0, 2, "a0_9 $")
	want := len(s) > 0 && !unicode.IsDigit(rune(s[0]))
	vf.Assert(oc.IsNamedVar(s) == want, "variable")
	vf.Assert(oc.IsNamedResult(s) == want, "result")
}
