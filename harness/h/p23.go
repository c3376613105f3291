package h

import (
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P23_Sets", P23_Sets)
var _ = vf.Reg("P23_SetsWide", P23_SetsWide)
var _ = vf.Reg("P23_Four", P23_Four)
var _ = vf.Reg("P23_Columns", P23_Columns)
var _ = vf.Reg("P23_ColumnsStop", P23_ColumnsStop)
var _ = vf.Reg("P23_Empty", P23_Empty)

// combos gives every combination of one index per length; an empty set gives -1
// when all is set, and no combination otherwise.
func combos(lens []int, all bool) [][]int {
	out := [][]int{nil}
	for _, n := range lens {
		var next [][]int
		for _, c := range out {
			if n == 0 && all {
				next = append(next, append(append([]int{}, c...), -1))
			}
			for i := 0; i < n; i++ {
				next = append(next, append(append([]int{}, c...), i))
			}
		}
		out = next
	}
	return out
}

func col(i int) string { return string(rune('a' + i)) }

// product runs the package function over sets of the given sizes and widths.
func product(lens []int, width int, all bool, id string) {
	var sets []oc.ResultSet
	vals := make([][][]int, len(lens))
	for s, n := range lens {
		var rs []row
		for i := 0; i < n; i++ {
			r := row{}
			var v []int
			for w := 0; w < width; w++ {
				v = append(v, vf.Int(col(s)+digit(i)+digit(w)))
				r[col(s)+digit(w)] = v[w]
			}
			// the row number is kept so that combinations can be told apart
			r[col(s)+"#"] = i
			vals[s] = append(vals[s], v)
			rs = append(rs, r)
		}
		sets = append(sets, resultSet(nil, rs))
	}
	want := combos(lens, all)
	calls := make([]int, len(want))
	keep := make([]bool, len(want))
	which := func(m map[string]oc.Value) int {
		for k, c := range want {
			ok := true
			n := 0
			for s, i := range c {
				v, has := m[col(s)+"#"]
				if i < 0 {
					ok = ok && !has
					continue
				}
				n += width + 1
				ok = ok && has && v.Get() == interface{}(i)
			}
			if ok {
				vf.Assert(len(m) == n, id+"-columns")
				for s, i := range c {
					for w := 0; i >= 0 && w < width; w++ {
						x, has := m[col(s)+digit(w)]
						vf.Assert(has, id+"-column-missing")
						vf.Assert(x.Get().(int) == vals[s][i][w], id+"-value")
					}
				}
				return k
			}
		}
		vf.Fail(id + "-not-a-combination")
		return 0
	}
	rs := oc.CartesianProduct(sets, all, func(m map[string]oc.Value) bool {
		k := which(m)
		calls[k]++
		vf.Assert(calls[k] == 1, id+"-visited-again")
		keep[k] = vf.Bool("keep" + digit(k/10) + digit(k%10))
		return keep[k]
	})
	kept := make([]int, len(want))
	for _, r := range rs.Rows {
		kept[which(r)]++
	}
	for k := range want {
		vf.Assert(calls[k] == 1, id+"-not-visited")
		vf.Assert(kept[k] <= 1 && vf.Iff(kept[k] == 1, keep[k]), id+"-kept-iff-accepted")
	}
	// the operands are as they were
	for s, n := range lens {
		vf.Assert(len(sets[s].Rows) == n, id+"-operand-changed")
		for i, r := range sets[s].Rows {
			vf.Assert(len(r) == width+1, id+"-operand-changed")
			for w := 0; w < width; w++ {
				vf.Assert(r[col(s)+digit(w)].Get().(int) == vals[s][i][w], id+"-operand-changed")
			}
		}
	}
}

func P23_Sets() {
	n := 1 + vf.Choice("sets", 3)
	all := vf.Choice("all", 2) == 1
	var lens []int
	size := 1
	for i := 0; i < n; i++ {
		lens = append(lens, vf.Choice("rows"+digit(i), 4))
		size *= lens[i] + 1 - vf.IteInt(lens[i] > 0, 1, 0)
	}
	// each accepted or rejected combination doubles the number of paths
	vf.Assume(size <= vf.Pick(6, 9))
	product(lens, 1, all, "sets")
}

func P23_SetsWide() {
	product([]int{vf.Choice("rows0", 3), vf.Choice("rows1", 3)}, 2, vf.Choice("all", 2) == 1, "wide")
}

// larger products, everything accepted
func P23_Four() {
	lens := []int{vf.Choice("n0", 4), vf.Choice("n1", 4), vf.Choice("n2", 4), vf.Choice("n3", vf.Pick(3, 4))}
	all := vf.Choice("all", 2) == 1
	var sets []oc.ResultSet
	for s, n := range lens {
		var rs []row
		for i := 0; i < n; i++ {
			rs = append(rs, row{col(s): i})
		}
		sets = append(sets, resultSet(nil, rs))
	}
	rs := oc.CartesianProduct(sets, all, func(map[string]oc.Value) bool { return true })
	want := combos(lens, all)
	vf.Assert(len(rs.Rows) == len(want), "four-count")
	seen := map[[4]int]bool{}
	for _, r := range rs.Rows {
		k := [4]int{-1, -1, -1, -1}
		for s := range lens {
			if v, ok := r[col(s)]; ok {
				k[s] = v.Get().(int)
			}
		}
		vf.Assert(!seen[k], "four-repeated")
		seen[k] = true
	}
	for _, c := range want {
		vf.Assert(seen[[4]int{c[0], c[1], c[2], c[3]}], "four-missing")
	}
}

// columns is the product of the columns of one result set.
func columns(rowCount, width int, stop int, id string) {
	var rs []row
	vals := make([][]int, rowCount)
	for i := 0; i < rowCount; i++ {
		r := row{}
		for w := 0; w < width; w++ {
			v := vf.Int(col(w) + digit(i))
			vals[i] = append(vals[i], v)
			r[col(w)] = valueList(rv(i), rv(v))
		}
		rs = append(rs, r)
	}
	set := resultSet(nil, rs)
	lens := make([]int, width)
	for w := range lens {
		lens[w] = rowCount
	}
	want := combos(lens, false)
	if rowCount == 0 || width == 0 {
		want = nil
	}
	calls := make([]int, len(want))
	total := 0
	ended := false
	done := set.CartesianProduct(func(m map[string]oc.Value) bool {
		vf.Assert(!ended, id+"-called-after-stop")
		vf.Assert(len(m) == width, id+"-columns")
		at := -1
		for k, c := range want {
			ok := true
			for w, i := range c {
				cell := m[col(w)].Get().([]oc.Value)
				ok = ok && cell[0].Get() == interface{}(i)
			}
			if ok {
				at = k
				for w, i := range c {
					cell := m[col(w)].Get().([]oc.Value)
					vf.Assert(cell[1].Get().(int) == vals[i][w], id+"-value")
				}
			}
		}
		vf.Assert(at >= 0, id+"-not-a-combination")
		calls[at]++
		vf.Assert(calls[at] == 1, id+"-visited-again")
		if total == stop {
			ended = true
		}
		total++
		return !ended
	})
	vf.Assert(done == !ended, id+"-result")
	if !ended {
		for k := range want {
			vf.Assert(calls[k] == 1, id+"-not-visited")
		}
	} else {
		vf.Assert(total == stop+1, id+"-stopped-late")
	}
}

func P23_Columns() {
	columns(vf.Choice("rows", 4), vf.Choice("width", vf.Pick(4, 5)), -1, "columns")
}

func P23_ColumnsStop() {
	columns(1+vf.Choice("rows", 3), 1+vf.Choice("width", 3), vf.Choice("stop", 28), "stop")
}

// no sets at all
func P23_Empty() {
	n := 0
	rs := oc.CartesianProduct(nil, vf.Choice("all", 2) == 1, func(map[string]oc.Value) bool { n++; return true })
	vf.Assert(n <= 1 && len(rs.Rows) <= 1, "empty")
	vf.Assert(oc.NewResultSet().CartesianProduct(func(map[string]oc.Value) bool { n = 5; return true }), "empty-result")
	vf.Assert(n <= 1, "empty-called")
}
