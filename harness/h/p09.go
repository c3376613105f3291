package h

import (
	"unicode"

	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P09_SplitMany", P09_SplitMany)
var _ = vf.Reg("P09_Predicates", P09_Predicates)
var _ = vf.Reg("P09_PredicatesWhere", P09_PredicatesWhere)
var _ = vf.Reg("P09_LeftRight", P09_LeftRight)
var _ = vf.Reg("P09_Substring", P09_Substring)
var _ = vf.Reg("P09_SubstringASCII", P09_SubstringASCII)
var _ = vf.Reg("P09_Size", P09_Size)
var _ = vf.Reg("P09_Trim", P09_Trim)
var _ = vf.Reg("P09_Split", P09_Split)
var _ = vf.Reg("P09_Concat", P09_Concat)

// at: needle occurs in s at byte offset i.
func at(s, needle string, i int) bool {
	if i < 0 || i+len(needle) > len(s) {
		return false
	}
	return bytesEq(s[i:i+len(needle)], needle)
}

func contains(s, needle string) bool {
	r := false
	for i := 0; i+len(needle) <= len(s); i++ {
		r = vf.Or(r, at(s, needle, i))
	}
	return r
}

func P09_Predicates() {
	s := vf.Str("s", 0, vf.Pick(4, 6), "")
	t := vf.Str("t", 0, vf.Pick(3, 4), "")
	for _, p := range []struct {
		op   string
		want bool
	}{{"starts with", at(s, t, 0)}, {"ends with", at(s, t, len(s)-len(t))}, {"contains", contains(s, t)}} {
		v, err := ret("$a "+p.op+" $b", s, t)
		must(err, "error")
		b, ok := v.(bool)
		vf.Assert(ok, "kind")
		vf.Assert(vf.Iff(b, p.want), p.op)
	}
}

// the predicates on properties, with literal operands
func P09_PredicatesWhere() {
	g := graphOf(2)
	s := []string{vf.Str("s0", 0, 3, ""), vf.Str("s1", 0, 3, "")}
	for i, n := range g.nodes {
		n.SetProperty("p", s[i])
	}
	k := vf.Choice("op", 5)
	where := []string{"n.p starts with 'ab'", "n.p ends with 'ab'", "n.p contains 'ab'", "'ab' starts with n.p", "not (n.p contains 'b')"}[k]
	v, err := oc_eval(g.ctx(), "match (n) where "+where+" return n as n")
	must(err, "error")
	rs := rows(v)
	for i, n := range g.nodes {
		want := false
		switch k {
		case 0:
			want = at(s[i], "ab", 0)
		case 1:
			want = at(s[i], "ab", len(s[i])-2)
		case 2:
			want = contains(s[i], "ab")
		case 3:
			want = at("ab", s[i], 0)
		case 4:
			want = !contains(s[i], "b")
		}
		got := 0
		for j := range rs.Rows {
			if cell(rs, j, "n") == n {
				got++
			}
		}
		vf.Assert(vf.Iff(got == 1, want), "selected")
		vf.Assert(got <= 1, "once")
	}
}

// offsets are the byte offsets at which the characters of s start, and its end.
func offsets(s string) []int {
	var o []int
	for i := range s {
		o = append(o, i)
	}
	return append(o, len(s))
}

func assertStr(v interface{}, want, id string) {
	g, ok := v.(string)
	vf.Assert(ok, id+"-kind")
	vf.Observe(id, g)
	vf.Assert(len(g) == len(want), id+"-length")
	vf.Assert(bytesEq(g, want), id)
}

// text is a string of up to max bytes, any bytes at all.
func text(name string, max int) string { return vf.Str(name, 0, max, "") }

func P09_LeftRight() {
	s := text("s", vf.Pick(3, 4))
	n := vf.Int("n")
	o := offsets(s)
	chars := len(o) - 1
	v, err := ret("left($a, $b)", s, n)
	must(err, "error")
	g, ok := v.(string)
	vf.Assert(ok, "kind")
	k := clip(n, chars)
	m := false
	for i := 0; i <= chars; i++ {
		m = vf.Or(m, vf.And(i == k, len(g) == o[i], bytesEq(g, s[:o[i]])))
	}
	vf.Assert(m, "left")
	v, err = ret("right($a, $b)", s, n)
	must(err, "error")
	g, ok = v.(string)
	vf.Assert(ok, "kind")
	m = false
	for i := 0; i <= chars; i++ {
		m = vf.Or(m, vf.And(i == k, len(g) == len(s)-o[chars-i], bytesEq(g, s[o[chars-i]:])))
	}
	vf.Assert(m, "right")
}

func P09_Substring() {
	s := text("s", vf.Pick(2, 3))
	substringOf(s)
}

// longer texts of ASCII characters
func P09_SubstringASCII() {
	substringOf(vf.Str("s", 0, vf.Pick(5, 9), "\x00-\x7f"))
}

func substringOf(s string) {
	from, n := vf.Int("from"), vf.Int("n")
	vf.Assume(n >= 0)
	vf.Assume(from >= 0)
	o := offsets(s)
	chars := len(o) - 1
	var v interface{}
	var err error
	if vf.Choice("args", 2) == 0 {
		v, err = ret("substring($a, $b)", s, from)
		n = chars
	} else {
		v, err = ret("substring($a, $b, $c)", s, from, n)
	}
	must(err, "error")
	g, ok := v.(string)
	vf.Assert(ok, "kind")
	f := clip(from, chars)
	t := f + clip(n, chars)
	t = clip(t, chars)
	m := false
	for i := 0; i <= chars; i++ {
		for j := i; j <= chars; j++ {
			m = vf.Or(m, vf.And(i == f, j == t, len(g) == o[j]-o[i], bytesEq(g, s[o[i]:o[j]])))
		}
	}
	vf.Assert(m, "substring")
}

func P09_Size() {
	s := text("s", vf.Pick(3, 4))
	v, err := ret("size($a)", s)
	must(err, "error")
	vf.Assert(v == len(offsets(s))-1, "size")
	t := vf.Str("t", 0, 2, "a-z\xc3\xa9")
	v, err = ret("size($a) + size($b)", s, t)
	must(err, "error")
	vf.Assert(v == len(offsets(s))+len(offsets(t))-2, "sum")
}

// runes decodes s.
func runes(s string) []rune {
	var r []rune
	for _, c := range s {
		r = append(r, c)
	}
	return r
}

func P09_Trim() {
	s := text("s", vf.Pick(3, 4))
	o, r := offsets(s), runes(s)
	a, b := 0, len(r)
	for a < len(r) && unicode.IsSpace(r[a]) {
		a++
	}
	for b > a && unicode.IsSpace(r[b-1]) {
		b--
	}
	v, err := ret("trim($a)", s)
	must(err, "error")
	assertStr(v, s[o[a]:o[b]], "trim")
	v, err = ret("ltrim($a)", s)
	must(err, "error")
	assertStr(v, s[o[a]:], "ltrim")
	v, err = ret("rtrim($a)", s)
	must(err, "error")
	e := len(r)
	for e > 0 && unicode.IsSpace(r[e-1]) {
		e--
	}
	assertStr(v, s[:o[e]], "rtrim")
}

func P09_Split() {
	s := text("s", vf.Pick(3, 5))
	d := text("d", 2)
	v, err := ret("split($a, $b)", s, d)
	must(err, "error")
	l, ok := v.([]oc.Value)
	vf.Assert(ok, "kind")
	var pieces []string
	for _, x := range l {
		p, ok := x.Get().(string)
		vf.Assert(ok, "piece-kind")
		pieces = append(pieces, p)
	}
	join := ""
	for i, p := range pieces {
		if i > 0 {
			join += d
		}
		join += p
	}
	vf.Assert(len(join) == len(s), "join-length")
	vf.Assert(bytesEq(join, s), "join")
	if len(d) == 0 {
		// the characters
		vf.Assert(len(pieces) == len(offsets(s))-1, "characters")
		o := offsets(s)
		for i, p := range pieces {
			vf.Assert(len(p) == o[i+1]-o[i], "character")
		}
		return
	}
	vf.Assert(len(pieces) > 0, "no-pieces")
	for i, p := range pieces {
		ext := p
		if i < len(pieces)-1 {
			ext += d
		}
		// the delimiter does not occur earlier
		for k := 0; k < len(p) && k+len(d) <= len(ext); k++ {
			vf.Assert(!at(ext, d, k), "not-leftmost")
		}
	}
}

func P09_Concat() {
	s, t := text("s", 2), text("t", 2)
	v, err := ret("$a + $b", s, t)
	must(err, "error")
	assertStr(v, s+t, "concat")
	v, err = ret("($a + $b) starts with $a", s, t)
	must(err, "error")
	vf.Assert(v == true, "prefix")
	v, err = ret("$a + 'x' + $b", s, t)
	must(err, "error")
	assertStr(v, s+"x"+t, "chain")
}

// many pieces
func P09_SplitMany() {
	s := vf.Str("s", 4, vf.Pick(7, 9), ",a")
	v, err := ret("split($a, ',')", s)
	must(err, "error")
	l, ok := v.([]oc.Value)
	vf.Assert(ok, "kind")
	k := 0
	st := 0
	for i := 0; i <= len(s); i++ {
		if i < len(s) && s[i] != ',' {
			continue
		}
		vf.Assert(k < len(l), "piece-missing")
		p, ok := l[k].Get().(string)
		vf.Assert(ok && p == s[st:i], "piece")
		st = i + 1
		k++
	}
	vf.Assert(k == len(l), "pieces")
}
