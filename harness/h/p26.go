package h

import (
	"github.com/cloudprivacylabs/lpg/v2"
	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P26_Escape", P26_Escape)
var _ = vf.Reg("P26_EscapeUnicode", P26_EscapeUnicode)
var _ = vf.Reg("P26_EscapeTwo", P26_EscapeTwo)
var _ = vf.Reg("P26_Sequences", P26_Sequences)
var _ = vf.Reg("P26_CodePoint", P26_CodePoint)
var _ = vf.Reg("P26_LongCodePoint", P26_LongCodePoint)
var _ = vf.Reg("P26_Plain", P26_Plain)
var _ = vf.Reg("P26_Labels", P26_Labels)
var _ = vf.Reg("P26_Keys", P26_Keys)
var _ = vf.Reg("P26_Quoted", P26_Quoted)
var _ = vf.Reg("P26_Repeats", P26_Repeats)

const ascii = "\x00-\x7f"

func assertText(v interface{}, want, id string) {
	s, ok := v.(string)
	vf.Assert(ok, id+"-kind")
	vf.Observe(id, s)
	vf.Assert(bytesEq(s, want), id)
}

// the escaped text of any string is a literal denoting it
func P26_Escape() {
	s := vf.Str("s", 0, vf.Pick(4, 6), ascii)
	v, err := ret(oc.EscapeStringLiteral(s))
	must(err, "error")
	assertText(v, s, "escape")
}

// with characters of several bytes around
func P26_EscapeUnicode() {
	wide := []string{"é", "日", "😀", "\u2028", "\ufffd", "\u00ad"}
	w := wide[vf.Choice("wide", len(wide))]
	s := vf.Str("s", 0, vf.Pick(2, 3), ascii) + w + vf.Str("t", 0, vf.Pick(1, 2), ascii)
	v, err := ret(oc.EscapeStringLiteral(s))
	must(err, "error")
	assertText(v, s, "unicode")
}

// two literals next to each other
func P26_EscapeTwo() {
	s, t := vf.Str("s", 0, vf.Pick(2, 3), ascii), vf.Str("t", 0, vf.Pick(2, 3), ascii)
	v, err := ret("[" + oc.EscapeStringLiteral(s) + ", " + oc.EscapeStringLiteral(t) + "]")
	must(err, "error")
	l, ok := v.([]oc.Value)
	vf.Assert(ok && len(l) == 2, "two-list")
	assertText(l[0].Get(), s, "two-first")
	assertText(l[1].Get(), t, "two-second")
}

// the escape sequences of the language, in both kinds of quotes
func P26_Sequences() {
	q := []string{"'", "\""}[vf.Choice("quote", 2)]
	seqs := []struct{ text, is string }{
		{`\b`, "\b"}, {`\B`, "\b"}, {`\f`, "\f"}, {`\F`, "\f"}, {`\n`, "\n"}, {`\N`, "\n"}, {`\r`, "\r"}, {`\R`, "\r"},
		{`\t`, "\t"}, {`\T`, "\t"}, {`\\`, "\\"}, {`\'`, "'"}, {`\"`, "\""}, {`\u0041`, "A"}, {`\u00e9`, "é"}, {`\u65E5`, "日"}, {`\U0001F600`, "😀"},
	}
	a, b := seqs[vf.Choice("first", len(seqs))], seqs[vf.Choice("second", len(seqs))]
	if vf.Choice("one", 2) == 1 {
		b.text, b.is = "", ""
	}
	x := vf.Str("x", 0, 1, "a-zA-Z0-9 +$")
	v, err := ret(q + a.text + x + b.text + q)
	must(err, "error")
	assertText(v, a.is+x+b.is, "sequence")
}

func hexDigit(b byte) int {
	return vf.IteInt(b <= '9', int(b)-'0', vf.IteInt(b <= 'F', int(b)-'A'+10, int(b)-'a'+10))
}

// utf8At is the byte at i of the encoding of the code point, which has n bytes.
func utf8At(c, i, n int) int {
	switch n {
	case 1:
		return c
	case 2:
		return []int{0xc0 | c>>6, 0x80 | c&0x3f}[i]
	case 3:
		return []int{0xe0 | c>>12, 0x80 | c>>6&0x3f, 0x80 | c&0x3f}[i]
	}
	return []int{0xf0 | c>>18, 0x80 | c>>12&0x3f, 0x80 | c>>6&0x3f, 0x80 | c&0x3f}[i]
}

func assertCode(v interface{}, code int, after, id string) {
	s, ok := v.(string)
	vf.Assert(ok, id+"-kind")
	n := len(s) - len(after)
	vf.Assert(vf.And(vf.Iff(n == 1, code < 0x80), vf.Iff(n == 2, vf.And(code >= 0x80, code < 0x800)), vf.Iff(n == 3, vf.And(code >= 0x800, code < 0x10000)), vf.Iff(n == 4, code >= 0x10000)), id+"-length")
	for i := 0; i < n; i++ {
		vf.Assert(int(s[i]) == utf8At(code, i, n), id)
	}
	vf.Assert(bytesEq(s[n:], after), id+"-rest")
}

// \uXXXX with any digits
func P26_CodePoint() {
	d := vf.Str("d", 4, 4, "0-9a-fA-F")
	code := hexDigit(d[0])<<12 | hexDigit(d[1])<<8 | hexDigit(d[2])<<4 | hexDigit(d[3])
	vf.Assume(vf.Or(code < 0xd800, code > 0xdfff))
	after := []string{"", "x", "0"}[vf.Choice("after", 3)]
	v, err := ret(`'\u` + d + after + "'")
	must(err, "error")
	assertCode(v, code, after, "code")
}

// \UXXXXXXXX with any digits of a code point
func P26_LongCodePoint() {
	d := vf.Str("d", 6, 6, "0-9a-fA-F")
	code := 0
	for i := 0; i < len(d); i++ {
		code = code<<4 | hexDigit(d[i])
	}
	vf.Assume(vf.And(vf.Or(code < 0xd800, code > 0xdfff), code <= 0x10ffff))
	after := []string{"", "x", "0"}[vf.Choice("after", 3)]
	v, err := ret("\"\\U00" + d + after + "\"")
	must(err, "error")
	assertCode(v, code, after, "long")
}

// characters without a backslash stand for themselves
func P26_Plain() {
	s := vf.Str("s", 0, vf.Pick(6, 10), ascii)
	single := vf.Choice("single", 2) == 1
	for i := 0; i < len(s); i++ {
		vf.Assume(s[i] != '\\')
		if single {
			vf.Assume(s[i] != '\'')
		} else {
			vf.Assume(s[i] != '"')
		}
	}
	q := "\""
	if single {
		q = "'"
	}
	v, err := ret(q + s + q)
	must(err, "error")
	assertText(v, s, "plain")
}

// escaped names denote the name
func P26_Labels() {
	s := []string{"", "é", "日本"}[vf.Choice("wide", 3)] + vf.Str("s", 1, vf.Pick(2, 3), ascii)
	g := graphOf(0)
	_, err := oc_eval(g.ctx(), "create (n:"+oc.EscapeLabelLiteral(s)+")-[:"+oc.EscapeLabelLiteral(s)+"]->(m)")
	must(err, "error")
	for it := g.g.GetNodes(); it.Next(); {
		l := it.Node().GetLabels()
		if l.Len() == 0 {
			continue
		}
		vf.Assert(l.Len() == 1, "label-count")
		assertText(l.Slice()[0], s, "label")
		for e := it.Node().GetEdges(lpg.OutgoingEdge); e.Next(); {
			assertText(e.Edge().GetLabel(), s, "type")
		}
	}
	vf.Assert(g.g.NumNodes() == 2 && g.g.NumEdges() == 1, "created")
}

func P26_Keys() {
	s := []string{"", "é", "日本"}[vf.Choice("wide", 3)] + vf.Str("s", 1, vf.Pick(2, 3), ascii)
	a := vf.Int("a")
	g := graphOf(0)
	k := oc.EscapePropertyKeyLiteral(s)
	v, err := oc_eval(bind(g.ctx(), a), "create (n {"+k+": $a}) set n."+k+" = n."+k+" + 1 return n."+k+" as x, n as n")
	must(err, "error")
	rs := rows(v)
	vf.Assert(identical(cell(rs, 0, "x"), a+1), "read")
	c := 0
	cell(rs, 0, "n").(*lpg.Node).ForEachProperty(func(key string, v interface{}) bool {
		c++
		assertText(key, s, "key")
		vf.Assert(identical(native(v), a+1), "stored")
		return true
	})
	vf.Assert(c == 1, "key-count")
}

// names with any number of quotes and backslashes, anywhere
func P26_Quoted() {
	s := vf.Str("s", 1, vf.Pick(4, 6), "`'\"\\a")
	g := graphOf(0)
	k, l := oc.EscapePropertyKeyLiteral(s), oc.EscapeLabelLiteral(s)
	a := vf.Int("a")
	v, err := oc_eval(bind(g.ctx(), a), "create (n:"+l+" {"+k+": $a})-[:"+l+"]->(m:B:"+l+") return n as n, n."+k+" as x")
	must(err, "error")
	rs := rows(v)
	vf.Assert(identical(cell(rs, 0, "x"), a), "quoted-read")
	n := cell(rs, 0, "n").(*lpg.Node)
	vf.Assert(n.GetLabels().Len() == 1, "quoted-labels")
	assertText(n.GetLabels().Slice()[0], s, "quoted-label")
	n.ForEachProperty(func(key string, v interface{}) bool {
		assertText(key, s, "quoted-key")
		return true
	})
	for e := n.GetEdges(lpg.OutgoingEdge); e.Next(); {
		assertText(e.Edge().GetLabel(), s, "quoted-type")
		vf.Assert(e.Edge().GetTo().GetLabels().Len() == 2, "quoted-second")
	}
}

// strings with any number of characters that need escaping
func P26_Repeats() {
	s := vf.Str("s", 1, vf.Pick(6, 9), "\\'\"\nu")
	v, err := ret(oc.EscapeStringLiteral(s))
	must(err, "error")
	assertText(v, s, "repeats")
}
