package h

import "verif/harness/vf"

var _ = vf.Reg("P10_Numbers", P10_Numbers)
var _ = vf.Reg("P10_IntStrings", P10_IntStrings)
var _ = vf.Reg("P10_LongStrings", P10_LongStrings)
var _ = vf.Reg("P10_FloatStrings", P10_FloatStrings)
var _ = vf.Reg("P10_Kinds", P10_Kinds)

func P10_Numbers() {
	i, f := vf.Int("i"), vf.Float("f")
	sfx := []string{"", "OrNull"}[vf.Choice("variant", 2)]
	v, err := ret("toInteger"+sfx+"($a)", i)
	must(err, "error")
	assertNum(v, i, "int-to-int")
	v, err = ret("toFloat"+sfx+"($a)", f)
	must(err, "error")
	assertNum(v, f, "float-to-float")
	v, err = ret("toFloat"+sfx+"($a)", i)
	must(err, "error")
	assertNum(v, float64(i), "int-to-float")
	// conversion of a float outside the range of the integers is not defined
	vf.Assume(vf.And(f > -9223372036854775808.0, f < 9223372036854775807.0))
	v, err = ret("toInteger"+sfx+"($a)", f)
	must(err, "error")
	assertNum(v, int(f), "float-to-int")
	b := vf.Bool("b")
	v, err = ret("toInteger"+sfx+"($a)", b)
	must(err, "error")
	assertNum(v, vf.IteInt(b, 1, 0), "bool-to-int")
}

// intOf is the number a decimal string of at most 18 digits denotes.
func intOf(s string) (int, bool) {
	neg := false
	if len(s) > 0 && (s[0] == '+' || s[0] == '-') {
		neg = s[0] == '-'
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = n*10 + int(s[i]-'0')
	}
	return vf.IteInt(neg, -n, n), true
}

func P10_IntStrings() {
	s := vf.Str("s", 0, vf.Pick(4, 6), "")
	w, ok := intOf(s)
	v, err := ret("toIntegerOrNull($a)", s)
	must(err, "ornull-error")
	if ok {
		assertNum(v, w, "ornull")
	} else {
		vf.Assert(v == nil, "ornull-not-null")
	}
	v, err = ret("toInteger($a)", s)
	if !ok {
		vf.Assert(err != nil, "accepted")
		return
	}
	must(err, "rejected")
	assertNum(v, w, "value")
}

// around the limits of 64-bit integers
func P10_LongStrings() {
	sign := []string{"", "-", "+"}[vf.Choice("sign", 3)]
	last := vf.Str("last", 1, 1, "0-9")
	extra := []string{"", "0"}[vf.Choice("extra", 2)]
	s := sign + "922337203685477580" + last + extra
	v, err := ret("toInteger($a)", s)
	o, oerr := ret("toIntegerOrNull($a)", s)
	must(oerr, "ornull-error")
	d := int(last[0] - '0')
	fits := extra == "" && (d <= 7 || d == 8 && sign == "-")
	vf.Assert(vf.Iff(err == nil, fits), "range")
	if !fits {
		vf.Assert(o == nil, "ornull-out-of-range")
		return
	}
	w := 9223372036854775800 + d
	if sign == "-" {
		w = -9223372036854775800 - d
	}
	assertNum(v, w, "value")
	assertNum(o, w, "ornull")
}

// decimal strings with a point
func P10_FloatStrings() {
	s := vf.Str("s", 0, vf.Pick(3, 4), "+-.0-9 z")
	t := s
	neg := false
	if len(t) > 0 && (t[0] == '+' || t[0] == '-') {
		neg = t[0] == '-'
		t = t[1:]
	}
	ok, digits, point := true, 0, false
	m, scale := uint64(0), 1
	for i := 0; i < len(t); i++ {
		switch {
		case t[i] == '.' && !point:
			point = true
		case t[i] >= '0' && t[i] <= '9':
			digits++
			m = m*10 + uint64(t[i]-'0')
			if point {
				scale *= 10
			}
		default:
			ok = false
		}
		if !ok {
			break
		}
	}
	ok = ok && digits > 0
	v, err := ret("toFloatOrNull($a)", s)
	must(err, "ornull-error")
	w := float64(m) / float64(scale)
	w = vf.IteFloat(neg, -w, w)
	if ok {
		assertNum(v, w, "ornull")
	} else {
		vf.Assert(v == nil, "ornull-not-null")
	}
	v, err = ret("toFloat($a)", s)
	if !ok {
		vf.Assert(err != nil, "accepted")
		return
	}
	must(err, "rejected")
	assertNum(v, w, "value")
}

// other kinds are rejected by toInteger and toFloat, and give null in the OrNull variants
func P10_Kinds() {
	k := 1 + vf.Choice("kind", nKinds-1)
	if k == kInt || k == kFloat || k == kStr {
		return
	}
	x := value(k, "x")
	v, err := ret("toFloatOrNull($a)", x)
	must(err, "ornull-error")
	vf.Assert(v == nil, "float-ornull")
	_, err = ret("toFloat($a)", x)
	vf.Assert(err != nil, "float-accepted")
	if k == kBool {
		return
	}
	v, err = ret("toIntegerOrNull($a)", x)
	must(err, "ornull-error")
	vf.Assert(v == nil, "int-ornull")
	_, err = ret("toInteger($a)", x)
	vf.Assert(err != nil, "int-accepted")
}
