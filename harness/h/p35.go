package h

import (
	"time"

	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P35_Strings", P35_Strings)
var _ = vf.Reg("P35_Invalid", P35_Invalid)
var _ = vf.Reg("P35_Maps", P35_Maps)
var _ = vf.Reg("P35_Conversions", P35_Conversions)
var _ = vf.Reg("P35_Kinds", P35_Kinds)

func leap(y int) bool { return y%4 == 0 && (y%100 != 0 || y%400 == 0) }

func daysOf(y, m int) int {
	switch m {
	case 4, 6, 9, 11:
		return 30
	case 2:
		if leap(y) {
			return 29
		}
		return 28
	}
	return 31
}

func assertDate(v interface{}, y, m, d int, id string) {
	x, ok := v.(oc.Date)
	vf.Assert(ok, id+"-kind")
	vf.Assert(sameInstant(x.Time(), time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)), id+"-day")
}

func dec(v, n int) string {
	b := make([]byte, n)
	for i := n - 1; i >= 0; i-- {
		b[i] = byte('0' + v%10)
		v /= 10
	}
	return string(b)
}

func val(s string) int {
	n := 0
	for i := 0; i < len(s); i++ {
		n = n*10 + int(s[i]-'0')
	}
	return n
}

const decimal = "0123456789"

// every spelling of a date: the year, month and day it names, or an error when
// there is no such day
func P35_Strings() {
	ys := []string{"2015", "2000", "1900", "2024", "0001", "9999"}[vf.Choice("year", 6)]
	ms := vf.Str("m", 1, 2, decimal)
	ds := vf.Str("d", 1, 2, decimal)
	y, m, d := val(ys), 1, 1
	var s string
	switch vf.Choice("form", 5) {
	case 0:
		s, m, d = ys+"-"+ms+"-"+ds, val(ms), val(ds)
	case 1:
		vf.Assume(len(ms) == 2 && len(ds) == 2)
		s, m, d = ys+ms+ds, val(ms), val(ds)
	case 2:
		s, m = ys+"-"+ms, val(ms)
	case 3:
		vf.Assume(len(ms) == 2)
		s, m = ys+ms, val(ms)
	case 4:
		s = ys
		if vf.Choice("any", 2) == 1 {
			ys = vf.Str("y", 4, 4, decimal)
			s, y = ys, val(ys)
		}
	}
	v, err := ret("date($a)", s)
	if vf.And(m >= 1, m <= 12) && vf.And(d >= 1, d <= daysOf(y, m)) {
		must(err, "rejected")
		assertDate(v, y, m, d, "string")
	} else {
		vf.Assert(err != nil, "accepted")
	}
}

// other texts are errors
func P35_Invalid() {
	s := vf.Str("s", 0, vf.Pick(4, 6), "09-/ T")
	n := 0
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		n++
	}
	if n >= 4 {
		return // see above
	}
	_, err := ret("date($a)", s)
	vf.Assert(err != nil, "accepted")
	_, err = ret("date($a)", "2015-07-21"+vf.Str("tail", 1, 1, "0-T zZ"))
	vf.Assert(err != nil, "tail-accepted")
}

// changing is a zone that is five hours behind UTC, and four hours from midnight of
// 2024-03-10 on, when clocks go forward; or the same in the other direction.
func changing(back bool) *time.Location {
	be := func(x int) string { return string([]byte{byte(x >> 24), byte(x >> 16), byte(x >> 8), byte(x)}) }
	a, b, at := -18000, -14400, 1710046800
	if back {
		a, b, at = 18000, 14400, 1710010800
	}
	data := "TZif" + string(make([]byte, 16)) + be(0) + be(0) + be(0) + be(1) + be(2) + be(8) + be(at) + "\x01" + be(a) + "\x00\x00" + be(b) + "\x01\x04" + "AAA\x00BBB\x00"
	l, err := time.LoadLocationFromTZData("changing", []byte(data))
	must(err, "zone")
	return l
}

func P35_Maps() {
	y := vf.IntRange("y", -200, 4000)
	m := vf.IntRange("m", 1, 12)
	d := vf.IntRange("d", 1, 31)
	vf.Assume(d <= daysOf(y, m))
	ctx := bind(newCtx(), y, m, d)
	switch vf.Choice("form", 9) {
	case 0:
		v, err := oc_eval(ctx, "return date({year: $a, month: $b, day: $c})")
		must(err, "error")
		assertDate(single(v), y, m, d, "ymd")
	case 1:
		v, err := oc_eval(ctx, "return date({day: $c, year: $a, month: $b, other: 'x'})")
		must(err, "error")
		assertDate(single(v), y, m, d, "dym")
	case 2:
		v, err := oc_eval(ctx, "return date({year: $a, month: $b})")
		must(err, "error")
		assertDate(single(v), y, m, 1, "ym")
	case 3:
		v, err := oc_eval(ctx, "return date({year: $a})")
		must(err, "error")
		assertDate(single(v), y, 1, 1, "y")
	case 4:
		v, err := oc_eval(ctx, []string{"return date({year: null, month: $b})", "return date({year: $a, month: null, day: $c})", "return date({year: $a, month: $b, day: null})", "return date(null)"}[vf.Choice("null", 4)])
		must(err, "error")
		vf.Assert(single(v) == nil, "null")
	case 5:
		_, err := oc_eval(ctx, []string{"return date({year: 'x'})", "return date({year: $a, month: true})", "return date({year: $a, month: $b, day: [1]})", "return date({month: $b, day: $c})", "return date({})", "return date({timezone: 5})", "return date({year: 1.5})"}[vf.Choice("bad", 7)])
		vf.Assert(err != nil, "accepted")
	case 6: // the same day in the order of dates
		vf.Assume(d < 28)
		v, err := oc_eval(ctx, "return date({year: $a, month: $b, day: $c}) < date({year: $a, month: $b, day: $c + 1})")
		must(err, "error")
		vf.Assert(single(v) == interface{}(true), "order")
	case 7: // any local day, in a zone whose clocks change at midnight
		y, m = 2023+vf.Choice("year", 3), 1+vf.Choice("month", 12)
		vf.Assume(d <= daysOf(y, m))
		ctx = bind(newCtx(), y, m, d)
		old := time.Local
		time.Local = changing(vf.Choice("zone", 2) == 1)
		v, err := oc_eval(ctx, "return date({year: $a, month: $b, day: $c})")
		time.Local = old
		must(err, "error")
		assertDate(single(v), y, m, d, "change")
	case 8: // the local day, when no zone is asked for
		day := [][3]int{{2024, 2, 29}, {1999, 12, 31}, {2001, 1, 1}, {1, 1, 1}}[vf.Choice("day", 4)]
		y, m, d = day[0], day[1], day[2]
		ctx = bind(newCtx(), y, m, d)
		old := time.Local
		time.Local = time.FixedZone("x", []int{-36000, 0, 50400}[vf.Choice("zone", 3)])
		v, err := oc_eval(ctx, "return date({year: $a, month: $b, day: $c})")
		time.Local = old
		must(err, "error")
		assertDate(single(v), y, m, d, "zone")
	}
}

// conversions from Go times keep the civil fields that the kind has
func P35_Conversions() {
	off := []int{0, -36000, 19800, 50400}[vf.Choice("zone", 4)]
	zone := time.FixedZone("z", off)
	day := [][3]int{{2024, 2, 28}, {1999, 12, 31}, {2001, 1, 1}, {1, 1, 1}, {2100, 3, 1}}[vf.Choice("day", 5)]
	y, m, d := day[0], day[1], day[2]
	h, mi, s, ns := vf.IntRange("h", 0, 23), vf.IntRange("mi", 0, 59), vf.IntRange("s", 0, 59), vf.IntRange("ns", 0, 999999999)
	t := time.Date(y, time.Month(m), d, h, mi, s, ns, zone)
	switch vf.Choice("kind", 3) {
	case 0:
		x := oc.NewDate(t).Time()
		vf.Assert(sameInstant(x, time.Date(y, time.Month(m), d, 0, 0, 0, 0, time.UTC)), "date")
	case 1:
		x := oc.NewLocalTime(t).Time()
		vf.Assert(sameInstant(x, time.Date(0, 0, 0, h, mi, s, ns, time.Local)), "local-time")
	case 2:
		x := oc.NewLocalDateTime(t).Time()
		vf.Assert(sameInstant(x, time.Date(y, time.Month(m), d, h, mi, s, ns, time.Local)), "local-date-time")
	}
}

// date() of anything else is an error
func P35_Kinds() {
	k := []int{kInt, kFloat, kBool, kDur, kDate, kTime, kDateTime, kList, kNode, kPath, kSet}[vf.Choice("kind", 11)]
	_, err := ret("date($a)", value(k, "a"))
	vf.Assert(err != nil, "accepted")
}
