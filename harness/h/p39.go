package h

import (
	"time"

	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P39_Seconds", P39_Seconds)
var _ = vf.Reg("P39_Fractions", P39_Fractions)
var _ = vf.Reg("P39_Components", P39_Components)
var _ = vf.Reg("P39_Computed", P39_Computed)
var _ = vf.Reg("P39_Times", P39_Times)
var _ = vf.Reg("P39_Dates", P39_Dates)
var _ = vf.Reg("P39_Values", P39_Values)
var _ = vf.Reg("P39_Lists", P39_Lists)

// readInt reads a decimal integer with an optional sign from the beginning of s.
func readInt(s string) (v, n int, neg, ok bool) {
	if n < len(s) && s[n] == '-' {
		neg = true
		n++
	}
	st := n
	for n < len(s) && s[n] >= '0' && s[n] <= '9' {
		v = v*10 + int(s[n]-'0')
		n++
	}
	if neg {
		v = -v
	}
	return v, n, neg, n > st
}

// readDuration reads P<months>M<days>DT<seconds>[.<fraction>]S; the fraction has
// the sign of the seconds.
func readDuration(s string) (m, d, sec, nanos int, ok bool) {
	field := func(before, after byte) int {
		if len(s) == 0 || s[0] != before {
			ok = false
			return 0
		}
		v, n, _, k := readInt(s[1:])
		s = s[1+n:]
		ok = ok && k && len(s) > 0 && s[0] == after
		return v
	}
	ok = true
	m = field('P', 'M')
	d = field('M', 'D')
	if len(s) < 3 || s[0] != 'D' || s[1] != 'T' {
		return m, d, 0, 0, false
	}
	sec, n, neg, k := readInt(s[2:])
	s = s[2+n:]
	ok = ok && k
	if len(s) > 0 && s[0] == '.' {
		f := 1
		for s = s[1:]; len(s) > 0 && s[0] >= '0' && s[0] <= '9'; s = s[1:] {
			nanos = nanos*10 + int(s[0]-'0')
			f *= 10
		}
		if f == 1 || f > 1000000000 {
			return m, d, 0, 0, false
		}
		nanos *= 1000000000 / f
		if neg {
			nanos = -nanos
		}
	}
	return m, d, sec, nanos, ok && s == "S"
}

// assertSpells: the text spells the same months and days, and the same time to the nanosecond.
func assertSpells(d oc.Duration, id string) {
	m, dd, s, n, ok := readDuration(d.String())
	vf.Assert(ok, id+"-form")
	vf.Assert(m == int(d.Months), id+"-months")
	vf.Assert(dd == int(d.Days), id+"-days")
	vf.Assert((s-int(d.Seconds))*1000000000 == d.Nanos-n, id+"-time")
}

// any number of seconds with fractions of every sign and size
func P39_Seconds() {
	s := vf.IntRange("s", -vf.Pick(200, 100000), vf.Pick(200, 100000))
	n := []int{0, 1, -1, 500000000, -500000000, 999999999, -999999999, 1000000000, -1000000000, 1500000000, -2500000001}[vf.Choice("nanos", 11)]
	assertSpells(oc.Duration{Seconds: int64(s), Nanos: n}, "seconds")
}

// any fraction next to a zero, positive or negative number of seconds
func P39_Fractions() {
	s := []int{0, 1, -1, 59, -60}[vf.Choice("s", vf.Pick(3, 5))]
	n := vf.IntRange("n", -vf.Pick(1010000000, 4000000000), vf.Pick(1010000000, 4000000000))
	assertSpells(oc.Duration{Seconds: int64(s), Nanos: n}, "fraction")
}

// the other components
func P39_Components() {
	m, d := vf.IntRange("m", -1500, 1500), vf.IntRange("d", -1500, 1500)
	if vf.Choice("which", 2) == 0 {
		m = []int{0, -1, 12}[vf.Choice("m", 3)]
	} else {
		d = []int{0, -1, 30}[vf.Choice("d", 3)]
	}
	assertSpells(oc.Duration{Months: int64(m), Days: int64(d), Seconds: 3}, "components")
}

// durations that a query computes
func P39_Computed() {
	n := vf.IntRange("n", -vf.Pick(5, 30), vf.Pick(5, 30))
	d := oc.Duration{Months: 1, Days: -2, Seconds: int64(vf.Choice("s", 3) - 1), Nanos: 300000000}
	e := oc.Duration{Seconds: 1, Nanos: 900000000}
	x, err := ret([]string{"$a * $b", "$a - $c", "$a + $c + $c", "$c - $a - $a"}[vf.Choice("expr", 4)], d, n, e)
	must(err, "error")
	y, ok := x.(oc.Duration)
	vf.Assert(ok, "duration")
	assertSpells(y, "computed")
}

func two(s string) int { return int(s[0]-'0')*10 + int(s[1]-'0') }

// local times, and the time of local date-times
func P39_Times() {
	h, mi, s := vf.IntRange("h", 0, 23), vf.IntRange("mi", 0, 59), vf.IntRange("s", 0, 59)
	t := time.Date(1999, 12, 31, h, mi, s, vf.IntRange("ns", 0, 999999999), time.UTC)
	txt := ""
	switch vf.Choice("kind", 3) {
	case 0:
		txt = oc.NewLocalTime(t).String()
	case 2:
		// in its own zone
		z := oc.LocalDateTime(time.Date(1999, 12, 31, h, mi, s, 0, time.FixedZone("z", []int{-36000, 50400}[vf.Choice("zone", 2)])))
		if txt = z.String(); vf.Choice("time", 2) == 1 {
			txt = "1999-12-31T" + oc.LocalTime(z).String()
		}
		vf.Assert(len(txt) == 19 && txt[:11] == "1999-12-31T", "day")
		txt = txt[11:]
	default:
		txt = oc.NewLocalDateTime(t).String()
		vf.Assert(len(txt) == 19 && txt[:11] == "1999-12-31T", "day")
		txt = txt[11:]
	}
	vf.Assert(len(txt) >= 8 && txt[2] == ':' && txt[5] == ':', "form")
	vf.Assert(two(txt) == h, "hours")
	vf.Assert(two(txt[3:]) == mi, "minutes")
	vf.Assert(two(txt[6:]) == s, "seconds")
}

// the text of a date is read back as the same date
func P39_Dates() {
	y := []int{0, 999, 1970, 2024, 9999, 1, 1969, 2000, 2023}[vf.Choice("y", vf.Pick(5, 9))]
	m := []int{1, 2, 9, 12, 3, 10}[vf.Choice("m", vf.Pick(4, 6))]
	d := []int{1, 9, 10, 28}[vf.Choice("d", 4)]
	h := vf.IntRange("h", 0, 23)
	dt := oc.NewDate(time.Date(y, time.Month(m), d, h, 30, 0, 0, time.UTC))
	s := dt.String()
	// the day is that of its own zone
	zoned := oc.Date(time.Date(y, time.Month(m), d, h, 30, 0, 0, time.FixedZone("z", []int{-36000, 50400}[vf.Choice("zone", 2)])))
	vf.Assert(zoned.String() == s, "zone")
	vf.Assert(len(s) == 10 && s[4] == '-' && s[7] == '-', "form")
	vf.Assert(two(s)*100+two(s[2:]) == y && two(s[5:]) == m && two(s[8:]) == d, "fields")
	x, err := ret("date($a)", s)
	must(err, "error")
	z, ok := x.(oc.Date)
	vf.Assert(ok && z.Time().Equal(dt.Time()), "round-trip")
}

// primitive values: null, booleans, integers and strings
func P39_Values() {
	switch vf.Choice("kind", 5) {
	case 0:
		vf.Assert(rv(nil).String() == "null", "null")
	case 1:
		b := vf.Bool("b")
		vf.Assert(vf.Iff(b, rv(b).String() == "true"), "true")
		vf.Assert(vf.Iff(!b, rv(b).String() == "false"), "false")
	case 2:
		i := vf.IntRange("i", -vf.Pick(20000, 2000000), vf.Pick(20000, 2000000))
		s := rv(i).String()
		v, n, _, ok := readInt(s)
		vf.Assert(ok && n == len(s), "integer-form")
		vf.Assert(v == i, "integer")
		vf.Assert(len(s) == 1 || s[0] != '0', "integer-zeros")
	case 3:
		s := vf.Str("s", 0, 3, "")
		vf.Assert(rv(s).String() == s, "string")
	case 4:
		d := oc.Duration{Days: int64(vf.IntRange("d", -9, 9)), Seconds: 5}
		vf.Assert(rv(d).String() == d.String(), "duration")
	}
}

// lists are the texts of their elements in order
func P39_Lists() {
	var l []oc.Value
	want := "["
	n := vf.Choice("n", 4)
	for i := 0; i < n; i++ {
		var x interface{}
		switch vf.Choice("kind"+digit(i), 4) {
		case 1:
			x = vf.IntRange("i"+digit(i), -12, 12)
		case 2:
			x = vf.Str("s"+digit(i), 0, 1, "ab ")
		case 3:
			x = valueList(rv(true), rv(nil))
		}
		if i > 0 {
			want += " "
		}
		want += rv(x).String()
		l = append(l, rv(x))
	}
	vf.Assert(rv(l).String() == want+"]", "list")
}
