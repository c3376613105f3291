package h

import (
	"time"

	oc "github.com/cloudprivacylabs/opencypher"
	"verif/harness/vf"
)

var _ = vf.Reg("P11_Long", P11_Long)
var _ = vf.Reg("P11_DurationAdd", P11_DurationAdd)
var _ = vf.Reg("P11_DurationScale", P11_DurationScale)
var _ = vf.Reg("P11_DurationFloat", P11_DurationFloat)
var _ = vf.Reg("P11_DateMonths", P11_DateMonths)
var _ = vf.Reg("P11_LocalTime", P11_LocalTime)
var _ = vf.Reg("P11_LocalDateTime", P11_LocalDateTime)
var _ = vf.Reg("P11_Undefined", P11_Undefined)
var _ = vf.Reg("P11_DateDays", P11_DateDays)

func assertDuration(v interface{}, w oc.Duration, id string) {
	d, ok := v.(oc.Duration)
	vf.Assert(ok, id+"-kind")
	vf.Assert(d.Months == w.Months, id+"-months")
	vf.Assert(d.Days == w.Days, id+"-days")
	vf.Assert(d.Seconds == w.Seconds, id+"-seconds")
	vf.Assert(d.Nanos == w.Nanos, id+"-nanos")
}

func addDur(a, b oc.Duration, s int) oc.Duration {
	return oc.Duration{Months: a.Months + int64(s)*b.Months, Days: a.Days + int64(s)*b.Days, Seconds: a.Seconds + int64(s)*b.Seconds, Nanos: a.Nanos + s*b.Nanos}
}

func P11_DurationAdd() {
	a, b, c := duration("a"), duration("b"), duration("c")
	v, err := ret("$a + $b", a, b)
	must(err, "error")
	assertDuration(v, addDur(a, b, 1), "plus")
	v, err = ret("$a - $b", a, b)
	must(err, "error")
	assertDuration(v, addDur(a, b, -1), "minus")
	v, err = ret("$a - $b + $c", a, b, c)
	must(err, "error")
	assertDuration(v, addDur(addDur(a, b, -1), c, 1), "chain")
	v, err = ret("$a - ($b - $c)", a, b, c)
	must(err, "error")
	assertDuration(v, addDur(a, addDur(b, c, -1), -1), "grouped")
}

func P11_DurationScale() {
	a := duration("a")
	k := vf.Int("k")
	n := int64(k)
	switch vf.Choice("form", 3) {
	case 0:
		v, err := ret("$a * $b", a, k)
		must(err, "error")
		assertDuration(v, oc.Duration{Months: a.Months * n, Days: a.Days * n, Seconds: a.Seconds * n, Nanos: a.Nanos * k}, "times")
	case 1:
		v, err := ret("$b * $a", a, k)
		must(err, "error")
		assertDuration(v, oc.Duration{Months: a.Months * n, Days: a.Days * n, Seconds: a.Seconds * n, Nanos: a.Nanos * k}, "times-left")
	case 2:
		v, err := ret("$a / $b", a, k)
		if err != nil {
			vf.Assert(k == 0, "error")
			return
		}
		vf.Assert(k != 0, "division-by-zero")
		assertDuration(v, oc.Duration{Months: a.Months / n, Days: a.Days / n, Seconds: a.Seconds / n, Nanos: a.Nanos / k}, "divided")
	}
}

func P11_DurationFloat() {
	a := duration("a")
	k := vf.Float("k")
	switch vf.Choice("form", 3) {
	case 0:
		v, err := ret("$a * $b", a, k)
		must(err, "error")
		assertDuration(v, oc.Duration{Months: int64(float64(a.Months) * k), Days: int64(float64(a.Days) * k), Seconds: int64(float64(a.Seconds) * k), Nanos: int(float64(a.Nanos) * k)}, "times")
	case 1:
		v, err := ret("$b * $a", a, k)
		must(err, "error")
		assertDuration(v, oc.Duration{Months: int64(float64(a.Months) * k), Days: int64(float64(a.Days) * k), Seconds: int64(float64(a.Seconds) * k), Nanos: int(float64(a.Nanos) * k)}, "times-left")
	case 2:
		v, err := ret("$a / $b", a, k)
		if err != nil {
			vf.Assert(k == 0, "error")
			return
		}
		vf.Assert(k != 0, "division-by-zero")
		assertDuration(v, oc.Duration{Months: int64(float64(a.Months) / k), Days: int64(float64(a.Days) / k), Seconds: int64(float64(a.Seconds) / k), Nanos: int(float64(a.Nanos) / k)}, "divided")
	}
}

// dates is the number of days since 1970 of the base dates, about 270 years.
func symDate(name string) oc.Date {
	return oc.NewDate(time.Unix(86400*int64(vf.IntRange(name, -50000, 50000)), 0).UTC())
}

func sameInstant(a, b time.Time) bool {
	return vf.And(a.Unix() == b.Unix(), a.Nanosecond() == b.Nanosecond())
}

// forms of moving a temporal value by a duration, with the steps made
func moved(t interface{}, d oc.Duration) (interface{}, []int, error) {
	switch vf.Choice("form", 4) {
	case 0:
		v, err := ret("$a + $b", t, d)
		return v, []int{1}, err
	case 1:
		v, err := ret("$b + $a", t, d)
		return v, []int{1}, err
	case 2:
		v, err := ret("$a - $b", t, d)
		return v, []int{-1}, err
	}
	v, err := ret("$a - $b + $b - $b", t, d)
	return v, []int{-1, 1, -1}, err
}

func total(steps []int) int {
	n := 0
	for _, s := range steps {
		n += s
	}
	return n
}

// a date moved by days and by months
func P11_DateDays() {
	base := symDate("base")
	d := oc.Duration{Days: int64(vf.IntRange("days", -1000000, 1000000)), Seconds: int64(vf.Int("s")), Nanos: vf.Int("n")}
	v, steps, err := moved(base, d)
	must(err, "error")
	r, ok := v.(oc.Date)
	vf.Assert(ok, "kind")
	vf.Assert(r.Time().Unix() == base.Time().Unix()+int64(total(steps))*d.Days*86400, "days")
	vf.Assert(r.Time().Nanosecond() == 0, "time-of-day")
}

func P11_DateMonths() {
	base := symDate("base")
	m, n := vf.IntRange("months", -1000, 1000), vf.IntRange("days", -1000, 1000)
	d := oc.Duration{Months: int64(m), Days: int64(n)}
	v, steps, err := moved(base, d)
	must(err, "error")
	r, ok := v.(oc.Date)
	vf.Assert(ok, "kind")
	t := base.Time()
	for _, sign := range steps {
		t = time.Date(t.Year(), t.Month()+time.Month(sign*m), t.Day()+sign*n, 0, 0, 0, 0, time.UTC)
	}
	vf.Assert(sameInstant(r.Time(), t), "moved")
}

// a local time wraps around midnight
func P11_LocalTime() {
	s, n := vf.IntRange("base.s", 0, 86399), vf.IntRange("base.n", 0, 999999999)
	base := oc.NewLocalTime(time.Unix(int64(s), int64(n)).UTC())
	ds, dn := vf.IntRange("s", -1000000, 1000000), vf.IntRange("n", -5000000000, 5000000000)
	d := oc.Duration{Months: int64(vf.Int("m")), Days: int64(vf.Int("d")), Seconds: int64(ds), Nanos: dn}
	v, steps, err := moved(base, d)
	must(err, "error")
	r, ok := v.(oc.LocalTime)
	vf.Assert(ok, "kind")
	sign := total(steps)
	w := time.Date(1970, 1, 1, 0, 0, s+sign*ds, n+sign*dn, time.UTC)
	t := r.Time()
	vf.Assert(t.Nanosecond() == w.Nanosecond(), "nanos")
	vf.Assert(vf.And(t.Hour() == w.Hour(), t.Minute() == w.Minute(), t.Second() == w.Second()), "time-of-day")
}

// a date-time is moved by every component
func P11_LocalDateTime() {
	s, n := vf.IntRange("base.s", -4000000000, 4000000000), vf.IntRange("base.n", 0, 999999999)
	base := oc.NewLocalDateTime(time.Unix(int64(s), int64(n)).UTC())
	m, dd, ds, dn := 0, vf.IntRange("d", -1000, 1000), vf.IntRange("s", -1000000, 1000000), vf.IntRange("n", -5000000000, 5000000000)
	if vf.Choice("months", 2) == 1 {
		m = vf.IntRange("m", -100, 100)
	}
	d := oc.Duration{Months: int64(m), Days: int64(dd), Seconds: int64(ds), Nanos: dn}
	v, steps, err := moved(base, d)
	must(err, "error")
	r, ok := v.(oc.LocalDateTime)
	vf.Assert(ok, "kind")
	t := base.Time()
	for _, sign := range steps {
		t = time.Date(t.Year(), t.Month()+time.Month(sign*m), t.Day()+sign*dd, t.Hour(), t.Minute(), t.Second()+sign*ds, t.Nanosecond()+sign*dn, time.UTC)
	}
	vf.Assert(sameInstant(r.Time(), t), "moved")
}

// a duration cannot absorb the subtraction of a temporal value, and two
// temporal values are not added
func P11_Undefined() {
	a, d := temporal("a"), duration("d")
	_, err := ret("$b - $a", a, d)
	vf.Assert(err != nil, "duration-minus-temporal")
	b := temporal("b")
	_, err = ret("$a + $b", a, b)
	vf.Assert(err != nil, "temporal-plus-temporal")
	_, err = ret("$b + $b - $a + $b", a, d)
	vf.Assert(err != nil, "in-chain")
	_, err = ret("$b - ($b - $a)", a, d)
	vf.Assert(err != nil, "grouped")
}

func temporal(name string) interface{} {
	switch vf.Choice(name+".kind", 3) {
	case 0:
		return symDate(name)
	case 1:
		return oc.NewLocalTime(time.Unix(int64(vf.IntRange(name+".s", 0, 86399)), int64(vf.IntRange(name+".n", 0, 999999999))).UTC())
	}
	return oc.NewLocalDateTime(time.Unix(int64(vf.IntRange(name+".s", -4000000000, 4000000000)), int64(vf.IntRange(name+".n", 0, 999999999))).UTC())
}

// durations of centuries
func P11_Long() {
	long := vf.IntRange("long", -20000000000, 20000000000)
	d := oc.Duration{Seconds: int64(long)}
	at := time.Date(2021, 2, 3, 10, 20, 30, 400, time.UTC)
	local := vf.Choice("kind", 2) == 0
	var base interface{} = oc.NewLocalDateTime(at)
	if local {
		base = oc.NewLocalTime(at)
	}
	form := vf.Choice("form", 3)
	v, err := ret([]string{"$a + $b", "$a - $b", "$b + $a"}[form], base, d)
	must(err, "error")
	if form == 1 {
		long = -long
	}
	w := time.Date(2021, 2, 3, 10, 20, 30+long, 400, time.UTC)
	if local {
		r, ok := v.(oc.LocalTime)
		vf.Assert(ok, "kind")
		t := r.Time()
		vf.Assert(vf.And(t.Hour() == w.Hour(), t.Minute() == w.Minute(), t.Second() == w.Second()), "time-of-day")
		return
	}
	r, ok := v.(oc.LocalDateTime)
	vf.Assert(ok, "kind")
	vf.Assert(sameInstant(r.Time(), w), "moved-far")
}
