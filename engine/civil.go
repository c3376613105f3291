package main

// Civil calendar model. Package time turns seconds into dates with chains of
// divisions that no bit-vector solver unravels for symbolic instants. The
// functions below are replaced, for symbolic arguments only, by uninterpreted
// functions for the calendar (day -> month -> year, month -> first day) tied
// together by their defining inequalities, with sums kept in linear normal
// form. Candidate models are checked against the native functions, so a
// counterexample is always one of the real calendar. Concrete arguments go
// through package time itself.

import (
	"go/token"
	"math/big"
	"math/bits"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b < 0 {
		q--
	}
	return q
}

func init() {
	s := func(f func(int64) int64) func([]uint64) uint64 {
		return func(a []uint64) uint64 { return uint64(f(int64(a[0]))) }
	}
	ufNative["uf_civD"] = s(func(z int64) int64 { return floorDiv(z, 86400) })
	ufNative["uf_civW"] = s(func(d int64) int64 {
		if d > 1<<36 || d < -1<<36 {
			return 0
		}
		t := time.Unix(d*86400, 0).UTC()
		return int64(t.Year())*12 + int64(t.Month()) - 1
	})
	ufNative["uf_civY"] = s(func(w int64) int64 { return floorDiv(w, 12) })
	ufNative["uf_civM"] = s(func(w int64) int64 {
		if w > 1<<36 || w < -1<<36 {
			return 0
		}
		return floorDiv(time.Date(int(floorDiv(w, 12)), time.Month(w-12*floorDiv(w, 12)+1), 1, 0, 0, 0, 0, time.UTC).Unix(), 86400)
	})
	ufNative["uf_hh"] = s(func(x int64) int64 { return floorDiv(x, 3600) })
	ufNative["uf_mm"] = s(func(x int64) int64 { return floorDiv(x, 60) })
	ufNative["uf_nn"] = s(func(x int64) int64 { return floorDiv(x, 1000000000) })
}

// linear forms over 64-bit words

type linForm struct {
	c     uint64
	coeff map[*Term]uint64
}

func (it *Interp) lin(t *Term) linForm {
	l := linForm{coeff: map[*Term]uint64{}}
	var add func(t *Term, k uint64)
	add = func(t *Term, k uint64) {
		switch {
		case t.op == OConst:
			l.c += k * t.val
		case t.op == OAdd:
			add(t.args[0], k)
			add(t.args[1], k)
		case t.op == OSub:
			add(t.args[0], k)
			add(t.args[1], -k)
		case t.op == ONeg:
			add(t.args[0], -k)
		case t.op == OMul && t.args[0].op == OConst:
			add(t.args[1], k*t.args[0].val)
		case t.op == OMul && t.args[1].op == OConst:
			add(t.args[0], k*t.args[1].val)
		default:
			if n := l.coeff[t] + k; n == 0 {
				delete(l.coeff, t)
			} else {
				l.coeff[t] = n
			}
		}
	}
	add(t, 1)
	return l
}

func (it *Interp) unlin(l linForm) *Term {
	var ts []*Term
	for t := range l.coeff {
		ts = append(ts, t)
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	r := it.tt.BV(l.c, 64)
	for _, t := range ts {
		m := t
		if k := l.coeff[t]; k != 1 {
			m = it.tt.Mk(OMul, bv(64), it.tt.BV(k, 64), t)
		}
		if r.isConst() && r.val == 0 {
			r = m
		} else {
			r = it.tt.Mk(OAdd, bv(64), r, m)
		}
	}
	return r
}

func (it *Interp) canonLin(t *Term) *Term { return it.unlin(it.lin(t)) }

// sum builds the linear normal form of k0*t0 + k1*t1 + ...
func (it *Interp) sum(ts ...any) *Term {
	r := it.tt.BV(0, 64)
	for i := 0; i < len(ts); i += 2 {
		k := uint64(int64(ts[i].(int)))
		r = it.tt.Mk(OAdd, bv(64), r, it.tt.Mk(OMul, bv(64), it.tt.BV(k, 64), ts[i+1].(*Term)))
	}
	return it.canonLin(r)
}

func (it *Interp) between(t *Term, lo, hi int64) *Term {
	return it.tt.And(it.tt.Mk(OSle, sBool, it.tt.BV(uint64(lo), 64), t), it.tt.Mk(OSle, sBool, t, it.tt.BV(uint64(hi), 64)))
}

// axiom records a fact about the calendar functions.
func (it *Interp) axiom(c *Term) {
	if !c.isConst() {
		it.addPC(it.path, c)
	}
}

// within records lo <= t <= hi.
func (it *Interp) within(t *Term, lo, hi int64) {
	if t.isConst() {
		return
	}
	a, b := it.ival(t)
	if a >= lo && b <= hi {
		return
	}
	it.axiom(it.between(t, lo, hi))
	it.bound(t, lo, hi)
}

func (it *Interp) bound(t *Term, lo, hi int64) {
	if it.path.bnd == nil {
		it.path.bnd = map[int][2]int64{}
	}
	if o, ok := it.path.bnd[t.id]; ok {
		lo, hi = max(lo, o[0]), min(hi, o[1])
	}
	it.path.bnd[t.id] = [2]int64{lo, hi}
}

const ivMin, ivMax = -1 << 63, 1<<63 - 1

// ival bounds the signed value of t from the recorded bounds.
func (it *Interp) ival(t *Term) (lo, hi int64) {
	w := t.sort.W
	if t.sort.K != 'v' || w > 64 {
		return ivMin, ivMax
	}
	if t.isConst() {
		v := sext(t.val, w)
		return v, v
	}
	lo, hi = ivMin, ivMax
	if w < 64 {
		lo, hi = -1<<(w-1), 1<<(w-1)-1
	}
	if len(it.path.bnd) == 0 {
		return
	}
	if b, ok := it.path.bnd[t.id]; ok {
		lo, hi = b[0], b[1]
	}
	switch t.op {
	case OSext:
		a, b := it.ival(t.args[0])
		lo, hi = max(lo, a), min(hi, b)
	case OZext:
		a, b := it.ival(t.args[0])
		if a < 0 {
			a, b = 0, int64(mask(t.args[0].sort.W)>>0)
		}
		lo, hi = max(lo, a), min(hi, b)
	case OBAnd:
		if c := t.args[0]; c.isConst() && sext(c.val, w) >= 0 {
			lo, hi = max(lo, 0), min(hi, int64(c.val))
		} else if c := t.args[1]; c.isConst() && sext(c.val, w) >= 0 {
			lo, hi = max(lo, 0), min(hi, int64(c.val))
		}
	case OAdd, OSub, OMul, ONeg:
		if w != 64 {
			return
		}
		l := it.lin(t)
		a, b := big.NewInt(int64(l.c)), big.NewInt(int64(l.c))
		for x, k := range l.coeff {
			if x == t {
				return
			}
			xl, xh := it.ival(x)
			if int64(k) < 0 {
				xl, xh = xh, xl
			}
			a.Add(a, new(big.Int).Mul(big.NewInt(int64(k)), big.NewInt(xl)))
			b.Add(b, new(big.Int).Mul(big.NewInt(int64(k)), big.NewInt(xh)))
		}
		if a.IsInt64() && b.IsInt64() {
			lo, hi = max(lo, a.Int64()), min(hi, b.Int64())
		}
	}
	return
}

// ivDecide settles comparisons that the recorded bounds determine.
func (it *Interp) ivDecide(c *Term) (v, ok bool) {
	if it.path == nil || len(it.path.bnd) == 0 {
		return
	}
	switch c.op {
	case OConst:
		return c.val == 1, true
	case ONot:
		v, ok = it.ivDecide(c.args[0])
		return !v, ok
	case OAnd, OOr:
		a, ok1 := it.ivDecide(c.args[0])
		b, ok2 := it.ivDecide(c.args[1])
		if ok1 && ok2 {
			return c.op == OAnd && a && b || c.op == OOr && (a || b), true
		}
		if ok1 && a == (c.op == OOr) || ok2 && b == (c.op == OOr) {
			return c.op == OOr, true
		}
	case OSle, OSlt, OUle, OUlt, OEq:
		if c.args[0].sort.K != 'v' {
			return
		}
		al, ah := it.ival(c.args[0])
		bl, bh := it.ival(c.args[1])
		if (c.op == OUle || c.op == OUlt) && (al < 0 || bl < 0) {
			return
		}
		switch c.op {
		case OSle, OUle:
			if ah <= bl {
				return true, true
			}
			if al > bh {
				return false, true
			}
		case OSlt, OUlt:
			if ah < bl {
				return true, true
			}
			if al >= bh {
				return false, true
			}
		case OEq:
			if ah < bl || al > bh {
				return false, true
			}
		}
	}
	return false, false
}

// ivSimp drops masks and truncations that the recorded bounds make idle.
func (it *Interp) ivSimp(t *Term) *Term {
	if it.path == nil || len(it.path.bnd) == 0 || t.isConst() {
		return t
	}
	switch t.op {
	case OBAnd:
		x, c := t.args[0], t.args[1]
		if x.isConst() {
			x, c = c, x
		}
		if !c.isConst() {
			return t
		}
		lo, hi := it.ival(x)
		if lo < 0 {
			return t
		}
		if c.val&(c.val+1) == 0 && uint64(hi) <= c.val {
			return x
		}
		if n := bits.TrailingZeros64(c.val); n == 64 || uint64(hi)>>n == 0 {
			return it.tt.BV(0, int(t.sort.W))
		}
	case OSext, OZext:
		// extension of a truncation
		x := t.args[0]
		if x.op == OExtract && x.b == 0 && x.args[0].sort == t.sort {
			lo, hi := it.ival(x.args[0])
			w := x.sort.W
			if t.op == OSext && lo >= -1<<(w-1) && hi < 1<<(w-1) || t.op == OZext && lo >= 0 && uint64(hi) <= mask(w) {
				return x.args[0]
			}
		}
	}
	return t
}

// small insists that a symbolic component stays clear of overflow, where the
// model does not follow the implementation of package time.
func (it *Interp) small(t *Term) {
	if t.isConst() {
		return
	}
	if !it.decide(it.between(t, -(1<<44), 1<<44), token.NoPos) {
		it.unsupported("calendar computation beyond 2^44")
	}
	it.bound(t, -(1 << 44), 1<<44)
}

func (it *Interp) uf(name string, t *Term) *Term { return it.tt.MkAB(OUF, bv(64), 0, 0, name, t) }

// divide returns the floor quotient of t by n as a calendar function.
func (it *Interp) divide(t *Term, n int64, uf string) *Term {
	if t.isConst() {
		return it.tt.BV(uint64(floorDiv(int64(t.val), n)), 64)
	}
	// t = n*q + r with r provably a remainder
	l := it.lin(t)
	q := linForm{coeff: map[*Term]uint64{}, c: uint64(floorDiv(int64(l.c), n))}
	r := linForm{coeff: map[*Term]uint64{}, c: l.c - q.c*uint64(n)}
	for a, k := range l.coeff {
		if int64(k)%n == 0 {
			q.coeff[a] = uint64(int64(k) / n)
		} else {
			r.coeff[a] = k
		}
	}
	if len(q.coeff) > 0 || q.c != 0 {
		rt := it.unlin(r)
		if lo, hi := it.ival(rt); lo >= 0 && hi < n {
			return it.unlin(q)
		}
		if len(r.coeff) > 0 {
			// floor((n*q+r)/n) = q + floor(r/n)
			return it.sum(1, it.unlin(q), 1, it.divide(rt, n, uf))
		}
	}
	lo, hi := it.ival(t)
	if floorDiv(lo, n) == floorDiv(hi, n) {
		return it.tt.BV(uint64(floorDiv(lo, n)), 64)
	}
	d := it.uf(uf, t)
	it.within(it.sum(1, t, int(-n), d), 0, n-1)
	it.within(d, floorDiv(lo, n), floorDiv(hi, n))
	return d
}

// monotone applies a monotone calendar function.
func (it *Interp) monotone(uf string, t *Term) *Term {
	lo, hi := it.ival(t)
	r := it.uf(uf, t)
	f := func(x int64) int64 { return int64(ufNative[uf]([]uint64{uint64(max(-1<<36, min(x, 1<<36)))})) }
	if lo >= -1<<36 && hi <= 1<<36 {
		it.within(r, f(lo), f(hi))
	} else {
		it.within(r, -(1 << 50), 1<<50)
	}
	return r
}

// monthStart returns the first day of month w, counted from year 0.
func (it *Interp) monthStart(w *Term) *Term { return it.monotone("uf_civM", w) }

func (it *Interp) civilDay(z *Term) *Term { return it.divide(z, 86400, "uf_civD") }

// civilDate returns year, month 1..12 and day 1..31.
func (it *Interp) civilDate(z *Term) (y, m, d *Term) {
	day := it.civilDay(z)
	w := it.monotone("uf_civW", day)
	y = it.divide(w, 12, "uf_civY")
	m = it.sum(1, w, -12, y, 1, it.tt.BV(1, 64))
	it.within(m, 1, 12)
	d = it.sum(1, day, -1, it.monthStart(w), 1, it.tt.BV(1, 64))
	it.within(d, 1, 31)
	return
}

func (it *Interp) civilClock(z *Term) (h, m, s *Term) {
	x := it.sum(1, z, -86400, it.civilDay(z))
	it.within(x, 0, 86399)
	h = it.divide(x, 3600, "uf_hh")
	it.within(h, 0, 23)
	r := it.sum(1, x, -3600, h)
	it.within(r, 0, 3599)
	m = it.divide(r, 60, "uf_mm")
	it.within(m, 0, 59)
	s = it.sum(1, r, -60, m)
	it.within(s, 0, 59)
	return
}

func initCivil() {
	civil := func(name string, f func(it *Interp, z *Term) Val) {
		intrinsics["(time.Time)."+name] = func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
			p := it.P.pkgs["time"]
			st, ok := a[0].(Struct)
			if !ok {
				return nil, false
			}
			_, s0 := st[0].(*Term)
			_, s1 := st[1].(*Term)
			if !s0 && !s1 {
				return nil, false
			}
			cell := new(Val)
			*cell = copyVal(st)
			z, ok := it.call(caller, it.P.method(p, "Time", "unixSec"), []Val{cell}, nil).(*Term)
			if !ok {
				return nil, false
			}
			if !it.utc(st[2]) {
				// the zone's table decides the offset of the instant
				zone := it.call(caller, it.P.method(p, "Location", "lookup"), []Val{st[2], z}, nil).(Tuple)
				z = it.sum(1, z, 1, it.term(zone[1], ki64))
			}
			z = it.canonLin(z)
			if z.isConst() {
				return nil, false
			}
			it.small(z)
			return f(it, z), true
		}
	}
	num := func(it *Interp, t *Term) Val { return it.simpK(t, ki64) }
	civil("Date", func(it *Interp, z *Term) Val {
		y, m, d := it.civilDate(z)
		return Tuple{num(it, y), num(it, m), num(it, d)}
	})
	civil("Year", func(it *Interp, z *Term) Val { y, _, _ := it.civilDate(z); return num(it, y) })
	civil("Month", func(it *Interp, z *Term) Val { _, m, _ := it.civilDate(z); return num(it, m) })
	civil("Day", func(it *Interp, z *Term) Val { _, _, d := it.civilDate(z); return num(it, d) })
	civil("Clock", func(it *Interp, z *Term) Val {
		h, m, s := it.civilClock(z)
		return Tuple{num(it, h), num(it, m), num(it, s)}
	})
	civil("Hour", func(it *Interp, z *Term) Val { h, _, _ := it.civilClock(z); return num(it, h) })
	civil("Minute", func(it *Interp, z *Term) Val { _, m, _ := it.civilClock(z); return num(it, m) })
	civil("Second", func(it *Interp, z *Term) Val { _, _, s := it.civilClock(z); return num(it, s) })

	intrinsics["time.Date"] = func(it *Interp, caller *frame, fn *ssa.Function, a []Val) (Val, bool) {
		if l, ok := a[7].(*Val); !ok || l == nil {
			return nil, false
		}
		sym := false
		var t [7]*Term
		for i := range t {
			t[i] = it.term(a[i], ki64)
			if !t[i].isConst() {
				t[i] = it.canonLin(t[i])
			}
			if !t[i].isConst() {
				sym = true
			}
		}
		if !sym {
			return nil, false
		}
		for _, x := range t {
			it.small(x)
		}
		w := it.sum(12, t[0], 1, t[1], -1, it.tt.BV(1, 64))
		var ms *Term
		if w.isConst() {
			ms = it.tt.BV(ufNative["uf_civM"]([]uint64{w.val}), 64)
		} else {
			ms = it.monthStart(w)
		}
		q := it.divide(t[6], 1000000000, "uf_nn")
		n := it.sum(1, t[6], -1000000000, q)
		it.within(n, 0, 999999999)
		p := it.P.pkgs["time"]
		sec := it.sum(86400, ms, 86400, t[2], -86400, it.tt.BV(1, 64), 3600, t[3], 60, t[4], 1, t[5], 1, q)
		if !it.utc(a[7]) {
			// as package time does: the offset in effect at the civil time taken as
			// UTC, or the one at the resulting instant
			lookup := it.P.method(p, "Location", "lookup")
			zone := it.call(caller, lookup, []Val{a[7], it.simpK(sec, ki64)}, nil).(Tuple)
			if off := it.term(zone[1], ki64); !off.isConst() || off.val != 0 {
				u := it.sum(1, sec, -1, off)
				start, end := it.term(zone[2], ki64), it.term(zone[3], ki64)
				if it.truth(it.simp(it.tt.Or(it.tt.Mk(OSlt, sBool, u, start), it.tt.Mk(OSle, sBool, end, u)))) {
					zone = it.call(caller, lookup, []Val{a[7], it.simpK(u, ki64)}, nil).(Tuple)
				}
				sec = it.sum(1, sec, -1, it.term(zone[1], ki64))
			}
		}
		// the layout of package time, with the two symbolic words put in place
		cell := new(Val)
		*cell = it.call(caller, p.Func("unixTime"), []Val{int64(0), int64(0)}, nil)
		it.call(caller, it.P.method(p, "Time", "setLoc"), []Val{cell, a[7]}, nil)
		st := (*cell).(Struct)
		st[0] = it.simpK(n, kindT{'i', 64, false})
		st[1] = it.simpK(it.sum(1, sec, 1, it.term(st[1], ki64)), ki64)
		return st, true
	}
}

// utc reports whether a *time.Location denotes UTC; the local zone of a run
// is UTC as well unless a harness sets it.
func (it *Interp) utc(v Val) bool {
	p, ok := v.(*Val)
	if !ok {
		return false
	}
	if p == nil {
		return true
	}
	tp := it.P.pkgs["time"]
	return p == it.globalCell(tp.Var("utcLoc")) || p == it.globalCell(tp.Var("localLoc"))
}

func (p *Program) method(pk *ssa.Package, typ, name string) *ssa.Function {
	return p.prog.LookupMethod(ptrTo(pk.Type(typ).Type()), pk.Pkg, name)
}
