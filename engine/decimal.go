package main

// Decimal text of symbolic integers. strconv.FormatInt divides repeatedly by a
// hundred, which a bit-vector solver cannot follow; the text is instead introduced
// by what defines it: n digits, the first of them not zero, whose weighted sum is
// the magnitude of the number. Sign and number of digits are decided by forking.

func pow10(n int) uint64 {
	r := uint64(1)
	for ; n > 0; n-- {
		r *= 10
	}
	return r
}

type decKey struct {
	id     int
	signed bool
}

// formatDec is the text of the 64 bit integer x in base ten.
func (it *Interp) formatDec(x *Term, signed bool) Val {
	ps := it.path
	if ps == nil || ps.h == nil || ps.h.fn == nil {
		return nil
	}
	if ps.decText == nil {
		ps.decText = map[decKey]Val{}
	}
	key := decKey{x.id, signed}
	if v, ok := ps.decText[key]; ok {
		return v
	}
	tt := it.tt
	neg := signed && it.truth(it.simp(tt.Mk(OSlt, sBool, x, tt.BV(0, 64))))
	u := x
	if neg {
		u = tt.Mk(OSub, bv(64), tt.BV(0, 64), x)
	}
	n := 1
	for ; n < 20; n++ {
		if it.truth(it.simp(tt.Mk(OUlt, sBool, u, tt.BV(pow10(n), 64)))) {
			break
		}
	}
	var out []Val
	if neg {
		out = append(out, int64('-'))
	}
	m := Model{}
	for k, v := range ps.model {
		m[k] = v
	}
	uv := ps.ev.eval(u)
	var ds []*Term
	for i := 0; i < n; i++ {
		d := it.newVar("digit", bv(8))
		ds = append(ds, d)
		m[d.name] = uv / pow10(n-1-i) % 10
	}
	if len(ps.decs) >= len(ps.prefix) {
		ps.setModel(m)
	}
	sum := tt.BV(0, 64)
	for i, d := range ds {
		lo := int64(0)
		if i == 0 && n > 1 {
			lo = 1
		}
		it.rng(d, lo, 9)
		sum = tt.Mk(OAdd, bv(64), tt.Mk(OMul, bv(64), sum, tt.BV(10, 64)), tt.Mk(OZext, bv(64), d))
		out = append(out, tt.Mk(OAdd, bv(8), d, tt.BV('0', 8)))
	}
	it.assume(it.simp(tt.Eq(sum, u)))
	v := mkStr(out)
	ps.decText[key] = v
	return v
}

// quotient forks on the quotient of a by a large constant when the recorded bounds
// leave few of them, so that neither division nor remainder reach the solver.
func (it *Interp) quotient(a, b *Term, k kindT) (int64, bool) {
	if !k.signed || k.w != 64 || !b.isConst() || it.path == nil || it.path.h == nil || it.path.h.fn == nil {
		return 0, false
	}
	c := int64(b.val)
	if c < 1000000 {
		return 0, false
	}
	lo, hi := it.ival(a)
	qlo, qhi := lo/c, hi/c
	if lo < -1<<40 || hi > 1<<40 || qhi-qlo > 7 {
		return 0, false
	}
	for q := qlo; q < qhi; q++ {
		end := (q+1)*c - 1
		if q < 0 {
			end = q * c
		}
		if it.truth(it.simp(it.tt.Mk(OSle, sBool, a, it.tt.BV(uint64(end), 64)))) {
			return q, true
		}
	}
	return qhi, true
}
