package main

import (
	"sort"
	"strconv"
	"strings"
)

// Linear arithmetic over bounded integers: intervals of terms, normal forms of sums
// that cannot overflow, and division of such sums by constants. Times of day are sums
// of hours, minutes and seconds that are taken apart and put together all over the
// code; without this, every comparison of times contains 64-bit divisions.

type ival struct{ lo, hi int64 }

const rngLim = int64(1) << 50

func full(w uint8) ival {
	if w >= 64 {
		return ival{-1 << 63, 1<<63 - 1}
	}
	return ival{-1 << (w - 1), 1<<(w-1) - 1}
}

func (r ival) within(w uint8) bool {
	q := full(w)
	return r.lo >= q.lo && r.hi <= q.hi
}

// small: sums and products of such values do not overflow in int64
func (r ival) small() bool { return r.lo >= -rngLim && r.hi <= rngLim }

// rng is an interval of the signed value of a bit-vector term.
func (f *TermFactory) rng(t *Term) ival {
	if t.op == OConst {
		v := sext(t.c, t.sort.w)
		return ival{v, v}
	}
	if r, ok := f.rngs[t.id]; ok {
		return r
	}
	r := f.rng0(t)
	if t.op == OAdd || t.op == OSub {
		// remainders are within their range
		if l := f.lin(t); len(l.as) == 0 || l.as[0] != t {
			q := f.linRng(l)
			r = ival{max(q.lo+l.c, r.lo), min(q.hi+l.c, r.hi)}
			if q, ok := f.rems[l.key()]; ok {
				r = ival{max(q.lo, r.lo), min(q.hi, r.hi)}
			}
		}
	}
	if !r.within(t.sort.w) {
		r = full(t.sort.w)
	}
	if t.op != OVar {
		f.rngs[t.id] = r
	}
	return r
}

// urng is an upper bound of the unsigned value of a bit-vector term (of at most 62 bits).
func (f *TermFactory) urng(t *Term) ival {
	if t.op == OVar {
		if d, ok := f.dom[t.name]; ok && d > 0 {
			return ival{0, int64(d - 1)}
		}
	}
	if t.op == OConst && t.sort.w <= 62 {
		return ival{int64(t.c), int64(t.c)}
	}
	if r := f.rng(t); r.lo >= 0 {
		return r
	}
	if t.sort.w <= 62 {
		return ival{0, int64(mask(t.sort.w))}
	}
	return full(64)
}

func (f *TermFactory) rng0(t *Term) ival {
	w := t.sort.w
	switch t.op {
	case OVar:
		return f.urngVar(t)
	case OIte:
		a, b := f.rng(t.args[1]), f.rng(t.args[2])
		return ival{min(a.lo, b.lo), max(a.hi, b.hi)}
	case OAdd, OSub, OMul:
		a, b := f.rng(t.args[0]), f.rng(t.args[1])
		if !a.small() || !b.small() {
			return full(w)
		}
		switch t.op {
		case OAdd:
			return ival{a.lo + b.lo, a.hi + b.hi}
		case OSub:
			return ival{a.lo - b.hi, a.hi - b.lo}
		}
		m := int64(1) << 31
		if max(a.hi, -a.lo) >= m && max(b.hi, -b.lo) >= m>>12 || max(b.hi, -b.lo) >= m && max(a.hi, -a.lo) >= m>>12 {
			return full(w)
		}
		p, q, r, s := a.lo*b.lo, a.lo*b.hi, a.hi*b.lo, a.hi*b.hi
		return ival{min(p, q, r, s), max(p, q, r, s)}
	case ONeg:
		a := f.rng(t.args[0])
		if a.small() {
			return ival{-a.hi, -a.lo}
		}
	case OZExt:
		return f.urng(t.args[0])
	case OSExt:
		return f.rng(t.args[0])
	case OExtract:
		if t.c&0xff == 0 {
			if a := f.rng(t.args[0]); a.within(w) {
				return a
			}
		}
	case OSDiv, OUDiv:
		a := f.rng(t.args[0])
		if c := t.args[1]; c.op == OConst && sext(c.c, w) > 0 && a.lo >= 0 {
			return ival{a.lo / sext(c.c, w), a.hi / sext(c.c, w)}
		}
	case OSRem, OURem:
		a := f.rng(t.args[0])
		if c := t.args[1]; c.op == OConst && sext(c.c, w) > 0 && a.lo >= 0 {
			return ival{0, min(a.hi, sext(c.c, w)-1)}
		}
	case OBAnd:
		if c := t.args[1]; c.op == OConst && sext(c.c, w) >= 0 {
			return ival{0, sext(c.c, w)}
		}
	}
	return full(w)
}

func (f *TermFactory) urngVar(t *Term) ival {
	if d, ok := f.dom[t.name]; ok && d > 0 && (t.sort.w >= 63 || int64(d-1) <= full(t.sort.w).hi) {
		return ival{0, int64(d - 1)}
	}
	return full(t.sort.w)
}

// limit records that the value of t is known to be within r.
func (f *TermFactory) limit(t *Term, r ival) *Term {
	if t.op != OConst && t.op != OVar {
		q := f.rng(t)
		f.rngs[t.id] = ival{max(q.lo, r.lo), min(q.hi, r.hi)}
	}
	return t
}

// linear is the value c + sum of coef*atom over the integers; atoms are terms (of any
// width) with their signed values.
type linear struct {
	as []*Term
	cs []int64
	c  int64
}

func (l *linear) key() string {
	var sb strings.Builder
	for i, t := range l.as {
		sb.WriteString(strconv.Itoa(t.id))
		sb.WriteByte('*')
		sb.WriteString(strconv.FormatInt(l.cs[i], 10))
		sb.WriteByte('+')
	}
	sb.WriteString(strconv.FormatInt(l.c, 10))
	return sb.String()
}

const maxAtoms = 12

// lin returns the linear form of t; t is its only atom if there is none.
func (f *TermFactory) lin(t *Term) *linear {
	if t.op == OConst {
		return &linear{c: sext(t.c, t.sort.w)}
	}
	if l, ok := f.lins[t.id]; ok {
		return l
	}
	l := f.lin0(t)
	if l == nil {
		l = &linear{as: []*Term{t}, cs: []int64{1}}
	}
	if t.op != OVar && (t.op != OZExt || t.args[0].op != OVar) {
		f.lins[t.id] = l
	}
	return l
}

func (f *TermFactory) lin0(t *Term) *linear {
	if t.leaves > 0 {
		return nil
	}
	w := t.sort.w
	switch t.op {
	case OZExt:
		if a := f.rng(t.args[0]); a.lo >= 0 {
			return f.lin(t.args[0])
		}
	case OSExt:
		return f.lin(t.args[0])
	case OExtract:
		if t.c&0xff == 0 && f.rng(t.args[0]).within(w) {
			return f.lin(t.args[0])
		}
	case OAdd, OSub:
		a, b := f.rng(t.args[0]), f.rng(t.args[1])
		if !a.small() || !b.small() {
			return nil
		}
		if t.op == OSub {
			b = ival{-b.hi, -b.lo}
		}
		if !(ival{a.lo + b.lo, a.hi + b.hi}).within(w) {
			return nil
		}
		k := int64(1)
		if t.op == OSub {
			k = -1
		}
		return f.linAdd(f.lin(t.args[0]), f.lin(t.args[1]), k)
	case OMul:
		x, c := t.args[0], t.args[1]
		if c.op != OConst {
			x, c = c, x
		}
		if c.op != OConst {
			return nil
		}
		k := sext(c.c, w)
		a := f.rng(x)
		if k > 1<<24 || k < -(1<<24) || a.lo < -(1<<32) || a.hi > 1<<32 {
			return nil
		}
		if !(ival{min(a.lo*k, a.hi*k), max(a.lo*k, a.hi*k)}).within(w) {
			return nil
		}
		return f.linAdd(&linear{}, f.lin(x), k)
	case ONeg:
		if a := f.rng(t.args[0]); a.small() && (ival{-a.hi, -a.lo}).within(w) {
			return f.linAdd(&linear{}, f.lin(t.args[0]), -1)
		}
	}
	return nil
}

// linAdd returns a + k*b, nil if it gets too large.
func (f *TermFactory) linAdd(a, b *linear, k int64) *linear {
	if k > 1<<24 || k < -(1<<24) || b.c > 1<<36 || b.c < -(1<<36) || a.c > rngLim || a.c < -rngLim {
		return nil
	}
	r := &linear{c: a.c + k*b.c}
	i, j := 0, 0
	for i < len(a.as) || j < len(b.as) {
		var t *Term
		var c int64
		if j >= len(b.as) || i < len(a.as) && a.as[i].id < b.as[j].id {
			t, c = a.as[i], a.cs[i]
			i++
		} else if i >= len(a.as) || b.as[j].id < a.as[i].id {
			if b.cs[j] > 1<<36 || b.cs[j] < -(1<<36) {
				return nil
			}
			t, c = b.as[j], k*b.cs[j]
			j++
		} else {
			if b.cs[j] > 1<<36 || b.cs[j] < -(1<<36) {
				return nil
			}
			t, c = a.as[i], a.cs[i]+k*b.cs[j]
			i++
			j++
		}
		if c != 0 {
			r.as = append(r.as, t)
			r.cs = append(r.cs, c)
		}
	}
	if len(r.as) > maxAtoms {
		return nil
	}
	for i, t := range r.as {
		q := f.rng(t)
		if m := max(q.hi, -q.lo); q.lo < -rngLim || m > rngLim || r.cs[i] > rngLim/(m+1) || r.cs[i] < -rngLim/(m+1) {
			return nil
		}
	}
	if r.c > rngLim || r.c < -rngLim {
		return nil
	}
	return r
}

// linRng is the interval of the sum without its constant.
func (f *TermFactory) linRng(l *linear) ival {
	var r ival
	for i, t := range l.as {
		q := f.rng(t)
		if l.cs[i] > 0 {
			r.lo += l.cs[i] * q.lo
			r.hi += l.cs[i] * q.hi
		} else {
			r.lo += l.cs[i] * q.hi
			r.hi += l.cs[i] * q.lo
		}
	}
	return r
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}

// at returns the term of width w with the signed value of t, which fits.
func (f *TermFactory) at(t *Term, w int) *Term {
	for {
		if t.op == OZExt && f.rng(t.args[0]).lo >= 0 || t.op == OSExt {
			t = t.args[0]
			continue
		}
		break
	}
	tw := int(t.sort.w)
	switch {
	case tw == w:
		return t
	case tw < w:
		if f.rng(t).lo >= 0 {
			return f.ZExt(t, w)
		}
		return f.SExt(t, w)
	}
	if t.op == OZExt && int(t.args[0].sort.w) <= w {
		return f.ZExt(t.args[0], w)
	}
	return f.mk(OExtract, bvSort(w), uint64(w-1)<<8, "", t)
}

// build returns the terms of the atoms with positive and those with negative
// coefficients as sums of width w.
func (f *TermFactory) build(l *linear, w int) (p, n *Term) {
	p, n = f.BV(0, w), f.BV(0, w)
	for i, t := range l.as {
		c := l.cs[i]
		neg := c < 0
		if neg {
			c = -c
		}
		x := f.at(t, w)
		if c != 1 {
			x = f.arith(OMul, x, f.BV(uint64(c), w))
		}
		if neg {
			n = f.arith(OAdd, n, x)
		} else {
			p = f.arith(OAdd, p, x)
		}
	}
	return p, n
}

// arith is mk for commutative operations with a few identities.
func (f *TermFactory) arith(op Op, a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		v, _ := evalBV(op, a.c, b.c, a.sort.w)
		return f.BV(v, int(a.sort.w))
	}
	if a.op == OConst {
		a, b = b, a
	}
	if op == OAdd && b.op == OConst && b.c == 0 {
		return a
	}
	if b.op != OConst && a.id > b.id {
		a, b = b, a
	}
	return f.mk(op, a.sort, 0, "", a, b)
}

// width returns a width that the sums of the positive and the negative parts of l and
// all values in extra fit into.
func (f *TermFactory) width(l *linear, extra ...int64) int {
	var p, n, pl, nl int64
	m := int64(1)
	for i, t := range l.as {
		q := f.rng(t)
		m = max(m, q.hi, -q.lo, l.cs[i], -l.cs[i])
		if l.cs[i] > 0 {
			p += l.cs[i] * max(q.hi, 0)
			pl += l.cs[i] * min(q.lo, 0)
		} else {
			n -= l.cs[i] * max(q.hi, 0)
			nl -= l.cs[i] * min(q.lo, 0)
		}
	}
	m = max(m, p, n, -pl, -nl)
	for _, x := range extra {
		m = max(m, x, -x)
	}
	w := 2
	for w < 63 && int64(1)<<(w-1) <= m {
		w++
	}
	return w
}

// linCmp decides a op b by linear arithmetic; nil if that does not apply.
func (f *TermFactory) linCmp(op Op, a, b *Term) *Term {
	if a.op == OVar && b.op == OConst || a.op == OConst && b.op == OVar {
		return nil
	}
	ra, rb := f.rng(a), f.rng(b)
	if op == OULt || op == OULe {
		if ra.lo < 0 || rb.lo < 0 {
			return nil
		}
	}
	if !ra.small() || !rb.small() {
		return nil
	}
	var l *linear
	if a.leaves == 0 || b.leaves == 0 {
		l = f.linAdd(f.lin(a), f.lin(b), -1)
	}
	strict := op == OSLt || op == OULt
	// intervals only
	if op == OEq {
		if ra.hi < rb.lo || rb.hi < ra.lo {
			return f.ff
		}
	} else if strict && ra.hi < rb.lo || !strict && ra.hi <= rb.lo {
		return f.tt
	} else if strict && ra.lo >= rb.hi || !strict && ra.lo > rb.hi {
		return f.ff
	}
	if l == nil {
		return nil
	}
	// sum <= k (or == k)
	k := -l.c
	if strict {
		k--
	}
	if len(l.as) == 0 {
		if op == OEq {
			return f.Bool(k == 0)
		}
		return f.Bool(0 <= k)
	}
	var g int64
	for _, c := range l.cs {
		g = gcd(g, c)
	}
	neg := l.cs[0] < 0
	q := &linear{as: l.as}
	for _, c := range l.cs {
		if neg {
			c = -c
		}
		q.cs = append(q.cs, c/g)
	}
	r := f.linRng(q)
	if op == OEq {
		if neg {
			k = -k
		}
		if k%g != 0 {
			return f.ff
		}
		k /= g
		if k < r.lo || k > r.hi {
			return f.ff
		}
		if len(q.as) == 1 {
			t := q.as[0]
			if !(ival{k, k}).within(t.sort.w) {
				return f.ff
			}
			if t == a || t == b {
				return nil
			}
			return f.Eq(f.BV(uint64(k), int(t.sort.w)), t)
		}
		w := f.width(q, k)
		p, n := f.build(q, w+1)
		n = f.arith(OAdd, n, f.BV(uint64(k), w+1))
		if n.id < p.id {
			p, n = n, p
		}
		if p == n {
			return f.tt
		}
		return f.mk(OEq, sortBool, 0, "", p, n)
	}
	k = floorDiv(k, g)
	not := false
	if neg {
		// -q <= k, so q >= -k, so not q <= -k-1
		not = true
		k = -k - 1
	}
	res := f.ff
	switch {
	case k >= r.hi:
		res = f.tt
	case k < r.lo:
	default:
		w := f.width(q, k)
		p, n := f.build(q, w+1)
		n = f.arith(OAdd, n, f.BV(uint64(k), w+1))
		res = f.mk(OSLe, sortBool, 0, "", p, n)
	}
	if not {
		return f.Not(res)
	}
	return res
}

// quotient is floor(s/d)
type quotient struct {
	s *linear
	d int64
}

// linDiv returns the quotient and remainder of a divided by c > 0; nil if a may be
// negative or it does not apply.
func (f *TermFactory) linDiv(a *Term, c int64) (quo, rem *Term) {
	ra := f.rng(a)
	w := int(a.sort.w)
	if c <= 1 || ra.lo < 0 || !ra.small() || a.op == OConst {
		return nil, nil
	}
	if r, ok := f.divs[[2]int64{int64(a.id), c}]; ok {
		return r[0], r[1]
	}
	l := f.lin(a)
	q := &linear{c: floorDiv(l.c, c)}
	r := &linear{c: l.c - q.c*c}
	for i, t := range l.as {
		k := floorDiv(l.cs[i], c)
		m := l.cs[i] - k*c
		if k != 0 {
			q.as, q.cs = append(q.as, t), append(q.cs, k)
		}
		if m != 0 {
			r.as, r.cs = append(r.as, t), append(r.cs, m)
		}
	}
	g := c
	for _, m := range r.cs {
		g = gcd(g, m)
	}
	d := c / g
	s := &linear{as: r.as, c: r.c / g}
	for _, m := range r.cs {
		s.cs = append(s.cs, m/g)
	}
	rs := f.linRng(s)
	sh := floorDiv(rs.lo+s.c, d)
	q.c += sh
	s.c -= sh * d
	hi := rs.hi + s.c
	// floor((floor(y/e) + z) / d) = floor((y + e*z) / (e*d))
	for i, t := range s.as {
		n, ok := f.quos[t.id]
		if !ok || s.cs[i] != 1 || n.d > 1<<20/d {
			continue
		}
		z := &linear{c: s.c}
		for j := range s.as {
			if j != i {
				z.as, z.cs = append(z.as, s.as[j]), append(z.cs, s.cs[j])
			}
		}
		if y := f.linAdd(n.s, z, n.d); y != nil {
			s, d = y, n.d*d
			rs = f.linRng(s)
			hi = min(rs.hi+s.c, (hi/(d/n.d)+1)*d-1)
		}
		break
	}
	// quotient of s and d, from 0 to hi/d
	if top := hi / d; top > 0 {
		sw := f.width(s, s.c, hi, d, -rs.lo) + 1
		p, n := f.build(s, sw)
		x := f.arith(OAdd, p, f.BV(uint64(s.c), sw))
		if n.op != OConst || n.c != 0 {
			x = f.mk(OSub, x.sort, 0, "", x, n)
		}
		f.limit(x, ival{max(0, rs.lo+s.c), hi})
		var t *Term
		if top <= 4 {
			t = f.BV(uint64(top), w)
			for v := top - 1; v >= 0; v-- {
				cond := f.mk(OSLe, sortBool, 0, "", x, f.BV(uint64((v+1)*d-1), sw))
				t = f.Ite(cond, f.BV(uint64(v), w), t)
			}
		} else {
			y := f.mk(OUDiv, x.sort, 0, "", x, f.BV(uint64(d), sw))
			f.quos[y.id] = quotient{s, d}
			t = f.ZExt(y, w)
		}
		if t.op == OIte {
			f.quos[t.id] = quotient{s, d}
		}
		f.limit(t, ival{0, top})
		q = f.linAdd(q, f.lin(t), 1)
		if q == nil {
			return nil, nil
		}
	}
	rl := f.linAdd(l, q, -c)
	if rl == nil {
		return nil, nil
	}
	term := func(l *linear) *Term {
		p, n := f.build(l, w)
		x := f.arith(OAdd, p, f.BV(uint64(l.c), w))
		if n.op != OConst || n.c != 0 {
			x = f.mk(OSub, x.sort, 0, "", x, n)
		}
		return x
	}
	if f.width(q, q.c)+1 > w || f.width(rl, rl.c)+1 > w {
		return nil, nil
	}
	quo = f.limit(term(q), ival{ra.lo / c, ra.hi / c})
	rem = f.limit(term(rl), ival{0, min(c-1, ra.hi)})
	f.rems[q.key()] = ival{ra.lo / c, ra.hi / c}
	f.rems[rl.key()] = ival{0, min(c-1, ra.hi)}
	f.setLin(quo, q)
	f.setLin(rem, rl)
	f.divs[[2]int64{int64(a.id), c}] = [2]*Term{quo, rem}
	return quo, rem
}

func (f *TermFactory) setLin(t *Term, l *linear) {
	if t.op == OAdd || t.op == OSub || t.op == OMul {
		sort.Sort(linSort{l})
		f.lins[t.id] = l
	}
}

type linSort struct{ *linear }

func (l linSort) Len() int           { return len(l.as) }
func (l linSort) Less(i, j int) bool { return l.as[i].id < l.as[j].id }
func (l linSort) Swap(i, j int) {
	l.as[i], l.as[j] = l.as[j], l.as[i]
	l.cs[i], l.cs[j] = l.cs[j], l.cs[i]
}
