package main

import "math/bits"

// Linear forms: t = k + sum of c*leaf, modulo 2^w.

type linItem struct {
	leaf *Term
	c    uint64
}

type linForm struct {
	items  []linItem
	k      uint64
	lifted bool // a zero-extended sum was taken apart
}

func (f *linForm) add(leaf *Term, c uint64) {
	for i := range f.items {
		if f.items[i].leaf == leaf {
			f.items[i].c += c
			return
		}
	}
	f.items = append(f.items, linItem{leaf, c})
}

const linMax = 24

func (ts *Terms) lin(t *Term, mul uint64, f *linForm, depth int) {
	switch {
	case t.op == OpConst:
		f.k += t.k * mul
		return
	case depth > 40 || len(f.items) > linMax:
	case t.op == OpAdd:
		ts.lin(t.a, mul, f, depth+1)
		ts.lin(t.b, mul, f, depth+1)
		return
	case t.op == OpSub:
		ts.lin(t.a, mul, f, depth+1)
		ts.lin(t.b, -mul, f, depth+1)
		return
	case t.op == OpNeg:
		ts.lin(t.a, -mul, f, depth+1)
		return
	case t.op == OpMul && t.b.op == OpConst:
		ts.lin(t.a, mul*t.b.k, f, depth+1)
		return
	case t.op == OpShl && t.b.op == OpConst && t.b.k < 64:
		ts.lin(t.a, mul<<t.b.k, f, depth+1)
		return
	case t.op == OpZext && (t.a.op == OpAdd || t.a.op == OpMul):
		// without overflow in the narrow width, the sum can be taken in the wide one
		inner := ts.linOf(t.a)
		if ts.exact(inner, t.a.w) {
			for _, it := range inner.items {
				ts.lin(ts.Resize(it.leaf, t.w, false), mul*it.c, f, depth+1)
			}
			f.k += mul * inner.k
			f.lifted = true
			return
		}
	}
	f.add(t, mul)
}

func (ts *Terms) linOf(t *Term) *linForm {
	f := &linForm{}
	ts.lin(t, 1, f, 0)
	return ts.clean(f, mask(t.w))
}

func (ts *Terms) clean(f *linForm, m uint64) *linForm {
	out := f.items[:0]
	for _, it := range f.items {
		it.c &= m
		if it.c != 0 {
			out = append(out, it)
		}
	}
	f.items = out
	f.k &= m
	// q*(x/c) + r*(x%c) with q = r*c is r*x
	for i := range f.items {
		d := f.items[i].leaf
		if d.op != OpUDiv || d.b.op != OpConst {
			continue
		}
		for j := range f.items {
			r := f.items[j].leaf
			if r.op == OpURem && r.a == d.a && r.b == d.b && f.items[i].c == f.items[j].c*d.b.k&m {
				g := &linForm{k: f.k, lifted: true}
				for n, it := range f.items {
					if n != i && n != j {
						g.items = append(g.items, it)
					}
				}
				ts.lin(d.a, f.items[j].c, g, 0)
				return ts.clean(g, m)
			}
		}
	}
	return f
}

// max is the largest value of the form, with every coefficient taken as unsigned; false if it does not fit into w bits.
func (ts *Terms) max(f *linForm, w uint8) (uint64, bool) {
	s := f.k
	for _, it := range f.items {
		hi, lo := bits.Mul64(it.c, it.leaf.ub)
		var c uint64
		s, c = bits.Add64(s, lo, 0)
		if hi != 0 || c != 0 {
			return 0, false
		}
	}
	return s, s <= mask(w)
}

func (ts *Terms) exact(f *linForm, w uint8) bool {
	_, ok := ts.max(f, w)
	return ok
}

func (ts *Terms) unlin(f *linForm, w uint8) *Term {
	t := ts.Const(w, 0)
	first := true
	for _, it := range f.items {
		x := it.leaf
		if it.c != 1 {
			x = ts.Bin(OpMul, x, ts.Const(w, it.c))
		}
		if first {
			t, first = x, false
		} else {
			t = ts.Bin(OpAdd, t, x)
		}
	}
	if f.k != 0 {
		t = ts.Bin(OpAdd, t, ts.Const(w, f.k))
	}
	return t
}

// linDiv gives t/c or t%c (unsigned) when parts of the sum t are multiples of c.
func (ts *Terms) linDiv(t *Term, c uint64, rem bool) *Term {
	if c == 0 || t.op != OpAdd && t.op != OpMul && t.op != OpZext {
		return nil
	}
	f := ts.linOf(t)
	if len(f.items) > linMax || !ts.exact(f, t.w) {
		return nil
	}
	q, r := &linForm{k: f.k / c}, &linForm{k: f.k % c}
	for _, it := range f.items {
		if x := it.c / c; x > 0 {
			q.items = append(q.items, linItem{it.leaf, x})
		}
		if x := it.c % c; x > 0 {
			r.items = append(r.items, linItem{it.leaf, x})
		}
	}
	if q.k == 0 && len(q.items) == 0 {
		return nil
	}
	m, _ := ts.max(r, t.w)
	if m < c {
		if rem {
			return ts.unlin(r, t.w)
		}
		return ts.unlin(q, t.w)
	}
	op := OpUDiv
	if rem {
		op = OpURem
	}
	x := ts.Bin(op, ts.unlin(r, t.w), ts.Const(t.w, c))
	if rem {
		return x
	}
	return ts.Bin(OpAdd, ts.unlin(q, t.w), x)
}

// cancel gives a-b if terms of both cancel out.
func (ts *Terms) cancel(a, b *Term) *Term {
	if b.op != OpAdd && b.op != OpMul && b.op != OpSub || a.op != OpAdd && a.op != OpMul && a.op != OpSub && a.op != OpZext {
		return nil
	}
	fa, fb := ts.linOf(a), ts.linOf(b)
	if len(fa.items) > linMax || len(fb.items) > linMax {
		return nil
	}
	n := len(fa.items) + len(fb.items)
	d := ts.diff(fa, fb, a.w)
	if len(d.items) >= n-1 {
		return nil
	}
	return ts.unlin(d, a.w)
}

func (ts *Terms) diff(fa, fb *linForm, w uint8) *linForm {
	d := &linForm{k: (fa.k - fb.k) & mask(w)}
	d.items = append(d.items, fa.items...)
	for _, it := range fb.items {
		d.add(it.leaf, -it.c)
	}
	out := d.items[:0]
	for _, it := range d.items {
		it.c &= mask(w)
		if it.c != 0 {
			out = append(out, it)
		}
	}
	d.items = out
	return d
}

// liftAdd gives a+b as a sum of leaves when one of them holds a zero-extended sum.
func (ts *Terms) liftAdd(a, b *Term) *Term {
	if !a.lift && !b.lift || ts.lifting {
		return nil
	}
	f := &linForm{}
	ts.lin(a, 1, f, 0)
	ts.lin(b, 1, f, 0)
	f = ts.clean(f, mask(a.w))
	if !f.lifted || len(f.items) > linMax || !ts.exact(f, a.w) {
		return nil
	}
	ts.lifting = true
	t := ts.unlin(f, a.w)
	ts.lifting = false
	return t
}

// calcLift: t is a sum with a zero-extended sum in it (or a remainder, which may meet its quotient).
func calcLift(t *Term) bool {
	switch t.op {
	case OpZext:
		return t.a.op == OpAdd
	case OpAdd:
		return t.a.lift || t.b.lift
	case OpMul:
		return t.b.op == OpConst && t.a.lift
	case OpURem:
		return true
	}
	return false
}

// linEq decides a = b if the difference of their linear forms is constant.
func (ts *Terms) linEq(a, b *Term) (eq, known bool) {
	if a.op != OpAdd && b.op != OpAdd && a.op != OpMul && b.op != OpMul {
		return false, false
	}
	fa, fb := ts.linOf(a), ts.linOf(b)
	if len(fa.items) > linMax || len(fb.items) > linMax {
		return false, false
	}
	d := ts.diff(fa, fb, a.w)
	if len(d.items) > 0 {
		return false, false
	}
	return d.k == 0, true
}

// linZero decides a = c for a sum that is at least c, with equality only if every leaf is zero.
func (ts *Terms) linZero(a *Term, c uint64) *Term {
	if a.op != OpAdd {
		return nil
	}
	f := ts.linOf(a)
	if len(f.items) > linMax || !ts.exact(f, a.w) || c > f.k {
		return nil
	}
	if c < f.k {
		return ts.False
	}
	r := ts.True
	for _, it := range f.items {
		r = ts.And(r, ts.Eq(it.leaf, ts.Const(a.w, 0)))
	}
	return r
}

// srange bounds a sum as a signed number; ok is false if it may overflow.
func (ts *Terms) srange(f *linForm, w uint8) (lo, hi int64, ok bool) {
	if w != 64 || len(f.items) > linMax {
		return 0, 0, false
	}
	lo = int64(f.k)
	hi = lo
	for _, it := range f.items {
		c := int64(it.c)
		a := uint64(c)
		if c < 0 {
			a = -a
		}
		h, l := bits.Mul64(a, it.leaf.ub)
		if h != 0 || l > 1<<62 {
			return 0, 0, false
		}
		if c > 0 {
			n := hi + int64(l)
			if n < hi {
				return 0, 0, false
			}
			hi = n
		} else {
			n := lo - int64(l)
			if n > lo {
				return 0, 0, false
			}
			lo = n
		}
	}
	return lo, hi, true
}

// linSDiv is linDiv for signed division of sums that may be negative.
func (ts *Terms) linSDiv(t *Term, c uint64, rem bool) *Term {
	if t.op != OpAdd && t.op != OpSub && t.op != OpMul || t.w != 64 || int64(c) <= 1 {
		return nil
	}
	f := ts.linOf(t)
	lo, hi, ok := ts.srange(f, t.w)
	if !ok || lo < 0 && hi >= 0 {
		return nil
	}
	kq, kr := int64(f.k)/int64(c), int64(f.k)%int64(c)
	if kr < 0 {
		kq, kr = kq-1, kr+int64(c)
	}
	// floor division
	q, r := &linForm{k: uint64(kq)}, &linForm{k: uint64(kr)}
	for _, it := range f.items {
		if int64(it.c) < 0 {
			if int64(it.c)%int64(c) != 0 {
				return nil
			}
			q.items = append(q.items, linItem{it.leaf, uint64(int64(it.c) / int64(c))})
			continue
		}
		if x := it.c / c; x > 0 {
			q.items = append(q.items, linItem{it.leaf, x})
		}
		if x := it.c % c; x > 0 {
			r.items = append(r.items, linItem{it.leaf, x})
		}
	}
	max, ok := ts.max(r, t.w)
	if !ok || max >= c {
		return nil
	}
	if hi < 0 && r.k == 0 && max > 0 {
		return nil // towards zero, or not
	}
	if hi < 0 && max > 0 {
		q.k++
		r.k -= c
	}
	if rem {
		return ts.unlin(r, t.w)
	}
	return ts.unlin(q, t.w)
}

// linSlt decides a < b for sums with a range.
func (ts *Terms) linSlt(a, b *Term) (lt, known bool) {
	if a.w != 64 || !isLin(a) && !isLin(b) {
		return false, false
	}
	al, ah, ok := ts.srange(ts.linOf(a), a.w)
	if !ok {
		return false, false
	}
	bl, bh, ok := ts.srange(ts.linOf(b), b.w)
	switch {
	case !ok:
		return false, false
	case ah < bl:
		return true, true
	case al >= bh:
		return false, true
	}
	return false, false
}

func isLin(t *Term) bool { return t.op == OpAdd || t.op == OpSub || t.op == OpMul && t.b.op == OpConst }
