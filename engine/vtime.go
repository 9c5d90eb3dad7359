package main

import (
	"go/types"
)

// Virtual time. A time.Time is modelled in its three fields:
//   zero value: wall=0 ext=0; reading of the clock: wall=1<<63, ext=ns since the start of the run;
//   time.Unix*: wall=1<<62, ext=unix nanoseconds; zero value plus a duration: wall=1<<61, ext=the duration.
// The clock only moves in vsym.Advance, or when every goroutine waits and a timer is pending.

const (
	wallNow    = uint64(1) << 63
	wallUnix   = uint64(1) << 62
	wallZero   = uint64(1) << 61
	epochNs    = uint64(946684800) * 1_000_000_000 // 2000-01-01, start of a synctest bubble
	zeroUnixNs = uint64(0xa1b203eb3d1a0000)        // time.Time{}.UnixNano()
)

type tickerV struct {
	period *Term // nil: one shot
	next   *Term
	ch     *ChanObj
	fn     Value
	sleep  *G
	active bool
	ct     types.Type
}

func (w *Wk) timeT() types.Type {
	return w.prog.pkgs["time"].Type("Time").Type()
}

func (w *Wk) mkTime(wall uint64, ext Value) Value {
	return Value{k: KAgg, x: []Value{mkInt(64, wall), ext, nilPtr}}
}

func (w *Wk) nowTime() Value { return w.mkTime(wallNow, fromTerm(w.now)) }

func (w *Wk) timeParts(v Value) (uint64, Value) {
	s := v.x.([]Value)
	wl := s[0]
	if wl.x != nil {
		wl = mkInt(64, uint64(w.intOf(wl, "clock kind")))
	}
	if wl.n != 0 && wl.n != wallNow && wl.n != wallUnix && wl.n != wallZero {
		w.unsupported("time value not made by the modelled functions")
	}
	return wl.n, s[1]
}

// unixNs gives nanoseconds since 1970 of a time.
func (w *Wk) unixNs(v Value) *Term {
	wall, ext := w.timeParts(v)
	switch wall {
	case wallNow:
		return w.ts.Bin(OpAdd, w.term(ext), w.ts.Const(64, epochNs))
	case wallUnix:
		return w.term(ext)
	case wallZero:
		return w.ts.Bin(OpAdd, w.term(ext), w.ts.Const(64, zeroUnixNs))
	}
	return w.ts.Const(64, zeroUnixNs)
}

// timeCmp gives terms for a<b and a==b.
func (w *Wk) timeCmp(a, b Value) (*Term, *Term) {
	ts := w.ts
	wa, ea := w.timeParts(a)
	wb, eb := w.timeParts(b)
	za, zb := wa == 0 || wa == wallZero, wb == 0 || wb == wallZero
	switch {
	case wa == 0 && wb == 0:
		return ts.False, ts.True
	case za && zb:
		// ext is 0 in the zero value
		return ts.Slt(w.term(ea), w.term(eb)), ts.Eq(w.term(ea), w.term(eb))
	case za:
		// at most 293 years after the year 1, the others are after 1677
		return ts.True, ts.False
	case zb:
		return ts.False, ts.False
	case wa == wb:
		return ts.Slt(w.term(ea), w.term(eb)), ts.Eq(w.term(ea), w.term(eb))
	}
	x, y := w.unixNs(a), w.unixNs(b)
	return ts.Slt(x, y), ts.Eq(x, y)
}

func (w *Wk) timeSub(a, b Value) Value {
	wa, ea := w.timeParts(a)
	wb, eb := w.timeParts(b)
	za, zb := wa == 0 || wa == wallZero, wb == 0 || wb == wallZero
	switch {
	case wa == 0 && wb == 0:
		return mkInt(64, 0)
	case za && zb:
		return fromTerm(w.ts.Bin(OpSub, w.term(ea), w.term(eb)))
	case zb:
		return mkInt(64, 1<<63-1)
	case za:
		return mkInt(64, 1<<63)
	case wa == wb:
		return fromTerm(w.ts.Bin(OpSub, w.term(ea), w.term(eb)))
	}
	return fromTerm(w.ts.Bin(OpSub, w.unixNs(a), w.unixNs(b)))
}

func (w *Wk) fieldSlot(t types.Type, name string) (int, types.Type) {
	st := t.Underlying().(*types.Struct)
	l := w.ls.get(t)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return l.flds[i], st.Field(i).Type()
		}
	}
	panic(engineError("no field " + name))
}

func (w *Wk) timeRoom() *ChanObj {
	ch := &ChanObj{id: w.newID(), cap: 1, typ: w.timeT()}
	return ch
}

func (w *Wk) addTimer(t *tickerV) *tickerV {
	w.tickers = append(w.tickers, t)
	return t
}

func (w *Wk) after(d *Term) *Term { return w.ts.Bin(OpAdd, w.now, d) }

// clampD turns a negative delay into none.
func (w *Wk) clampD(d *Term) *Term {
	return w.ts.Ite(w.ts.Slt(d, w.ts.Const(64, 0)), w.ts.Const(64, 0), d)
}

func (w *Wk) earliest(limit *Term) *tickerV {
	var best *tickerV
	for _, t := range w.tickers {
		if !t.active {
			continue
		}
		if limit != nil && !w.branch(w.ts.Sle(t.next, limit)) {
			continue
		}
		if best == nil || w.branch(w.ts.Slt(t.next, best.next)) {
			best = t
		}
	}
	return best
}

// fire runs one timer at its time.
func (w *Wk) fire(t *tickerV) {
	if w.branch(w.ts.Slt(w.now, t.next)) {
		w.now = t.next
	}
	if t.period != nil {
		t.next = w.ts.Bin(OpAdd, t.next, t.period)
	} else {
		t.active = false
	}
	switch {
	case t.sleep != nil:
	case t.fn.k == KFunc:
		fv := t.fn
		n := w.newG(nil)
		n.main = false
		if w.race != nil {
			n.vc = make([]uint32, n.id+1)
			n.vc[n.id] = 1
			w.raceAcq(n, t)
		}
		go w.runG(n, func() { w.callValue(n, fv, nil, nil) }, false)
	default:
		if o, i := w.waiting(t.ch, false, nil); o != nil && len(t.ch.buf) == 0 {
			o.fired, o.val, o.ok = i, w.nowTime(), true
		} else if len(t.ch.buf) < t.ch.cap {
			t.ch.buf = append(t.ch.buf, w.nowTime())
			if w.race != nil {
				t.ch.vcs = append(t.ch.vcs, nil)
			}
		}
	}
}

func (w *Wk) advance(g *G, d *Term) {
	w.settle(g)
	target := w.after(d)
	for n := 0; ; n++ {
		t := w.earliest(target)
		if t == nil {
			break
		}
		if n > 100000 {
			w.unsupported("too many timer events")
		}
		w.fire(t)
		w.settle(g)
	}
	if w.branch(w.ts.Slt(w.now, target)) {
		w.now = target
	}
	w.settle(g)
}

// autoAdvance moves the clock to the next timer when every goroutine waits.
func (w *Wk) autoAdvance() bool {
	t := w.earliest(nil)
	if t == nil {
		return false
	}
	w.autoTicks++
	if w.autoTicks > 20000 {
		return false
	}
	w.fire(t)
	return true
}

func defTime(def func(string, bool, func(w *Wk, g *G, fi *fnInfo, a []Value) Value)) {
	d := func(n string, pure bool, f func(w *Wk, g *G, a []Value) Value) {
		def(n, pure, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return f(w, g, a) })
	}
	d("time.Now", false, func(w *Wk, g *G, a []Value) Value { return w.nowTime() })
	d("time.now", false, func(w *Wk, g *G, a []Value) Value { w.unsupported("time.now"); return Value{} })
	d("time.runtimeNano", false, func(w *Wk, g *G, a []Value) Value { return fromTerm(w.now) })
	d("time.Since", false, func(w *Wk, g *G, a []Value) Value { return w.timeSub(w.nowTime(), a[0]) })
	d("time.Until", false, func(w *Wk, g *G, a []Value) Value { return w.timeSub(a[0], w.nowTime()) })
	d("time.Unix", false, func(w *Wk, g *G, a []Value) Value {
		ns := w.ts.Bin(OpAdd, w.ts.Bin(OpMul, w.term(a[0]), w.ts.Const(64, 1_000_000_000)), w.term(a[1]))
		return w.mkTime(wallUnix, fromTerm(ns))
	})
	d("time.UnixMilli", false, func(w *Wk, g *G, a []Value) Value {
		return w.mkTime(wallUnix, fromTerm(w.ts.Bin(OpMul, w.term(a[0]), w.ts.Const(64, 1_000_000))))
	})
	d("time.UnixMicro", false, func(w *Wk, g *G, a []Value) Value {
		return w.mkTime(wallUnix, fromTerm(w.ts.Bin(OpMul, w.term(a[0]), w.ts.Const(64, 1_000))))
	})
	unix := func(n string, div uint64) {
		d("(time.Time)."+n, false, func(w *Wk, g *G, a []Value) Value {
			wall, _ := w.timeParts(a[0])
			if wall == 0 && div != 1 {
				s := int64(-62135596800)
				return mkInt(64, uint64(s*(1_000_000_000/int64(div))))
			}
			if wall == wallZero && div != 1 {
				w.unsupported("seconds of a time near the zero time")
			}
			t := w.unixNs(a[0])
			if div == 1 {
				return fromTerm(t)
			}
			// floor division
			q := w.ts.Bin(OpSDiv, t, w.ts.Const(64, div))
			r := w.ts.Bin(OpSRem, t, w.ts.Const(64, div))
			return fromTerm(w.ts.Ite(w.ts.Slt(r, w.ts.Const(64, 0)), w.ts.Bin(OpSub, q, w.ts.Const(64, 1)), q))
		})
	}
	unix("UnixNano", 1)
	unix("UnixMicro", 1000)
	unix("UnixMilli", 1_000_000)
	unix("Unix", 1_000_000_000)
	for _, n := range []string{"UTC", "Local", "Round", "Truncate"} {
		n := n
		d("(time.Time)."+n, false, func(w *Wk, g *G, a []Value) Value {
			if len(a) == 2 && (a[1].x != nil || int64(a[1].n) > 0) {
				return w.roundTime(a[0], a[1], n == "Round")
			}
			return a[0]
		})
	}
	d("(time.Time).In", false, func(w *Wk, g *G, a []Value) Value { return a[0] })
	d("(time.Time).IsZero", false, func(w *Wk, g *G, a []Value) Value {
		wall, ext := w.timeParts(a[0])
		if wall == wallZero {
			return fromTerm(w.ts.Eq(w.term(ext), w.ts.Const(64, 0)))
		}
		return mkBool(wall == 0)
	})
	d("(time.Time).After", false, func(w *Wk, g *G, a []Value) Value { lt, _ := w.timeCmp(a[1], a[0]); return fromTerm(lt) })
	d("(time.Time).Before", false, func(w *Wk, g *G, a []Value) Value { lt, _ := w.timeCmp(a[0], a[1]); return fromTerm(lt) })
	d("(time.Time).Equal", false, func(w *Wk, g *G, a []Value) Value { _, eq := w.timeCmp(a[0], a[1]); return fromTerm(eq) })
	d("(time.Time).Compare", false, func(w *Wk, g *G, a []Value) Value {
		lt, eq := w.timeCmp(a[0], a[1])
		ts := w.ts
		return fromTerm(ts.Ite(lt, ts.Const(64, ^uint64(0)), ts.Ite(eq, ts.Const(64, 0), ts.Const(64, 1))))
	})
	d("(time.Time).Add", false, func(w *Wk, g *G, a []Value) Value {
		wall, ext := w.timeParts(a[0])
		if wall == 0 {
			if a[1].x == nil && a[1].n == 0 {
				return a[0]
			}
			return w.mkTime(wallZero, a[1])
		}
		return w.mkTime(wall, fromTerm(w.ts.Bin(OpAdd, w.term(ext), w.term(a[1]))))
	})
	d("(time.Time).Sub", false, func(w *Wk, g *G, a []Value) Value { return w.timeSub(a[0], a[1]) })
	d("(time.Time).String", false, func(w *Wk, g *G, a []Value) Value { return w.str("<time>") })
	d("(time.Time).Format", false, func(w *Wk, g *G, a []Value) Value { return w.str("<time>") })

	newT := func(w *Wk, tn string, t *tickerV) Value {
		tt := w.prog.pkgs["time"].Type(tn).Type()
		o := w.newObj(tt, 1)
		if t.ch != nil {
			s, _ := w.fieldSlot(tt, "C")
			o.slots[s] = Value{k: KChan, x: t.ch}
		}
		w.side[sideKey{o, 0}] = t
		w.addTimer(t)
		return mkPtr(o, 0)
	}
	needPos := func(w *Wk, v Value, msg string) *Term {
		t := w.term(v)
		w.check(w.ts.Slt(w.ts.Const(64, 0), t), msg)
		return t
	}
	d("time.NewTicker", false, func(w *Wk, g *G, a []Value) Value {
		p := needPos(w, a[0], "non-positive interval for NewTicker")
		return newT(w, "Ticker", &tickerV{period: p, next: w.after(p), ch: w.timeRoom(), active: true})
	})
	d("time.Tick", false, func(w *Wk, g *G, a []Value) Value {
		p := needPos(w, a[0], "non-positive interval for Tick")
		t := &tickerV{period: p, next: w.after(p), ch: w.timeRoom(), active: true}
		if w.initDepth == 0 {
			w.addTimer(t)
		}
		return Value{k: KChan, x: t.ch}
	})
	d("time.NewTimer", false, func(w *Wk, g *G, a []Value) Value {
		return newT(w, "Timer", &tickerV{next: w.after(w.clampD(w.term(a[0]))), ch: w.timeRoom(), active: true})
	})
	d("time.After", false, func(w *Wk, g *G, a []Value) Value {
		t := w.addTimer(&tickerV{next: w.after(w.clampD(w.term(a[0]))), ch: w.timeRoom(), active: true})
		return Value{k: KChan, x: t.ch}
	})
	d("time.AfterFunc", false, func(w *Wk, g *G, a []Value) Value {
		t := &tickerV{next: w.after(w.clampD(w.term(a[0]))), fn: a[1], active: true}
		w.raceRel(g, t)
		return newT(w, "Timer", t)
	})
	d("time.Sleep", false, func(w *Wk, g *G, a []Value) Value {
		if w.initDepth > 0 {
			return Value{}
		}
		dt := w.term(a[0])
		if !w.branch(w.ts.Slt(w.ts.Const(64, 0), dt)) {
			w.yield(g)
			return Value{}
		}
		t := w.addTimer(&tickerV{next: w.after(dt), sleep: g, active: true})
		w.block(g, "sleep", func() bool { return !t.active })
		return Value{}
	})
	get := func(w *Wk, p Value) *tickerV {
		t, _ := w.side[w.sideKeyOf(p)].(*tickerV)
		if t == nil {
			w.unsupported("timer without model")
		}
		return t
	}
	for _, tn := range []string{"Ticker", "Timer"} {
		tn := tn
		d("(*time."+tn+").Stop", false, func(w *Wk, g *G, a []Value) Value {
			t := get(w, a[0])
			was := t.active
			t.active = false
			if tn == "Ticker" {
				return Value{}
			}
			return mkBool(was)
		})
		d("(*time."+tn+").Reset", false, func(w *Wk, g *G, a []Value) Value {
			t := get(w, a[0])
			was := t.active
			if tn == "Ticker" {
				p := needPos(w, a[1], "non-positive interval for Ticker.Reset")
				t.period, t.next, t.active = p, w.after(p), true
				return Value{}
			}
			t.next, t.active = w.after(w.clampD(w.term(a[1]))), true
			return mkBool(was)
		})
	}
}

// roundTime is Time.Truncate or Time.Round for a unit that divides a second or is a number of seconds.
func (w *Wk) roundTime(t, d Value, round bool) Value {
	ts := w.ts
	if d.x != nil {
		w.unsupported("time rounded to an arbitrary unit")
	}
	const sec = 1_000_000_000
	if wall, _ := w.timeParts(t); wall == 0 {
		return t
	} else if wall == wallZero {
		w.unsupported("rounding of a time near the zero time")
	}
	ns := w.unixNs(t)
	c := func(v uint64) *Term { return ts.Const(64, v) }
	mod := func(x *Term, m uint64) *Term {
		r := ts.Bin(OpSRem, x, c(m))
		return ts.Ite(ts.Slt(r, c(0)), ts.Bin(OpAdd, r, c(m)), r)
	}
	var r *Term
	switch {
	case sec%d.n == 0:
		r = mod(ns, d.n)
	case d.n%sec == 0:
		// units are counted from the year 1
		nsec := mod(ns, sec)
		secs := ts.Bin(OpAdd, ts.Bin(OpSDiv, ts.Bin(OpSub, ns, nsec), c(sec)), c(62135596800))
		r = ts.Bin(OpAdd, ts.Bin(OpMul, mod(secs, d.n/sec), c(sec)), nsec)
	default:
		w.unsupported("time rounded to an odd unit")
	}
	down := ts.Bin(OpSub, ns, r)
	if !round {
		return w.mkTime(wallUnix, fromTerm(down))
	}
	less := ts.Ult(ts.Bin(OpAdd, r, r), c(d.n))
	return w.mkTime(wallUnix, fromTerm(ts.Ite(less, down, ts.Bin(OpAdd, down, c(d.n)))))
}
