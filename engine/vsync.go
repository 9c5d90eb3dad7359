package main

import (
	"strings"
)

type mutexS struct {
	locked  bool
	readers int
	wwait   int
}

type wgS struct{ n int64 }

type condS struct{ q []*condW }
type condW struct{ woken bool }

type poolS struct{ items []poolItem }

type poolItem struct {
	v  Value
	id int
}

// poolKey: only the goroutine that puts an item happens before the one that gets it.
type poolKey struct {
	pool any
	id   int
}

type atomValS struct{ v Value }

func sideOf[T any](w *Wk, p Value) (*T, sideKey) {
	k := w.sideKeyOf(p)
	if x, ok := w.side[k].(*T); ok {
		return x, k
	}
	x := new(T)
	if b, ok := w.baseSide[k].(*T); ok {
		*x = *b
	}
	if w.initDepth > 0 {
		w.baseSide[k] = x
	} else {
		w.side[k] = x
	}
	return x, k
}

func (w *Wk) lockMutex(g *G, p Value) {
	m, k := sideOf[mutexS](w, p)
	if w.initDepth > 0 {
		return
	}
	w.yield(g)
	if m.locked || m.readers > 0 {
		m.wwait++
		w.block(g, "mutex", func() bool { return !m.locked && m.readers == 0 })
		m.wwait--
	}
	m.locked = true
	w.raceAcq(g, k)
	w.raceAcq(g, rdKey{k})
}

type rdKey struct{ k sideKey }

func (w *Wk) fatal(msg string) {
	w.violateHere("panic", "fatal error: "+msg)
}

func (w *Wk) unlockMutex(g *G, p Value, name string) {
	m, k := sideOf[mutexS](w, p)
	if w.initDepth > 0 {
		return
	}
	if !m.locked {
		w.fatal("sync: unlock of unlocked " + name)
	}
	w.raceRel(g, k)
	m.locked = false
	w.yield(g)
}

func defSync(def func(string, bool, func(w *Wk, g *G, fi *fnInfo, a []Value) Value)) {
	d := func(n string, f func(w *Wk, g *G, a []Value) Value) {
		def(n, false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return f(w, g, a) })
	}
	for _, t := range []string{"Mutex", "RWMutex"} {
		t := t
		d("(*sync."+t+").Lock", func(w *Wk, g *G, a []Value) Value { w.lockMutex(g, a[0]); return Value{} })
		d("(*sync."+t+").Unlock", func(w *Wk, g *G, a []Value) Value {
			w.unlockMutex(g, a[0], strings.ToLower(t))
			return Value{}
		})
		d("(*sync."+t+").TryLock", func(w *Wk, g *G, a []Value) Value {
			w.yield(g)
			m, k := sideOf[mutexS](w, a[0])
			if m.locked || m.readers > 0 {
				return mkBool(false)
			}
			m.locked = true
			w.raceAcq(g, k)
			w.raceAcq(g, rdKey{k})
			return mkBool(true)
		})
	}
	d("(*sync.RWMutex).RLock", func(w *Wk, g *G, a []Value) Value {
		m, k := sideOf[mutexS](w, a[0])
		if w.initDepth > 0 {
			return Value{}
		}
		w.yield(g)
		if m.locked || m.wwait > 0 {
			w.block(g, "rlock", func() bool { return !m.locked && m.wwait == 0 })
		}
		m.readers++
		w.raceAcq(g, k)
		return Value{}
	})
	d("(*sync.RWMutex).TryRLock", func(w *Wk, g *G, a []Value) Value {
		m, k := sideOf[mutexS](w, a[0])
		w.yield(g)
		if m.locked || m.wwait > 0 {
			return mkBool(false)
		}
		m.readers++
		w.raceAcq(g, k)
		return mkBool(true)
	})
	d("(*sync.RWMutex).RUnlock", func(w *Wk, g *G, a []Value) Value {
		m, k := sideOf[mutexS](w, a[0])
		if w.initDepth > 0 {
			return Value{}
		}
		if m.readers <= 0 {
			w.fatal("sync: RUnlock of unlocked RWMutex")
		}
		w.raceRel(g, rdKey{k})
		m.readers--
		w.yield(g)
		return Value{}
	})
	wgAdd := func(w *Wk, g *G, p Value, n int64) {
		s, k := sideOf[wgS](w, p)
		if n < 0 {
			w.raceRel(g, k)
		}
		s.n += n
		if s.n < 0 {
			w.goPanic("sync: negative WaitGroup counter")
		}
	}
	d("(*sync.WaitGroup).Add", func(w *Wk, g *G, a []Value) Value {
		wgAdd(w, g, a[0], w.intOf(a[1], "WaitGroup delta"))
		return Value{}
	})
	d("(*sync.WaitGroup).Done", func(w *Wk, g *G, a []Value) Value { wgAdd(w, g, a[0], -1); w.yield(g); return Value{} })
	d("(*sync.WaitGroup).Go", func(w *Wk, g *G, a []Value) Value {
		wgAdd(w, g, a[0], 1)
		p, f := a[0], a[1]
		fv := Value{k: KFunc, x: &FuncV{gofn: func(g *G, _ []Value) Value {
			w.callValue(g, f, nil, nil)
			wgAdd(w, g, p, -1)
			return Value{}
		}}}
		w.spawn(g, nil, fv, nil)
		return Value{}
	})
	d("(*sync.WaitGroup).Wait", func(w *Wk, g *G, a []Value) Value {
		s, k := sideOf[wgS](w, a[0])
		w.yield(g)
		if s.n > 0 {
			w.block(g, "waitgroup", func() bool { return s.n == 0 })
		}
		w.raceAcq(g, k)
		return Value{}
	})
	locker := func(w *Wk, g *G, c Value, m string) {
		o := w.resolvePtr(c)
		t := w.prog.pkgs["sync"].Type("Cond").Type()
		s, _ := w.fieldSlot(t, "L")
		iv, _ := o.x.(*Obj).slots[int(o.n)+s].x.(*IfaceV)
		if iv == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		w.callFn(g, w.methodByName(iv.t, m), nil, []Value{iv.v})
	}
	d("(*sync.Cond).Wait", func(w *Wk, g *G, a []Value) Value {
		s, k := sideOf[condS](w, a[0])
		me := &condW{}
		s.q = append(s.q, me)
		locker(w, g, a[0], "Unlock")
		if !me.woken {
			w.block(g, "cond", func() bool { return me.woken })
		}
		w.raceAcq(g, k)
		locker(w, g, a[0], "Lock")
		return Value{}
	})
	d("(*sync.Cond).Signal", func(w *Wk, g *G, a []Value) Value {
		s, k := sideOf[condS](w, a[0])
		w.raceRel(g, k)
		if len(s.q) > 0 {
			s.q[0].woken = true
			s.q = s.q[1:]
		}
		w.yield(g)
		return Value{}
	})
	d("(*sync.Cond).Broadcast", func(w *Wk, g *G, a []Value) Value {
		s, k := sideOf[condS](w, a[0])
		w.raceRel(g, k)
		for _, c := range s.q {
			c.woken = true
		}
		s.q = nil
		w.yield(g)
		return Value{}
	})
	// sync.Pool: last in first out; with the option "pool" any kept item or a new one
	d("(*sync.Pool).Put", func(w *Wk, g *G, a []Value) Value {
		if iv, _ := a[1].x.(*IfaceV); iv == nil || w.initDepth > 0 {
			return Value{}
		}
		w.yield(g)
		s, k := sideOf[poolS](w, a[0])
		it := poolItem{a[1], w.newID()}
		w.raceRel(g, poolKey{k, it.id})
		s.items = append(append([]poolItem(nil), s.items...), it)
		return Value{}
	})
	d("(*sync.Pool).Get", func(w *Wk, g *G, a []Value) Value {
		if w.initDepth == 0 {
			w.yield(g)
			s, k := sideOf[poolS](w, a[0])
			if n := len(s.items); n > 0 {
				i := n - 1
				if w.ho.poolChoice {
					i = n - 1 - w.choose(n+1)
				}
				if i >= 0 {
					v := s.items[i]
					it := append([]poolItem(nil), s.items[:i]...)
					s.items = append(it, s.items[i+1:]...)
					w.raceAcq(g, poolKey{k, v.id})
					return v.v
				}
			}
		}
		o := w.resolvePtr(a[0])
		sl, _ := w.fieldSlot(w.prog.pkgs["sync"].Type("Pool").Type(), "New")
		f := o.x.(*Obj).slots[int(o.n)+sl]
		if f.x == nil {
			return Value{k: KIface}
		}
		return w.callValue(g, f, nil, nil)
	})
	// sync.Map
	smap := func(w *Wk, p Value) (*MapObj, sideKey) {
		k := w.sideKeyOf(p)
		if m, ok := w.sideGet(k).(*MapObj); ok {
			return m, k
		}
		m := w.newMap()
		w.sideSet(k, m)
		return m, k
	}
	sm := func(n string, f func(w *Wk, g *G, m *MapObj, a []Value) Value) {
		d("(*sync.Map)."+n, func(w *Wk, g *G, a []Value) Value {
			w.yield(g)
			m, k := smap(w, a[0])
			w.raceAcq(g, k)
			rs := w.race
			w.race = nil
			r := f(w, g, m, a)
			w.race = rs
			w.raceRel(g, k)
			return r
		})
	}
	sm("Load", func(w *Wk, g *G, m *MapObj, a []Value) Value {
		v, ok := w.mapGet(m, a[1])
		if !ok {
			v = Value{k: KIface}
		}
		return tuple(v, mkBool(ok))
	})
	sm("Store", func(w *Wk, g *G, m *MapObj, a []Value) Value { w.mapSet(m, a[1], a[2]); return Value{} })
	sm("LoadOrStore", func(w *Wk, g *G, m *MapObj, a []Value) Value {
		if v, ok := w.mapGet(m, a[1]); ok {
			return tuple(v, mkBool(true))
		}
		w.mapSet(m, a[1], a[2])
		return tuple(a[2], mkBool(false))
	})
	sm("Delete", func(w *Wk, g *G, m *MapObj, a []Value) Value { w.mapDelete(m, a[1]); return Value{} })
	sm("LoadAndDelete", func(w *Wk, g *G, m *MapObj, a []Value) Value {
		v, ok := w.mapGet(m, a[1])
		if !ok {
			v = Value{k: KIface}
		}
		w.mapDelete(m, a[1])
		return tuple(v, mkBool(ok))
	})
	d("(*sync.Map).Range", func(w *Wk, g *G, a []Value) Value {
		m, k := smap(w, a[0])
		w.raceAcq(g, k)
		ents := append([]mapEntry(nil), m.ents...)
		for _, e := range ents {
			if e.dead {
				continue
			}
			if !w.cond(w.callValue(g, a[1], []Value{e.k, e.v}, nil)) {
				break
			}
		}
		return Value{}
	})
	d("(*sync/atomic.Value).Load", func(w *Wk, g *G, a []Value) Value {
		w.yield(g)
		s, k := sideOf[atomValS](w, a[0])
		w.raceAcq(g, k)
		if s.v.k == KInvalid {
			return Value{k: KIface}
		}
		return s.v
	})
	d("(*sync/atomic.Value).Store", func(w *Wk, g *G, a []Value) Value {
		w.yield(g)
		if a[1].x == nil {
			w.goPanic("sync/atomic: store of nil value into Value")
		}
		s, k := sideOf[atomValS](w, a[0])
		w.raceRel(g, k)
		s.v = a[1]
		return Value{}
	})
}

// atomicIntrinsic gives the model of a sync/atomic function.
func atomicIntrinsic(name string) *Intrinsic {
	for _, p := range []string{"CompareAndSwap", "Load", "Store", "Add", "Swap", "And", "Or"} {
		if !strings.HasPrefix(name, p) {
			continue
		}
		switch strings.TrimPrefix(name, p) {
		case "Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer":
		default:
			continue
		}
		op := p
		return &Intrinsic{name: "sync/atomic." + name, run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
			w.yield(g)
			p := w.resolvePtr(a[0])
			o, _ := p.x.(*Obj)
			if o == nil {
				w.goPanic("runtime error: invalid memory address or nil pointer dereference")
			}
			slot := int(p.n)
			k := sideKey{o, slot}
			w.raceAcq(g, k)
			rs := w.race
			if rs != nil && w.initDepth == 0 && len(w.gs) > 1 {
				w.raceAtomic(o, slot, op != "Load")
			}
			old := o.slots[slot]
			var res Value
			ts := w.ts
			switch op {
			case "Load":
				res = old
			case "Store":
				w.setSlot(o, slot, keepKind(old, a[1]))
			case "Swap":
				res = old
				w.setSlot(o, slot, keepKind(old, a[1]))
			case "Add":
				res = fromTerm(ts.Bin(OpAdd, w.term(old), w.term(a[1])))
				w.setSlot(o, slot, res)
			case "And":
				res = old
				w.setSlot(o, slot, fromTerm(ts.Bin(OpBAnd, w.term(old), w.term(a[1]))))
			case "Or":
				res = old
				w.setSlot(o, slot, fromTerm(ts.Bin(OpBOr, w.term(old), w.term(a[1]))))
			case "CompareAndSwap":
				if w.branchG(w.eqTerm(old, keepKind(old, a[1]))) {
					w.setSlot(o, slot, keepKind(old, a[2]))
					res = mkBool(true)
				} else {
					res = mkBool(false)
				}
			}
			w.raceRel(g, k)
			return res
		}}
	}
	return nil
}

func keepKind(old, v Value) Value {
	if v.k == KPtr && old.k != KPtr && v.x == nil {
		return Value{k: old.k}
	}
	return v
}
