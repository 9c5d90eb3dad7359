package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

func (w *Wk) newMap() *MapObj {
	return &MapObj{id: w.newID(), idx: map[string]int{}, base: w.initDepth > 0}
}

// keyStr gives a canonical text for a fully concrete key.
func (w *Wk) keyStr(v Value, sb *strings.Builder) bool {
	switch v.k {
	case KInt, KBool:
		if v.x != nil {
			return false
		}
		fmt.Fprintf(sb, "%d:%x;", v.w, v.n)
		return true
	case KString:
		s, ok := w.concreteStr(v)
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "%d'%s';", len(s), s)
		return true
	case KAgg:
		for _, e := range v.x.([]Value) {
			if !w.keyStr(e, sb) {
				return false
			}
		}
		return true
	case KPtr:
		if v.x == nil {
			sb.WriteString("nil;")
			return true
		}
		o, ok := v.x.(*Obj)
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "p%d+%d;", o.id, v.n)
		return true
	case KIface:
		iv, _ := v.x.(*IfaceV)
		if iv == nil {
			sb.WriteString("nil;")
			return true
		}
		fmt.Fprintf(sb, "i%s|", iv.t.String())
		return w.keyStr(iv.v, sb)
	case KChan:
		fmt.Fprintf(sb, "c%p;", v.x)
		return true
	case KFloat:
		if v.x != nil {
			return false
		}
		fmt.Fprintf(sb, "f%x;", v.n)
		return true
	}
	return false
}

// mapFind gives the entry index for key or -1, forking on symbolic equality.
func (w *Wk) mapFind(m *MapObj, key Value) int {
	if key.k == KIface {
		if iv, _ := key.x.(*IfaceV); iv != nil && !types.Comparable(iv.t) {
			w.goPanic("runtime error: hash of unhashable type " + iv.t.String())
		}
	}
	var sb strings.Builder
	if w.keyStr(key, &sb) {
		if i, ok := m.idx[sb.String()]; ok {
			return i
		}
		if !m.symKey {
			return -1
		}
		for i := range m.ents {
			e := &m.ents[i]
			if e.dead || e.conc {
				continue
			}
			if w.branchG(w.eqTerm(e.k, key)) {
				return i
			}
		}
		return -1
	}
	for i := range m.ents {
		e := &m.ents[i]
		if e.dead {
			continue
		}
		if w.branchG(w.eqTerm(e.k, key)) {
			return i
		}
	}
	return -1
}

func (w *Wk) mapGet(m *MapObj, key Value) (Value, bool) {
	if m == nil {
		return Value{}, false
	}
	w.raceMap(m, false)
	i := w.mapFind(m, key)
	if i < 0 {
		return Value{}, false
	}
	return m.ents[i].v, true
}

func (w *Wk) mapSet(m *MapObj, key, val Value) {
	w.raceMap(m, true)
	i := w.mapFind(m, key)
	w.touchMap(m)
	if i >= 0 {
		m.ents[i].v = val
		return
	}
	var sb strings.Builder
	conc := w.keyStr(key, &sb)
	m.ents = append(m.ents, mapEntry{k: key, v: val, seq: m.nextSq, conc: conc})
	m.nextSq++
	m.n++
	if conc {
		m.idx[sb.String()] = len(m.ents) - 1
	} else {
		m.symKey = true
	}
}

func (w *Wk) mapDelete(m *MapObj, key Value) {
	if m == nil {
		return
	}
	w.raceMap(m, true)
	i := w.mapFind(m, key)
	if i < 0 {
		return
	}
	w.touchMap(m)
	w.mapKill(m, i)
}

func (w *Wk) mapKill(m *MapObj, i int) {
	e := &m.ents[i]
	if e.conc {
		var sb strings.Builder
		w.keyStr(e.k, &sb)
		delete(m.idx, sb.String())
	}
	e.dead = true
	e.v = Value{}
	m.n--
	if len(m.ents) > 64 && m.n*4 < len(m.ents) {
		// compact; entry order and sequence numbers are kept
		old := m.ents
		m.ents = nil
		m.idx = map[string]int{}
		for _, e := range old {
			if e.dead {
				continue
			}
			if e.conc {
				var sb strings.Builder
				w.keyStr(e.k, &sb)
				m.idx[sb.String()] = len(m.ents)
			}
			m.ents = append(m.ents, e)
		}
	}
}

func (w *Wk) mapNext(c *cins, it *IterV) Value {
	k, v := Value{}, Value{}
	if c.lay != nil {
		k = c.lay.zeroValue()
	}
	if c.lay2 != nil {
		v = c.lay2.zeroValue()
	}
	if it.m == nil {
		return Value{k: KTuple, x: []Value{mkBool(false), k, v}}
	}
	w.raceMap(it.m, false)
	// candidates: live entries not yet seen (entries added during iteration are visited as well)
	if it.started == 0 {
		it.started = 1
		if it.m.n <= w.ho.mapOrder && it.m.n > 1 {
			it.started = 2
		}
	}
	if it.started == 2 {
		var cand []int
		for i := range it.m.ents {
			e := &it.m.ents[i]
			if !e.dead && !it.seen[e.seq] {
				cand = append(cand, i)
			}
		}
		if len(cand) == 0 {
			return Value{k: KTuple, x: []Value{mkBool(false), k, v}}
		}
		j := cand[w.choose(len(cand))]
		e := &it.m.ents[j]
		it.seen[e.seq] = true
		return Value{k: KTuple, x: []Value{mkBool(true), e.k, e.v}}
	}
	i := sort.Search(len(it.m.ents), func(i int) bool { return it.m.ents[i].seq >= it.lastSeq })
	for ; i < len(it.m.ents); i++ {
		e := &it.m.ents[i]
		if e.dead {
			continue
		}
		it.lastSeq = e.seq + 1
		return Value{k: KTuple, x: []Value{mkBool(true), e.k, e.v}}
	}
	return Value{k: KTuple, x: []Value{mkBool(false), k, v}}
}

func (w *Wk) lookup(fr *frame, c *cins) {
	v := fr.get(w, &c.ops[0])
	key := fr.get(w, &c.ops[1])
	if v.k == KString {
		fr.regs[c.dst] = w.strIndex(v, key, c.signed)
		return
	}
	m, _ := v.x.(*MapObj)
	res, ok := w.mapGet(m, key)
	if !ok {
		res = c.lay.zeroValue()
	}
	if c.flag {
		fr.regs[c.dst] = Value{k: KTuple, x: []Value{res, mkBool(ok)}}
	} else {
		fr.regs[c.dst] = res
	}
}

func (w *Wk) builtin(fr *frame, name string, a []Value, t types.Type) Value {
	ts := w.ts
	switch name {
	case "len", "cap":
		switch a[0].k {
		case KSlice, KString:
			s := sliceOf(a[0])
			if name == "cap" {
				return mkInt(64, uint64(s.cap))
			}
			return mkInt(64, uint64(s.len))
		case KMap:
			m, _ := a[0].x.(*MapObj)
			if m == nil {
				return mkInt(64, 0)
			}
			w.raceMap(m, false)
			return mkInt(64, uint64(m.n))
		case KChan:
			ch, _ := a[0].x.(*ChanObj)
			if ch == nil {
				return mkInt(64, 0)
			}
			if name == "cap" {
				return mkInt(64, uint64(ch.cap))
			}
			return mkInt(64, uint64(len(ch.buf)))
		case KPtr, KAgg:
			u := t.Underlying()
			if p, ok := u.(*types.Pointer); ok {
				u = p.Elem().Underlying()
			}
			return mkInt(64, uint64(u.(*types.Array).Len()))
		}
	case "min", "max":
		r := a[0]
		if r.k == KInt {
			sg := isSigned(t)
			for _, x := range a[1:] {
				p, q := w.term(r), w.term(x)
				var less *Term
				if sg {
					less = ts.Slt(q, p)
				} else {
					less = ts.Ult(q, p)
				}
				if name == "max" {
					if sg {
						less = ts.Slt(p, q)
					} else {
						less = ts.Ult(p, q)
					}
				}
				if less.op != OpConst && r.x == nil && x.x == nil {
					panic(engineError("min/max"))
				}
				r = fromTerm(ts.Ite(less, q, p))
			}
			return r
		}
	}
	if w.guard != nil {
		panic(regionAbort{})
	}
	switch name {
	case "append":
		return w.appendB(a[0], a[1], t)
	case "copy":
		return w.copyB(a[0], a[1], t)
	case "delete":
		m, _ := a[0].x.(*MapObj)
		w.mapDelete(m, a[1])
		return Value{}
	case "close":
		w.chanClose(fr.g, a[0])
		return Value{}
	case "panic":
		panic(&goPanicV{msg: w.panicText(a[0]), val: a[0], stack: w.stackTrace()})
	case "recover":
		if fr.defOf != nil && fr.defOf.panicV != nil {
			p := fr.defOf.panicV
			fr.defOf.panicV = nil
			return p.val
		}
		return Value{k: KIface}
	case "print", "println":
		return Value{}
	case "clear":
		if m, ok := a[0].x.(*MapObj); ok {
			w.raceMap(m, true)
			w.touchMap(m)
			m.ents, m.idx, m.n, m.symKey = nil, map[string]int{}, 0, false
			return Value{}
		}
		if s, ok := a[0].x.(*SliceV); ok {
			l := w.ls.get(t.Underlying().(*types.Slice).Elem())
			for i := 0; i < s.len*l.n; i++ {
				w.setSlot(s.obj, s.off+i, l.zeroAt(i%l.n))
			}
		}
		return Value{}
	case "ssa:wrapnilchk":
		if a[0].x == nil {
			w.goPanic("runtime error: value method called using nil pointer")
		}
		return a[0]
	case "Slice": // unsafe.Slice
		n := w.intOf(a[1], "unsafe.Slice length")
		if a[0].x == nil {
			return Value{k: KSlice}
		}
		p := w.resolvePtr(a[0])
		return Value{k: KSlice, x: &SliceV{obj: p.x.(*Obj), off: int(p.n), len: int(n), cap: int(n)}}
	case "SliceData":
		s := sliceOf(a[0])
		if a[0].x == nil {
			return nilPtr
		}
		return mkPtr(s.obj, s.off)
	case "String":
		n := w.intOf(a[1], "unsafe.String length")
		if n == 0 || a[0].x == nil {
			return Value{k: KString}
		}
		p := w.resolvePtr(a[0])
		return Value{k: KString, x: &SliceV{obj: p.x.(*Obj), off: int(p.n), len: int(n), cap: int(n)}}
	case "StringData":
		s := sliceOf(a[0])
		if s.obj == nil {
			return nilPtr
		}
		return mkPtr(s.obj, s.off)
	case "Add":
		p := w.resolvePtr(a[0])
		n := w.intOf(a[1], "unsafe.Add offset")
		o := p.x.(*Obj)
		return w.uptrToPtr(UPtr{o, w.byteOff(o, int(p.n)) + n})
	}
	w.unsupported("builtin " + name)
	return Value{}
}

func growCap(old, need int) int {
	nc := old
	if need > old*2 {
		return need
	}
	if old < 256 {
		nc = old * 2
	} else {
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	if nc < need {
		nc = need
	}
	return nc
}

func (w *Wk) appendB(a, b Value, t types.Type) Value {
	s, x := sliceOf(a), sliceOf(b)
	if x.len == 0 {
		return a
	}
	el := t.Underlying().(*types.Slice).Elem()
	l := w.ls.get(el)
	n := s.len + x.len
	var src []Value
	if l.n > 0 {
		src = x.obj.slots[x.off : x.off+x.len*l.n]
		if w.race != nil && !x.obj.ro {
			for i := range src {
				w.raceAccess(x.obj, x.off+i, false)
			}
		}
	}
	if n <= s.cap {
		r := *s
		r.len = n
		w.writeRange(s.obj, s.off+s.len*l.n, src)
		return Value{k: KSlice, x: &r}
	}
	nc := growCap(s.cap, n)
	if l.size == 1 && nc < 8 {
		nc = 8
	}
	w.checkAlloc(int64(nc) * l.size)
	o := w.newObj(el, nc)
	if s.len > 0 && l.n > 0 {
		old := s.obj.slots[s.off : s.off+s.len*l.n]
		if w.race != nil {
			for i := range old {
				w.raceAccess(s.obj, s.off+i, false)
			}
		}
		copy(o.slots, old)
	}
	copy(o.slots[s.len*l.n:], src)
	return Value{k: KSlice, x: &SliceV{obj: o, len: n, cap: nc}}
}

// writeRange copies src (possibly overlapping) to o.slots[off:].
func (w *Wk) writeRange(o *Obj, off int, src []Value) {
	if len(src) == 0 {
		return
	}
	if o.ro {
		w.unsupported("write to read-only object")
	}
	if w.race != nil {
		for i := range src {
			w.raceAccess(o, off+i, true)
		}
	}
	if o.base && !o.saved && w.initDepth == 0 {
		src = append([]Value(nil), src...)
		w.touch(o)
	}
	if w.initDepth > 0 && o.saved {
		for i := range src {
			w.setSlot(o, off+i, src[i])
		}
		return
	}
	copy(o.slots[off:off+len(src)], src)
}

func (w *Wk) copyB(a, b Value, t types.Type) Value {
	d, s := sliceOf(a), sliceOf(b)
	n := min(d.len, s.len)
	if n == 0 {
		return mkInt(64, 0)
	}
	per := 1
	if t != nil {
		per = w.ls.get(t.Underlying().(*types.Slice).Elem()).n
	}
	if w.race != nil && !s.obj.ro {
		for i := 0; i < n*per; i++ {
			w.raceAccess(s.obj, s.off+i, false)
		}
	}
	w.writeRange(d.obj, d.off, s.obj.slots[s.off:s.off+n*per])
	return mkInt(64, uint64(n))
}
