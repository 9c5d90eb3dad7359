package main

import (
	"go/types"
)

const r2 = "github.com/modern-go/reflect2"

type r2Type struct{ t types.Type }

func (w *Wk) r2obj(kind string, t types.Type) Value {
	key := "r2:" + kind + ":" + w.canon(t).String()
	if v, ok := w.baseSide[key]; ok {
		return v.(Value)
	}
	tt := w.prog.pkgs[r2].Type(kind).Type()
	o := &Obj{typ: tt, n: 1, base: true, ro: true, label: "reflect2 type"}
	w.baseID++
	o.id = w.baseID
	l := w.ls.get(tt)
	o.slots = make([]Value, l.n)
	l.fillZero(o.slots)
	w.baseSide[sideKey{o, 0}] = &r2Type{w.canon(t)}
	v := w.iface(types.NewPointer(tt), mkPtr(o, 0))
	w.baseSide[key] = v
	return v
}

func (w *Wk) r2of(t types.Type) Value {
	switch t.Underlying().(type) {
	case *types.Slice:
		return w.r2obj("UnsafeSliceType", t)
	case *types.Array:
		return w.r2obj("UnsafeArrayType", t)
	case *types.Struct:
		return w.r2obj("UnsafeStructType", t)
	case *types.Pointer:
		return w.r2obj("UnsafePtrType", t)
	}
	return w.r2obj("unsafeType", t)
}

func (w *Wk) r2get(p Value) types.Type {
	x, ok := w.baseSide[w.sideKeyOf(p)].(*r2Type)
	if !ok {
		w.unsupported("reflect2 type without model")
	}
	return x.t
}

type r2Field struct {
	off  int64
	name string
	t    types.Type
}

func defReflect2(def func(string, bool, func(w *Wk, g *G, fi *fnInfo, a []Value) Value)) {
	d := func(n string, f func(w *Wk, g *G, a []Value) Value) {
		def(n, false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return f(w, g, a) })
	}
	d(r2+".TypeOf", func(w *Wk, g *G, a []Value) Value {
		iv, _ := a[0].x.(*IfaceV)
		if iv == nil {
			return Value{k: KIface}
		}
		return w.r2of(iv.t)
	})
	def(r2+".NoEscape", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return a[0] })
	def(r2+".UnsafeCastString", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		s := sliceOf(a[0])
		if s.len == 0 {
			return Value{k: KSlice}
		}
		return Value{k: KSlice, x: s}
	})
	for _, k := range []string{"UnsafeSliceType", "UnsafeArrayType", "UnsafeStructType", "UnsafePtrType", "unsafeType"} {
		d("(*"+r2+"."+k+").String", func(w *Wk, g *G, a []Value) Value { return w.str(w.r2get(a[0]).String()) })
		d("(*"+r2+"."+k+").Elem", func(w *Wk, g *G, a []Value) Value {
			switch u := w.r2get(a[0]).Underlying().(type) {
			case *types.Slice:
				return w.r2of(u.Elem())
			case *types.Array:
				return w.r2of(u.Elem())
			case *types.Pointer:
				return w.r2of(u.Elem())
			}
			w.unsupported("reflect2 Elem")
			return Value{}
		})
	}
	hdr := func(w *Wk, p Value) (*Obj, int, *SliceV) {
		p = w.resolvePtr(p)
		o, _ := p.x.(*Obj)
		if o == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return o, int(p.n), sliceOf(o.slots[int(p.n)])
	}
	sl := "(*" + r2 + ".UnsafeSliceType)."
	d(sl+"UnsafeGrow", func(w *Wk, g *G, a []Value) Value {
		t := w.r2get(a[0]).Underlying().(*types.Slice).Elem()
		l := w.ls.get(t)
		o, slot, s := hdr(w, a[1])
		n := int(w.intOf(a[2], "slice length"))
		w.raceAccess(o, slot, true)
		if n <= s.cap {
			r := *s
			r.len = n
			w.setSlot(o, slot, Value{k: KSlice, x: &r})
			return Value{}
		}
		nc := s.cap
		if nc == 0 {
			nc = n
		} else {
			for nc < n {
				if s.cap < 1024 {
					nc += nc
				} else {
					nc += nc / 4
				}
			}
		}
		w.checkAlloc(int64(nc) * l.size)
		no := w.newObj(t, nc)
		if s.len > 0 && l.n > 0 {
			copy(no.slots, s.obj.slots[s.off:s.off+s.len*l.n])
		}
		w.setSlot(o, slot, Value{k: KSlice, x: &SliceV{obj: no, len: n, cap: nc}})
		return Value{}
	})
	d(sl+"UnsafeGetIndex", func(w *Wk, g *G, a []Value) Value {
		l := w.ls.get(w.r2get(a[0]).Underlying().(*types.Slice).Elem())
		o, slot, s := hdr(w, a[1])
		w.raceAccess(o, slot, false)
		i := int(w.intOf(a[2], "index"))
		if s.obj == nil || i < 0 || i >= s.cap {
			w.unsupported("unchecked element access outside the slice")
		}
		return mkPtr(s.obj, s.off+i*l.n)
	})
	d(sl+"UnsafeLengthOf", func(w *Wk, g *G, a []Value) Value { _, _, s := hdr(w, a[1]); return mkInt(64, uint64(s.len)) })
	d(sl+"UnsafeCap", func(w *Wk, g *G, a []Value) Value { _, _, s := hdr(w, a[1]); return mkInt(64, uint64(s.cap)) })
	d(sl+"UnsafeSetNil", func(w *Wk, g *G, a []Value) Value {
		o, slot, _ := hdr(w, a[1])
		w.setSlot(o, slot, Value{k: KSlice})
		return Value{}
	})
	ar := "(*" + r2 + ".UnsafeArrayType)."
	d(ar+"Len", func(w *Wk, g *G, a []Value) Value {
		return mkInt(64, uint64(w.r2get(a[0]).Underlying().(*types.Array).Len()))
	})
	d(ar+"UnsafeGetIndex", func(w *Wk, g *G, a []Value) Value {
		at := w.r2get(a[0]).Underlying().(*types.Array)
		l := w.ls.get(at.Elem())
		p := w.resolvePtr(a[1])
		i := w.intOf(a[2], "index")
		if i < 0 || i >= at.Len() {
			w.unsupported("unchecked element access outside the array")
		}
		return mkPtr(p.x.(*Obj), int(p.n)+int(i)*l.n)
	})
	st := "(*" + r2 + ".UnsafeStructType)."
	d(st+"FieldByName", func(w *Wk, g *G, a []Value) Value {
		t := w.r2get(a[0])
		name := w.mustStr(a[1], "field name")
		u := t.Underlying().(*types.Struct)
		fs := make([]*types.Var, u.NumFields())
		idx := -1
		for i := range fs {
			fs[i] = u.Field(i)
			if fs[i].Name() == name {
				idx = i
			}
		}
		if idx < 0 {
			w.goPanic("field " + name + " not found")
		}
		key := "r2f:" + t.String() + "." + name
		if v, ok := w.baseSide[key]; ok {
			return v.(Value)
		}
		ft := w.prog.pkgs[r2].Type("UnsafeStructField").Type()
		o := &Obj{typ: ft, n: 1, base: true, ro: true}
		w.baseID++
		o.id = w.baseID
		l := w.ls.get(ft)
		o.slots = make([]Value, l.n)
		l.fillZero(o.slots)
		w.baseSide[sideKey{o, 0}] = &r2Field{off: sizes.Offsetsof(fs)[idx], name: name, t: fs[idx].Type()}
		v := w.iface(types.NewPointer(ft), mkPtr(o, 0))
		w.baseSide[key] = v
		return v
	})
	d("(*"+r2+".UnsafeStructField).Offset", func(w *Wk, g *G, a []Value) Value {
		return mkInt(64, uint64(w.baseSide[w.sideKeyOf(a[0])].(*r2Field).off))
	})
	d("(*"+r2+".UnsafeStructField).Type", func(w *Wk, g *G, a []Value) Value {
		return w.r2of(w.baseSide[w.sideKeyOf(a[0])].(*r2Field).t)
	})
}
