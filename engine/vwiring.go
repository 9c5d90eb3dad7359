package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

// vsym.Replace and vsym.ParseFlags: stand-ins for what surrounds the repository's code.

func defWiring(v func(n string, f func(w *Wk, g *G, fi *fnInfo, a []Value) Value)) {
	fun := func(w *Wk, x Value) *FuncV {
		if i, ok := x.x.(*IfaceV); ok {
			if f, ok := i.v.x.(*FuncV); ok {
				return f
			}
		}
		w.unsupported("Replace: not a function")
		return nil
	}
	v("Replace", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		old, repl := fun(w, a[0]), fun(w, a[1])
		if old.fn == nil {
			w.unsupported("Replace: not a plain function")
		}
		f := old.fn
		// a method expression is a synthetic function around the method
		if o, ok := f.Object().(*types.Func); ok && f.Synthetic != "" {
			if m := w.prog.prog.FuncValue(o); m != nil {
				f = m
			}
		}
		if w.repl == nil {
			w.repl = map[*fnInfo]Value{}
		}
		w.repl[w.fn(f)] = Value{k: KFunc, x: repl}
		return Value{}
	})
	v("ParseFlags", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		i, ok := a[0].x.(*IfaceV)
		if !ok {
			w.unsupported("ParseFlags: no options")
		}
		pt, ok := i.t.Underlying().(*types.Pointer)
		if !ok {
			w.unsupported("ParseFlags: options are not given by pointer")
		}
		var args []string
		if s := sliceOf(a[1]); s.len > 0 {
			for k := 0; k < s.len; k++ {
				args = append(args, w.mustStr(s.obj.slots[s.off+k], "argument"))
			}
		}
		w.parseFlags(i.v, pt.Elem(), args)
		return Value{}
	})
}

func (w *Wk) parseFlags(p Value, t types.Type, args []string) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	l := w.ls.get(t)
	for i := 0; i < st.NumFields(); i++ {
		q, ft := p, st.Field(i).Type()
		q.n += uint64(l.flds[i])
		tag := reflect.StructTag(st.Tag(i))
		name := tag.Get("long")
		if name == "" {
			w.parseFlags(q, ft, args)
			continue
		}
		var vals []string
		for _, arg := range args {
			if strings.HasPrefix(arg, "--"+name+"=") {
				vals = append(vals, arg[len(name)+3:])
			} else if arg == "--"+name {
				vals = append(vals, "true")
			}
		}
		if d, ok := tag.Lookup("default"); ok && len(vals) == 0 {
			vals = []string{d}
		}
		if len(vals) == 0 {
			continue
		}
		last := vals[len(vals)-1]
		fl := w.ls.get(ft)
		switch u := ft.Underlying().(type) {
		case *types.Basic:
			switch {
			case u.Info()&types.IsString != 0:
				w.store(q, w.str(last), fl)
			case u.Info()&types.IsBoolean != 0:
				w.store(q, mkBool(last == "true"), fl)
			case u.Info()&types.IsInteger != 0:
				n, err := strconv.ParseInt(last, 10, 64)
				if err == nil {
					w.store(q, mkInt(fl.w, uint64(n)), fl)
				}
			}
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
				o := w.newObj(u.Elem(), len(vals))
				for k, s := range vals {
					w.store(mkPtr(o, k), w.str(s), w.ls.get(u.Elem()))
				}
				w.store(q, Value{k: KSlice, x: &SliceV{obj: o, len: len(vals), cap: len(vals)}}, fl)
			}
		default:
			w.unsupported(fmt.Sprintf("ParseFlags: option %s of type %s", name, ft))
		}
	}
}
