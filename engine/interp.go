package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	fi     *fnInfo
	regs   []Value
	caller *frame
	ci     *cins
	defers []deferred
	g      *G
	depth  int
	panicV *goPanicV
	defOf  *frame // frame whose panic recover() in this frame sees
}

type deferred struct {
	fv   Value
	fi   *fnInfo
	args []Value
	bi   string
	bit  types.Type
}

type goPanicV struct {
	msg       string
	val       Value
	stack     string
	recovered bool
	goexit    bool
}

type regionAbort struct{}

// goPanic raises a Go run-time panic in the interpreted program.
func (w *Wk) goPanic(msg string) {
	if w.guard != nil {
		panic(regionAbort{})
	}
	v := w.iface(types.Typ[types.String], w.str(msg))
	panic(&goPanicV{msg: msg, val: v, stack: w.stackTrace()})
}

// check raises a run-time panic unless c holds (forking when both are possible).
func (w *Wk) check(c *Term, msg string) {
	if c == w.ts.True {
		return
	}
	if !w.branchG(c) {
		w.goPanic(msg)
	}
}

func (f *frame) get(w *Wk, o *opnd) Value {
	switch o.kind {
	case oReg:
		return f.regs[o.reg]
	case oConst:
		return o.val
	}
	return mkPtr(w.global(o.glob), 0)
}

func (w *Wk) global(gl *ssa.Global) *Obj {
	if o, ok := w.globals[gl]; ok {
		if w.inited[gl.Pkg] == 0 {
			w.initPkg(gl.Pkg)
		}
		return o
	}
	t := gl.Type().Underlying().(*types.Pointer).Elem()
	w.initDepth++
	o := w.newObj(t, 1)
	w.initDepth--
	o.label = gl.String()
	w.globals[gl] = o
	if w.inited[gl.Pkg] == 0 {
		w.initPkg(gl.Pkg)
	}
	return o
}

func (w *Wk) initPkg(p *ssa.Package) {
	if w.inited[p] != 0 {
		return
	}
	w.inited[p] = 1
	if skipInit(p.Pkg.Path()) && !(w.opts.realTime && p.Pkg.Path() == "time") {
		return
	}
	f := p.Func("init")
	if f == nil || w.cur == nil {
		return
	}
	sg, steps, race := w.guard, w.steps, w.race
	w.guard, w.race = nil, nil
	w.initDepth++
	ms := w.ho.maxSteps
	w.ho.maxSteps = 1 << 60
	func() {
		defer func() {
			if r := recover(); r != nil {
				// it is tried again when it is needed again
				w.inited[p] = 0
				if gl, ok := p.Members["init$guard"].(*ssa.Global); ok && w.globals[gl] != nil {
					delete(w.globals, gl)
				}
				w.initDepth--
				w.guard, w.steps, w.race = sg, steps, race
				w.ho.maxSteps = ms
				if pe, ok := r.(pathEnd); ok {
					pe.msg += " [during init of " + p.Pkg.Path() + "]"
					panic(pe)
				}
				panic(r)
			}
		}()
		w.callFn(w.cur, f, nil, nil)
	}()
	w.initDepth--
	w.guard, w.steps, w.race = sg, steps, race
	w.ho.maxSteps = ms
	w.inited[p] = 2
}

// callFn runs fn with args to completion.
func (w *Wk) callFn(g *G, fn *ssa.Function, bind []Value, args []Value) Value {
	return w.callFi(g, w.fn(fn), bind, args, nil)
}

func (w *Wk) callFi(g *G, fi *fnInfo, bind []Value, args []Value, defOf *frame) Value {
	if w.repl != nil {
		if f, ok := w.repl[fi]; ok {
			if w.guard != nil {
				panic(regionAbort{})
			}
			return w.callValue(g, f, args, defOf)
		}
	}
	if fi.intr != nil {
		if w.guard != nil && !fi.intr.pure {
			panic(regionAbort{})
		}
		return fi.intr.run(w, g, fi, args)
	}
	if w.guard != nil {
		return w.evalPureCall(g, fi, bind, args)
	}
	if fi.fn.Blocks == nil {
		w.unsupported("no body: " + fi.name)
	}
	if fi.fn.Synthetic == "package initializer" && fi.fn.Pkg != nil && w.initDepth > 0 && g.top != nil && g.top.fi.fn.Synthetic == "package initializer" && g.top.fi != fi {
		return Value{} // imported packages initialise on first use
	}
	if !fi.compiled {
		w.compile(fi)
	}
	if w.funcs != nil && w.initDepth == 0 {
		if !w.funcs[fi.name] {
			w.funcs[fi.name] = true
		}
	}
	if !w.ho.noMerge && w.initDepth == 0 && anySym(args) && w.isPure(fi.fn) == 1 {
		if v, ok := w.tryPureCall(g, fi, bind, args); ok {
			return v
		}
	}
	fr := &frame{fi: fi, caller: g.top, g: g, defOf: defOf}
	if g.top != nil {
		fr.depth = g.top.depth + 1
	}
	if fr.depth > w.ho.maxDepth && w.initDepth == 0 {
		if w.ho.depthViol {
			w.violateHere("depth", fmt.Sprintf("recursion deeper than %d frames", w.ho.maxDepth))
		}
		panic(pathEnd{"limit", fmt.Sprintf("recursion deeper than %d frames", w.ho.maxDepth)})
	}
	fr.regs = make([]Value, fi.nregs)
	for i, p := range fi.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fi.fvs {
		fr.regs[p] = bind[i]
	}
	g.top = fr
	var res Value
	if fi.hasDef {
		res = w.runWithDefers(fr)
	} else {
		res = w.run(fr, 0, -1)
	}
	g.top = fr.caller
	return res
}

func (w *Wk) violateHere(kind, msg string) {
	m := w.model
	if m == nil {
		r, mm := w.solver.Check(nil, true)
		if r != resSat {
			panic(pathEnd{"infeasible", "violation on an infeasible path"})
		}
		m = mm
	}
	w.violate(kind, msg, m)
}

func (w *Wk) runWithDefers(fr *frame) (res Value) {
	g := fr.g
	ok := false
	func() {
		defer func() {
			if ok {
				return
			}
			r := recover()
			p, isGo := r.(*goPanicV)
			if !isGo {
				panic(r)
			}
			g.top = fr
			fr.panicV = p
		}()
		res = w.run(fr, 0, -1)
		ok = true
	}()
	if ok {
		return res
	}
	w.runDefers(fr)
	if fr.panicV != nil {
		panic(fr.panicV)
	}
	if fr.fi.recover >= 0 {
		g.top = fr
		return w.run(fr, fr.fi.recover, -1)
	}
	sig := fr.fi.fn.Signature.Results()
	switch sig.Len() {
	case 0:
		return Value{}
	case 1:
		return w.ls.get(sig.At(0).Type()).zeroValue()
	}
	vs := make([]Value, sig.Len())
	for i := range vs {
		vs[i] = w.ls.get(sig.At(i).Type()).zeroValue()
	}
	return Value{k: KTuple, x: vs}
}

func (w *Wk) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			defer func() {
				if r := recover(); r != nil {
					p, isGo := r.(*goPanicV)
					if !isGo {
						panic(r)
					}
					fr.g.top = fr
					fr.panicV = p // replaces the earlier panic
				}
			}()
			w.callDeferred(fr, d)
		}()
	}
}

func (w *Wk) callDeferred(fr *frame, d deferred) {
	if d.bi != "" {
		w.builtin(fr, d.bi, d.args, d.bit)
		return
	}
	if d.fi != nil {
		w.callFi(fr.g, d.fi, nil, d.args, fr)
		return
	}
	w.callValue(fr.g, d.fv, d.args, fr)
}

func (w *Wk) callValue(g *G, fv Value, args []Value, defOf *frame) Value {
	f, _ := fv.x.(*FuncV)
	if f == nil {
		w.goPanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
	}
	switch {
	case f.gofn != nil:
		if w.guard != nil {
			panic(regionAbort{})
		}
		return f.gofn(g, args)
	case f.intr != nil:
		if w.guard != nil {
			panic(regionAbort{})
		}
		return f.intr.run(w, g, nil, args)
	case f.bi != nil:
		return w.builtin(g.top, f.bi.Name(), args, nil)
	}
	return w.callFi(g, w.fn(f.fn), f.bind, args, defOf)
}

func (w *Wk) method(t types.Type, m *types.Func) *ssa.Function {
	pkg := ""
	if !m.Exported() {
		pkg = m.Pkg().Path()
	}
	k := methKey{t, m.Name(), pkg}
	if f, ok := w.methC[k]; ok {
		return f
	}
	f := w.prog.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		w.unsupported("method " + m.Name() + " of " + t.String())
	}
	w.methC[k] = f
	return f
}

func (w *Wk) methodByName(t types.Type, name string) *ssa.Function {
	ms := w.prog.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return w.prog.prog.MethodValue(ms.At(i))
		}
	}
	return nil
}

// prepare evaluates the callee and arguments of a call instruction.
func (w *Wk) prepare(fr *frame, c *cins) (fi *fnInfo, fv Value, args []Value) {
	if c.callee != nil {
		args = make([]Value, len(c.ops))
		for i := range c.ops {
			args[i] = fr.get(w, &c.ops[i])
		}
		return c.callee, Value{}, args
	}
	v := fr.get(w, &c.ops[0])
	if c.common.IsInvoke() {
		iv, _ := v.x.(*IfaceV)
		if iv == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference (method " + c.common.Method.Name() + " on nil interface)")
		}
		f := w.method(iv.t, c.common.Method)
		args = make([]Value, len(c.ops))
		args[0] = iv.v
		for i := 1; i < len(c.ops); i++ {
			args[i] = fr.get(w, &c.ops[i])
		}
		return w.fn(f), Value{}, args
	}
	args = make([]Value, len(c.ops)-1)
	for i := 1; i < len(c.ops); i++ {
		args[i-1] = fr.get(w, &c.ops[i])
	}
	return nil, v, args
}

func (w *Wk) doCall(fr *frame, c *cins) Value {
	if c.bi != "" {
		args := make([]Value, len(c.ops))
		for i := range c.ops {
			args[i] = fr.get(w, &c.ops[i])
		}
		return w.builtin(fr, c.bi, args, c.t)
	}
	fi, fv, args := w.prepare(fr, c)
	if fi != nil {
		return w.callFi(fr.g, fi, nil, args, nil)
	}
	return w.callValue(fr.g, fv, args, nil)
}

// enter evaluates the phis of block b coming from block prev.
func (w *Wk) enter(fr *frame, b, prev int) {
	cb := fr.fi.blocks[b]
	if len(cb.phis) == 0 {
		return
	}
	pi := -1
	for i, p := range cb.preds {
		if p == prev {
			pi = i
			break
		}
	}
	if len(cb.phis) == 1 {
		c := &cb.phis[0]
		fr.regs[c.dst] = fr.get(w, &c.ops[pi])
		return
	}
	tmp := make([]Value, len(cb.phis))
	for i := range cb.phis {
		tmp[i] = fr.get(w, &cb.phis[i].ops[pi])
	}
	for i := range cb.phis {
		fr.regs[cb.phis[i].dst] = tmp[i]
	}
}

func (w *Wk) run(fr *frame, b, prev int) Value {
	fi := fr.fi
	for {
		cb := fi.blocks[b]
		old := w.steps
		w.steps += int64(len(cb.ins))
		if old>>18 != w.steps>>18 {
			w.checkTime()
		}
		if w.steps > w.ho.maxSteps && w.initDepth == 0 {
			if w.ho.stepsViol {
				w.violateHere("hang", fmt.Sprintf("no termination within %d instructions", w.ho.maxSteps))
			}
			panic(pathEnd{"limit", fmt.Sprintf("more than %d instructions", w.ho.maxSteps)})
		}
		for i := range cb.ins {
			c := &cb.ins[i]
			fr.ci = c
			switch c.op {
			case iJump:
				prev, b = b, cb.succs[0]
				w.enter(fr, b, prev)
			case iIf:
				v := fr.get(w, &c.ops[0])
				if t, ok := v.x.(*Term); ok && t.op != OpConst {
					if !w.ho.noMerge {
						nb, np, res, done := w.tryRegion(fr, b, t)
						if done == 1 {
							b, prev = nb, np
							break
						}
						if done == 2 {
							return res
						}
					}
					if w.branch(t) {
						prev, b = b, cb.succs[0]
					} else {
						prev, b = b, cb.succs[1]
					}
				} else if v.n != 0 {
					prev, b = b, cb.succs[0]
				} else {
					prev, b = b, cb.succs[1]
				}
				w.enter(fr, b, prev)
			case iReturn:
				switch len(c.ops) {
				case 0:
					return Value{}
				case 1:
					return fr.get(w, &c.ops[0])
				}
				vs := make([]Value, len(c.ops))
				for i := range c.ops {
					vs[i] = fr.get(w, &c.ops[i])
				}
				return Value{k: KTuple, x: vs}
			default:
				w.exec(fr, c)
			}
		}
	}
}

// exec runs one instruction that does not transfer control.
func (w *Wk) exec(fr *frame, c *cins) {
	switch c.op {
	case iAlloc:
		fr.regs[c.dst] = mkPtr(w.newObj(c.t, 1), 0)
	case iBinOp:
		fr.regs[c.dst] = w.binop(c, fr.get(w, &c.ops[0]), fr.get(w, &c.ops[1]))
	case iDeref:
		fr.regs[c.dst] = w.load(fr.get(w, &c.ops[0]), c.lay)
	case iUnOp:
		fr.regs[c.dst] = w.unop(c, fr.get(w, &c.ops[0]))
	case iCall:
		fr.regs[c.dst] = w.doCall(fr, c)
	case iChangeInterface, iChangeType:
		fr.regs[c.dst] = fr.get(w, &c.ops[0])
	case iConvert:
		fr.regs[c.dst] = w.convert(c, fr.get(w, &c.ops[0]))
	case iExtract:
		v := fr.get(w, &c.ops[0])
		fr.regs[c.dst] = v.x.([]Value)[c.n]
	case iField:
		v := fr.get(w, &c.ops[0])
		s := v.x.([]Value)
		if c.lay.isAgg {
			fr.regs[c.dst] = Value{k: KAgg, x: s[c.n : c.n+c.lay.n : c.n+c.lay.n]}
		} else {
			fr.regs[c.dst] = s[c.n]
		}
	case iFieldAddr:
		v := fr.get(w, &c.ops[0])
		switch p := v.x.(type) {
		case *Obj:
			v.n += uint64(c.n)
			fr.regs[c.dst] = v
		case *SymPtr:
			q := *p
			q.fld += c.n
			fr.regs[c.dst] = Value{k: KPtr, x: &q}
		case nil:
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		default:
			w.unsupported("field of foreign pointer")
		}
	case iIndex:
		w.index(fr, c)
	case iIndexAddr:
		w.indexAddr(fr, c)
	case iLookup:
		w.lookup(fr, c)
	case iMakeClosure:
		f := fr.get(w, &c.ops[0]).x.(*FuncV)
		bind := make([]Value, len(c.ops)-1)
		for i := range bind {
			bind[i] = fr.get(w, &c.ops[i+1])
		}
		fr.regs[c.dst] = Value{k: KFunc, x: &FuncV{fn: f.fn, bind: bind}}
	case iMakeInterface:
		fr.regs[c.dst] = Value{k: KIface, x: &IfaceV{t: c.t, v: fr.get(w, &c.ops[0])}}
	case iStore:
		w.store(fr.get(w, &c.ops[0]), fr.get(w, &c.ops[1]), c.lay)
	case iSlice:
		fr.regs[c.dst] = w.slice(c, fr.get(w, &c.ops[0]), fr.get(w, &c.ops[1]), fr.get(w, &c.ops[2]), fr.get(w, &c.ops[3]))
	case iTypeAssert:
		w.typeAssert(fr, c)
	default:
		if w.guard != nil {
			panic(regionAbort{})
		}
		w.execImpure(fr, c)
	}
}

func (w *Wk) execImpure(fr *frame, c *cins) {
	switch c.op {
	case iMakeMap:
		if len(c.ops) > 0 && w.ho.maxAlloc > 0 && w.initDepth == 0 {
			// a huge size hint allocates; a negative one or one out of range counts as zero
			n := fr.get(w, &c.ops[0])
			lim := uint64(w.ho.maxAlloc / 16)
			if t, ok := n.x.(*Term); ok {
				t = w.ts.Resize(t, 64, true)
				big := w.ts.And(w.ts.Ult(w.ts.Const(64, lim), t), w.ts.Ult(t, w.ts.Const(64, 1<<40)))
				w.mustHoldAssume(w.ts.Not(big), "alloc", "map with a huge size hint")
			} else if k := uint64(n.n); k > lim && k < 1<<40 {
				w.violateHere("alloc", "map with a huge size hint")
			}
		}
		fr.regs[c.dst] = Value{k: KMap, x: w.newMap()}
	case iMakeSlice:
		n := fr.get(w, &c.ops[0])
		m := fr.get(w, &c.ops[1])
		fr.regs[c.dst] = w.makeSlice(c, n, m)
	case iMapUpdate:
		m, _ := fr.get(w, &c.ops[0]).x.(*MapObj)
		if m == nil {
			w.goPanic("assignment to entry in nil map")
		}
		w.mapSet(m, fr.get(w, &c.ops[1]), fr.get(w, &c.ops[2]))
	case iRange:
		v := fr.get(w, &c.ops[0])
		it := &IterV{}
		if v.k == KString {
			it.strv = sliceOf(v)
		} else {
			it.m, _ = v.x.(*MapObj)
			it.seen = map[int]bool{}
		}
		fr.regs[c.dst] = Value{k: KIter, x: it}
	case iNext:
		fr.regs[c.dst] = w.next(c, fr.get(w, &c.ops[0]).x.(*IterV))
	case iPanic:
		v := fr.get(w, &c.ops[0])
		panic(&goPanicV{msg: w.panicText(v), val: v, stack: w.stackTrace()})
	case iDefer:
		d := deferred{}
		if c.bi != "" {
			d.bi = c.bi
			d.bit = c.t
			for i := range c.ops {
				d.args = append(d.args, fr.get(w, &c.ops[i]))
			}
		} else {
			d.fi, d.fv, d.args = w.prepare(fr, c)
		}
		fr.defers = append(fr.defers, d)
	case iRunDefers:
		w.runDefers(fr)
		if fr.panicV != nil {
			p := fr.panicV
			fr.panicV = nil
			panic(p)
		}
	case iGo:
		if c.bi != "" {
			w.unsupported("go builtin")
		}
		fi, fv, args := w.prepare(fr, c)
		w.spawn(fr.g, fi, fv, args)
	case iMakeChan:
		n := w.intOf(fr.get(w, &c.ops[0]), "channel size")
		fr.regs[c.dst] = Value{k: KChan, x: w.newChan(int(n), c.t)}
	case iSend:
		w.chanSend(fr.g, fr.get(w, &c.ops[0]), fr.get(w, &c.ops[1]))
	case iRecv:
		v, ok := w.chanRecv(fr.g, fr.get(w, &c.ops[0]), c.t)
		if c.flag {
			fr.regs[c.dst] = Value{k: KTuple, x: []Value{v, mkBool(ok)}}
		} else {
			fr.regs[c.dst] = v
		}
	case iSelect:
		w.doSelect(fr, c)
	case iSliceToArrayPtr:
		v := fr.get(w, &c.ops[0])
		s := sliceOf(v)
		if s.len < c.n {
			w.goPanic("runtime error: cannot convert slice to array pointer")
		}
		if v.x == nil {
			fr.regs[c.dst] = nilPtr
		} else {
			fr.regs[c.dst] = mkPtr(s.obj, s.off)
		}
	default:
		w.unsupported(fmt.Sprintf("instruction %T", c.in))
	}
}

func (w *Wk) panicText(v Value) string {
	iv, _ := v.x.(*IfaceV)
	if iv == nil {
		return "panic(nil)"
	}
	if iv.v.k == KString {
		if s, ok := w.concreteStr(iv.v); ok {
			return s
		}
	}
	return "panic of type " + iv.t.String()
}

// ---- memory ----

func (w *Wk) resolvePtr(p Value) Value {
	s, ok := p.x.(*SymPtr)
	if !ok {
		return p
	}
	if w.guard != nil {
		panic(regionAbort{})
	}
	i := w.concretize(s.idx, w.ho.concLimit, "index")
	return mkPtr(s.obj, s.off+int(i)*s.stride+s.fld)
}

func (w *Wk) load(p Value, l *layout) Value {
	switch o := p.x.(type) {
	case *Obj:
		off := int(p.n)
		if w.race != nil {
			for i := 0; i < l.n; i++ {
				w.raceAccess(o, off+i, false)
			}
		}
		if l.isAgg {
			if off+l.n > len(o.slots) {
				w.unsupported("load beyond object")
			}
			return Value{k: KAgg, x: append([]Value(nil), o.slots[off:off+l.n]...)}
		}
		if off >= len(o.slots) {
			w.unsupported("load beyond object")
		}
		v := o.slots[off]
		if v.k != l.kind || v.w != l.w {
			return w.castLoad(v, l)
		}
		return v
	case *SymPtr:
		return w.loadSym(o, l)
	case nil:
		w.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	w.unsupported("load through foreign pointer")
	return Value{}
}

func (w *Wk) castLoad(v Value, l *layout) Value {
	switch {
	case v.k == KSlice && l.kind == KString:
		s := sliceOf(v)
		if s.len == 0 {
			return Value{k: KString}
		}
		return Value{k: KString, x: s}
	case v.k == KString && l.kind == KSlice:
		return Value{k: KSlice, x: v.x}
	case v.k == KFloat && l.kind == KFloat:
		return v
	case v.k == KPtr && (l.kind == KMap || l.kind == KChan || l.kind == KFunc) && v.x == nil:
		return Value{k: l.kind}
	}
	w.unsupported(fmt.Sprintf("reinterpreting load kind %d/%d as %d/%d", v.k, v.w, l.kind, l.w))
	return Value{}
}

// tableTerm builds the term for an element of a table of integers selected by idx.
func (w *Wk) tableTerm(s *SymPtr, l *layout) (*Term, bool) {
	key := tabKey{s.obj, s.off, s.stride, s.n, s.fld, s.idx}
	stable := s.obj.base && !s.obj.saved
	if stable {
		if t, ok := w.tabC[key]; ok {
			return t, true
		}
	}
	ts := w.ts
	iw := s.idx.w
	elems := make([]*Term, s.n)
	for i := range elems {
		v := s.obj.slots[s.off+i*s.stride+s.fld]
		if (v.k != KInt && v.k != KBool) || v.k != l.kind || v.w != l.w {
			return nil, false
		}
		if _, ok := v.x.(UPtr); ok {
			return nil, false
		}
		elems[i] = w.term(v)
	}
	// group runs of equal terms, the most frequent term is the default
	cnt := map[*Term]int{}
	for _, e := range elems {
		cnt[e]++
	}
	def := elems[0]
	for _, e := range elems {
		if cnt[e] > cnt[def] {
			def = e
		}
	}
	conds := map[*Term]*Term{}
	var order []*Term
	for i := 0; i < s.n; {
		j := i
		for j+1 < s.n && elems[j+1] == elems[i] {
			j++
		}
		if elems[i] != def {
			var c *Term
			if i == j {
				c = ts.Eq(s.idx, ts.Const(iw, uint64(i)))
			} else {
				c = ts.And(ts.Ule(ts.Const(iw, uint64(i)), s.idx), ts.Ule(s.idx, ts.Const(iw, uint64(j))))
			}
			if old, ok := conds[elems[i]]; ok {
				conds[elems[i]] = ts.Or(old, c)
			} else {
				conds[elems[i]] = c
				order = append(order, elems[i])
			}
		}
		i = j + 1
	}
	r := def
	for i := len(order) - 1; i >= 0; i-- {
		r = ts.Ite(conds[order[i]], order[i], r)
	}
	if stable {
		w.tabC[key] = r
	}
	return r, true
}

func (w *Wk) loadSym(s *SymPtr, l *layout) Value {
	if l.n == 1 && !l.isAgg && (l.kind == KInt || l.kind == KBool) {
		if w.race != nil {
			for i := 0; i < s.n; i++ {
				w.raceAccess(s.obj, s.off+i*s.stride+s.fld, false)
			}
		}
		if t, ok := w.tableTerm(s, l); ok {
			return fromTerm(t)
		}
	}
	return w.load(w.resolvePtr(Value{k: KPtr, x: s}), l)
}

func (w *Wk) store(p Value, v Value, l *layout) {
	switch o := p.x.(type) {
	case *Obj:
		off := int(p.n)
		if w.race != nil {
			for i := 0; i < l.n; i++ {
				w.raceAccess(o, off+i, true)
			}
		}
		if off+l.n > len(o.slots) {
			w.unsupported("store beyond object")
		}
		if l.isAgg {
			s := v.x.([]Value)
			for i := range s {
				w.setSlot(o, off+i, s[i])
			}
			return
		}
		if ov := o.slots[off]; ov.k != l.kind || ov.w != l.w {
			// reinterpreting store: keep the kind of the slot
			switch {
			case ov.k == KSlice && l.kind == KString || ov.k == KString && l.kind == KSlice:
				v = Value{k: ov.k, x: v.x}
			case l.kind == KPtr && (ov.k == KMap || ov.k == KChan || ov.k == KFunc) && v.x == nil:
				v = Value{k: ov.k}
			default:
				w.unsupported(fmt.Sprintf("reinterpreting store kind %d over %d", l.kind, ov.k))
			}
		}
		w.setSlot(o, off, v)
		return
	case *SymPtr:
		if l.n == 1 && !l.isAgg && (l.kind == KInt || l.kind == KBool) && o.n <= 64 {
			if _, isP := v.x.(UPtr); !isP {
				nt := w.term(v)
				for i := 0; i < o.n; i++ {
					sl := o.off + i*o.stride + o.fld
					old := w.term(o.obj.slots[sl])
					if w.race != nil {
						w.raceAccess(o.obj, sl, true)
					}
					w.setSlot(o.obj, sl, fromTerm(w.ts.Ite(w.ts.Eq(o.idx, w.ts.Const(o.idx.w, uint64(i))), nt, old)))
				}
				return
			}
		}
		w.store(w.resolvePtr(p), v, l)
		return
	case nil:
		w.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	w.unsupported("store through foreign pointer")
}

// idxTerm widens an index to 64 bits.
func (w *Wk) idxTerm(v Value, signed bool) *Term {
	return w.ts.Resize(w.term(v), 64, signed)
}

// boundIndex checks 0 <= i < n and gives the index, either concrete or as a term.
func (w *Wk) boundIndex(v Value, signed bool, n int) (int, *Term) {
	if v.x == nil {
		i := int64(v.n)
		if signed {
			i = sext64(v.n, v.w)
		}
		if i < 0 || i >= int64(n) {
			w.goPanic(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	t := w.idxTerm(v, signed)
	w.check(w.ts.Ult(t, w.ts.Const(64, uint64(n))), fmt.Sprintf("runtime error: index out of range with length %d", n))
	if t.op == OpConst {
		return int(t.k), nil
	}
	b := 24
	if constLeaves(t, &b) || n > 600 {
		if w.guard != nil {
			panic(regionAbort{})
		}
		return int(w.concretize(t, max(w.ho.concLimit, 600), "index")), nil
	}
	return 0, t
}

func (w *Wk) indexAddr(fr *frame, c *cins) {
	v := fr.get(w, &c.ops[0])
	iv := fr.get(w, &c.ops[1])
	var obj *Obj
	var off, n int
	if c.flag {
		v = w.resolvePtr(v)
		o, _ := v.x.(*Obj)
		if o == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		obj, off, n = o, int(v.n), c.n
	} else {
		s := sliceOf(v)
		obj, off, n = s.obj, s.off, s.len
	}
	i, t := w.boundIndex(iv, c.signed, n)
	if t == nil {
		fr.regs[c.dst] = mkPtr(obj, off+i*c.lay.n)
		return
	}
	fr.regs[c.dst] = Value{k: KPtr, x: &SymPtr{obj: obj, off: off, idx: t, stride: c.lay.n, n: n}}
}

func (w *Wk) index(fr *frame, c *cins) {
	v := fr.get(w, &c.ops[0])
	iv := fr.get(w, &c.ops[1])
	if v.k == KString {
		fr.regs[c.dst] = w.strIndex(v, iv, c.signed)
		return
	}
	s := v.x.([]Value)
	i, t := w.boundIndex(iv, c.signed, c.n)
	if t == nil {
		if c.lay.isAgg {
			fr.regs[c.dst] = Value{k: KAgg, x: s[i*c.lay.n : (i+1)*c.lay.n]}
		} else {
			fr.regs[c.dst] = s[i]
		}
		return
	}
	o := &Obj{slots: s, n: c.n, ro: true}
	fr.regs[c.dst] = w.loadSym(&SymPtr{obj: o, idx: t, stride: c.lay.n, n: c.n}, c.lay)
}

var byteLayout *layout

func (w *Wk) strIndex(v, iv Value, signed bool) Value {
	s := sliceOf(v)
	i, t := w.boundIndex(iv, signed, s.len)
	if t == nil {
		if w.race != nil && !s.obj.ro {
			w.raceAccess(s.obj, s.off+i, false)
		}
		return s.obj.slots[s.off+i]
	}
	return w.loadSym(&SymPtr{obj: s.obj, off: s.off, idx: t, stride: 1, n: s.len}, w.ls.get(types.Typ[types.Uint8]))
}

func (w *Wk) makeSlice(c *cins, n, m Value) Value {
	es := c.lay.size
	if es == 0 {
		es = 1
	}
	if t, ok := n.x.(*Term); ok {
		t = w.ts.Resize(t, 64, true)
		lim := int64(1) << 47
		w.check(w.ts.Ule(t, w.ts.Const(64, uint64(lim/es))), "runtime error: makeslice: len out of range")
		if w.ho.maxAlloc > 0 {
			w.mustHoldAssume(w.ts.Ule(t, w.ts.Const(64, uint64(w.ho.maxAlloc/es))), "alloc", fmt.Sprintf("allocation of more than %d bytes", w.ho.maxAlloc))
		}
	}
	ln := w.intOf(n, "slice length")
	cp := w.intOf(m, "slice capacity")
	if ln < 0 || ln > (1<<47)/es {
		w.goPanic("runtime error: makeslice: len out of range")
	}
	if cp < ln || cp > (1<<47)/es {
		w.goPanic("runtime error: makeslice: cap out of range")
	}
	w.checkAlloc(cp * es)
	if cp*int64(c.lay.n) > 1<<26 {
		panic(pathEnd{"limit", "allocation too large to model"})
	}
	o := w.newObj(c.t, int(cp))
	return Value{k: KSlice, x: &SliceV{obj: o, len: int(ln), cap: int(cp)}}
}

func (w *Wk) checkAlloc(n int64) {
	if w.ho.maxAlloc > 0 && w.initDepth == 0 && n > w.ho.maxAlloc {
		w.violateHere("alloc", fmt.Sprintf("allocation of %d bytes, more than %d", n, w.ho.maxAlloc))
	}
}

// mustHoldAssume reports a violation if c can fail.
func (w *Wk) mustHoldAssume(c *Term, kind, msg string) {
	if w.guard != nil {
		panic(regionAbort{})
	}
	w.mustHold(c, kind, msg)
}

func (w *Wk) slice(c *cins, v, lo, hi, mx Value) Value {
	var obj *Obj
	var off, ln, cp int
	switch c.kind {
	case KPtr:
		v = w.resolvePtr(v)
		o, _ := v.x.(*Obj)
		if o == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		obj, off, ln, cp = o, int(v.n), c.n, c.n
	case KString:
		s := sliceOf(v)
		obj, off, ln, cp = s.obj, s.off, s.len, s.len
	default:
		s := sliceOf(v)
		obj, off, ln, cp = s.obj, s.off, s.len, s.cap
	}
	if mx.k != KInvalid {
		m := w.intBound(mx, cp, "slice bounds out of range")
		cp = m
	}
	h := ln
	if hi.k != KInvalid {
		h = w.intBound(hi, cp, "slice bounds out of range")
	} else if ln > cp {
		w.goPanic("runtime error: slice bounds out of range")
	}
	l := 0
	if lo.k != KInvalid {
		l = w.intBound(lo, h, "slice bounds out of range")
	}
	if c.kind == KString {
		if h == l {
			return Value{k: KString}
		}
		return Value{k: KString, x: &SliceV{obj: obj, off: off + l, len: h - l, cap: h - l}}
	}
	if c.kind == KSlice && v.x == nil {
		return v
	}
	if cp == l {
		// keeps a non-nil empty slice without pointing past the end
		return Value{k: KSlice, x: &SliceV{obj: obj, off: off + l*c.lay.n, len: 0, cap: 0}}
	}
	return Value{k: KSlice, x: &SliceV{obj: obj, off: off + l*c.lay.n, len: h - l, cap: cp - l}}
}

// intBound checks 0 <= v <= limit and makes v concrete.
func (w *Wk) intBound(v Value, limit int, msg string) int {
	if t, ok := v.x.(*Term); ok {
		t64 := w.ts.Resize(t, 64, true)
		w.check(w.ts.Ule(t64, w.ts.Const(64, uint64(limit))), "runtime error: "+msg)
		return int(w.intOf(v, "slice bound"))
	}
	i := sext64(v.n, v.w)
	if i < 0 || i > int64(limit) {
		w.goPanic(fmt.Sprintf("runtime error: %s [%d with limit %d]", msg, i, limit))
	}
	return int(i)
}

// ---- interfaces ----

func (w *Wk) typeAssert(fr *frame, c *cins) {
	v := fr.get(w, &c.ops[0])
	iv, _ := v.x.(*IfaceV)
	ok := false
	var res Value
	if it, isI := c.t.Underlying().(*types.Interface); isI {
		ok = iv != nil && w.implements(iv.t, it)
		if ok {
			res = v
		} else {
			res = Value{k: KIface}
		}
	} else {
		ok = iv != nil && iv.t == c.t
		if ok {
			res = iv.v
		} else {
			res = c.lay.zeroValue()
		}
	}
	if c.flag {
		fr.regs[c.dst] = Value{k: KTuple, x: []Value{res, mkBool(ok)}}
		return
	}
	if !ok {
		w.goPanic("interface conversion: not " + c.t.String())
	}
	fr.regs[c.dst] = res
}

// ---- arithmetic ----

func (w *Wk) unop(c *cins, v Value) Value {
	switch c.tok {
	case token.NOT:
		if t, ok := v.x.(*Term); ok {
			return fromTerm(w.ts.Not(t))
		}
		return Value{k: KBool, n: 1 - v.n}
	case token.SUB:
		if v.k == KFloat {
			if t, ok := v.x.(*Term); ok {
				return fromFloat(w.ts.Bin(OpBXor, t, w.ts.Const(64, 1<<63)))
			}
			if v.x != nil {
				return v
			}
			return mkFloat(-fl(v))
		}
		if v.x == nil {
			return mkInt(v.w, -v.n)
		}
		return fromTerm(w.ts.Neg(w.term(v)))
	case token.XOR:
		if v.x == nil {
			return mkInt(v.w, ^v.n)
		}
		return fromTerm(w.ts.BNot(w.term(v)))
	}
	w.unsupported("unary " + c.tok.String())
	return Value{}
}

var binOps = map[token.Token]Op{token.ADD: OpAdd, token.SUB: OpSub, token.MUL: OpMul, token.AND: OpBAnd, token.OR: OpBOr, token.XOR: OpBXor}

func (w *Wk) binop(c *cins, a, b Value) Value {
	ts := w.ts
	switch c.tok {
	case token.EQL:
		if a.x == nil && b.x == nil && (c.kind == KInt || c.kind == KBool) {
			return mkBool(a.n == b.n)
		}
		a, b = w.unifyIface(a, b)
		return fromTerm(w.eqTerm(a, b))
	case token.NEQ:
		if a.x == nil && b.x == nil && (c.kind == KInt || c.kind == KBool) {
			return mkBool(a.n != b.n)
		}
		a, b = w.unifyIface(a, b)
		return fromTerm(ts.Not(w.eqTerm(a, b)))
	}
	switch c.kind {
	case KInt:
		return w.intBinop(c, a, b)
	case KBool:
		switch c.tok {
		case token.AND, token.LAND:
			return fromTerm(ts.And(w.term(a), w.term(b)))
		case token.OR, token.LOR:
			return fromTerm(ts.Or(w.term(a), w.term(b)))
		}
	case KString:
		switch c.tok {
		case token.ADD:
			x, y := sliceOf(a), sliceOf(b)
			if x.len == 0 {
				return b
			}
			if y.len == 0 {
				return a
			}
			return w.newBytes(append(append([]Value(nil), w.bytesOf(a)...), w.bytesOf(b)...), KString)
		case token.LSS:
			return fromTerm(w.lessStr(a, b, false))
		case token.LEQ:
			return fromTerm(w.lessStr(a, b, true))
		case token.GTR:
			return fromTerm(w.lessStr(b, a, false))
		case token.GEQ:
			return fromTerm(w.lessStr(b, a, true))
		}
	case KFloat:
		return w.floatBinop(c.tok, a, b)
	}
	w.unsupported("binary " + c.tok.String() + " on " + c.t.String())
	return Value{}
}

// comparisons between an interface and a concrete value
func (w *Wk) unifyIface(a, b Value) (Value, Value) {
	return a, b
}

func (w *Wk) floatBinop(tok token.Token, a, b Value) Value {
	if x, y := w.floatTerm(a), w.floatTerm(b); (a.x != nil || b.x != nil) && x != nil && y != nil {
		ts := w.ts
		switch tok {
		case token.ADD:
			return fromFloat(ts.Float(OpFAdd, 64, 0, x, y))
		case token.SUB:
			return fromFloat(ts.Float(OpFSub, 64, 0, x, y))
		case token.MUL:
			return fromFloat(ts.Float(OpFMul, 64, 0, x, y))
		case token.QUO:
			return fromFloat(ts.Float(OpFDiv, 64, 0, x, y))
		case token.LSS:
			return fromTerm(ts.Float(OpFLt, 0, 0, x, y))
		case token.LEQ:
			return fromTerm(ts.Float(OpFLe, 0, 0, x, y))
		case token.GTR:
			return fromTerm(ts.Float(OpFLt, 0, 0, y, x))
		case token.GEQ:
			return fromTerm(ts.Float(OpFLe, 0, 0, y, x))
		}
	}
	if a.x != nil || b.x != nil {
		switch tok {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return fromTerm(w.freshVar("float-cmp", 0))
		}
		return Value{k: KFloat, w: 64, x: &OpaqueF{"op"}}
	}
	x, y := fl(a), fl(b)
	switch tok {
	case token.ADD:
		return mkFloat(x + y)
	case token.SUB:
		return mkFloat(x - y)
	case token.MUL:
		return mkFloat(x * y)
	case token.QUO:
		return mkFloat(x / y)
	case token.LSS:
		return mkBool(x < y)
	case token.LEQ:
		return mkBool(x <= y)
	case token.GTR:
		return mkBool(x > y)
	case token.GEQ:
		return mkBool(x >= y)
	}
	w.unsupported("float op")
	return Value{}
}

func (w *Wk) intBinop(c *cins, a, b Value) Value {
	ts := w.ts
	if p, ok := a.x.(UPtr); ok {
		return w.uptrBinop(c, p, b, false)
	}
	if p, ok := b.x.(UPtr); ok {
		return w.uptrBinop(c, p, a, true)
	}
	conc := a.x == nil && b.x == nil
	wd := c.w
	switch c.tok {
	case token.SHL, token.SHR:
		return w.shift(c, a, b)
	case token.QUO, token.REM:
		if conc {
			if b.n == 0 {
				w.goPanic("runtime error: integer divide by zero")
			}
		} else {
			w.check(ts.Not(ts.Eq(w.term(b), ts.Const(wd, 0))), "runtime error: integer divide by zero")
		}
		op := OpUDiv
		if c.signed {
			op = OpSDiv
		}
		if c.tok == token.REM {
			op = OpURem
			if c.signed {
				op = OpSRem
			}
		}
		if conc {
			return mkInt(wd, evalBV(op, wd, a.n, b.n))
		}
		return fromTerm(ts.Bin(op, w.term(a), w.term(b)))
	case token.AND_NOT:
		if conc {
			return mkInt(wd, a.n&^b.n)
		}
		return fromTerm(ts.Bin(OpBAnd, w.term(a), ts.BNot(w.term(b))))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		x, y := a, b
		tok := c.tok
		if tok == token.GTR {
			x, y, tok = b, a, token.LSS
		} else if tok == token.GEQ {
			x, y, tok = b, a, token.LEQ
		}
		if conc {
			if c.signed {
				p, q := sext64(x.n, wd), sext64(y.n, wd)
				return mkBool(p < q || (p == q && tok == token.LEQ))
			}
			return mkBool(x.n < y.n || (x.n == y.n && tok == token.LEQ))
		}
		p, q := w.term(x), w.term(y)
		switch {
		case c.signed && tok == token.LSS:
			return fromTerm(ts.Slt(p, q))
		case c.signed:
			return fromTerm(ts.Sle(p, q))
		case tok == token.LSS:
			return fromTerm(ts.Ult(p, q))
		}
		return fromTerm(ts.Ule(p, q))
	}
	op, ok := binOps[c.tok]
	if !ok {
		w.unsupported("binary " + c.tok.String())
	}
	if conc {
		return mkInt(wd, evalBV(op, wd, a.n, b.n))
	}
	return fromTerm(ts.Bin(op, w.term(a), w.term(b)))
}

func (w *Wk) shift(c *cins, a, b Value) Value {
	ts := w.ts
	wd := c.w
	if b.x == nil {
		if c.sig2 && sext64(b.n, b.w) < 0 {
			w.goPanic("runtime error: negative shift amount")
		}
		op := OpShl
		if c.tok == token.SHR {
			op = OpLshr
			if c.signed {
				op = OpAshr
			}
		}
		n := b.n
		if n > uint64(wd) {
			n = uint64(wd)
		}
		if a.x == nil {
			return mkInt(wd, evalBV(op, wd, a.n, n))
		}
		if wd < 64 && n >= uint64(wd) && n > mask(wd) {
			n = uint64(wd)
		}
		return fromTerm(ts.Bin(op, w.term(a), ts.Const(wd, n)))
	}
	bt := w.term(b)
	if c.sig2 {
		w.check(ts.Sle(ts.Const(bt.w, 0), bt), "runtime error: negative shift amount")
	}
	at := w.term(a)
	op := OpShl
	if c.tok == token.SHR {
		op = OpLshr
		if c.signed {
			op = OpAshr
		}
	}
	if bt.w <= wd {
		return fromTerm(ts.Bin(op, at, ts.Resize(bt, wd, false)))
	}
	big := ts.Ule(ts.Const(bt.w, uint64(wd)), bt)
	small := ts.Bin(op, at, ts.Resize(bt, wd, false))
	over := ts.Const(wd, 0)
	if op == OpAshr {
		over = ts.Bin(OpAshr, at, ts.Const(wd, uint64(wd-1)))
	}
	return fromTerm(ts.Ite(big, over, small))
}

func (w *Wk) uptrBinop(c *cins, p UPtr, b Value, swapped bool) Value {
	if b.x == nil {
		switch c.tok {
		case token.ADD:
			return Value{k: KInt, w: 64, x: UPtr{p.obj, p.off + int64(b.n)}}
		case token.SUB:
			if !swapped {
				return Value{k: KInt, w: 64, x: UPtr{p.obj, p.off - int64(b.n)}}
			}
		case token.XOR:
			if b.n == 0 { // reflect2.NoEscape, runtime noescape
				return Value{k: KInt, w: 64, x: p}
			}
		}
	}
	if q, ok := b.x.(UPtr); ok && c.tok == token.SUB && p.obj == q.obj {
		return mkInt(64, uint64(p.off-q.off))
	}
	w.unsupported("pointer arithmetic")
	return Value{}
}

// ---- conversions ----

func (w *Wk) convert(c *cins, v Value) Value {
	switch c.kind {
	case KInt:
		switch c.kind2 {
		case KInt:
			if v.x == nil {
				if c.signed {
					return mkInt(c.w2, uint64(sext64(v.n, c.w)))
				}
				return mkInt(c.w2, v.n)
			}
			if _, ok := v.x.(UPtr); ok {
				return v
			}
			return fromTerm(w.ts.Resize(w.term(v), c.w2, c.signed))
		case KFloat:
			single := false
			if b, ok := c.t2.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
				single = true
			}
			if v.x != nil {
				t, ok := v.x.(*Term)
				if !ok {
					return Value{k: KFloat, w: 64, x: &OpaqueF{"conv"}}
				}
				op := OpFofU
				if c.signed {
					op = OpFofS
				}
				f := w.ts.Float(op, 64, 0, t, nil)
				if single {
					// rounding twice may differ in the last bit
					f = w.ts.Float(OpF32, 64, 0, f, nil)
				}
				return fromFloat(f)
			}
			if single {
				if c.signed {
					return mkFloat(float64(float32(sext64(v.n, c.w))))
				}
				return mkFloat(float64(float32(v.n)))
			}
			if c.signed {
				return mkFloat(float64(sext64(v.n, c.w)))
			}
			return mkFloat(float64(v.n))
		case KString:
			if v.x != nil {
				w.unsupported("symbolic rune to string")
			}
			return w.newConstStr(string(rune(sext64(v.n, c.w))))
		case KPtr: // uintptr -> unsafe.Pointer
			if u, ok := v.x.(UPtr); ok {
				return w.uptrToPtr(u)
			}
			if v.x == nil && v.n == 0 {
				return nilPtr
			}
		}
	case KPtr:
		switch c.kind2 {
		case KPtr:
			return v
		case KInt:
			if v.x == nil {
				return mkInt(64, 0)
			}
			v = w.resolvePtr(v)
			if o, ok := v.x.(*Obj); ok {
				return Value{k: KInt, w: 64, x: UPtr{o, w.byteOff(o, int(v.n))}}
			}
		case KMap, KChan, KFunc, KSlice, KString:
			w.unsupported("unsafe conversion")
		}
	case KFloat:
		switch c.kind2 {
		case KFloat:
			if v.x == nil {
				if b, ok := c.t2.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
					return mkFloat(float64(float32(fl(v))))
				}
			} else if t, ok := v.x.(*Term); ok {
				if b, ok := c.t2.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
					return fromFloat(w.ts.Float(OpF32, 64, 0, t, nil))
				}
			}
			return v
		case KInt:
			if v.x != nil {
				t, ok := v.x.(*Term)
				if !ok {
					w.unsupported("unknown float to int")
				}
				if c.sig2 || c.w2 < 64 {
					return fromTerm(w.ts.Resize(w.ts.Float(OpFtoS, 64, 0, t, nil), c.w2, false))
				}
				return fromTerm(w.ts.Float(OpFtoU, 64, 0, t, nil))
			}
			f := fl(v)
			if f < 0 || c.sig2 {
				return mkInt(c.w2, uint64(int64(f)))
			}
			return mkInt(c.w2, uint64(f))
		}
	case KString:
		if c.kind2 == KString {
			return v
		}
		if c.kind2 == KSlice {
			e := c.t2.Underlying().(*types.Slice).Elem()
			if _, wd := basicKind(e); wd == 8 {
				return w.newBytes(w.bytesOf(v), KSlice)
			}
			s := w.mustStr(v, "[]rune conversion")
			var rs []Value
			for _, r := range s {
				rs = append(rs, mkInt(32, uint64(r)))
			}
			o := &Obj{id: w.newID(), typ: e, n: len(rs), slots: rs, base: w.initDepth > 0}
			return Value{k: KSlice, x: &SliceV{obj: o, len: len(rs), cap: len(rs)}}
		}
	case KSlice:
		if c.kind2 == KSlice {
			return v
		}
		if c.kind2 == KString {
			e := c.t.Underlying().(*types.Slice).Elem()
			if _, wd := basicKind(e); wd == 8 {
				return w.newBytes(w.bytesOf(v), KString)
			}
			var rs []rune
			for _, x := range w.bytesOf(v) {
				if x.x != nil {
					w.unsupported("symbolic runes to string")
				}
				rs = append(rs, rune(x.n))
			}
			return w.newConstStr(string(rs))
		}
	}
	w.unsupported(fmt.Sprintf("conversion %s -> %s", c.t, c.t2))
	return Value{}
}

func (w *Wk) newConstStr(s string) Value { return w.str(s) }

func (w *Wk) byteOff(o *Obj, slot int) int64 {
	l := w.ls.get(o.typ)
	if l.n == 0 {
		return 0
	}
	if slot == o.n*l.n {
		return int64(o.n) * l.size
	}
	return int64(slot/l.n)*l.size + l.slotOff(slot%l.n)
}

func (w *Wk) uptrToPtr(u UPtr) Value {
	l := w.ls.get(u.obj.typ)
	if l.size == 0 {
		return mkPtr(u.obj, 0)
	}
	if u.off < 0 || u.off > l.size*int64(u.obj.n) {
		w.unsupported("pointer outside its object")
	}
	if u.off == l.size*int64(u.obj.n) {
		return mkPtr(u.obj, u.obj.n*l.n)
	}
	i := int(u.off / l.size)
	s, ok := l.slotAt(u.off % l.size)
	if !ok {
		w.unsupported("pointer into the middle of a value")
	}
	return mkPtr(u.obj, i*l.n+s)
}

// ---- strings: range ----

func (w *Wk) next(c *cins, it *IterV) Value {
	if c.flag {
		if it.pos >= it.lenStr() {
			return Value{k: KTuple, x: []Value{mkBool(false), mkInt(64, 0), mkInt(32, 0)}}
		}
		b := it.strv.obj.slots[it.strv.off+it.pos : it.strv.off+it.strv.len]
		pos := it.pos
		r, n := w.decodeRune(b)
		it.pos += n
		return Value{k: KTuple, x: []Value{mkBool(true), mkInt(64, uint64(pos)), r}}
	}
	return w.mapNext(c, it)
}

func (it *IterV) lenStr() int {
	if it.strv == nil {
		return 0
	}
	return it.strv.len
}

func (w *Wk) decodeRune(b []Value) (Value, int) {
	if w.cond(fromTerm(w.ts.Ult(w.term(b[0]), w.ts.Const(8, 0x80)))) {
		return fromTerm(w.ts.Resize(w.term(b[0]), 32, false)), 1
	}
	var buf []byte
	for i := 0; i < len(b) && i < 4; i++ {
		if b[i].x != nil {
			// exact but forking: make the byte concrete
			t := w.term(b[i])
			buf = append(buf, byte(w.concretize(t, 300, "byte of a rune")))
			continue
		}
		buf = append(buf, byte(b[i].n))
	}
	r, n := utf8.DecodeRune(buf)
	return mkInt(32, uint64(r)), n
}

var _ = math.MaxInt64

func anySym(args []Value) bool {
	for i := range args {
		if args[i].isSym() {
			return true
		}
	}
	return false
}
