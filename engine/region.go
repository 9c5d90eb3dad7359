package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Merging of short acyclic branches: instead of forking at a symbolic branch, all blocks of an acyclic,
// effect-bounded region are evaluated under their path guards; values and stores are merged with ite, and
// the path forks only over the distinct exits of the region.

type region struct {
	ok     bool
	blocks []int // topological order, start block excluded
	in     map[int]bool
}

const maxRegion = 48

// pureInstr: instruction may be evaluated speculatively under a guard.
func (w *Wk) pureInstr(in ssa.Instruction, depth int) bool {
	switch x := in.(type) {
	case *ssa.DebugRef, *ssa.Phi, *ssa.BinOp, *ssa.Convert, *ssa.ChangeType, *ssa.ChangeInterface, *ssa.Field, *ssa.FieldAddr,
		*ssa.Index, *ssa.IndexAddr, *ssa.Extract, *ssa.Store, *ssa.MakeInterface, *ssa.If, *ssa.Jump, *ssa.Return:
		return true
	case *ssa.UnOp:
		return x.Op.String() != "<-"
	case *ssa.Slice:
		return true
	case *ssa.Lookup:
		b, ok := x.X.Type().Underlying().(*types.Basic)
		return ok && b.Info()&types.IsString != 0 && !x.CommaOk
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			switch b.Name() {
			case "len", "cap", "min", "max":
				return true
			}
			return false
		}
		if f, ok := x.Call.Value.(*ssa.Function); ok && !x.Call.IsInvoke() {
			fi := w.fn(f)
			if fi.intr != nil {
				return fi.intr.pure
			}
			return depth < 4 && w.isPureD(f, depth+1) == 1
		}
	}
	return false
}

func (w *Wk) isPure(f *ssa.Function) int { return w.isPureD(f, 0) }

// isPureD: 1 if the whole function is acyclic, small and made of pure instructions.
func (w *Wk) isPureD(f *ssa.Function, depth int) int {
	if r, ok := w.pureC[f]; ok {
		return r
	}
	w.pureC[f] = 2
	r := func() int {
		if f.Blocks == nil || len(f.Blocks) > 24 || f.Recover != nil {
			return 2
		}
		for _, b := range f.Blocks {
			if len(b.Instrs) > 60 {
				return 2
			}
			for _, s := range b.Succs {
				if s.Dominates(b) {
					return 2
				}
			}
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.Panic); ok && len(b.Succs) == 0 {
					break // reaching it aborts the merge
				}
				if !w.pureInstr(in, depth) {
					if len(b.Succs) == 0 {
						if _, isRet := b.Instrs[len(b.Instrs)-1].(*ssa.Panic); isRet {
							break
						}
					}
					return 2
				}
			}
		}
		return 1
	}()
	w.pureC[f] = r
	return r
}

func (w *Wk) regionOf(fi *fnInfo, b int) *region {
	bb := fi.fn.Blocks[b]
	if r, ok := w.regionC[bb]; ok {
		return r
	}
	r := &region{in: map[int]bool{}}
	w.regionC[bb] = r
	state := map[*ssa.BasicBlock]int{}
	var order []int
	var visit func(x *ssa.BasicBlock)
	eligible := func(x *ssa.BasicBlock) bool {
		if x.Dominates(bb) || len(x.Instrs) > 60 {
			return false
		}
		for _, p := range x.Preds {
			if x.Dominates(p) {
				return false // loop header
			}
		}
		for _, in := range x.Instrs {
			if !w.pureInstr(in, 0) {
				return false
			}
		}
		return true
	}
	count := 0
	visit = func(x *ssa.BasicBlock) {
		if state[x] != 0 {
			return
		}
		if count >= maxRegion || !eligible(x) {
			state[x] = 2
			return
		}
		count++
		state[x] = 1
		for i := len(x.Succs) - 1; i >= 0; i-- {
			visit(x.Succs[i])
		}
		order = append(order, x.Index)
		r.in[x.Index] = true
	}
	for i := len(bb.Succs) - 1; i >= 0; i-- {
		visit(bb.Succs[i])
	}
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	r.blocks = order
	r.ok = len(order) > 0
	return r
}

type edge struct {
	from int
	g    *Term
}

type rexit struct {
	target int // block index, -1 for return
	froms  []edge
	g      *Term
	vals   []Value
	ret    Value
}

// evalBlocks evaluates the region's blocks. in: edges into blocks.
func (w *Wk) evalBlocks(fr *frame, blocks []int, inReg func(int) bool, edges map[int][]edge) []rexit {
	ts := w.ts
	var exits []rexit
	ownerGuard := w.guard
	addEdge := func(from, to int, g *Term) {
		if g == ts.False {
			return
		}
		if inReg(to) {
			edges[to] = append(edges[to], edge{from, g})
			return
		}
		// exit: evaluate the phi inputs of the target for this edge
		cb := fr.fi.blocks[to]
		pi := -1
		for i, p := range cb.preds {
			if p == from {
				pi = i
				break
			}
		}
		vals := make([]Value, len(cb.phis))
		for i := range cb.phis {
			vals[i] = fr.get(w, &cb.phis[i].ops[pi])
		}
		for i := range exits {
			if exits[i].target != to {
				continue
			}
			merged, ok := w.tryMerge(g, vals, exits[i].vals)
			if ok {
				exits[i].vals = merged
				exits[i].g = ts.Or(exits[i].g, g)
				return
			}
		}
		exits = append(exits, rexit{target: to, froms: []edge{{from, g}}, g: g, vals: vals})
	}
	for _, bi := range blocks {
		es := edges[bi]
		if len(es) == 0 {
			continue
		}
		cb := fr.fi.blocks[bi]
		g := ts.False
		for _, e := range es {
			g = ts.Or(g, e.g)
		}
		if g == ts.False {
			continue
		}
		if len(cb.phis) > 0 {
			var acc []Value
			for k, e := range es {
				pi := -1
				for i, p := range cb.preds {
					if p == e.from {
						pi = i
					}
				}
				vals := make([]Value, len(cb.phis))
				for i := range cb.phis {
					vals[i] = fr.get(w, &cb.phis[i].ops[pi])
				}
				if k == 0 {
					acc = vals
					continue
				}
				for i := range vals {
					acc[i] = w.mergeVal(e.g, vals[i], acc[i])
				}
			}
			for i := range cb.phis {
				fr.regs[cb.phis[i].dst] = acc[i]
			}
		}
		w.guard = g
		w.steps += int64(len(cb.ins))
		for i := range cb.ins {
			c := &cb.ins[i]
			switch c.op {
			case iJump:
				addEdge(bi, cb.succs[0], g)
			case iIf:
				ct := w.term(fr.get(w, &c.ops[0]))
				addEdge(bi, cb.succs[0], ts.And(g, ct))
				addEdge(bi, cb.succs[1], ts.And(g, ts.Not(ct)))
			case iReturn:
				var v Value
				switch len(c.ops) {
				case 0:
				case 1:
					v = fr.get(w, &c.ops[0])
				default:
					vs := make([]Value, len(c.ops))
					for i := range c.ops {
						vs[i] = fr.get(w, &c.ops[i])
					}
					v = Value{k: KTuple, x: vs}
				}
				done := false
				for i := range exits {
					if exits[i].target == -1 {
						if m, ok := w.tryMerge(g, []Value{v}, []Value{exits[i].ret}); ok {
							exits[i].ret = m[0]
							exits[i].g = ts.Or(exits[i].g, g)
							done = true
							break
						}
					}
				}
				if !done {
					exits = append(exits, rexit{target: -1, g: g, ret: v})
				}
			case iPanic:
				panic(regionAbort{})
			default:
				w.exec(fr, c)
			}
		}
		w.guard = ownerGuard
	}
	return exits
}

func (w *Wk) tryMerge(g *Term, a, b []Value) (r []Value, ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if _, isA := e.(regionAbort); isA {
				r, ok = nil, false
				return
			}
			panic(e)
		}
	}()
	r = make([]Value, len(a))
	for i := range a {
		if a[i].k == KInvalid && b[i].k == KInvalid {
			continue
		}
		r[i] = w.mergeVal(g, a[i], b[i])
	}
	return r, true
}

func (w *Wk) rollback(n int) {
	for i := len(w.regionJ) - 1; i >= n; i-- {
		s := w.regionJ[i]
		s.o.slots[s.slot] = s.old
	}
	w.regionJ = w.regionJ[:n]
}

// tryRegion: done 0 = not merged, 1 = continue at (b, prev) with phis set, 2 = function returns res.
func (w *Wk) tryRegion(fr *frame, b int, cond *Term) (nb, np int, res Value, done int) {
	if w.guard != nil {
		return
	}
	if w.initDepth > 0 {
		return
	}
	r := w.regionOf(fr.fi, b)
	if !r.ok {
		return
	}
	cb := fr.fi.blocks[b]
	jn := len(w.regionJ)
	fresh := w.fresh
	steps := w.steps
	var exits []rexit
	ok := false
	saveTop := fr.g.top
	func() {
		defer func() {
			if ok {
				return
			}
			e := recover()
			if _, isA := e.(regionAbort); !isA {
				panic(e)
			}
		}()
		edges := map[int][]edge{}
		inReg := func(i int) bool { return r.in[i] }
		var ex0 []rexit
		seed := func(to int, g *Term) {
			if g == w.ts.False {
				return
			}
			if r.in[to] {
				edges[to] = append(edges[to], edge{b, g})
				return
			}
			tb := fr.fi.blocks[to]
			pi := -1
			for i, p := range tb.preds {
				if p == b {
					pi = i
					break
				}
			}
			vals := make([]Value, len(tb.phis))
			for i := range tb.phis {
				vals[i] = fr.get(w, &tb.phis[i].ops[pi])
			}
			ex0 = append(ex0, rexit{target: to, froms: []edge{{b, g}}, g: g, vals: vals})
		}
		seed(cb.succs[0], cond)
		seed(cb.succs[1], w.ts.Not(cond))
		exits = w.evalBlocks(fr, r.blocks, inReg, edges)
		// merge the direct exits of the start block
		for _, e := range ex0 {
			m := false
			for i := range exits {
				if exits[i].target == e.target {
					if v, ok := w.tryMerge(e.g, e.vals, exits[i].vals); ok {
						exits[i].vals = v
						exits[i].g = w.ts.Or(exits[i].g, e.g)
						m = true
						break
					}
				}
			}
			if !m {
				exits = append(exits, e)
			}
		}
		ok = true
	}()
	w.guard = nil
	fr.g.top = saveTop
	if !ok {
		w.rollback(jn)
		w.fresh = fresh
		w.steps = steps
		return
	}
	w.regionJ = w.regionJ[:jn]
	conds := make([]*Term, len(exits))
	for i := range exits {
		conds[i] = exits[i].g
	}
	k := w.decide(conds)
	e := &exits[k]
	if e.target == -1 {
		return 0, 0, e.ret, 2
	}
	tb := fr.fi.blocks[e.target]
	for i := range tb.phis {
		fr.regs[tb.phis[i].dst] = e.vals[i]
	}
	return e.target, e.froms[0].from, Value{}, 1
}

// evalPureCall evaluates a call inside a region.
func (w *Wk) evalPureCall(g *G, fi *fnInfo, bind, args []Value) Value {
	if w.isPure(fi.fn) != 1 {
		panic(regionAbort{})
	}
	if !fi.compiled {
		w.compile(fi)
	}
	if w.funcs != nil {
		w.funcs[fi.name] = true
	}
	fr := &frame{fi: fi, caller: g.top, g: g}
	fr.regs = make([]Value, fi.nregs)
	for i, p := range fi.params {
		fr.regs[p] = args[i]
	}
	for i, p := range fi.fvs {
		fr.regs[p] = bind[i]
	}
	outer := w.guard
	top := g.top
	g.top = fr
	blocks := w.topoAll(fi)
	exits := w.evalBlocks(fr, blocks, func(int) bool { return true }, map[int][]edge{0: {{-1, outer}}})
	g.top = top
	w.guard = outer
	if len(exits) != 1 {
		panic(regionAbort{})
	}
	return exits[0].ret
}

func (w *Wk) topoAll(fi *fnInfo) []int {
	bb := fi.fn.Blocks[0]
	key := bb
	if r, ok := w.topoC[key]; ok {
		return r
	}
	seen := map[int]bool{}
	var order []int
	var visit func(x *ssa.BasicBlock)
	visit = func(x *ssa.BasicBlock) {
		if seen[x.Index] {
			return
		}
		seen[x.Index] = true
		for i := len(x.Succs) - 1; i >= 0; i-- {
			visit(x.Succs[i])
		}
		order = append(order, x.Index)
	}
	visit(bb)
	for i, j := 0, len(order)-1; i < j; i, j = i+1, j-1 {
		order[i], order[j] = order[j], order[i]
	}
	w.topoC[key] = order
	return order
}

// tryPureCall evaluates a whole call merged, outside a region.
func (w *Wk) tryPureCall(g *G, fi *fnInfo, bind, args []Value) (res Value, ok bool) {
	if len(fi.blocks) == 1 {
		return
	}
	jn := len(w.regionJ)
	fresh := w.fresh
	steps := w.steps
	top := g.top
	func() {
		defer func() {
			if ok {
				return
			}
			e := recover()
			if _, isA := e.(regionAbort); !isA {
				panic(e)
			}
		}()
		w.guard = w.ts.True
		res = w.evalPureCall(g, fi, bind, args)
		ok = true
	}()
	w.guard = nil
	g.top = top
	if !ok {
		w.rollback(jn)
		w.fresh = fresh
		w.steps = steps
		return
	}
	w.regionJ = w.regionJ[:jn]
	return
}
