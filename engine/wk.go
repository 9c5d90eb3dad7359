package main

import (
	"fmt"
	"go/types"
	"runtime/debug"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Program is the loaded code, shared by all workers.
type Program struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package
	module string
}

type input struct {
	name string
	kind string
	val  uint64
	t    *Term
}

type Options struct {
	maxViolations int
	seed          int64
	thorough      bool
	realTime      bool // run the code of package time for time values instead of the model
	known         map[string]bool
}

// harness options, reset for every path
type hopts struct {
	maxSteps    int64
	stepsViol   bool
	maxDepth    int
	depthViol   bool
	maxAlloc    int64 // bytes, 0 = off
	mapOrder    int
	preempt     int
	delay       int // how often another goroutine than the first continues when one blocks; -1: any number
	race        bool
	poolChoice  bool
	stubIntern  bool
	concLimit   int
	allowDead   bool
	noMerge     bool
	selectFirst bool
}

type Wk struct {
	id     int
	prog   *Program
	ts     *Terms
	solver *Solver
	ls     layouts
	repl   map[*fnInfo]Value // vsym.Replace
	fns    map[*ssa.Function]*fnInfo
	intrs  map[string]*Intrinsic
	methC  map[methKey]*ssa.Function
	implC  map[[2]types.Type]bool
	canonM map[string][]types.Type
	canonP map[types.Type]types.Type
	tabC   map[tabKey]*Term

	globals   map[*ssa.Global]*Obj
	inited    map[*ssa.Package]int
	initDepth int
	strC      map[string]Value
	regionC   map[*ssa.BasicBlock]*region
	topoC     map[*ssa.BasicBlock][]int
	pureC     map[*ssa.Function]int

	// exploration
	ex        *Explorer
	ents      []ent
	pos       int
	solverPos int
	model     map[string]uint64
	opts      Options
	harness   string
	harnessFn *ssa.Function
	funcs     map[string]bool

	stDecisions, stAsserts, stAssertFold, stAssertQ, stUnknown int64

	// per path
	steps     int64
	inputs    []input
	reached   map[string]bool
	cuts      map[string]int64
	cur       *G
	gs        []*G
	ho        hopts
	nextID    int
	baseID    int
	savedO    []savedObj
	savedM    []savedMap
	guard     *Term
	regionJ   []regionStore
	fresh     int
	now       *Term // virtual clock, ns
	tickers   []*tickerV
	autoTicks int
	killing   bool
	pathPanic any
	mainDone  chan struct{}
	preempts  int
	delays    int
	race      *raceState
	seqno     int
	trace     []string
	side      map[any]any // intrinsic state of this path, keyed by object
	baseSide  map[any]any
}

type savedObj struct {
	o     *Obj
	slots []Value
}

type savedMap struct {
	m   *MapObj
	cpy MapObj
}

type regionStore struct {
	o    *Obj
	slot int
	old  Value
}

type methKey struct {
	t    types.Type
	name string
	pkg  string
}

type tabKey struct {
	o      *Obj
	off    int
	stride int
	n      int
	fld    int
	idx    *Term
}

func NewWk(id int, p *Program, opts Options) *Wk {
	ts := NewTerms()
	w := &Wk{id: id, prog: p, ts: ts, solver: NewSolver(ts), opts: opts}
	w.ls.m = map[types.Type]*layout{}
	w.fns = map[*ssa.Function]*fnInfo{}
	w.methC = map[methKey]*ssa.Function{}
	w.implC = map[[2]types.Type]bool{}
	w.canonM = map[string][]types.Type{}
	w.canonP = map[types.Type]types.Type{}
	w.tabC = map[tabKey]*Term{}
	w.globals = map[*ssa.Global]*Obj{}
	w.inited = map[*ssa.Package]int{}
	w.strC = map[string]Value{}
	w.regionC = map[*ssa.BasicBlock]*region{}
	w.topoC = map[*ssa.BasicBlock][]int{}
	w.pureC = map[*ssa.Function]int{}
	w.cuts = map[string]int64{}
	w.baseSide = map[any]any{}
	w.intrs = intrinsicTable()
	return w
}

func stackOf() string {
	s := string(debug.Stack())
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

func (w *Wk) newHarness() {
	w.funcs = map[string]bool{}
	w.ents = nil
	w.solverPos = 0
	w.pos = 0
	w.dropTerms() // also drops assertions left on the solver's stack when a harness ran out of time
}

// dropTerms forgets all terms (between harnesses only); base objects hold no terms.
func (w *Wk) dropTerms() {
	w.resetPath()
	w.solver.Close()
	st := w.solver.stats
	w.ts = NewTerms()
	w.solver = NewSolver(w.ts)
	w.solver.stats = st
	w.tabC = map[tabKey]*Term{}
}

func (w *Wk) resetPath() {
	for i := len(w.savedO) - 1; i >= 0; i-- {
		s := w.savedO[i]
		s.o.slots = s.slots
		s.o.saved = false
	}
	w.savedO = w.savedO[:0]
	for i := len(w.savedM) - 1; i >= 0; i-- {
		s := w.savedM[i]
		*s.m = s.cpy
		s.m.saved = false
	}
	w.savedM = w.savedM[:0]
	w.steps = 0
	w.initDepth = 0
	w.inputs = w.inputs[:0]
	w.reached = map[string]bool{}
	w.cur = nil
	w.gs = nil
	w.ho = hopts{maxSteps: 6_000_000, maxDepth: 3000, concLimit: 300, delay: -1}
	w.nextID = 1 << 30
	w.guard = nil
	w.fresh = 0
	w.now = w.ts.Const(64, 0)
	w.tickers = nil
	w.autoTicks = 0
	w.killing = false
	w.pathPanic = nil
	w.preempts = 0
	w.delays = 0
	w.repl = nil
	w.race = nil
	w.seqno = 0
	w.side = map[any]any{}
}

// execHarness runs the harness on a fresh G and returns how the path ended.
func (w *Wk) execHarness() any {
	w.mainDone = make(chan struct{})
	g := w.newG(nil)
	go w.runG(g, func() {
		w.callFn(g, w.harnessFn, nil, nil)
	}, true)
	w.cur = g
	g.wake <- struct{}{}
	<-w.mainDone
	// end all other goroutines
	w.killing = true
	for _, o := range w.gs {
		if o.state != gDone {
			o.wake <- struct{}{}
			<-o.dead
		}
	}
	if e, ok := w.pathPanic.(engineError); ok {
		panic(string(e))
	}
	return w.pathPanic
}

type engineError string

// ---- objects ----

func (w *Wk) newID() int {
	if w.initDepth > 0 {
		w.baseID++
		return w.baseID
	}
	w.nextID++
	return w.nextID
}

func (w *Wk) newObj(t types.Type, n int) *Obj {
	l := w.ls.get(t)
	o := &Obj{id: w.newID(), typ: t, n: n, base: w.initDepth > 0}
	o.slots = make([]Value, n*l.n)
	if l.n == 1 {
		z := l.zeroAt(0)
		for i := range o.slots {
			o.slots[i] = z
		}
	} else if l.n > 0 {
		for i := 0; i < n; i++ {
			l.fillZero(o.slots[i*l.n : (i+1)*l.n])
		}
	}
	return o
}

// touch prepares o for a write.
func (w *Wk) touch(o *Obj) {
	if o.base && !o.saved && w.initDepth == 0 {
		o.saved = true
		w.savedO = append(w.savedO, savedObj{o, append([]Value(nil), o.slots...)})
	}
}

func (w *Wk) setSlot(o *Obj, i int, v Value) {
	if w.guard != nil {
		old := o.slots[i]
		nv := w.mergeVal(w.guard, v, old)
		w.regionJ = append(w.regionJ, regionStore{o, i, old})
		w.touch(o)
		o.slots[i] = nv
		return
	}
	if o.base && !o.saved && w.initDepth == 0 {
		w.touch(o)
	}
	if o.ro {
		w.unsupported("write to read-only object " + o.label)
	}
	o.slots[i] = v
	if w.initDepth > 0 && o.saved {
		for j := range w.savedO {
			if w.savedO[j].o == o {
				w.savedO[j].slots[i] = v
			}
		}
	}
}

func (w *Wk) touchMap(m *MapObj) {
	if w.guard != nil {
		panic(regionAbort{})
	}
	if m.base && !m.saved && w.initDepth == 0 {
		c := *m
		c.ents = append([]mapEntry(nil), m.ents...)
		c.idx = make(map[string]int, len(m.idx))
		for k, v := range m.idx {
			c.idx[k] = v
		}
		w.savedM = append(w.savedM, savedMap{m, c})
		m.saved = true
	}
}

func (w *Wk) unsupported(msg string) {
	if w.guard != nil {
		panic(regionAbort{})
	}
	panic(pathEnd{"unsupported", msg + " at " + w.where()})
}

func (w *Wk) where() string {
	if w.cur == nil {
		return ""
	}
	s := ""
	n := 0
	for f := w.cur.top; f != nil && n < 6; f = f.caller {
		if n > 0 {
			s += " < "
		}
		s += f.fi.fn.String()
		if f.ci != nil && n == 0 {
			p := w.prog.prog.Fset.Position(f.ci.in.Pos())
			if p.IsValid() {
				s += fmt.Sprintf("(%s:%d)", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
			}
		}
		n++
	}
	return s
}

// ---- values ----

func (w *Wk) term(v Value) *Term {
	if t, ok := v.x.(*Term); ok {
		return t
	}
	if v.k == KBool {
		return w.ts.Const(0, v.n)
	}
	if v.k != KInt {
		w.unsupported(fmt.Sprintf("term of kind %d", v.k))
	}
	if v.x != nil {
		w.unsupported("pointer used as a number")
	}
	return w.ts.Const(v.w, v.n)
}

// floatTerm gives the bits of a floating point number, nil for an unknown one.
func (w *Wk) floatTerm(v Value) *Term {
	if v.k != KFloat {
		return nil
	}
	if v.x == nil {
		return w.ts.Const(64, v.n)
	}
	t, _ := v.x.(*Term)
	return t
}

func fromFloat(t *Term) Value {
	if t.op == OpConst {
		return Value{k: KFloat, w: 64, n: t.k}
	}
	return Value{k: KFloat, w: 64, x: t}
}

func fromTerm(t *Term) Value {
	if t.op == OpConst {
		if t.w == 0 {
			return Value{k: KBool, n: t.k}
		}
		return Value{k: KInt, w: t.w, n: t.k}
	}
	if t.w == 0 {
		return Value{k: KBool, x: t}
	}
	return Value{k: KInt, w: t.w, x: t}
}

func (w *Wk) cond(v Value) bool {
	if t, ok := v.x.(*Term); ok {
		return w.branchG(t)
	}
	return v.n != 0
}

// branchG is branch, aborting an enclosing merge region.
func (w *Wk) branchG(t *Term) bool {
	if t.op == OpConst {
		return t.k != 0
	}
	if w.guard != nil {
		panic(regionAbort{})
	}
	return w.branch(t)
}

// intOf gives a concrete integer, forking over the possible values if needed.
func (w *Wk) intOf(v Value, what string) int64 {
	if t, ok := v.x.(*Term); ok {
		if w.guard != nil {
			panic(regionAbort{})
		}
		return sext64(w.concretize(t, w.ho.concLimit, what), t.w)
	}
	if v.x != nil {
		w.unsupported("pointer used as a number")
	}
	return sext64(v.n, v.w)
}

func (w *Wk) str(s string) Value {
	if s == "" {
		return Value{k: KString}
	}
	if v, ok := w.strC[s]; ok {
		return v
	}
	o := &Obj{typ: types.Typ[types.Uint8], n: len(s), base: true, ro: true, label: "string constant"}
	w.baseID++
	o.id = w.baseID
	o.slots = make([]Value, len(s))
	for i := 0; i < len(s); i++ {
		o.slots[i] = mkInt(8, uint64(s[i]))
	}
	v := Value{k: KString, x: &SliceV{obj: o, len: len(s), cap: len(s)}}
	w.strC[s] = v
	return v
}

func sliceOf(v Value) *SliceV {
	if s, ok := v.x.(*SliceV); ok {
		return s
	}
	return &emptySlice
}

var emptySlice SliceV

// bytesOf gives the slots of a byte slice or string.
func (w *Wk) bytesOf(v Value) []Value {
	s := sliceOf(v)
	if s.len == 0 {
		return nil
	}
	if w.race != nil && !s.obj.ro {
		for i := 0; i < s.len; i++ {
			w.raceAccess(s.obj, s.off+i, false)
		}
	}
	return s.obj.slots[s.off : s.off+s.len]
}

func (w *Wk) concreteStr(v Value) (string, bool) {
	b := w.bytesOf(v)
	r := make([]byte, len(b))
	for i, x := range b {
		if x.x != nil {
			return "", false
		}
		r[i] = byte(x.n)
	}
	return string(r), true
}

func (w *Wk) mustStr(v Value, what string) string {
	s, ok := w.concreteStr(v)
	if !ok {
		w.unsupported("symbolic string for " + what)
	}
	return s
}

func (w *Wk) newBytes(vals []Value, kind Kind) Value {
	if len(vals) == 0 && kind == KString {
		return Value{k: KString}
	}
	o := &Obj{id: w.newID(), typ: types.Typ[types.Uint8], n: len(vals), base: w.initDepth > 0}
	o.slots = append([]Value(nil), vals...)
	return Value{k: kind, x: &SliceV{obj: o, len: len(vals), cap: len(vals)}}
}

func (w *Wk) iface(t types.Type, v Value) Value {
	return Value{k: KIface, x: &IfaceV{t: w.canon(t), v: v}}
}

// canon maps identical types to one representative.
func (w *Wk) canon(t types.Type) types.Type {
	t = types.Unalias(t)
	if c, ok := w.canonP[t]; ok {
		return c
	}
	k := t.String()
	for _, c := range w.canonM[k] {
		if types.Identical(c, t) {
			w.canonP[t] = c
			return c
		}
	}
	w.canonM[k] = append(w.canonM[k], t)
	w.canonP[t] = t
	return t
}

func (w *Wk) implements(t types.Type, i *types.Interface) bool {
	k := [2]types.Type{t, i}
	if r, ok := w.implC[k]; ok {
		return r
	}
	r := types.Implements(t, i)
	w.implC[k] = r
	return r
}

func (w *Wk) freshVar(prefix string, width uint8) *Term {
	w.fresh++
	return w.ts.Var(fmt.Sprintf("%s#%d", prefix, w.fresh), width)
}

// ---- equality ----

func (w *Wk) eqTerm(a, b Value) *Term {
	ts := w.ts
	switch a.k {
	case KInt, KBool:
		if a.x == nil && b.x == nil {
			return ts.Bool(a.n == b.n)
		}
		ua, oka := a.x.(UPtr)
		ub, okb := b.x.(UPtr)
		if oka && okb {
			return ts.Bool(ua == ub)
		}
		if oka || okb {
			return ts.False
		}
		return ts.Eq(w.term(a), w.term(b))
	case KFloat:
		if a.x == nil && b.x == nil {
			return ts.Bool(fl(a) == fl(b))
		}
		if x, y := w.floatTerm(a), w.floatTerm(b); x != nil && y != nil {
			return ts.Float(OpFEq, 0, 0, x, y)
		}
		return w.freshVar("float-eq", 0)
	case KPtr:
		a, b = w.resolvePtr(a), w.resolvePtr(b)
		return ts.Bool(a.x == b.x && (a.x == nil || a.n == b.n))
	case KString:
		x, y := sliceOf(a), sliceOf(b)
		if x.len != y.len {
			return ts.False
		}
		if x.len == 0 || (x.obj == y.obj && x.off == y.off) {
			return ts.True
		}
		xb, yb := w.bytesOf(a), w.bytesOf(b)
		r := ts.True
		for i := range xb {
			if xb[i].x == nil && yb[i].x == nil && xb[i].n != yb[i].n {
				return ts.False
			}
		}
		for i := range xb {
			r = ts.And(r, w.eqTerm(xb[i], yb[i]))
		}
		return r
	case KSlice:
		x, y := a.x, b.x
		if x != nil && y != nil {
			w.unsupported("slice comparison")
		}
		return ts.Bool(x == nil && y == nil)
	case KMap, KFunc:
		if a.x != nil && b.x != nil {
			w.unsupported("map/func comparison")
		}
		return ts.Bool(a.x == nil && b.x == nil)
	case KChan:
		return ts.Bool(a.x == b.x)
	case KIface:
		x, _ := a.x.(*IfaceV)
		y, _ := b.x.(*IfaceV)
		if x == nil || y == nil {
			return ts.Bool(x == nil && y == nil)
		}
		if x.t != y.t {
			return ts.False
		}
		if !types.Comparable(x.t) {
			w.goPanic("runtime error: comparing uncomparable type " + x.t.String())
		}
		return w.eqTerm(x.v, y.v)
	case KAgg:
		x, y := a.x.([]Value), b.x.([]Value)
		r := ts.True
		for i := range x {
			r = ts.And(r, w.eqTerm(x[i], y[i]))
		}
		return r
	}
	w.unsupported(fmt.Sprintf("equality of kind %d", a.k))
	return nil
}

// lessStr is a < b on strings.
func (w *Wk) lessStr(a, b Value, orEq bool) *Term {
	ts := w.ts
	x, y := w.bytesOf(a), w.bytesOf(b)
	n := min(len(x), len(y))
	var r *Term
	if orEq {
		r = ts.Bool(len(x) <= len(y))
	} else {
		r = ts.Bool(len(x) < len(y))
	}
	for i := n - 1; i >= 0; i-- {
		p, q := w.term(x[i]), w.term(y[i])
		r = ts.Ite(ts.Eq(p, q), r, ts.Ult(p, q))
	}
	return r
}

func (w *Wk) mergeVal(c *Term, a, b Value) Value {
	if c == w.ts.True {
		return a
	}
	if c == w.ts.False {
		return b
	}
	switch a.k {
	case KInt, KBool:
		if b.k == a.k && b.w == a.w {
			if a.x == nil && b.x == nil {
				if a.n == b.n {
					return a
				}
				if a.w == 64 {
					panic(regionAbort{})
				}
			}
			_, ua := a.x.(UPtr)
			_, ub := b.x.(UPtr)
			if ua || ub {
				if ua && ub && a.x == b.x {
					return a
				}
				panic(regionAbort{})
			}
			return fromTerm(w.ts.Ite(c, w.term(a), w.term(b)))
		}
	case KFloat:
		if x, y := w.floatTerm(a), w.floatTerm(b); b.k == KFloat && x != nil && y != nil {
			return fromFloat(w.ts.Ite(c, x, y))
		}
	case KAgg, KTuple:
		if a.k != b.k {
			break
		}
		x, _ := a.x.([]Value)
		y, _ := b.x.([]Value)
		if len(x) != len(y) {
			break
		}
		r := make([]Value, len(x))
		for i := range x {
			r[i] = w.mergeVal(c, x[i], y[i])
		}
		return Value{k: a.k, x: r}
	}
	if sameRef(a, b) {
		return a
	}
	panic(regionAbort{})
}

func sameRef(a, b Value) bool {
	if a.k != b.k {
		return false
	}
	switch a.k {
	case KPtr:
		sa, ok1 := a.x.(*SymPtr)
		sb, ok2 := b.x.(*SymPtr)
		if ok1 || ok2 {
			return ok1 && ok2 && *sa == *sb
		}
		return a.x == b.x && (a.x == nil || a.n == b.n)
	case KSlice, KString:
		x, _ := a.x.(*SliceV)
		y, _ := b.x.(*SliceV)
		if x == nil || y == nil {
			return x == y
		}
		return *x == *y
	case KIface:
		x, _ := a.x.(*IfaceV)
		y, _ := b.x.(*IfaceV)
		if x == nil || y == nil {
			return x == y
		}
		if x.t != y.t {
			return false
		}
		if x.v.k == KInt || x.v.k == KBool {
			return x.v == y.v
		}
		return sameRef(x.v, y.v)
	case KMap, KChan:
		return a.x == b.x
	case KFunc:
		x, _ := a.x.(*FuncV)
		y, _ := b.x.(*FuncV)
		if x == y {
			return true
		}
		return x != nil && y != nil && x.fn != nil && x.fn == y.fn && len(x.bind) == 0 && len(y.bind) == 0
	case KFloat:
		x, ok := a.x.(*Term)
		return a.x == nil && b.x == nil && a.n == b.n || ok && b.x == x
	}
	return false
}
