package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gState uint8

const (
	gRunnable gState = iota
	gBlocked
	gDone
)

// G is a goroutine of the interpreted program. Exactly one runs at a time.
type G struct {
	id    int
	top   *frame
	wake  chan struct{}
	dead  chan struct{}
	state gState
	ready func() bool
	why   string
	wait  []waitCase
	fired int // index of the wait case completed by a partner, -1 none
	val   Value
	ok    bool
	vc    []uint32
	main  bool
	seq   int
}

type waitCase struct {
	ch   *ChanObj
	send bool
	val  Value
}

type ChanObj struct {
	id     int
	typ    types.Type
	cap    int
	buf    []Value
	vcs    [][]uint32 // clock of each buffered element
	recvVC []uint32   // clocks of completed receives (for capacity edges)
	closed bool
	clVC   []uint32
	base   bool
}

type killed struct{}

func (w *Wk) newG(parent *G) *G {
	g := &G{id: len(w.gs), wake: make(chan struct{}), dead: make(chan struct{}), fired: -1, main: parent == nil}
	w.gs = append(w.gs, g)
	return g
}

// runG is the body of the real goroutine behind g.
func (w *Wk) runG(g *G, body func(), isMain bool) {
	defer close(g.dead)
	<-g.wake
	if w.killing {
		g.state = gDone
		return
	}
	end := func() (e any) {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case killed:
					e = x
				case pathEnd, violationFound:
					e = x
				case *goPanicV:
					// a panic that reaches the top of a goroutine kills the process
					e = w.catchViolation(func() {
						w.violateHerePanic(x)
					})
				case engineError:
					e = x
				default:
					e = engineError(fmt.Sprintf("%v at %s\n%s", r, w.where(), stackOf()))
				}
			}
		}()
		body()
		return nil
	}()
	g.state = gDone
	if _, k := end.(killed); k {
		return
	}
	if end != nil {
		w.pathPanic = end
		close(w.mainDone)
		return
	}
	if isMain {
		w.pathPanic = nil
		close(w.mainDone)
		return
	}
	if w.race != nil {
		w.race.exit(g)
	}
	// hand over to another goroutine
	e := w.catchViolation(func() {
		n := w.pickNext(g, false)
		if n != nil {
			w.cur = n
			n.state = gRunnable
			n.wake <- struct{}{}
		}
	})
	if e != nil {
		w.pathPanic = e
		close(w.mainDone)
	}
}

func (w *Wk) catchViolation(f func()) (e any) {
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case violationFound, pathEnd, engineError:
				e = x
			default:
				e = engineError(fmt.Sprintf("%v\n%s", r, stackOf()))
			}
		}
	}()
	f()
	return nil
}

func (w *Wk) violateHerePanic(p *goPanicV) {
	m := w.model
	if m == nil {
		r, mm := w.solver.Check(nil, true)
		if r != resSat {
			panic(pathEnd{"infeasible", "panic on an infeasible path"})
		}
		m = mm
	}
	defer func() {
		if r := recover(); r != nil {
			if v, ok := r.(violationFound); ok {
				v.v.Stack = p.stack
				panic(v)
			}
			panic(r)
		}
	}()
	w.violate("panic", "panic: "+p.msg, m)
}

func (w *Wk) isReady(g *G) bool {
	switch g.state {
	case gRunnable:
		return true
	case gBlocked:
		return g.fired >= 0 || g.ready()
	}
	return false
}

// pickNext chooses the next goroutine to run when g cannot continue.
func (w *Wk) pickNext(g *G, _ bool) *G {
	var cand []*G
	for _, o := range w.gs {
		if o != g && w.isReady(o) {
			cand = append(cand, o)
		}
	}
	if len(cand) == 0 && g.state != gDone && w.isReady(g) {
		return g
	}
	if len(cand) == 0 {
		// main waiting for quiescence?
		for _, o := range w.gs {
			if o.state == gBlocked && o.why == "settle" {
				return o
			}
		}
		if w.autoAdvance() {
			return w.pickNext(g, true)
		}
		msg := "all goroutines are blocked:"
		for _, o := range w.gs {
			if o.state == gBlocked {
				msg += fmt.Sprintf(" g%d[%s]", o.id, o.why)
			}
		}
		if w.ho.allowDead {
			panic(pathEnd{"exit", "deadlock allowed"})
		}
		w.violateHere("deadlock", msg)
	}
	if len(cand) == 1 {
		return cand[0]
	}
	if w.ho.delay >= 0 && w.delays >= w.ho.delay {
		return cand[0]
	}
	k := w.choose(len(cand))
	if k > 0 {
		w.delays++
	}
	return cand[k]
}

func (w *Wk) switchTo(g, n *G) {
	if n == g {
		g.state = gRunnable
		return
	}
	w.cur = n
	n.state = gRunnable
	n.wake <- struct{}{}
	<-g.wake
	if w.killing {
		panic(killed{})
	}
	w.cur = g
}

// block suspends g until ready() holds.
func (w *Wk) block(g *G, why string, ready func() bool) {
	if w.initDepth > 0 {
		w.unsupported("blocking during package initialisation: " + why)
	}
	if w.guard != nil {
		panic(regionAbort{})
	}
	g.state = gBlocked
	g.why = why
	g.ready = ready
	w.seqno++
	g.seq = w.seqno
	for {
		n := w.pickNext(g, true)
		w.switchTo(g, n)
		g.state = gRunnable
		if g.fired >= 0 || ready() {
			return
		}
		g.state = gBlocked
	}
}

// yield is a scheduling point before a visible operation.
func (w *Wk) yield(g *G) {
	if len(w.gs) == 1 || w.initDepth > 0 || w.preempts >= w.ho.preempt {
		return
	}
	var cand []*G
	for _, o := range w.gs {
		if o != g && w.isReady(o) {
			cand = append(cand, o)
		}
	}
	if len(cand) == 0 {
		return
	}
	k := w.choose(1 + len(cand))
	if k == 0 {
		return
	}
	w.preempts++
	g.state = gRunnable
	w.switchTo(g, cand[k-1])
}

func (w *Wk) spawn(g *G, fi *fnInfo, fv Value, args []Value) {
	if w.initDepth > 0 {
		return // goroutines of package initialisers (exporters, meters) are not part of any property
	}
	n := w.newG(g)
	if w.race != nil {
		w.race.spawn(g, n)
	}
	go w.runG(n, func() {
		if fi != nil {
			w.callFi(n, fi, nil, args, nil)
		} else {
			w.callValue(n, fv, args, nil)
		}
	}, false)
	w.yield(g)
}

// ---- channels ----

func (w *Wk) newChan(n int, t types.Type) *ChanObj {
	return &ChanObj{id: w.newID(), cap: n, typ: t, base: w.initDepth > 0}
}

// waiting finds a blocked goroutine waiting to send (or receive) on ch.
func (w *Wk) waiting(ch *ChanObj, send bool, self *G) (*G, int) {
	var best *G
	bi := -1
	for _, o := range w.gs {
		if o == self || o.state != gBlocked || o.fired >= 0 {
			continue
		}
		for i, c := range o.wait {
			if c.ch == ch && c.send == send {
				if best == nil || o.seq < best.seq {
					best, bi = o, i
				}
				break
			}
		}
	}
	return best, bi
}

func (w *Wk) canSend(ch *ChanObj, self *G) bool {
	if ch == nil {
		return false
	}
	if ch.closed || len(ch.buf) < ch.cap {
		return true
	}
	o, _ := w.waiting(ch, false, self)
	return o != nil
}

func (w *Wk) canRecv(ch *ChanObj, self *G) bool {
	if ch == nil {
		return false
	}
	if len(ch.buf) > 0 || ch.closed {
		return true
	}
	o, _ := w.waiting(ch, true, self)
	return o != nil
}

func (w *Wk) baseChan(ch *ChanObj) {
	if ch.base && w.initDepth == 0 && !ch.closed {
		w.unsupported("use of a channel created during package initialisation")
	}
}

// completeSend performs a send that is possible now.
func (w *Wk) completeSend(g *G, ch *ChanObj, v Value) {
	w.baseChan(ch)
	if ch.closed {
		w.goPanic("send on closed channel")
	}
	if w.race != nil {
		w.race.release(g)
	}
	if o, i := w.waiting(ch, false, g); o != nil && len(ch.buf) == 0 {
		o.fired, o.val, o.ok = i, v, true
		if w.race != nil {
			w.race.join(o, g.vc)
			if ch.cap == 0 {
				w.race.join(g, o.vc)
			}
		}
		return
	}
	if w.race != nil && ch.cap > 0 {
		// the k-th receive happens before the (k+cap)-th send
		w.race.join(g, ch.recvVC)
	}
	ch.buf = append(ch.buf, v)
	if w.race != nil {
		ch.vcs = append(ch.vcs, append([]uint32(nil), g.vc...))
	}
}

func (w *Wk) completeRecv(g *G, ch *ChanObj, t types.Type) (Value, bool) {
	w.baseChan(ch)
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		if w.race != nil {
			w.race.release(g)
			w.race.join(g, ch.vcs[0])
			ch.vcs = ch.vcs[1:]
			ch.recvVC = joinVC(ch.recvVC, g.vc)
		}
		// a blocked sender can now put its value
		if o, i := w.waiting(ch, true, g); o != nil && len(ch.buf) < ch.cap {
			ch.buf = append(ch.buf, o.wait[i].val)
			if w.race != nil {
				w.race.join(o, ch.recvVC)
				ch.vcs = append(ch.vcs, append([]uint32(nil), o.vc...))
			}
			o.fired = i
		}
		return v, true
	}
	if o, i := w.waiting(ch, true, g); o != nil {
		o.fired = i
		v := o.wait[i].val
		if w.race != nil {
			w.race.release(g)
			w.race.join(g, o.vc)
			w.race.join(o, g.vc)
		}
		return v, true
	}
	if ch.closed {
		if w.race != nil {
			w.race.join(g, ch.clVC)
		}
		return w.ls.get(t).zeroValue(), false
	}
	panic(engineError("completeRecv"))
}

func chanOf(v Value) *ChanObj {
	c, _ := v.x.(*ChanObj)
	return c
}

func (w *Wk) chanSend(g *G, cv, v Value) {
	ch := chanOf(cv)
	w.yield(g)
	if ch == nil || !w.canSend(ch, g) {
		w.blockOn(g, "send", []waitCase{{ch, true, v}}, func() bool { return ch != nil && w.canSend(ch, g) })
		if g.fired >= 0 {
			g.fired = -1
			return
		}
	}
	w.completeSend(g, ch, v)
}

func (w *Wk) blockOn(g *G, why string, wait []waitCase, ready func() bool) {
	g.wait = wait
	g.fired = -1
	if w.race != nil {
		w.race.release(g)
	}
	w.block(g, why, ready)
	g.wait = nil
}

func (w *Wk) chanRecv(g *G, cv Value, t types.Type) (Value, bool) {
	ch := chanOf(cv)
	w.yield(g)
	if ch == nil || !w.canRecv(ch, g) {
		w.blockOn(g, "receive", []waitCase{{ch, false, Value{}}}, func() bool { return ch != nil && w.canRecv(ch, g) })
		if g.fired >= 0 {
			g.fired = -1
			return g.val, g.ok
		}
	}
	return w.completeRecv(g, ch, t)
}

func (w *Wk) chanClose(g *G, cv Value) {
	ch := chanOf(cv)
	if ch == nil {
		w.goPanic("close of nil channel")
	}
	w.yield(g)
	w.baseChan(ch)
	if ch.closed {
		w.goPanic("close of closed channel")
	}
	ch.closed = true
	if w.race != nil {
		w.race.release(g)
		ch.clVC = append([]uint32(nil), g.vc...)
	}
}

func (w *Wk) doSelect(fr *frame, c *cins) {
	g := fr.g
	sel := c.in.(*ssa.Select)
	w.yield(g)
	n := len(sel.States)
	chs := make([]*ChanObj, n)
	vals := make([]Value, n)
	for i := range sel.States {
		chs[i] = chanOf(fr.get(w, &c.ops[2*i]))
		vals[i] = fr.get(w, &c.ops[2*i+1])
	}
	able := func(i int) bool {
		if chs[i] == nil {
			return false
		}
		if sel.States[i].Dir == types.SendOnly {
			return w.canSend(chs[i], g)
		}
		return w.canRecv(chs[i], g)
	}
	// result tuple: index, recvOk, one value per receive state
	result := func(idx int, ok bool, v Value) {
		out := []Value{mkInt(64, uint64(int64(idx))), mkBool(ok)}
		for i, s := range sel.States {
			if s.Dir == types.SendOnly {
				continue
			}
			if i == idx {
				out = append(out, v)
			} else {
				out = append(out, w.ls.get(s.Chan.Type().Underlying().(*types.Chan).Elem()).zeroValue())
			}
		}
		fr.regs[c.dst] = Value{k: KTuple, x: out}
	}
	collect := func() []int {
		var r []int
		for i := 0; i < n; i++ {
			if able(i) {
				r = append(r, i)
			}
		}
		return r
	}
	cand := collect()
	if len(cand) == 0 {
		if !c.flag {
			result(-1, false, Value{})
			return
		}
		var wait []waitCase
		for i, s := range sel.States {
			wait = append(wait, waitCase{chs[i], s.Dir == types.SendOnly, vals[i]})
		}
		w.blockOn(g, "select", wait, func() bool { return len(collect()) > 0 })
		if g.fired >= 0 {
			i := g.fired
			g.fired = -1
			if sel.States[i].Dir == types.SendOnly {
				result(i, false, Value{})
			} else {
				result(i, g.ok, g.val)
			}
			return
		}
		cand = collect()
	}
	k := cand[0]
	if len(cand) > 1 && !w.ho.selectFirst {
		k = cand[w.choose(len(cand))]
	}
	if sel.States[k].Dir == types.SendOnly {
		w.completeSend(g, chs[k], vals[k])
		result(k, false, Value{})
		return
	}
	v, ok := w.completeRecv(g, chs[k], sel.States[k].Chan.Type().Underlying().(*types.Chan).Elem())
	result(k, ok, v)
}

// ---- data races ----

type shadow struct {
	wG, wC uint32
	wPos   string
	reads  map[uint32]uint32
	rPos   map[uint32]string
	aw, ar map[uint32]uint32 // atomic writes and reads
}

type raceState struct {
	w   *Wk
	sh  map[*Obj]map[int]*shadow
	msh map[*MapObj]*shadow
	rel map[any][]uint32
}

func (w *Wk) enableRace() {
	w.race = &raceState{w: w, sh: map[*Obj]map[int]*shadow{}, msh: map[*MapObj]*shadow{}, rel: map[any][]uint32{}}
	for _, g := range w.gs {
		if g.vc == nil {
			g.vc = make([]uint32, g.id+1)
			g.vc[g.id] = 1
		}
	}
	w.ho.noMerge = true
}

func joinVC(a, b []uint32) []uint32 {
	r := append([]uint32(nil), a...)
	for len(r) < len(b) {
		r = append(r, 0)
	}
	for i, x := range b {
		if x > r[i] {
			r[i] = x
		}
	}
	return r
}

func (r *raceState) spawn(p, n *G) {
	n.vc = joinVC(p.vc, nil)
	for len(n.vc) <= n.id {
		n.vc = append(n.vc, 0)
	}
	n.vc[n.id] = 1
	p.vc[p.id]++
}

func (r *raceState) exit(g *G) {}

// release starts a new epoch of g, its current clock being what others may acquire.
func (r *raceState) release(g *G) { g.vc[g.id]++ }

func (r *raceState) join(g *G, vc []uint32) { g.vc = joinVC(g.vc, vc) }

// acquire/releaseTo model synchronisation through an object (mutex, atomic, pool).
func (r *raceState) acquire(g *G, key any) { r.join(g, r.rel[key]) }
func (r *raceState) releaseTo(g *G, key any) {
	r.rel[key] = joinVC(r.rel[key], g.vc)
	g.vc[g.id]++
}

func (r *raceState) access(s *shadow, g *G, write bool, what func() string) {
	id := uint32(g.id)
	if s.wC != 0 && s.wG != id {
		if int(s.wG) >= len(g.vc) || g.vc[s.wG] < s.wC {
			r.w.violateHere("race", "data race on "+what()+": write at "+s.wPos+" and access at "+r.w.where())
		}
	}
	for o, c := range s.aw {
		if o != id && (int(o) >= len(g.vc) || g.vc[o] < c) {
			r.w.violateHere("race", "data race on "+what()+": atomic write and plain access at "+r.w.where())
		}
	}
	if write {
		for o, c := range s.ar {
			if o != id && (int(o) >= len(g.vc) || g.vc[o] < c) {
				r.w.violateHere("race", "data race on "+what()+": atomic read and plain write at "+r.w.where())
			}
		}
		for o, c := range s.reads {
			if o != id && (int(o) >= len(g.vc) || g.vc[o] < c) {
				r.w.violateHere("race", "data race on "+what()+": read at "+s.rPos[o]+" and write at "+r.w.where())
			}
		}
		s.wG, s.wC = id, g.vc[id]
		s.wPos = r.w.whereShort()
		s.reads = nil
		s.rPos = nil
		return
	}
	if s.reads == nil {
		s.reads = map[uint32]uint32{}
		s.rPos = map[uint32]string{}
	}
	if s.reads[id] != g.vc[id] {
		s.reads[id] = g.vc[id]
		s.rPos[id] = r.w.whereShort()
	}
}

func (w *Wk) whereShort() string {
	if w.cur == nil || w.cur.top == nil || w.cur.top.ci == nil {
		return "?"
	}
	f := w.cur.top
	p := w.prog.prog.Fset.Position(f.ci.in.Pos())
	return fmt.Sprintf("%s:%d", f.fi.name, p.Line)
}

func (w *Wk) raceAccess(o *Obj, slot int, write bool) {
	if w.race == nil || w.initDepth > 0 || w.cur == nil || o.ro || len(w.gs) == 1 {
		return
	}
	m := w.race.sh[o]
	if m == nil {
		m = map[int]*shadow{}
		w.race.sh[o] = m
	}
	s := m[slot]
	if s == nil {
		s = &shadow{}
		m[slot] = s
	}
	w.race.access(s, w.cur, write, func() string {
		if o.label != "" {
			return o.label
		}
		if o.typ != nil {
			return "a value of type " + o.typ.String()
		}
		return "memory"
	})
}

// raceAtomic records an atomic access: it conflicts with plain accesses only.
func (w *Wk) raceAtomic(o *Obj, slot int, write bool) {
	r, g := w.race, w.cur
	m := r.sh[o]
	if m == nil {
		m = map[int]*shadow{}
		r.sh[o] = m
	}
	s := m[slot]
	if s == nil {
		s = &shadow{}
		m[slot] = s
	}
	id := uint32(g.id)
	if s.wC != 0 && s.wG != id && (int(s.wG) >= len(g.vc) || g.vc[s.wG] < s.wC) {
		w.violateHere("race", "data race: write at "+s.wPos+" and atomic access at "+w.where())
	}
	if write {
		for o, c := range s.reads {
			if o != id && (int(o) >= len(g.vc) || g.vc[o] < c) {
				w.violateHere("race", "data race: read at "+s.rPos[o]+" and atomic write at "+w.where())
			}
		}
		if s.aw == nil {
			s.aw = map[uint32]uint32{}
		}
		s.aw[id] = g.vc[id]
		return
	}
	if s.ar == nil {
		s.ar = map[uint32]uint32{}
	}
	s.ar[id] = g.vc[id]
}

func (w *Wk) raceMap(m *MapObj, write bool) {
	if w.race == nil || w.initDepth > 0 || w.cur == nil || len(w.gs) == 1 {
		return
	}
	s := w.race.msh[m]
	if s == nil {
		s = &shadow{}
		w.race.msh[m] = s
	}
	w.race.access(s, w.cur, write, func() string { return "a map" })
}
