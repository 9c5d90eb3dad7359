package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type entKind uint8

const (
	eBranch entKind = iota
	eAssume
	eAssert
	eChoose
	eConc
)

type alt struct {
	pick  uint64
	model map[string]uint64
}

type ent struct {
	kind   entKind
	forced bool
	pick   uint64
	pend   []alt
	pushed bool // solver level pushed for this entry (in this worker)
}

// path termination signals (Go panics)
type pathEnd struct {
	kind string // infeasible, limit, unsupported, exit
	msg  string
}

type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"` // assert, panic, deadlock, limit, race, alloc
	Msg     string            `json:"msg"`
	Model   map[string]uint64 `json:"model"`
	Inputs  []InputRec        `json:"inputs"`
	Stack   string            `json:"stack,omitempty"`
}

type InputRec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

type Task struct {
	ents  []ent
	model map[string]uint64
}

type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	queue    []Task
	idle     int
	nworkers int
	stop     bool
	deadline time.Time
	cut      atomic.Int64 // earlier deadline once a violation was found (unix ns)

	res *HarnessResult
}

// Sample is a completed path with concrete inputs.
type Sample struct {
	Inputs []InputRec
	Reach  []string
}

type HarnessResult struct {
	Harness     string           `json:"harness"`
	Paths       int64            `json:"paths"`
	Completed   int64            `json:"paths_completed"`
	Infeasible  int64            `json:"paths_cut_by_assumption"`
	Limits      int64            `json:"paths_over_limit"`
	Unsupported map[string]int   `json:"unsupported,omitempty"`
	Decisions   int64            `json:"decisions"`
	Steps       int64            `json:"ssa_steps"`
	MaxSteps    int64            `json:"max_ssa_steps_per_path"`
	Asserts     int64            `json:"assertions_evaluated"`
	AssertsFold int64            `json:"assertions_decided_by_simplification"`
	AssertQ     int64            `json:"assertions_discharged_by_solver"`
	Queries     int64            `json:"solver_queries"`
	Unknown     int64            `json:"solver_unknown"`
	Fallbacks   int64            `json:"solver_fallbacks"`
	SolverMs    int64            `json:"solver_ms"`
	WallMs      int64            `json:"wall_ms"`
	Exhausted   bool             `json:"exhausted"`
	Reached     map[string]int64 `json:"reached"`
	Cuts        map[string]int64 `json:"cuts,omitempty"`
	Samples     []string         `json:"sample_paths,omitempty"`
	SampleIn    []Sample         `json:"-"`
	Violations  []Violation      `json:"violations,omitempty"`
	Funcs       map[string]bool  `json:"-"`
	RepoFuncs   []string         `json:"repo_functions"`
	FuncCount   int              `json:"functions_executed"`
}

func (w *Wk) runHarnessTasks(ex *Explorer) {
	for {
		ex.mu.Lock()
		for len(ex.queue) == 0 && !ex.stop {
			ex.idle++
			if ex.idle == ex.nworkers {
				ex.stop = true
				ex.cond.Broadcast()
				ex.mu.Unlock()
				return
			}
			ex.cond.Wait()
			ex.idle--
		}
		if ex.stop {
			ex.mu.Unlock()
			return
		}
		t := ex.queue[len(ex.queue)-1]
		ex.queue = ex.queue[:len(ex.queue)-1]
		ex.mu.Unlock()
		w.explore(ex, t)
	}
}

func (w *Wk) popTo(n int) {
	// undo solver levels of entries >= n
	cnt := 0
	for i := n; i < w.solverPos; i++ {
		if w.ents[i].pushed {
			cnt++
			w.ents[i].pushed = false
		}
	}
	w.solver.Pop(cnt)
	if w.solverPos > n {
		w.solverPos = n
	}
}

func (w *Wk) explore(ex *Explorer, t Task) {
	w.popTo(0)
	w.ents = append([]ent(nil), t.ents...)
	for i := range w.ents {
		w.ents[i].pushed = false
	}
	w.model = t.model
	w.ex = ex
	for {
		if w.overTime(ex) {
			return
		}
		stop := w.runPath(ex)
		if stop {
			return
		}
		w.donate(ex)
		// backtrack
		i := len(w.ents) - 1
		for ; i >= 0; i-- {
			if len(w.ents[i].pend) > 0 {
				break
			}
		}
		if i < 0 {
			w.popTo(0)
			w.ents = nil
			return
		}
		w.popTo(i)
		e := &w.ents[i]
		a := e.pend[len(e.pend)-1]
		e.pend = e.pend[:len(e.pend)-1]
		e.pick = a.pick
		w.model = a.model
		w.ents = w.ents[:i+1]
	}
}

func (w *Wk) overTime(ex *Explorer) bool {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ex.stop {
		return true
	}
	if time.Now().After(ex.deadlineNow()) {
		ex.stop = true
		ex.res.Exhausted = false
		ex.cond.Broadcast()
		return true
	}
	return false
}

// checkTime ends the path when the harness' time is up.
func (w *Wk) checkTime() {
	if w.ex != nil && time.Now().After(w.ex.deadlineNow()) {
		panic(pathEnd{"time", "time is up"})
	}
}

func (ex *Explorer) deadlineNow() time.Time {
	if d := ex.cut.Load(); d != 0 {
		return time.Unix(0, d)
	}
	return ex.deadline
}

func (w *Wk) donate(ex *Explorer) {
	ex.mu.Lock()
	hungry := ex.idle > 0 && len(ex.queue) < ex.idle
	ex.mu.Unlock()
	if !hungry {
		return
	}
	for i := range w.ents {
		e := &w.ents[i]
		if len(e.pend) == 0 {
			continue
		}
		a := e.pend[0]
		e.pend = e.pend[1:]
		ents := make([]ent, i+1)
		for j := 0; j <= i; j++ {
			ents[j] = ent{kind: w.ents[j].kind, forced: w.ents[j].forced, pick: w.ents[j].pick}
		}
		ents[i].pick = a.pick
		ents[i].forced = false
		ex.mu.Lock()
		ex.queue = append(ex.queue, Task{ents, a.model})
		ex.cond.Signal()
		ex.mu.Unlock()
		return
	}
}

// level makes the solver stack reflect entry w.pos with condition c (nil: nothing to assert).
func (w *Wk) level(c *Term) {
	if w.solverPos > w.pos {
		return
	}
	if w.solverPos != w.pos {
		panic("engine: solver position")
	}
	e := &w.ents[w.pos]
	if c != nil && c != w.ts.True {
		w.solver.Push()
		w.solver.Assert(c)
		e.pushed = true
	}
	w.solverPos++
}

func (w *Wk) checkKind(k entKind) *ent {
	e := &w.ents[w.pos]
	if e.kind != k {
		panic(fmt.Sprintf("engine: non-deterministic re-execution: entry %d is %d, want %d", w.pos, e.kind, k))
	}
	return e
}

func (w *Wk) noInit() {
	if w.initDepth > 0 {
		panic(pathEnd{"unsupported", "symbolic decision during package initialisation"})
	}
}

// decide picks one of the mutually exclusive, exhaustive conditions.
func (w *Wk) decide(conds []*Term) int {
	live, last := 0, -1
	for i, c := range conds {
		if c == w.ts.True {
			return i
		}
		if c != w.ts.False {
			live++
			last = i
		}
	}
	if live == 1 {
		return last
	}
	w.noInit()
	if w.pos < len(w.ents) {
		e := w.checkKind(eBranch)
		p := int(e.pick)
		if e.forced {
			w.level(nil)
		} else {
			w.level(conds[p])
		}
		w.pos++
		return p
	}
	w.stDecisions++
	w.checkTime()
	var feas []alt
	for i, c := range conds {
		if c == w.ts.False {
			continue
		}
		if w.model != nil && w.ts.Eval(c, w.model) != 0 {
			feas = append(feas, alt{uint64(i), w.model})
			continue
		}
		// last candidate with nothing feasible so far must be feasible
		r, m := w.solver.Check(c, true)
		if r == resUnsat {
			continue
		}
		if r == resUnknown {
			w.stUnknown++
		}
		feas = append(feas, alt{uint64(i), m})
	}
	if len(feas) == 0 {
		panic(pathEnd{"infeasible", "no feasible branch"})
	}
	e := ent{kind: eBranch, pick: feas[0].pick}
	if len(feas) == 1 {
		e.forced = true
	} else {
		e.pend = append(e.pend, feas[1:]...)
	}
	w.model = feas[0].model
	w.ents = append(w.ents, e)
	if e.forced {
		w.level(nil)
	} else {
		w.level(conds[e.pick])
	}
	w.pos++
	return int(e.pick)
}

func (w *Wk) branch(c *Term) bool {
	if c == w.ts.True {
		return true
	}
	if c == w.ts.False {
		return false
	}
	return w.decide([]*Term{c, w.ts.Not(c)}) == 0
}

// choose picks one of n alternatives without a condition.
func (w *Wk) choose(n int) int {
	if n <= 1 {
		return 0
	}
	w.noInit()
	if w.pos < len(w.ents) {
		e := w.checkKind(eChoose)
		w.level(nil)
		w.pos++
		return int(e.pick)
	}
	w.stDecisions++
	e := ent{kind: eChoose}
	for i := n - 1; i >= 1; i-- {
		e.pend = append(e.pend, alt{uint64(i), w.model})
	}
	w.ents = append(w.ents, e)
	w.level(nil)
	w.pos++
	return 0
}

func (w *Wk) assume(c *Term) {
	if c == w.ts.True {
		return
	}
	if c == w.ts.False {
		panic(pathEnd{"infeasible", "assume"})
	}
	w.noInit()
	if w.pos < len(w.ents) {
		w.checkKind(eAssume)
		w.level(c)
		w.pos++
		return
	}
	m := w.model
	if m == nil || w.ts.Eval(c, m) == 0 {
		r, mm := w.solver.Check(c, true)
		if r == resUnsat {
			panic(pathEnd{"infeasible", "assume"})
		}
		if r == resUnknown {
			w.stUnknown++
		}
		m = mm
	}
	w.model = m
	w.ents = append(w.ents, ent{kind: eAssume})
	w.level(c)
	w.pos++
}

// mustHold checks that c holds on every value of the current path; otherwise reports a violation.
func (w *Wk) mustHold(c *Term, kind, msg string) {
	w.stAsserts++
	if c == w.ts.True {
		w.stAssertFold++
		return
	}
	if w.pos < len(w.ents) {
		w.checkKind(eAssert)
		w.level(nil)
		w.pos++
		return
	}
	nc := w.ts.Not(c)
	if w.model != nil && w.ts.Eval(nc, w.model) != 0 {
		w.violate(kind, msg, w.model)
	}
	r, m := w.solver.Check(nc, true)
	switch r {
	case resSat:
		w.violate(kind, msg, m)
	case resUnknown:
		w.stUnknown++
	default:
		w.stAssertQ++
	}
	w.ents = append(w.ents, ent{kind: eAssert, forced: true})
	w.level(nil)
	w.pos++
}

// concretize forks over all feasible values of t.
func (w *Wk) concretize(t *Term, limit int, what string) uint64 {
	if t.op == OpConst {
		return t.k
	}
	w.noInit()
	if w.pos < len(w.ents) {
		e := w.checkKind(eConc)
		if e.forced {
			w.level(nil)
		} else {
			w.level(w.ts.Eq(t, w.ts.Const(t.w, e.pick)))
		}
		w.pos++
		return e.pick
	}
	w.stDecisions++
	var alts []alt
	w.solver.Push()
	for {
		var m map[string]uint64
		if len(alts) == 0 && w.model != nil {
			m = w.model
		} else {
			r, mm := w.solver.Check(nil, true)
			if r == resUnsat {
				break
			}
			if r == resUnknown {
				w.stUnknown++
				w.cuts["concretize-unknown:"+what]++
				break
			}
			m = mm
		}
		v := w.ts.Eval(t, m)
		alts = append(alts, alt{v, m})
		if len(alts) > limit {
			w.solver.Pop(1)
			panic(pathEnd{"unsupported", fmt.Sprintf("more than %d values for %s", limit, what)})
		}
		w.solver.Assert(w.ts.Not(w.ts.Eq(t, w.ts.Const(t.w, v))))
	}
	w.solver.Pop(1)
	if len(alts) == 0 {
		panic(pathEnd{"infeasible", "concretize"})
	}
	sort.Slice(alts, func(i, j int) bool { return alts[i].pick < alts[j].pick })
	e := ent{kind: eConc, pick: alts[0].pick, forced: len(alts) == 1}
	for i := len(alts) - 1; i >= 1; i-- {
		e.pend = append(e.pend, alts[i])
	}
	w.model = alts[0].model
	w.ents = append(w.ents, e)
	if e.forced {
		w.level(nil)
	} else {
		w.level(w.ts.Eq(t, w.ts.Const(t.w, e.pick)))
	}
	w.pos++
	return e.pick
}

type violationFound struct{ v Violation }

func (w *Wk) violate(kind, msg string, model map[string]uint64) {
	v := Violation{Harness: w.harness, Kind: kind, Msg: msg, Model: model, Stack: w.stackTrace()}
	for _, in := range w.inputs {
		r := InputRec{Name: in.name, Kind: in.kind, Val: in.val}
		if in.t != nil {
			r.Val = w.ts.Eval(in.t, model)
		}
		v.Inputs = append(v.Inputs, r)
	}
	panic(violationFound{v})
}

func (w *Wk) stackTrace() string {
	if w.cur == nil {
		return ""
	}
	var sb strings.Builder
	n := 0
	for f := w.cur.top; f != nil && n < 12; f = f.caller {
		pos := ""
		if f.ci != nil {
			p := w.prog.prog.Fset.Position(f.ci.in.Pos())
			if p.IsValid() {
				pos = fmt.Sprintf(" %s:%d", p.Filename, p.Line)
			}
		}
		fmt.Fprintf(&sb, "%s%s\n", f.fi.fn.String(), pos)
		n++
	}
	return sb.String()
}

// runPath executes the harness once along w.ents; returns true to stop exploring.
func (w *Wk) runPath(ex *Explorer) (stop bool) {
	w.resetPath()
	w.pos = 0
	startModelNil := w.model == nil
	if startModelNil && len(w.ents) == 0 {
		w.model = map[string]uint64{}
	}
	end := w.execHarness()
	res := ex.res
	ex.mu.Lock()
	defer ex.mu.Unlock()
	res.Paths++
	res.Steps += w.steps
	if w.steps > res.MaxSteps {
		res.MaxSteps = w.steps
	}
	res.Decisions += w.stDecisions
	res.Asserts += w.stAsserts
	res.AssertsFold += w.stAssertFold
	res.AssertQ += w.stAssertQ
	res.Unknown += w.stUnknown
	w.stDecisions, w.stAsserts, w.stAssertFold, w.stAssertQ, w.stUnknown = 0, 0, 0, 0, 0
	for k, n := range w.cuts {
		res.Cuts[k] += n
		delete(w.cuts, k)
	}
	switch e := end.(type) {
	case nil:
		res.Completed++
		for k := range w.reached {
			res.Reached[k]++
		}
		w.addSample(res)
	case pathEnd:
		switch e.kind {
		case "infeasible":
			res.Infeasible++
		case "time":
			res.Exhausted = false
			ex.stop = true
			ex.cond.Broadcast()
		case "limit":
			res.Limits++
			res.Unsupported["limit: "+e.msg]++
		case "exit":
			res.Completed++
			for k := range w.reached {
				res.Reached[k]++
			}
		default:
			res.Unsupported[e.msg]++
		}
	case violationFound:
		key := e.v.Kind + e.v.Msg
		if ex.cut.Load() == 0 {
			if d := time.Now().Add(20 * time.Second); d.Before(ex.deadline) {
				ex.cut.Store(d.UnixNano())
			}
		}
		n := 0
		for _, v := range res.Violations {
			if v.Kind+v.Msg == key {
				n++
			}
		}
		if n < 3 {
			res.Violations = append(res.Violations, e.v)
		}
		if len(res.Violations) >= w.opts.maxViolations {
			ex.stop = true
			res.Exhausted = false
			ex.cond.Broadcast()
			return true
		}
	}
	return ex.stop
}

// addSample keeps paths 1, 2, 4, 8, ... for the replay on the compiled code.
func (w *Wk) addSample(res *HarnessResult) {
	n := res.Completed
	if n&(n-1) != 0 || len(res.SampleIn) >= 16 {
		return
	}
	m := w.model
	if m == nil {
		return
	}
	if len(res.Samples) < 3 {
		res.Samples = append(res.Samples, w.sample())
	}
	s := Sample{}
	for _, in := range w.inputs {
		r := InputRec{Name: in.name, Kind: in.kind, Val: in.val}
		if in.t != nil {
			r.Val = w.ts.Eval(in.t, m)
		}
		s.Inputs = append(s.Inputs, r)
	}
	for k := range w.reached {
		s.Reach = append(s.Reach, k)
	}
	sort.Strings(s.Reach)
	res.SampleIn = append(res.SampleIn, s)
}

func (w *Wk) sample() string {
	var sb strings.Builder
	n := 0
	for _, in := range w.inputs {
		if n > 40 {
			sb.WriteString(" ...")
			break
		}
		n++
		v := in.val
		if in.t != nil {
			if w.model == nil {
				continue
			}
			v = w.ts.Eval(in.t, w.model)
		}
		fmt.Fprintf(&sb, " %s=%#x", in.name, v)
	}
	return strings.TrimSpace(sb.String())
}

func newResult(name string) *HarnessResult {
	return &HarnessResult{Harness: name, Unsupported: map[string]int{}, Reached: map[string]int64{}, Cuts: map[string]int64{}, Funcs: map[string]bool{}, Exhausted: true}
}

// RunHarness explores one harness function with all workers.
func RunHarness(ws []*Wk, fn *ssa.Function, name string, limit time.Duration) *HarnessResult {
	t0 := time.Now()
	ex := &Explorer{nworkers: len(ws), deadline: t0.Add(limit), res: newResult(name)}
	ex.cond = sync.NewCond(&ex.mu)
	ex.queue = []Task{{}}
	var wg sync.WaitGroup
	var errMu sync.Mutex
	var engErr any
	for _, w := range ws {
		w.harness, w.harnessFn = name, fn
		w.newHarness()
		wg.Add(1)
		go func(w *Wk) {
			defer wg.Done()
			defer func() {
				if r := recover(); r != nil {
					errMu.Lock()
					engErr = fmt.Sprintf("%v\n%s", r, stackOf())
					errMu.Unlock()
					ex.mu.Lock()
					ex.stop = true
					ex.cond.Broadcast()
					ex.mu.Unlock()
				}
			}()
			w.runHarnessTasks(ex)
		}(w)
	}
	wg.Wait()
	res := ex.res
	if engErr != nil {
		res.Unsupported["engine error: "+fmt.Sprint(engErr)]++
		res.Exhausted = false
	}
	for _, w := range ws {
		st := w.solver.stats
		res.Queries += st.Queries
		res.Fallbacks += st.Fallback
		res.SolverMs += st.Nanos / 1e6
		w.solver.stats = SolverStats{}
		for f := range w.funcs {
			res.Funcs[f] = true
		}
	}
	res.FuncCount = len(res.Funcs)
	for f := range res.Funcs {
		if strings.Contains(f, "flachnetz/dd-zipkin-proxy") && !strings.Contains(f, "internal/vsym") {
			res.RepoFuncs = append(res.RepoFuncs, strings.ReplaceAll(f, "github.com/flachnetz/dd-zipkin-proxy", "."))
		}
	}
	sort.Strings(res.RepoFuncs)
	res.WallMs = time.Since(t0).Milliseconds()
	if len(res.Unsupported) > 0 || res.Unknown > 0 || res.Limits > 0 {
		res.Exhausted = false
	}
	return res
}
