package zipkinproxy

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzRun runs ErrorCorrectSpans with a large output channel.
type zzRun struct {
	in  chan proxy.Span
	out chan proxy.Trace
	now time.Duration

	// what was taken so far (up to 2000 spans), and copies of it
	taken  []proxy.Trace
	copies []proxy.Trace
	size   int
}

func zzStart() *zzRun {
	r := &zzRun{in: make(chan proxy.Span), out: make(chan proxy.Trace, 64)}
	go ErrorCorrectSpans(r.in, r.out)
	vsym.Settle()
	return r
}

func (r *zzRun) advance(d time.Duration) {
	vsym.Advance(d)
	vsym.Settle()
	r.now += d
}

func (r *zzRun) send(s proxy.Span) {
	r.in <- s
	vsym.Settle()
}

// take gives the traces that were emitted since the last call.
func (r *zzRun) take() []proxy.Trace {
	var out []proxy.Trace
	for len(r.out) > 0 {
		t := <-r.out
		out = append(out, t)
		if r.size += len(t); r.size <= 2000 {
			r.taken = append(r.taken, t)
			r.copies = append(r.copies, append(proxy.Trace{}, t...))
		}
	}
	return out
}

// stop ends the run; nothing that was emitted has changed since it was taken.
func (r *zzRun) stop() {
	close(r.in)
	vsym.Settle()
	for i, t := range r.taken {
		for k, s := range t {
			c := r.copies[i][k]
			same := s.Id == c.Id && s.Trace == c.Trace && s.Parent == c.Parent && s.Name == c.Name && s.Service == c.Service
			vsym.Assert(same && s.Timestamp == c.Timestamp && s.Duration == c.Duration && s.Timings == c.Timings, "a trace was changed after it was emitted")
		}
	}
}

// zzSet is the specification of one buffered trace: the distinct spans in order of arrival.
type zzSet struct {
	ids     []Id
	parents []Id
	names   []string
}

func (t *zzSet) add(s proxy.Span) {
	for i, id := range t.ids {
		if id == s.Id {
			if t.parents[i] == 0 {
				t.parents[i] = s.Parent
			}
			return
		}
	}
	t.ids = append(t.ids, s.Id)
	t.parents = append(t.parents, s.Parent)
	t.names = append(t.names, s.Name)
}

func (t *zzSet) has(id Id) bool {
	for _, x := range t.ids {
		if x == id {
			return true
		}
	}
	return false
}

// tops gives the indices of the topmost spans.
func (t *zzSet) tops() []int {
	var out []int
	for i, id := range t.ids {
		if t.parents[i] == id || !t.has(t.parents[i]) {
			out = append(out, i)
		}
	}
	return out
}

const (
	zzDropped = iota
	zzWhole       // emitted as it is
	zzSynthetic   // emitted with a synthetic root
	zzUnspecified // several topmost spans without any parent
)

func (t *zzSet) verdict() (int, Id) {
	tops := t.tops()
	if len(tops) == 1 {
		return zzWhole, 0
	}
	if len(tops) == 0 {
		return zzDropped, 0
	}
	p := t.parents[tops[0]]
	for _, i := range tops {
		if t.parents[i] != p {
			return zzDropped, 0
		}
	}
	if p == 0 {
		return zzUnspecified, 0
	}
	return zzSynthetic, p
}

// zzCheckTrace compares an emitted trace with what was received.
func zzCheckTrace(got proxy.Trace, traceId Id, set *zzSet) {
	verdict, root := set.verdict()
	vsym.Assert(verdict != zzDropped, "a trace without one root was emitted")
	extra := 0
	for i, s := range got {
		vsym.Assert(s.Trace == traceId, "a span of another trace was emitted with the trace")
		for k := 0; k < i; k++ {
			vsym.Assert(got[k].Id != s.Id, "a span was emitted twice")
		}
		if !set.has(s.Id) {
			extra++
			vsym.Assert(verdict != zzWhole, "a span was emitted that was not received")
			if verdict == zzSynthetic {
				vsym.Assert(s.Id == root, "the synthetic root has another id than the missing parent")
				vsym.Assert(s.Parent == s.Id, "the synthetic root is no root")
			}
		}
	}
	vsym.Assert(extra <= 1, "more than one span was made up")
	if verdict == zzSynthetic {
		vsym.Assert(extra == 1, "the synthetic root is missing")
	}
	vsym.Assert(len(got) == len(set.ids)+extra, "a span was lost")
	for i, id := range set.ids {
		found := false
		for _, s := range got {
			if s.Id == id {
				found = true
				vsym.Assert(s.Parent == set.parents[i], "a span was given another parent")
				vsym.Assert(s.Name == set.names[i] && s.Service == "s", "a span was given another name")
			}
		}
		vsym.Assert(found, "a span was lost")
	}
}

type zzLive struct {
	id      Id
	set     zzSet
	started time.Duration
	updated time.Duration
}

// zzWorld is the specification of the assembly of traces from spans that arrive 50 ms after a check.
type zzWorld struct {
	run  *zzRun
	live []*zzLive
}

func (w *zzWorld) send(s proxy.Span) {
	w.run.send(s)
	if s.Id == 0 || s.Trace == 0 {
		return
	}
	for _, l := range w.live {
		if l.id == s.Trace {
			l.set.add(s)
			l.updated = w.run.now
			return
		}
	}
	l := &zzLive{id: s.Trace, started: w.run.now, updated: w.run.now}
	l.set.add(s)
	w.live = append(w.live, l)
}

// advance lets time pass and compares what is emitted with what should be.
func (w *zzWorld) advance(d time.Duration) {
	w.run.advance(d)
	got := w.run.take()
	used := make([]bool, len(got))
	var rest []*zzLive
	for _, l := range w.live {
		if w.run.now-l.updated < 8050*time.Millisecond {
			rest = append(rest, l)
			continue
		}
		verdict, _ := l.set.verdict()
		found := -1
		for i, t := range got {
			vsym.Assert(len(t) > 0, "an empty trace was emitted")
			if t[0].Trace == l.id {
				vsym.Assert(!used[i], "harness")
				found = i
				used[i] = true
				break
			}
		}
		switch {
		case verdict == zzUnspecified && found < 0:
		case verdict == zzDropped:
			vsym.Assert(found < 0, "a trace without one root was emitted")
			vsym.Reach("dropped")
		default:
			vsym.Assert(found >= 0, "a quiet trace was not emitted")
			zzCheckTrace(got[found], l.id, &l.set)
			vsym.Reach("emitted")
		}
	}
	w.live = rest
	for _, u := range used {
		vsym.Assert(u, "a trace was emitted that is not quiet, or twice")
	}
}
