package zipkinproxy

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

func zzSpan(trace, id, parent Id) proxy.Span {
	return proxy.Span{Id: id, Trace: trace, Parent: parent, Timestamp: 1600000000000000000, Duration: 5}
}

// zzExpectAt lets the time pass until the given moment is just not and then just reached (with the check that follows it).
func (r *zzRun) zzExpectAt(left time.Duration, what string) []proxy.Trace {
	r.advance(left - 1)
	vsym.Assert(len(r.take()) == 0, what+" was emitted too early")
	r.advance(100*time.Millisecond + 1)
	return r.take()
}

// a root span and one (thorough: two) further spans of the trace, new ones or parts of the same, after pauses of any number of nanoseconds up to 300 ms, between 7.9 and 8 s, or 4 s:
// the trace is released at the first check 8 s after the last span, as long as each span came before that
//gosym: quick=300 thorough=900 reach=ok
func ZZC20_Pauses() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	r := zzStart()
	first := vsym.Int64("first")
	vsym.Assume(first > 0 && first < int64(300*time.Millisecond))
	r.advance(time.Duration(first))
	r.send(zzSpan(1, 1, 1))
	same := vsym.Bool("same")
	for i := 0; i < n; i++ {
		p := vsym.Int64("pause")
		switch vsym.Choose("kind", 3) {
		case 0:
			vsym.Assume(p > 0 && p < int64(300*time.Millisecond))
		case 1:
			vsym.Assume(p > int64(7900*time.Millisecond) && p < int64(8*time.Second))
		case 2:
			vsym.Assume(p == int64(4*time.Second))
		}
		r.advance(time.Duration(p))
		vsym.Assert(len(r.take()) == 0, "a trace was emitted too early")
		if same {
			r.send(zzSpan(1, 1, 1))
		} else {
			r.send(zzSpan(1, Id(i+2), 1))
		}
	}
	got := r.zzExpectAt(8*time.Second, "a trace")
	vsym.Assert(len(got) == 1, "a quiet trace was not released at the first check")
	r.stop()
	vsym.Reach("ok")
}

// two traces with arbitrary start times up to 300 ms apart, the other one getting spans every 3 s: each is released by its own quiet time
//gosym: quick=300 thorough=900 reach=ok
func ZZC20_TwoTraces() {
	r := zzStart()
	r.advance(50 * time.Millisecond)
	r.send(zzSpan(1, 1, 1))
	p := vsym.Int64("pause")
	vsym.Assume(p > 0 && p < int64(300*time.Millisecond))
	r.advance(time.Duration(p))
	r.send(zzSpan(2, 1, 1))
	rest := 8*time.Second - time.Duration(p)
	active := 1 + vsym.Choose("active", 2)
	for i := 0; i < 2; i++ {
		r.advance(3 * time.Second)
		rest -= 3 * time.Second
		r.send(zzSpan(Id(active), Id(i+2), 1))
	}
	if active == 2 {
		// trace 1 is quiet
		got := r.zzExpectAt(rest, "a trace")
		vsym.Assert(len(got) == 1 && got[0][0].Trace == 1 && len(got[0]) == 1, "the quiet trace was not released")
		got = r.zzExpectAt(8*time.Second-rest-100*time.Millisecond, "an active trace")
		vsym.Assert(len(got) == 1 && got[0][0].Trace == 2 && len(got[0]) == 3, "the quiet trace was not released")
	} else {
		// trace 2 is quiet, 8 s after it was started
		got := r.zzExpectAt(2*time.Second, "a trace")
		vsym.Assert(len(got) == 1 && got[0][0].Trace == 2 && len(got[0]) == 1, "the quiet trace was not released")
		got = r.zzExpectAt(6*time.Second-100*time.Millisecond, "an active trace")
		vsym.Assert(len(got) == 1 && got[0][0].Trace == 1 && len(got[0]) == 3, "the quiet trace was not released")
	}
	r.stop()
	vsym.Reach("ok")
}

// zzFill sends n spans of a trace (not waiting), the first one being its root, with descending ids.
func (r *zzRun) zzFill(trace Id, n int) {
	for i := 0; i < n; i++ {
		r.in <- zzSpan(trace, Id(1000000-i), 1000000)
	}
	vsym.Settle()
}

// 1 or 39999, 40000, 59999, 60000, 79999, 80000 or 99999 buffered spans in traces of 100: the quiet time is 8, 8, 6, 6, 4, 4, 2, 2 s
//gosym: quick=300 thorough=600 reach=ok
func ZZC20_Load() {
	vsym.Option("steps", 1<<40)
	total := []int{1, 39999, 40000, 59999, 60000, 79999, 80000, 99999}[vsym.Choose("spans", 8)]
	quiet := 8 * time.Second
	switch {
	case total >= 80000:
		quiet = 2 * time.Second
	case total >= 60000:
		quiet = 4 * time.Second
	case total >= 40000:
		quiet = 6 * time.Second
	}
	r := &zzRun{in: make(chan proxy.Span), out: make(chan proxy.Trace, 2000)}
	go ErrorCorrectSpans(r.in, r.out)
	r.advance(50 * time.Millisecond)
	traces := 0
	for left := total; left > 0; left -= 100 {
		n := left
		if n > 100 {
			n = 100
		}
		traces++
		r.zzFill(Id(traces), n)
	}
	got := r.zzExpectAt(quiet, "a trace")
	vsym.Assert(len(got) == traces, "not every quiet trace was released at the first check")
	n := 0
	for _, t := range got {
		n += len(t)
	}
	vsym.Assert(n == total, "spans were lost")
	r.stop()
	vsym.Reach("ok")
}

// 1..3 spans of one trace with arbitrary non-zero ids and arbitrary parents (thorough: 1..4), after 8 s: emitted if and only if there is one topmost span or all name the same missing parent
//gosym: quick=300 thorough=900 reach=whole,synthetic,dropped
func ZZC20_Roots() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	n = 1 + vsym.Choose("spans", n)
	r := zzStart()
	set := &zzSet{}
	r.advance(50 * time.Millisecond)
	for i := 0; i < n; i++ {
		s := zzSpan(5, Id(vsym.Int64("id")), Id(vsym.Int64("parent")))
		vsym.Assume(s.Id != 0)
		for _, id := range set.ids {
			vsym.Assume(id != s.Id)
		}
		s.Name = "n"
		set.add(s)
		r.send(s)
	}
	got := r.zzExpectAt(8*time.Second, "a trace")
	r.stop()
	v, root := set.verdict()
	switch v {
	case zzUnspecified:
		return
	case zzDropped:
		vsym.Assert(len(got) == 0, "a trace without one root was emitted")
		vsym.Reach("dropped")
	case zzWhole:
		vsym.Assert(len(got) == 1 && len(got[0]) == n, "a trace with one root was not emitted as it is")
		vsym.Reach("whole")
	case zzSynthetic:
		vsym.Assert(len(got) == 1 && len(got[0]) == n+1, "a trace without its root was not emitted with a synthetic one")
		roots := 0
		for _, s := range got[0] {
			if s.Id == root && s.Parent == root && s.Trace == 5 {
				roots++
			}
		}
		vsym.Assert(roots == 1, "not one synthetic root")
		vsym.Reach("synthetic")
	}
}

// 2..3 topmost spans (thorough: 4) with one missing parent and a child each or not, arbitrary timestamps from 2020 to 2100 and durations up to 10 s: the synthetic root spans their time range
//gosym: quick=300 thorough=900 reach=ok
func ZZC20_Range() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	n = 2 + vsym.Choose("spans", n)
	r := zzStart()
	r.advance(50 * time.Millisecond)
	var from, to int64
	parent := Id(vsym.Int64("parent"))
	vsym.Assume(parent > 1000 || parent < 0)
	for i := 0; i < n; i++ {
		s := zzSpan(5, Id(i+1), parent)
		t, d := vsym.Int64("timestamp"), vsym.Int64("duration")
		vsym.Assume(t >= 1577836800000000000 && t < 4102444800000000000 && d >= 0 && d <= int64(10*time.Second))
		s.Timestamp, s.Duration = proxy.Timestamp(t), time.Duration(d)
		if i == 0 || t < from {
			from = t
		}
		if i == 0 || t+d > to {
			to = t + d
		}
		r.send(s)
	}
	if vsym.Bool("child") {
		s := zzSpan(5, 100, 1)
		s.Timestamp = 1577836800000000001
		r.send(s)
		n++
	}
	got := r.zzExpectAt(8*time.Second, "a trace")
	r.stop()
	vsym.Assert(len(got) == 1 && len(got[0]) == n+1, "a trace without its root was not emitted with a synthetic one")
	for _, s := range got[0] {
		if s.Id == parent {
			vsym.Assert(int64(s.Timestamp) == from, "the synthetic root does not begin with the first span")
			vsym.Assert(int64(s.Duration) == to-from, "the synthetic root does not end with the last span")
		}
	}
	vsym.Reach("ok")
}

// 1..2 spans (thorough: 1..3) of one trace with arbitrary ids and parents; when that trace was emitted or dropped, another span with an arbitrary id and parent arrives
// after a pause of any number of nanoseconds up to 150 ms or between 9 and 9.15 s: it begins a new trace, which is emitted with just this span 8 s later, and nothing after that
//gosym: quick=300 thorough=900 reach=ok,dropped
func ZZC20_Again() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	n = 1 + vsym.Choose("spans", n)
	r := zzStart()
	set := &zzSet{}
	r.advance(50 * time.Millisecond)
	for i := 0; i < n; i++ {
		s := zzSpan(5, Id(vsym.Int64("id")), Id(vsym.Int64("parent")))
		vsym.Assume(s.Id != 0)
		for _, id := range set.ids {
			vsym.Assume(id != s.Id)
		}
		set.add(s)
		r.send(s)
	}
	got := r.zzExpectAt(8*time.Second, "a trace")
	v, _ := set.verdict()
	if v == zzDropped {
		vsym.Assert(len(got) == 0, "a trace without one root was emitted")
		vsym.Reach("dropped")
	} else if v != zzUnspecified {
		vsym.Assert(len(got) == 1, "a quiet trace was not emitted")
	}
	p := vsym.Int64("pause")
	vsym.Assume(p > 0 && p < int64(150*time.Millisecond))
	r.advance([]time.Duration{0, 9 * time.Second}[vsym.Choose("base", 2)])
	r.advance(time.Duration(p))
	vsym.Assert(len(r.take()) == 0, "a trace was emitted again")
	s := zzSpan(5, Id(vsym.Int64("id")), Id(vsym.Int64("parent")))
	vsym.Assume(s.Id != 0)
	r.send(s)
	got = r.zzExpectAt(8*time.Second, "a trace")
	vsym.Assert(len(got) == 1, "a span received after its trace was released or dropped did not come out")
	vsym.Assert(len(got[0]) == 1 && got[0][0].Id == s.Id, "spans of a released or dropped trace came out with a later one")
	r.advance(9 * time.Second)
	vsym.Assert(len(r.take()) == 0, "a trace was emitted again")
	r.stop()
	vsym.Reach("ok")
}
