package zipkinproxy

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

func zzSpan(trace, id, parent Id) proxy.Span {
	return proxy.Span{Id: id, Trace: trace, Parent: parent, Timestamp: 1600000000000000000, Duration: 5}
}

// zzFill sends n spans of a trace (not waiting) with descending ids, all of them children of one missing span.
func (r *zzRun) zzFill(trace Id, n int) {
	for i := 0; i < n; i++ {
		r.in <- zzSpan(trace, Id(1000000-i), 1000001)
	}
	vsym.Settle()
}

// a trace of 8191, 8192, 8193, 8300 or 65600 distinct spans (some of them sent twice), still active at a check: with more than 8192 it is never
// emitted and later spans of it are ignored, otherwise it keeps collecting spans; a small trace beside it is emitted
//gosym: quick=300 thorough=300 reach=large,small
func ZZC22_TooLarge() {
	vsym.Option("steps", 1<<40)
	n := []int{8191, 8192, 8193, 8300, 65600}[vsym.Choose("spans", 5)]
	r := zzStart()
	r.advance(50 * time.Millisecond)
	r.send(zzSpan(2, 1, 1))
	// two topmost spans with different parents, emitting so many spans takes too long here
	r.zzFill(1, n-1)
	r.send(zzSpan(1, 7, 7))
	for i := 0; i < 100; i++ {
		// parts of spans that are known
		r.in <- zzSpan(1, Id(1000000-i), 1000001)
	}
	r.advance(100 * time.Millisecond)
	vsym.Assert(len(r.take()) == 0, "an active trace was emitted")
	if n > 8192 {
		// none of these may start a new trace
		r.send(zzSpan(1, 5, 5))
		r.advance(3 * time.Second)
		r.send(zzSpan(1, 5, 5))
		r.advance(4*time.Second + 800*time.Millisecond)
		vsym.Assert(len(r.take()) == 0, "emitted too early")
		r.send(zzSpan(1, 5, 5))
		r.advance(12 * time.Second)
		got := r.take()
		vsym.Assert(len(got) == 1 && got[0][0].Trace == 2, "a trace that was too large or spans that came after it were emitted, or another trace was lost")
		vsym.Reach("large")
	} else {
		// it stays without one root
		r.advance(9 * time.Second)
		got := r.take()
		vsym.Assert(len(got) == 1 && got[0][0].Trace == 2, "a trace without one root was emitted or another one was lost")
		// it is not remembered
		r.send(zzSpan(1, 5, 5))
		r.advance(9 * time.Second)
		got = r.take()
		vsym.Assert(len(got) == 1 && got[0][0].Trace == 1 && len(got[0]) == 1, "spans of a new trace were ignored")
		vsym.Reach("small")
	}
	r.stop()
}

// a trace that gets a span after each pause of 3, 5 or 7 s (in any order) for 56 s or more (thorough: any of 7 pauses from 1 to 7.9 s): once it was started
// more than 40 s ago it is never emitted, and all further spans are ignored
//gosym: quick=300 thorough=900 reach=old,quiet
func ZZC22_TooOld() {
	pauses := []time.Duration{5 * time.Second, 7 * time.Second}
	if vsym.Thorough() {
		pauses = []time.Duration{3 * time.Second, 5 * time.Second, 7 * time.Second, 7900 * time.Millisecond}
	}
	r := zzStart()
	r.advance(50 * time.Millisecond)
	started := r.now
	r.send(zzSpan(1, 1, 1))
	stop := vsym.Choose("stop", 9)
	for i := 0; i < stop; i++ {
		r.advance(pauses[vsym.Choose("pause", len(pauses))])
		vsym.Assert(len(r.take()) == 0, "an active or overaged trace was emitted")
		r.send(zzSpan(1, Id(i+2), 1))
	}
	last := r.now
	// first check at which it is quiet, first check at which it is too old
	quietAt := last + 8050*time.Millisecond
	oldAt := started + 40050*time.Millisecond
	r.advance(9 * time.Second)
	got := r.take()
	if oldAt <= quietAt {
		vsym.Assert(len(got) == 0, "an overaged trace was emitted")
		r.send(zzSpan(1, 1, 1))
		r.advance(9 * time.Second)
		vsym.Assert(len(r.take()) == 0, "a span of an overaged trace was not ignored")
		vsym.Reach("old")
	} else {
		vsym.Assert(len(got) == 1 && len(got[0]) == stop+1, "a quiet trace that is not overaged was not emitted")
		r.send(zzSpan(1, 1, 1))
		r.advance(9 * time.Second)
		vsym.Assert(len(r.take()) == 1, "a span of a new trace was ignored")
		vsym.Reach("quiet")
	}
	r.stop()
}

// 1022, 1023, 1024 or 1100 traces become overaged at one check or in two groups: none is forgotten while there are at most 1023, and at most 1023 are remembered after a check
//gosym: quick=300 thorough=300 reach=ok
func ZZC22_Memory() {
	vsym.Option("steps", 1<<40)
	n := []int{3, 1022, 1023, 1024, 1100}[vsym.Choose("traces", 5)]
	second := 0
	if vsym.Bool("groups") {
		second = n / 3
	}
	r := &zzRun{in: make(chan proxy.Span), out: make(chan proxy.Trace, 2000)}
	go ErrorCorrectSpans(r.in, r.out)
	r.advance(50 * time.Millisecond)
	// the last span of a trace arrives 35 s after its first one
	for i := 0; i < 7; i++ {
		for k := 1; k <= n; k++ {
			if k > second && i < 6 || k <= second && i > 0 {
				r.in <- zzSpan(Id(k), 1, 1)
			}
		}
		vsym.Settle()
		r.advance(7 * time.Second)
		vsym.Assert(len(r.take()) == 0, "an active or overaged trace was emitted")
	}
	r.advance(9 * time.Second)
	vsym.Assert(len(r.take()) == 0, "an active or overaged trace was emitted")
	for k := 1; k <= n; k++ {
		r.in <- zzSpan(Id(k), 1, 1)
	}
	vsym.Settle()
	r.advance(9 * time.Second)
	got := len(r.take())
	if n <= 1023 {
		vsym.Assert(got == 0, "an id was forgotten")
	} else {
		vsym.Assert(got >= n-1023, "more than 1023 ids are remembered")
		vsym.Assert(got == n-1023, "an id was forgotten though there was place")
	}
	r.stop()
	vsym.Reach("ok")
}

// zzSizes are sizes of traces (sum of the first 12: 93600).
var zzBase = []int{8190, 8170, 8100, 8000, 7900, 7850, 7800, 7750, 7600, 7500, 7400, 7340}

// 12 traces of 7340..8190 spans and some more, 99999..118231 spans in total, or 13 traces of 7695..7707 spans, together with an oversized one that does not count or not: at the first check the largest traces are discarded,
// as many as needed to get below 100000 when there are more than that, and no other
//gosym: quick=600 thorough=900 reach=discard,keep stress
func ZZC22_Discard() {
	vsym.Option("steps", 1<<40)
	more := [][]int{
		{6300, 99},       // 99999
		{6300, 100},      // 100000
		{6300, 101},      // 100001
		{6000, 5000, 1},  // 104601
		{8000, 6300, 90}, // 107990: one of the largest is enough
		{8191, 6300, 2000, 1, 2, 3}, // two of the largest are needed: 110097
		{1, 2, 3, 8191, 8192, 8192, 50}, // 118231: several
	}
	m := vsym.Choose("more", len(more)+1)
	if !vsym.Thorough() {
		vsym.Assume(m != 1 && m != 3)
	}
	var sizes []int
	if m < len(more) {
		sizes = append(append([]int{}, zzBase...), more[m]...)
	} else {
		// sizes that differ by one: 100113
		for i := 0; i < 13; i++ {
			sizes = append(sizes, 7707-i)
		}
	}
	total := 0
	for _, s := range sizes {
		total += s
	}
	r := zzStart()
	r.advance(50 * time.Millisecond)
	if vsym.Bool("oversized") {
		r.zzFill(1000, 8193)
	}
	orders := 2
	if m == len(more) {
		orders = 4
	}
	switch vsym.Choose("order", orders) {
	case 0:
		for i := range sizes {
			r.zzFill(Id(i+1), sizes[i])
		}
	case 1:
		for i := len(sizes) - 1; i >= 0; i-- {
			r.zzFill(Id(i+1), sizes[i])
		}
	case 2:
		for i := range sizes {
			k := i * 5 % len(sizes)
			r.zzFill(Id(k+1), sizes[k])
		}
	case 3:
		for i := range sizes {
			k := (i*8 + 6) % len(sizes)
			r.zzFill(Id(k+1), sizes[k])
		}
	}
	r.advance(100 * time.Millisecond)
	// whether a trace was discarded is seen from what a new root span makes of it: a trace that is still there stays without one root
	left := total
	min := 0
	if total > 100000 {
		// the largest ones, by size; min is the smallest size that is discarded
		order := append([]int{}, sizes...)
		for i := range order {
			for k := i; k > 0 && order[k] > order[k-1]; k-- {
				order[k], order[k-1] = order[k-1], order[k]
			}
		}
		for _, s := range order {
			if left < 100000 {
				break
			}
			left -= s
			min = s
		}
	}
	for i := range sizes {
		r.in <- zzSpan(Id(i+1), 5, 5)
	}
	vsym.Settle()
	r.advance(9 * time.Second)
	gone := map[Id]bool{}
	for _, t := range r.take() {
		vsym.Assert(len(t) == 1, "a trace without one root was emitted")
		gone[t[0].Trace] = true
	}
	dropped := 0
	for i, s := range sizes {
		if gone[Id(i+1)] {
			dropped += s
			vsym.Assert(min > 0 && s >= min, "a smaller trace was discarded than needed")
		} else {
			vsym.Assert(min == 0 || s <= min, "a larger trace was kept than one that was discarded")
		}
	}
	vsym.Assert(total-dropped == left, "not exactly the largest traces were discarded")
	if min > 0 {
		vsym.Reach("discard")
	} else {
		vsym.Reach("keep")
	}
	r.stop()
}

// a trace whose first span arrives at any moment of a tick and that gets a span after each of 5 pauses, two of 6.4 s and three of any length between 6.3 and 6.5 s (thorough: all between 6.35 and 6.45 s):
// it is emitted when it gets quiet more than 0.1 s before it is 40 s old, and never emitted (and later spans are ignored) when that is more than 0.1 s the other way round
//gosym: quick=300 thorough=900 reach=old,quiet
func ZZC22_Ages() {
	from, to, fixed := int64(6300*time.Millisecond), int64(6500*time.Millisecond), 2
	if vsym.Thorough() {
		from, to, fixed = int64(6350*time.Millisecond), int64(6450*time.Millisecond), 0
	}
	r := zzStart()
	first := vsym.Int64("first")
	vsym.Assume(first > 0 && first < int64(100*time.Millisecond))
	r.advance(time.Duration(first))
	r.send(zzSpan(1, 1, 1))
	sum := int64(0)
	for i := 0; i < 5; i++ {
		p := int64(6400 * time.Millisecond)
		if i >= fixed {
			p = vsym.Int64("pause")
			vsym.Assume(p > from && p < to)
		}
		r.advance(time.Duration(p))
		sum += p
		vsym.Assert(len(r.take()) == 0, "an active trace was emitted")
		r.send(zzSpan(1, Id(i+2), 1))
	}
	r.advance(8200 * time.Millisecond)
	got := r.take()
	if sum >= int64(32100*time.Millisecond) {
		vsym.Assert(len(got) == 0, "an overaged trace was emitted")
		r.send(zzSpan(1, 1, 1))
		r.advance(9 * time.Second)
		vsym.Assert(len(r.take()) == 0, "a span of an overaged trace was not ignored")
		vsym.Reach("old")
	} else if sum <= int64(31900*time.Millisecond) {
		vsym.Assert(len(got) == 1 && len(got[0]) == 6, "a quiet trace that is not overaged was not emitted")
		r.send(zzSpan(1, 1, 1))
		r.advance(9 * time.Second)
		vsym.Assert(len(r.take()) == 1, "a span of a new trace was ignored")
		vsym.Reach("quiet")
	}
	r.stop()
}
