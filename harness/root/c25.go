package zipkinproxy

import (
	"sync"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzLast gives the last n of the spans, without those whose id is zero.
func zzLast(all []proxy.Span, n int) []proxy.Span {
	if len(all) > n {
		all = all[len(all)-n:]
	}
	var out []proxy.Span
	for _, s := range all {
		if s.Id != 0 {
			out = append(out, s)
		}
	}
	return out
}

func zzSameBuffer(want, got []proxy.Span) {
	vsym.Assert(len(want) == len(got), "the buffer shows another number of spans")
	for i := range want {
		zzSameSpan(want[i], got[i], "shown span")
	}
}

// capacities 1..4, up to 4 traces of 0..3 spans (thorough: 5 traces; capacities also 7) with arbitrary ids (zero included), read after every trace
//gosym: quick=100 thorough=900 reach=ok,wrapped
func ZZC25_Order() {
	caps := []int{1, 2, 3, 4}
	traces := 4
	if vsym.Thorough() {
		caps, traces = []int{1, 2, 3, 4, 7}, 5
	}
	capacity := caps[vsym.Choose("capacity", len(caps))]
	buffer := NewSpansBuffer(uint(capacity))
	ch := make(chan proxy.Trace)
	go buffer.ReadFrom(ch)
	zzSameBuffer(nil, buffer.ToSlice())
	var all []proxy.Span
	for i := 0; i < traces; i++ {
		var trace proxy.Trace
		n := vsym.Choose("spans", 4)
		for k := 0; k < n; k++ {
			span := proxy.Span{Id: proxy.Id(vsym.Int64("id")), Trace: proxy.Id(i), Parent: proxy.Id(vsym.Int64("parent")), Name: string([]byte{byte('a' + len(all))}), Duration: 5}
			if k == 1 {
				span.Tags = map[string]string{"k": "v"}
			}
			trace = append(trace, span)
			all = append(all, span)
		}
		ch <- trace
		vsym.Settle()
		zzSameBuffer(zzLast(all, capacity), buffer.ToSlice())
		if len(all) > capacity {
			vsym.Reach("wrapped")
		}
	}
	close(ch)
	vsym.Reach("ok")
}

// a buffer of 2048 spans (as in production) filled with 2047, 2048, 2049 or 4100 spans in traces of 100
//gosym: quick=100 thorough=100 reach=ok
func ZZC25_Production() {
	n := []int{2047, 2048, 2049, 4100}[vsym.Choose("spans", 4)]
	buffer := NewSpansBuffer(2048)
	ch := make(chan proxy.Trace)
	go buffer.ReadFrom(ch)
	var all []proxy.Span
	for len(all) < n {
		var trace proxy.Trace
		for len(trace) < 100 && len(all) < n {
			span := proxy.Span{Id: proxy.Id(len(all) + 1)}
			if len(all) == 2048 || len(all) == n-1 {
				span.Id = proxy.Id(vsym.Int64("id"))
			}
			trace = append(trace, span)
			all = append(all, span)
		}
		ch <- trace
	}
	vsym.Settle()
	zzSameBuffer(zzLast(all, 2048), buffer.ToSlice())
	close(ch)
	vsym.Reach("ok")
}

// one or two readers run at any moment while three traces of 1..2 spans arrive in a buffer of 2 or 3: every schedule with up to 2 (thorough: 3) preemptions;
// what is read is a state between two traces and a later reading shows no earlier state
//gosym: quick=200 thorough=900 reach=ok stress nobubble
func ZZC25_Concurrent() {
	vsym.Option("race", 1)
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	vsym.Option("preempt", n)
	capacity := 2 + vsym.Choose("capacity", 2)
	buffer := NewSpansBuffer(uint(capacity))
	ch := make(chan proxy.Trace)
	var states [][]proxy.Span
	var all []proxy.Span
	states = append(states, nil)
	var traces []proxy.Trace
	for i := 0; i < 3; i++ {
		var trace proxy.Trace
		for k := 0; k < 2-i%2; k++ {
			span := proxy.Span{Id: proxy.Id(len(all) + 1), Name: "n"}
			trace = append(trace, span)
			all = append(all, span)
		}
		traces = append(traces, trace)
		states = append(states, zzLast(append([]proxy.Span{}, all...), capacity))
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		buffer.ReadFrom(ch)
		wg.Done()
	}()
	go func() {
		for _, t := range traces {
			ch <- t
		}
		close(ch)
		wg.Done()
	}()
	at := 0
	for i := 0; i < 2; i++ {
		got := buffer.ToSlice()
		found := false
		for ; at < len(states); at++ {
			if zzEqualIds(states[at], got) {
				found = true
				break
			}
		}
		vsym.Assert(found, "the buffer shows a state that is not between two traces")
	}
	wg.Wait()
	zzSameBuffer(states[len(states)-1], buffer.ToSlice())
	vsym.Reach("ok")
}

func zzEqualIds(a, b []proxy.Span) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Id != b[i].Id {
			return false
		}
	}
	return true
}
