package zipkinproxy

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// 1..3 spans of one trace with arbitrary ids and parents (thorough: 1..4), sent at once: what is emitted after they were quiet
//gosym: quick=300 thorough=900 reach=whole,synthetic,dropped
func ZZC19_OneTrace() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	n = 1 + vsym.Choose("spans", n)
	r := zzStart()
	set := &zzSet{}
	traceId := Id(vsym.Int64("trace"))
	vsym.Assume(traceId != 0)
	r.advance(50 * time.Millisecond)
	for i := 0; i < n; i++ {
		s := proxy.Span{Id: Id(vsym.Int64("id")), Trace: traceId, Parent: Id(vsym.Int64("parent")), Name: string([]byte{byte('a' + i)}), Service: "s", Timestamp: 1600000000000000000, Duration: 5}
		if s.Id != 0 {
			set.add(s)
		}
		r.send(s)
	}
	r.advance(7900 * time.Millisecond)
	vsym.Assert(len(r.take()) == 0, "emitted too early")
	r.advance(300 * time.Millisecond)
	got := r.take()
	r.advance(3 * time.Second)
	vsym.Assert(len(r.take()) == 0, "a trace was emitted twice")
	r.stop()
	v, _ := set.verdict()
	switch {
	case v == zzUnspecified:
		return
	case v == zzDropped:
		vsym.Assert(len(got) == 0, "a trace without one root was emitted")
		vsym.Reach("dropped")
	default:
		vsym.Assert(len(got) == 1, "a trace was not emitted once")
		zzCheckTrace(got[0], traceId, set)
		if v == zzWhole {
			vsym.Reach("whole")
		} else {
			vsym.Reach("synthetic")
		}
	}
}

// 4 spans (thorough: 5) of two traces (ids 1, 2 or 0) with ids 0..2 and parents 0..2 of any kind, in between 0 s, 5 s or 9 s each; checked after every
// pause and 20 s later
//gosym: quick=300 thorough=900 reach=emitted,dropped
func ZZC19_Histories() {
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	w := &zzWorld{run: zzStart()}
	w.advance(50 * time.Millisecond)
	small := func(name string) Id {
		v := Id(vsym.Int64(name))
		vsym.Assume(v >= 0 && v <= 2)
		return v
	}
	for i := 0; i < n; i++ {
		w.send(proxy.Span{Id: small("id"), Trace: small("trace"), Parent: small("parent"), Name: string([]byte{byte('a' + i)}), Service: "s", Timestamp: 1600000000000000000, Duration: 5})
		if i < n-1 {
			switch vsym.Choose("pause", 3) {
			case 1:
				w.advance(5 * time.Second)
			case 2:
				w.advance(9 * time.Second)
			}
		}
	}
	w.advance(20 * time.Second)
	w.run.stop()
}
