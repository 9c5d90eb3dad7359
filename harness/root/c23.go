package zipkinproxy

import (
	"time"
	"errors"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

var zzErr = errors.New("failed")

// zzConverter changes every field of a span, or fails, or gives a span without a valid id, depending on Duration.
func zzConverter(s proxy.Span) (proxy.Span, error) {
	switch s.Duration {
	case 0:
	case 1:
		return proxy.Span{Id: 99, Trace: 99}, zzErr
	case 2:
		s.Id = 0
	case 3:
		s.Trace = 0
	case 4:
		return proxy.Span{}, zzErr
	}
	s.Name += "!"
	s.Service = "converted"
	s.Parent++
	return s, nil
}

// zzExpected is the converted trace.
func zzExpected(trace proxy.Trace) proxy.Trace {
	var out proxy.Trace
	for _, s := range trace {
		c, err := zzConverter(s)
		if err == nil && c.Id != 0 && c.Trace != 0 {
			out = append(out, c)
		}
	}
	return out
}

func zzTrace(n, id int) proxy.Trace {
	var t proxy.Trace
	for i := 0; i < n; i++ {
		t = append(t, proxy.Span{
			Id: proxy.Id(vsym.Int64("id")), Trace: proxy.Id(vsym.Int64("trace")), Parent: proxy.Id(i),
			Name: string([]byte{byte('a' + id), byte('0' + i)}), Duration: 0, Timestamp: proxy.Timestamp(100*id + i),
		})
	}
	for i := range t {
		// what the converter makes of it
		t[i].Duration = []int64ToDuration{0, 1, 2, 3, 4}[vsym.Choose("result", 5)].d()
	}
	return t
}

type int64ToDuration int64

func (v int64ToDuration) d() (d time.Duration) { return time.Duration(v) }

// 0..3 sinks and 1..3 traces of 0..3 spans (thorough: 4) with arbitrary ids and every combination of converter results
//gosym: quick=100 thorough=900 reach=ok
func ZZC23_FanOut() {
	max := 3
	if vsym.Thorough() {
		max = 4
	}
	sinks := vsym.Choose("sinks", 4)
	traces := 1 + vsym.Choose("traces", 2)
	source := make(chan proxy.Trace)
	var targets []chan<- proxy.Trace
	var outs []chan proxy.Trace
	for i := 0; i < sinks; i++ {
		ch := make(chan proxy.Trace, 8)
		outs = append(outs, ch)
		targets = append(targets, ch)
	}
	done := make(chan bool)
	go func() {
		forwardSpansToChannels(source, targets, zzConverter)
		close(done)
	}()
	var want []proxy.Trace
	for i := 0; i < traces; i++ {
		n := max + 1
		if i > 0 {
			n = 3
		}
		t := zzTrace(vsym.Choose("spans", n), i)
		want = append(want, zzExpected(t))
		source <- t
	}
	close(source)
	<-done
	for _, out := range outs {
		vsym.Assert(len(out) == traces, "a sink got another number of traces")
		for i := 0; i < traces; i++ {
			got := <-out
			vsym.Assert(len(got) == len(want[i]), "a sink got another number of spans")
			for k := range got {
				zzSameSpan(want[i][k], got[k], "forwarded span")
			}
		}
	}
	vsym.Reach("ok")
}
