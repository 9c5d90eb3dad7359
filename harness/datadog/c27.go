package datadog

import (
	"net/http"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzSlow reads the spans of a batch when it gets them and again some time later, as a real transport does while it encodes and sends them.
type zzSlow struct {
	batches [][][]*tracer.Span
	sums    []uint64
	delay   time.Duration
}

func zzSum(traces [][]*tracer.Span) uint64 {
	var sum uint64
	for _, g := range traces {
		for _, s := range g {
			vsym.Assert(s.TraceID == g[0].TraceID && s.Resource == s.Meta["k"], "a span was mixed up with another one")
			sum = sum + s.SpanID*uint64(len(s.Resource))
		}
	}
	return sum
}

func (t *zzSlow) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	before := zzSum(traces)
	time.Sleep(t.delay)
	vsym.Assert(zzSum(traces) == before, "a batch changed while it was being sent")
	t.batches = append(t.batches, traces)
	t.sums = append(t.sums, before)
	return nil, nil
}

func (t *zzSlow) SendServices(services map[string]tracer.Service) (*http.Response, error) {
	return nil, nil
}

func (t *zzSlow) SetHeader(key, value string) {}

// three batches of 1000 spans arrive while the transport needs 0, 1 or 5 s for one and reads it before and after that, and the trace's
// other sink reads the trace, too; every schedule with up to 2 deviations (thorough: 4, and 1 preemption) from the order in which goroutines were started
//gosym: quick=200 thorough=900 reach=ok stress
func ZZC27_Sink() {
	vsym.Option("race", 1)
	vsym.Option("delay", 2)
	if vsym.Thorough() {
		vsym.Option("delay", 4)
		vsym.Option("preempt", 1)
	}
	vsym.Option("steps", 1<<40)
	names := []string{"a", "bb", "ccc"}
	t := &zzSlow{delay: []time.Duration{0, time.Second, 5 * time.Second}[vsym.Choose("delay", 3)]}
	in := make(chan proxy.Trace, vsym.Choose("capacity", 2))
	go Sink(t, in)
	other := make(chan proxy.Trace, 3)
	done := make(chan bool)
	go func() {
		for trace := range other {
			for i := range trace {
				vsym.Assert(trace[i].Name == trace[i].Tags["k"] && trace[i].Duration == 0, "the other sink sees a changed span")
			}
		}
		done <- true
	}()
	id := 0
	for i := 0; i < 3; i++ {
		var trace proxy.Trace
		for k := 0; k < 1000; k++ {
			id++
			trace = append(trace, proxy.Span{Id: proxy.Id(id), Trace: proxy.Id(i + 1), Name: names[i], Tags: map[string]string{"k": names[i]}})
		}
		in <- trace
		other <- trace
	}
	close(other)
	<-done
	vsym.Advance(30 * time.Second)
	vsym.Settle()
	n := 0
	for i, b := range t.batches {
		vsym.Assert(zzSum(b) == t.sums[i], "a batch changed after it was sent")
		for _, g := range b {
			n += len(g)
		}
	}
	vsym.Assert(n == id, "spans were lost or duplicated")
	close(in)
	vsym.Settle()
	vsym.Reach("ok")
}
