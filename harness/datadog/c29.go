package datadog

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// 0..9 full batches (of 1000 spans) are handed over while the agent takes 0 or 7 s for each (and maybe answers every one with an error), maybe some spans more that do not fill a batch,
// and then the input is closed at any moment of a flush interval: the sink returns at once, the agent gets every full batch, and nothing is left running then
//gosym: quick=100 thorough=300 reach=ok,waiting
func ZZC29_Sink() {
	vsym.Option("steps", 1<<40)
	t := &zzTransport{start: time.Now()}
	before := vsym.Goroutines()
	in := make(chan proxy.Trace)
	done := make(chan bool, 1)
	go func() {
		Sink(t, in)
		done <- true
	}()
	vsym.Settle()
	if vsym.Bool("slow") {
		t.delay = 7 * time.Second
	}
	t.fail = vsym.Bool("fail")
	at := vsym.Int64("at")
	vsym.Assume(at > 0 && at < int64(2*time.Second))
	zzWait(time.Duration(at))
	n := vsym.Choose("batches", 10)
	for i := 0; i < n; i++ {
		in <- zzFullTrace(proxy.Id(i+1), 1000*i+1, 1000)
		vsym.Settle()
	}
	rest := vsym.Choose("rest", 2) * 5
	if rest > 0 {
		in <- zzFullTrace(77, 1000*n+1, rest)
	}
	close(in)
	vsym.Settle()
	vsym.Assert(len(done) == 1, "the sink did not return after its input was closed")
	if t.delay > 0 && n > 1 {
		vsym.Reach("waiting")
	}
	zzWait(100 * time.Second)
	vsym.Assert(vsym.Goroutines() == before, "a goroutine is left")
	seen := make([]bool, 1000*n+rest+1)
	for _, b := range t.batches {
		for _, g := range b {
			for _, s := range g {
				vsym.Assert(s.SpanID >= 1 && s.SpanID < uint64(len(seen)) && !seen[s.SpanID], "a span was sent that was not received, or twice")
				seen[s.SpanID] = true
				vsym.Assert(s.TraceID == 77 && s.SpanID > uint64(1000*n) || s.TraceID == (s.SpanID-1)/1000+1, "a span was sent in another trace")
			}
		}
	}
	for i := 1; i <= 1000*n; i++ {
		vsym.Assert(seen[i], "a batch that waited to be sent was lost")
	}
	vsym.Reach("ok")
}
