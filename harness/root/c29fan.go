package zipkinproxy

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// 0..3 traces of 0..2 spans wait when the input of the fan-out to 0..2 sinks is closed; each sink reads at once or only an hour later: all of them get
// everything, then the fan-out returns; all interleavings with one preemption (thorough: two)
//gosym: quick=100 thorough=300 reach=ok stress
func ZZC29_FanOut() {
	p := 1
	if vsym.Thorough() {
		p = 2
	}
	vsym.Option("preempt", p)
	before := vsym.Goroutines()
	n := vsym.Choose("traces", 4)
	sinks := vsym.Choose("sinks", 3)
	in := make(chan proxy.Trace, n)
	for i := 0; i < n; i++ {
		in <- zzTraceOf(Id(i+1), (i+vsym.Choose("spans", 2))%3)
	}
	var outs []chan proxy.Trace
	var targets []chan<- proxy.Trace
	for i := 0; i < sinks; i++ {
		out := make(chan proxy.Trace, vsym.Choose("capacity", 2))
		outs, targets = append(outs, out), append(targets, out)
	}
	done := make(chan bool, 1)
	go func() {
		forwardSpansToChannels(in, targets, func(s proxy.Span) (proxy.Span, error) { return s, nil })
		done <- true
	}()
	close(in)
	got := make([]int, sinks)
	for i := range outs {
		i := i
		if vsym.Bool("slow") {
			vsym.Advance(time.Hour)
			vsym.Settle()
		}
		go func() {
			for got[i] < n {
				<-outs[i]
				got[i]++
			}
		}()
	}
	vsym.Settle()
	vsym.Assert(len(done) == 1, "the fan-out did not return after its input was closed")
	vsym.Assert(vsym.Goroutines() == before, "a goroutine is left")
	for i := range outs {
		vsym.Assert(got[i] == n, "a sink did not get every trace")
		zzOpen(outs[i], "fan-out")
	}
	vsym.Reach("ok")
}
