package zipkinproxy

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzOpen asserts that nothing was sent to the channel and that it was not closed.
func zzOpen(ch chan proxy.Trace, what string) {
	select {
	case _, ok := <-ch:
		vsym.Assert(ok, what+": the output was closed")
		vsym.Fail(what + ": something was passed on after the stage ended")
	default:
	}
}

func zzTraceOf(id Id, n int) proxy.Trace {
	var t proxy.Trace
	for i := 0; i < n; i++ {
		t = append(t, proxy.Span{Id: Id(i + 1), Trace: id, Parent: 1})
	}
	return t
}

// 0..3 traces of 0..3 spans wait when the input of the recent-spans buffer (capacity 4) is closed, and it is read at the same time: it returns and shows them
// afterwards; all interleavings with one preemption (thorough: two)
//gosym: quick=100 thorough=300 reach=ok stress
func ZZC29_Buffer() {
	p := 1
	if vsym.Thorough() {
		p = 2
	}
	vsym.Option("preempt", p)
	before := vsym.Goroutines()
	buffer := NewSpansBuffer(4)
	n := vsym.Choose("traces", 4)
	in := make(chan proxy.Trace, n)
	total := 0
	for i := 0; i < n; i++ {
		k := vsym.Choose("spans", 4)
		total += k
		in <- zzTraceOf(Id(i+1), k)
	}
	done := make(chan bool, 1)
	go func() {
		buffer.ReadFrom(in)
		done <- true
	}()
	close(in)
	_ = buffer.ToSlice()
	vsym.Settle()
	vsym.Assert(len(done) == 1, "the buffer did not return after its input was closed")
	vsym.Assert(vsym.Goroutines() == before, "a goroutine is left")
	want := total
	if want > 4 {
		want = 4
	}
	for i := 0; i < 2; i++ {
		vsym.Assert(len(buffer.ToSlice()) == want, "the buffer does not show what it received before its input was closed")
	}
	vsym.Reach("ok")
}

// 0..2 traces with one to three spans each, one of them released and maybe not yet taken when the input of the trace assembly is closed at any moment of a check interval after 0, 7.9 or 8 s:
// it returns once what it is passing on was taken, and emits nothing more
//gosym: quick=100 thorough=300 reach=ok,blocked
func ZZC29_Assembly() {
	before := vsym.Goroutines()
	in := make(chan proxy.Span, 8)
	out := make(chan proxy.Trace)
	done := make(chan bool, 1)
	go func() {
		ErrorCorrectSpans(in, out)
		done <- true
	}()
	vsym.Settle()
	n := vsym.Choose("traces", 3)
	for i := 0; i < n; i++ {
		for _, s := range zzTraceOf(Id(i+1), 1+vsym.Choose("spans", 3)) {
			in <- s
		}
	}
	vsym.Settle()
	vsym.Advance([]time.Duration{0, 7900 * time.Millisecond, 8 * time.Second}[vsym.Choose("after", 3)])
	vsym.Settle()
	at := vsym.Int64("at")
	vsym.Assume(at > 0 && at < int64(150*time.Millisecond))
	vsym.Advance(time.Duration(at))
	vsym.Settle()
	if vsym.Bool("more") {
		in <- proxy.Span{Id: 7, Trace: 9, Parent: 7}
	}
	close(in)
	vsym.Settle()
	taken := 0
	for len(done) == 0 {
		vsym.Reach("blocked")
		// it can only be waiting for its output
		select {
		case t := <-out:
			vsym.Assert(len(t) > 0, "an empty trace was emitted")
			taken++
		default:
			vsym.Fail("the assembly does not end after its input was closed")
		}
		vsym.Settle()
		vsym.Assert(taken <= n, "more traces than received")
	}
	vsym.Assert(vsym.Goroutines() == before, "a goroutine is left")
	vsym.Advance(time.Minute)
	vsym.Settle()
	zzOpen(out, "assembly")
	vsym.Reach("ok")
}
