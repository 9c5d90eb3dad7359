package datadog

import (
	"errors"
	"net/http"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzAgent answers the k-th batch as answers[k] says, all further ones with success: 0 success, 1 an error, 2 a response and an error,
// 3 it hangs until it is released and then succeeds, 4 the same with an error.
type zzAgent struct {
	answers []int
	release chan bool
	batches [][][]*tracer.Span
	done    int
}

func (a *zzAgent) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	k := len(a.batches)
	vsym.Assert(a.done == k, "two batches were sent at the same time")
	a.batches = append(a.batches, traces)
	answer := 0
	if k < len(a.answers) {
		answer = a.answers[k]
	}
	if answer >= 3 {
		<-a.release
		answer -= 3
	}
	a.done++
	switch answer {
	case 1:
		return nil, errors.New("connection refused")
	case 2:
		return &http.Response{StatusCode: 503, Header: http.Header{}}, errors.New("503")
	}
	return &http.Response{StatusCode: 200, Header: http.Header{}}, nil
}

func (a *zzAgent) SendServices(services map[string]tracer.Service) (*http.Response, error) {
	vsym.Fail("services sent")
	return nil, nil
}

func (a *zzAgent) SetHeader(key, value string) {}

// zzGive hands a trace over, which must not take any time.
func zzGive(in chan proxy.Trace, t proxy.Trace) {
	now := time.Now()
	done := false
	go func() {
		in <- t
		done = true
	}()
	vsym.Settle()
	vsym.Assert(done, "the sink does not accept a trace")
	vsym.Assert(time.Since(now) == 0, "the sink accepted a trace only after some time")
}

// zzWhole gives the number of the full batch (of 1000 spans each, batch k is of trace k+1 with the span ids from 1000k+1 on) that was sent.
func zzWhole(b [][]*tracer.Span) int {
	vsym.Assert(len(b) == 1 && len(b[0]) == 1000, "a batch was not sent as a whole")
	k := int(b[0][0].TraceID) - 1
	seen := make([]bool, 1000)
	for _, s := range b[0] {
		i := int(s.SpanID) - 1000*k - 1
		vsym.Assert(i >= 0 && i < 1000 && !seen[i] && s.TraceID == uint64(k+1), "spans of another batch or twice the same were sent in a batch")
		seen[i] = true
		vsym.Assert(s.Start == int64(s.SpanID), "a span was overwritten while it waited")
	}
	return k
}

// 0, 1, 2, 8, 9, 10, 13 or 30 full batches while the agent hangs at the first, second or third of them (the ones before succeed or fail): each trace is accepted at once, eight batches wait; when the
// agent answers (with success or an error), the ones that wait are sent in order and whole, later ones are discarded whole, and everything that comes then is sent
//gosym: quick=200 thorough=900 reach=ok,discarded
func ZZC30_Hang() {
	vsym.Option("steps", 1<<40)
	a := &zzAgent{release: make(chan bool)}
	before := vsym.Choose("before", 3)
	for i := 0; i < before; i++ {
		a.answers = append(a.answers, vsym.Choose("answer", 3))
	}
	a.answers = append(a.answers, 3+vsym.Choose("finally", 3))
	in := make(chan proxy.Trace)
	go Sink(a, in)
	vsym.Settle()
	at := vsym.Int64("at")
	vsym.Assume(at > 0 && at < int64(2*time.Second))
	vsym.Advance(time.Duration(at))
	for i := 0; i < before; i++ {
		zzGive(in, zzFullTrace(proxy.Id(i+1), 1000*i+1, 1000))
	}
	vsym.Assert(a.done == before, "a batch was not sent")
	n := before + []int{0, 1, 2, 8, 9, 10, 13, 30}[vsym.Choose("batches", 8)]
	for i := before; i < n; i++ {
		zzGive(in, zzFullTrace(proxy.Id(i+1), 1000*i+1, 1000))
	}
	vsym.Assert(a.done == before, "the agent was not waited for")
	// it takes some time
	vsym.Advance(time.Minute)
	vsym.Settle()
	want := n - before
	if want > 9 {
		want = 9
		vsym.Reach("discarded")
	}
	if n > before {
		vsym.Assert(len(a.batches) == before+1, "another batch was sent while the agent did not answer")
		a.release <- true
		vsym.Settle()
	} else {
		a.answers = a.answers[:before]
	}
	vsym.Assert(len(a.batches) == before+want, "not every waiting batch was sent when the agent answered again")
	// from now on everything is sent
	for i := n; i < n+3; i++ {
		zzGive(in, zzFullTrace(proxy.Id(i+1), 1000*i+1, 1000))
	}
	zzGive(in, zzFullTrace(999, 1, 2))
	vsym.Advance(5 * time.Second)
	vsym.Settle()
	vsym.Assert(len(a.batches) == before+want+4, "a batch was lost although the agent answers")
	for i, b := range a.batches {
		switch {
		case i < before+want:
			vsym.Assert(zzWhole(b) == i, "batches were sent in another order")
		case i < before+want+3:
			vsym.Assert(zzWhole(b) == n+i-before-want, "batches were sent in another order")
		default:
			vsym.Assert(len(b) == 1 && len(b[0]) == 2 && b[0][0].TraceID == 999, "the last batch was not sent as a whole")
		}
	}
	close(in)
	vsym.Settle()
	vsym.Reach("ok")
}

// the agent never answers the first batch, and one small trace comes every three seconds (thorough: or every second) for a minute: each is accepted at once
//gosym: quick=100 thorough=300 reach=ok
func ZZC30_Trickle() {
	a := &zzAgent{release: make(chan bool), answers: []int{3}}
	in := make(chan proxy.Trace)
	go Sink(a, in)
	every := 3 * time.Second
	if vsym.Thorough() && vsym.Bool("often") {
		every = time.Second
	}
	at := vsym.Int64("at")
	vsym.Assume(at > 0 && at < int64(2*time.Second))
	vsym.Settle()
	vsym.Advance(time.Duration(at))
	n := 0
	for t := time.Duration(0); t < time.Minute; t += every {
		n++
		zzGive(in, zzFullTrace(proxy.Id(n), n, 1))
		vsym.Advance(every)
		vsym.Settle()
	}
	vsym.Assert(len(a.batches) == 1 && a.done == 0, "not one batch is being sent")
	a.release <- true
	vsym.Advance(10 * time.Second)
	vsym.Settle()
	sent := 0
	for _, b := range a.batches {
		for _, g := range b {
			for _, s := range g {
				sent++
				vsym.Assert(int(s.SpanID) == sent && int(s.TraceID) == sent || len(b) > 1, "a batch that waited was changed or sent in another order")
			}
		}
	}
	if every > 2*time.Second {
		vsym.Assert(len(a.batches) == 9 && sent == 9, "not the eight batches that waited were sent")
	}
	zzGive(in, zzFullTrace(500, 500, 1))
	vsym.Advance(10 * time.Second)
	vsym.Settle()
	vsym.Assert(len(a.batches[len(a.batches)-1]) == 1 && a.batches[len(a.batches)-1][0][0].SpanID == 500, "a batch was lost although the agent answers")
	close(in)
	vsym.Settle()
	vsym.Reach("ok")
}

// 4 batches (thorough: 6), each answered with success, an error or a response and an error: every one is sent once, whole
//gosym: quick=100 thorough=300 reach=ok
func ZZC30_Errors() {
	vsym.Option("steps", 1<<40)
	n := 4
	if vsym.Thorough() {
		n = 6
	}
	a := &zzAgent{}
	for i := 0; i < n; i++ {
		a.answers = append(a.answers, vsym.Choose("answer", 3))
	}
	in := make(chan proxy.Trace)
	go Sink(a, in)
	vsym.Settle()
	for i := 0; i < n; i++ {
		zzGive(in, zzFullTrace(proxy.Id(i+1), 1000*i+1, 1000))
		vsym.Assert(a.done == i+1, "a batch was not sent at once")
	}
	vsym.Advance(10 * time.Second)
	vsym.Settle()
	vsym.Assert(len(a.batches) == n, "another number of batches")
	for i, b := range a.batches {
		vsym.Assert(zzWhole(b) == i, "batches were sent in another order")
	}
	close(in)
	vsym.Settle()
	vsym.Reach("ok")
}

// the agent hangs at the first batch while 14 traces of 1, 300, 1500, 2500 or 9000 spans come, and three of a mixed size, of one span per trace (a batch of 1000 groups, thrice as many traces) or all of a trace:
// each is accepted at once, and when the agent answers again all that waits is sent, no span twice
//gosym: quick=100 thorough=300 reach=ok
func ZZC30_Sizes() {
	vsym.Option("steps", 1<<40)
	a := &zzAgent{answers: []int{3}, release: make(chan bool)}
	in := make(chan proxy.Trace)
	go Sink(a, in)
	vsym.Settle()
	n := []int{300, 1500, 2500, 9000}[vsym.Choose("size", 4)]
	single := vsym.Bool("many traces")
	next := 1
	give := func(n int) {
		t := zzFullTrace(proxy.Id(next), next, n)
		next += n
		if single {
			// the groups are what counts for the agent, not how spans come
			for i := range t {
				t[i].Trace = t[i].Id
			}
		}
		zzGive(in, t)
	}
	for i := 0; i < 14; i++ {
		give(n)
	}
	give(1)
	give(999)
	give(1001)
	vsym.Assert(len(a.batches) == 1 && a.done == 0, "not one batch is being sent")
	vsym.Advance(30 * time.Second)
	vsym.Settle()
	a.release <- true
	vsym.Settle()
	vsym.Advance(5 * time.Second)
	vsym.Settle()
	give(5)
	vsym.Advance(5 * time.Second)
	vsym.Settle()
	seen := make([]bool, next)
	count := 0
	for _, b := range a.batches {
		for _, g := range b {
			for _, s := range g {
				i := int(s.SpanID)
				vsym.Assert(i > 0 && i < next && !seen[i], "a span was sent twice")
				seen[i] = true
				vsym.Assert(s.TraceID == g[0].TraceID && s.Start == int64(i) && (!single || s.TraceID == s.SpanID), "a span was changed while it waited")
				count++
			}
		}
	}
	if n > 1000 {
		vsym.Assert(len(a.batches) == 10 && count == 9*n+5, "not the nine batches that fit were sent")
	} else {
		vsym.Assert(count == next-1, "a span was lost although its batch fits")
	}
	for i := next - 5; i < next; i++ {
		vsym.Assert(seen[i], "a span was lost although the agent answers")
	}
	close(in)
	vsym.Settle()
	vsym.Reach("ok")
}
