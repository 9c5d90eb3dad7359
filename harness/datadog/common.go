package datadog

import (
	"errors"
	"net/http"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzTransport records the batches it is given.
type zzTransport struct {
	start   time.Time
	batches [][][]*tracer.Span
	at      []time.Duration
	delay   time.Duration
	fail    bool
}

func (t *zzTransport) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	t.batches = append(t.batches, traces)
	t.at = append(t.at, time.Since(t.start))
	if t.delay > 0 {
		time.Sleep(t.delay)
	}
	if t.fail {
		return nil, errors.New("not reachable")
	}
	return nil, nil
}

func (t *zzTransport) SendServices(services map[string]tracer.Service) (*http.Response, error) {
	vsym.Fail("services sent")
	return nil, nil
}

func (t *zzTransport) SetHeader(key, value string) {}

func (t *zzTransport) spans() int {
	n := 0
	for _, b := range t.batches {
		for _, g := range b {
			n += len(g)
		}
	}
	return n
}

func zzSink() (*zzTransport, chan proxy.Trace) {
	t := &zzTransport{start: time.Now()}
	in := make(chan proxy.Trace)
	go Sink(t, in)
	vsym.Settle()
	return t, in
}

func zzWait(d time.Duration) {
	vsym.Advance(d)
	vsym.Settle()
}

// zzFullTrace is a trace of n spans.
func zzFullTrace(trace proxy.Id, first, n int) proxy.Trace {
	t := make(proxy.Trace, n)
	for i := range t {
		t[i] = proxy.Span{Id: proxy.Id(first + i), Trace: trace, Parent: 1, Name: "n", Service: "s", Timestamp: proxy.Timestamp(first + i)}
	}
	return t
}
