package zipkinproxy

import (
	"bytes"
	"errors"
	"io/ioutil"
	"net/http"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

type zzStatus struct {
	header http.Header
	code   int
}

func (w *zzStatus) Header() http.Header         { return w.header }
func (w *zzStatus) Write(b []byte) (int, error) { return len(b), nil }
func (w *zzStatus) WriteHeader(code int)        { w.code = code }

// the whole pipeline: two requests at the same time (v1, v2, Jaeger or malformed), trace assembly, fan-out to the buffer of recent spans and a sink, then
// another request while the first traces are read; every schedule with up to 2 deviations (thorough: 3, and 1 preemption) from the
// order in which goroutines were started; no race, every valid span comes out once and unchanged
//gosym: quick=200 thorough=900 reach=ok stress
func ZZC27_Pipeline() {
	vsym.Option("race", 1)
	vsym.Option("delay", 2)
	if vsym.Thorough() {
		vsym.Option("preempt", 1)
		vsym.Option("delay", 3)
	}
	type body struct {
		path, text, name string
	}
	kinds := []body{
		{"/api/v1/spans", `[{"traceId":"T","id":"T","name":"oneT","binaryAnnotations":[{"key":"k","value":"vT"}]}]`, "one"},
		{"/api/v2/spans", `[{"traceId":"T","id":"T","name":"twoT","tags":{"k":"vT"}}]`, "two"},
		{"/api/jaeger/spans", `{"data":[{"spans":[{"traceID":"T","spanID":"T","operationName":"threeT","startTime":7,"duration":9,"tags":[{"key":"k","type":"string","value":"vT"}]}]}]}`, "three"},
		{"/api/v1/spans", `[{"traceId":"T","id":"T","binaryAnnotations":[{"key":"k","value":"old`, ""},
	}
	spans := make(chan proxy.Span, 4)
	router := httprouter.New()
	handleSpans(router, spans)
	handler := handleGzipRequestBody(router)
	traces := make(chan proxy.Trace, 4)
	toBuffer := make(chan proxy.Trace, 4)
	toSink := make(chan proxy.Trace, 4)
	buffer := NewSpansBuffer(8)
	go ErrorCorrectSpans(spans, traces)
	go forwardSpansToChannels(traces, []chan<- proxy.Trace{toBuffer, toSink}, func(s proxy.Span) (proxy.Span, error) {
		if s.Id == 0 {
			return s, errors.New("bad")
		}
		s.Service = "svc"
		return s, nil
	})
	go buffer.ReadFrom(toBuffer)
	names := map[proxy.Id]string{}
	post := func(id byte, k body, done chan bool) {
		text := bytes.Replace([]byte(k.text), []byte("T"), []byte{id}, -1)
		req := zzRequest(k.path, http.Header{"Content-Type": []string{"application/json"}}, ioutil.NopCloser(bytes.NewReader(text)))
		w := &zzStatus{header: http.Header{}}
		handler.ServeHTTP(w, req)
		want := 202
		if k.name == "" {
			want = 400
		}
		vsym.Assert(w.code == want, "wrong answer")
		done <- true
	}
	check := func(t proxy.Trace) {
		for _, s := range t {
			want, ok := names[s.Id]
			vsym.Assert(ok && len(t) == 1 && s.Name == want+string([]byte{byte('0' + s.Id)}), "a span changed")
			vsym.Assert(s.Tags["k"] == "v"+string([]byte{byte('0' + s.Id)}) && s.Service == "svc", "a tag changed")
		}
	}
	var all []proxy.Trace
	next := byte('1')
	for round := 0; round < 2; round++ {
		done := make(chan bool, 2)
		n := 0
		first := 0
		for i := 0; i < 2-round; i++ {
			first += vsym.Choose("kind", len(kinds)-first)
			k := kinds[first]
			if k.name != "" {
				names[proxy.Id(next-'0')] = k.name
				n++
			}
			go post(next, k, done)
			next++
		}
		for _, t := range all {
			check(t)
		}
		for _, s := range buffer.ToSlice() {
			check(proxy.Trace{s})
		}
		for i := 0; i < 2-round; i++ {
			<-done
		}
		vsym.Settle()
		vsym.Advance(10 * time.Second)
		vsym.Settle()
		for ; n > 0; n-- {
			vsym.Assert(len(toSink) > 0, "a trace was lost")
			all = append(all, <-toSink)
		}
		vsym.Assert(len(toSink) == 0, "more traces than sent")
	}
	for _, t := range all {
		check(t)
	}
	got := buffer.ToSlice()
	vsym.Assert(len(got) == len(names), "the buffer shows another number of spans")
	for _, s := range got {
		check(proxy.Trace{s})
	}
	close(spans)
	vsym.Reach("ok")
}
