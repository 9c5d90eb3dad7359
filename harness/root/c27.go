package zipkinproxy

import (
	"errors"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// two traces go through the fan-out to the buffer of recent spans (read meanwhile), to a sink that reads them at once
// and again later: no race, the spans stay as they were forwarded; every schedule with up to 1 preemption (thorough: 2)
//gosym: quick=200 thorough=900 reach=ok stress nobubble
func ZZC27_FanOut() {
	vsym.Option("race", 1)
	p := 1
	if vsym.Thorough() {
		p = 2
	}
	vsym.Option("preempt", p)
	source := make(chan proxy.Trace, 2)
	toBuffer := make(chan proxy.Trace, 2)
	toSink := make(chan proxy.Trace, vsym.Choose("capacity", 2))
	targets := []chan<- proxy.Trace{toBuffer, toSink}
	if vsym.Bool("swap") {
		targets[0], targets[1] = targets[1], targets[0]
	}
	buffer := NewSpansBuffer(4)
	done := make(chan bool, 3)
	go func() {
		forwardSpansToChannels(source, targets, func(s proxy.Span) (proxy.Span, error) {
			if s.Name == "bad" {
				return s, errors.New("bad")
			}
			s.Service = s.Name
			return s, nil
		})
		close(toBuffer)
		close(toSink)
		done <- true
	}()
	go func() {
		buffer.ReadFrom(toBuffer)
		done <- true
	}()
	var got []proxy.Trace
	go func() {
		for t := range toSink {
			for _, s := range t {
				vsym.Assert(s.Service == s.Name && s.Name != "bad", "a span that was not converted")
			}
			got = append(got, t)
		}
		done <- true
	}()
	bad := vsym.Choose("bad", 3)
	for i := 1; i <= 2; i++ {
		t := proxy.Trace{{Id: proxy.Id(2 * i), Trace: proxy.Id(i), Name: "n"}, {Id: proxy.Id(2*i + 1), Trace: proxy.Id(i), Name: "m"}}
		if bad < 2 {
			t[bad].Name = "bad"
		}
		source <- t
	}
	close(source)
	for _, s := range buffer.ToSlice() {
		vsym.Assert(s.Service == s.Name && s.Name != "bad", "a span that was not converted")
	}
	<-done
	<-done
	<-done
	n := 0
	for _, t := range got {
		for _, s := range t {
			vsym.Assert(s.Service == s.Name && s.Name != "bad", "a span changed after it was forwarded")
			n++
		}
	}
	all := buffer.ToSlice()
	want := 4
	if bad < 2 {
		want = 2
	}
	vsym.Assert(n == want && len(all) == want, "a sink got another number of spans")
	vsym.Reach("ok")
}
