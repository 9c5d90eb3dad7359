package balance

import (
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// 0..3 spans wait in the sender's channel when it is closed, and the producer takes its messages at once, or one by one every second, or is closed for a day: every span
// is sent, then the sender returns; all interleavings with one preemption (thorough: two)
//gosym: quick=100 thorough=300 reach=ok stress
func ZZC29_Sender() {
	p := 1
	if vsym.Thorough() {
		p = 2
	}
	vsym.Option("preempt", p)
	n := vsym.Choose("spans", 4)
	wait := []time.Duration{0, time.Second, 24 * time.Hour}[vsym.Choose("wait", 3)]
	prod := &zzProducer{ch: make(chan *sarama.ProducerMessage, vsym.Choose("capacity", 2))}
	s := zzSender(prod, "the-topic")
	before := vsym.Goroutines()
	in := make(chan proxy.Span, n)
	var spans []proxy.Span
	for i := 0; i < n; i++ {
		sp := proxy.Span{Id: proxy.Id(i + 1), Trace: proxy.Id(100 - i), Name: "n"}
		spans = append(spans, sp)
		in <- sp
	}
	done := make(chan bool, 1)
	go func() {
		s.Send(in)
		done <- true
	}()
	if vsym.Bool("late") {
		vsym.Settle()
	}
	close(in)
	var sent []*sarama.ProducerMessage
	for i := 0; i < n; i++ {
		if wait > 0 {
			vsym.Advance(wait)
			vsym.Settle()
		}
		sent = append(sent, <-prod.ch)
	}
	vsym.Settle()
	vsym.Assert(len(done) == 1, "the sender did not return after its input was closed")
	vsym.Assert(vsym.Goroutines() == before, "a goroutine is left")
	for i := range sent {
		zzCheckMsg(sent[i], spans[i])
	}
	select {
	case _, ok := <-prod.ch:
		vsym.Assert(ok, "the sender closed the producer's channel")
		vsym.Fail("more messages than spans")
	default:
	}
	vsym.Reach("ok")
}
