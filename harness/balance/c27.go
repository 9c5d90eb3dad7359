package balance

import (
	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// two senders send two spans each at the same time (names of 1 or 600 bytes), after none or 62 other messages: every message is right when it
// arrives and at the end; every schedule with up to 1 preemption (thorough: 2)
//gosym: quick=200 thorough=900 reach=ok stress nobubble
func ZZC27_Messages() {
	vsym.Option("race", 1)
	p := 1
	if vsym.Thorough() {
		p = 2
	}
	vsym.Option("preempt", p)
	if vsym.Bool("before") {
		var spans []proxy.Span
		for i := 0; i < 62; i++ {
			spans = append(spans, proxy.Span{Id: 1, Trace: 2, Name: zzName(490, 'p')})
		}
		zzSend(spans)
	}
	type run struct {
		prod  *zzProducer
		send  *Sender
		spans []proxy.Span
		sent  []*sarama.ProducerMessage
	}
	runs := make([]*run, 2)
	done := make(chan bool, 2)
	for i := range runs {
		r := &run{prod: &zzProducer{ch: make(chan *sarama.ProducerMessage, 2)}}
		for k := 0; k < 2; k++ {
			n := 1
			if vsym.Bool("long") {
				n = 600
			}
			r.spans = append(r.spans, proxy.Span{Id: proxy.Id(10*i + k + 1), Trace: proxy.Id(i + 1), Name: zzName(n, byte('a'+2*i+k))})
		}
		r.send = zzSender(r.prod, "the-topic")
		runs[i] = r
	}
	for _, r := range runs {
		r := r
		go func() {
			in := make(chan proxy.Span, 2)
			for _, s := range r.spans {
				in <- s
			}
			close(in)
			r.send.Send(in)
			for k := range r.spans {
				m := <-r.prod.ch
				zzCheckMsg(m, r.spans[k])
				r.sent = append(r.sent, m)
			}
			done <- true
		}()
	}
	<-done
	<-done
	for _, r := range runs {
		for k, m := range r.sent {
			zzCheckMsg(m, r.spans[k])
		}
	}
	vsym.Reach("ok")
}
