package balance

import (
	"bytes"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// zzProducer is a kafka producer that hands its messages to the harness.
type zzProducer struct {
	sarama.AsyncProducer
	ch chan *sarama.ProducerMessage
}

func (p *zzProducer) Input() chan<- *sarama.ProducerMessage { return p.ch }

type zzSent struct {
	msg        *sarama.ProducerMessage
	key, value []byte
}

func zzEnc(e sarama.Encoder) []byte {
	vsym.Assert(e != nil, "message without key or value")
	b, err := e.Encode()
	vsym.Assert(err == nil, "encoder failed")
	vsym.Assert(e.Length() == len(b), "wrong encoder length")
	return b
}

// zzSend runs the spans through a sender and checks every message when it arrives and again after all of them.
func zzSend(spans []proxy.Span) {
	prod := &zzProducer{ch: make(chan *sarama.ProducerMessage, len(spans)+1)}
	s := zzSender(prod, "the-topic")
	in := make(chan proxy.Span, len(spans))
	for _, sp := range spans {
		in <- sp
	}
	close(in)
	s.Send(in)
	vsym.Settle()
	close(prod.ch)
	var sent []zzSent
	for m := range prod.ch {
		sent = append(sent, zzSent{msg: m})
	}
	vsym.Assert(len(sent) == len(spans), "not exactly one message per span")
	for i := range sent {
		zzCheckMsg(sent[i].msg, spans[i])
	}
}

// zzSender makes a sender for the given producer.
func zzSender(prod sarama.AsyncProducer, topic string) *Sender {
	vsym.Replace(sarama.NewAsyncProducerFromClient, func(client sarama.Client) (sarama.AsyncProducer, error) {
		return prod, nil
	})
	s, err := NewSender(nil, topic)
	vsym.Assert(err == nil, "no sender")
	return s
}

func zzCheckMsg(m *sarama.ProducerMessage, sp proxy.Span) {
	zzCheckMsgOn(m, sp, "the-topic")
}

func zzCheckMsgOn(m *sarama.ProducerMessage, sp proxy.Span, topic string) {
	vsym.Assert(m.Topic == topic, "wrong topic")
	key := zzEnc(m.Key)
	vsym.Assert(len(key) == 8, "key is not 8 bytes long")
	for k := 0; k < 8; k++ {
		vsym.Assert(key[k] == byte(uint64(sp.Trace)>>uint(8*k)), "key is not the little endian trace id")
	}
	got, err := codec.BinaryDecode(bytes.NewReader(zzEnc(m.Value)))
	vsym.Assert(err == nil, "value does not decode")
	vsym.Assert(got.Id == sp.Id && got.Trace == sp.Trace && got.Parent == sp.Parent, "ids changed")
	vsym.Assert(got.Name == sp.Name && got.Service == sp.Service, "name or service changed")
	vsym.Assert(got.Timestamp == sp.Timestamp && got.Duration == sp.Duration && got.Timings == sp.Timings, "times changed")
	vsym.Assert(len(got.Tags) == len(sp.Tags), "tags changed")
	for k, v := range sp.Tags {
		vsym.Assert(got.Tags[k] == v, "tag value changed")
	}
}

func zzName(n int, c byte) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = c
	}
	return string(b)
}

