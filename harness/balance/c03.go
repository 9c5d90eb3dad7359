package balance

import (
	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// three spans, every trace id of the first, names of 1, 480..505 (encoded size around the 512 byte slots) or 600 bytes
// with an arbitrary last byte
//gosym: quick=100 thorough=300 reach=ok
func ZZC03_Sizes() {
	var spans []proxy.Span
	long := vsym.Choose("long", 3)
	for i := 0; i < 3; i++ {
		sp := proxy.Span{Id: proxy.Id(i + 1), Trace: proxy.Id(0x0102030405060708 * (i + 1)), Parent: 9}
		var n int
		if i == long {
			n = 480 + vsym.Choose("len", 26)
		} else {
			n = []int{1, 497, 600}[vsym.Choose("len2", 3)]
		}
		if i == 0 {
			sp.Trace = proxy.Id(vsym.Int64("trace"))
		}
		sp.Name = zzName(n-1, byte('a'+i)) + vsym.String("last", 1)
		spans = append(spans, sp)
	}
	zzSend(spans)
	vsym.Reach("ok")
}

// n spans of equal size (n and size chosen so that the 32 KiB encode buffer and the 1024 slices are used up and renewed)
// followed by two spans of arbitrary ids and a size around a slot
//gosym: quick=100 thorough=300 reach=ok
func ZZC03_Long() {
	type pre struct{ n, size int }
	pres := []pre{{30, 1000}, {61, 490}, {62, 490}, {63, 490}, {64, 490}, {510, 3}, {511, 3}, {512, 3}}
	if vsym.Thorough() {
		pres = append(pres, pre{59, 490}, pre{60, 490}, pre{65, 490}, pre{66, 490}, pre{509, 3}, pre{513, 3}, pre{600, 40}, pre{1025, 3})
	}
	p := pres[vsym.Choose("prelude", len(pres))]
	var spans []proxy.Span
	for i := 0; i < p.n; i++ {
		spans = append(spans, proxy.Span{Id: proxy.Id(i + 1), Trace: proxy.Id(i * 7), Name: zzName(p.size, byte('a'+i%20))})
	}
	for i := 0; i < 2; i++ {
		n := []int{0, 300, 496, 520}[vsym.Choose("len", 4)]
		spans = append(spans, proxy.Span{Id: proxy.Id(vsym.Int64("id") & 0x3f), Trace: proxy.Id(vsym.Int64("trace") & 0x3f), Name: zzName(n, 'z')})
	}
	zzSend(spans)
	vsym.Reach("ok")
}

// two spans with every combination of 0..2 byte names and tag values, all contents, all timings in a byte
//gosym: quick=100 thorough=300 reach=ok
func ZZC03_Content() {
	var spans []proxy.Span
	for i := 0; i < 2; i++ {
		sp := proxy.Span{Id: proxy.Id(vsym.Int64("id") & 0x3f), Trace: proxy.Id(vsym.Int64("trace") & 0x3f), Parent: 1, Name: vsym.String("name", vsym.Choose("namelen", 3))}
		sp.Timings.CS = proxy.Timestamp(vsym.Int64("cs") & 0x3f)
		if vsym.Bool("tag") {
			sp.Tags = map[string]string{"k": vsym.String("val", vsym.Choose("vallen", 2))}
		}
		spans = append(spans, sp)
	}
	zzSend(spans)
	vsym.Reach("ok")
}

// two senders with different topics (names of 1 or 2 arbitrary bytes) that take turns in an arbitrary order of four spans: each message goes to the topic of its sender, and
// still does at the end
//gosym: quick=60 thorough=300 reach=ok
func ZZC03_Topics() {
	topics := [2]string{vsym.String("topic", 1), vsym.String("topic", 2)}
	var prods [2]*zzProducer
	var senders [2]*Sender
	for i := range senders {
		prods[i] = &zzProducer{ch: make(chan *sarama.ProducerMessage, 4)}
		senders[i] = zzSender(prods[i], topics[i])
	}
	var sent [2][]*sarama.ProducerMessage
	var spans [2][]proxy.Span
	for k := 0; k < 4; k++ {
		i := vsym.Choose("sender", 2)
		sp := proxy.Span{Id: proxy.Id(k + 1), Trace: proxy.Id(vsym.Int64("trace") & 0x1f), Name: "n"}
		in := make(chan proxy.Span, 1)
		in <- sp
		close(in)
		senders[i].Send(in)
		vsym.Settle()
		vsym.Assert(len(prods[i].ch) == 1, "not exactly one message per span")
		m := <-prods[i].ch
		zzCheckMsgOn(m, sp, topics[i])
		sent[i] = append(sent[i], m)
		spans[i] = append(spans[i], sp)
	}
	for i := range sent {
		for k, m := range sent[i] {
			zzCheckMsgOn(m, spans[i][k], topics[i])
		}
	}
	vsym.Reach("ok")
}
