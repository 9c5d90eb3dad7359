package balance

import (
	"bytes"
	"context"
	"sync"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func zzMessage() []byte {
	var b bytes.Buffer
	switch vsym.Choose("kind", 5) {
	case 0: // decodable, arbitrary ids
		_ = codec.BinaryEncode(proxy.Span{Id: proxy.Id(vsym.Int64("id") & 0x1f), Trace: 3, Parent: 4, Name: vsym.String("name", 1)}, &b)
		return b.Bytes()
	case 1: // truncated
		_ = codec.BinaryEncode(proxy.Span{Id: 7, Trace: 3, Parent: 4, Name: "abc"}, &b)
		return b.Bytes()[:vsym.Choose("cut", b.Len())]
	case 2: // arbitrary
		return vsym.Bytes("junk", vsym.Choose("junklen", 4))
	case 3: // decodable with rubbish behind
		_ = codec.BinaryEncode(proxy.Span{Id: 8, Trace: 3, Parent: 8}, &b)
		return append(b.Bytes(), vsym.Byte("junk"))
	default: // arbitrary tag map
		_ = codec.BinaryEncode(proxy.Span{Id: 9, Trace: 3, Parent: 8}, &b)
		return append(b.Bytes()[:b.Len()-1], vsym.Bytes("tags", 3)...)
	}
}

// two messages (thorough: three) in one claim: decodable with arbitrary id, truncated anywhere, arbitrary 0..3 bytes, trailing
// bytes, arbitrary tag map; the claim has an arbitrary capacity and the callback is the recorded one
//gosym: quick=120 thorough=900 reach=done,skipped,handed
func ZZC04_Claim() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	var values [][]byte
	var want []proxy.Span
	var wantOff []int64
	for i := 0; i < n; i++ {
		v := zzMessage()
		values = append(values, v)
		if sp, err := codec.BinaryDecode(bytes.NewReader(v)); err == nil {
			want = append(want, sp)
			wantOff = append(wantOff, int64(100+i))
		} else {
			vsym.Reach("skipped")
		}
	}
	var got []proxy.Span
	var marks []int64
	block := make(chan bool)
	done := make(chan bool)
	g := &zzGroup{}
	first := true
	g.session = func(ctx context.Context, topics []string, h sarama.ConsumerGroupHandler) error {
		if !first {
			<-ctx.Done()
			return nil
		}
		first = false
		vsym.Assert(len(topics) == 1 && topics[0] == "t", "wrong topics")
		sess := &zzSession{ctx: ctx, onMark: func(topic string, part int32, off int64) {
			vsym.Assert(topic == "t" && part == 4, "wrong message marked")
			vsym.Assert(len(marks) < len(wantOff), "an undecodable message or one message twice was marked")
			k := len(marks)
			vsym.Assert(off == wantOff[k], "marked out of order")
			vsym.Assert(k < len(got), "marked before the span was handed over")
			marks = append(marks, off)
		}}
		claim := &zzClaim{ch: make(chan *sarama.ConsumerMessage, n)}
		for i, v := range values {
			claim.ch <- &sarama.ConsumerMessage{Topic: "t", Partition: 4, Offset: int64(100 + i), Value: v}
		}
		close(claim.ch)
		vsym.Assert(h.Setup(sess) == nil, "setup failed")
		vsym.Assert(h.ConsumeClaim(sess, claim) == nil, "claim failed")
		vsym.Assert(h.Cleanup(sess) == nil, "cleanup failed")
		close(done)
		<-ctx.Done()
		return nil
	}
	stop := Consume(g, "t", func(sp proxy.Span) {
		vsym.Assert(len(got) == len(marks), "handed over before the previous message was marked")
		got = append(got, sp)
	})
	<-done
	stop()
	_ = block
	vsym.Assert(len(got) == len(want), "not every decodable message was handed over exactly once")
	for i := range got {
		vsym.Assert(got[i].Id == want[i].Id && got[i].Name == want[i].Name && got[i].Trace == want[i].Trace && got[i].Parent == want[i].Parent && got[i].Service == want[i].Service &&
			got[i].Timestamp == want[i].Timestamp && got[i].Duration == want[i].Duration && got[i].Timings == want[i].Timings, "wrong span handed over")
		vsym.Assert(len(got[i].Tags) == len(want[i].Tags), "wrong tags handed over")
		for k, v := range want[i].Tags {
			w, ok := got[i].Tags[k]
			vsym.Assert(ok && v == w, "wrong tag handed over")
		}
		vsym.Reach("handed")
	}
	vsym.Assert(len(marks) == len(want), "a handed over message was not marked")
	vsym.Reach("done")
}

// two claims of one session, consumed at the same time as a consumer group does, two messages each (arbitrary ids, or not decodable): every decodable one is handed over once, in
// the order of its partition, and marked there afterwards; every schedule with up to 1 preemption (thorough: 2), and no data race
//gosym: quick=100 thorough=600 reach=done stress nobubble
func ZZC04_Partitions() {
	vsym.Option("race", 1)
	p, n := 1, 2
	if vsym.Thorough() {
		p = 2
	}
	vsym.Option("preempt", p)
	type part struct {
		claim *zzClaim
		want  []proxy.Id
		marks []int64
	}
	parts := make([]*part, n)
	for i := range parts {
		q := &part{claim: &zzClaim{ch: make(chan *sarama.ConsumerMessage, 2)}}
		for k := 0; k < 2; k++ {
			var b bytes.Buffer
			id := proxy.Id(100*(i+1) + k)
			_ = codec.BinaryEncode(proxy.Span{Id: id, Trace: proxy.Id(vsym.Int64("trace") & 0x1f), Name: "name"}, &b)
			value := b.Bytes()
			if vsym.Bool("broken") {
				value = value[:4]
			} else {
				q.want = append(q.want, id)
			}
			q.claim.ch <- &sarama.ConsumerMessage{Topic: "t", Partition: int32(i), Offset: int64(k), Value: value}
		}
		close(q.claim.ch)
		parts[i] = q
	}
	var lock sync.Mutex
	got := make([][]proxy.Id, n)
	finished := make(chan bool)
	first := true
	g := &zzGroup{session: func(ctx context.Context, topics []string, h sarama.ConsumerGroupHandler) error {
		if first {
			first = false
			sess := &zzSession{ctx: ctx, onMark: func(topic string, part int32, off int64) {
				lock.Lock()
				parts[part].marks = append(parts[part].marks, off)
				vsym.Assert(len(parts[part].marks) <= len(got[part]), "marked before the span was handed over")
				lock.Unlock()
			}}
			vsym.Assert(h.Setup(sess) == nil, "setup failed")
			done := make(chan bool, n)
			for _, q := range parts {
				q := q
				go func() {
					vsym.Assert(h.ConsumeClaim(sess, q.claim) == nil, "claim failed")
					done <- true
				}()
			}
			for range parts {
				<-done
			}
			vsym.Assert(h.Cleanup(sess) == nil, "cleanup failed")
			close(finished)
		}
		<-ctx.Done()
		return nil
	}}
	stop := Consume(g, "t", func(sp proxy.Span) {
		i := int(sp.Id)/100 - 1
		vsym.Assert(i >= 0 && i < n && sp.Name == "name", "a span that was not sent")
		lock.Lock()
		got[i] = append(got[i], sp.Id)
		lock.Unlock()
	})
	<-finished
	stop()
	for i, q := range parts {
		vsym.Assert(len(got[i]) == len(q.want) && len(q.marks) == len(q.want), "not every decodable message was handed over and marked exactly once")
		for k := range got[i] {
			vsym.Assert(got[i][k] == q.want[k], "wrong span or order")
			vsym.Assert(int64(q.want[k])%100 == q.marks[k], "wrong message marked")
		}
	}
	vsym.Reach("done")
}
