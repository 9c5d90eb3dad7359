package zipkinproxy

import (
	"context"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/startup/v2/lib/kafka"
	"github.com/flachnetz/startup/v2/startup_kafka"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzCluster is a Kafka cluster with one topic of two partitions, in memory. Messages with equal keys go to one partition.
type zzCluster struct {
	partOf  map[string]int // key -> partition, arbitrary
	log     [2][]*sarama.ConsumerMessage
	marked  [2]int64 // the offset consumption goes on from
	owner   [2]int   // partition -> index of the proxy that consumes it
	members []*zzMember
	ensured bool
}

// zzMember is one proxy's connection to the cluster.
type zzMember struct {
	sarama.Client
	sarama.AsyncProducer
	sarama.ConsumerGroup
	c       *zzCluster
	index   int
	input   chan *sarama.ProducerMessage
	restart chan bool
	claims  [2]chan *sarama.ConsumerMessage
	runs    int
}

// zzKafkaClient, zzKafkaProducer and zzKafkaGroup show the parts of a member.
type zzKafkaClient struct {
	sarama.Client
	m *zzMember
}

type zzKafkaProducer struct {
	sarama.AsyncProducer
	m *zzMember
}

func (p *zzKafkaProducer) Input() chan<- *sarama.ProducerMessage { return p.m.input }
func (p *zzKafkaProducer) Close() error                          { return nil }

type zzKafkaGroup struct {
	sarama.ConsumerGroup
	m *zzMember
}

func (g *zzKafkaGroup) Close() error         { return nil }
func (g *zzKafkaGroup) Errors() <-chan error { return nil }

type zzKafkaSession struct {
	sarama.ConsumerGroupSession
	ctx context.Context
	m   *zzMember
}

func (s *zzKafkaSession) Claims() map[string][]int32 { return map[string][]int32{"spans-topic": {0, 1}} }
func (s *zzKafkaSession) MemberID() string           { return "m" }
func (s *zzKafkaSession) GenerationID() int32        { return 1 }
func (s *zzKafkaSession) Context() context.Context   { return s.ctx }
func (s *zzKafkaSession) MarkOffset(topic string, partition int32, offset int64, metadata string) {
	if offset > s.m.c.marked[partition] {
		s.m.c.marked[partition] = offset
	}
}
func (s *zzKafkaSession) MarkMessage(msg *sarama.ConsumerMessage, metadata string) {
	s.MarkOffset(msg.Topic, msg.Partition, msg.Offset+1, metadata)
}

type zzKafkaClaim struct {
	sarama.ConsumerGroupClaim
	partition int32
	ch        chan *sarama.ConsumerMessage
}

func (c *zzKafkaClaim) Topic() string                            { return "spans-topic" }
func (c *zzKafkaClaim) Partition() int32                         { return c.partition }
func (c *zzKafkaClaim) InitialOffset() int64                     { return 0 }
func (c *zzKafkaClaim) HighWaterMarkOffset() int64               { return 0 }
func (c *zzKafkaClaim) Messages() <-chan *sarama.ConsumerMessage { return c.ch }

func (g *zzKafkaGroup) Consume(ctx context.Context, topics []string, h sarama.ConsumerGroupHandler) error {
	m := g.m
	vsym.Assert(len(topics) == 1 && topics[0] == "spans-topic", "another topic is consumed than the one configured")
	m.runs++
	s := &zzKafkaSession{ctx: ctx, m: m}
	vsym.Assert(h.Setup(s) == nil, "setup failed")
	ended := make(chan bool, 2)
	n := 0
	for p := range m.c.owner {
		if m.c.owner[p] != m.index {
			continue
		}
		n++
		claim := &zzKafkaClaim{partition: int32(p), ch: make(chan *sarama.ConsumerMessage, 64)}
		m.claims[p] = claim.ch
		for _, msg := range m.c.log[p][m.c.marked[p]:] {
			claim.ch <- msg
		}
		go func() {
			_ = h.ConsumeClaim(s, claim)
			ended <- true
		}()
	}
	select {
	case <-ctx.Done():
	case <-m.restart:
	}
	for p, ch := range m.claims {
		if ch != nil {
			close(ch)
			m.claims[p] = nil
		}
	}
	for ; n > 0; n-- {
		<-ended
	}
	vsym.Assert(h.Cleanup(s) == nil, "cleanup failed")
	return ctx.Err()
}

// produce takes the messages of a proxy.
func (m *zzMember) produce() {
	for msg := range m.input {
		key, err := msg.Key.Encode()
		vsym.Assert(err == nil && msg.Topic == "spans-topic", "a message goes to another topic than the one configured")
		value, err := msg.Value.Encode()
		vsym.Assert(err == nil, "a message has no value")
		k := string(key)
		p, ok := m.c.partOf[k]
		if !ok {
			p = vsym.Choose("partition", 2)
			m.c.partOf[k] = p
		}
		got := &sarama.ConsumerMessage{Topic: msg.Topic, Partition: int32(p), Offset: int64(len(m.c.log[p])), Key: append([]byte(nil), key...), Value: append([]byte(nil), value...)}
		m.c.log[p] = append(m.c.log[p], got)
		if ch := m.c.members[m.c.owner[p]].claims[p]; ch != nil {
			ch <- got
		}
	}
}

var zzKafkaArgs = append([]string{"--kafka-address=k:9092", "--kafka-topic=spans-topic", "--kafka-consumer-group=the-group"}, zzAgentArgs...)

// join connects the proxy that is started next to the cluster.
func (c *zzCluster) join() {
	m := &zzMember{c: c, index: len(c.members), input: make(chan *sarama.ProducerMessage), restart: make(chan bool, 1)}
	c.members = append(c.members, m)
	vsym.Replace((*startup_kafka.KafkaOptions).KafkaClient, func(opts *startup_kafka.KafkaOptions, clientId string) sarama.Client {
		vsym.Assert(len(opts.Addresses) == 1 && opts.Addresses[0] == "k:9092", "another cluster is used than the one configured")
		return &zzKafkaClient{m: m}
	})
	vsym.Replace(kafka.EnsureTopics, func(client sarama.Client, topics kafka.Topics) error {
		for _, t := range topics {
			if t.Name == "spans-topic" {
				c.ensured = true
			}
		}
		return nil
	})
	vsym.Replace(sarama.NewAsyncProducerFromClient, func(client sarama.Client) (sarama.AsyncProducer, error) {
		go m.produce()
		return &zzKafkaProducer{m: client.(*zzKafkaClient).m}, nil
	})
	vsym.Replace(sarama.NewConsumerGroupFromClient, func(group string, client sarama.Client) (sarama.ConsumerGroup, error) {
		vsym.Assert(group == "the-group", "another consumer group is used than the one configured")
		vsym.Assert(c.ensured, "the topic is consumed before it was made sure that it exists")
		return &zzKafkaGroup{m: client.(*zzKafkaClient).m}, nil
	})
}

// zzTwoProxies starts two proxies at one cluster.
func zzTwoProxies(c *zzCluster, then func(ps []*zzPipeline)) {
	c.partOf = map[string]int{}
	c.join()
	zzStartProxy(func() { Main(zzPipelineConverter) }, zzKafkaArgs, func(a *zzPipeline) {
		c.join()
		zzStartProxy(func() { Main(zzPipelineConverter) }, zzKafkaArgs, func(b *zzPipeline) {
			then([]*zzPipeline{a, b})
		})
	})
}

// zzSentBy gives the groups that a proxy sent that have a span of the trace.
func zzSentBy(p *zzPipeline, trace uint64) int {
	n := 0
	for _, g := range p.agent.groups {
		if g[0].TraceID == trace {
			n++
		}
	}
	return n
}

// two proxies at one Kafka topic with two partitions, both owned by one proxy or each by another; the root and the child of a trace (each in any format, arbitrary last digit (thorough: two digits) of their times, the root of any format only in thorough), posted to
// any of the proxies 0 or 7.95 s apart, in either order, and a single span of another trace; keys go to arbitrary partitions; maybe the consumer that owns the trace ends its session in between
//gosym: quick=200 thorough=900 reach=ok
func ZZC32_TwoProxies() {
	c := &zzCluster{}
	c.owner = [2]int{0, vsym.Choose("owner", 2)}
	zzTwoProxies(c, func(ps []*zzPipeline) {
		vsym.Advance(30 * time.Millisecond)
		formats, digits := 1, 1
		vsym.Option("delay", 0)
		if vsym.Thorough() {
			vsym.Option("delay", 1)
			formats, digits = 3, 2
		}
		root := zzTimes(zzPart{format: vsym.Choose("root", formats), id: "b2", name: "root", service: "rsvc", tag: "t", value: "r"}, digits)
		child := zzTimes(zzPart{format: vsym.Choose("child", 3), id: "c3", parent: "b2", name: "child", service: "csvc", tag: "u", value: "c"}, digits)
		parts := []zzPart{root, child}
		if vsym.Bool("child first") {
			parts = []zzPart{child, root}
		}
		vsym.Assert(ps[0].post(parts[0].format, parts[0].doc()) == 202, "a valid body was not answered 202")
		vsym.Assert(ps[1].post(0, `[{"traceId":"d4","id":"e5","name":"other","timestamp":1600000000000000,"duration":5,"binaryAnnotations":[{"key":"k","value":"v","endpoint":{"serviceName":"osvc"}}]}]`) == 202, "a valid body was not answered 202")
		if vsym.Bool("session ends") {
			for _, m := range c.members {
				m.restart <- true
			}
			vsym.Settle()
			vsym.Assert(c.members[0].runs == 2 && c.members[1].runs == 2, "the consumer did not rejoin")
		}
		if vsym.Bool("later") {
			vsym.Advance(7950 * time.Millisecond)
			vsym.Settle()
		}
		vsym.Assert(ps[vsym.Choose("to", 2)].post(parts[1].format, parts[1].doc()) == 202, "a valid body was not answered 202")
		vsym.Advance(12200 * time.Millisecond)
		vsym.Settle()
		n := [2]int{len(ps[0].agent.groups), len(ps[1].agent.groups)}
		vsym.Advance(20 * time.Second)
		vsym.Settle()
		vsym.Assert(n == [2]int{len(ps[0].agent.groups), len(ps[1].agent.groups)}, "something was sent later")
		vsym.Assert(n[0]+n[1] == 2 && zzSentBy(ps[0], 0xa1)+zzSentBy(ps[1], 0xa1) == 1 && zzSentBy(ps[0], 0xd4)+zzSentBy(ps[1], 0xd4) == 1, "not every trace was sent once, as one group")
		shown := 0
		for _, p := range ps {
			shown += len(p.shown())
			for _, g := range p.agent.groups {
				if g[0].TraceID == 0xd4 {
					vsym.Assert(len(g) == 1 && g[0].SpanID == 0xe5 && g[0].Resource == "other" && g[0].Service == "x-osvc" && g[0].Start == 1600000000000000000 && g[0].Duration == 5000 && g[0].Meta["k"] == "v" && len(g[0].Meta) == 3, "the single span is not the one posted")
					continue
				}
				vsym.Assert(len(g) == 2, "the trace is not sent whole")
				parent := uint64(0)
				if root.format == 2 {
					parent = 0xb2
				}
				seen := 0
				for _, s := range g {
					if s.SpanID == 0xb2 {
						seen |= 1
						zzCheckSent(s, 0xb2, parent, "root", "rsvc", root.startN, root.durN, map[string]string{"converted": "yes", "protocolVersion": root.version(), "t": "r"})
					} else {
						seen |= 2
						zzCheckSent(s, 0xc3, 0xb2, "child", "csvc", child.startN, child.durN, map[string]string{"converted": "yes", "protocolVersion": child.version(), "u": "c"})
					}
				}
				vsym.Assert(seen == 3, "a span was sent twice or not at all")
			}
		}
		vsym.Assert(shown == 3, "the buffers do not show the spans")
		vsym.Reach("ok")
	})
}

// the client and the server half of a span, each in any format with an arbitrary last digit of its times (in v1 the end maybe before the start), posted to different proxies in either order, 0 or 7.95 s apart: one
// span is sent by one of the proxies, with the client's times and the server's name, service and tags over the client's
//gosym: quick=100 thorough=600 reach=ok
func ZZC32_Halves() {
	cl := &zzCluster{owner: [2]int{0, 1}}
	zzTwoProxies(cl, func(ps []*zzPipeline) {
		vsym.Option("delay", 0)
		digits := 1
		if vsym.Thorough() {
			digits = 2
			vsym.Option("delay", 1)
		}
		vsym.Advance(30 * time.Millisecond)
		c := zzTimes(zzPart{format: vsym.Choose("client", 3), id: "b2", kind: "client", name: "cname", service: "csvc", tag: "t", value: "c"}, digits)
		s := zzTimes(zzPart{format: vsym.Choose("server", 3), id: "b2", kind: "server", name: "sname", service: "ssvc", tag: []string{"t", "u"}[vsym.Choose("tag", 2)], value: "s"}, digits)
		parts := []zzPart{c, s}
		if vsym.Bool("server first") {
			parts = []zzPart{s, c}
		}
		vsym.Assert(ps[0].post(parts[0].format, parts[0].doc()) == 202, "a valid body was not answered 202")
		if vsym.Bool("later") {
			vsym.Advance(7950 * time.Millisecond)
			vsym.Settle()
		}
		vsym.Assert(ps[1].post(parts[1].format, parts[1].doc()) == 202, "a valid body was not answered 202")
		vsym.Advance(12200 * time.Millisecond)
		vsym.Settle()
		tags := map[string]string{"converted": "yes", "protocolVersion": s.version(), s.tag: "s"}
		if s.tag != "t" {
			tags["t"] = "c"
		}
		parent := uint64(0)
		if c.format == 2 || s.format == 2 {
			parent = 0xb2
		}
		groups := append(ps[0].agent.groups, ps[1].agent.groups...)
		vsym.Assert(len(groups) == 1 && len(groups[0]) == 1, "not one span was sent")
		zzCheckSent(groups[0][0], 0xb2, parent, "sname", "ssvc", c.startN, c.durN, tags)
		vsym.Reach("ok")
	})
}
