package balance

import (
	"context"
	"errors"

	"github.com/Shopify/sarama"
)

// zzSession is a consumer group session that records marks.
type zzSession struct {
	sarama.ConsumerGroupSession
	ctx    context.Context
	onMark func(topic string, partition int32, offset int64)
}

func (s *zzSession) Claims() map[string][]int32  { return map[string][]int32{"t": {0}} }
func (s *zzSession) MemberID() string            { return "m" }
func (s *zzSession) GenerationID() int32         { return 1 }
func (s *zzSession) Context() context.Context    { return s.ctx }
func (s *zzSession) MarkOffset(topic string, partition int32, offset int64, metadata string) {
	s.onMark(topic, partition, offset-1)
}
func (s *zzSession) MarkMessage(msg *sarama.ConsumerMessage, metadata string) {
	s.onMark(msg.Topic, msg.Partition, msg.Offset)
}

type zzClaim struct {
	sarama.ConsumerGroupClaim
	ch chan *sarama.ConsumerMessage
}

func (c *zzClaim) Topic() string                             { return "t" }
func (c *zzClaim) Partition() int32                          { return 0 }
func (c *zzClaim) InitialOffset() int64                      { return 0 }
func (c *zzClaim) HighWaterMarkOffset() int64                { return 0 }
func (c *zzClaim) Messages() <-chan *sarama.ConsumerMessage  { return c.ch }

// zzGroup is a consumer group whose sessions are run by the harness.
type zzGroup struct {
	session func(ctx context.Context, topics []string, h sarama.ConsumerGroupHandler) error
}

func (g *zzGroup) Consume(ctx context.Context, topics []string, h sarama.ConsumerGroupHandler) error {
	return g.session(ctx, topics, h)
}
func (g *zzGroup) Errors() <-chan error { return nil }
func (g *zzGroup) Close() error         { return nil }

var zzErr = errors.New("session failed")
