package balance

import (
	"context"
	"time"

	"github.com/Shopify/sarama"
	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

// zzRejoin runs the sessions: each ends at once with nil or an error or runs until it is cancelled and then still
// hands over a span before it ends.
type zzRejoin struct {
	kinds     []int // per session: 0 ends normally, 1 ends with an error, 2 with the error of a cancelled context
	last      int   // how the session ends that was cancelled
	sessions  int
	active    int
	callbacks int
	stopped   bool
	takes     time.Duration // how long the last session goes on after it was cancelled
	stopAt    time.Time     // when stop was called
}

func zzEnd(kind int) error {
	switch kind {
	case 1:
		return zzErr
	case 2:
		return context.Canceled
	}
	return nil
}

func (z *zzRejoin) run(ctx context.Context, topics []string, h sarama.ConsumerGroupHandler) error {
	vsym.Assert(!z.stopped, "a session was started after stop returned")
	vsym.Assert(z.active == 0, "two sessions at once")
	z.active++
	k := z.sessions
	z.sessions++
	sess := &zzSession{ctx: ctx, onMark: func(string, int32, int64) {}}
	vsym.Assert(h.Setup(sess) == nil, "setup failed")
	var err error
	if k < len(z.kinds) {
		err = zzEnd(z.kinds[k])
	} else {
		<-ctx.Done()
		vsym.Assert(!z.stopAt.IsZero() && time.Since(z.stopAt) <= 2*time.Second, "the session was not cancelled by stop")
		time.Sleep(z.takes)
		// the session winds down: the claim still has a message
		claim := &zzClaim{ch: make(chan *sarama.ConsumerMessage, 1)}
		claim.ch <- &sarama.ConsumerMessage{Topic: "t", Value: []byte{2, 2, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0}}
		close(claim.ch)
		_ = h.ConsumeClaim(sess, claim)
		err = zzEnd(z.last)
	}
	vsym.Assert(h.Cleanup(sess) == nil, "cleanup failed")
	vsym.Assert(!z.stopped, "stop returned while a session was running")
	z.active--
	return err
}

// 0..3 sessions (thorough: 0..5), or 100 sessions of one kind or of two alternating kinds, that end normally, with an error or with that of a cancelled context, then one that runs until it is cancelled and any time up to a day longer; stop is called
// when all of them were started
//gosym: quick=100 thorough=300 reach=done
func ZZC05_Rejoin() {
	max := 4
	if vsym.Thorough() {
		max = 6
	}
	z := &zzRejoin{last: vsym.Choose("endsWith", 3)}
	takes := vsym.Int64("takes")
	vsym.Assume(takes >= 0 && takes <= int64(24*time.Hour))
	z.takes = time.Duration(takes)
	n := vsym.Choose("sessions", max+1)
	if n == max {
		n = 100
		k := [2]int{vsym.Choose("ends", 3), vsym.Choose("ends", 3)}
		for i := 0; i < n; i++ {
			z.kinds = append(z.kinds, k[i&1])
		}
	}
	for len(z.kinds) < n {
		z.kinds = append(z.kinds, vsym.Choose("ends", 3))
	}
	stop := Consume(&zzGroup{session: z.run}, "t", func(proxy.Span) {
		vsym.Assert(!z.stopped, "span handed over after stop returned")
		z.callbacks++
	})
	vsym.Settle()
	vsym.Assert(z.sessions == n+1, "the consumer did not rejoin after a session ended")
	z.stopAt = time.Now()
	stop()
	z.stopped = true
	vsym.Assert(z.active == 0, "stop returned while a session was running")
	vsym.Settle()
	vsym.Assert(z.sessions == n+1, "a session was started after stop")
	vsym.Assert(z.callbacks == 1, "the span of the last session was lost")
	vsym.Reach("done")
}

// as Rejoin with up to two sessions that end at once, and stop called at any moment: all interleavings of the stopping and
// the consuming goroutine with up to two preemptions (thorough: three)
//gosym: quick=100 thorough=600 reach=done,early,late stress
func ZZC05_StopAnytime() {
	p := 2
	if vsym.Thorough() {
		p = 3
	}
	vsym.Option("preempt", p)
	z := &zzRejoin{last: 1 + vsym.Choose("endsWith", 2)}
	n := vsym.Choose("sessions", 3)
	for i := 0; i < n; i++ {
		z.kinds = append(z.kinds, i&1)
	}
	stop := Consume(&zzGroup{session: z.run}, "t", func(proxy.Span) {
		vsym.Assert(!z.stopped, "span handed over after stop returned")
	})
	z.stopAt = time.Now()
	stop()
	z.stopped = true
	vsym.Assert(z.active == 0, "stop returned while a session was running")
	k := z.sessions
	vsym.Settle()
	vsym.Assert(z.sessions == k && z.active == 0, "a session was started after stop")
	if k == 0 {
		vsym.Reach("early")
	} else {
		vsym.Reach("late")
	}
	vsym.Reach("done")
}
