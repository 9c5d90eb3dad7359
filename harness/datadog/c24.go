package datadog

import (
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

func zzCheckSpan(got *tracer.Span, want proxy.Span) {
	vsym.Assert(got.SpanID == uint64(want.Id), "another span id")
	vsym.Assert(got.TraceID == uint64(want.Trace), "another trace id")
	vsym.Assert(got.ParentID == uint64(want.Parent), "another parent id")
	vsym.Assert(got.Service == want.Service, "another service")
	vsym.Assert(got.Name == want.Service, "the service is not the name")
	if want.Name == "" {
		vsym.Assert(got.Resource == "(resource empty)", "no replacement for an empty name")
	} else {
		vsym.Assert(got.Resource == want.Name, "the name is not the resource")
	}
	vsym.Assert(got.Start == int64(want.Timestamp), "another start")
	if want.Duration < time.Microsecond {
		vsym.Assert(got.Duration == 1000, "a duration below 1 us was not raised to 1 us")
	} else {
		vsym.Assert(got.Duration == int64(want.Duration), "another duration")
	}
	vsym.Assert(len(got.Meta) == len(want.Tags), "another number of tags")
	for k, v := range want.Tags {
		w, ok := got.Meta[k]
		vsym.Assert(ok && w == v, "another tag")
	}
	e, ok := want.Tags["error"]
	if ok && e != "false" && e != "0" {
		vsym.Assert(got.Error == 1, "an error is not flagged")
		vsym.Reach("error")
	} else {
		vsym.Assert(got.Error == 0, "flagged as error")
		vsym.Reach("noerror")
	}
}

// 2 spans (thorough: 3) in one trace or two, with arbitrary ids, parents, timestamps and durations, service and name of 0..2 arbitrary bytes, and a tag "error" with a
// value of 0..5 arbitrary bytes, another tag, both or none
//gosym: quick=200 thorough=900 reach=error,noerror,same,different
func ZZC24_Fields() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	t, in := zzSink()
	var want []proxy.Span
	for i := 0; i < n; i++ {
		s := proxy.Span{
			Id: proxy.Id(vsym.Int64("id")), Trace: proxy.Id(vsym.Int64("trace")), Parent: proxy.Id(vsym.Int64("parent")),
			Timestamp: proxy.Timestamp(vsym.Int64("timestamp")), Duration: time.Duration(vsym.Int64("duration")),
		}
		s.Name = "n"
		s.Service = "s"
		if i == 0 {
			s.Name = vsym.String("name", vsym.Choose("namelen", 3))
			s.Service = vsym.String("service", vsym.Choose("servicelen", 3))
			switch vsym.Choose("tags", 4) {
			case 1:
				s.Tags = map[string]string{"error": vsym.String("error", vsym.Choose("errorlen", 6))}
			case 2:
				s.Tags = map[string]string{"k": vsym.String("value", 1), "Error": "1"}
			case 3:
				s.Tags = map[string]string{"k": vsym.String("value", 1), "error": vsym.String("error", vsym.Choose("errorlen", 6))}
			}
		}
		want = append(want, s)
	}
	if vsym.Bool("two") {
		in <- proxy.Trace{want[0]}
		in <- append(proxy.Trace{}, want[1:]...)
	} else {
		in <- append(proxy.Trace{}, want...)
	}
	vsym.Settle()
	zzWait(4 * time.Second)
	vsym.Assert(len(t.batches) == 1, "not sent once")
	used := make([]bool, n)
	var seen []uint64
	for _, g := range t.batches[0] {
		vsym.Assert(len(g) > 0, "an empty group was sent")
		for _, id := range seen {
			vsym.Assert(id != g[0].TraceID, "a trace was sent in two groups")
		}
		seen = append(seen, g[0].TraceID)
		for _, s := range g {
			vsym.Assert(s.TraceID == g[0].TraceID, "a span was sent in the group of another trace")
			found := false
			for i := range want {
				if !used[i] && uint64(want[i].Id) == s.SpanID && uint64(want[i].Trace) == s.TraceID && uint64(want[i].Parent) == s.ParentID && int64(want[i].Timestamp) == s.Start {
					if want[i].Name == s.Resource || want[i].Name == "" || n == 1 {
						used[i], found = true, true
						zzCheckSpan(s, want[i])
						break
					}
				}
			}
			vsym.Assert(found, "a span was sent that was not received, or twice")
		}
	}
	for _, u := range used {
		vsym.Assert(u, "a span was not sent")
	}
	if len(seen) == 1 {
		vsym.Reach("same")
	} else {
		vsym.Reach("different")
	}
	close(in)
	vsym.Settle()
}

// zzHistory sends traces of the given sizes and checks what the transport gets.
type zzHistory struct {
	t    *zzTransport
	in   chan proxy.Trace
	sent int // spans handed over
	due  []zzDue
}

type zzDue struct {
	at    time.Duration
	count int
}

func (h *zzHistory) send(trace proxy.Id, n int) {
	var t proxy.Trace
	for i := 0; i < n; i++ {
		h.sent++
		t = append(t, proxy.Span{Id: proxy.Id(h.sent), Trace: trace, Parent: 1, Name: "n", Service: "s", Timestamp: proxy.Timestamp(h.sent), Duration: time.Duration(h.sent) * time.Microsecond})
	}
	h.in <- t
	vsym.Settle()
}

// check compares everything that was sent with what was handed over.
func (h *zzHistory) check(slow bool) {
	seen := make([]bool, h.sent+1)
	for i, b := range h.t.batches {
		count := 0
		var ids []uint64
		for _, g := range b {
			vsym.Assert(len(g) > 0, "an empty group was sent")
			for _, id := range ids {
				vsym.Assert(id != g[0].TraceID, "a trace was sent in two groups of a batch")
			}
			ids = append(ids, g[0].TraceID)
			for _, s := range g {
				count++
				vsym.Assert(s.TraceID == g[0].TraceID, "a span was sent in the group of another trace")
				vsym.Assert(s.SpanID >= 1 && s.SpanID <= uint64(h.sent), "a span was sent that was not received")
				vsym.Assert(!seen[s.SpanID], "a span was sent twice")
				seen[s.SpanID] = true
				vsym.Assert(s.Start == int64(s.SpanID) && s.Duration == 1000*int64(s.SpanID), "a span was mixed up with another one")
			}
		}
		vsym.Assert(count > 0, "an empty batch was sent")
		if !slow && count < 1000 {
			vsym.Assert(h.t.at[i]%(2*time.Second) == 0, "a small batch was sent between the periodic flushes")
		}
	}
	for i := 1; i <= h.sent; i++ {
		vsym.Assert(seen[i], "a span was lost")
	}
}

// 3 traces of one or two trace ids with 0, 1, 999 or 2600 spans (thorough: 1000, too), the first one arriving at any moment of a flush interval, and pauses of 0, 1.9 or 2.1 s
// in between (thorough: 0.1 s, too); the transport succeeds or fails always: with 1000 spans pending everything is sent at once, otherwise within two flush intervals
//gosym: quick=300 thorough=900 reach=ok
func ZZC24_Batches() {
	vsym.Option("steps", 1<<40)
	n := 3
	sizes := []int{0, 1, 999, 2600}
	pauses := []time.Duration{0, 1900 * time.Millisecond, 2100 * time.Millisecond}
	if vsym.Thorough() {
		sizes = append(sizes, 1000)
		pauses = append(pauses, 100*time.Millisecond)
	}
	h := &zzHistory{}
	h.t, h.in = zzSink()
	two := vsym.Bool("two")
	h.t.fail = two
	if vsym.Thorough() {
		h.t.fail = vsym.Bool("fail")
	}
	first := vsym.Int64("first")
	vsym.Assume(first > 0 && first < int64(2*time.Second))
	zzWait(time.Duration(first))
	pending := 0
	for i := 0; i < n; i++ {
		id := proxy.Id(1)
		if two && i%2 == 1 {
			id = 2
		}
		before := h.t.spans()
		size := sizes[vsym.Choose("size", len(sizes))]
		h.send(id, size)
		pending = h.sent - before
		if pending >= 1000 {
			vsym.Assert(h.t.spans() == h.sent, "a full batch was not sent")
		} else {
			vsym.Assert(h.t.spans() == before, "a small batch was sent at once")
		}
		if i < n-1 {
			zzWait(pauses[vsym.Choose("pause", len(pauses))])
		}
	}
	zzWait(4*time.Second - 1)
	vsym.Assert(h.t.spans() == h.sent, "a span was not sent within two flush intervals")
	h.check(false)
	close(h.in)
	vsym.Settle()
	vsym.Reach("ok")
}

// a transport that takes 7 s for each batch, while 1..8 batches of 1000..1005 spans arrive at once and one small one follows; and 3 batches again when it is done: nothing is lost,
// duplicated or overwritten
//gosym: quick=200 thorough=600 reach=ok
func ZZC24_Slow() {
	vsym.Option("steps", 1<<40)
	h := &zzHistory{}
	h.t, h.in = zzSink()
	h.t.delay = 7 * time.Second
	zzWait(100 * time.Millisecond)
	n := 1 + vsym.Choose("batches", 8)
	for i := 0; i < n; i++ {
		h.send(proxy.Id(1+i%3), 1000+i%5)
	}
	zzWait(80 * time.Second)
	vsym.Assert(h.t.spans() == h.sent, "a batch was lost")
	for i := 0; i < 3; i++ {
		h.send(9, 1200)
	}
	h.send(10, 1)
	zzWait(60 * time.Second)
	h.check(true)
	close(h.in)
	vsym.Settle()
	vsym.Reach("ok")
}
