package zipkinproxy

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

func zzStamp(name string) proxy.Timestamp {
	if vsym.Bool(name + "?") {
		t := proxy.Timestamp(vsym.Int64(name))
		vsym.Assume(t > 0)
		return t
	}
	return 0
}

// zzLabel gives "", "x" or one of two arbitrary letters.
func zzLabel(name string) string {
	if vsym.Bool(name + "?") {
		return string([]byte{vsym.Byte(name)})
	}
	return ""
}

func zzTags(name string, n int) map[string]string {
	var m map[string]string
	if vsym.Bool(name + "?") {
		m = map[string]string{}
		for i := 0; i < n; i++ {
			c := vsym.Byte(name)
			vsym.Assume(c == 'a' || c == 'b')
			m[string([]byte{c})] = string([]byte{vsym.Byte(name + "value")})
		}
	}
	return m
}

// zzMerged sends the parts of span 7 of trace 9 and gives the span that is emitted.
func zzMerged(parts ...proxy.Span) proxy.Span {
	r := zzStart()
	r.advance(50 * time.Millisecond)
	for _, p := range parts {
		p.Id, p.Trace = 7, 9
		// the receiver owns the tags
		if p.Tags != nil {
			t := map[string]string{}
			for k, v := range p.Tags {
				t[k] = v
			}
			p.Tags = t
		}
		r.send(p)
	}
	r.advance(9 * time.Second)
	out := r.take()
	r.stop()
	vsym.Assert(len(out) == 1 && len(out[0]) == 1, "the parts of a span did not become one span")
	vsym.Assert(out[0][0].Id == 7 && out[0][0].Trace == 9, "wrong ids")
	return out[0][0]
}

func zzCheckMerged(got, client, server proxy.Span) {
	vsym.Assert(got.Timings.CS == client.Timings.CS, "client send time lost or changed")
	vsym.Assert(got.Timings.CR == client.Timings.CR, "client receive time lost or changed")
	vsym.Assert(got.Timings.SR == server.Timings.SR, "server receive time lost or changed")
	vsym.Assert(got.Timings.SS == server.Timings.SS, "server send time lost or changed")
	name, service := server.Name, server.Service
	if name == "" {
		name = client.Name
	}
	if service == "" {
		service = client.Service
	}
	vsym.Assert(got.Name == name, "wrong name")
	vsym.Assert(got.Service == service, "wrong service")
	tags := map[string]string{}
	for k, v := range client.Tags {
		tags[k] = v
	}
	for k, v := range server.Tags {
		tags[k] = v
	}
	vsym.Assert(len(got.Tags) == len(tags), "wrong number of tags")
	for k, v := range tags {
		w, ok := got.Tags[k]
		vsym.Assert(ok, "a tag was lost")
		vsym.Assert(w == v, "a tag has the wrong value")
	}
	parent := client.Parent
	if parent == 0 {
		parent = server.Parent
	}
	vsym.Assert(got.Parent == parent, "wrong parent")
}

func zzHalves() (client, server proxy.Span) {
	client.Timings.CS = zzStamp("cs")
	client.Timings.CR = zzStamp("cr")
	server.Timings.SR = zzStamp("sr")
	server.Timings.SS = zzStamp("ss")
	vsym.Assume(server.Timings.SR != 0 || server.Timings.SS != 0)
	vsym.Assume(client.Timings.CS != 0 || client.Timings.CR != 0)
	return
}

func zzOrder(client, server proxy.Span) {
	if vsym.Bool("serverfirst") {
		zzCheckMerged(zzMerged(server, client), client, server)
		vsym.Reach("serverfirst")
	} else {
		zzCheckMerged(zzMerged(client, server), client, server)
		vsym.Reach("clientfirst")
	}
}

// a client half with cs and/or cr and a server half with sr and/or ss, all timestamps arbitrary and positive, in either order
//gosym: quick=100 thorough=300 reach=clientfirst,serverfirst
func ZZC18_Timings() {
	client, server := zzHalves()
	client.Parent, server.Parent = 3, 3
	zzOrder(client, server)
}

// name and service of either half empty or one arbitrary byte; parents of either half 0 or the same arbitrary id; either order
//gosym: quick=100 thorough=300 reach=clientfirst,serverfirst
func ZZC18_Names() {
	client := proxy.Span{Name: zzLabel("cname"), Service: zzLabel("cservice"), Timings: proxy.Timings{CS: 1600000000000000000, CR: 1600000000000000500}}
	server := proxy.Span{Name: zzLabel("sname"), Service: zzLabel("sservice"), Timings: proxy.Timings{SR: 1600000000000000100, SS: 1600000000000000200}}
	parent := Id(vsym.Int64("parent"))
	vsym.Assume(parent != 0)
	if vsym.Bool("clientparent") {
		client.Parent = parent
	}
	if vsym.Bool("serverparent") {
		server.Parent = parent
	}
	zzOrder(client, server)
}

// up to 2 tags in either half with keys a or b and arbitrary values of one byte, or no tags at all; either order, every order of the maps
//gosym: quick=100 thorough=300 reach=clientfirst,serverfirst
func ZZC18_Tags() {
	vsym.Option("maporder", 2)
	client := proxy.Span{Parent: 3, Timings: proxy.Timings{CS: 1600000000000000000}, Tags: zzTags("ctag", 2)}
	server := proxy.Span{Parent: 3, Timings: proxy.Timings{SS: 1600000000000000200}, Tags: zzTags("stag", 2)}
	zzOrder(client, server)
}

// 2..3 (thorough: 4) parts of one span, each with any subset of the four timings: for each kind of timing the span that is emitted has a value that some part
// reported, and it has one if any part reported a valid one
//gosym: quick=200 thorough=900 reach=ok
func ZZC18_Parts() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	n = 2 + vsym.Choose("parts", n)
	var parts []proxy.Span
	for i := 0; i < n; i++ {
		p := proxy.Span{Parent: 3}
		mask := vsym.Choose("timings", 16)
		set := func(bit int, ts *proxy.Timestamp) {
			if mask&bit != 0 {
				*ts = proxy.Timestamp(1600000000000000000 + i*100 + bit)
			}
		}
		set(1, &p.Timings.CS)
		set(2, &p.Timings.CR)
		set(4, &p.Timings.SR)
		set(8, &p.Timings.SS)
		parts = append(parts, p)
	}
	got := zzMerged(parts...)
	check := func(v proxy.Timestamp, of func(t proxy.Timings) proxy.Timestamp, what string) {
		reported, same := false, v == 0
		for _, p := range parts {
			if of(p.Timings) != 0 {
				reported = true
				same = same || of(p.Timings) == v
			}
		}
		vsym.Assert(same, what+" was not reported by any part")
		vsym.Assert(!reported || v != 0, what+" was lost")
	}
	check(got.Timings.CS, func(t proxy.Timings) proxy.Timestamp { return t.CS }, "client send time")
	check(got.Timings.CR, func(t proxy.Timings) proxy.Timestamp { return t.CR }, "client receive time")
	check(got.Timings.SR, func(t proxy.Timings) proxy.Timestamp { return t.SR }, "server receive time")
	check(got.Timings.SS, func(t proxy.Timings) proxy.Timestamp { return t.SS }, "server send time")
	vsym.Reach("ok")
}
