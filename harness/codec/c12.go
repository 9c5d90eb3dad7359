package codec

import (
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

type zzSpanV2 struct {
	members                   []string
	id, trace, parent         proxy.Id
	name, service             string
	start, duration           int64 // microseconds
	tags                      map[string]string
	client, server            bool
}

func (e *zzSpanV2) add(member string) { e.members = append(e.members, member) }

func (e *zzSpanV2) check(s proxy.Span) {
	vsym.Assert(s.Id == e.id, "wrong id")
	vsym.Assert(s.Trace == e.trace, "wrong trace id")
	vsym.Assert(s.Parent == e.parent, "wrong parent")
	vsym.Assert(s.Name == e.name, "wrong name")
	vsym.Assert(s.Service == e.service, "wrong service")
	start := proxy.Timestamp(e.start * 1000)
	dur := e.duration * 1000
	if dur == 0 {
		dur = 1000000
	}
	vsym.Assert(s.Timestamp == start, "wrong timestamp")
	vsym.Assert(int64(s.Duration) == dur, "wrong duration")
	var want proxy.Timings
	if e.client {
		want.CS, want.CR = start, start+proxy.Timestamp(dur)
	}
	if e.server {
		want.SR, want.SS = start, start+proxy.Timestamp(dur)
	}
	vsym.Assert(s.Timings.CS == want.CS, "wrong client send time")
	vsym.Assert(s.Timings.CR == want.CR, "wrong client receive time")
	vsym.Assert(s.Timings.SR == want.SR, "wrong server receive time")
	vsym.Assert(s.Timings.SS == want.SS, "wrong server send time")
	tags := map[string]string{}
	for k, v := range e.tags {
		tags[k] = v
	}
	tags["protocolVersion"] = "json v2"
	vsym.Assert(len(s.Tags) == len(tags), "wrong number of tags")
	for k, v := range tags {
		w, ok := s.Tags[k]
		vsym.Assert(ok, "tag missing")
		vsym.Assert(w == v, "wrong tag value")
	}
}

func zzParseV2(spans ...*zzSpanV2) {
	doc := "["
	for i, s := range spans {
		if i > 0 {
			doc += " ,\n"
		}
		doc += zzObject(s.members, i == 0)
	}
	doc += "]"
	got, err := ParseJsonV2(zzFull([]byte(doc)))
	vsym.Assert(err == nil, "a well-formed document was rejected")
	vsym.Assert(len(got) == len(spans), "not one span per element")
	for i, s := range spans {
		s.check(got[i])
	}
	vsym.Reach("ok")
}

// id, trace id and parent id each absent, null, 1 or 2 (thorough: 3) arbitrary hex digits, or 16 of which the first is arbitrary, in every rotation of the members
//gosym: quick=100 thorough=600 reach=ok
func ZZC12_Ids() {
	e := &zzSpanV2{}
	for i, m := range []string{"id", "traceId", "parentId"} {
		var v proxy.Id
		k := 0
		if i == vsym.Choose("focus", 3) {
			n := 6
			if vsym.Thorough() {
				n = 7
			}
			k = vsym.Choose("form", n)
		} else {
			k = vsym.Choose("form", 3)
		}
		switch k {
		case 0:
		case 1:
			e.add(`"` + m + `":null`)
		case 3:
			e.add(`"` + m + `" : "fedcba9876543210"`)
			v = -0x123456789abcdf0
		case 4:
			var t string
			t, v = zzHexText(1)
			v = v<<60 | 0x23456789abcdef0
			e.add(`"` + m + `":"` + t + `23456789abcdef0"`)
		default:
			var t string
			if k > 2 {
				k -= 2
			}
			t, v = zzHexText(k - 1)
			e.add(`"` + m + `": "` + t + `"`)
		}
		switch i {
		case 0:
			e.id = v
		case 1:
			e.trace = v
		case 2:
			e.parent = v
		}
	}
	e.add(`"name":"n"`)
	e.name = "n"
	zzParseV2(e)
}

// name and service name of 0..2 arbitrary plain bytes or with escapes or absent; endpoint with members before and behind
//gosym: quick=100 thorough=600 reach=ok
func ZZC12_Text() {
	e := &zzSpanV2{id: 5}
	e.add(`"id":"5"`)
	text := func() (string, string) {
		switch k := vsym.Choose("text", 5); k {
		case 3:
			return `a\"\u00e9\ud83d\ude00\/`, "a\"\u00e9\U0001F600/"
		case 4:
			c := zzPlain()
			return `\\` + string([]byte{c}) + `\n`, `\` + string([]byte{c}) + "\n"
		default:
			t := zzText(k)
			return t, t
		}
	}
	if vsym.Bool("named") {
		var t string
		t, e.name = text()
		e.add(`"name":"` + t + `"`)
	}
	switch vsym.Choose("endpoint", 4) {
	case 1:
		e.add(`"localEndpoint":{}`)
	case 2:
		var t string
		t, e.service = text()
		e.add(`"localEndpoint":{"serviceName":"` + t + `"}`)
	case 3:
		var t string
		t, e.service = text()
		e.add(`"remoteEndpoint":{"serviceName":"wrong"}`)
		e.add(`"localEndpoint":{"ipv4":"1.2.3.4","serviceName":"` + t + `","port":80}`)
	}
	zzParseV2(e)
}

// timestamp and duration absent, zero or of 1, 3 or 5 arbitrary digits, or 16 digits up to the limit of nanoseconds in 64 bits; kind absent, client or server
//gosym: quick=100 thorough=600 reach=ok
func ZZC12_Times() {
	e := &zzSpanV2{id: 5}
	e.add(`"id":"5"`)
	number := func(n string) (v int64) {
		var t string
		switch vsym.Choose("number", 7) {
		case 0:
			return 0
		case 1:
			t = "0"
		case 2:
			t, v = zzNumber(1)
		case 3:
			t, v = zzNumber(3)
		case 4:
			t, v = zzNumber(5)
		case 5:
			t, v = zzNumber(2)
			t += "00000000000000"
			v *= 100000000000000
			vsym.Assume(v <= 4500000000000000)
		case 6:
			t, v = "4611686018427387", 4611686018427387
		}
		e.add(`"` + n + `":` + t)
		return v
	}
	e.start = number("timestamp")
	e.duration = number("duration")
	switch vsym.Choose("kind", 3) {
	case 1:
		e.add(`"kind":"CLIENT"`)
		e.client = true
	case 2:
		e.add(`"kind":"SERVER"`)
		e.server = true
	}
	zzParseV2(e)
}

// kind: client and server with every letter in either case, every text of 6 bytes below 0x80 (and of 5 and 7), other kinds, absent
//gosym: quick=100 thorough=600 reach=ok,client,server,none
func ZZC12_Kind() {
	e := &zzSpanV2{id: 5, start: 1500000000000000, duration: 250}
	e.add(`"id":"5"`)
	e.add(`"timestamp":1500000000000000`)
	e.add(`"duration":250`)
	if k := vsym.Choose("kind", 9); k > 0 {
		s := ""
		switch k {
		case 1, 2, 3:
			s = zzText(k + 4)
			for i := 0; i < len(s); i++ {
				vsym.Assume(s[i] < 0x80)
			}
		default:
			s = []string{"client", "Server", "PRODUCER", "CONSUMER", ""}[k-4]
		}
		e.add(`"kind":"` + s + `"`)
		e.client, e.server = zzFoldIs(s, "client"), zzFoldIs(s, "server")
	}
	switch {
	case e.client:
		vsym.Reach("client")
	case e.server:
		vsym.Reach("server")
	default:
		vsym.Reach("none")
	}
	zzParseV2(e)
}

// tags absent, empty, or 1..3 with keys and values of 0..1 arbitrary bytes (equal keys: the last wins) or the reserved key protocolVersion
//gosym: quick=100 thorough=600 reach=ok
func ZZC12_Tags() {
	e := &zzSpanV2{id: 5}
	e.add(`"id":"5"`)
	if k := vsym.Choose("tags", 5); k > 0 {
		t := `"tags":{`
		e.tags = map[string]string{}
		for i := 0; i < k-1; i++ {
			if i > 0 {
				t += ","
			}
			key, val := "", ""
			if vsym.Bool("reserved") {
				key = "protocolVersion"
			} else {
				key = zzText(vsym.Choose("keylen", 2))
			}
			val = zzText(vsym.Choose("vallen", 2))
			t += `"` + key + `":"` + val + `"`
			e.tags[key] = val
		}
		e.add(t + "}")
	}
	zzParseV2(e)
}

// 0..3 spans (and 1, 63..66, 130), each with the members of one of four kinds of spans (client with everything, server without tags, empty, only
// id and tags) and arbitrary digits in id and timestamp: nothing leaks from one span to another
//gosym: quick=100 thorough=600 reach=ok
func ZZC12_Many() {
	var es []*zzSpanV2
	n := []int{0, 1, 2, 3, 63, 64, 65, 66, 130}[vsym.Choose("spans", 9)]
	kind := 0
	for i := 0; i < n; i++ {
		e := &zzSpanV2{}
		if n <= 3 {
			kind = vsym.Choose("kind", 4)
		} else {
			kind = i % 4
		}
		sym := n <= 3 || i == 62 || i == 63 || i == n-1
		id := func(m string) proxy.Id {
			if !sym {
				e.add(`"` + m + `":"` + string([]byte{byte('a' + i%6), byte('0' + i%10)}) + `"`)
				return proxy.Id((10+i%6)<<4 + i%10)
			}
			t, v := zzHexText(1)
			e.add(`"` + m + `":"` + t + `"`)
			return v
		}
		switch kind {
		case 0:
			e.id = id("id")
			e.trace, e.parent, e.name, e.service, e.start, e.duration, e.client = 15, 3, "cn", "cs", 77, 8, true
			e.tags = map[string]string{"a": "b", "c": "d"}
			e.add(`"traceId":"f","parentId":"3","name":"cn","kind":"CLIENT","timestamp":77,"duration":8,"tags":{"a":"b","c":"d"},"localEndpoint":{"serviceName":"cs"}`)
		case 1:
			e.trace = id("traceId")
			e.name, e.server, e.start = "sn", true, 5
			e.add(`"name":"sn","kind":"SERVER","timestamp":5`)
		case 2:
		case 3:
			e.parent = id("parentId")
			e.tags = map[string]string{"a": "x"}
			e.add(`"tags":{"a":"x"}`)
		}
		es = append(es, e)
	}
	zzParseV2(es...)
}

// id, trace id and parent id each absent or one arbitrary hex digit (so any of them may coincide), with every kind, with and without times, tags and a service
//gosym: quick=100 thorough=300 reach=ok
func ZZC12_Coincide() {
	e := &zzSpanV2{}
	var t string
	if vsym.Bool("id") {
		t, e.id = zzHexText(1)
		e.add(`"id":"` + t + `"`)
	}
	if vsym.Bool("trace") {
		t, e.trace = zzHexText(1)
		e.add(`"traceId":"` + t + `"`)
	}
	if vsym.Bool("parent") {
		t, e.parent = zzHexText(1)
		e.add(`"parentId":"` + t + `"`)
	}
	switch vsym.Choose("kind", 5) {
	case 1:
		e.add(`"kind":"CLIENT"`)
		e.client = true
	case 2:
		e.add(`"kind":"SERVER"`)
		e.server = true
	case 3:
		e.add(`"kind":"PRODUCER"`)
	case 4:
		e.add(`"kind":"CONSUMER"`)
	}
	if vsym.Bool("full") {
		t, e.start = zzNumber(1)
		e.add(`"timestamp":` + t + `,"duration":3`)
		e.duration = 3
		e.service = "sv"
		e.add(`"localEndpoint":{"serviceName":"sv"},"remoteEndpoint":{"serviceName":"rv"}`)
		e.tags = map[string]string{"k": "v"}
		e.add(`"tags":{"k":"v"},"shared":true,"debug":true`)
	}
	zzParseV2(e)
}
