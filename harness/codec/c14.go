package codec

import (
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzAscii gives a string of n arbitrary printable ASCII bytes.
func zzAscii(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = zzPlain()
		vsym.Assume(b[i] < 0x7f)
	}
	return string(b)
}

type zzSpanJ struct {
	members           []string
	id, trace, parent proxy.Id
	name, service     string
	start, duration   int64
	tags              map[string]string
	client, server    bool
}

func (e *zzSpanJ) add(member string) { e.members = append(e.members, member) }

func (e *zzSpanJ) check(s proxy.Span) {
	vsym.Assert(s.Id == e.id, "wrong id")
	vsym.Assert(s.Trace == e.trace, "wrong trace id")
	vsym.Assert(s.Parent == e.parent, "wrong parent")
	vsym.Assert(s.Name == e.name, "wrong name")
	vsym.Assert(s.Service == e.service, "wrong service")
	start := proxy.Timestamp(e.start * 1000)
	dur := e.duration * 1000
	if dur == 0 {
		dur = 1000000
	}
	vsym.Assert(s.Timestamp == start, "wrong timestamp")
	vsym.Assert(int64(s.Duration) == dur, "wrong duration")
	var want proxy.Timings
	if e.client {
		want.CS, want.CR = start, start+proxy.Timestamp(dur)
	}
	if e.server {
		want.SR, want.SS = start, start+proxy.Timestamp(dur)
	}
	vsym.Assert(s.Timings == want, "wrong timings")
	tags := map[string]string{}
	for k, v := range e.tags {
		tags[k] = v
	}
	tags["protocolVersion"] = "jaeger"
	vsym.Assert(len(s.Tags) == len(tags), "wrong number of tags")
	for k, v := range tags {
		w, ok := s.Tags[k]
		vsym.Assert(ok, "tag missing")
		vsym.Assert(w == v, "wrong tag value")
	}
}

// zzParseJ parses a document with the given data objects.
func zzParseJ(data [][]*zzSpanJ, procs []string) {
	doc := `{"total":0,"data":[`
	n := 0
	for i, spans := range data {
		if i > 0 {
			doc += ","
		}
		ps := ""
		if i < len(procs) {
			ps = procs[i]
		}
		ss := `"spans":[`
		for k, s := range spans {
			if k > 0 {
				ss += ","
			}
			ss += zzObject(s.members, n == 0)
			n++
		}
		ss += "]"
		switch {
		case ps == "":
			doc += "{" + ss + "}"
		case vsym.Bool("processesfirst"):
			doc += `{"traceID":"9",` + ps + "," + ss + "}"
		default:
			doc += "{" + ss + "," + ps + `,"warnings":null}`
		}
	}
	doc += `],"limit":0}`
	got, err := ParseJaeger(zzFull([]byte(doc)))
	vsym.Assert(err == nil, "a well-formed document was rejected")
	vsym.Assert(len(got) == n, "not every span came out once")
	i := 0
	for _, spans := range data {
		for _, s := range spans {
			s.check(got[i])
			i++
		}
	}
	vsym.Reach("ok")
}

// ids of 1..2 arbitrary hex digits or of 16 digits; references absent, empty, or one or two of the kinds CHILD_OF and FOLLOWS_FROM with an arbitrary id
// (at most one CHILD_OF)
//gosym: quick=100 thorough=300 reach=ok
func ZZC14_Ids() {
	e := &zzSpanJ{}
	id := func() (string, proxy.Id) {
		if vsym.Bool("long") {
			t, v := zzHexText(1)
			return t + "edcba9876543210", v<<60 | 0xedcba9876543210
		}
		return zzHexText(1)
	}
	t, v := id()
	e.trace = v
	e.add(`"traceID":"` + t + `"`)
	t, v = id()
	e.id, e.parent = v, v
	e.add(`"spanID":"` + t + `"`)
	ref := func(kind string) string {
		t, v := id()
		if kind == "CHILD_OF" {
			e.parent = v
		}
		return `{"refType":"` + kind + `","traceID":"1","spanID":"` + t + `"}`
	}
	switch vsym.Choose("references", 7) {
	case 1:
		e.add(`"references":[]`)
	case 2:
		e.add(`"references":[` + ref("CHILD_OF") + `]`)
	case 3:
		e.add(`"references":[` + ref("FOLLOWS_FROM") + `]`)
	case 4:
		e.add(`"references":[` + ref("CHILD_OF") + `,` + ref("FOLLOWS_FROM") + `]`)
	case 5:
		e.add(`"references":[` + ref("FOLLOWS_FROM") + `,` + ref("CHILD_OF") + `]`)
	case 6:
		e.add(`"references":null`)
	}
	zzParseJ([][]*zzSpanJ{{e}}, nil)
}

// operation name and service name of 0..2 arbitrary printable characters or with escapes; the process named, missing or without a name, processes before or behind the spans
//gosym: quick=100 thorough=300 reach=ok
func ZZC14_Text() {
	e := &zzSpanJ{id: 5, parent: 5}
	e.add(`"spanID":"5"`)
	text := func() (string, string) {
		if k := vsym.Choose("text", 4); k < 3 {
			t := zzAscii(k)
			return t, t
		}
		return `a\"\u00e9\ud83d\ude00\/`, "a\"\u00e9\U0001F600/"
	}
	if vsym.Bool("named") {
		var t string
		t, e.name = text()
		e.add(`"operationName":"` + t + `"`)
	}
	procs := ""
	switch vsym.Choose("process", 4) {
	case 1:
		e.add(`"processID":"p1"`)
		procs = `"processes":{"p2":{"serviceName":"x"}}`
	case 2:
		var t string
		t, e.service = text()
		e.add(`"processID":"p1"`)
		procs = `"processes":{"p2":{"serviceName":"x"},"p1":{"tags":[],"serviceName":"` + t + `"}}`
	case 3:
		e.add(`"processID":"p1"`)
		procs = `"processes":{"p1":{}}`
	}
	zzParseJ([][]*zzSpanJ{{e}}, []string{procs})
}

// times absent, zero, of 1..3 arbitrary digits or of 16; span.kind absent, client or server (all letters in either case), another word, not a string
//gosym: quick=100 thorough=300 reach=ok,client,server,none
func ZZC14_Times() {
	e := &zzSpanJ{id: 5, parent: 5}
	e.add(`"spanID":"5"`)
	number := func(n string) (v int64) {
		t := ""
		switch k := vsym.Choose("number", 6); k {
		case 0:
			return 0
		case 1:
			t = "0"
		case 5:
			t, v = "4611686018427387", 4611686018427387
		default:
			t, v = zzNumber(k - 1)
		}
		e.add(`"` + n + `":` + t)
		return v
	}
	if vsym.Bool("times") {
		e.start, e.duration = number("startTime"), number("duration")
	} else {
		e.start, e.duration = 1500000000000000, 250
		e.add(`"startTime":1500000000000000`)
		e.add(`"duration":250`)
		s := ""
		k := vsym.Choose("kind", 6)
		switch k {
		case 1:
			s = zzAscii(6)
		case 2:
			s = "client"
		case 3:
			s = "Server"
		case 4:
			s = "producer"
		case 5:
			e.add(`"tags":[{"key":"span.kind","type":"bool","value":true},{"key":"span.Kind","value":"client"}]`)
			e.tags = map[string]string{"span.Kind": "client"}
		}
		if k > 0 && k < 5 {
			vsym.Assume(zzNoSpecial(s))
			e.add(`"tags":[{"key":"span.kind","type":"string","value":"` + s + `"}]`)
		}
		e.client, e.server = zzFoldIs(s, "client"), zzFoldIs(s, "server")
	}
	switch {
	case e.client:
		vsym.Reach("client")
	case e.server:
		vsym.Reach("server")
	default:
		vsym.Reach("none")
	}
	zzParseJ([][]*zzSpanJ{{e}}, nil)
}

func zzNoSpecial(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' || s[i] == '"' {
			return false
		}
	}
	return true
}

// 0..3 tags with key component, lc, internal.span.format, span.kind, protocolVersion or 0..1 arbitrary characters and a string value of 0..1 arbitrary
// characters, a number, a bool, null, an object, an array or no value; the last of equal keys wins
//gosym: quick=200 thorough=900 reach=ok
func ZZC14_Tags() {
	e := &zzSpanJ{id: 5, parent: 5, tags: map[string]string{}}
	e.add(`"spanID":"5"`)
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	t := `"tags":[`
	n = vsym.Choose("tags", n)
	for i := 0; i < n; i++ {
		if i > 0 {
			t += ","
		}
		key := ""
		if k := vsym.Choose("key", 7); k < 5 {
			key = []string{"component", "lc", "internal.span.format", "span.kind", "protocolVersion"}[k]
		} else {
			key = zzAscii(k - 5)
		}
		t += `{"key":"` + key + `"`
		value, isString := "", false
		switch k := vsym.Choose("value", 8); k {
		case 0, 1:
			value, isString = zzAscii(k), true
			t += `,"type":"string","value":"` + value + `"`
		case 2:
			d, _ := zzNumber(2)
			t += `,"value":` + d
		case 3:
			t += `,"value":true`
		case 4:
			t += `,"value":null`
		case 5:
			t += `,"value":{"value":"x"}`
		case 6:
			t += `,"value":["x"]`
		}
		t += "}"
		if !isString || key == "internal.span.format" || key == "span.kind" {
			continue
		}
		if key == "component" {
			key = "lc"
		}
		e.tags[key] = value
	}
	e.add(t + "]")
	zzParseJ([][]*zzSpanJ{{e}}, nil)
}

// documents without data, with empty data, and with 1..2 data objects of 0..2 spans each that name processes of the same id but other service names; spans with everything or nothing
//gosym: quick=200 thorough=300 reach=ok
func ZZC14_Many() {
	var data [][]*zzSpanJ
	procs := []string{`"processes":{"p":{"serviceName":"one"}}`, `"processes":{"p":{"serviceName":"two"},"q":{"serviceName":"three"}}`}
	n := vsym.Choose("data", 3)
	for i := 0; i < n; i++ {
		var spans []*zzSpanJ
		m := vsym.Choose("spans", 3)
		for k := 0; k < m; k++ {
			e := &zzSpanJ{}
			t, v := zzHexText(1)
			e.id, e.parent = v, v
			e.add(`"spanID":"` + t + `"`)
			if vsym.Bool("full") {
				e.trace, e.name, e.start, e.duration, e.client, e.parent = 15, "n", 7, 8, true, 3
				e.tags = map[string]string{"a": "b"}
				e.service = []string{"one", "two"}[i]
				e.add(`"traceID":"f","operationName":"n","startTime":7,"duration":8,"references":[{"refType":"CHILD_OF","spanID":"3"}],"processID":"p","tags":[{"key":"a","value":"b"},{"key":"span.kind","value":"client"}]`)
			}
			spans = append(spans, e)
		}
		data = append(data, spans)
	}
	zzParseJ(data, procs)
	for _, doc := range []string{`{}`, `{"data":[]}`, `{"data":null}`, `{"data":[{}]}`} {
		got, err := ParseJaeger(zzFull([]byte(doc)))
		vsym.Assert(err == nil && len(got) == 0, "an empty document gives spans or is rejected")
	}
}

// start time and duration of 16 digits beyond 2^53, the last 1 (thorough: 3) of them arbitrary: every microsecond comes out
//gosym: quick=100 thorough=300 reach=ok
func ZZC14_Large() {
	e := &zzSpanJ{id: 5, parent: 5}
	e.add(`"spanID":"5"`)
	n := 1
	if vsym.Thorough() {
		n = 3
	}
	t, v := zzNumber(n)
	base := "9007199254740990"
	e.start, e.duration = 7, 8
	name := "startTime"
	if vsym.Bool("duration") {
		name = "duration"
	}
	at := int64(9007199254740990)
	if n == 3 {
		at = 9007199254740000
	}
	e.add(`"` + name + `":` + base[:16-n] + t)
	if name == "duration" {
		e.duration = at + v
		e.add(`"startTime":7`)
	} else {
		e.start = at + v
		e.add(`"duration":8`)
	}
	zzParseJ([][]*zzSpanJ{{e}}, nil)
}
