package codec

import (
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

type zzAnno struct {
	value   string
	ts      int64
	service string
}

type zzBin struct {
	key, value, service string
}

type zzSpanV1 struct {
	members             []string
	id, trace, parent   proxy.Id
	name                string
	start, duration     int64
	annos               []zzAnno
	bins                []zzBin
}

func (e *zzSpanV1) add(member string) { e.members = append(e.members, member) }

func (e *zzSpanV1) check(s proxy.Span) {
	vsym.Assert(s.Id == e.id, "wrong id")
	vsym.Assert(s.Trace == e.trace, "wrong trace id")
	vsym.Assert(s.Parent == e.parent, "wrong parent")
	vsym.Assert(s.Name == e.name, "wrong name")
	var cs, cr, sr, ss int64
	service := ""
	for _, a := range e.annos {
		if a.ts == 0 {
			continue
		}
		switch a.value {
		case "cs":
			cs = a.ts * 1000
		case "cr":
			cr = a.ts * 1000
		case "sr":
			sr = a.ts * 1000
		case "ss":
			ss = a.ts * 1000
		}
		if service == "" {
			service = a.service
		}
	}
	tags := map[string]string{}
	for _, b := range e.bins {
		tags[b.key] = b.value
		if service == "" {
			service = b.service
		}
	}
	tags["protocolVersion"] = "json v1"
	start, dur := e.start*1000, e.duration*1000
	if cs != 0 && cr != 0 {
		start, dur = cs, cr-cs
	} else if sr != 0 && ss != 0 {
		start, dur = sr, ss-sr
	}
	if dur == 0 {
		dur = 1000000
	}
	vsym.Assert(int64(s.Timings.CS) == cs, "wrong client send time")
	vsym.Assert(int64(s.Timings.CR) == cr, "wrong client receive time")
	vsym.Assert(int64(s.Timings.SR) == sr, "wrong server receive time")
	vsym.Assert(int64(s.Timings.SS) == ss, "wrong server send time")
	vsym.Assert(int64(s.Timestamp) == start, "wrong timestamp")
	vsym.Assert(int64(s.Duration) == dur, "wrong duration")
	vsym.Assert(s.Service == service, "wrong service")
	vsym.Assert(len(s.Tags) == len(tags), "wrong number of tags")
	for k, v := range tags {
		w, ok := s.Tags[k]
		vsym.Assert(ok, "tag missing")
		vsym.Assert(w == v, "wrong tag value")
	}
}

func zzParseV1(spans ...*zzSpanV1) {
	doc := "["
	for i, s := range spans {
		if i > 0 {
			doc += " ,\n"
		}
		doc += zzObject(s.members, i == 0)
	}
	doc += "]"
	got, err := ParseJsonV1(zzFull([]byte(doc)))
	vsym.Assert(err == nil, "a well-formed document was rejected")
	vsym.Assert(len(got) == len(spans), "not one span per element")
	for i, s := range spans {
		s.check(got[i])
	}
	vsym.Reach("ok")
}

// zzAddAnnos adds annotations with the given values; which of them has a timestamp and of how many arbitrary digits, is arbitrary.
func (e *zzSpanV1) addAnnos(values []string, endpoints bool) {
	t := `"annotations":[`
	for i, v := range values {
		if i > 0 {
			t += ","
		}
		a := zzAnno{value: v}
		t += `{"value":"` + v + `"`
		forms := 2
		if len(values) < 3 && (!endpoints || vsym.Thorough()) {
			forms = 3
		}
		switch k := vsym.Choose("timestamp", forms); {
		case k == 0:
		case endpoints:
			a.ts = int64(2 - k)
			t += `,"timestamp":` + string([]byte{byte('0' + 2 - k)})
		case k == 1:
			var n string
			n, a.ts = zzNumber(1)
			t += `,"timestamp":` + n
		case k == 2:
			var n string
			n, a.ts = zzNumber(1)
			t += `,"timestamp":150000000000000` + n
			a.ts += 1500000000000000
		}
		if endpoints {
			switch vsym.Choose("endpoint", 3) {
			case 1:
				t += `,"endpoint":{"ipv4":"1.1.1.1","serviceName":""}`
			case 2:
				a.service = zzText(1)
				t += `,"endpoint":{"serviceName":"` + a.service + `","port":1}`
			}
		}
		t += "}"
		e.annos = append(e.annos, a)
	}
	e.add(t + "]")
}

// ids absent, null or of 1..2 arbitrary hex digits or of 16; name absent, of 0..2 arbitrary bytes or with escapes; timestamp and duration absent, zero or of 1..3 arbitrary digits or of 16 digits; every rotation of the members
//gosym: quick=100 thorough=600 reach=ok
func ZZC13_Scalars() {
	e := &zzSpanV1{}
	focus := vsym.Choose("focus", 3)
	id := func(m string) (v proxy.Id) {
		k := 2
		if focus == 0 {
			k = vsym.Choose("form", 5)
		}
		t := ""
		switch k {
		case 0:
			return 0
		case 1:
			e.add(`"` + m + `":null`)
			return 0
		case 2:
			t, v = zzHexText(1)
		case 3:
			t, v = zzHexText(2)
		case 4:
			t, v = zzHexText(1)
			v = v<<60 | 0x23456789abcdef0
			t += "23456789abcdef0"
		}
		e.add(`"` + m + `":"` + t + `"`)
		return
	}
	e.id, e.trace, e.parent = id("id"), id("traceId"), id("parentId")
	if focus == 1 {
		switch k := vsym.Choose("name", 6); k {
		case 0:
		case 4:
			e.name = "a\"\u00e9\U0001F600/"
			e.add(`"name":"a\"\u00e9\ud83d\ude00\/"`)
		case 5:
			e.add(`"name":"` + string([]byte{'\\', 't'}) + `x"`)
			e.name = "\tx"
		default:
			e.name = zzText(k - 1)
			e.add(`"name":"` + e.name + `"`)
		}
	}
	if focus == 2 {
		number := func(n string) (v int64) {
			t := ""
			switch k := vsym.Choose("number", 6); k {
			case 0:
				return 0
			case 1:
				t = "0"
			case 5:
				t, v = "4611686018427387", 4611686018427387
			default:
				t, v = zzNumber(k - 1)
			}
			e.add(`"` + n + `":` + t)
			return v
		}
		e.start, e.duration = number("timestamp"), number("duration")
	}
	zzParseV1(e)
}

// 0..4 annotations out of every sequence of cs, cr, sr, ss, another value (thorough: and "" and "CS"), each without a timestamp or with one of 1 digit (up to two annotations: or 16), the last
// of them arbitrary; own timestamp and duration present or not
//gosym: quick=200 thorough=900 reach=ok
func ZZC13_Annotations() {
	e := &zzSpanV1{id: 5}
	e.add(`"id":"5"`)
	if vsym.Bool("own") {
		e.start, e.duration = 1400000000000000, 33
		e.add(`"timestamp":1400000000000000,"duration":33`)
	}
	names := []string{"cs", "cr", "sr", "ss", "other", "CS", ""}
	k := 5
	if vsym.Thorough() {
		k = 7
	}
	var values []string
	switch n := vsym.Choose("annotations", 5); n {
	case 4:
		// the four timings in any order, or one of them twice
		rest := []string{"cs", "cr", "sr", "ss", "cs"}
		for i := 0; i < 4; i++ {
			j := vsym.Choose("next", len(rest))
			values = append(values, rest[j])
			rest = append(append([]string{}, rest[:j]...), rest[j+1:]...)
		}
	default:
		for i := 0; i < n; i++ {
			values = append(values, names[vsym.Choose("value", k)])
		}
	}
	e.addAnnos(values, false)
	zzParseV1(e)
}

// 0..2 annotations and 0..2 binary annotations (two annotations: 0..1; thorough: 0..3 and 0..2), each with or without endpoint, its service name empty or one arbitrary byte, timestamps present or not: the service
//gosym: quick=200 thorough=900 reach=ok
func ZZC13_Service() {
	e := &zzSpanV1{id: 5}
	e.add(`"id":"5"`)
	n := vsym.Choose("annotations", 3)
	if vsym.Thorough() && n == 2 {
		n += vsym.Choose("third", 2)
	}
		e.addAnnos([]string{"sr", "x", "ss"}[:n], true)
	bins := 3
	if n == 2 && !vsym.Thorough() {
		bins = 2
	}
	e.addBins(vsym.Choose("binary", bins), true)
	zzParseV1(e)
}

func (e *zzSpanV1) addBins(n int, endpoints bool) {
	t := `"binaryAnnotations":[`
	for i := 0; i < n; i++ {
		if i > 0 {
			t += ","
		}
		b := zzBin{key: "k"}
		if endpoints {
			b.key = []string{"a", "b", "c"}[i]
			b.value = "v"
			t += `{"key":"` + b.key + `","value":"v"`
			switch vsym.Choose("endpoint", 3) {
			case 1:
				t += `,"endpoint":{"serviceName":""}`
			case 2:
				b.service = zzText(1)
				t += `,"endpoint":{"ipv4":"1","serviceName":"` + b.service + `"}`
			}
		} else {
			switch vsym.Choose("key", 4) {
			case 0:
				b.key = ""
				t += `{`
			case 1:
				b.key = zzText(1)
				t += `{"key":"` + b.key + `",`
			case 2:
				t += `{"type":"STRING","key":"k",`
			case 3:
				b.key = "protocolVersion"
				t += `{"key":"protocolVersion",`
			}
			switch vsym.Choose("literal", 9) {
			case 0:
				b.value = zzText(1)
				t += `"value":"` + b.value + `"`
			case 1:
				t, b.value = t+`"value":""`, ""
			case 2:
				t, b.value = t+`"value":true`, "true"
			case 3:
				t, b.value = t+`"value":false`, "false"
			case 4:
				t, b.value = t+`"value":null`, "null"
			case 5:
				n, _ := zzNumber(2)
				t, b.value = t+`"value":`+n, n
			case 6:
				n, _ := zzNumber(1)
				t, b.value = t+`"value":-`+n+`.50e-2`, "-"+n+".50e-2"
			case 7:
				t, b.value = t+`"value":"a\tb"`, "a\tb"
			case 8:
				t, b.value = t+`"x":[1]`, ""
			}
		}
		t += "}"
		e.bins = append(e.bins, b)
	}
	e.add(t + "]")
}

// binaryAnnotations absent or 0..2 (thorough: 3) with key absent, one arbitrary byte, fixed or reserved and a value of every kind of literal with arbitrary characters or digits
//gosym: quick=200 thorough=900 reach=ok
func ZZC13_Tags() {
	e := &zzSpanV1{id: 5}
	e.add(`"id":"5"`)
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	if k := vsym.Choose("binary", n); k > 0 {
		e.addBins(k-1, false)
	}
	zzParseV1(e)
}

// 0..3 spans (and 1, 63..66, 130), each of one of four kinds, with arbitrary digits: nothing leaks from one span to another
//gosym: quick=200 thorough=600 reach=ok
func ZZC13_Many() {
	var es []*zzSpanV1
	n := []int{0, 1, 2, 3, 63, 64, 65, 66, 130}[vsym.Choose("spans", 9)]
	for i := 0; i < n; i++ {
		e := &zzSpanV1{}
		kind := i % 4
		if n <= 3 {
			kind = vsym.Choose("kind", 4)
		}
		sym := n <= 3 || i == 62 || i == 63 || i == n-1
		id := func(m string) proxy.Id {
			if !sym {
				e.add(`"` + m + `":"` + string([]byte{byte('a' + i%6), byte('0' + i%10)}) + `"`)
				return proxy.Id((10+i%6)<<4 + i%10)
			}
			t, v := zzHexText(1)
			e.add(`"` + m + `":"` + t + `"`)
			return v
		}
		switch kind {
		case 0:
			e.id = id("id")
			e.trace, e.parent, e.name, e.start, e.duration = 15, 3, "cn", 77, 8
			e.annos = []zzAnno{{"cs", 5, "sv"}, {"cr", 9, ""}, {"sr", 6, "x"}, {"ss", 7, "y"}}
			e.bins = []zzBin{{"a", "b", "z"}, {"c", "1", ""}, {"e", "f", ""}}
			e.add(`"traceId":"f","parentId":"3","name":"cn","timestamp":77,"duration":8,"annotations":[{"timestamp":5,"value":"cs","endpoint":{"serviceName":"sv"}},{"timestamp":9,"value":"cr"},{"timestamp":6,"value":"sr","endpoint":{"serviceName":"x"}},{"timestamp":7,"value":"ss","endpoint":{"serviceName":"y"}}],"binaryAnnotations":[{"key":"a","value":"b","endpoint":{"serviceName":"z"}},{"key":"c","value":1},{"key":"e","value":"f"}]`)
		case 1:
			e.trace = id("traceId")
			e.name = "sn"
			e.annos = []zzAnno{{"", 8, ""}, {"sr", 0, "no"}}
			e.bins = []zzBin{{"", "q", ""}}
			e.add(`"name":"sn","annotations":[{"timestamp":8},{"value":"sr","endpoint":{"serviceName":"no"}}],"binaryAnnotations":[{"value":"q"}]`)
		case 2:
		case 3:
			e.parent = id("parentId")
			e.annos = []zzAnno{{"ss", 8, ""}}
			e.add(`"annotations":[{"value":"ss","timestamp":8}]`)
		}
		es = append(es, e)
	}
	zzParseV1(es...)
}

// 1..2 binary annotations with an empty key or not, a value that is empty, absent, null or one arbitrary byte, and an endpoint with or without a service name, behind 0..1 annotations
// with an endpoint; id and trace id may coincide
//gosym: quick=100 thorough=300 reach=ok
func ZZC13_EmptyTag() {
	e := &zzSpanV1{}
	var t string
	t, e.id = zzHexText(1)
	e.add(`"id":"` + t + `"`)
	t, e.trace = zzHexText(1)
	e.add(`"traceId":"` + t + `"`)
	if vsym.Bool("annotation") {
		e.annos = []zzAnno{{"sr", 5, zzText(1)}}
		e.add(`"annotations":[{"value":"sr","timestamp":5,"endpoint":{"serviceName":"` + e.annos[0].service + `"}}]`)
	}
	m := `"binaryAnnotations":[`
	n := 1 + vsym.Choose("binary", 2)
	for i := 0; i < n; i++ {
		if i > 0 {
			m += ","
		}
		b := zzBin{key: []string{"sa", "lc"}[i]}
		if i == 0 && vsym.Bool("nokey") {
			b.key = ""
		}
		m += `{"key":"` + b.key + `"`
		values := 4
		if i == 1 && !vsym.Thorough() {
			values = 2
		}
		switch vsym.Choose("value", values) {
		case 1:
			m += `,"value":""`
		case 2:
			m += `,"value":null`
			b.value = "null"
		case 3:
			b.value = zzText(1)
			m += `,"value":"` + b.value + `"`
		}
		switch vsym.Choose("endpoint", 3) {
		case 1:
			m += `,"endpoint":{"serviceName":""}`
		case 2:
			b.service = zzText(1)
			m += `,"endpoint":{"serviceName":"` + b.service + `"}`
		}
		m += "}"
		e.bins = append(e.bins, b)
	}
	e.add(m + "]")
	zzParseV1(e)
}
