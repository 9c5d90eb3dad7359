package codec

import (
	"bytes"
	"io"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

const zzFullSpanV1 = `{"traceId":"f1","id":"e2","parentId":"d3","name":"oldname","timestamp":111,"duration":222,` +
	`"annotations":[{"timestamp":5,"value":"cs","endpoint":{"serviceName":"oldservice1"}},{"timestamp":19,"value":"cr","endpoint":{"serviceName":"oldservice2"}},{"timestamp":6,"value":"sr","endpoint":{"serviceName":"oldservice3"}},{"timestamp":7,"value":"ss","endpoint":{"serviceName":"oldservice4"}}],` +
	`"binaryAnnotations":[{"key":"ok1","value":"ov1","endpoint":{"serviceName":"os1"}},{"key":"ok2","value":"ov2","endpoint":{"serviceName":"os2"}},{"key":"ok3","value":true,"endpoint":{"serviceName":"os3"}}]}`

const zzFullSpanV2 = `{"traceId":"f1","id":"e2","parentId":"d3","name":"oldname","timestamp":111,"duration":222,"kind":"CLIENT","tags":{"ok1":"ov1","ok2":"ov2"},"localEndpoint":{"serviceName":"oldservice"}}`

var zzCutStep = 29

func zzRepeat(s string, n int) string {
	out := "["
	for i := 0; i < n; i++ {
		if i > 0 {
			out += ","
		}
		out += s
	}
	return out + "]"
}

// zzEarlier parses one earlier request: v1 or v2, complete, malformed, cut off, with a failing reader, with duplicate members or with many spans.
func zzEarlier() []proxy.Span {
	n := 10
	switch vsym.Choose("earlier", n) {
	case 0:
		s, err := ParseJsonV1(zzFull([]byte(zzRepeat(zzFullSpanV1, 1+vsym.Choose("spans", 2)))))
		vsym.Assert(err == nil, "valid body rejected")
		return s
	case 1:
		s, err := ParseJsonV1(zzFull([]byte(zzRepeat(zzFullSpanV1, 66))))
		vsym.Assert(err == nil, "valid body rejected")
		return s
	case 2:
		doc := []byte(`[` + zzFullSpanV1 + `,` + zzFullSpanV1 + `]`)
		step := zzCutStep
		if vsym.Thorough() {
			step = 3
		}
		_, err := ParseJsonV1(zzFull(doc[:vsym.Choose("cut", len(doc)/step)*step]))
		vsym.Assert(err != nil, "cut body accepted")
	case 3:
		doc := []byte(`[` + zzFullSpanV1 + `,` + zzFullSpanV1 + `]`)
		_, err := ParseJsonV1(&zzReader{data: doc[:700], end: errZZ})
		vsym.Assert(err != nil, "body of a failing reader accepted")
	case 4:
		s, err := ParseJsonV1(zzFull([]byte(`[{"binaryAnnotations":[{"key":"a","value":"b","endpoint":{"serviceName":"x"}},{"key":"c","value":"d","endpoint":{"serviceName":"y"}}],"binaryAnnotations":[{"key":"e","value":"f"}],"annotations":[{"timestamp":9,"value":"ss"}],"annotations":[]}]`)))
		_ = err
		return s
	case 5:
		s, err := ParseJsonV2(zzFull([]byte(zzRepeat(zzFullSpanV2, 2))))
		vsym.Assert(err == nil, "valid body rejected")
		return s
	case 6:
		doc := []byte(`[` + zzFullSpanV2 + `,` + zzFullSpanV2 + `]`)
		_, err := ParseJsonV2(zzFull(doc[:vsym.Choose("cut", 7)*51]))
		vsym.Assert(err != nil, "cut body accepted")
	case 7:
		// a malformed value in the last span
		bad := []string{`{"binaryAnnotations":[{"key":"mk","value":"mv","endpoint":{"serviceName":"ms"}},{"key":1}]}`, `{"name":"mn","id":"xyz"}`, `{"annotations":[{"timestamp":3,"value":"sr","endpoint":{"serviceName":"ms"}},{"timestamp":-1}]}`}
		doc := `[` + zzFullSpanV1 + `,` + bad[vsym.Choose("bad", len(bad))] + `]`
		_, err := ParseJsonV1(zzFull([]byte(doc)))
		vsym.Assert(err != nil, "malformed body accepted")
	case 8:
		var b bytes.Buffer
		vsym.Assert(BinaryEncode(proxy.Span{Id: 1, Name: "binaryname", Service: "binaryservice", Tags: map[string]string{"bk": "bv"}}, &b) == nil, "encoding failed")
		s, err := BinaryDecode(bytes.NewReader(b.Bytes()))
		vsym.Assert(err == nil, "decoding failed")
		return []proxy.Span{s}
	case 9:
		// long tokens
		doc := append([]byte(`[{"id":"7","name":"`), bytes.Repeat([]byte("long"), 2100)...)
		doc = append(doc, `","binaryAnnotations":[{"key":"lk","value":"lv"}]}]`...)
		s, err := ParseJsonV1(zzFull(doc))
		vsym.Assert(err == nil, "valid body rejected")
		return s
	}
	return nil
}

// zzLater is the body whose spans must not depend on what was parsed before.
func zzLater() (zzParser, []byte) {
	c := vsym.Byte("c")
	vsym.Assume(c >= 'a' && c <= 'z')
	x := string([]byte{c})
	v1 := []string{
		`[{"id":"1","name":"` + x + `"}]`,
		`[{}]`,
		`[{"id":"1","annotations":[{},{"timestamp":3},{"value":"cs"},{"endpoint":{}}],"binaryAnnotations":[{},{"key":"` + x + `"},{"value":"` + x + `"},{"endpoint":{}}]}]`,
		`[{"id":"1","binaryAnnotations":[]},{"id":"2","binaryAnnotations":[{"key":"` + x + `","value":1}]},{"id":"3"}]`,
		zzRepeat(`{"binaryAnnotations":[{},{}]}`, 67),
		`[{"binaryAnnotations":[{"value":"` + x + `"}],"binaryAnnotations":[{},{}]}]`,
		`[{"annotations":[{"timestamp":8}],"annotations":[{"value":"` + x + `"},{},{},{},{"timestamp":3,"value":"cs"}]}]`,
		`[{"name":"` + x, `[{"name":`, `[`, `[{"id":"1"}`, `[]`,
	}
	v2 := []string{
		`[{"id":"1","name":"` + x + `"}]`,
		`[{}]`,
		`[{"localEndpoint":{},"tags":{},"id":null},{"tags":{"` + x + `":""}},{}]`,
		`[{"name":"` + x, `[{"name":"n"`,
	}
	if vsym.Bool("v1") {
		return ParseJsonV1, []byte(v1[vsym.Choose("doc", len(v1))])
	}
	return ParseJsonV2, []byte(v2[vsym.Choose("doc", len(v2))])
}

func zzHistory(n int) {
	parse, doc := zzLater()
	first, err := parse(zzFull(append([]byte{}, doc...)))
	want := zzCopySpans(first)
	var earlier, copies [][]proxy.Span
	for i := 0; i < n; i++ {
		s := zzEarlier()
		earlier, copies = append(earlier, s), append(copies, zzCopySpans(s))
	}
	again, err2 := parse(zzFull(append([]byte{}, doc...)))
	vsym.Assert((err == nil) == (err2 == nil), "accepted or rejected depending on earlier requests")
	zzSameSpans(want, again, "parsed after other requests")
	zzSameSpans(want, first, "returned earlier")
	for i := range earlier {
		zzSameSpans(copies[i], earlier[i], "returned earlier")
	}
	if err == nil {
		vsym.Reach("spans")
	} else {
		vsym.Reach("error")
	}
}

// any of 12 v1 and 5 v2 bodies (sparse, empty, duplicate members, cut; one arbitrary letter), parsed first and again after one (thorough: two) of 10 kinds of other requests:
// complete, 66 spans, cut off in every 29th (thorough: third) place, failing reader, duplicate members, malformed values, v2, wire format, longer than the buffer
//gosym: quick=200 thorough=900 reach=spans,error
func ZZC15_History() {
	n := 1
	if vsym.Thorough() {
		n = 2
	}
	zzHistory(n)
}

// the same with a pool that may or may not give back each of the buffers that were put into it, after one earlier request (cut off in every 170th place; thorough: every third)
//gosym: quick=200 thorough=900 reach=spans,error
func ZZC15_Pool() {
	vsym.Option("pool", 1)
	zzCutStep = 170
	zzHistory(1)
}

// the spans of the first request are not changed by a later request with other strings of the same lengths (every byte of three strings arbitrary)
//gosym: quick=100 thorough=300 reach=ok
func ZZC15_Strings() {
	mk := func() []byte {
		a, b, c := zzText(2), zzText(2), zzText(1)
		return []byte(`[{"id":"1","name":"` + a + `","tags":{"` + c + `":"` + b + `"},"binaryAnnotations":[{"key":"` + c + `","value":"` + b + `"}]}]`)
	}
	d1, d2 := mk(), mk()
	parse1, parse2 := zzParsers2(), zzParsers2()
	s1, err := parse1(&zzReader{data: d1, end: io.EOF})
	vsym.Assert(err == nil, "valid body rejected")
	want := zzCopySpans(s1)
	s2, err := parse2(&zzReader{data: d2, end: io.EOF})
	vsym.Assert(err == nil && len(s2) == 1, "valid body rejected")
	zzSameSpans(want, s1, "returned earlier")
	vsym.Reach("ok")
}

func zzParsers2() zzParser {
	return []zzParser{ParseJsonV1, ParseJsonV2}[vsym.Choose("version", 2)]
}

// zzOdd gives an annotation with any of its members missing or empty; its timestamp is any digit.
func zzOdd(first, value string) string {
	d := string([]byte{zzDigit()})
	ts, val, ep := `"timestamp":`+d, `"value":"`+value+`"`, `"endpoint":{"serviceName":"oddservice"}`
	if first == "key" {
		ts = `"key":"oddkey"`
	}
	return []string{
		`{}`, `{` + ts + `}`, `{` + val + `}`, `{` + ep + `}`, `{` + ts + `,` + val + `}`, `{` + ts + `,` + ep + `}`, `{` + val + `,` + ep + `}`,
		`{` + ts + `,` + val + `,` + ep + `}`, `{` + ts + `,"value":"","endpoint":{"serviceName":""}}`, `{"` + first + `":0}`,
	}[vsym.Choose("odd", 10)]
}

// an earlier v1 request (parsed or rejected) of one or two spans with four annotations and three binary annotations, one of which - at any place - has any of its
// members missing, empty or zero, all annotation timestamps being arbitrary digits; then five bodies with sparse annotations give what they give at first
//gosym: quick=200 thorough=900 reach=ok
func ZZC15_Sparse() {
	later := []string{
		`[{"id":"1"},{"id":"2"}]`,
		`[{"id":"1","annotations":[{},{"timestamp":3},{"value":"cs"},{"endpoint":{}}],"binaryAnnotations":[{},{"key":"x"},{"value":"x"},{"endpoint":{}}]}]`,
		`[{"id":"1","annotations":[{"value":"cs"},{"value":"cr"},{"value":"sr"},{"value":"ss"}]},{"id":"2","annotations":[{"endpoint":{}}]}]`,
		`[{"id":"1","annotations":[{"timestamp":3},{},{"timestamp":4}],"binaryAnnotations":[{"key":"x","value":"y"}]},{"id":"2","binaryAnnotations":[{},{}]}]`,
		`[{"id":"1","annotations":[{"value":"sr","timestamp":3},{"value":"ss"}]}]`,
	}[vsym.Choose("later", 5)]
	first, err := ParseJsonV1(zzFull([]byte(later)))
	vsym.Assert(err == nil, "valid body rejected")
	want := zzCopySpans(first)

	doc := "["
	n := 1 + vsym.Choose("spans", 2)
	at := vsym.Choose("at", 7)
	for i := 0; i < n; i++ {
		if i > 0 {
			doc += ","
		}
		doc += `{"id":"5","traceId":"6","annotations":[`
		for k, v := range []string{"cs", "cr", "sr", "ss"} {
			if k > 0 {
				doc += ","
			}
			if i == n-1 && k == at {
				doc += zzOdd("timestamp", v)
			} else {
				doc += `{"timestamp":` + string([]byte{zzDigit()}) + `,"value":"` + v + `","endpoint":{"serviceName":"oldservice"}}`
			}
		}
		doc += `],"binaryAnnotations":[`
		for k := 0; k < 3; k++ {
			if k > 0 {
				doc += ","
			}
			if i == n-1 && k+4 == at {
				doc += zzOdd("key", "oddvalue")
			} else {
				doc += `{"key":"oldkey","value":"oldvalue","endpoint":{"serviceName":"oldservice"}}`
			}
		}
		doc += "]}"
	}
	_, _ = ParseJsonV1(zzFull([]byte(doc + "]")))

	again, err := ParseJsonV1(zzFull([]byte(later)))
	vsym.Assert(err == nil, "accepted or rejected depending on earlier requests")
	zzSameSpans(want, again, "parsed after another request")
	vsym.Reach("ok")
}

// a first request (v1 or v2) of 1..3 spans whose id text, names, services, tag keys and values are of 20..9000 bytes (7 lengths, one of these lengths per text kind; each text of
// its own letter, one byte arbitrary), then a second one of the same shape with other letters: the spans of the first are what was in it, before and after the second
//gosym: quick=200 thorough=600 reach=ok
func ZZC15_Long() {
	long := []int{20, 130, 300, 520, 1100, 4200, 9000}[vsym.Choose("length", 7)]
	which := vsym.Choose("which", 4)
	sizes := [4]int{3, 3, 3, 3}
	sizes[which] = long
	n := 1 + vsym.Choose("spans", 3)
	v1 := vsym.Bool("v1")
	text := func(c byte, n int, sym bool) string {
		b := bytes.Repeat([]byte{c}, n)
		if sym {
			b[n/2] = zzPlain()
		}
		return string(b)
	}
	mk := func(c byte, sym bool) ([]byte, []proxy.Span) {
		doc := "["
		var want []proxy.Span
		for i := 0; i < n; i++ {
			if i > 0 {
				doc += ","
			}
			var t [4]string
			for k := range t {
				t[k] = text(c+byte(i*4+k), sizes[k], sym && k == which && i == 0)
			}
			doc += `{"id":"5","name":"` + t[0] + `",`
			s := proxy.NewSpan(t[0], 0, 5, 0)
			s.Service = t[1]
			s.Tags = map[string]string{t[2]: t[3]}
			if v1 {
				doc += `"binaryAnnotations":[{"key":"` + t[2] + `","value":"` + t[3] + `","endpoint":{"serviceName":"` + t[1] + `"}}]}`
			} else {
				doc += `"tags":{"` + t[2] + `":"` + t[3] + `"},"localEndpoint":{"serviceName":"` + t[1] + `"}}`
			}
			want = append(want, s)
		}
		return []byte(doc + "]"), want
	}
	parse := ParseJsonV2
	if v1 {
		parse = ParseJsonV1
	}
	d1, want := mk('a', true)
	d2, _ := mk('n', false)
	check := func(got []proxy.Span, when string) {
		vsym.Assert(len(got) == len(want), "not one span per element "+when)
		for i, s := range got {
			vsym.Assert(s.Name == want[i].Name, "wrong name "+when)
			vsym.Assert(s.Service == want[i].Service, "wrong service "+when)
			for k, v := range want[i].Tags {
				g, ok := s.Tags[k]
				vsym.Assert(ok, "tag missing "+when)
				vsym.Assert(g == v, "wrong tag value "+when)
			}
		}
	}
	got, err := parse(zzFull(d1))
	vsym.Assert(err == nil, "valid body rejected")
	check(got, "at first")
	_, err = parse(zzFull(d2))
	vsym.Assert(err == nil, "valid body rejected")
	check(got, "after another request")
	vsym.Reach("ok")
}
