package codec

import (
	"io"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

var zzDocV2 = `[{"traceId":"1f","id":"2","parentId":null,"name":"n\u00e9","timestamp":1500000000000001,"duration":7,"kind":"CLIENT","tags":{"k":"v","http\/x":""},"localEndpoint":{"serviceName":"sv","port":80},"shared":false},{"id":"3"}]`
var zzDocV1 = `[{"traceId":"1f","id":"2","name":"n\u00e9","annotations":[{"timestamp":5,"value":"cs","endpoint":{"serviceName":"sv"}},{"value":"cr","timestamp":9}],"binaryAnnotations":[{"key":"k","value":12.5e1},{"key":"b","value":true}]},{"id":"3","debug":[null]}]`

func zzDoc() (zzParser, []byte) {
	if vsym.Bool("v1") {
		return ParseJsonV1, []byte(zzDocV1)
	}
	return ParseJsonV2, []byte(zzDocV2)
}

// a v1 and a v2 document of 240 bytes, one byte of it arbitrary (thorough: any byte; quick: every ninth), cut anywhere within five bytes around it,
// or into pieces of 1, 2, 3, 7 bytes with or without empty reads; end of input together with the last piece or behind it
//gosym: quick=300 thorough=900 reach=ok,failed
func ZZC09_Spans() {
	parse, doc := zzDoc()
	step := 9
	if vsym.Thorough() {
		step = 1
	}
	at := vsym.Choose("at", len(doc)/step) * step
	doc[at] = vsym.Byte("c")
	want, err1 := parse(zzFull(append([]byte{}, doc...)))
	r := &zzReader{data: append([]byte{}, doc...), end: io.EOF, together: vsym.Bool("together")}
	if k := vsym.Choose("pieces", 12); k < 4 {
		for i := 0; i < len(doc); i++ {
			r.pieces = append(r.pieces, []int{1, 2, 3, 7}[k])
			if i%3 == 0 {
				r.pieces = append(r.pieces, 0)
			}
		}
	} else {
		n := at + k - 6
		if n < 1 {
			n = 1
		}
		r.pieces = []int{n}
	}
	got, err2 := parse(r)
	vsym.Assert((err1 == nil) == (err2 == nil), "accepted or not depending on how the body arrives")
	if err1 != nil {
		vsym.Reach("failed")
		return
	}
	zzSameSpans(want, got, "cut body")
	vsym.Reach("ok")
}

// a v1 and a v2 document with two arbitrary bytes in its strings, preceded by white space, an unknown string or an empty array so long
// that any place of it (thorough: any, quick: every third) lies at the end of the parser's buffer of 8192 bytes
//gosym: quick=300 thorough=900 reach=ok
func ZZC09_Buffer() {
	parse, doc := zzDoc()
	doc[13] = vsym.Byte("c")
	vsym.Assume(doc[13] >= '0' && doc[13] <= '9')
	want, err := parse(zzFull(append([]byte{}, doc...)))
	vsym.Assert(err == nil, "valid document rejected")
	step := 3
	if vsym.Thorough() {
		step = 1
	}
	pad := 8192 - vsym.Choose("at", len(doc)/step)*step
	long := []byte{'['}
	kind := vsym.Choose("padding", 3)
	if kind == 1 {
		long = append(long, `{"x":"`...)
	}
	if kind == 2 {
		long = append(long, `{"x":[`...)
	}
	for len(long) < pad-1 {
		long = append(long, []byte{' ', 'y', ' '}[kind])
	}
	if kind == 1 {
		long = append(long, `",`...)
		doc = doc[1:]
	} else if kind == 2 {
		long = append(long, `],`...)
		doc = doc[1:]
	}
	long = append(long, doc[1:]...)
	got, err := parse(&zzReader{data: long, end: io.EOF, together: vsym.Bool("together")})
	vsym.Assert(err == nil, "the document is rejected when it does not fit into the buffer")
	zzSameSpans(want, got, "long body")
	vsym.Reach("ok")
}

// a span whose name is 8100..8300 bytes long (any length around 8192, and 20000) with three arbitrary bytes where buffers end, in pieces of 1000 bytes or at once
//gosym: quick=300 thorough=900 reach=ok
func ZZC09_LongName() {
	lens := []int{8150, 8180, 8181, 8182, 8183, 8184, 8191, 8192, 8193, 8200, 16383, 16448, 20000}
	n := lens[vsym.Choose("length", len(lens))]
	name := make([]byte, n)
	for i := range name {
		name[i] = byte('a' + i%26)
	}
	for _, i := range []int{0, 8180, n - 1} {
		if i < n {
			c := vsym.Byte("c")
			vsym.Assume(c >= 0x20 && c != '"' && c != '\\')
			name[i] = c
		}
	}
	doc := append([]byte(`[{"id":"1","name":"`), name...)
	doc = append(doc, `","duration":4}]`...)
	r := &zzReader{data: doc, end: io.EOF}
	if vsym.Bool("pieces") {
		for i := 0; i < len(doc); i += 1000 {
			r.pieces = append(r.pieces, 1000)
		}
	}
	parse := zzParser(ParseJsonV2)
	if vsym.Bool("v1") {
		parse = ParseJsonV1
	}
	spans, err := parse(r)
	vsym.Assert(err == nil && len(spans) == 1, "a span with a long name is rejected")
	vsym.Assert(spans[0].Name == string(name), "the long name was changed")
	vsym.Assert(spans[0].Id == 1 && spans[0].Duration == 4000, "what surrounds the long name was changed")
	vsym.Reach("ok")
}
