package codec

import (
	"bytes"
	"io"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

func zzParsers() zzParser {
	return []zzParser{ParseJsonV1, ParseJsonV2}[vsym.Choose("version", 2)]
}

func zzRun(parse zzParser, r io.Reader, mustFail bool) {
	vsym.Option("maxsteps", 400000)
	vsym.Option("maxdepth", 400)
	spans, err := parse(r)
	if err == nil {
		vsym.Assert(!mustFail, "accepted")
		vsym.Reach("spans")
		_ = spans
	} else {
		vsym.Assert(len(spans) == 0, "spans in spite of an error")
		vsym.Reach("error")
	}
}

// v1 and v2: every body of 0..5 bytes (thorough: 0..8), and every body that is an opening bracket followed by 0..5 (8) arbitrary bytes
//gosym: quick=100 thorough=900 reach=spans,error
func ZZC08_Bytes() {
	max := 6
	if vsym.Thorough() {
		max = 9
	}
	var b []byte
	if vsym.Bool("bracket") {
		b = append(b, '[')
	}
	zzRun(zzParsers(), zzFull(append(b, vsym.Bytes("b", vsym.Choose("len", max))...)), false)
}

var zzHeads = []string{
	`[{`, `[{"id":`, `[{"id":"1`, `[{"traceId":nul`, `[{"name":"\`, `[{"name":"\u00`, `[{"timestamp":1`, `[{"duration":`, `[{"x":`, `[{"x":[`, `[{"x":{"y":`, `[{"x":tr`, `[{"x":-`,
	`[{"tags":{`, `[{"tags":{"a":`, `[{"kind":"`, `[{"localEndpoint":{`, `[{"localEndpoint":{"serviceName":`,
	`[{"annotations":[`, `[{"annotations":[{"value":`, `[{"annotations":[{},{},{},{},`, `[{"annotations":[{"endpoint":{`, `[{"binaryAnnotations":[`, `[{"binaryAnnotations":[{"value":`, `[{"binaryAnnotations":[{"key":"\ud83d\ude0`, `[{}`, `[{},`, `[{"id":"1"}]`,
}

// v1 and v2: 28 beginnings of documents that lead to every decoder, each followed by 0..3 arbitrary bytes (thorough: 0..5), then nothing or "}]
//gosym: quick=200 thorough=900 reach=spans,error
func ZZC08_Heads() {
	max := 4
	if vsym.Thorough() {
		max = 6
	}
	b := []byte(zzHeads[vsym.Choose("head", len(zzHeads))])
	b = append(b, vsym.Bytes("b", vsym.Choose("len", max))...)
	if vsym.Bool("closed") {
		b = append(b, `"}]`...)
	}
	zzRun(zzParsers(), zzFull(b), false)
}

// a reader that fails with an error that is not io.EOF after any number of bytes of a valid document (with or without
// the last bytes being delivered together with the error): an error unless the document was complete before
//gosym: quick=100 thorough=300 reach=error,spans
func ZZC08_ReaderError() {
	doc := []byte(`[{"id":"1","name":"n\u0041","timestamp":12,"x":[true,null,{"y":-1.5e3}],"tags":{"a":"b"}}]`)
	v1 := vsym.Bool("v1")
	if v1 {
		doc = []byte(`[{"id":"1","name":"n\u0041","timestamp":12,"x":[true,null,{"y":-1.5e3}],"annotations":[{"value":"cs","timestamp":1}],"binaryAnnotations":[{"key":"a","value":1}]}]`)
	}
	n := vsym.Choose("at", len(doc)+1)
	r := &zzReader{data: doc[:n], end: errZZ, together: vsym.Bool("together")}
	if m := vsym.Choose("piece", 4); m > 0 {
		for i := 0; i < n; i += 16 * m {
			r.pieces = append(r.pieces, 16*m)
		}
	}
	complete := n == len(doc) && !r.together
	if n == len(doc) && r.together {
		return // the document may be complete when the error is seen, or not
	}
	parse := zzParser(ParseJsonV2)
	if v1 {
		parse = ParseJsonV1
	}
	zzRun(parse, r, !complete)
}

// zzBig makes a document with one long token of n bytes.
func zzBig(kind, n int) []byte {
	fill := func(c byte) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = c
		}
		return string(b)
	}
	switch kind {
	case 0:
		return []byte(`[{"name":"` + fill('a') + `"}]`)
	case 1:
		return []byte(`[{"` + fill('k') + `":1}]`)
	case 2:
		return []byte(`[{"x":` + fill('1') + `}]`)
	case 3:
		return []byte(`[` + fill(' ') + `{"id":"1"}]`)
	case 4:
		return []byte(`[{"name":"` + fill('\\') + `"}]`)
	case 5:
		return []byte(`[{"name":"` + fill('a'))
	case 6:
		return []byte(`[{"x":` + fill('-'))
	}
	return []byte(fill(','))
}

// tokens (string, escaped string, key, number, white space; closed or not) of 8170, 8190..8193, 8200, 16384, 20000 bytes
// behind another, delivered at once or in pieces of 4096 bytes
//gosym: quick=200 thorough=600 reach=spans,error
func ZZC08_LongTokens() {
	vsym.Option("maxsteps", 3000000)
	lens := []int{8192, 8193, 20000}
	if vsym.Thorough() {
		lens = []int{8170, 8180, 8190, 8191, 8192, 8193, 8200, 16384, 20000, 66000}
	}
	doc := zzBig(vsym.Choose("kind", 8), lens[vsym.Choose("length", len(lens))])
	r := &zzReader{data: doc, end: io.EOF}
	if vsym.Bool("pieces") {
		for i := 0; i < len(doc); i += 4096 {
			r.pieces = append(r.pieces, 4096)
		}
	}
	spans, err := zzParsers()(r)
	if err == nil {
		vsym.Assert(len(spans) == 1, "not one span")
		vsym.Reach("spans")
	} else {
		vsym.Reach("error")
	}
}

// an unknown member (thorough: also at every other place) nested 200000 levels deep (replayed with 20 million levels), arrays or objects, closed or not:
// it ends without using more than a stack of 300000 frames
//gosym: quick=200 thorough=300 reach=error
func ZZC08_Deep() {
	levels := 200000
	if vsym.Native() {
		levels = 20000000
	}
	vsym.Option("maxsteps", 40000000)
	vsym.Option("maxdepth", 300000)
	open, shut := `[`, `]`
	if vsym.Bool("objects") {
		open, shut = `{"a":`, `}`
	}
	heads := []string{`[{"x":`, `[{"localEndpoint":{"x":`, `[{"annotations":[{},{},{},{},`, `[{"annotations":[{"x":`, `[{"binaryAnnotations":[{"endpoint":{"x":`}
	doc := append([]byte(heads[vsym.Choose("head", len(heads))]), bytes.Repeat([]byte(open), levels)...)
	if vsym.Bool("closed") {
		doc = append(doc, '1')
		doc = append(doc, bytes.Repeat([]byte(shut), levels)...)
	}
	_, err := zzParsers()(zzFull(doc))
	if err != nil {
		vsym.Reach("error")
	}
}

// jaeger: 14 beginnings of documents followed by 0..1 arbitrary bytes (thorough: 0..2) and nothing or "}]}]}; readers failing at any place
//gosym: quick=200 thorough=600 reach=spans,error
func ZZC08_Jaeger() {
	heads := []string{``, `{`, `{"data":`, `{"data":[`, `{"data":[{"spans":[{`, `{"data":[{"spans":[{"traceID":`, `{"data":[{"spans":[{"tags":[{"value":`, `{"data":[{"spans":[{"references":[{"spanID":"`, `{"data":[{"processes":{`, `{"data":[{"processes":{"p":`, `{"x":[`, `null`, `{}`, `{"data":[{"spans":[{"duration":1`}
	b := []byte(heads[vsym.Choose("head", len(heads))])
	max := 2
	if vsym.Thorough() {
		max = 3
	}
	b = append(b, vsym.Bytes("b", vsym.Choose("len", max))...)
	if vsym.Bool("closed") {
		b = append(b, `"}]}]}`...)
	}
	r := &zzReader{data: b, end: io.EOF}
	fail := vsym.Bool("fail")
	if fail {
		r.end = errZZ
	}
	vsym.Option("maxsteps", 400000)
	_, err := ParseJaeger(r)
	if err == nil {
		vsym.Reach("spans")
	} else {
		vsym.Reach("error")
	}
}
