package codec

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

var zzUnknown = []string{"x", "", "ID", "i", "idd", "traceID", "Name", "timestampx", "tag", "kinds", "remoteEndpoint", "serviceNames", "value2", `\u0069`, `a\"b`, `\\`}

// zzInsert inserts an unknown member where doc has a ~, as the first, a middle or the last member.
func zzInsert(doc string, at int) (with, without []byte) {
	slot := 0
	for i := 0; i < len(doc); i++ {
		if doc[i] != '~' {
			with, without = append(with, doc[i]), append(without, doc[i])
			continue
		}
		if slot == at {
			first := without[len(without)-1] == '{'
			if !first {
				with = append(with, ',')
			}
			with = append(with, '"')
			few := false
			if k := vsym.Choose("key", len(zzUnknown)+1); k < len(zzUnknown) {
				with = append(with, zzUnknown[k]...)
				few = k > 0 && !vsym.Thorough()
			} else {
				a, b, c := zzPlain(), zzPlain(), zzPlain()
				vsym.Assume(!(a == 'k' && b == 'e' && c == 'y')) // known in binary annotations
				with = append(with, a, b, c)
			}
			with = append(with, '"', ':')
			if few {
				with = append(with, []string{`-1.5E+3`, `"\""`, `{"id":[{"x":"]"}]}`}[vsym.Choose("value", 3)]...)
			} else {
				with = zzValue(with)
			}
			if first && doc[i+1] != '}' {
				with = append(with, ',')
			}
		}
		slot++
	}
	return
}

func zzSlots(doc string) int {
	n := 0
	for i := range doc {
		if doc[i] == '~' {
			n++
		}
	}
	return n
}

func zzUnknownMembers(parse zzParser, docs []string) {
	doc := docs[vsym.Choose("doc", len(docs))]
	with, without := zzInsert(doc, vsym.Choose("slot", zzSlots(doc)))
	want, err := parse(zzFull(without))
	vsym.Assert(err == nil, "the document without the member is rejected")
	got, err := parse(zzFull(with))
	vsym.Assert(err == nil, "the document with an unknown member is rejected")
	zzSameSpans(want, got, "with an unknown member")
	vsym.Reach("ok")
}

// two v2 documents; one unknown member (16 names, among them prefixes, other cases and escapes of known ones, and every name of three plain bytes) as first, middle or last
// member of a span or an endpoint, with any value of the grammar of ZZC11_Skip (quick: only three values for 15 of the names)
//gosym: quick=200 thorough=600 reach=ok
func ZZC11_V2() {
	zzUnknown[13] = "y" // an escaped known name is that known name
	zzUnknownMembers(ParseJsonV2, []string{
		`[{~"traceId":"1f",~"id":"2","parentId":"3","name":"n","timestamp":15,"duration":7~,"kind":"CLIENT","tags":{"k":"v"}~,"localEndpoint":{~"serviceName":"sv"~}~},{~"id":"3"~}]`,
		`[{~},{"localEndpoint":{~},"id":"1"}]`,
	})
}

// two v1 documents; the same members in a span, an endpoint, an annotation or a binary annotation
//gosym: quick=200 thorough=600 reach=ok
func ZZC11_V1() {
	zzUnknown[13] = "y"
	zzUnknownMembers(ParseJsonV1, []string{
		`[{~"traceId":"1f",~"id":"2","annotations":[{~"timestamp":5,~"value":"cs","endpoint":{~"serviceName":"sv"~}~},{"value":"cr","timestamp":9~}],"binaryAnnotations":[{~"key":"k",~"value":"v"~,"endpoint":{~"serviceName":"sv2"}}]~},{~"id":"3"~}]`,
		`[{~},{"annotations":[{~}],"binaryAnnotations":[{~}]}]`,
	})
}

func zzDeep(parse zzParser, doc string) {
	vsym.Option("maxdepth", 100000)
	depth := []int{30, 63, 64, 65, 66, 100, 127, 128, 129, 200, 255, 256, 257, 300, 511, 512, 513, 1000}[vsym.Choose("depth", 18)]
	kind := vsym.Choose("kind", 3)
	open, end := "", ""
	for i := 0; i < depth; i++ {
		if kind == 0 || kind == 2 && i%2 == 0 {
			open += `{"a":`
			end = "}" + end
		} else {
			open += "["
			end = "]" + end
		}
	}
	value := open + string([]byte{vsym.Byte("digit")%10 + '0'}) + end
	var with, without []byte
	for i := 0; i < len(doc); i++ {
		if doc[i] != '~' {
			with, without = append(with, doc[i]), append(without, doc[i])
			continue
		}
		with = append(with, `"x":`...)
		with = append(with, value...)
		with = append(with, ',')
	}
	want, err := parse(zzFull(without))
	vsym.Assert(err == nil, "the document without the member is rejected")
	got, err := parse(zzFull(with))
	vsym.Assert(err == nil, "the document with a deeply nested unknown member is rejected")
	zzSameSpans(want, got, "with a deeply nested member")
	vsym.Reach("ok")
}

// an unknown member that nests objects, arrays or both in turn 30..1000 deep (18 depths around the powers of two) in a v1 or v2 span; the limit of encoding/json is 10000
//gosym: quick=200 thorough=600 reach=ok
func ZZC11_Deep() {
	if vsym.Bool("v1") {
		zzDeep(ParseJsonV1, `[{~"id":"2","name":"n"},{"id":"3"}]`)
	} else {
		zzDeep(ParseJsonV2, `[{~"id":"2","name":"n"},{"id":"3"}]`)
	}
}
