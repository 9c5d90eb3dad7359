package codec

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

// zzKnown lists the members known in each kind of object: span, endpoint, annotation, binary annotation.
var zzKnownV2 = [][]string{
	{"traceId", "id", "parentId", "name", "localEndpoint", "tags", "kind", "timestamp", "duration"},
	{"serviceName"},
}
var zzKnownV1 = [][]string{
	{"traceId", "id", "parentId", "name", "annotations", "binaryAnnotations", "timestamp", "duration"},
	{"serviceName"},
	{"timestamp", "value", "endpoint"},
	{"key", "value", "endpoint"},
}

// zzNear gives a member name close to a known one that is not known in the kind of object.
func zzNear(known [][]string, kind int) string {
	of := vsym.Choose("of", len(known))
	names := known[of]
	name := []byte(names[vsym.Choose("name", len(names))])
	here := false
	for _, k := range known[kind] {
		here = here || k == string(name)
	}
	switch vsym.Choose("change", 6) {
	case 0: // as it is, where it belongs to another kind of object
		vsym.Assume(!here)
	case 1: // other letter cases
		mask := vsym.Uint16("cases")
		vsym.Assume(mask != 0 && mask < 1<<uint(len(name)))
		for i := range name {
			if mask>>uint(i)&1 != 0 {
				name[i] ^= 0x20
			}
		}
	case 2: // one other byte
		c := zzPlain()
		i := vsym.Choose("at", len(name))
		vsym.Assume(c != name[i] && c < 0x80)
		name[i] = c
	case 3: // longer
		c := zzPlain()
		vsym.Assume(c < 0x80)
		if vsym.Bool("front") {
			name = append([]byte{c}, name...)
		} else {
			name = append(name, c)
		}
	case 4: // shorter
		if vsym.Bool("front") {
			name = name[1:]
		} else {
			name = name[:len(name)-1]
		}
	case 5: // letters that are the same in some case folding
		i, ok := 0, false
		for i = range name {
			if name[i] == 's' || name[i] == 'k' {
				ok = true
				break
			}
		}
		vsym.Assume(ok)
		fold := "\u017f"
		if name[i] == 'k' {
			fold = "\u212a"
		}
		name = append(append(append([]byte{}, name[:i]...), fold...), name[i+1:]...)
	}
	for _, k := range known[kind] {
		vsym.Assume(k != string(name))
	}
	return string(name)
}

// zzNearMember compares the document with an unknown member at one of its marks (0..3: kind of object) to the one without.
func zzNearMember(parse zzParser, known [][]string, doc string) {
	var marks []int
	for i := range doc {
		if doc[i] == '~' {
			marks = append(marks, i)
		}
	}
	at := marks[vsym.Choose("slot", len(marks))]
	name := zzNear(known, int(doc[at+1]-'0'))
	value := []string{`"ff"`, `7`, `{"serviceName":"zz"}`, `[{"value":"sr","timestamp":1,"key":"q"}]`, `null`}[vsym.Choose("value", 5)]
	var with, without []byte
	for i := 0; i < len(doc); i++ {
		if doc[i] == '~' {
			if i == at {
				with = append(append(append(append(append(with, `,"`...), name...), `":`...), value...))
			}
			i++
			continue
		}
		with, without = append(with, doc[i]), append(without, doc[i])
	}
	want, err := parse(zzFull(without))
	vsym.Assert(err == nil, "the document without the member is rejected")
	got, err := parse(zzFull(with))
	vsym.Assert(err == nil, "the document with an unknown member is rejected")
	zzSameSpans(want, got, "with an unknown member")
	vsym.Reach("ok")
}

// a v2 document with an unknown member as the last one of a span or an endpoint, whose name is a known one with any letters in the other case (or
// folded), any byte replaced by any ASCII byte, a byte added or removed at either end, or one known in another kind of object; five values
//gosym: quick=200 thorough=600 reach=ok
func ZZC11_NearV2() {
	zzNearMember(ParseJsonV2, zzKnownV2,
		`[{"traceId":"1f","id":"2","parentId":"3","name":"n","timestamp":15,"duration":7,"kind":"CLIENT","tags":{"k":"v"},"localEndpoint":{"serviceName":"sv"~1}~0},{"id":"3"}]`)
}

// a v1 document, likewise in a span, an endpoint, an annotation or a binary annotation
//gosym: quick=200 thorough=600 reach=ok
func ZZC11_NearV1() {
	zzNearMember(ParseJsonV1, zzKnownV1,
		`[{"traceId":"1f","id":"2","parentId":"3","name":"n","timestamp":15,"duration":7,"annotations":[{"timestamp":5,"value":"cs","endpoint":{"serviceName":"sv"~1}~2}],"binaryAnnotations":[{"key":"k","value":"v"~3}]~0},{"id":"3"}]`)
}
