package codec

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

// a v1, v2 or Jaeger document with one arbitrary digit in a time member of a span or annotation, written with a sign, a fraction or an exponent, in quotes, or too large by 18 to 30 digits, in the
// first or the second span: rejected; as an integer of 1..15 digits: taken
//gosym: quick=100 thorough=200 reach=ok,rejected
func ZZC26_Documents() {
	d := string([]byte{zzDigit()})
	nonzero := func() {
		vsym.Assume(d != "0")
	}
	text := ""
	good := false
	switch k := vsym.Choose("text", 17); k {
	case 0:
		text = d
		good = true
	case 1:
		nonzero()
		text = d + "00000000000000"
		good = true
	case 2:
		nonzero()
		text = d + "0000000000000000000"
		vsym.Assume(d != "1")
	default:
		text = []string{"-", "", "", "", "", "", "", "\"", "", "[", "{", "t", "", ""}[k-3]
		tail := []string{"", ".5", ".0", "e1", "E2", "e-1", "e+1", "\"", "00000000000000000000000000000", "]", "}", "", ".", ".25e2"}[k-3]
		if k-3 == 8 {
			nonzero()
		}
		text += d + tail
	}
	var doc string
	var parse zzParser
	other := ""
	switch vsym.Choose("format", 6) {
	case 0:
		parse, doc, other = ParseJsonV1, `{"id":"1","timestamp":`+text+`}`, `{"id":"2"}`
	case 1:
		parse, doc, other = ParseJsonV1, `{"id":"1","duration":`+text+`}`, `{"id":"2"}`
	case 2:
		parse, doc, other = ParseJsonV1, `{"id":"1","annotations":[{"value":"sr","timestamp":`+text+`}]}`, `{"id":"2"}`
	case 3:
		parse, doc, other = ParseJsonV2, `{"id":"1","timestamp":`+text+`}`, `{"id":"2"}`
	case 4:
		parse, doc, other = ParseJsonV2, `{"id":"1","duration":`+text+`}`, `{"id":"2"}`
	case 5:
		name := []string{"startTime", "duration"}[vsym.Choose("name", 2)]
		parse, doc, other = ParseJaeger, `{"spanID":"1","`+name+`":`+text+`}`, `{"spanID":"2"}`
	}
	if vsym.Bool("second") {
		doc = other + "," + doc
	} else {
		doc += "," + other
	}
	doc = "[" + doc + "]"
	if vsym.Bool("jaeger") {
		doc = `{"data":[{"spans":` + doc + `}]}`
	}
	vsym.Assume((doc[0] == '{') == zzIsJaeger(other))
	got, err := parse(zzFull([]byte(doc)))
	if good {
		vsym.Assert(err == nil && len(got) == 2, "an integer was rejected")
		vsym.Reach("ok")
		return
	}
	vsym.Assert(err != nil, "something that is not an unsigned 64-bit integer was accepted")
	vsym.Reach("rejected")
}

func zzIsJaeger(other string) bool { return other == `{"spanID":"2"}` }
