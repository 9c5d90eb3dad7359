package proxy

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

// zzHex is the value of a hex digit or -1.
func zzHex(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c) - '0'
	case c >= 'a' && c <= 'f':
		return int(c) - 'a' + 10
	case c >= 'A' && c <= 'F':
		return int(c) - 'A' + 10
	}
	return -1
}

// every 64-bit id
//gosym: quick=100 thorough=100 reach=ok
func ZZC16_Format() {
	id := Id(vsym.Int64("id"))
	s := id.String()
	vsym.Assert(len(s) == 16, "not 16 digits")
	for i := 0; i < 16; i++ {
		c := s[i]
		v := int(uint64(id)>>uint(60-4*i)) & 15
		want := byte('0' + v)
		if v > 9 {
			want = byte('a' + v - 10)
		}
		vsym.Assert(c == want, "wrong digit")
	}
	vsym.Reach("ok")
}

// every 64-bit id of which arbitrary two (thorough: four) adjacent bytes are not fixed, through text and through JSON
//gosym: quick=100 thorough=600 reach=ok
func ZZC16_RoundTrip() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	id := Id(0x1234567890abcdef)
	if vsym.Bool("other") {
		id = Id(-0x0fedcba098765433)
	}
	sh := uint(8 * vsym.Choose("at", 9-n))
	for i := 0; i < n; i++ {
		id = id&^(Id(0xff)<<(sh+uint(8*i))) | Id(vsym.Byte("b"))<<(sh+uint(8*i))
	}
	s := id.String()
	back, err := ParseId([]byte(s))
	vsym.Assert(err == nil && back == id, "the text form does not parse back")
	js, err := id.MarshalJSON()
	vsym.Assert(err == nil, "MarshalJSON failed")
	vsym.Assert(len(js) == 18 && js[0] == '"' && js[17] == '"', "JSON form is not a quoted string")
	vsym.Assert(string(js[1:17]) == s, "JSON form differs from the text form")
	var back2 Id = 77
	vsym.Assert(back2.UnmarshalJSON(js) == nil && back2 == id, "the JSON form does not parse back")
	vsym.Reach("ok")
}

func zzCheckParse(b []byte) {
	in := append([]byte{}, b...)
	id, err := ParseId(b)
	valid := len(in) <= 16
	var want uint64
	for _, c := range in {
		h := zzHex(c)
		if h < 0 {
			valid = false
			break
		}
		want = want<<4 | uint64(h)
	}
	var target Id = -5
	js := append(append([]byte{'"'}, in...), '"')
	jerr := target.UnmarshalJSON(js)
	if valid {
		vsym.Assert(err == nil, "a valid id was rejected")
		vsym.Assert(uint64(id) == want, "wrong value")
		vsym.Assert(jerr == nil && uint64(target) == want, "wrong value from JSON")
		vsym.Reach("valid")
	} else {
		vsym.Assert(err != nil, "an invalid id was accepted")
		vsym.Assert(jerr != nil, "an invalid JSON id was accepted")
		vsym.Assert(target == -5, "the target was changed in spite of an error")
		vsym.Reach("invalid")
	}
}

// 0..4 arbitrary bytes (thorough: 0..6)
//gosym: quick=100 thorough=900 reach=valid,invalid
func ZZC16_Short() {
	max := 5
	if vsym.Thorough() {
		max = 7
	}
	zzCheckParse(vsym.Bytes("b", vsym.Choose("len", max)))
}

// 5..19 bytes: fixed hex digits except for two adjacent arbitrary bytes at any place (thorough: and a third at the end)
//gosym: quick=100 thorough=900 reach=valid,invalid
func ZZC16_Long() {
	n := 5 + vsym.Choose("len", 15)
	b := []byte("9fA07bC3d1E52846aB0c")[:n]
	at := vsym.Choose("at", n-1)
	b[at], b[at+1] = vsym.Byte("x"), vsym.Byte("y")
	if vsym.Thorough() {
		b[n-1] = vsym.Byte("z")
	}
	zzCheckParse(b)
}

// 16..20, 24, 31..34, 40, 48, 64, 65 or 1000 bytes (thorough: every length from 16 to 70), all of them hex digits (some zero at the front) or two adjacent ones arbitrary near the front, the middle or the end;
// as text and as JSON
//gosym: quick=100 thorough=900 reach=valid,invalid
func ZZC16_VeryLong() {
	lens := []int{16, 17, 18, 19, 20, 24, 31, 32, 33, 34, 40, 48, 64, 65, 1000}
	if vsym.Thorough() {
		lens = nil
		for n := 16; n <= 70; n++ {
			lens = append(lens, n)
		}
	}
	n := lens[vsym.Choose("len", len(lens))]
	b := make([]byte, n)
	for i := range b {
		b[i] = "9fA07bC3d1E52846aB0c"[i%20]
	}
	if vsym.Bool("zeros") {
		for i := 0; i < n-1; i++ {
			b[i] = '0'
		}
	}
	if at := []int{-1, 0, n/2 - 1, n - 2}[vsym.Choose("at", 4)]; at >= 0 {
		b[at], b[at+1] = vsym.Byte("x"), vsym.Byte("y")
	}
	zzCheckParse(b)
	id := Id(77)
	err := id.UnmarshalJSON(append(append([]byte{'"'}, b...), '"'))
	if n > 16 {
		vsym.Assert(err != nil, "a long id was accepted in JSON")
	}
	if want, werr := ParseId(b); werr == nil {
		vsym.Assert(err == nil && id == want, "JSON and text differ")
	} else {
		vsym.Assert(err != nil && id == 77, "JSON and text differ")
	}
}

// JSON forms of 0..4 arbitrary bytes: everything that is not a quoted valid id is rejected and leaves the target alone
//gosym: quick=100 thorough=300 reach=valid,invalid
func ZZC16_JSON() {
	b := vsym.Bytes("b", vsym.Choose("len", 5))
	in := append([]byte{}, b...)
	n := len(in)
	var target Id = -5
	err := target.UnmarshalJSON(b)
	valid := n >= 2 && in[0] == '"' && in[n-1] == '"'
	var want uint64
	for i := 1; i < n-1; i++ {
		h := zzHex(in[i])
		if h < 0 {
			valid = false
			break
		}
		want = want<<4 | uint64(h)
	}
	if valid {
		vsym.Assert(err == nil && uint64(target) == want, "a valid JSON id was not read")
		vsym.Reach("valid")
	} else {
		vsym.Assert(err != nil, "an invalid JSON id was accepted")
		vsym.Assert(target == -5, "the target was changed in spite of an error")
		vsym.Reach("invalid")
	}
}
