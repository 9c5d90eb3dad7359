package hyperjson

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

func zzHexVal(c byte) int {
	switch {
	case c >= '0' && c <= '9':
		return int(c) - '0'
	case c >= 'a' && c <= 'f':
		return int(c) - 'a' + 10
	case c >= 'A' && c <= 'F':
		return int(c) - 'A' + 10
	}
	return -1
}

func zzHex4(b []byte) int {
	v := 0
	for i := 0; i < 4; i++ {
		h := zzHexVal(b[i])
		if h < 0 {
			return -1
		}
		v = v<<4 | h
	}
	return v
}

func zzUTF8(out []byte, r int) []byte {
	switch {
	case r < 0x80:
		return append(out, byte(r))
	case r < 0x800:
		return append(out, byte(0xc0|r>>6), byte(0x80|r&0x3f))
	case r < 0x10000:
		return append(out, byte(0xe0|r>>12), byte(0x80|r>>6&0x3f), byte(0x80|r&0x3f))
	}
	return append(out, byte(0xf0|r>>18), byte(0x80|r>>12&0x3f), byte(0x80|r>>6&0x3f), byte(0x80|r&0x3f))
}

const (
	zzOk      = iota // a string of the standard
	zzError          // must be an error: not terminated, or a malformed \u escape
	zzOther          // not a string of the standard, no particular outcome required
)

// zzDecode decodes the string token at the beginning of b (behind the opening quote) as the standard says.
func zzDecode(b []byte) (out []byte, n int, kind int) {
	kind = zzOk
	// the token ends at the first quote that is not escaped
	end := -1
	for i := 0; i < len(b); i++ {
		if b[i] == '\\' {
			i++
			continue
		}
		if b[i] == '"' {
			end = i
			break
		}
	}
	if end < 0 {
		return nil, 0, zzError
	}
	for i := 0; i < end; i++ {
		c := b[i]
		if c < 0x20 {
			kind = zzOther
		}
		if c != '\\' {
			out = append(out, c)
			continue
		}
		i++
		switch b[i] {
		case '"', '\\', '/':
			out = append(out, b[i])
		case 'b':
			out = append(out, 8)
		case 'f':
			out = append(out, 12)
		case 'n':
			out = append(out, 10)
		case 'r':
			out = append(out, 13)
		case 't':
			out = append(out, 9)
		case 'u':
			if i+4 >= end {
				return nil, 0, zzError
			}
			r := zzHex4(b[i+1:])
			if r < 0 {
				return nil, 0, zzError
			}
			i += 4
			if r >= 0xd800 && r < 0xdc00 && i+6 < end && b[i+1] == '\\' && b[i+2] == 'u' {
				r2 := zzHex4(b[i+3:])
				if r2 >= 0xdc00 && r2 < 0xe000 {
					r = 0x10000 + (r-0xd800)<<10 + (r2 - 0xdc00)
					i += 6
				}
			}
			if r >= 0xd800 && r < 0xe000 {
				// a lone surrogate denotes no character; whatever replaces it, decoding goes on behind it
				return nil, 0, zzOther
			}
			out = zzUTF8(out, r)
		default:
			kind = zzOther
		}
	}
	return out, end, kind
}

// zzCheckString reads the string token '"' + body and compares it with the standard.
func zzCheckString(body []byte) {
	doc := append([]byte{'"'}, body...)
	in := append([]byte{}, doc...)
	vsym.Option("maxsteps", 200000)
	want, n, kind := zzDecode(in[1:])
	p := NewWithBytes(doc)
	tok, err := p.ReadString()
	switch kind {
	case zzOk:
		vsym.Assert(err == nil, "a valid string was rejected")
		vsym.Assert(tok.Type == TypeString, "wrong token type")
		vsym.Assert(string(tok.Value) == string(want), "wrong text")
		// the rest is what follows the closing quote
		rest := in[1+n+1:]
		t, err := p.NextType()
		if len(rest) > 0 && rest[0] == '{' {
			vsym.Assert(err == nil && t == TypeObjectBegin, "the string was not consumed exactly")
		}
		if len(rest) == 0 {
			vsym.Assert(err != nil, "more was left than there is")
		}
		vsym.Reach("ok")
	case zzError:
		vsym.Assert(err != nil, "a malformed or unterminated string was accepted")
		vsym.Reach("error")
	default:
		vsym.Reach("other")
	}
}

// a quote and 0..4 arbitrary bytes (thorough: 0..6), then a quote and an opening brace
//gosym: quick=100 thorough=900 reach=ok,error,other
func ZZC10_Raw() {
	max := 5
	if vsym.Thorough() {
		max = 7
	}
	zzCheckString(append(vsym.Bytes("b", vsym.Choose("len", max)), '"', '{'))
}

// a quote and 0..4 arbitrary bytes (thorough: 0..6) and nothing more
//gosym: quick=100 thorough=900 reach=ok,error
func ZZC10_Unterminated() {
	max := 5
	if vsym.Thorough() {
		max = 7
	}
	zzCheckString(vsym.Bytes("b", vsym.Choose("len", max)))
}

// \uXXXX with four arbitrary bytes XXXX, with one arbitrary byte in front and behind
//gosym: quick=100 thorough=300 reach=ok,error
func ZZC10_Unicode() {
	b := append([]byte{}, vsym.Bytes("pre", vsym.Choose("prelen", 2))...)
	b = append(b, '\\', 'u')
	b = append(b, vsym.Bytes("hex", 4)...)
	b = append(b, vsym.Bytes("post", vsym.Choose("postlen", 2))...)
	zzCheckString(append(b, '"', '{'))
}

func zzHexDigit(name string) byte {
	c := vsym.Byte(name)
	vsym.Assume(zzHexVal(c) >= 0)
	return c
}

// two \u escapes behind one another: the first a high surrogate \ud[89ab]XX, the second \udXXX, all digits of either case
//gosym: quick=100 thorough=600 reach=ok,other
func ZZC10_Surrogates() {
	b := []byte{'\\', 'u', 'd', zzHexDigit("h"), zzHexDigit("h"), '4'}
	if vsym.Bool("upper") {
		b[2] = 'D'
	}
	b = append(b, '\\', 'u', 'D', zzHexDigit("l"), '1', zzHexDigit("l"), '"', '{')
	zzCheckString(b)
}

// every cut of a \u escape (and of a pair of them) with arbitrary digits, and the closing quote right there
//gosym: quick=100 thorough=600 reach=ok,error,other
func ZZC10_CutEscape() {
	b := []byte{'\\', 'u', 'd', '8', zzHexDigit("h"), '4', '\\', 'u', 'd', 'c', '1', zzHexDigit("l"), 'x'}
	zzCheckString(append(b[:vsym.Choose("cut", 14)], '"', '{'))
}

// four pieces, each an arbitrary plain byte, a simple escape or \u followed by fixed digits
//gosym: quick=100 thorough=600 reach=ok
func ZZC10_Mixed() {
	var b []byte
	n := 4
	if vsym.Thorough() {
		n = 5
	}
	for i := 0; i < n; i++ {
		switch vsym.Choose("piece", 6) {
		case 0:
			c := vsym.Byte("c")
			vsym.Assume(c >= 0x20 && c != '"' && c != '\\')
			b = append(b, c)
		case 1:
			b = append(b, '\\', []byte(`"\/bfnrt`)[vsym.Choose("esc", 8)])
		case 2:
			b = append(b, `\u0000`...)
		case 3:
			b = append(b, `\u20aC`...)
		case 4:
			b = append(b, `\uD834\uDd1E`...)
		case 5:
			b = append(b, 0xc3, 0xa9)
		}
	}
	zzCheckString(append(b, '"', '{'))
}
