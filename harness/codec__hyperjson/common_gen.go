package hyperjson

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

func zzDigit() byte {
	c := vsym.Byte("d")
	vsym.Assume(c >= '0' && c <= '9')
	return c
}

func zzPlain() byte {
	c := vsym.Byte("c")
	vsym.Assume(c >= 0x20 && c != '"' && c != '\\')
	return c
}

func zzNonZero() byte {
	c := vsym.Byte("d")
	vsym.Assume(c >= '1' && c <= '9')
	return c
}

// zzQuoted gives n arbitrary bytes of a string literal (every valid combination of plain bytes and two-byte escapes).
func zzQuoted(n int) []byte {
	b := make([]byte, n)
	esc := false
	for i := range b {
		c := vsym.Byte("q")
		b[i] = c
		if esc {
			vsym.Assume(c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
			esc = false
		} else {
			vsym.Assume(c >= 0x20 && c != '"')
			esc = c == '\\'
		}
	}
	vsym.Assume(!esc)
	return b
}

// zzScalar appends a scalar JSON value; digits and characters are arbitrary.
func zzScalar(b []byte) []byte {
	switch vsym.Choose("scalar", 18) {
	case 0:
		return append(b, `""`...)
	case 1:
		return append(b, '"', zzPlain(), zzPlain(), '"')
	case 2:
		return append(append(append(b, '"'), zzQuoted(3)...), '"')
	case 3:
		return append(b, '"', zzPlain(), '\\', 'u', '0', '0', zzHexD(), zzHexD(), '"')
	case 4:
		return append(b, `"\\\\\""`...)
	case 5:
		return append(b, `"\ud83d\uDE00}"`...)
	case 6:
		return append(b, '0')
	case 7:
		return append(b, '-', '0')
	case 8:
		return append(b, zzNonZero(), zzDigit(), zzDigit())
	case 9:
		return append(b, '-', zzNonZero(), zzDigit())
	case 10:
		return append(b, '0', '.', zzDigit(), zzDigit())
	case 11:
		return append(b, zzNonZero(), 'e', zzDigit())
	case 12:
		return append(b, zzNonZero(), '.', zzDigit(), 'E', '+', zzDigit())
	case 13:
		return append(b, '-', zzNonZero(), 'E', '-', zzDigit())
	case 14:
		return append(b, zzNonZero(), 'e', '+', zzDigit(), zzDigit())
	case 15:
		return append(b, "true"...)
	case 16:
		return append(b, "false"...)
	}
	return append(b, "null"...)
}

func zzHexD() byte {
	c := vsym.Byte("h")
	vsym.Assume(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')
	return c
}

func zzSpace(b []byte) []byte {
	return append(b, []string{"", " ", "\n\t", "\r "}[vsym.Choose("space", 4)]...)
}

// zzNested appends a value that holds the scalar (or none).
func zzNested(b []byte) []byte {
	switch vsym.Choose("nested", 10) {
	case 0:
		return append(b, `[]`...)
	case 1:
		return append(b, `{}`...)
	case 2:
		return append(zzScalar(append(b, '[')), ']')
	case 3:
		return append(zzScalar(append(b, `[1,`...)), `,{}]`...)
	case 4:
		return append(zzScalar(append(b, `{"a":`...)), '}')
	case 5:
		return append(zzScalar(append(b, `{"}":[],"":`...)), `,"id":"ff"}`...)
	case 6:
		return append(zzScalar(append(b, `[[[`...)), `]],[]]`...)
	case 7:
		return append(zzScalar(append(b, ` { "a" : { "b" : `...)), "\n} }"...)
	case 8:
		return append(b, `{"a":"]","b":"}","c":"\"","\\":"{"}`...)
	}
	return append(b, '{', '"', '\\', 'u', '0', '0', zzHexD(), '1', zzPlain(), '"', ':', '[', '"', zzPlain(), '"', ',', '"', ']', '"', ']', '}')
}

func zzValue(b []byte) []byte {
	if vsym.Bool("nest") {
		return zzNested(b)
	}
	return zzScalar(b)
}
