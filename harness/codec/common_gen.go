package codec

import (
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

func zzDigit() byte {
	c := vsym.Byte("d")
	vsym.Assume(c >= '0' && c <= '9')
	return c
}

func zzPlain() byte {
	c := vsym.Byte("c")
	vsym.Assume(c >= 0x20 && c != '"' && c != '\\')
	return c
}

func zzNonZero() byte {
	c := vsym.Byte("d")
	vsym.Assume(c >= '1' && c <= '9')
	return c
}

// zzQuoted gives n arbitrary bytes of a string literal (every valid combination of plain bytes and two-byte escapes).
func zzQuoted(n int) []byte {
	b := make([]byte, n)
	esc := false
	for i := range b {
		c := vsym.Byte("q")
		b[i] = c
		if esc {
			vsym.Assume(c == '"' || c == '\\' || c == '/' || c == 'b' || c == 'f' || c == 'n' || c == 'r' || c == 't')
			esc = false
		} else {
			vsym.Assume(c >= 0x20 && c != '"')
			esc = c == '\\'
		}
	}
	vsym.Assume(!esc)
	return b
}

// zzScalar appends a scalar JSON value; digits and characters are arbitrary.
func zzScalar(b []byte) []byte {
	switch vsym.Choose("scalar", 18) {
	case 0:
		return append(b, `""`...)
	case 1:
		return append(b, '"', zzPlain(), zzPlain(), '"')
	case 2:
		return append(append(append(b, '"'), zzQuoted(3)...), '"')
	case 3:
		return append(b, '"', zzPlain(), '\\', 'u', '0', '0', zzHexD(), zzHexD(), '"')
	case 4:
		return append(b, `"\\\\\""`...)
	case 5:
		return append(b, `"\ud83d\uDE00}"`...)
	case 6:
		return append(b, '0')
	case 7:
		return append(b, '-', '0')
	case 8:
		return append(b, zzNonZero(), zzDigit(), zzDigit())
	case 9:
		return append(b, '-', zzNonZero(), zzDigit())
	case 10:
		return append(b, '0', '.', zzDigit(), zzDigit())
	case 11:
		return append(b, zzNonZero(), 'e', zzDigit())
	case 12:
		return append(b, zzNonZero(), '.', zzDigit(), 'E', '+', zzDigit())
	case 13:
		return append(b, '-', zzNonZero(), 'E', '-', zzDigit())
	case 14:
		return append(b, zzNonZero(), 'e', '+', zzDigit(), zzDigit())
	case 15:
		return append(b, "true"...)
	case 16:
		return append(b, "false"...)
	}
	return append(b, "null"...)
}

func zzHexD() byte {
	c := vsym.Byte("h")
	vsym.Assume(c >= '0' && c <= '9' || c >= 'a' && c <= 'f' || c >= 'A' && c <= 'F')
	return c
}

func zzSpace(b []byte) []byte {
	return append(b, []string{"", " ", "\n\t", "\r "}[vsym.Choose("space", 4)]...)
}

// zzNested appends a value that holds the scalar (or none).
func zzNested(b []byte) []byte {
	switch vsym.Choose("nested", 10) {
	case 0:
		return append(b, `[]`...)
	case 1:
		return append(b, `{}`...)
	case 2:
		return append(zzScalar(append(b, '[')), ']')
	case 3:
		return append(zzScalar(append(b, `[1,`...)), `,{}]`...)
	case 4:
		return append(zzScalar(append(b, `{"a":`...)), '}')
	case 5:
		return append(zzScalar(append(b, `{"}":[],"":`...)), `,"id":"ff"}`...)
	case 6:
		return append(zzScalar(append(b, `[[[`...)), `]],[]]`...)
	case 7:
		return append(zzScalar(append(b, ` { "a" : { "b" : `...)), "\n} }"...)
	case 8:
		return append(b, `{"a":"]","b":"}","c":"\"","\\":"{"}`...)
	}
	return append(b, '{', '"', '\\', 'u', '0', '0', zzHexD(), '1', zzPlain(), '"', ':', '[', '"', zzPlain(), '"', ',', '"', ']', '"', ']', '}')
}

func zzValue(b []byte) []byte {
	if vsym.Bool("nest") {
		return zzNested(b)
	}
	return zzScalar(b)
}

// zzHexText gives n arbitrary hex digits and their value.
func zzHexText(n int) (string, proxy.Id) {
	b := make([]byte, n)
	var v proxy.Id
	for i := range b {
		c := zzHexD()
		b[i] = c
		d := c - '0'
		if c >= 'a' {
			d = c - 'a' + 10
		} else if c >= 'A' {
			d = c - 'A' + 10
		}
		v = v<<4 | proxy.Id(d)
	}
	return string(b), v
}

// zzNumber gives n arbitrary decimal digits without a leading zero and their value.
func zzNumber(n int) (string, int64) {
	b := make([]byte, n)
	var v int64
	for i := range b {
		c := zzDigit()
		if i == 0 && n > 1 {
			vsym.Assume(c != '0')
		}
		b[i] = c
		v = v*10 + int64(c-'0')
	}
	return string(b), v
}

// zzText gives a string of n arbitrary plain bytes.
func zzText(n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = zzPlain()
	}
	return string(b)
}

// zzObject joins members in an arbitrary rotation, forward or backward (thorough: when all is set, in every order).
func zzObject(members []string, all bool) string {
	n := len(members)
	if n == 0 {
		return "{}"
	}
	order := make([]int, 0, n)
	if all && vsym.Thorough() && n <= 5 {
		rest := make([]int, n)
		for i := range rest {
			rest[i] = i
		}
		for len(rest) > 0 {
			k := vsym.Choose("member", len(rest))
			order = append(order, rest[k])
			rest = append(rest[:k], rest[k+1:]...)
		}
	} else {
		rot := 0
		back := false
		if all {
			rot, back = vsym.Choose("rotate", n), vsym.Bool("backward")
		}
		for i := 0; i < n; i++ {
			k := (i + rot) % n
			if back {
				k = n - 1 - k
			}
			order = append(order, k)
		}
	}
	s := "{"
	for i, k := range order {
		if i > 0 {
			s += ","
		}
		s += members[k]
	}
	return s + "}"
}


// zzFoldIs tells whether s is the given word in any letter case.
func zzFoldIs(s, lower string) bool {
	if len(s) != len(lower) {
		return false
	}
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c >= 'A' && c <= 'Z' {
			c += 'a' - 'A'
		}
		if c != lower[i] {
			return false
		}
	}
	return true
}

