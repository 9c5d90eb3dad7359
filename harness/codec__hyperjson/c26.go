package hyperjson

import (
	"math/bits"
	"unsafe"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzCheckInt decodes text (followed by a closing bracket) as an unsigned integer.
func zzCheckInt(text []byte) {
	in := append([]byte{}, text...)
	isInt := len(in) > 0
	var v, hi uint64
	for _, c := range in {
		if c < '0' || c > '9' {
			isInt = false
			break
		}
	}
	fits := isInt
	if isInt {
		for _, c := range in {
			h, l := bits.Mul64(v, 10)
			l, carry := bits.Add64(l, uint64(c-'0'), 0)
			hi = h + carry
			if hi != 0 {
				fits = false
				break
			}
			v = l
		}
	}
	zeros := len(in) > 1 && in[0] == '0' // not a number of the standard: read exactly or rejected
	const magic = 0x1122334455667788
	var target uint64 = magic
	p := NewWithBytes(append(in, ']'))
	err := Uint64ValueDecoder(unsafe.Pointer(&target), p)
	switch {
	case fits && (!zeros || err == nil):
		vsym.Assert(err == nil, "an integer was rejected")
		vsym.Assert(target == v, "an integer was read as another one")
		t, err := p.NextType()
		vsym.Assert(err == nil && t == TypeArrayEnd, "the number was not consumed exactly")
		vsym.Reach("ok")
	case !fits:
		if err == nil && len(in) > 0 && zzPrefixEnds(in) {
			// a number followed by something else: the number is what was to be read
			return
		}
		vsym.Assert(err != nil, "something that is not an unsigned 64-bit integer was accepted")
		vsym.Reach("rejected")
	}
}

// zzPrefixEnds tells whether in is digits followed by a byte that can not be part of a number.
func zzPrefixEnds(in []byte) bool {
	for i, c := range in {
		if c < '0' || c > '9' {
			return i > 0 && c != '.' && c != 'e' && c != 'E' && c != '+' && c != '-' || c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == ',' || c == ':' || c == 0x85 || c == 0xa0 || c == '\v' || c == '\f'
		}
	}
	return false
}

// 1..6 arbitrary decimal digits (thorough: 1..9)
//gosym: quick=100 thorough=600 reach=ok
func ZZC26_Digits() {
	max := 6
	if vsym.Thorough() {
		max = 9
	}
	b := vsym.Bytes("d", 1+vsym.Choose("len", max))
	for _, c := range b {
		vsym.Assume(c >= '0' && c <= '9')
	}
	zzCheckInt(b)
}

// 1..4 arbitrary bytes (thorough: 1..5)
//gosym: quick=100 thorough=600 reach=ok,rejected
func ZZC26_Bytes() {
	max := 4
	if vsym.Thorough() {
		max = 5
	}
	zzCheckInt(vsym.Bytes("b", 1+vsym.Choose("len", max)))
}

// 17..22 digits around the limits of 63 and 64 bits: a fixed start, then three arbitrary digits (thorough: four)
//gosym: quick=100 thorough=600 reach=ok,rejected
func ZZC26_Limits() {
	starts := []string{"18446744073709551", "1844674407370955", "18446744073709550", "18446744073709552", "9223372036854775", "92233720368547758", "99999999999999999", "0018446744073709551", "36893488147419103", "184467440737095516", "9999999999999999999"}
	s := starts[vsym.Choose("start", len(starts))]
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	b := []byte(s)
	for i := 0; i < n; i++ {
		c := vsym.Byte("d")
		vsym.Assume(c >= '0' && c <= '9')
		b = append(b, c)
	}
	zzCheckInt(b)
}

// two arbitrary digits in front of 18 or 19 fixed ones, and a fixed number of 20..40 digits with one arbitrary digit
//gosym: quick=100 thorough=600 reach=ok,rejected
func ZZC26_Leading() {
	d := func() byte {
		c := vsym.Byte("d")
		vsym.Assume(c >= '0' && c <= '9')
		return c
	}
	rest := []string{"446744073709551615", "446744073709551616", "000000000000000000", "999999999999999999", "8446744073709551615", "0000000000000000000"}
	if k := vsym.Choose("form", len(rest)+3); k < len(rest) {
		zzCheckInt(append([]byte{d(), d()}, rest[k]...))
	} else {
		b := []byte("1234567890123456789012345678901234567890")[:[]int{20, 21, 40}[k-len(rest)]]
		b[vsym.Choose("at", 20)] = d()
		zzCheckInt(b)
	}
}

// a sign, a fraction or an exponent in any place of a number of 1..3 arbitrary digits
//gosym: quick=100 thorough=100 reach=rejected
func ZZC26_NotInteger() {
	var b []byte
	n := 1 + vsym.Choose("len", 3)
	for i := 0; i < n; i++ {
		c := vsym.Byte("d")
		vsym.Assume(c >= '0' && c <= '9')
		b = append(b, c)
	}
	at := vsym.Choose("at", n+1)
	mark := []string{"-", "+", ".", "e", "E", ".0", "e0", "E+1", "e-1"}[vsym.Choose("mark", 9)]
	t := append(append(append([]byte{}, b[:at]...), mark...), b[at:]...)
	zzCheckInt(t)
}
