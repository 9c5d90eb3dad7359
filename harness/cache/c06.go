package cache

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

type zzInterned struct {
	got  string
	want []byte
}

func zzSame(s string, b []byte) bool {
	if len(s) != len(b) {
		return false
	}
	for i := range b {
		if s[i] != b[i] {
			return false
		}
	}
	return true
}

// zzIntern interns an arbitrary string of n bytes in one of the three ways; after the copying one the input is overwritten.
func zzIntern(n int) zzInterned {
	in := vsym.Bytes("s", n)
	want := append([]byte{}, in...)
	var got string
	switch vsym.Choose("how", 3) {
	case 0:
		got = String(string(in))
	case 1:
		buf := make([]byte, n+2)
		copy(buf[1:], in)
		got = StringForByteSliceCopy(buf[1 : 1+n : 1+n])
		vsym.Assert(zzSame(got, want), "interning changed the string")
		for i := range buf {
			buf[i] = 'X'
		}
	default:
		buf := append([]byte{}, in...)
		got = StringForByteSliceNoCopy(buf)
	}
	vsym.Assert(zzSame(got, want), "interning changed the string")
	return zzInterned{got, want}
}

func zzInternAll(n, maxlen int) {
	var all []zzInterned
	for i := 0; i < n; i++ {
		all = append(all, zzIntern(vsym.Choose("len", maxlen+1)))
		for _, a := range all {
			vsym.Assert(zzSame(a.got, a.want), "an interned string changed later")
		}
	}
	for _, a := range all {
		vsym.Assert(zzSame(String(string(a.want)), a.want), "a later lookup gives a different string")
		if len(a.want) > 0 && a.got == String(a.got) {
			vsym.Reach("again")
		}
	}
	vsym.Reach("done")
}

// 3 strings (thorough: 4) of 0..2 arbitrary bytes, each interned by any of the three functions, the input of the copying one
// overwritten afterwards, the real 5 MiB cache
//gosym: quick=120 thorough=900 reach=done,again
func ZZC06_History() {
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	zzInternAll(n, 2)
}

// 'X' strings: what overwritten inputs contain is itself interned
//gosym: quick=60 thorough=120 reach=done
func ZZC06_Overwritten() {
	a := zzIntern(2)
	b := String("XX")
	c := zzIntern(2)
	vsym.Assert(b == "XX", "interning changed the string")
	vsym.Assert(zzSame(a.got, a.want) && zzSame(c.got, c.want), "an interned string changed later")
	d := StringForByteSliceCopy([]byte{'X', 'X'})
	vsym.Assert(d == "XX", "interning changed the string")
	vsym.Reach("done")
}

// strings of 63, 64, 65, 4096, 8192, 8193 or 70000 bytes with arbitrary first and last byte, interned twice
//gosym: quick=60 thorough=120 reach=done
func ZZC06_Long() {
	ns := []int{63, 64, 65, 4096, 8192, 8193, 70000}
	n := ns[vsym.Choose("n", len(ns))]
	mk := func() []byte {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + i%7)
		}
		return b
	}
	a, b := mk(), mk()
	a[0], a[n-1] = vsym.Byte("first"), vsym.Byte("last")
	b[0], b[n-1] = vsym.Byte("first"), vsym.Byte("last")
	ca, cb := append([]byte{}, a...), append([]byte{}, b...)
	sa := StringForByteSliceCopy(a)
	sb := StringForByteSliceCopy(b)
	for i := range a {
		a[i], b[i] = '-', '-'
	}
	vsym.Assert(sa == string(ca) && sb == string(cb), "interning changed the string")
	sc := StringForByteSliceCopy(ca)
	vsym.Assert(sc == sa, "a later lookup gives a different string")
	vsym.Reach("done")
}
