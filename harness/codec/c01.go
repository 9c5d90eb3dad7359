package codec

import (
	"bytes"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

func zzTagsEqual(a, b map[string]string) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		w, ok := b[k]
		if !ok || w != v {
			return false
		}
	}
	return true
}

func zzCheckRound(span proxy.Span, got proxy.Span) {
	vsym.Assert(got.Id == span.Id, "id changed")
	vsym.Assert(got.Trace == span.Trace, "trace changed")
	vsym.Assert(got.Parent == span.Parent, "parent changed")
	vsym.Assert(got.Name == span.Name, "name changed")
	vsym.Assert(got.Service == span.Service, "service changed")
	vsym.Assert(got.Timestamp == span.Timestamp, "timestamp changed")
	vsym.Assert(got.Duration == span.Duration, "duration changed")
	vsym.Assert(got.Timings.CS == span.Timings.CS, "cs changed")
	vsym.Assert(got.Timings.CR == span.Timings.CR, "cr changed")
	vsym.Assert(got.Timings.SS == span.Timings.SS, "ss changed")
	vsym.Assert(got.Timings.SR == span.Timings.SR, "sr changed")
	vsym.Assert(zzTagsEqual(got.Tags, span.Tags), "tags changed")
}

func zzEncode(span proxy.Span, w *bytes.Buffer) {
	vsym.Assert(BinaryEncode(span, w) == nil, "encoding failed")
}

func zzDecode(r *bytes.Reader) proxy.Span {
	got, err := BinaryDecode(r)
	vsym.Assert(err == nil, "decoding the encoded span failed")
	return got
}

// zzLen picks a string length among the boundaries of the implementation (pool slices, varint sizes, typical buffers).
func zzLen(name string) int {
	lens := []int{0, 1, 2, 3, 31, 32, 33, 63, 64, 65, 127, 128, 129}
	if vsym.Thorough() {
		lens = append(lens, 5, 16, 255, 256, 257, 511, 512, 513, 1000, 1024)
	}
	return lens[vsym.Choose(name, len(lens))]
}

// name and service with all byte contents, both lengths in {0,1,2,3,31..33,63..65,127..129} (thorough: up to 1024)
//gosym: quick=60 thorough=600 reach=ok
func ZZC01_Strings() {
	span := proxy.Span{Id: 1, Trace: 2, Parent: 3}
	span.Name = vsym.String("name", zzLen("namelen"))
	span.Service = vsym.String("service", zzLen("servicelen"))
	var b bytes.Buffer
	zzEncode(span, &b)
	r := bytes.NewReader(b.Bytes())
	got := zzDecode(r)
	zzCheckRound(span, got)
	vsym.Assert(r.Len() == 0, "decoding left bytes over")
	vsym.Reach("ok")
}

// zzLong is a string of n bytes with arbitrary bytes at the places where implementations cut: around multiples of
// 64 near both ends, around powers of two, and a fixed pattern elsewhere.
func zzLong(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte('a' + i%23)
	}
	for _, p := range []int{0, 1, 63, 64, 65, 127, 128, 255, 256, 511, 512, 1023, 1024, 4095, 4096, 8191, 8192, 32767, 32768, 65535, 65536, n - 65, n - 64, n - 2, n - 1} {
		if p >= 0 && p < n {
			b[p] = vsym.Byte(name)
		}
	}
	return string(b)
}

// one name of 8191, 8192, 8193, 20000 or 70000 bytes (thorough: also around 32768, 65536, and 300000) and one tag value of such a length; about
// 25 positions of each are arbitrary bytes (both ends, around 64, 128, ... 65536), the rest is a fixed pattern
//gosym: quick=60 thorough=600 reach=ok
func ZZC01_LongStrings() {
	lens := []int{8191, 8192, 8193, 20000, 70000}
	if vsym.Thorough() {
		lens = append(lens, 32767, 32768, 32769, 65535, 65536, 65537, 300000)
	}
	span := proxy.Span{Id: 1, Trace: 2, Parent: 3}
	span.Name = zzLong("name", lens[vsym.Choose("namelen", len(lens))])
	span.Tags = map[string]string{"k": zzLong("value", lens[vsym.Choose("valuelen", len(lens))])}
	var b bytes.Buffer
	zzEncode(span, &b)
	r := bytes.NewReader(b.Bytes())
	got := zzDecode(r)
	zzCheckRound(span, got)
	vsym.Assert(r.Len() == 0, "decoding left bytes over")
	vsym.Reach("ok")
}

// up to two tags (thorough: three) whose keys and values have 0..2 bytes each, all contents, every map order
//gosym: quick=60 thorough=600 reach=ok,none,nil stress
func ZZC01_Tags() {
	vsym.Option("maporder", 3)
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	n = vsym.Choose("tags", n)
	span := proxy.Span{Id: 1, Trace: 2, Parent: 3, Name: "n", Service: "s"}
	if n > 0 || vsym.Bool("empty") {
		span.Tags = map[string]string{}
	} else {
		vsym.Reach("nil")
	}
	for i := 0; i < n; i++ {
		span.Tags[vsym.String("key", vsym.Choose("keylen", 3))] = vsym.String("val", vsym.Choose("vallen", 3))
	}
	var b bytes.Buffer
	zzEncode(span, &b)
	r := bytes.NewReader(b.Bytes())
	got := zzDecode(r)
	zzCheckRound(span, got)
	vsym.Assert(r.Len() == 0, "decoding left bytes over")
	if n == 0 {
		vsym.Reach("none")
	} else {
		vsym.Reach("ok")
	}
}

// a tag map of 63, 64, 65 or 70 entries, which needs two length bytes in the encoding
//gosym: quick=60 thorough=600 reach=ok
func ZZC01_ManyTags() {
	n := []int{63, 64, 65, 70}[vsym.Choose("tags", 4)]
	span := proxy.Span{Id: 1, Trace: 2, Parent: 3, Name: "n", Service: "s", Tags: map[string]string{}}
	for i := 0; i < n; i++ {
		v := "v"
		if i == 0 || i == 62 || i == 63 || i == n-1 {
			v = vsym.String("val", 1)
		}
		span.Tags[string([]byte{byte('a' + i/16), byte('a' + i%16)})] = v
	}
	var b bytes.Buffer
	zzEncode(span, &b)
	r := bytes.NewReader(b.Bytes())
	got := zzDecode(r)
	zzCheckRound(span, got)
	vsym.Assert(r.Len() == 0, "decoding left bytes over")
	vsym.Reach("ok")
}

// two spans (thorough: three) behind one another in one buffer, ids 0..255, names of 0..1 bytes, at most one tag with a value of 0..2 bytes, all contents
//gosym: quick=60 thorough=600 reach=ok
func ZZC01_Sequence() {
	n := 2
	if vsym.Thorough() {
		n = 3
	}
	var spans []proxy.Span
	var b bytes.Buffer
	for i := 0; i < n; i++ {
		s := proxy.Span{Id: proxy.Id(vsym.Int64("id") & 0xff), Trace: proxy.Id(i + 100), Parent: 7}
		s.Name = vsym.String("name", vsym.Choose("namelen", 2))
		if vsym.Bool("tagged") {
			s.Tags = map[string]string{"k": vsym.String("val", vsym.Choose("vallen", 3))}
		}
		spans = append(spans, s)
		zzEncode(s, &b)
	}
	r := bytes.NewReader(b.Bytes())
	var got []proxy.Span
	for range spans {
		got = append(got, zzDecode(r))
	}
	vsym.Assert(r.Len() == 0, "decoding left bytes over")
	for i := range spans {
		zzCheckRound(spans[i], got[i])
	}
	vsym.Reach("ok")
}

// every one of the ten integer fields ranges over all 64-bit values (one at a time, the others over a byte), strings empty
//gosym: quick=60 thorough=300 reach=ok
func ZZC01_Ints() {
	var v [10]int64
	k := vsym.Choose("field", 10)
	for i := range v {
		if i == k {
			v[i] = vsym.Int64("value")
		} else {
			v[i] = int64(3*i) - 11
		}
	}
	span := proxy.Span{Id: proxy.Id(v[0]), Trace: proxy.Id(v[1]), Parent: proxy.Id(v[2]), Timestamp: proxy.Timestamp(v[3]), Duration: time.Duration(v[4]),
		Timings: proxy.Timings{CS: proxy.Timestamp(v[5]), CR: proxy.Timestamp(v[6]), SS: proxy.Timestamp(v[7]), SR: proxy.Timestamp(v[8])}}
	var b bytes.Buffer
	zzEncode(span, &b)
	r := bytes.NewReader(b.Bytes())
	got := zzDecode(r)
	zzCheckRound(span, got)
	vsym.Assert(r.Len() == 0, "decoding left bytes over")
	vsym.Reach("ok")
}
