package codec

import (
	"bytes"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
)

const zzMaxAlloc = 1 << 20

// zzTotal decodes data and checks that this ends with a span or an error.
func zzTotal(data []byte) {
	vsym.Option("maxalloc", zzMaxAlloc)
	vsym.Option("maxsteps", 200000)
	r := bytes.NewReader(data)
	_, err := BinaryDecode(r)
	if err != nil {
		vsym.Reach("error")
	} else {
		vsym.Reach("span")
	}
}

// 0..9 arbitrary bytes (thorough: 0..13) from the start of the message, that is in the ids and string lengths
//gosym: quick=100 thorough=900 reach=error
func ZZC02_Head() {
	max := 10
	if vsym.Thorough() {
		max = 14
	}
	zzTotal(vsym.Bytes("b", vsym.Choose("len", max)))
}

// 11 or 12 bytes with the continuation bit set followed by two arbitrary bytes: over-long integers
//gosym: quick=60 thorough=60 reach=error
func ZZC02_OverlongInt() {
	n := 9 + vsym.Choose("long", 5)
	var data []byte
	for i := 0; i < n; i++ {
		data = append(data, vsym.Byte("c")|0x80)
	}
	data = append(data, vsym.Bytes("b", 2)...)
	zzTotal(data)
}

// valid ids, then 1..7 arbitrary bytes (thorough: 1..10): string lengths of every 64-bit value a varint of that length can say,
// and 5 zero bytes behind them
//gosym: quick=100 thorough=900 reach=error
func ZZC02_Strings() {
	max := 7
	if vsym.Thorough() {
		max = 10
	}
	data := []byte{2, 2, 2}
	data = append(data, vsym.Bytes("b", 1+vsym.Choose("len", max))...)
	data = append(data, 0, 0, 0, 0, 0, 0, 0)
	zzTotal(data)
}

// a string length given by a complete ten byte varint: every 64-bit length
//gosym: quick=60 thorough=60 reach=error
func ZZC02_AnyLength() {
	data := []byte{2, 2, 2}
	for i := 0; i < 9; i++ {
		data = append(data, vsym.Byte("b")|0x80)
	}
	data = append(data, vsym.Byte("b")&0x7f, 'a', 'b', 'c')
	zzTotal(data)
}

// everything up to the tags valid, then 0..7 arbitrary bytes (thorough: 0..10) as tag map
//gosym: quick=100 thorough=900 reach=error,span
func ZZC02_Tags() {
	max := 8
	if vsym.Thorough() {
		max = 11
	}
	data := []byte{2, 2, 2, 2, 'n', 0, 2, 2, 2, 2, 2, 2}
	data = append(data, vsym.Bytes("b", vsym.Choose("len", max))...)
	zzTotal(data)
}

// a tag map whose block count is a complete ten byte varint (every 64-bit count, also negative), then four arbitrary bytes
//gosym: quick=100 thorough=300 reach=error
func ZZC02_AnyCount() {
	data := []byte{2, 2, 2, 2, 'n', 0, 2, 2, 2, 2, 2, 2}
	for i := 0; i < 9; i++ {
		data = append(data, vsym.Byte("b")|0x80)
	}
	data = append(data, vsym.Byte("b")&0x7f)
	data = append(data, vsym.Bytes("t", 4)...)
	zzTotal(data)
}

// every proper prefix of the encoding of a span with ids of up to two bytes, name and service of 0..2 bytes and 0..2 tags
//gosym: quick=100 thorough=300 reach=cut
func ZZC02_Truncated() {
	span := proxy.Span{Id: proxy.Id(vsym.Int64("id") & 0xff), Trace: 5, Parent: proxy.Id(vsym.Int64("parent"))}
	vsym.Assume(span.Parent >= -64)
	vsym.Assume(span.Parent < 128)
	span.Name = vsym.String("name", vsym.Choose("namelen", 3))
	span.Service = vsym.String("service", vsym.Choose("servicelen", 2))
	span.Timings.SR = proxy.Timestamp(vsym.Int64("sr") & 0x7f)
	n := vsym.Choose("tags", 3)
	if n > 0 {
		span.Tags = map[string]string{}
	}
	for i := 0; i < n; i++ {
		span.Tags[string([]byte{byte('a' + i)})] = vsym.String("val", vsym.Choose("vallen", 2))
	}
	var b bytes.Buffer
	vsym.Assert(BinaryEncode(span, &b) == nil, "encoding failed")
	all := b.Bytes()
	cut := vsym.Choose("cut", len(all))
	_, err := BinaryDecode(bytes.NewReader(all[:cut:cut]))
	vsym.Assert(err != nil, "a truncated message was accepted")
	vsym.Reach("cut")
}

// every prefix of a span with a name of 100, 8192 or 9000 bytes, cut near the start, the middle and the end of the name
//gosym: quick=60 thorough=60 reach=cut
func ZZC02_TruncatedLong() {
	n := []int{64, 100, 8191, 8192, 8193, 9000}[vsym.Choose("n", 6)]
	b := make([]byte, n)
	for i := range b {
		b[i] = 'x'
	}
	b[0], b[n-1] = vsym.Byte("first"), vsym.Byte("last")
	span := proxy.Span{Id: 1, Trace: 5, Parent: 7, Name: string(b)}
	var buf bytes.Buffer
	vsym.Assert(BinaryEncode(span, &buf) == nil, "encoding failed")
	all := buf.Bytes()
	cuts := []int{3, 4, 5, 6, 7, n / 2, n, n + 1, n + 2, n + 3, n + 4, n + 5, len(all) - 8, len(all) - 2, len(all) - 1}
	cut := cuts[vsym.Choose("cut", len(cuts))]
	_, err := BinaryDecode(bytes.NewReader(all[:cut:cut]))
	vsym.Assert(err != nil, "a truncated message was accepted")
	vsym.Reach("cut")
}
