package codec

import (
	"errors"
	"io"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

var errZZ = errors.New("reading failed")

// zzReader gives data in the given pieces; behind them comes end (io.EOF or an error). With together set, the last
// piece comes together with end.
type zzReader struct {
	data     []byte
	pieces   []int // lengths, 0: an empty read; what remains is one more piece
	end      error
	together bool
}

func (r *zzReader) Read(p []byte) (int, error) {
	n := len(r.data)
	if len(r.pieces) > 0 {
		if r.pieces[0] < n {
			n = r.pieces[0]
		}
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.pieces) > 0 {
		r.pieces[0] -= n
		if r.pieces[0] <= 0 {
			r.pieces = r.pieces[1:]
		}
		if len(r.data) > 0 {
			return n, nil
		}
	}
	if len(r.data) == 0 && (n == 0 || r.together) {
		return n, r.end
	}
	return n, nil
}

func zzFull(b []byte) io.Reader { return &zzReader{data: b, end: io.EOF} }

// zzSameSpan asserts that two spans are equal.
func zzSameSpan(a, b proxy.Span, what string) {
	vsym.Assert(a.Id == b.Id, what+": id")
	vsym.Assert(a.Trace == b.Trace, what+": trace")
	vsym.Assert(a.Parent == b.Parent, what+": parent")
	vsym.Assert(a.Name == b.Name, what+": name")
	vsym.Assert(a.Service == b.Service, what+": service")
	vsym.Assert(a.Timestamp == b.Timestamp, what+": timestamp")
	vsym.Assert(a.Duration == b.Duration, what+": duration")
	vsym.Assert(a.Timings == b.Timings, what+": timings")
	vsym.Assert(len(a.Tags) == len(b.Tags), what+": number of tags")
	for k, v := range a.Tags {
		w, ok := b.Tags[k]
		vsym.Assert(ok, what+": tag missing")
		vsym.Assert(w == v, what+": tag value")
	}
}

func zzSameSpans(a, b []proxy.Span, what string) {
	vsym.Assert(len(a) == len(b), what+": number of spans")
	for i := range a {
		zzSameSpan(a[i], b[i], what)
	}
}

// zzCopySpans makes a deep copy (strings included).
func zzCopySpans(in []proxy.Span) []proxy.Span {
	cp := func(s string) string { return string(append([]byte{}, s...)) }
	out := make([]proxy.Span, len(in))
	for i, s := range in {
		o := s
		o.Name, o.Service = cp(s.Name), cp(s.Service)
		o.Tags = map[string]string{}
		for k, v := range s.Tags {
			o.Tags[cp(k)] = cp(v)
		}
		out[i] = o
	}
	return out
}

type zzParser func(io.Reader) ([]proxy.Span, error)
