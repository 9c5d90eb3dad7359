package zipkinproxy

import (
	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzSameSpan asserts that two spans are equal.
func zzSameSpan(a, b proxy.Span, what string) {
	vsym.Assert(a.Id == b.Id, what+": id")
	vsym.Assert(a.Trace == b.Trace, what+": trace")
	vsym.Assert(a.Parent == b.Parent, what+": parent")
	vsym.Assert(a.Name == b.Name, what+": name")
	vsym.Assert(a.Service == b.Service, what+": service")
	vsym.Assert(a.Timestamp == b.Timestamp, what+": timestamp")
	vsym.Assert(a.Duration == b.Duration, what+": duration")
	vsym.Assert(a.Timings == b.Timings, what+": timings")
	vsym.Assert(len(a.Tags) == len(b.Tags), what+": number of tags")
	for k, v := range a.Tags {
		w, ok := b.Tags[k]
		vsym.Assert(ok, what+": tag missing")
		vsym.Assert(w == v, what+": tag value")
	}
}
