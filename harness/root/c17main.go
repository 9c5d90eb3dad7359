package zipkinproxy

import (
	"bytes"
	"compress/gzip"
	"io/ioutil"
	"net/http"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// the whole proxy gets one body for each of the three endpoints, plain or compressed, of 0..2 spans of two traces with one arbitrary id digit each, that is valid, cut off, or has a malformed span behind the valid ones, then a valid one for
// another endpoint: each is answered 202 or 400, and exactly the spans of the valid ones are sent to the agent and shown by the buffer
//gosym: quick=200 thorough=600 reach=accepted,rejected
func ZZC17_Proxy() {
	zzStartProxy(func() { Main(zzPipelineConverter) }, zzAgentArgs, func(p *zzPipeline) {
		vsym.Advance(30 * time.Millisecond)
		format := vsym.Choose("format", 3)
		n := vsym.Choose("spans", 3)
		broken := vsym.Choose("broken", 3)
		doc := `[`
		var ids []uint64
		for i := 0; i < n; i++ {
			if i > 0 {
				doc += ","
			}
			d := vsym.Byte("digit")
			vsym.Assume(d >= '1' && d <= '9')
			ids = append(ids, uint64(d-'0'))
			traceKey, idKey := "traceId", "id"
			if format == 2 {
				traceKey, idKey = "traceID", "spanID"
			}
			doc += `{"` + traceKey + `":"a` + string([]byte{byte('1' + i)}) + `","` + idKey + `":"` + string([]byte{d}) + `"}`
		}
		switch broken {
		case 1:
			if n > 0 {
				doc += ","
			}
			doc += `{"duration":-1,"startTime":-1}]`
		default:
			doc += `]`
		}
		if format == 2 {
			doc = `{"data":[{"spans":` + doc + `}]}`
		}
		if broken == 2 {
			doc = doc[:len(doc)-1]
		}
		h := http.Header{"Content-Type": []string{"application/json"}}
		body := []byte(doc)
		if broken == 0 && vsym.Bool("compressed") {
			// the ids are bytes of the content
			for i := range body {
				body[i] = byte(vsym.Concrete(int(body[i])))
			}
			h.Set("Content-Encoding", "gzip")
			var buf bytes.Buffer
			z := gzip.NewWriter(&buf)
			_, _ = z.Write(body)
			_ = z.Close()
			body = buf.Bytes()
		}
		w := &zzAnswer{header: http.Header{}}
		p.handler.ServeHTTP(w, zzRequest([]string{"/api/v1/spans", "/api/v2/spans", "/api/jaeger/spans"}[format], h, ioutil.NopCloser(bytes.NewReader(body))))
		vsym.Settle()
		other := (format + 1) % 3
		plain := `[{"traceId":"b1","id":"f"}]`
		if other == 2 {
			plain = `{"data":[{"spans":[{"traceID":"b1","spanID":"f"}]}]}`
		}
		vsym.Assert(p.post(other, plain) == 202, "a valid body was not answered 202")
		vsym.Advance(20 * time.Second)
		vsym.Settle()
		want := 1
		if broken == 0 {
			vsym.Assert(w.code == 202, "a valid body was not answered 202")
			vsym.Reach("accepted")
			want += n
		} else {
			vsym.Assert(w.code == 400, "a malformed body was not answered 400")
			vsym.Reach("rejected")
		}
		vsym.Assert(len(p.agent.groups) == want, "not exactly the traces of the valid bodies were sent")
		for _, g := range p.agent.groups {
			vsym.Assert(len(g) == 1, "not exactly the spans of the valid bodies were sent")
			if g[0].TraceID == 0xb1 {
				vsym.Assert(g[0].SpanID == 15, "another span was sent than posted")
			} else {
				i := int(g[0].TraceID - 0xa1)
				vsym.Assert(i >= 0 && i < n && g[0].SpanID == ids[i], "another span was sent than posted")
			}
		}
		vsym.Assert(len(p.shown()) == want, "the buffer does not show the spans of the valid bodies")
	})
}
