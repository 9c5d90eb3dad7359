package zipkinproxy

import (
	"bytes"
	"compress/gzip"
	"io/ioutil"
	"net/http"
	"time"

	"github.com/julienschmidt/httprouter"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// the client and the server half of a span, each in any of the three formats with arbitrary three-digit ends of its times (in v1 the end maybe before the start), posted in either order 0, 0.03 or 7.95 s apart, with or without a malformed body in
// between: exactly one span is sent to the agent, within 4.1 s after 8 s of quiet, with the client's times and the server's name, service and tags over the client's
//gosym: quick=200 thorough=900 reach=ok
func ZZC31_Halves() {
	zzStartProxy(func() { Main(zzPipelineConverter) }, zzAgentArgs, zzHalves)
}

func zzHalves(p *zzPipeline) {
	vsym.Advance(30 * time.Millisecond)
	c := zzTimes(zzPart{format: vsym.Choose("client", 3), id: "b2", kind: "client", name: "cname", service: "csvc", tag: "t", value: "c"}, 3)
	s := zzTimes(zzPart{format: vsym.Choose("server", 3), id: "b2", kind: "server", name: "sname", service: "ssvc", tag: []string{"t", "u"}[vsym.Choose("tag", 2)], value: "s"}, 3)
	parts := []zzPart{c, s}
	if vsym.Bool("server first") {
		parts = []zzPart{s, c}
	}
	vsym.Assert(p.post(parts[0].format, parts[0].doc()) == 202, "a valid body was not answered 202")
	p.noise()
	vsym.Advance([]time.Duration{0, 30 * time.Millisecond, 7950 * time.Millisecond}[vsym.Choose("apart", 3)])
	vsym.Settle()
	vsym.Assert(p.post(parts[1].format, parts[1].doc()) == 202, "a valid body was not answered 202")
	p.pass(8 * time.Second)
	tags := map[string]string{"converted": "yes", "protocolVersion": s.version(), s.tag: "s"}
	if s.tag != "t" {
		tags["t"] = "c"
	}
	parent := uint64(0)
	if c.format == 2 || s.format == 2 {
		parent = 0xb2
	}
	vsym.Assert(len(p.agent.groups) == 1 && len(p.agent.groups[0]) == 1, "not one span was sent")
	zzCheckSent(p.agent.groups[0][0], 0xb2, parent, "sname", "ssvc", c.startN, c.durN, tags)
	shown := p.shown()
	vsym.Assert(len(shown) == 1 && shown[0].Id == 0xb2 && shown[0].Service == "x-ssvc", "the buffer does not show the span")
	vsym.Reach("ok")
}

// a root span and a child, posted in any of the three formats each, in either order 0, 0.03 or 7.95 s apart, with or without a malformed body in between, the root or the child maybe refused by
// the converter: every other one is sent to the agent exactly once, in one group, as posted
//gosym: quick=200 thorough=900 reach=ok,refused
func ZZC31_Tree() {
	zzStartProxy(func() { Main(zzPipelineConverter) }, zzAgentArgs, zzTree)
}

func zzTree(p *zzPipeline) {
	vsym.Advance(30 * time.Millisecond)
	names := []string{"root", "child"}
	refused := vsym.Choose("refused", 3) - 1
	if refused >= 0 {
		names[refused] = "refused"
	}
	root := zzTimes(zzPart{format: vsym.Choose("root", 3), id: "b2", name: names[0], service: "rsvc", tag: "t", value: "r"}, 3)
	child := zzTimes(zzPart{format: vsym.Choose("child", 3), id: "c3", parent: "b2", name: names[1], service: "csvc", tag: "error", value: "true"}, 3)
	parts := []zzPart{root, child}
	if vsym.Bool("child first") {
		parts = []zzPart{child, root}
	}
	vsym.Assert(p.post(parts[0].format, parts[0].doc()) == 202, "a valid body was not answered 202")
	vsym.Advance([]time.Duration{0, 30 * time.Millisecond, 7950 * time.Millisecond}[vsym.Choose("apart", 3)])
	vsym.Settle()
	p.noise2()
	vsym.Assert(p.post(parts[1].format, parts[1].doc()) == 202, "a valid body was not answered 202")
	p.pass(8 * time.Second)
	want := 2
	if refused >= 0 {
		want = 1
		vsym.Reach("refused")
	}
	vsym.Assert(len(p.agent.groups) == 1 && len(p.agent.groups[0]) == want, "not every span of the trace was sent once, in one group")
	parent := uint64(0)
	if root.format == 2 {
		parent = 0xb2
	}
	seen := 0
	for _, s := range p.agent.groups[0] {
		if s.SpanID == 0xb2 {
			seen |= 1
			zzCheckSent(s, 0xb2, parent, "root", "rsvc", root.startN, root.durN, map[string]string{"converted": "yes", "protocolVersion": root.version(), "t": "r"})
			vsym.Assert(s.Error == 0, "flagged as error")
		} else {
			seen |= 2
			zzCheckSent(s, 0xc3, 0xb2, "child", "csvc", child.startN, child.durN, map[string]string{"converted": "yes", "protocolVersion": child.version(), "error": "true"})
			vsym.Assert(s.Error == 1, "an error is not flagged")
		}
	}
	vsym.Assert(seen == []int{3, 2, 1}[refused+1], "a span was sent twice or not at all")
	vsym.Assert(len(p.shown()) == want, "the buffer does not show the trace")
	vsym.Reach("ok")
}

// noise2 posts nothing or a malformed body.
func (p *zzPipeline) noise2() {
	if vsym.Bool("noise") {
		vsym.Assert(p.post(1, `[{"traceId":"a1","id":"c3","name":"bad"},{"traceId":"a1","id":"77","timestamp":-1}]`) == 400, "a malformed body was not answered 400")
	}
}

// a proxy without a routing of its own, or with one that adds a route and wraps the router: a span, and a request for the added route, each plain or compressed, reach their place decoded
// and by way of the wrapper, if there is one
//gosym: quick=60 thorough=60 reach=ok,compressed
func ZZC31_Routing() {
	var got []string
	wrapped := 0
	routing := func(r *httprouter.Router) http.Handler {
		r.POST("/other", func(w http.ResponseWriter, req *http.Request, ps httprouter.Params) {
			b, err := ioutil.ReadAll(req.Body)
			vsym.Assert(err == nil, "the body cannot be read")
			got = append(got, string(b))
			w.WriteHeader(299)
		})
		return http.HandlerFunc(func(w http.ResponseWriter, req *http.Request) {
			wrapped++
			r.ServeHTTP(w, req)
		})
	}
	start := func() { Main(zzPipelineConverter) }
	own := vsym.Bool("own routing")
	if own {
		start = func() { MainWithRouting(routing, zzPipelineConverter) }
	}
	zzStartProxy(start, zzAgentArgs, func(p *zzPipeline) {
		vsym.Advance(30 * time.Millisecond)
		send := func(path, body string) int {
			h := http.Header{"Content-Type": []string{"application/json"}}
			b := []byte(body)
			if vsym.Bool("compressed") {
				vsym.Reach("compressed")
				h.Set("Content-Encoding", "gzip")
				var buf bytes.Buffer
				z := gzip.NewWriter(&buf)
				_, _ = z.Write(b)
				_ = z.Close()
				b = buf.Bytes()
			}
			w := &zzAnswer{header: http.Header{}}
			p.handler.ServeHTTP(w, zzRequest(path, h, ioutil.NopCloser(bytes.NewReader(b))))
			vsym.Settle()
			return w.code
		}
		if own {
			vsym.Assert(send("/other", "hello") == 299, "the added route was not used")
		}
		vsym.Assert(send("/api/v2/spans", `[{"traceId":"a1","id":"b2","name":"n","timestamp":1600000000000000,"duration":3}]`) == 202, "a valid body was not answered 202")
		vsym.Assert(!own || wrapped == 2 && len(got) == 1 && got[0] == "hello", "a request did not go through the given routing")
		p.pass(8 * time.Second)
		vsym.Assert(len(p.agent.groups) == 1 && len(p.agent.groups[0]) == 1 && p.agent.groups[0][0].SpanID == 0xb2, "the span was not sent")
		vsym.Reach("ok")
	})
}
