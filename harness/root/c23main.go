package zipkinproxy

import (
	"strings"
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// the whole proxy gets 1..3 spans of one trace (a root and its children) in one body; its converter keeps each of them, changes everything but its ids, fails, or takes the id or the trace id away, in any combination:
// the agent and the buffer get the same spans, exactly the converted ones
//gosym: quick=100 thorough=300 reach=ok,none
func ZZC23_Proxy() {
	converter := func(s proxy.Span) (proxy.Span, error) {
		switch s.Name[:1] {
		case "e":
			return s, zzMainError{}
		case "i":
			s.Id = 0
		case "t":
			s.Trace = 0
		case "c":
			s.Service, s.Name = "other", "changed"+s.Name[1:]
			s.Duration += 1000
		}
		return s, nil
	}
	n := 1 + vsym.Choose("spans", 3)
	kinds := ""
	doc := "["
	for i := 0; i < n; i++ {
		k := "kceit"[vsym.Choose("result", 5)]
		kinds += string([]byte{k})
		if i > 0 {
			doc += `,{"parentId":"1",`
		} else {
			doc += "{"
		}
		c := string([]byte{byte('1' + i)})
		doc += `"traceId":"a1","id":"` + c + `","name":"` + string([]byte{k}) + c + `","timestamp":1600000000000000,"duration":5,"localEndpoint":{"serviceName":"sv"}}`
	}
	zzStartProxy(func() { Main(converter) }, zzAgentArgs, func(p *zzPipeline) {
		vsym.Advance(30 * time.Millisecond)
		vsym.Assert(p.post(1, doc+"]") == 202, "a valid body was not answered 202")
		vsym.Advance(20 * time.Second)
		vsym.Settle()
		sent := 0
		for _, g := range p.agent.groups {
			for _, s := range g {
				sent++
				i := int(s.SpanID) - 1
				vsym.Assert(s.TraceID == 0xa1 && i >= 0 && i < n && strings.Contains("kc", kinds[i:i+1]), "a span was sent that the converter refused")
				c := string([]byte{byte('1' + i)})
				if kinds[i] == 'k' {
					vsym.Assert(s.Service == "sv" && s.Resource == "k"+c && s.Duration == 5000, "not the converter's span was sent")
				} else {
					vsym.Assert(s.Service == "other" && s.Resource == "changed"+c && s.Duration == 6000, "not the converter's span was sent")
				}
				kinds = kinds[:i] + "x" + kinds[i+1:]
			}
		}
		vsym.Assert(!strings.ContainsAny(kinds, "kc"), "a span was not sent")
		shown := p.shown()
		vsym.Assert(len(shown) == sent, "the buffer shows another number of spans than were sent")
		for _, s := range shown {
			i := int(s.Id) - 1
			vsym.Assert(s.Trace == 0xa1 && i >= 0 && i < n && kinds[i] == 'x', "the buffer shows a span that was not sent")
			vsym.Assert(s.Service == "sv" || s.Service == "other" && s.Name[:7] == "changed", "the buffer does not show the converter's span")
			kinds = kinds[:i] + "y" + kinds[i+1:]
		}
		if sent > 0 {
			vsym.Reach("ok")
		} else {
			vsym.Reach("none")
		}
	})
}

type zzMainError struct{}

func (zzMainError) Error() string { return "refused" }
