package zipkinproxy

import (
	"bytes"
	"errors"
	"io/ioutil"
	"net/http"
	"time"

	"github.com/DataDog/dd-trace-go/tracer"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/flachnetz/go-admin"
	"github.com/flachnetz/startup/v2"
	"github.com/flachnetz/startup/v2/startup_http"
	"github.com/julienschmidt/httprouter"
	"github.com/rcrowley/go-metrics"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

type zzAgent struct {
	groups [][]*tracer.Span
}

func (a *zzAgent) SendTraces(traces [][]*tracer.Span) (*http.Response, error) {
	a.groups = append(a.groups, traces...)
	return nil, nil
}

func (a *zzAgent) SendServices(services map[string]tracer.Service) (*http.Response, error) {
	return nil, nil
}
func (a *zzAgent) SetHeader(key, value string) {}

// zzPipeline is the whole proxy as Main starts it, with a stand-in for the command line, the HTTP listener and the agent.
type zzPipeline struct {
	agent   *zzAgent
	shown   func() []proxy.Span
	handler http.Handler
}

type zzRegistry struct{ metrics.Registry }

func (zzRegistry) Register(name string, metric interface{}) error { return nil }

// zzStartProxy starts the proxy and does what is given once it listens.
func zzStartProxy(start func(), args []string, then func(p *zzPipeline)) {
	p := &zzPipeline{agent: &zzAgent{}}
	listening := false
	vsym.Replace(startup.MustParseCommandLine, func(opts interface{}) { vsym.ParseFlags(opts, args) })
	vsym.Replace(tracer.NewTransport, func(host, port string) tracer.Transport {
		vsym.Assert(host == "agent-host" && port == "8127", "traces go to another agent than the one configured")
		return p.agent
	})
	vsym.Replace(admin.WithGenericValue, func(path string, value interface{}) admin.RouteConfig {
		if f, ok := value.(func() []proxy.Span); ok && path == "/spans" {
			p.shown = f
		}
		return admin.RouteConfig{}
	})
	vsym.Replace(startup_http.HTTPOptions.Serve, func(opts startup_http.HTTPOptions, config startup_http.Config) {
		listening = true
		vsym.Settle()
		vsym.Option("delay", -1)
		p.handler = config.Routing(httprouter.New())
		then(p)
	})
	if !vsym.Native() {
		metrics.DefaultRegistry = zzRegistry{}
	}
	vsym.Option("delay", 0) // the order in which the goroutines start
	start()
	vsym.Assert(listening, "the proxy does not listen")
}

var zzAgentArgs = []string{"--trace-host=agent-host", "--trace-port=8127"}

type zzAnswer struct {
	header http.Header
	code   int
}

func (w *zzAnswer) Header() http.Header         { return w.header }
func (w *zzAnswer) Write(b []byte) (int, error) { return len(b), nil }
func (w *zzAnswer) WriteHeader(code int)        { w.code = code }

func (p *zzPipeline) post(format int, doc string) int {
	path := []string{"/api/v1/spans", "/api/v2/spans", "/api/jaeger/spans"}[format]
	w := &zzAnswer{header: http.Header{}}
	p.handler.ServeHTTP(w, zzRequest(path, http.Header{"Content-Type": []string{"application/json"}}, ioutil.NopCloser(bytes.NewReader([]byte(doc)))))
	vsym.Settle()
	return w.code
}

// zzDigits gives a number of four digits, the first one given, the last n arbitrary.
func zzDigits(first byte, n int) (string, int64) {
	b := []byte{first, '1', '2', '3'}
	for i := len(b) - n; i < len(b); i++ {
		b[i] = vsym.Byte("d")
		vsym.Assume(b[i] >= '0' && b[i] <= '9')
	}
	v := int64(0)
	for _, c := range b {
		v = 10*v + int64(c-'0')
	}
	return string(b), v
}

// zzPart is a span as it is posted, in microseconds.
type zzPart struct {
	format        int // 0 v1, 1 v2, 2 Jaeger
	id, parent    string
	kind          string // "client", "server" or none
	name, service string
	tag, value    string
	start, took   string
	startN, durN  int64
}

func zzTimes(p zzPart, digits int) zzPart {
	var s, d int64
	p.start, s = zzDigits('3', digits)
	p.took, d = zzDigits('1', digits)
	p.startN, p.durN = 1600000000000000+s, d
	p.start = "160000000000" + p.start
	if p.format == 0 && p.kind != "" {
		// the end is what is posted, maybe one before the start
		if vsym.Bool("backwards") {
			// the shortest duration is sent
			p.took, _ = zzDigits('1', digits)
			p.durN = 1
		} else {
			p.took, d = zzDigits('8', digits)
			p.durN = 1600000000000000 + d - p.startN
		}
		p.took = "160000000000" + p.took
	}
	return p
}

func (p zzPart) doc() string {
	switch p.format {
	case 0:
		s := `[{"traceId":"a1","id":"` + p.id + `","name":"` + p.name + `"`
		if p.parent != "" {
			s += `,"parentId":"` + p.parent + `"`
		}
		ep := `"endpoint":{"serviceName":"` + p.service + `"}`
		switch p.kind {
		case "client":
			s += `,"annotations":[{"timestamp":` + p.start + `,"value":"cs",` + ep + `},{"value":"cr","timestamp":` + p.took + `,` + ep + `}]`
		case "server":
			s += `,"annotations":[{"timestamp":` + p.start + `,"value":"sr",` + ep + `},{"value":"ss","timestamp":` + p.took + `,` + ep + `}]`
		default:
			s += `,"timestamp":` + p.start + `,"duration":` + p.took
		}
		return s + `,"binaryAnnotations":[{"key":"` + p.tag + `","value":"` + p.value + `",` + ep + `}]}]`
	case 1:
		s := `[{"traceId":"a1","id":"` + p.id + `","name":"` + p.name + `"`
		if p.parent != "" {
			s += `,"parentId":"` + p.parent + `"`
		}
		if p.kind != "" {
			s += `,"kind":"` + p.kind + `"`
		}
		return s + `,"timestamp":` + p.start + `,"duration":` + p.took + `,"localEndpoint":{"serviceName":"` + p.service + `"},"tags":{"` + p.tag + `":"` + p.value + `"}}]`
	}
	s := `{"data":[{"spans":[{"traceID":"a1","spanID":"` + p.id + `","operationName":"` + p.name + `","processID":"p","startTime":` + p.start + `,"duration":` + p.took
	if p.parent != "" {
		s += `,"references":[{"refType":"CHILD_OF","spanID":"` + p.parent + `"}]`
	}
	s += `,"tags":[{"key":"` + p.tag + `","type":"string","value":"` + p.value + `"}`
	if p.kind != "" {
		s += `,{"key":"span.kind","type":"string","value":"` + p.kind + `"}`
	}
	return s + `]}],"processes":{"p":{"serviceName":"` + p.service + `"}}}]}`
}

func (p zzPart) version() string { return []string{"json v1", "json v2", "jaeger"}[p.format] }

// zzNoise posts nothing or a malformed body with spans of the same trace.
func (p *zzPipeline) noise() {
	switch vsym.Choose("noise", 3) {
	case 1:
		vsym.Assert(p.post(0, `[{"traceId":"a1","id":"b2","name":"bad","parentId":"7","timestamp":1},{"traceId":"a1","id":"77"`) == 400, "a malformed body was not answered 400")
	case 2:
		vsym.Assert(p.post(2, `{"data":[{"spans":[{"traceID":"a1","spanID":"b2","operationName":"bad"},{"traceID":"a1","spanID":"77","startTime":"x"}]}]}`) == 400, "a malformed body was not answered 400")
	}
}

func zzPipelineConverter(s proxy.Span) (proxy.Span, error) {
	if s.Name == "refused" {
		return s, errors.New("refused")
	}
	s.Service = "x-" + s.Service
	s.AddTag("converted", "yes")
	return s, nil
}

// pass lets the time pass from the last span until everything must have been sent, and a minute more.
func (p *zzPipeline) pass(quiet time.Duration) {
	vsym.Advance(quiet - 1)
	vsym.Settle()
	vsym.Assert(len(p.agent.groups) == 0, "spans were sent before their trace was quiet")
	vsym.Advance(100*time.Millisecond + 4*time.Second + 1)
	vsym.Settle()
	n := len(p.agent.groups)
	vsym.Advance(20 * time.Second)
	vsym.Settle()
	vsym.Assert(len(p.agent.groups) == n, "something was sent later")
}

func zzCheckSent(got *tracer.Span, id, parent uint64, name, service string, start, dur int64, tags map[string]string) {
	vsym.Assert(got.TraceID == 0xa1 && got.SpanID == id && got.ParentID == parent, "the ids of the sent span are not the ones posted")
	vsym.Assert(got.Resource == name, "the resource of the sent span is not its name")
	vsym.Assert(got.Service == "x-"+service && got.Name == "x-"+service, "the service of the sent span is not the converted one")
	vsym.Assert(got.Start == 1000*start, "the start of the sent span is not the posted one")
	vsym.Assert(got.Duration == 1000*dur, "the duration of the sent span is not the posted one")
	vsym.Assert(len(got.Meta) == len(tags), "the sent span has other tags")
	for k, v := range tags {
		w, ok := got.Meta[k]
		vsym.Assert(ok && w == v, "the sent span has other tags")
	}
}

