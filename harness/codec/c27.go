package codec

import (
	"bytes"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

type zzJob struct {
	run  func() ([]proxy.Span, error)
	want []proxy.Span
	ok   bool
}

func zzJobs() []*zzJob {
	parse := func(p zzParser, doc string) func() ([]proxy.Span, error) {
		return func() ([]proxy.Span, error) { return p(zzFull([]byte(doc))) }
	}
	decode := func(s proxy.Span) func() ([]proxy.Span, error) {
		return func() ([]proxy.Span, error) {
			var b bytes.Buffer
			if err := BinaryEncode(s, &b); err != nil {
				return nil, err
			}
			got, err := BinaryDecode(bytes.NewReader(b.Bytes()))
			return []proxy.Span{got}, err
		}
	}
	v1 := []string{
		`[{"id":"a","traceId":"1","name":"n1","annotations":[{"timestamp":5,"value":"cs","endpoint":{"serviceName":"s1"}},{"timestamp":9,"value":"cr"}],"binaryAnnotations":[{"key":"k1","value":"v1"}]}]`,
		`[{"id":"b","name":"n2","binaryAnnotations":[{"key":"k2","value":"v2","endpoint":{"serviceName":"s2"}},{"key":"k1","value":true}]},{"id":"c","name":"n1"}]`,
		`[{"id":"a","binaryAnnotations":[{"key":"k3","value":"v3","endpoint":{"serviceName":"s3"}},{"key":7`,
	}
	v2 := []string{
		`[{"id":"a","traceId":"2","name":"n1","kind":"CLIENT","timestamp":3,"tags":{"k1":"v1"},"localEndpoint":{"serviceName":"s1"}}]`,
		`[{"id":"d","name":"n3"},{"id":"e","name":"n4","tags":{"k4":"v4`,
	}
	jaeger := []string{`{"data":[{"spans":[{"traceID":"1","spanID":"2","operationName":"n1","startTime":7,"duration":9,"processID":"p1","tags":[{"key":"k1","type":"string","value":"v1"}]}],"processes":{"p1":{"serviceName":"s1"}}}]}`}
	var jobs []*zzJob
	for _, d := range v1 {
		jobs = append(jobs, &zzJob{run: parse(ParseJsonV1, d)})
	}
	for _, d := range v2 {
		jobs = append(jobs, &zzJob{run: parse(ParseJsonV2, d)})
	}
	for _, d := range jaeger {
		jobs = append(jobs, &zzJob{run: parse(ParseJaeger, d)})
	}
	jobs = append(jobs, &zzJob{run: decode(proxy.Span{Id: 1, Trace: 2, Name: "n1", Service: "s1", Tags: map[string]string{"k1": "v1"}})},
		&zzJob{run: decode(proxy.Span{Id: 3, Trace: 4, Name: "n5", Service: "s2"})})
	return jobs
}

// two goroutines handle one of 8 inputs each (v1, v2, Jaeger, wire format; valid and malformed) after the same inputs were handled one after another or not:
// same result as alone, every schedule with up to 1 preemption (thorough: 2)
//gosym: quick=200 thorough=900 reach=ok stress nobubble
func ZZC27_Parsing() {
	vsym.Option("race", 1)
	p := 1
	if vsym.Thorough() {
		p = 2
	}
	vsym.Option("preempt", p)
	jobs := zzJobs()
	a := vsym.Choose("first", len(jobs))
	b := a + vsym.Choose("second", len(jobs)-a)
	two := []*zzJob{jobs[a], jobs[b]}
	results := make([][]proxy.Span, 2)
	errs := make([]error, 2)
	alone := func(i int) {
		s, err := two[i].run()
		two[i].want, two[i].ok = zzCopySpans(s), err == nil
	}
	before := vsym.Bool("before")
	if before {
		alone(0)
		alone(1)
	}
	done := make(chan bool, 2)
	for i := range two {
		i := i
		go func() {
			results[i], errs[i] = two[i].run()
			done <- true
		}()
	}
	<-done
	<-done
	if !before {
		alone(0)
		alone(1)
	}
	for i := range two {
		vsym.Assert((errs[i] == nil) == two[i].ok, "accepted or rejected depending on what runs at the same time")
		if two[i].ok {
			zzSameSpans(two[i].want, results[i], "parsed while another input was parsed")
		}
	}
	vsym.Reach("ok")
}
