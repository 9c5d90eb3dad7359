package zipkinproxy

import (
	"bytes"
	"compress/gzip"
	"errors"
	"io"
	"net/http"
	"strings"

	"github.com/flachnetz/dd-zipkin-proxy/codec"
	"github.com/flachnetz/dd-zipkin-proxy/proxy"
	"github.com/julienschmidt/httprouter"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzWriter records the response.
type zzWriter struct {
	header http.Header
	code   int
	writes int
}

func (w *zzWriter) Header() http.Header { return w.header }

func (w *zzWriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code = 200
	}
	return len(b), nil
}

func (w *zzWriter) WriteHeader(code int) {
	vsym.Assert(w.code == 0, "two responses for one request")
	w.code = code
	w.writes++
}

// zzBody is a request body that is delivered in pieces and ends with an error or not.
type zzBody struct {
	data  []byte
	piece int
	end   error
}

func (b *zzBody) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		return 0, b.end
	}
	n := b.piece
	if n > len(b.data) || n == 0 {
		n = len(b.data)
	}
	n = copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}

func (b *zzBody) Close() error { return nil }

type zzServer struct {
	handler http.Handler
	spans   chan proxy.Span
}

func zzNewServer(capacity int) *zzServer {
	router := httprouter.New()
	s := &zzServer{spans: make(chan proxy.Span, capacity)}
	handleSpans(router, s.spans)
	s.handler = handleGzipRequestBody(router)
	return s
}

// post sends a request and gives the status.
func (s *zzServer) post(path string, header http.Header, body io.ReadCloser) int {
	req := zzRequest(path, header, body)
	w := &zzWriter{header: http.Header{}}
	s.handler.ServeHTTP(w, req)
	if w.code == 0 {
		return 200
	}
	return w.code
}

func (s *zzServer) taken() []proxy.Span {
	var out []proxy.Span
	for len(s.spans) > 0 {
		out = append(out, <-s.spans)
	}
	return out
}

type zzEndpoint struct {
	path   string
	parse  func(io.Reader) ([]proxy.Span, error)
	header http.Header
}

func zzEndpoints() []zzEndpoint {
	json := http.Header{"Content-Type": []string{"application/json"}}
	return []zzEndpoint{
		{"/api/v1/spans", codec.ParseJsonV1, json},
		{"/api/v2/spans", codec.ParseJsonV2, json},
		{"/api/jaeger/spans", codec.ParseJaeger, json},
	}
}

func zzHeader(h http.Header) http.Header {
	out := http.Header{}
	for k, v := range h {
		out[k] = append([]string{}, v...)
	}
	return out
}

func (s *zzServer) expect(code int, wantErr error, want []proxy.Span) {
	got := s.taken()
	if wantErr != nil {
		vsym.Assert(code == http.StatusBadRequest, "a malformed body was not answered 400")
		vsym.Assert(len(got) == 0, "spans of a malformed body were put on the channel")
		vsym.Reach("rejected")
		return
	}
	vsym.Assert(code == http.StatusAccepted, "a valid body was not answered 202")
	vsym.Assert(len(got) == len(want), "another number of spans than parsed was put on the channel")
	for i := range got {
		zzSameSpan(want[i], got[i], "span on the channel")
	}
	vsym.Reach("accepted")
}

// zzBodies gives a body for the endpoint with 0..3 spans, maybe broken at the end or in between, arbitrary digits and characters.
func zzDocument(jaeger bool) []byte {
	hex := func() byte {
		c := vsym.Byte("h")
		vsym.Assume(c >= '1' && c <= '9' || c >= 'a' && c <= 'f')
		return c
	}
	n := vsym.Choose("spans", 4)
	var b []byte
	if jaeger {
		b = append(b, `{"data":[{"spans":[`...)
	} else {
		b = append(b, '[')
	}
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		if jaeger {
			b = append(b, `{"traceID":"7","spanID":"`...)
		} else {
			b = append(b, `{"traceId":"7","id":"`...)
		}
		b = append(b, hex(), hex())
		b = append(b, `","timestamp":5,"name":"n"}`...)
	}
	broken := vsym.Choose("broken", 6)
	switch broken {
	case 1:
		return b
	case 2:
		b = append(b, `,{"id":7,"spanID":7}`...)
	case 3:
		b = append(b, vsym.Byte("x"), vsym.Byte("y"))
	case 4:
		b = append(b, `,{"duration":-4},{"startTime":-4}`...)
	}
	if jaeger {
		b = append(b, `]}]}`...)
	} else {
		b = append(b, ']')
	}
	if broken == 5 {
		b = b[:len(b)-1]
	}
	return b
}

// each of the three endpoints, with a body of 0..3 spans with arbitrary ids, that is valid, cut off, or has a malformed span or two arbitrary bytes behind the valid ones; delivered at once or byte by byte;
// answered as the parser decides, with all of the parser's spans on the channel or none
//gosym: quick=200 thorough=900 reach=accepted,rejected
func ZZC17_Endpoints() {
	e := zzEndpoints()[vsym.Choose("endpoint", 3)]
	doc := zzDocument(e.path == "/api/jaeger/spans")
	want, err := e.parse(bytes.NewReader(append([]byte{}, doc...)))
	s := zzNewServer(16)
	piece := 0
	if vsym.Bool("pieces") {
		piece = 1
	}
	code := s.post(e.path, zzHeader(e.header), &zzBody{data: append([]byte{}, doc...), piece: piece, end: io.EOF})
	s.expect(code, err, want)
}

// a valid body of 2 spans whose reader fails after any prefix (every seventh; thorough: every one): answered 400 and no span is put on the channel, unless the document is complete
//gosym: quick=100 thorough=300 reach=accepted,rejected
func ZZC17_ReadErrors() {
	e := zzEndpoints()[vsym.Choose("endpoint", 3)]
	doc := []byte(`[{"traceId":"7","id":"5","timestamp":1},{"traceId":"7","id":"6"}]`)
	if e.path == "/api/jaeger/spans" {
		doc = []byte(`{"data":[{"spans":[{"traceID":"7","spanID":"5"},{"traceID":"7","spanID":"6"}]}]}`)
	}
	step := 7
	if vsym.Thorough() {
		step = 1
	}
	cut := len(doc) - step*vsym.Choose("cut", len(doc)/step)
	end := []error{io.EOF, io.ErrUnexpectedEOF, errors.New("connection reset")}[vsym.Choose("end", 3)]
	s := zzNewServer(16)
	code := s.post(e.path, zzHeader(e.header), &zzBody{data: append([]byte{}, doc[:cut]...), end: end})
	if cut < len(doc) {
		s.expect(code, io.ErrUnexpectedEOF, nil)
		return
	}
	if code == http.StatusBadRequest {
		vsym.Assert(end != io.EOF, "a valid body was not answered 202")
		vsym.Assert(len(s.taken()) == 0, "spans of a rejected body were put on the channel")
		return
	}
	want, err := e.parse(bytes.NewReader(doc))
	vsym.Assert(err == nil, "valid body rejected")
	s.expect(code, nil, want)
}

// the v1 endpoint with no content type, with each of eight content types, or with "application/jso" and one arbitrary character; the other endpoints do not care
//gosym: quick=100 thorough=300 reach=accepted,rejected
func ZZC17_ContentType() {
	e := zzEndpoints()[vsym.Choose("endpoint", 3)]
	doc := []byte(`[{"traceId":"7","id":"5","timestamp":1}]`)
	if e.path == "/api/jaeger/spans" {
		doc = []byte(`{"data":[{"spans":[{"traceID":"7","spanID":"5"}]}]}`)
	}
	types := []string{"application/json", "application/json; charset=utf-8", "application/json;charset=UTF-8", "application/x-thrift", "text/plain", "text/json", "application/", "json"}
	t := ""
	h := http.Header{}
	if k := vsym.Choose("type", len(types)+2); k < len(types) {
		t = types[k]
		h.Set("Content-Type", t)
	} else if k == len(types) {
		t = "application/jso" + vsym.String("last", 1)
		h.Set("Content-Type", t)
	}
	s := zzNewServer(16)
	want, err := e.parse(bytes.NewReader(doc))
	vsym.Assert(err == nil, "valid body rejected")
	if e.path == "/api/v1/spans" && !strings.HasPrefix(t, "application/json") {
		err = errors.New("only json")
	}
	s.expect(s.post(e.path, h, &zzBody{data: doc, end: io.EOF}), err, want)
}

// a compressed body for each endpoint: valid, malformed content, cut off, first header bytes arbitrary, not compressed at all, with a content encoding other than gzip, in two members; three times with one server, so that nothing remains
// of a request; the expected result is the one of the decompressed content
//gosym: quick=200 thorough=600 reach=accepted,rejected,header
func ZZC17_Gzip() {
	e := zzEndpoints()[vsym.Choose("endpoint", 3)]
	doc := `[{"traceId":"7","id":"5","timestamp":1},{"traceId":"7","id":"6"}]`
	if e.path == "/api/jaeger/spans" {
		doc = `{"data":[{"spans":[{"traceID":"7","spanID":"5"},{"traceID":"7","spanID":"6"}]}]}`
	}
	s := zzNewServer(16)
	var packed bytes.Buffer
	zw := gzip.NewWriter(&packed)
	kind := vsym.Choose("kind", 7)
	if kind == 1 {
		doc = doc[:len(doc)-1]
	}
	content := []byte(doc)
	if kind == 6 {
		// several members: the content is what they give together
		cuts := []int{0, 1, len(content) / 2, len(content) - 1, len(content)}
		cut := cuts[vsym.Choose("split", len(cuts))]
		_, _ = zw.Write(content[:cut])
		_ = zw.Close()
		zw = gzip.NewWriter(&packed)
		content = content[cut:]
	}
	_, _ = zw.Write(content)
	_ = zw.Close()
	body := packed.Bytes()
	h := zzHeader(e.header)
	h.Set("Content-Encoding", "gzip")
	want, err := e.parse(strings.NewReader(doc))
	header := false
	switch kind {
	case 2:
		// cut in the compressed data
		body = body[:len(body)-12]
		err = io.ErrUnexpectedEOF
	case 3:
		// the first bytes
		a, b, c := vsym.Byte("a"), vsym.Byte("b"), vsym.Byte("c")
		header = a != 0x1f || b != 0x8b || c != 8
		body[0], body[1], body[2] = a, b, c
		if header {
			err = errors.New("invalid header")
		}
	case 4:
		// cut in the header
		body = body[:vsym.Choose("cut", 10)]
		err = io.ErrUnexpectedEOF
		header = true
	case 5:
		// not compressed
		body = []byte(doc)
		if vsym.Bool("identity") {
			h.Set("Content-Encoding", "identity")
		} else {
			h.Del("Content-Encoding")
		}
	}
	for i := 0; i < 2; i++ {
		s.expect(s.post(e.path, zzHeader(h), &zzBody{data: append([]byte{}, body...), end: io.EOF}), err, want)
	}
	if header {
		vsym.Reach("header")
	}
	// an uncompressed body afterwards
	plain := `[{"traceId":"9","id":"8"}]`
	if e.path == "/api/jaeger/spans" {
		plain = `{"data":[{"spans":[{"traceID":"9","spanID":"8"}]}]}`
	}
	want, err = e.parse(strings.NewReader(plain))
	vsym.Assert(err == nil, "valid body rejected")
	s.expect(s.post(e.path, zzHeader(e.header), &zzBody{data: []byte(plain), end: io.EOF}), nil, want)
}

// two requests at the same time with 1..2 spans each and a channel of 0 or 1, any interleaving of one preemption (thorough: 2): all spans of both arrive once, in order within a request, before the request is answered
//gosym: quick=200 thorough=900 reach=ok stress
func ZZC17_Concurrent() {
	p := 1
	if vsym.Thorough() {
		p = 2
	}
	vsym.Option("preempt", p)
	s := zzNewServer(vsym.Choose("capacity", 2))
	e := zzEndpoints()[1]
	bodies := []string{`[{"traceId":"1","id":"1"},{"traceId":"1","id":"2"}]`, `[{"traceId":"2","id":"1"},{"traceId":"2","id":"2"}]`}
	done := make(chan int, 2)
	for _, b := range bodies {
		b := b
		go func() {
			done <- s.post(e.path, zzHeader(e.header), &zzBody{data: []byte(b), end: io.EOF})
		}()
	}
	seen := map[Id]Id{}
	for i := 0; i < 4; i++ {
		span := <-s.spans
		vsym.Assert(span.Id == seen[span.Trace]+1, "a span came twice or in another order")
		seen[span.Trace] = span.Id
	}
	vsym.Assert(seen[1] == 2 && seen[2] == 2, "a span was lost")
	vsym.Assert(<-done == 202 && <-done == 202, "a valid body was not answered 202")
	vsym.Assert(len(s.spans) == 0, "more spans than sent")
	vsym.Reach("ok")
}

// zzBlanks is a body with many blanks behind its first bytes.
type zzBlanks struct {
	head, tail string
	blanks     int
}

var zzBlank = bytes.Repeat([]byte(" "), 1<<16)

func (b *zzBlanks) Read(p []byte) (int, error) {
	if b.head != "" {
		n := copy(p, b.head)
		b.head = b.head[n:]
		return n, nil
	}
	if b.blanks > 0 {
		if len(p) > b.blanks {
			p = p[:b.blanks]
		}
		n := copy(p, zzBlank)
		b.blanks -= n
		return n, nil
	}
	if b.tail == "" {
		return 0, io.EOF
	}
	n := copy(p, b.tail)
	b.tail = b.tail[n:]
	return n, nil
}

func (b *zzBlanks) Close() error { return nil }

// a valid v1 or v2 body with 70000 or 17 million blanks between its two spans: every span is taken
//gosym: quick=200 thorough=900 reach=accepted
func ZZC17_Large() {
	vsym.Option("maxsteps", 2000000000)
	e := zzEndpoints()[vsym.Choose("endpoint", 2)]
	n := 70000
	if vsym.Bool("more") {
		n = 17000000
	}
	id := vsym.Byte("id")
	vsym.Assume(id >= '1' && id <= '9')
	body := &zzBlanks{`[{"traceId":"7","id":"` + string([]byte{id}) + `"},`, `{"traceId":"7","id":"6"}]`, n}
	want, err := e.parse(strings.NewReader(body.head + body.tail))
	vsym.Assert(err == nil, "valid body rejected")
	s := zzNewServer(16)
	s.expect(s.post(e.path, zzHeader(e.header), body), nil, want)
}
