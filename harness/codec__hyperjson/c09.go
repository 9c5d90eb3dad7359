package hyperjson

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

// zzPieces picks how a reader cuts n bytes: at two places (long documents: at one, except in the thorough tier) (also the same one, which gives an empty read) or into
// single bytes with an empty read in front of each.
func zzPieces(n int) []int {
	if vsym.Bool("single") {
		var p []int
		for i := 0; i < n; i++ {
			p = append(p, 0, 1)
		}
		return p
	}
	a := vsym.Choose("cut", n+1)
	if n > 4 && !vsym.Thorough() {
		return []int{a}
	}
	return []int{a, vsym.Choose("cut", n+1-a)}
}

func zzCompare(doc []byte, bufs []int) {
	want := zzTokens(NewWithBytes(append([]byte{}, doc...)))
	var buf []byte
	if k := vsym.Choose("buffer", len(bufs)+1); k < len(bufs) {
		buf = make([]byte, bufs[k])
	}
	r := &zzReader{data: append([]byte{}, doc...), pieces: zzPieces(len(doc)), together: vsym.Bool("together")}
	vsym.Option("maxsteps", 300000)
	got := zzTokens(NewWithReader(r, buf))
	zzSameTokens(want, got)
	vsym.Reach("ok")
}

// every document of 1..3 bytes (thorough: 1..4), every cut into up to three pieces (also empty ones) or into single
// bytes, end of input together with the last piece or behind it, buffers of 0, 1, 2, 5, 16 bytes and the parser's own
//gosym: quick=200 thorough=900 reach=ok
func ZZC09_Bytes() {
	max := 3
	if vsym.Thorough() {
		max = 4
	}
	zzCompare(vsym.Bytes("b", 1+vsym.Choose("len", max)), []int{0, 1, 2, 5, 16})
}

// documents made of every kind of token with three arbitrary bytes in strings and two arbitrary bytes at the place of a digit and a literal,
// cut at one place (thorough: two) or into single bytes, buffers of 1, 4, 6 bytes and the parser's own
//gosym: quick=200 thorough=900 reach=ok
func ZZC09_Tokens() {
	var doc []byte
	c := func() byte { return vsym.Byte("c") }
	switch vsym.Choose("doc", 8) {
	case 0:
		doc = append(doc, '"', 'a', c(), 'b', '"', ':', '"', 'x', '"')
	case 1:
		doc = append(doc, '"', '\\', 'u', '0', '0', c(), '9', c(), '"', '7', ']')
	case 2:
		doc = append(doc, '[', '1', '2', c(), '4', 'e', c(), ',', '5', ']')
	case 3:
		doc = append(doc, '{', '"', '\\', c(), '"', ':', 't', c(), 'u', 'e', '}')
	case 4:
		doc = append(doc, 'f', 'a', 'l', 's', c(), ',', 'n', 'u', c(), 'l', ' ', '1', ' ')
	case 5:
		doc = append(doc, '"', '\\', 'u', 'd', '8', '3', c(), '\\', 'u', 'd', 'd', '1', 'e', '"', '{')
	case 6:
		doc = append(doc, ' ', c(), '\n', '[', '[', ']', '"', c(), '"', '}')
	case 7:
		doc = append(doc, 'n', 'u', 'l', 'l', c(), 't', 'r', 'u', 'e', '-', c())
	}
	zzCompare(doc, []int{1, 4, 6})
}

// skipping a value and reading the token behind it, with a document of 12 bytes with three arbitrary bytes, cut and
// buffered like above
//gosym: quick=200 thorough=900 reach=ok,failed
func ZZC09_Skip() {
	docs := []string{`[1,"a]",{}]7`, `{"k":[true]}`, `"\"\\]":[null`, `{"a":{"b":-`}
	doc := []byte(docs[vsym.Choose("doc", len(docs))])
	at := vsym.Choose("at", len(doc))
	doc[at] = vsym.Byte("c")
	run := func(p *Parser) (err error, rest []zzTok) {
		if err := p.Skip(); err != nil {
			return err, nil
		}
		return nil, zzTokens(p)
	}
	err1, rest1 := run(NewWithBytes(append([]byte{}, doc...)))
	var buf []byte
	bufs := []int{1, 5}
	if k := vsym.Choose("buffer", len(bufs)+1); k < len(bufs) {
		buf = make([]byte, bufs[k])
	}
	var pieces []int
	if a := vsym.Choose("cut", len(doc)+1); a > 0 {
		pieces = []int{a}
	} else {
		for i := range doc {
			_ = i
			pieces = append(pieces, 1, 0)
		}
	}
	vsym.Option("maxsteps", 300000)
	err2, rest2 := run(NewWithReader(&zzReader{data: append([]byte{}, doc...), pieces: pieces, together: vsym.Bool("together")}, buf))
	vsym.Assert((err1 == nil) == (err2 == nil), "skipping fails or not depending on how the input arrives")
	if err1 == nil {
		zzSameTokens(rest1, rest2)
		vsym.Reach("ok")
	} else {
		vsym.Reach("failed")
	}
}
