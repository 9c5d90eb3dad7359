package hyperjson

import (
	"io"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzReader gives data in the given pieces (0: an empty read); what remains is one more piece. With together set, the
// last piece comes together with io.EOF.
type zzReader struct {
	data     []byte
	pieces   []int
	together bool
}

func (r *zzReader) Read(p []byte) (int, error) {
	n := len(r.data)
	if len(r.pieces) > 0 && r.pieces[0] < n {
		n = r.pieces[0]
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[:n])
	r.data = r.data[n:]
	if len(r.pieces) > 0 {
		r.pieces[0] -= n
		if r.pieces[0] <= 0 {
			r.pieces = r.pieces[1:]
		}
		if len(r.data) > 0 {
			return n, nil
		}
	}
	if len(r.data) == 0 && (n == 0 || r.together) {
		return n, io.EOF
	}
	return n, nil
}

type zzTok struct {
	t Type
	v string
}

// zzTokens reads all tokens up to the first error.
func zzTokens(p *Parser) []zzTok {
	var out []zzTok
	for {
		t, err := p.NextType()
		if err != nil {
			return append(out, zzTok{TypeError, ""})
		}
		var tok Token
		switch t {
		case TypeObjectBegin:
			err = p.ConsumeObjectBegin()
		case TypeObjectEnd:
			err = p.ConsumeObjectEnd()
		case TypeArrayBegin:
			err = p.ConsumeArrayBegin()
		case TypeArrayEnd:
			err = p.ConsumeArrayEnd()
		case TypeString:
			tok, err = p.ReadString()
		case TypeNumber:
			tok, err = p.ReadNumber()
		case TypeBoolean:
			tok, err = p.ReadBoolean()
		case TypeNull:
			tok, err = p.ReadNull()
		default:
			vsym.Fail("unexpected type of token")
		}
		if err != nil {
			return append(out, zzTok{TypeError, "x"})
		}
		vsym.Assert(tok.Value == nil || tok.Type == t, "token of another type than announced")
		out = append(out, zzTok{t, string(append([]byte{}, tok.Value...))})
	}
}

func zzSameTokens(a, b []zzTok) {
	vsym.Assert(len(a) == len(b), "another number of tokens")
	for i := range a {
		vsym.Assert(a[i].t == b[i].t, "another type of token")
		vsym.Assert(a[i].v == b[i].v, "another value of a token")
	}
}
