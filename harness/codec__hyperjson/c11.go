package hyperjson

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

// every value of a grammar of 18 scalars (all digits, characters and escapes arbitrary) alone or in 10 nestings of arrays and objects up to depth 3,
// with white space in front and behind, skipped by Skip with each of 5 continuations
//gosym: quick=100 thorough=300 reach=ok
func ZZC11_Skip() {
	b := zzSpace(nil)
	b = zzValue(b)
	b = zzSpace(b)
	n := len(b)
	rest := []string{"", ",", "}", "]7 ", ",\"next\":1}"}[vsym.Choose("rest", 5)]
	if rest == "" {
		// a number can only end before something else
		rest = " "
	}
	b = append(b, rest...)
	p := NewWithBytes(append([]byte{}, b...))
	vsym.Option("maxsteps", 100000)
	vsym.Assert(p.Skip() == nil, "a valid value could not be skipped")
	zzSameTokens(zzTokens(NewWithBytes(append([]byte{}, b[n:]...))), zzTokens(p))
	vsym.Reach("ok")
}

// objects and arrays read through ReadObject and ReadArray, whose elements are skipped: the callbacks see exactly the keys and elements there are
//gosym: quick=100 thorough=300 reach=ok
func ZZC11_Members() {
	n := vsym.Choose("members", 4)
	isObj := vsym.Bool("object")
	var b []byte
	if isObj {
		b = append(b, '{')
	} else {
		b = append(b, '[')
	}
	keys := []string{}
	for i := 0; i < n; i++ {
		if i > 0 {
			b = append(b, ',')
		}
		if isObj {
			k := string([]byte{zzPlain(), zzPlain()})
			keys = append(keys, k)
			b = append(append(append(b, '"'), k...), '"', ':')
		}
		if i == 1 {
			b = zzValue(b)
		} else {
			b = append(b, `{"a":[1]}`...)
		}
	}
	if isObj {
		b = append(b, '}', '"', 'z', '"')
	} else {
		b = append(b, ']', '"', 'z', '"')
	}
	p := NewWithBytes(b)
	vsym.Option("maxsteps", 100000)
	i := 0
	var err error
	if isObj {
		err = p.ReadObject(func(key []byte) error {
			vsym.Assert(i < n, "too many members")
			vsym.Assert(string(key) == keys[i], "wrong key")
			i++
			return p.Skip()
		})
	} else {
		err = p.ReadArray(func() error {
			vsym.Assert(i < n, "too many elements")
			i++
			return p.Skip()
		})
	}
	vsym.Assert(err == nil, "reading failed")
	vsym.Assert(i == n, "members were lost")
	tok, err := p.ReadString()
	vsym.Assert(err == nil && string(tok.Value) == "z", "not consumed exactly")
	vsym.Reach("ok")
}
