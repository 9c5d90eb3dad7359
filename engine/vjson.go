package main

import (
	"go/types"
	"math"
	"reflect"
	"strconv"
	"strings"
)

// Model of encoding/json decoding on possibly symbolic text: the first value is parsed completely (forking on
// symbolic bytes), then assigned to the target following its Go type.

type jnode struct {
	kind byte // '{' '[' '"' '0' 't' 'f' 'n'
	raw  [2]int
	str  []Value
	arr  []*jnode
	keys [][]Value
	vals []*jnode
}

type jparser struct {
	w   *Wk
	b   []Value
	pos int
}

type jsyntax struct{ eof bool }

func (p *jparser) is(c byte) bool {
	return p.w.branchG(p.w.ts.Eq(p.w.term(p.b[p.pos]), p.w.ts.Const(8, uint64(c))))
}

func (p *jparser) inRange(lo, hi byte) bool {
	t := p.w.term(p.b[p.pos])
	ts := p.w.ts
	return p.w.branchG(ts.And(ts.Ule(ts.Const(8, uint64(lo)), t), ts.Ule(t, ts.Const(8, uint64(hi)))))
}

func (p *jparser) isAny(s string) bool {
	t := p.w.term(p.b[p.pos])
	c := p.w.ts.False
	for i := range s {
		c = p.w.ts.Or(c, p.w.ts.Eq(t, p.w.ts.Const(8, uint64(s[i]))))
	}
	return p.w.branchG(c)
}

func (p *jparser) ws() {
	for p.pos < len(p.b) && p.isAny(" \t\r\n") {
		p.pos++
	}
}

func (p *jparser) need() {
	if p.pos >= len(p.b) {
		panic(jsyntax{true})
	}
}

func (p *jparser) expect(c byte) {
	p.need()
	if !p.is(c) {
		panic(jsyntax{})
	}
	p.pos++
}

func (p *jparser) value(depth int) *jnode {
	if depth > 10000 {
		panic(jsyntax{})
	}
	p.ws()
	p.need()
	start := p.pos
	n := &jnode{}
	switch {
	case p.is('{'):
		n.kind = '{'
		p.pos++
		p.ws()
		p.need()
		if p.is('}') {
			p.pos++
			break
		}
		for {
			p.ws()
			p.need()
			if !p.is('"') {
				panic(jsyntax{})
			}
			k := p.str()
			p.ws()
			p.expect(':')
			v := p.value(depth + 1)
			n.keys = append(n.keys, k)
			n.vals = append(n.vals, v)
			p.ws()
			p.need()
			if p.is('}') {
				p.pos++
				break
			}
			p.expect(',')
		}
	case p.is('['):
		n.kind = '['
		p.pos++
		p.ws()
		p.need()
		if p.is(']') {
			p.pos++
			break
		}
		for {
			n.arr = append(n.arr, p.value(depth+1))
			p.ws()
			p.need()
			if p.is(']') {
				p.pos++
				break
			}
			p.expect(',')
		}
	case p.is('"'):
		n.kind = '"'
		n.str = p.str()
	case p.is('t'):
		n.kind = 't'
		p.lit("true")
	case p.is('f'):
		n.kind = 'f'
		p.lit("false")
	case p.is('n'):
		n.kind = 'n'
		p.lit("null")
	default:
		n.kind = '0'
		p.num()
	}
	n.raw = [2]int{start, p.pos}
	return n
}

func (p *jparser) lit(s string) {
	for i := range s {
		p.expect(s[i])
	}
}

func (p *jparser) num() {
	if p.is('-') {
		p.pos++
		p.need()
	}
	if p.is('0') {
		p.pos++
	} else if p.inRange('1', '9') {
		p.digits()
	} else {
		panic(jsyntax{})
	}
	if p.pos < len(p.b) && p.is('.') {
		p.pos++
		p.need()
		if !p.inRange('0', '9') {
			panic(jsyntax{})
		}
		p.digits()
	}
	if p.pos < len(p.b) && p.isAny("eE") {
		p.pos++
		p.need()
		if p.isAny("+-") {
			p.pos++
			p.need()
		}
		if !p.inRange('0', '9') {
			panic(jsyntax{})
		}
		p.digits()
	}
}

func (p *jparser) digits() {
	for p.pos < len(p.b) && p.inRange('0', '9') {
		p.pos++
	}
}

func (p *jparser) hex4() rune {
	r := rune(0)
	for i := 0; i < 4; i++ {
		p.need()
		c := byte(p.w.intOf(p.b[p.pos], "hex digit"))
		p.pos++
		switch {
		case c >= '0' && c <= '9':
			r = r<<4 | rune(c-'0')
		case c >= 'a' && c <= 'f':
			r = r<<4 | rune(c-'a'+10)
		case c >= 'A' && c <= 'F':
			r = r<<4 | rune(c-'A'+10)
		default:
			panic(jsyntax{})
		}
	}
	return r
}

func (p *jparser) str() []Value {
	p.expect('"')
	var out []Value
	for {
		p.need()
		switch {
		case p.is('"'):
			p.pos++
			return out
		case p.is('\\'):
			p.pos++
			p.need()
			c := byte(p.w.intOf(p.b[p.pos], "escape"))
			p.pos++
			switch c {
			case '"', '\\', '/':
				out = append(out, mkInt(8, uint64(c)))
			case 'b':
				out = append(out, mkInt(8, '\b'))
			case 'f':
				out = append(out, mkInt(8, '\f'))
			case 'n':
				out = append(out, mkInt(8, '\n'))
			case 'r':
				out = append(out, mkInt(8, '\r'))
			case 't':
				out = append(out, mkInt(8, '\t'))
			case 'u':
				r := p.hex4()
				if r >= 0xd800 && r < 0xe000 {
					save := p.pos
					ok := false
					if r < 0xdc00 && p.pos+1 < len(p.b) && p.is('\\') {
						p.pos++
						if p.is('u') {
							p.pos++
							r2 := p.hex4()
							if r2 >= 0xdc00 && r2 < 0xe000 {
								r = (r-0xd800)<<10 | (r2 - 0xdc00) + 0x10000
								ok = true
							}
						}
					}
					if !ok {
						p.pos = save
						r = 0xfffd
					}
				}
				out = append(out, constBytes(string(r))...)
			default:
				panic(jsyntax{})
			}
		case p.inRange(0, 0x1f):
			panic(jsyntax{})
		case p.inRange(0x20, 0x7f):
			out = append(out, p.b[p.pos])
			p.pos++
		default:
			r, n := p.w.decodeRune(p.b[p.pos:])
			if r.n == 0xfffd && n == 1 {
				out = append(out, constBytes("\ufffd")...)
			} else {
				out = append(out, p.b[p.pos:p.pos+n]...)
			}
			p.pos += n
		}
	}
}

// jparse gives the first value in b, or ok=false; eof: the text ends inside the value.
func (w *Wk) jparse(b []Value) (n *jnode, p *jparser, ok, eof bool) {
	p = &jparser{w: w, b: b}
	defer func() {
		if r := recover(); r != nil {
			s, is := r.(jsyntax)
			if !is {
				panic(r)
			}
			n, ok, eof = nil, false, s.eof
		}
	}()
	n = p.value(0)
	return n, p, true, false
}

type jassign struct {
	w   *Wk
	g   *G
	p   *jparser
	err Value // first error, an error interface
}

func (a *jassign) fail(msg string) {
	if a.err.k == KInvalid || a.err.x == nil {
		a.err = a.w.errorValue(a.w.str("json: " + msg))
	}
}

func (a *jassign) set(n *jnode, ptr Value, t types.Type) {
	w := a.w
	t = types.Unalias(t)
	pt := types.NewPointer(t)
	if _, named := t.(*types.Named); named {
		if f := w.methodByName(w.canon(pt), "UnmarshalJSON"); f != nil {
			if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
				raw := w.newBytes(a.p.b[n.raw[0]:n.raw[1]], KSlice)
				e := w.callFn(a.g, f, nil, []Value{ptr, raw})
				if e.x != nil && (a.err.k == KInvalid || a.err.x == nil) {
					a.err = e
				}
				return
			}
		}
		if f := w.methodByName(w.canon(pt), "UnmarshalText"); f != nil && n.kind == '"' {
			e := w.callFn(a.g, f, nil, []Value{ptr, w.newBytes(n.str, KSlice)})
			if e.x != nil && (a.err.k == KInvalid || a.err.x == nil) {
				a.err = e
			}
			return
		}
	}
	l := w.ls.get(t)
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		if n.kind == 'n' {
			w.store(ptr, nilPtr, l)
			return
		}
		cur := w.load(ptr, l)
		if cur.x == nil {
			cur = mkPtr(w.newObj(u.Elem(), 1), 0)
			w.store(ptr, cur, l)
		}
		a.set(n, cur, u.Elem())
	case *types.Basic:
		if n.kind == 'n' {
			return
		}
		switch {
		case u.Info()&types.IsString != 0:
			if n.kind != '"' {
				a.fail("cannot unmarshal into string")
				return
			}
			w.store(ptr, w.newBytes(n.str, KString), l)
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 't' && n.kind != 'f' {
				a.fail("cannot unmarshal into bool")
				return
			}
			w.store(ptr, mkBool(n.kind == 't'), l)
		case u.Info()&types.IsInteger != 0:
			v, ok := a.integer(n, u, l)
			if !ok {
				a.fail("cannot unmarshal into integer")
				return
			}
			w.store(ptr, v, l)
		case u.Info()&types.IsFloat != 0:
			if n.kind != '0' {
				a.fail("cannot unmarshal into float")
				return
			}
			w.store(ptr, a.float(n), l)
		default:
			w.unsupported("json into " + t.String())
		}
	case *types.Struct:
		if n.kind == 'n' {
			return
		}
		if n.kind != '{' {
			a.fail("cannot unmarshal into struct")
			return
		}
		for i, k := range n.keys {
			fi := a.field(u, k)
			if fi < 0 {
				continue
			}
			fp := w.resolvePtr(ptr)
			fp.n += uint64(l.flds[fi])
			a.set(n.vals[i], fp, u.Field(fi).Type())
		}
	case *types.Slice:
		if n.kind == 'n' {
			w.store(ptr, Value{k: KSlice}, l)
			return
		}
		if n.kind != '[' {
			if n.kind == '"' {
				if _, wd := basicKind(u.Elem()); wd == 8 {
					w.unsupported("base64 json")
				}
			}
			a.fail("cannot unmarshal into slice")
			return
		}
		// existing elements are reused up to the capacity
		el := w.ls.get(u.Elem())
		cur := *sliceOf(w.load(ptr, l))
		if cap := cur.cap; cap < len(n.arr) || cur.obj == nil {
			o := w.newObj(u.Elem(), len(n.arr))
			if cur.len > 0 && el.n > 0 {
				copy(o.slots, cur.obj.slots[cur.off:cur.off+cur.len*el.n])
			}
			cur = SliceV{obj: o, len: cur.len, cap: len(n.arr)}
		}
		old := cur.len
		cur.len = len(n.arr)
		w.store(ptr, Value{k: KSlice, x: &cur}, l)
		for i, x := range n.arr {
			ep := mkPtr(cur.obj, cur.off+i*el.n)
			if i >= old {
				w.store(ep, el.zeroValue(), el)
			}
			a.set(x, ep, u.Elem())
		}
	case *types.Array:
		if n.kind == 'n' {
			return
		}
		if n.kind != '[' {
			a.fail("cannot unmarshal into array")
			return
		}
		bp := w.resolvePtr(ptr)
		for i := 0; i < l.alen; i++ {
			ep := bp
			ep.n += uint64(i * l.elem.n)
			if i < len(n.arr) {
				a.set(n.arr[i], ep, u.Elem())
			} else {
				w.store(ep, l.elem.zeroValue(), l.elem)
			}
		}
	case *types.Map:
		if n.kind == 'n' {
			w.store(ptr, Value{k: KMap}, l)
			return
		}
		if n.kind != '{' {
			a.fail("cannot unmarshal into map")
			return
		}
		kt, ok := u.Key().Underlying().(*types.Basic)
		if !ok || kt.Info()&types.IsString == 0 {
			w.unsupported("json map key")
		}
		m, _ := w.load(ptr, l).x.(*MapObj)
		if m == nil {
			m = w.newMap()
			w.store(ptr, Value{k: KMap, x: m}, l)
		}
		el := w.ls.get(u.Elem())
		for i, k := range n.keys {
			tmp := w.newObj(u.Elem(), 1)
			a.set(n.vals[i], mkPtr(tmp, 0), u.Elem())
			w.mapSet(m, w.newBytes(k, KString), w.load(mkPtr(tmp, 0), el))
		}
	case *types.Interface:
		if u.NumMethods() != 0 {
			w.unsupported("json into interface")
		}
		w.store(ptr, a.any(n), l)
	default:
		a.fail("cannot unmarshal into " + t.String())
	}
}

func (a *jassign) any(n *jnode) Value {
	w := a.w
	switch n.kind {
	case 'n':
		return Value{k: KIface}
	case 't', 'f':
		return w.iface(types.Typ[types.Bool], mkBool(n.kind == 't'))
	case '"':
		return w.iface(types.Typ[types.String], w.newBytes(n.str, KString))
	case '0':
		return w.iface(types.Typ[types.Float64], a.float(n))
	case '[':
		at := types.NewInterfaceType(nil, nil)
		o := w.newObj(at, len(n.arr))
		for i, x := range n.arr {
			o.slots[i] = a.any(x)
		}
		return w.iface(types.NewSlice(at), Value{k: KSlice, x: &SliceV{obj: o, len: len(n.arr), cap: len(n.arr)}})
	}
	m := w.newMap()
	for i, k := range n.keys {
		w.mapSet(m, w.newBytes(k, KString), a.any(n.vals[i]))
	}
	return w.iface(types.NewMap(types.Typ[types.String], types.NewInterfaceType(nil, nil)), Value{k: KMap, x: m})
}

func (a *jassign) float(n *jnode) Value {
	s, ok := a.w.concreteStr(a.w.newBytes(a.p.b[n.raw[0]:n.raw[1]], KString))
	if !ok {
		if v, ok := a.floatDigits(a.p.b[n.raw[0]:n.raw[1]]); ok {
			return v
		}
		return Value{k: KFloat, w: 64, x: &OpaqueF{"json"}}
	}
	f, err := strconv.ParseFloat(s, 64)
	if err != nil && math.IsInf(f, 0) {
		a.fail("number out of range")
	}
	return mkFloat(f)
}

// floatDigits converts a number with symbolic digits when one rounding does it: up to 19 digits alone, or up to 15 digits with a fraction or a concrete exponent of up to 22 places.
func (a *jassign) floatDigits(b []Value) (Value, bool) {
	w, ts := a.w, a.w.ts
	q := &jparser{w: w, b: b}
	i := 0
	neg := q.is('-')
	if neg {
		i++
	}
	v := ts.Const(64, 0)
	digits, exp, frac := 0, 0, false
	for ; i < len(b); i++ {
		q.pos = i
		if !q.inRange('0', '9') {
			if frac || !q.is('.') {
				break
			}
			frac = true
			continue
		}
		v = ts.Bin(OpAdd, ts.Bin(OpMul, v, ts.Const(64, 10)), ts.Resize(ts.Bin(OpSub, w.term(b[i]), ts.Const(8, '0')), 64, false))
		digits++
		if frac {
			exp--
		}
	}
	if i < len(b) {
		s, ok := w.concreteStr(w.newBytes(b[i+1:], KString))
		if !ok || len(s) > 4 {
			return Value{}, false
		}
		e, err := strconv.Atoi(s)
		if err != nil {
			return Value{}, false
		}
		exp += e
	}
	if digits > 19 || digits > 15 && exp != 0 || exp > 22 || exp < -22 {
		return Value{}, false
	}
	f := ts.Float(OpFofU, 64, 0, v, nil)
	if exp > 0 {
		f = ts.Float(OpFMul, 64, 0, f, ts.Const(64, math.Float64bits(math.Pow10(exp))))
	} else if exp < 0 {
		f = ts.Float(OpFDiv, 64, 0, f, ts.Const(64, math.Float64bits(math.Pow10(-exp))))
	}
	if neg {
		f = ts.Bin(OpBXor, f, ts.Const(64, 1<<63))
	}
	return fromFloat(f), true
}

// integer converts the digits of a number; ok=false if it is not an integer of the type.
func (a *jassign) integer(n *jnode, u *types.Basic, l *layout) (Value, bool) {
	if n.kind != '0' {
		return Value{}, false
	}
	w := a.w
	ts := w.ts
	b := a.p.b[n.raw[0]:n.raw[1]]
	q := &jparser{w: w, b: b}
	neg := false
	i := 0
	if q.is('-') {
		neg = true
		i++
	}
	unsigned := u.Info()&types.IsUnsigned != 0
	if neg && unsigned {
		return Value{}, false
	}
	v := ts.Const(64, 0)
	ten := ts.Const(64, 10)
	nd := 0
	for ; i < len(b); i++ {
		q.pos = i
		if !q.inRange('0', '9') {
			return Value{}, false
		}
		d := ts.Resize(ts.Bin(OpSub, w.term(b[i]), ts.Const(8, '0')), 64, false)
		if nd >= 19 {
			// v*10+d must not exceed 2^64-1
			lim := uint64(math.MaxUint64)
			over := ts.Or(ts.Ult(ts.Const(64, lim/10), v), ts.And(ts.Eq(v, ts.Const(64, lim/10)), ts.Ult(ts.Const(64, lim%10), d)))
			if w.branchG(over) {
				return Value{}, false
			}
		}
		v = ts.Bin(OpAdd, ts.Bin(OpMul, v, ten), d)
		nd++
	}
	wd := l.w
	if unsigned {
		if wd < 64 && !w.branchG(ts.Ule(v, ts.Const(64, mask(wd)))) {
			return Value{}, false
		}
		return fromTerm(ts.Resize(v, wd, false)), true
	}
	lim := uint64(1)<<(wd-1) - 1
	if neg {
		lim++
	}
	if !w.branchG(ts.Ule(v, ts.Const(64, lim))) {
		return Value{}, false
	}
	if neg {
		v = ts.Neg(v)
	}
	return fromTerm(ts.Resize(v, wd, false)), true
}

func foldEq(a, b string) bool { return strings.EqualFold(a, b) }

// field gives the struct field for a member name: exact match first, else case-insensitive.
func (a *jassign) field(u *types.Struct, key []Value) int {
	w := a.w
	kv := w.newBytes(key, KString)
	names := make([]string, u.NumFields())
	for i := range names {
		f := u.Field(i)
		if f.Embedded() {
			w.unsupported("json embedded field")
		}
		if !f.Exported() {
			continue
		}
		tag := reflect.StructTag(u.Tag(i)).Get("json")
		nm, opts, _ := strings.Cut(tag, ",")
		if nm == "-" && opts == "" {
			continue
		}
		if strings.Contains(opts, "string") {
			w.unsupported("json string option")
		}
		if nm == "" {
			nm = f.Name()
		}
		names[i] = nm
	}
	for i, nm := range names {
		if nm != "" && w.branchG(w.eqTerm(kv, w.str(nm))) {
			return i
		}
	}
	for i, nm := range names {
		if nm != "" && w.cond(w.equalFold(kv, w.str(nm))) {
			return i
		}
	}
	return -1
}

func defJSON(def func(string, bool, func(w *Wk, g *G, fi *fnInfo, a []Value) Value)) {
	def("encoding/json.NewDecoder", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		o := w.newObj(w.prog.pkgs["encoding/json"].Type("Decoder").Type(), 1)
		w.sideSet(sideKey{o, 0}, a[0])
		return mkPtr(o, 0)
	})
	set := func(w *Wk, g *G, n *jnode, p *jparser, target Value) Value {
		iv, _ := target.x.(*IfaceV)
		if iv == nil {
			return w.errorValue(w.str("json: Unmarshal(nil)"))
		}
		pt, ok := iv.t.Underlying().(*types.Pointer)
		if !ok || iv.v.x == nil {
			return w.errorValue(w.str("json: Unmarshal(non-pointer)"))
		}
		as := &jassign{w: w, g: g, p: p}
		as.set(n, iv.v, pt.Elem())
		if as.err.k == KInvalid {
			return Value{k: KIface}
		}
		return as.err
	}
	ioErr := func(w *Wk, name string) Value {
		o := w.global(w.prog.pkgs["io"].Var(name))
		return o.slots[0]
	}
	def("(*encoding/json.Decoder).Decode", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		k := w.sideKeyOf(a[0])
		rd, _ := w.sideGet(k).(Value)
		iv, _ := rd.x.(*IfaceV)
		if iv == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		if _, used := w.side["json-used:"+strconv.Itoa(int(k.o.id))]; used {
			w.unsupported("second Decode on one json.Decoder")
		}
		w.side["json-used:"+strconv.Itoa(int(k.o.id))] = true
		f := w.methodByName(iv.t, "Read")
		var data []Value
		var rerr Value
		for n := 0; ; n++ {
			buf := w.newObj(types.Typ[types.Uint8], 512)
			r := w.callFn(g, f, nil, []Value{iv.v, {k: KSlice, x: &SliceV{obj: buf, len: 512, cap: 512}}})
			t := r.x.([]Value)
			c := int(w.intOf(t[0], "bytes read"))
			if c < 0 || c > 512 {
				w.goPanic("slice bounds out of range")
			}
			data = append(data, buf.slots[:c]...)
			if t[1].x != nil {
				rerr = t[1]
				break
			}
			if n > 10000 {
				w.unsupported("endless reader")
			}
		}
		n, p, ok, eof := w.jparse(data)
		if !ok {
			if eof && !w.errIs(g, rerr, ioErr(w, "EOF")) {
				return rerr
			}
			if eof {
				empty := true
				q := &jparser{w: w, b: data}
				q.ws()
				if q.pos < len(data) {
					empty = false
				}
				if empty {
					return ioErr(w, "EOF")
				}
				return ioErr(w, "ErrUnexpectedEOF")
			}
			return w.errorValue(w.str("json: syntax error"))
		}
		return set(w, g, n, p, a[1])
	})
	def("encoding/json.Unmarshal", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		b := append([]Value(nil), w.bytesOf(a[0])...)
		n, p, ok, _ := w.jparse(b)
		if ok {
			p.ws()
			ok = p.pos == len(b)
		}
		if !ok {
			return w.errorValue(w.str("json: syntax error"))
		}
		return set(w, g, n, p, a[1])
	})
}
