package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Kind uint8

const (
	KInvalid Kind = iota
	KBool
	KInt
	KFloat
	KPtr
	KSlice
	KString
	KIface
	KFunc
	KMap
	KChan
	KAgg   // struct or array, flattened
	KTuple // multiple results
	KIter
	KComplex
)

// Value is one slot. KInt/KBool: x==nil -> concrete n (masked to w), else x=*Term.
// KPtr: x=nil (nil pointer), *Obj with slot offset n, or *SymPtr.
type Value struct {
	k Kind
	w uint8
	n uint64
	x any
}

type Obj struct {
	id    int
	slots []Value
	typ   types.Type // element type
	n     int        // number of elements
	base  bool       // exists before any path starts
	saved bool       // copied to the journal of the current path
	ro    bool
	label string
	sh    *shadow
}

// SymPtr addresses one of n elements (stride slots each) starting at slot off.
type SymPtr struct {
	obj    *Obj
	off    int
	idx    *Term
	stride int
	n      int
	fld    int // additional slot offset inside the element
}

// UPtr is the integer value of a pointer: object plus byte offset.
type UPtr struct {
	obj *Obj
	off int64
}

type SliceV struct {
	obj      *Obj
	off      int // slot offset
	len, cap int // elements
}

type IfaceV struct {
	t types.Type
	v Value
}

type FuncV struct {
	fn   *ssa.Function
	bind []Value
	intr *Intrinsic // engine-implemented function value
	bi   *ssa.Builtin
	gofn func(g *G, args []Value) Value
}

type mapEntry struct {
	k, v Value
	seq  int
	dead bool
	conc bool
}

type MapObj struct {
	id     int
	ents   []mapEntry
	idx    map[string]int // concrete key -> entry index
	symKey bool           // some live key is not fully concrete
	n      int
	base   bool
	saved  bool
	nextSq int
	sh     *shadow
}

type IterV struct {
	m       *MapObj
	seen    map[int]bool
	strv    *SliceV
	pos     int
	started int
	lastSeq int
}

type OpaqueF struct{ name string } // unknown float

var nilPtr = Value{k: KPtr}

func mkInt(w uint8, v uint64) Value { return Value{k: KInt, w: w, n: v & mask(w)} }
func mkBool(b bool) Value {
	if b {
		return Value{k: KBool, n: 1}
	}
	return Value{k: KBool}
}
func mkPtr(o *Obj, off int) Value { return Value{k: KPtr, n: uint64(off), x: o} }

func (v Value) isSym() bool {
	if v.k != KInt && v.k != KBool {
		return false
	}
	_, ok := v.x.(*Term)
	return ok
}

// layout of a type in slots
type layout struct {
	n     int
	size  int64
	offs  []int64
	flds  []int     // struct: slot offset of each field
	fl    []*layout // struct fields
	elem  *layout   // array
	alen  int
	zero  []Value
	kind  Kind
	w     uint8
	typ   types.Type
	isAgg bool
}

var sizes = types.SizesFor("gc", "amd64")

type layouts struct {
	m map[types.Type]*layout
}

func basicKind(t types.Type) (Kind, uint8) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return KBool, 0
		case types.Int8, types.Uint8:
			return KInt, 8
		case types.Int16, types.Uint16:
			return KInt, 16
		case types.Int32, types.Uint32, types.UntypedRune:
			return KInt, 32
		case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt:
			return KInt, 64
		case types.Float32, types.Float64, types.UntypedFloat:
			return KFloat, 64
		case types.String, types.UntypedString:
			return KString, 0
		case types.UnsafePointer, types.UntypedNil:
			return KPtr, 0
		case types.Complex64, types.Complex128:
			return KComplex, 0
		}
	case *types.Pointer:
		return KPtr, 0
	case *types.Slice:
		return KSlice, 0
	case *types.Map:
		return KMap, 0
	case *types.Chan:
		return KChan, 0
	case *types.Signature:
		return KFunc, 0
	case *types.Interface:
		return KIface, 0
	case *types.Struct, *types.Array:
		return KAgg, 0
	case *types.Tuple:
		return KTuple, 0
	}
	panic(fmt.Sprintf("basicKind %v", t))
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}

const maxEagerLayout = 4096

func (ls *layouts) get(t types.Type) *layout {
	if l, ok := ls.m[t]; ok {
		return l
	}
	l := &layout{typ: t}
	ls.m[t] = l
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l.kind, l.isAgg = KAgg, true
		nf := u.NumFields()
		fs := make([]*types.Var, nf)
		for i := range fs {
			fs[i] = u.Field(i)
		}
		boffs := sizes.Offsetsof(fs)
		for i := 0; i < nf; i++ {
			fl := ls.get(u.Field(i).Type())
			l.flds = append(l.flds, l.n)
			l.fl = append(l.fl, fl)
			for j := 0; j < fl.n; j++ {
				l.offs = append(l.offs, boffs[i]+fl.slotOff(j))
				l.zero = append(l.zero, fl.zeroAt(j))
			}
			l.n += fl.n
		}
		l.size = sizes.Sizeof(t)
	case *types.Array:
		l.kind, l.isAgg = KAgg, true
		l.elem = ls.get(u.Elem())
		l.alen = int(u.Len())
		l.n = l.alen * l.elem.n
		l.size = sizes.Sizeof(t)
	case *types.Tuple:
		l.kind = KTuple
		l.n = 1
	default:
		l.kind, l.w = basicKind(t)
		l.n = 1
		l.size = sizes.Sizeof(t)
		l.offs = []int64{0}
		l.zero = []Value{{k: l.kind, w: l.w}}
	}
	return l
}

func (l *layout) slotOff(i int) int64 {
	if l.elem != nil {
		return int64(i/l.elem.n)*l.elem.size + l.elem.slotOff(i%l.elem.n)
	}
	return l.offs[i]
}

func (l *layout) zeroAt(i int) Value {
	if l.elem != nil {
		return l.elem.zeroAt(i % l.elem.n)
	}
	return l.zero[i]
}

func (l *layout) fillZero(dst []Value) {
	if l.n == 0 {
		return
	}
	if l.elem != nil {
		e := l.elem.n
		if e == 0 {
			return
		}
		l.elem.fillZero(dst[:e])
		for i := e; i < l.n; i *= 2 {
			copy(dst[i:l.n], dst[:i])
		}
		return
	}
	copy(dst, l.zero)
}

// slotAt gives the slot that starts at byte offset off within n consecutive elements of the layout
func (l *layout) slotAt(off int64) (int, bool) {
	if l.n == 0 {
		return 0, off == 0
	}
	if l.elem != nil {
		if l.elem.size == 0 {
			return 0, off == 0
		}
		i := int(off / l.elem.size)
		j, ok := l.elem.slotAt(off % l.elem.size)
		return i*l.elem.n + j, ok
	}
	for i, o := range l.offs {
		if o == off {
			return i, true
		}
	}
	return 0, false
}

func (l *layout) zeroValue() Value {
	if !l.isAgg {
		if l.kind == KTuple {
			return Value{k: KTuple}
		}
		return l.zero[0]
	}
	z := make([]Value, l.n)
	l.fillZero(z)
	return Value{k: KAgg, x: z}
}
