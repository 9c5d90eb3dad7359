package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type opKind uint8

const (
	oReg opKind = iota
	oConst
	oGlobal
)

type opnd struct {
	kind opKind
	reg  int
	val  Value
	glob *ssa.Global
}

type iop uint8

const (
	iBad iop = iota
	iAlloc
	iBinOp
	iCall
	iChangeInterface
	iChangeType
	iConvert
	iDefer
	iExtract
	iField
	iFieldAddr
	iGo
	iIf
	iIndex
	iIndexAddr
	iJump
	iLookup
	iMakeChan
	iMakeClosure
	iMakeInterface
	iMakeMap
	iMakeSlice
	iMapUpdate
	iNext
	iPanic
	iPhi
	iRange
	iReturn
	iRunDefers
	iSelect
	iSend
	iSlice
	iStore
	iTypeAssert
	iDeref
	iUnOp
	iRecv
	iNop
	iSliceToArrayPtr
)

type cins struct {
	op     iop
	in     ssa.Instruction
	dst    int
	ops    []opnd
	lay    *layout
	lay2   *layout
	tok    token.Token
	signed bool
	w      uint8
	n      int
	t, t2  types.Type
	common *ssa.CallCommon
	callee *fnInfo
	bi     string
	flag   bool
	kind   Kind
	kind2  Kind
	w2     uint8
	sig2   bool
}

type cblock struct {
	b     *ssa.BasicBlock
	phis  []cins
	ins   []cins
	succs []int
	preds []int
	pred1 bool // If with region attempted before
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	nregs    int
	params   []int
	fvs      []int
	blocks   []*cblock
	hasDef   bool
	intr     *Intrinsic
	compiled bool
	repo     bool
	recover  int
	simple   int // 0 unknown, 1 can be evaluated without control flow, 2 no
}

func (w *Wk) fn(f *ssa.Function) *fnInfo {
	if fi, ok := w.fns[f]; ok {
		return fi
	}
	fi := &fnInfo{fn: f, name: f.String(), recover: -1}
	w.fns[f] = fi
	if o := f.Origin(); o != nil && o != f {
		fi.intr = w.findIntrinsic(o.String(), o)
	}
	if fi.intr == nil {
		fi.intr = w.findIntrinsic(fi.name, f)
	}
	fi.repo = strings.Contains(fi.name, w.prog.module)
	return fi
}

func (w *Wk) compile(fi *fnInfo) {
	fi.compiled = true
	f := fi.fn
	regs := map[ssa.Value]int{}
	alloc := func(v ssa.Value) int {
		r := fi.nregs
		regs[v] = r
		fi.nregs++
		return r
	}
	for _, p := range f.Params {
		fi.params = append(fi.params, alloc(p))
	}
	for _, p := range f.FreeVars {
		fi.fvs = append(fi.fvs, alloc(p))
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				alloc(v)
			}
			if _, ok := in.(*ssa.Defer); ok {
				fi.hasDef = true
			}
		}
	}
	op := func(v ssa.Value) opnd {
		switch x := v.(type) {
		case *ssa.Const:
			return opnd{kind: oConst, val: w.constVal(x)}
		case *ssa.Global:
			return opnd{kind: oGlobal, glob: x}
		case *ssa.Function:
			return opnd{kind: oConst, val: Value{k: KFunc, x: &FuncV{fn: x}}}
		case *ssa.Builtin:
			return opnd{kind: oConst, val: Value{k: KFunc, x: &FuncV{bi: x}}}
		}
		r, ok := regs[v]
		if !ok {
			panic(engineError("no register for " + v.String() + " in " + fi.name))
		}
		return opnd{kind: oReg, reg: r}
	}
	if f.Recover != nil {
		fi.recover = f.Recover.Index
	}
	for _, b := range f.Blocks {
		cb := &cblock{b: b}
		for _, s := range b.Succs {
			cb.succs = append(cb.succs, s.Index)
		}
		for _, s := range b.Preds {
			cb.preds = append(cb.preds, s.Index)
		}
		for _, in := range b.Instrs {
			c := cins{in: in, dst: -1}
			if v, ok := in.(ssa.Value); ok {
				c.dst = regs[v]
			}
			add := func(vs ...ssa.Value) {
				for _, v := range vs {
					if v == nil {
						c.ops = append(c.ops, opnd{kind: oConst})
						continue
					}
					c.ops = append(c.ops, op(v))
				}
			}
			switch x := in.(type) {
			case *ssa.DebugRef:
				continue
			case *ssa.Phi:
				c.op = iPhi
				add(x.Edges...)
				cb.phis = append(cb.phis, c)
				continue
			case *ssa.Alloc:
				c.op = iAlloc
				c.t = x.Type().Underlying().(*types.Pointer).Elem()
				c.lay = w.ls.get(c.t)
			case *ssa.BinOp:
				c.op = iBinOp
				c.tok = x.Op
				add(x.X, x.Y)
				c.t = x.X.Type()
				c.signed = isSigned(x.X.Type())
				c.kind, c.w = basicKind(x.X.Type())
				c.sig2 = isSigned(x.Y.Type())
			case *ssa.UnOp:
				add(x.X)
				switch x.Op {
				case token.MUL:
					c.op = iDeref
					c.lay = w.ls.get(x.Type())
				case token.ARROW:
					c.op = iRecv
					c.flag = x.CommaOk
					c.t = x.X.Type().Underlying().(*types.Chan).Elem()
					c.lay = w.ls.get(c.t)
				default:
					c.op = iUnOp
					c.tok = x.Op
					c.kind, c.w = basicKind(x.X.Type())
				}
			case *ssa.Call:
				c.op = iCall
				w.compileCall(&c, &x.Call, add)
			case *ssa.Go:
				c.op = iGo
				w.compileCall(&c, &x.Call, add)
			case *ssa.Defer:
				c.op = iDefer
				w.compileCall(&c, &x.Call, add)
			case *ssa.ChangeInterface:
				c.op = iChangeInterface
				add(x.X)
			case *ssa.ChangeType:
				c.op = iChangeType
				add(x.X)
			case *ssa.Convert:
				c.op = iConvert
				add(x.X)
				c.t, c.t2 = x.X.Type(), x.Type()
				c.kind, c.w = basicKind(c.t)
				c.kind2, c.w2 = basicKind(c.t2)
				c.signed = isSigned(c.t)
				c.sig2 = isSigned(c.t2)
			case *ssa.Extract:
				c.op = iExtract
				add(x.Tuple)
				c.n = x.Index
			case *ssa.Field:
				c.op = iField
				add(x.X)
				l := w.ls.get(x.X.Type())
				c.n = l.flds[x.Field]
				c.lay = l.fl[x.Field]
			case *ssa.FieldAddr:
				c.op = iFieldAddr
				add(x.X)
				l := w.ls.get(x.X.Type().Underlying().(*types.Pointer).Elem())
				c.n = l.flds[x.Field]
			case *ssa.If:
				c.op = iIf
				add(x.Cond)
			case *ssa.Index:
				c.op = iIndex
				add(x.X, x.Index)
				c.signed = isSigned(x.Index.Type())
				if _, ok := x.X.Type().Underlying().(*types.Array); ok {
					c.lay = w.ls.get(x.Type())
					c.n = w.ls.get(x.X.Type()).alen
				}
			case *ssa.IndexAddr:
				c.op = iIndexAddr
				add(x.X, x.Index)
				c.signed = isSigned(x.Index.Type())
				switch u := x.X.Type().Underlying().(type) {
				case *types.Slice:
					c.lay = w.ls.get(u.Elem())
				case *types.Pointer:
					a := u.Elem().Underlying().(*types.Array)
					c.lay = w.ls.get(a.Elem())
					c.n = int(a.Len())
					c.flag = true
				}
			case *ssa.Jump:
				c.op = iJump
			case *ssa.Lookup:
				c.op = iLookup
				add(x.X, x.Index)
				c.flag = x.CommaOk
				c.signed = isSigned(x.Index.Type())
				if m, ok := x.X.Type().Underlying().(*types.Map); ok {
					c.lay = w.ls.get(m.Elem())
				}
			case *ssa.MakeChan:
				c.op = iMakeChan
				add(x.Size)
				c.t = x.Type().Underlying().(*types.Chan).Elem()
			case *ssa.MakeClosure:
				c.op = iMakeClosure
				add(x.Fn)
				add(x.Bindings...)
			case *ssa.MakeInterface:
				c.op = iMakeInterface
				add(x.X)
				c.t = w.canon(x.X.Type())
			case *ssa.MakeMap:
				c.op = iMakeMap
				if x.Reserve != nil {
					add(x.Reserve)
				}
			case *ssa.MakeSlice:
				c.op = iMakeSlice
				add(x.Len, x.Cap)
				c.t = x.Type().Underlying().(*types.Slice).Elem()
				c.lay = w.ls.get(c.t)
			case *ssa.MapUpdate:
				c.op = iMapUpdate
				add(x.Map, x.Key, x.Value)
			case *ssa.Next:
				c.op = iNext
				add(x.Iter)
				c.flag = x.IsString
				if !x.IsString {
					tt := x.Type().(*types.Tuple)
					if b, ok := tt.At(1).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Invalid {
						c.lay = w.ls.get(tt.At(1).Type())
					}
					if b, ok := tt.At(2).Type().Underlying().(*types.Basic); !ok || b.Kind() != types.Invalid {
						c.lay2 = w.ls.get(tt.At(2).Type())
					}
				}
			case *ssa.Panic:
				c.op = iPanic
				add(x.X)
			case *ssa.Range:
				c.op = iRange
				add(x.X)
			case *ssa.Return:
				c.op = iReturn
				add(x.Results...)
			case *ssa.RunDefers:
				c.op = iRunDefers
			case *ssa.Select:
				c.op = iSelect
				for _, s := range x.States {
					add(s.Chan, s.Send)
				}
				c.flag = x.Blocking
			case *ssa.Send:
				c.op = iSend
				add(x.Chan, x.X)
			case *ssa.Slice:
				c.op = iSlice
				add(x.X, x.Low, x.High, x.Max)
				c.kind, _ = basicKind(x.X.Type())
				if p, ok := x.X.Type().Underlying().(*types.Pointer); ok {
					a := p.Elem().Underlying().(*types.Array)
					c.lay = w.ls.get(a.Elem())
					c.n = int(a.Len())
				} else if s, ok := x.X.Type().Underlying().(*types.Slice); ok {
					c.lay = w.ls.get(s.Elem())
				} else {
					c.lay = w.ls.get(types.Typ[types.Uint8])
				}
			case *ssa.SliceToArrayPointer:
				c.op = iSliceToArrayPtr
				add(x.X)
				c.n = int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
			case *ssa.Store:
				c.op = iStore
				add(x.Addr, x.Val)
				c.lay = w.ls.get(x.Val.Type())
			case *ssa.TypeAssert:
				c.op = iTypeAssert
				add(x.X)
				c.flag = x.CommaOk
				c.t = w.canon(x.AssertedType)
				c.lay = w.ls.get(x.AssertedType)
			default:
				c.op = iBad
			}
			cb.ins = append(cb.ins, c)
		}
		fi.blocks = append(fi.blocks, cb)
	}
}

func (w *Wk) compileCall(c *cins, cc *ssa.CallCommon, add func(...ssa.Value)) {
	c.common = cc
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		c.bi = b.Name()
		if len(cc.Args) > 0 {
			c.t = cc.Args[0].Type()
		}
		add(cc.Args...)
		return
	}
	if f, ok := cc.Value.(*ssa.Function); ok && !cc.IsInvoke() {
		c.callee = w.fn(f)
		add(cc.Args...)
		return
	}
	add(cc.Value)
	add(cc.Args...)
}

func (w *Wk) constVal(c *ssa.Const) Value {
	ct := c.Type()
	if bt, ok := ct.(*types.Basic); ok && bt.Info()&types.IsUntyped != 0 && bt.Kind() != types.UntypedNil {
		ct = types.Default(bt)
	}
	l := w.ls.get(ct)
	if c.Value == nil {
		return l.zeroValue()
	}
	if l.isAgg {
		return l.zeroValue()
	}
	k, wd := basicKind(ct)
	switch k {
	case KBool:
		return mkBool(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return mkInt(wd, uint64(i))
		}
		u, _ := constant.Uint64Val(v)
		return mkInt(wd, u)
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		if b, ok := ct.Underlying().(*types.Basic); ok && b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return mkFloat(f)
	case KString:
		if c.Value.Kind() == constant.String {
			return w.str(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return w.str(string(rune(i)))
	}
	return Value{k: k}
}

func mkFloat(f float64) Value { return Value{k: KFloat, w: 64, n: math.Float64bits(f)} }
func fl(v Value) float64      { return math.Float64frombits(v.n) }
