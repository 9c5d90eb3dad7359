package main

import (
	"fmt"
	"math"
	"math/bits"
	"strings"
)

// Terms: hash-consed bit-vector (width 1..64) and boolean (width 0) expressions.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpShl
	OpLshr
	OpAshr
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpNeg
	OpExtract // k = hi<<8|lo
	OpZext
	OpSext
	// floating point numbers are 64 bits wide, in their IEEE representation
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFLt
	OpFLe
	OpFEq
	OpFofS  // from a signed integer
	OpFofU  // from an unsigned integer
	OpFtoS  // to a signed integer
	OpFtoU  // to an unsigned integer
	OpFTrn  // rounded to an integral number, k: 0 towards zero, 1 down, 2 up
	OpF32   // rounded to 32 bits
)

var opNames = map[Op]string{OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpUle: "bvule",
	OpSlt: "bvslt", OpSle: "bvsle", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr", OpBAnd: "bvand", OpBOr: "bvor",
	OpBXor: "bvxor", OpBNot: "bvnot", OpNeg: "bvneg",
	OpFAdd: "fp.add", OpFSub: "fp.sub", OpFMul: "fp.mul", OpFDiv: "fp.div", OpFLt: "fp.lt", OpFLe: "fp.leq", OpFEq: "fp.eq"}

type Term struct {
	id      int
	op      Op
	w       uint8 // 0 = bool
	a, b, c *Term
	k       uint64
	name    string
	evGen   uint32
	evVal   uint64
	defGen  int    // solver generation in which this term was defined
	ub      uint64 // cached unsigned upper bound
	lb      uint64 // lower bound
	lift    bool   // see calcLift
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int
	k       uint64
	name    string
}

type Terms struct {
	lifting bool // in liftAdd
	tab     map[termKey]*Term
	next    int
	True    *Term
	False   *Term
	vars    []*Term
	evGen   uint32
}

func NewTerms() *Terms {
	ts := &Terms{tab: map[termKey]*Term{}}
	ts.True = ts.mk(OpConst, 0, nil, nil, nil, 1, "")
	ts.False = ts.mk(OpConst, 0, nil, nil, nil, 0, "")
	return ts
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	return int64(v<<(64-w)) >> (64 - w)
}

func (ts *Terms) mk(op Op, w uint8, a, b, c *Term, k uint64, name string) *Term {
	key := termKey{op, w, tid(a), tid(b), tid(c), k, name}
	if t, ok := ts.tab[key]; ok {
		return t
	}
	t := &Term{id: ts.next, op: op, w: w, a: a, b: b, c: c, k: k, name: name}
	ts.next++
	t.ub = calcUB(t)
	t.lb = calcLB(t)
	t.lift = calcLift(t)
	ts.tab[key] = t
	if op == OpVar {
		ts.vars = append(ts.vars, t)
	}
	return t
}

func calcUB(t *Term) uint64 {
	m := mask(t.w)
	if t.w == 0 {
		return 1
	}
	switch t.op {
	case OpConst:
		return t.k
	case OpVar:
		if t.k != 0 {
			return t.k // a variable with a bound, see VarMax
		}
	case OpZext:
		return t.a.ub
	case OpIte:
		return max(t.b.ub, t.c.ub)
	case OpBAnd:
		return min(t.a.ub, t.b.ub)
	case OpBOr, OpBXor:
		n := bits.Len64(t.a.ub | t.b.ub)
		if n >= 64 {
			return m
		}
		return (uint64(1) << n) - 1
	case OpLshr:
		if t.b.op == OpConst && t.b.k < 64 {
			return t.a.ub >> t.b.k
		}
		return t.a.ub
	case OpURem:
		if t.b.op == OpConst && t.b.k > 0 {
			return min(t.a.ub, t.b.k-1)
		}
	case OpUDiv:
		if t.b.op == OpConst && t.b.k > 0 {
			return t.a.ub / t.b.k
		}
	case OpAdd:
		s, carry := bits.Add64(t.a.ub, t.b.ub, 0)
		if carry == 0 && s <= m {
			return s
		}
	case OpMul:
		hi, lo := bits.Mul64(t.a.ub, t.b.ub)
		if hi == 0 && lo <= m {
			return lo
		}
	case OpShl:
		if t.b.op == OpConst && t.b.k < 64 && bits.Len64(t.a.ub)+int(t.b.k) <= int(t.w) {
			return t.a.ub << t.b.k
		}
	case OpExtract:
		if t.k&0xff == 0 {
			return min(t.a.ub, m)
		}
	}
	return m
}

// calcLB is a lower bound of t as an unsigned number.
func calcLB(t *Term) uint64 {
	if t.w == 0 {
		return 0
	}
	switch t.op {
	case OpConst:
		return t.k
	case OpZext:
		return t.a.lb
	case OpIte:
		return min(t.b.lb, t.c.lb)
	case OpBOr:
		return max(t.a.lb, t.b.lb)
	case OpLshr:
		if t.b.op == OpConst && t.b.k < 64 {
			return t.a.lb >> t.b.k
		}
	case OpUDiv:
		if t.b.op == OpConst && t.b.k > 0 {
			return t.a.lb / t.b.k
		}
	case OpAdd:
		// without overflow at the top there is none at the bottom
		if s, carry := bits.Add64(t.a.ub, t.b.ub, 0); carry == 0 && s <= mask(t.w) {
			return t.a.lb + t.b.lb
		}
	case OpMul:
		if hi, lo := bits.Mul64(t.a.ub, t.b.ub); hi == 0 && lo <= mask(t.w) {
			return t.a.lb * t.b.lb
		}
	case OpShl:
		if t.b.op == OpConst && t.b.k < 64 && bits.Len64(t.a.ub)+int(t.b.k) <= int(t.w) {
			return t.a.lb << t.b.k
		}
	}
	return 0
}

func (ts *Terms) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v != 0 {
			return ts.True
		}
		return ts.False
	}
	return ts.mk(OpConst, w, nil, nil, nil, v&mask(w), "")
}

func (ts *Terms) Var(name string, w uint8) *Term { return ts.mk(OpVar, w, nil, nil, nil, 0, name) }

// VarMax is a variable of which the caller asserts (with RawUle) that it is at most max; max is part of its name.
func (ts *Terms) VarMax(name string, w uint8, max uint64) *Term {
	return ts.mk(OpVar, w, nil, nil, nil, max, name)
}

// RawUle is v <= c, not simplified.
func (ts *Terms) RawUle(v *Term, c uint64) *Term {
	return ts.mk(OpUle, 0, v, ts.Const(v.w, c), nil, 0, "")
}

func (ts *Terms) Bool(b bool) *Term {
	if b {
		return ts.True
	}
	return ts.False
}

func (ts *Terms) Not(a *Term) *Term {
	switch {
	case a == ts.True:
		return ts.False
	case a == ts.False:
		return ts.True
	case a.op == OpNot:
		return a.a
	case a.op == OpUlt:
		return ts.Ule(a.b, a.a)
	case a.op == OpUle:
		return ts.Ult(a.b, a.a)
	case a.op == OpSlt:
		return ts.Sle(a.b, a.a)
	case a.op == OpSle:
		return ts.Slt(a.b, a.a)
	}
	return ts.mk(OpNot, 0, a, nil, nil, 0, "")
}

func (ts *Terms) isNeg(a, b *Term) bool {
	return (a.op == OpNot && a.a == b) || (b.op == OpNot && b.a == a)
}

func (ts *Terms) And(a, b *Term) *Term {
	switch {
	case a == ts.False || b == ts.False:
		return ts.False
	case a == ts.True:
		return b
	case b == ts.True:
		return a
	case a == b:
		return a
	case ts.isNeg(a, b):
		return ts.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpAnd, 0, a, b, nil, 0, "")
}

func (ts *Terms) Or(a, b *Term) *Term {
	switch {
	case a == ts.True || b == ts.True:
		return ts.True
	case a == ts.False:
		return b
	case b == ts.False:
		return a
	case a == b:
		return a
	case ts.isNeg(a, b):
		return ts.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpOr, 0, a, b, nil, 0, "")
}

func (ts *Terms) Ite(c, a, b *Term) *Term {
	switch {
	case c == ts.True:
		return a
	case c == ts.False:
		return b
	case a == b:
		return a
	case c.op == OpNot:
		return ts.Ite(c.a, b, a)
	}
	if a.w == 0 {
		switch {
		case a == ts.True && b == ts.False:
			return c
		case a == ts.False && b == ts.True:
			return ts.Not(c)
		case a == ts.True:
			return ts.Or(c, b)
		case a == ts.False:
			return ts.And(ts.Not(c), b)
		case b == ts.True:
			return ts.Or(ts.Not(c), a)
		case b == ts.False:
			return ts.And(c, a)
		}
	}
	if a.op == OpIte && a.a == c {
		a = a.b
	}
	if b.op == OpIte && b.a == c {
		b = b.c
	}
	if a == b {
		return a
	}
	return ts.mk(OpIte, a.w, c, a, b, 0, "")
}

// number of ite leaves, all constant, bounded
func constLeaves(t *Term, budget *int) bool {
	if *budget <= 0 {
		return false
	}
	*budget--
	if t.op == OpConst {
		return true
	}
	if t.op == OpIte {
		return constLeaves(t.b, budget) && constLeaves(t.c, budget)
	}
	return false
}

func (ts *Terms) mapIte(t *Term, f func(*Term) *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(*Term) *Term
	rec = func(t *Term) *Term {
		if t.op == OpIte {
			if r, ok := memo[t]; ok {
				return r
			}
			r := ts.Ite(t.a, rec(t.b), rec(t.c))
			memo[t] = r
			return r
		}
		return f(t)
	}
	return rec(t)
}

func (ts *Terms) iteConst(t *Term) bool {
	if t.op != OpIte {
		return false
	}
	n := 600
	return constLeaves(t, &n)
}

func (ts *Terms) Eq(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.op == OpConst && b.op == OpConst {
		return ts.Bool(a.k == b.k)
	}
	if a.op == OpConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b == ts.True {
			return a
		}
		if b == ts.False {
			return ts.Not(a)
		}
	} else if a.lb > b.ub || b.lb > a.ub {
		return ts.False
	} else if b.op == OpConst {
		switch a.op {
		case OpZext:
			if b.k > mask(a.a.w) {
				return ts.False
			}
			return ts.Eq(a.a, ts.Const(a.a.w, b.k))
		case OpSext:
			if uint64(sext64(b.k&mask(a.a.w), a.a.w))&mask(a.w) != b.k {
				return ts.False
			}
			return ts.Eq(a.a, ts.Const(a.a.w, b.k))
		case OpIte:
			if ts.iteConst(a) {
				return ts.mapIte(a, func(t *Term) *Term { return ts.Bool(t.k == b.k) })
			}
			if a.b.op == OpConst && a.b.k != b.k {
				return ts.And(ts.Not(a.a), ts.Eq(a.c, b))
			}
			if a.c.op == OpConst && a.c.k != b.k {
				return ts.And(a.a, ts.Eq(a.b, b))
			}
		case OpAdd:
			if t := ts.linZero(a, b.k); t != nil {
				return t
			}
			if a.b.op == OpConst {
				return ts.Eq(a.a, ts.Const(a.w, b.k-a.b.k))
			}
		case OpSub:
			if a.b.op == OpConst {
				return ts.Eq(a.a, ts.Const(a.w, b.k+a.b.k))
			}
		case OpBXor:
			if a.b.op == OpConst {
				return ts.Eq(a.a, ts.Const(a.w, b.k^a.b.k))
			}
		}
	} else if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return ts.Eq(a.a, b.a)
	} else if a.op == OpSext && b.op == OpSext && a.a.w == b.a.w {
		return ts.Eq(a.a, b.a)
	}
	if a.w > 0 {
		if eq, known := ts.linEq(a, b); known {
			return ts.Bool(eq)
		}
	}
	if b.op != OpConst && a.id > b.id {
		a, b = b, a
	}
	return ts.mk(OpEq, 0, a, b, nil, 0, "")
}

func (ts *Terms) Ult(a, b *Term) *Term {
	if a == b {
		return ts.False
	}
	if a.op == OpConst && b.op == OpConst {
		return ts.Bool(a.k < b.k)
	}
	if a.ub < b.lb {
		return ts.True
	}
	if a.lb >= b.ub {
		return ts.False
	}
	if b.op == OpConst {
		if a.op == OpZext {
			return ts.Ult(a.a, ts.Const(a.a.w, b.k)) // b.k <= ub(a) so fits
		}
		if a.op == OpAdd && a.b.op == OpConst && a.a.ub <= mask(a.w)-a.b.k {
			if b.k <= a.b.k {
				return ts.False
			}
			return ts.Ult(a.a, ts.Const(a.w, b.k-a.b.k))
		}
		if ts.iteConst(a) {
			return ts.mapIte(a, func(t *Term) *Term { return ts.Bool(t.k < b.k) })
		}
		if b.k == 1 {
			return ts.Eq(a, ts.Const(a.w, 0))
		}
	}
	if a.op == OpConst {
		if b.op == OpZext {
			return ts.Ult(ts.Const(b.a.w, a.k), b.a)
		}
		if b.op == OpAdd && b.b.op == OpConst && b.a.ub <= mask(b.w)-b.b.k {
			if a.k < b.b.k {
				return ts.True
			}
			return ts.Ult(ts.Const(b.w, a.k-b.b.k), b.a)
		}
		if ts.iteConst(b) {
			return ts.mapIte(b, func(t *Term) *Term { return ts.Bool(a.k < t.k) })
		}
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return ts.Ult(a.a, b.a)
	}
	return ts.mk(OpUlt, 0, a, b, nil, 0, "")
}

func (ts *Terms) Ule(a, b *Term) *Term {
	if a == b || a.ub <= b.lb {
		return ts.True
	}
	if a.lb > b.ub {
		return ts.False
	}
	if b.op == OpConst {
		if b.k >= a.ub {
			return ts.True
		}
		return ts.Ult(a, ts.Const(a.w, b.k+1))
	}
	if a.op == OpConst {
		if a.k == 0 {
			return ts.True
		}
		return ts.Ult(ts.Const(a.w, a.k-1), b)
	}
	if a.op == OpZext && b.op == OpZext && a.a.w == b.a.w {
		return ts.Ule(a.a, b.a)
	}
	return ts.mk(OpUle, 0, a, b, nil, 0, "")
}

func nonneg(t *Term) bool { return t.ub < uint64(1)<<(t.w-1) }

func (ts *Terms) Slt(a, b *Term) *Term {
	if a == b {
		return ts.False
	}
	if a.op == OpConst && b.op == OpConst {
		return ts.Bool(sext64(a.k, a.w) < sext64(b.k, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return ts.Ult(a, b)
	}
	if b.op == OpConst && nonneg(a) && sext64(b.k, b.w) <= 0 {
		return ts.False
	}
	if a.op == OpConst && nonneg(b) && sext64(a.k, a.w) < 0 {
		return ts.True
	}
	if ts.iteConst(a) && b.op == OpConst {
		return ts.mapIte(a, func(t *Term) *Term { return ts.Slt(t, b) })
	}
	if ts.iteConst(b) && a.op == OpConst {
		return ts.mapIte(b, func(t *Term) *Term { return ts.Slt(a, t) })
	}
	// trunc(x / c) < k  <=>  x < k*c   for c>0, k>0 without overflow
	if a.op == OpSDiv && a.b.op == OpConst && b.op == OpConst {
		c, k := sext64(a.b.k, a.w), sext64(b.k, b.w)
		if c > 0 && k > 0 {
			if hi, lo := bits.Mul64(uint64(c), uint64(k)); hi == 0 && lo < uint64(1)<<(a.w-1) {
				return ts.Slt(a.a, ts.Const(a.w, lo))
			}
		}
	}
	if lt, known := ts.linSlt(a, b); known {
		return ts.Bool(lt)
	}
	return ts.mk(OpSlt, 0, a, b, nil, 0, "")
}

func (ts *Terms) Sle(a, b *Term) *Term {
	if a == b {
		return ts.True
	}
	if a.op == OpConst && b.op == OpConst {
		return ts.Bool(sext64(a.k, a.w) <= sext64(b.k, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return ts.Ule(a, b)
	}
	if b.op == OpConst && sext64(b.k, b.w) != sext64(mask(b.w)>>1, b.w) {
		return ts.Slt(a, ts.Const(a.w, b.k+1))
	}
	if a.op == OpConst && a.k != uint64(1)<<(a.w-1) {
		return ts.Slt(ts.Const(a.w, a.k-1), b)
	}
	return ts.mk(OpSle, 0, a, b, nil, 0, "")
}

func evalBV(op Op, w uint8, a, b uint64) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x >= 0 {
				return m
			}
			return 1
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w)>>b) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	}
	panic("evalBV")
}

func isPow2(k uint64) (uint, bool) {
	if k != 0 && k&(k-1) == 0 {
		return uint(bits.TrailingZeros64(k)), true
	}
	return 0, false
}

func (ts *Terms) Bin(op Op, a, b *Term) *Term {
	w := a.w
	if a.w != b.w {
		panic(fmt.Sprintf("width mismatch %d %d in %s", a.w, b.w, opNames[op]))
	}
	if a.op == OpConst && b.op == OpConst {
		return ts.Const(w, evalBV(op, w, a.k, b.k))
	}
	switch op {
	case OpAdd, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.op == OpConst || (b.op != OpConst && a.id > b.id) {
			a, b = b, a
		}
	}
	bc := b.op == OpConst
	switch op {
	case OpAdd:
		if bc && b.k == 0 {
			return a
		}
		if bc && a.op == OpAdd && a.b.op == OpConst {
			return ts.Bin(OpAdd, a.a, ts.Const(w, a.b.k+b.k))
		}
		if bc && a.op == OpSub && a.b.op == OpConst {
			return ts.Bin(OpAdd, a.a, ts.Const(w, b.k-a.b.k))
		}
		if bc && ts.iteConst(a) {
			return ts.mapIte(a, func(t *Term) *Term { return ts.Bin(op, t, b) })
		}
		if t := ts.liftAdd(a, b); t != nil {
			return t
		}
		// x + (y - x) = y
		if b.op == OpSub && b.b == a {
			return b.a
		}
		if a.op == OpSub && a.b == b {
			return a.a
		}
	case OpSub:
		if a == b {
			return ts.Const(w, 0)
		}
		if !bc {
			if t := ts.cancel(a, b); t != nil {
				return t
			}
		}
		if bc {
			return ts.Bin(OpAdd, a, ts.Const(w, -b.k))
		}
		if a.op == OpAdd && a.a == b {
			return a.b
		}
		if a.op == OpAdd && a.b == b {
			return a.a
		}
	case OpMul:
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
			if a.op == OpMul && a.b.op == OpConst {
				return ts.Bin(OpMul, a.a, ts.Const(w, a.b.k*b.k))
			}
		}
	case OpUDiv:
		if bc {
			if b.k == 1 {
				return a
			}
			if n, ok := isPow2(b.k); ok {
				return ts.Bin(OpLshr, a, ts.Const(w, uint64(n)))
			}
			if t := ts.linDiv(a, b.k, false); t != nil {
				return t
			}
		}
	case OpURem:
		if bc {
			if n, ok := isPow2(b.k); ok {
				return ts.Bin(OpBAnd, a, ts.Const(w, (uint64(1)<<n)-1))
			}
			if a.ub < b.k {
				return a
			}
			if t := ts.linDiv(a, b.k, true); t != nil {
				return t
			}
		}
	case OpSDiv:
		if bc && b.k == 1 {
			return a
		}
		if bc && nonneg(a) && nonneg(b) {
			return ts.Bin(OpUDiv, a, b)
		}
		if bc && a.op == OpNeg && nonneg(a.a) && nonneg(b) && b.k > 0 {
			return ts.Neg(ts.Bin(OpUDiv, a.a, b))
		}
		if bc {
			if t := ts.linSDiv(a, b.k, false); t != nil {
				return t
			}
		}
		if bc && a.op == OpMul && a.b.op == OpConst && a.b.k == b.k && nonneg(a) && nonneg(b) {
			return a.a
		}
	case OpSRem:
		if bc && nonneg(a) && nonneg(b) {
			return ts.Bin(OpURem, a, b)
		}
		if bc && a.op == OpNeg && nonneg(a.a) && nonneg(b) && b.k > 0 {
			return ts.Neg(ts.Bin(OpURem, a.a, b))
		}
		if bc {
			if t := ts.linSDiv(a, b.k, true); t != nil {
				return t
			}
		}
	case OpShl, OpLshr, OpAshr:
		if bc && b.k == 0 {
			return a
		}
		if bc && b.k >= uint64(w) && op != OpAshr {
			return ts.Const(w, 0)
		}
		if op == OpLshr && bc && a.ub>>b.k == 0 {
			return ts.Const(w, 0)
		}
		if bc && a.op == op && a.b.op == OpConst && op != OpAshr {
			s := a.b.k + b.k
			if s >= uint64(w) {
				return ts.Const(w, 0)
			}
			return ts.Bin(op, a.a, ts.Const(w, s))
		}
		if op == OpAshr && nonneg(a) && bc {
			return ts.Bin(OpLshr, a, b)
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if bc {
			if b.k == 0 {
				return b
			}
			if b.k == mask(w) {
				return a
			}
			// mask keeps all possibly set bits, or none
			n := bits.Len64(a.ub)
			if n < 64 && b.k&(uint64(1)<<n-1) == 0 {
				return ts.Const(w, 0)
			}
			if m := mask(uint8(n)); n < 64 && n > 0 && b.k&m == m {
				return a
			}
			if a.op == OpBAnd && a.b.op == OpConst {
				return ts.Bin(OpBAnd, a.a, ts.Const(w, a.b.k&b.k))
			}
		}
	case OpBOr:
		if a == b {
			return a
		}
		if bc && b.k == 0 {
			return a
		}
		if bc && b.k == mask(w) {
			return b
		}
	case OpBXor:
		if a == b {
			return ts.Const(w, 0)
		}
		if bc && b.k == 0 {
			return a
		}
		if a.op == OpBXor && a.a == b {
			return a.b
		}
		if a.op == OpBXor && a.b == b {
			return a.a
		}
		if b.op == OpBXor && b.a == a {
			return b.b
		}
		if b.op == OpBXor && b.b == a {
			return b.a
		}
		if bc && a.op == OpBXor && a.b.op == OpConst {
			return ts.Bin(OpBXor, a.a, ts.Const(w, a.b.k^b.k))
		}
	}
	return ts.mk(op, w, a, b, nil, 0, "")
}

func (ts *Terms) BNot(a *Term) *Term {
	if a.op == OpConst {
		return ts.Const(a.w, ^a.k)
	}
	if a.op == OpBNot {
		return a.a
	}
	return ts.mk(OpBNot, a.w, a, nil, nil, 0, "")
}

func (ts *Terms) Neg(a *Term) *Term {
	if a.op == OpConst {
		return ts.Const(a.w, -a.k)
	}
	if a.op == OpNeg {
		return a.a
	}
	return ts.mk(OpNeg, a.w, a, nil, nil, 0, "")
}

// Resize converts to width w, sign- or zero-extending when growing.
func (ts *Terms) Resize(a *Term, w uint8, signed bool) *Term {
	if a.w == w {
		return a
	}
	if a.op == OpConst {
		if signed {
			return ts.Const(w, uint64(sext64(a.k, a.w)))
		}
		return ts.Const(w, a.k)
	}
	if w < a.w {
		return ts.Extract(a, w-1, 0)
	}
	if ts.iteConst(a) {
		return ts.mapIte(a, func(t *Term) *Term { return ts.Resize(t, w, signed) })
	}
	if signed && !nonneg(a) {
		if a.op == OpSext {
			return ts.Resize(a.a, w, true)
		}
		return ts.mk(OpSext, w, a, nil, nil, 0, "")
	}
	if a.op == OpZext {
		return ts.Resize(a.a, w, false)
	}
	if a.op == OpExtract && a.k&0xff == 0 && a.a.ub <= mask(a.w) {
		return ts.Resize(a.a, w, false)
	}
	return ts.mk(OpZext, w, a, nil, nil, 0, "")
}

func (ts *Terms) Extract(a *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	if a.op == OpConst {
		return ts.Const(w, a.k>>lo)
	}
	if a.op == OpExtract {
		l := uint8(a.k & 0xff)
		return ts.Extract(a.a, hi+l, lo+l)
	}
	if (a.op == OpZext || a.op == OpSext) && hi < a.a.w {
		return ts.Extract(a.a, hi, lo)
	}
	if a.op == OpZext && lo == 0 && w > a.a.w {
		return ts.Resize(a.a, w, false)
	}
	if a.op == OpLshr && a.b.op == OpConst && a.b.k < uint64(a.w) && int(hi)+int(a.b.k) < int(a.w) {
		return ts.Extract(a.a, hi+uint8(a.b.k), lo+uint8(a.b.k))
	}
	if a.op == OpAshr && a.b.op == OpConst && a.b.k < uint64(a.w) && int(hi)+int(a.b.k) < int(a.w) {
		return ts.Extract(a.a, hi+uint8(a.b.k), lo+uint8(a.b.k))
	}
	if a.op == OpBAnd && lo == 0 && a.b.op == OpConst {
		return ts.Bin(OpBAnd, ts.Extract(a.a, hi, 0), ts.Const(w, a.b.k))
	}
	if lo == 0 && (a.op == OpBOr || a.op == OpBXor || a.op == OpAdd) && a.b.op == OpConst {
		return ts.Bin(a.op, ts.Extract(a.a, hi, 0), ts.Const(w, a.b.k))
	}
	if ts.iteConst(a) {
		return ts.mapIte(a, func(t *Term) *Term { return ts.Extract(t, hi, lo) })
	}
	return ts.mk(OpExtract, w, a, nil, nil, uint64(hi)<<8|uint64(lo), "")
}

// Eval evaluates under a model (variable name -> value; absent = 0).
func (ts *Terms) Eval(t *Term, model map[string]uint64) uint64 {
	ts.evGen++
	return ts.eval(t, model)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (ts *Terms) eval(t *Term, model map[string]uint64) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if t.evGen == ts.evGen {
		return t.evVal
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = model[t.name]
		if t.w > 0 {
			r &= mask(t.w)
		}
	case OpNot:
		r = 1 - ts.eval(t.a, model)
	case OpAnd:
		r = ts.eval(t.a, model)
		if r != 0 {
			r = ts.eval(t.b, model)
		}
	case OpOr:
		r = ts.eval(t.a, model)
		if r == 0 {
			r = ts.eval(t.b, model)
		}
	case OpEq:
		r = b2u(ts.eval(t.a, model) == ts.eval(t.b, model))
	case OpIte:
		if ts.eval(t.a, model) != 0 {
			r = ts.eval(t.b, model)
		} else {
			r = ts.eval(t.c, model)
		}
	case OpUlt:
		r = b2u(ts.eval(t.a, model) < ts.eval(t.b, model))
	case OpUle:
		r = b2u(ts.eval(t.a, model) <= ts.eval(t.b, model))
	case OpSlt:
		r = b2u(sext64(ts.eval(t.a, model), t.a.w) < sext64(ts.eval(t.b, model), t.a.w))
	case OpSle:
		r = b2u(sext64(ts.eval(t.a, model), t.a.w) <= sext64(ts.eval(t.b, model), t.a.w))
	case OpBNot:
		r = ^ts.eval(t.a, model) & mask(t.w)
	case OpNeg:
		r = -ts.eval(t.a, model) & mask(t.w)
	case OpExtract:
		r = (ts.eval(t.a, model) >> (t.k & 0xff)) & mask(t.w)
	case OpZext:
		r = ts.eval(t.a, model)
	case OpSext:
		r = uint64(sext64(ts.eval(t.a, model), t.a.w)) & mask(t.w)
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFLt, OpFLe, OpFEq:
		r = evalFloat(t.op, t.k, t.w, ts.eval(t.a, model), ts.eval(t.b, model))
	case OpFofS:
		r = math.Float64bits(float64(sext64(ts.eval(t.a, model), t.a.w)))
	case OpFofU, OpFtoS, OpFtoU, OpFTrn, OpF32:
		r = evalFloat(t.op, t.k, t.w, ts.eval(t.a, model), 0)
	default:
		r = evalBV(t.op, t.w, ts.eval(t.a, model), ts.eval(t.b, model))
	}
	t.evGen = ts.evGen
	t.evVal = r
	return r
}

// SMT-LIB rendering of one node, referring to children by name.
func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtRef(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

func smtBody(t *Term) string {
	switch t.op {
	case OpExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.k>>8, t.k&0xff, smtRef(t.a))
	case OpZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	case OpSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, smtRef(t.a))
	}
	if t.op >= OpFAdd {
		f := func(x *Term) string { return "((_ to_fp 11 53) " + smtRef(x) + ")" }
		switch t.op {
		case OpFAdd, OpFSub, OpFMul, OpFDiv:
			return fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", opNames[t.op], f(t.a), f(t.b))
		case OpFLt, OpFLe, OpFEq:
			return fmt.Sprintf("(%s %s %s)", opNames[t.op], f(t.a), f(t.b))
		case OpFofS:
			return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE %s))", smtRef(t.a))
		case OpFofU:
			return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned 11 53) RNE %s))", smtRef(t.a))
		case OpFtoS:
			return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, f(t.a))
		case OpFtoU:
			return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, f(t.a))
		case OpFTrn:
			return fmt.Sprintf("(fp.to_ieee_bv (fp.roundToIntegral %s %s))", []string{"RTZ", "RTN", "RTP"}[t.k], f(t.a))
		case OpF32:
			return fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp 11 53) RNE ((_ to_fp 8 24) RNE %s)))", f(t.a))
		}
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opNames[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteByte(' ')
			sb.WriteString(smtRef(x))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

// define emits definitions of t and everything below it that is not yet defined in this solver generation.
func defineTerm(t *Term, gen int, out *strings.Builder) {
	if t.defGen == gen || t.op == OpConst {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.defGen == gen || f.t.op == OpConst {
			st = st[:len(st)-1]
			continue
		}
		var next *Term
		for f.i < 3 && next == nil {
			switch f.i {
			case 0:
				next = f.t.a
			case 1:
				next = f.t.b
			case 2:
				next = f.t.c
			}
			f.i++
			if next != nil && (next.defGen == gen || next.op == OpConst) {
				next = nil
			}
		}
		if next != nil {
			st = append(st, fr{next, 0})
			continue
		}
		if f.t.op == OpVar {
			fmt.Fprintf(out, "(declare-fun |%s| () %s)\n", f.t.name, sortName(f.t.w))
		} else {
			fmt.Fprintf(out, "(define-fun t%d () %s %s)\n", f.t.id, sortName(f.t.w), smtBody(f.t))
		}
		f.t.defGen = gen
		st = st[:len(st)-1]
	}
}

func evalFloat(op Op, k uint64, w uint8, a, b uint64) uint64 {
	x, y := math.Float64frombits(a), math.Float64frombits(b)
	switch op {
	case OpFAdd:
		return math.Float64bits(x + y)
	case OpFSub:
		return math.Float64bits(x - y)
	case OpFMul:
		return math.Float64bits(x * y)
	case OpFDiv:
		return math.Float64bits(x / y)
	case OpFLt:
		return b2u(x < y)
	case OpFLe:
		return b2u(x <= y)
	case OpFEq:
		return b2u(x == y)
	case OpFofU:
		return math.Float64bits(float64(a))
	case OpFtoS:
		return uint64(int64(x)) & mask(w)
	case OpFtoU:
		return uint64(x) & mask(w)
	case OpFTrn:
		return math.Float64bits([]func(float64) float64{math.Trunc, math.Floor, math.Ceil}[k](x))
	case OpF32:
		return math.Float64bits(float64(float32(x)))
	}
	panic("evalFloat")
}

// Float makes an operation on floating point numbers; r is the width of the result.
func (ts *Terms) Float(op Op, r uint8, k uint64, a, b *Term) *Term {
	if a.op == OpConst && (b == nil || b.op == OpConst) {
		v := uint64(0)
		if b != nil {
			v = b.k
		}
		x := a.k
		if op == OpFofS {
			return ts.Const(r, math.Float64bits(float64(sext64(a.k, a.w))))
		}
		return ts.Const(r, evalFloat(op, k, r, x, v))
	}
	return ts.mk(op, r, a, b, nil, k, "")
}
