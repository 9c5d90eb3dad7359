package main

import (
	"fmt"
	"math/rand"
	"testing"
)

// Random terms must evaluate to what their operations say, whatever the simplifier made of them.

type ref struct {
	t    *Term
	eval func(m map[string]uint64) uint64
	s    string
}

func TestSimplifierRandom(t *testing.T) {
	for seed := int64(0); seed < 20000; seed++ {
		if testing.Verbose() {
			fmt.Println(seed)
		}
		simplifierRun(t, rand.New(rand.NewSource(seed)), seed)
		if t.Failed() {
			return
		}
	}
}

func simplifierRun(t *testing.T, r *rand.Rand, seed int64) {
	ts := NewTerms()
	pool := map[uint8][]ref{}
	add := func(x ref) { pool[x.t.w] = append(pool[x.t.w], x) }
	max := map[string]uint64{}
	widths := []uint8{8, 32, 64}
	consts := []uint64{0, 1, 2, 3, 5, 9, 10, 48, 57, 60, 100, 255, 256, 1000, 3600, 86400, 1000000000, 0x3fffffff, 1 << 63, 1<<63 - 1, ^uint64(0), ^uint64(47), ^uint64(86399)}
	for i := 0; i < 7; i++ {
		w := widths[r.Intn(3)]
		name := fmt.Sprintf("v%d", i)
		var v *Term
		if r.Intn(3) > 0 {
			w = 64
			m := []uint64{1, 8, 9, 23, 59, 99, 999999999}[r.Intn(7)]
			v = ts.VarMax(name, w, m)
			max[name] = m
		} else {
			v = ts.Var(name, w)
			max[name] = mask(w)
		}
		n := v.name
		if n != name {
			max[n] = max[name]
		}
		add(ref{v, func(m map[string]uint64) uint64 { return m[n] }, n})
	}
	ops := []Op{OpAdd, OpAdd, OpAdd, OpSub, OpSub, OpMul, OpMul, OpUDiv, OpURem, OpSDiv, OpSRem, OpShl, OpLshr, OpAshr, OpBAnd, OpBOr, OpBXor}
	pick := func(w uint8) ref {
		p := pool[w]
		if len(p) == 0 || r.Intn(4) == 0 {
			k := consts[r.Intn(len(consts))] & mask(w)
			return ref{ts.Const(w, k), func(map[string]uint64) uint64 { return k }, fmt.Sprint(k)}
		}
		return p[r.Intn(len(p))]
	}
	var bools []ref
	for i := 0; i < 40; i++ {
		w := widths[r.Intn(3)]
		if r.Intn(2) == 0 {
			w = 64
		}
		switch r.Intn(10) {
		case 0, 1:
			a := pick(widths[r.Intn(3)])
			signed := r.Intn(2) == 0
			aw := a.t.w
			add(ref{ts.Resize(a.t, w, signed), func(m map[string]uint64) uint64 {
				v := a.eval(m)
				if signed {
					return uint64(sext64(v, aw)) & mask(w)
				}
				return v & mask(w)
			}, fmt.Sprintf("resize%v%d(%s)", signed, w, a.s)})
		case 2:
			a := pick(w)
			add(ref{ts.Neg(a.t), func(m map[string]uint64) uint64 { return -a.eval(m) & mask(w) }, "neg(" + a.s + ")"})
		case 3:
			a, b := pick(w), pick(w)
			k := r.Intn(5)
			var x *Term
			switch k {
			case 0:
				x = ts.Eq(a.t, b.t)
			case 1:
				x = ts.Ult(a.t, b.t)
			case 2:
				x = ts.Ule(a.t, b.t)
			case 3:
				x = ts.Slt(a.t, b.t)
			case 4:
				x = ts.Sle(a.t, b.t)
			}
			bools = append(bools, ref{x, func(m map[string]uint64) uint64 {
				u, v := a.eval(m), b.eval(m)
				p, q := sext64(u, w), sext64(v, w)
				if [...]bool{u == v, u < v, u <= v, p < q, p <= q}[k] {
					return 1
				}
				return 0
			}, fmt.Sprintf("cmp%d(%s, %s)", k, a.s, b.s)})
		case 4:
			if len(bools) == 0 {
				continue
			}
			c := bools[r.Intn(len(bools))]
			a, b := pick(w), pick(w)
			add(ref{ts.Ite(c.t, a.t, b.t), func(m map[string]uint64) uint64 {
				if c.eval(m) == 1 {
					return a.eval(m)
				}
				return b.eval(m)
			}, fmt.Sprintf("ite(%s, %s, %s)", c.s, a.s, b.s)})
		default:
			op := ops[r.Intn(len(ops))]
			a, b := pick(w), pick(w)
			if op != OpAdd && op != OpSub && r.Intn(3) > 0 {
				k := consts[r.Intn(len(consts))] & mask(w)
				b = ref{ts.Const(w, k), func(map[string]uint64) uint64 { return k }, fmt.Sprint(k)}
			}
			add(ref{ts.Bin(op, a.t, b.t), func(m map[string]uint64) uint64 { return evalBV(op, w, a.eval(m), b.eval(m)) & mask(w) },
				fmt.Sprintf("%s%d(%s, %s)", opNames[op], w, a.s, b.s)})
		}
	}
	for i := 0; i < 12; i++ {
		m := map[string]uint64{}
		for n, x := range max {
			switch r.Intn(4) {
			case 0:
				m[n] = 0
			case 1:
				m[n] = x
			default:
				m[n] = r.Uint64()
				if x != ^uint64(0) {
					m[n] %= x + 1
				}
			}
		}
		for _, p := range pool {
			for _, x := range p {
				want, got := x.eval(m), ts.Eval(x.t, m)
				if want != got || want > x.t.ub {
					t.Fatalf("seed %d: %s\nis %s\nwant %d, got %d, bound %d", seed, x.s, show(x.t, 0), want, got, x.t.ub)
				}
			}
		}
		for _, x := range bools {
			if want, got := x.eval(m), ts.Eval(x.t, m); want != got {
				t.Fatalf("seed %d: %s\nis %s\nwant %d, got %d", seed, x.s, show(x.t, 0), want, got)
			}
		}
	}
}
