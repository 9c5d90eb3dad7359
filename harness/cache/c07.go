package cache

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

// zzLru is the reference: most recently used first.
type zzLru struct {
	max, cost int // cost per entry besides its bytes
	vals      []string
}

func (m *zzLru) size() int {
	n := 0
	for _, v := range m.vals {
		n += m.cost + len(v)
	}
	return n
}

func (m *zzLru) touch(v string) bool {
	for i := range m.vals {
		if m.vals[i] == v {
			copy(m.vals[1:i+1], m.vals[:i])
			m.vals[0] = v
			return true
		}
	}
	return false
}

func (m *zzLru) set(v string) {
	if m.touch(v) {
		return
	}
	for m.size() >= m.max {
		m.vals = m.vals[:len(m.vals)-1]
	}
	m.vals = append([]string{v}, m.vals...)
}

func zzCost() int {
	c := NewLRUCache(1 << 20)
	c.Set("abc")
	return c.Size() - 3
}

func zzCheckLru(ops int, max int, lens int, final bool) {
	m := &zzLru{max: max, cost: zzCost()}
	c := NewLRUCache(max)
	vsym.Option("maxsteps", 2000000)
	for i := 0; i < ops; i++ {
		v := vsym.String("v", 1+vsym.Choose("len", lens))
		if vsym.Bool("set") {
			before := c.Count()
			c.Set(v)
			m.set(v)
			vsym.Assert(c.Size() < max+m.cost+len(v) || c.Count() == before, "the size is more than one entry above the maximum")
			if c.Count() <= before {
				vsym.Reach("evicted")
			}
		} else {
			got := c.Get(v)
			if m.touch(v) {
				vsym.Assert(got == v, "a retained entry was not found or is a different string")
				vsym.Reach("hit")
			} else {
				vsym.Assert(got == "", "an evicted or unknown entry was found")
			}
		}
		vsym.Assert(c.Count() == len(m.vals), "wrong number of entries")
		vsym.Assert(c.Size() == m.size(), "wrong size")
	}
	// look everything up, least recently used first so that the order stays as it is
	for i := len(m.vals) - 1; i >= 0 && final; i-- {
		v := m.vals[len(m.vals)-1]
		got := c.Get(v)
		vsym.Assert(got == v, "a retained entry was not found")
		m.touch(v)
	}
	vsym.Reach("done")
}

// 6 operations (thorough: 7), each a set or get of an arbitrary one byte string, maximum sizes from 1 to 4 entries and one byte
//gosym: quick=150 thorough=1500 reach=done,hit,evicted
func ZZC07_OneByte() {
	cost := zzCost() + 1
	n := 6
	if vsym.Thorough() {
		n = 7
	}
	maxes := []int{1, cost, cost + 1, 2 * cost, 2*cost + 1, 3 * cost, 4*cost - 1}
	zzCheckLru(n, maxes[vsym.Choose("max", len(maxes))], 1, true)
}

// 5 operations (thorough: 6) with strings of one or two bytes
//gosym: quick=150 thorough=1500 reach=done,hit,evicted
func ZZC07_TwoLengths() {
	cost := zzCost()
	n := 5
	if vsym.Thorough() {
		n = 6
	}
	maxes := []int{cost + 2, 2*cost + 2, 2*cost + 3, 2*cost + 4, 3*cost + 5}
	zzCheckLru(n, maxes[vsym.Choose("max", len(maxes))], 2, true)
}

// n sets of different strings of 1..40 bytes, a get of an arbitrary one of them, and one more string of arbitrary length up
// to 400 which evicts several at once when it is followed by another
//gosym: quick=100 thorough=300 reach=done,several
func ZZC07_Lengths() {
	cost := zzCost()
	max := 6*cost + 60
	m := &zzLru{max: max, cost: cost}
	c := NewLRUCache(max)
	vsym.Option("maxsteps", 2000000)
	mk := func(k, n int) string {
		b := make([]byte, n)
		for i := range b {
			b[i] = byte('a' + k)
		}
		return string(b)
	}
	lens := []int{1, 40, 13, 7, 25, 3}
	set := func(v string) {
		n := c.Count()
		c.Set(v)
		m.set(v)
		if c.Count() < n-1 {
			vsym.Reach("several")
		}
		vsym.Assert(c.Count() == len(m.vals), "wrong number of entries")
		vsym.Assert(c.Size() == m.size(), "wrong size")
		vsym.Assert(c.Size() < max+m.cost+len(v), "the size is more than one entry above the maximum")
	}
	for k, n := range lens {
		set(mk(k, n))
	}
	for r := 0; r < 2; r++ {
		if g := vsym.Choose("get", len(lens)+1); g < len(lens) {
			got := c.Get(mk(g, lens[g]))
			want := ""
			if m.touch(mk(g, lens[g])) {
				want = mk(g, lens[g])
			}
			vsym.Assert(got == want, "wrong lookup")
		}
		ns := []int{1, 20, 100, 260, 400, 1000}
		set(mk(10+r, ns[vsym.Choose("len", len(ns))]))
	}
	set("last")
	for _, v := range append([]string{}, m.vals...) {
		vsym.Assert(c.Get(v) == v, "a retained entry was not found")
	}
	vsym.Reach("done")
}
