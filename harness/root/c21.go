package zipkinproxy

import (
	"time"

	"github.com/flachnetz/dd-zipkin-proxy/proxy"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

const zz2020 = 1577836800000000000

// zzNode is a span and what its corrected times should be.
type zzNode struct {
	span     proxy.Span
	parent   int // index, -1: root
	start    int64
	duration int64
	offset   int64 // passed on to the children
	slack    int64 // both midpoints are rounded to a nanosecond, for each span with four timings above
	own      int64 // the start before one before 2020 is replaced
	got      int64 // the emitted start
}

// zzTime gives an arbitrary time: from 2020 to 2100, or (when broken) before 2020.
func zzTime(name string, broken bool) int64 {
	t := vsym.Int64(name)
	if broken {
		vsym.Assume(t >= 0 && t < zz2020)
	} else {
		vsym.Assume(t >= zz2020+int64(240*time.Hour) && t < 4102444800000000000)
	}
	return t
}

// zzAroundStart gives a time within ten seconds of t.
func zzNear(name string, t int64) int64 {
	d := vsym.Int64(name)
	vsym.Assume(d >= -int64(10*time.Second) && d <= int64(10*time.Second))
	return t + d
}

func zzFour(t proxy.Timings) bool {
	return t.CS != 0 && t.CR != 0 && t.SR != 0 && t.SS != 0
}

// zzAbout says whether got is want but for rounding.
func zzAbout(got, want, slack int64) bool {
	if got == want {
		return true
	}
	return slack > 0 && got-want >= -slack && got-want <= slack
}

// zzSolve computes the corrected times of the nodes, parents first.
func zzSolve(nodes []*zzNode) {
	for _, n := range nodes {
		inherited, below := int64(0), int64(0)
		if n.parent >= 0 {
			inherited = nodes[n.parent].offset
			n.slack = nodes[n.parent].slack
			if zzFour(nodes[n.parent].span.Timings) {
				below = 2
			}
		}
		n.slack += below
		t := n.span.Timings
		n.offset = inherited
		n.start = int64(n.span.Timestamp) + inherited
		n.duration = int64(n.span.Duration)
		if zzFour(t) {
			n.start = int64(t.CS) + inherited
			n.duration = int64(t.CR - t.CS)
			n.offset = inherited + int64((t.CS+t.CR)/2) - int64((t.SR+t.SS)/2)
		}
		n.own = n.start
		if n.parent >= 0 && n.start < zz2020 {
			n.start = nodes[n.parent].start
		}
	}
}

// zzRight says whether got is the right start of n when its parent's is the given one.
func zzRight(n *zzNode, got, parent int64) bool {
	if n.own >= zz2020-n.slack && zzAbout(got, n.own, n.slack) {
		return n.parent < 0 || n.own >= zz2020 || got >= zz2020
	}
	return n.parent >= 0 && n.own < zz2020+n.slack && got == parent
}

// zzCheckTree sends the spans in the given order and compares the times in the emitted trace.
func zzCheckTree(nodes []*zzNode) {
	r := zzStart()
	r.advance(50 * time.Millisecond)
	if vsym.Bool("backward") {
		for i := len(nodes) - 1; i >= 0; i-- {
			r.send(nodes[i].span)
		}
	} else {
		for _, n := range nodes {
			r.send(n.span)
		}
	}
	r.advance(9 * time.Second)
	got := r.take()
	r.stop()
	vsym.Assert(len(got) == 1 && len(got[0]) == len(nodes), "the trace was not emitted")
	zzSolve(nodes)
	for _, n := range nodes {
		parent := int64(0)
		if n.parent >= 0 {
			parent = nodes[n.parent].got
		}
		for _, s := range got[0] {
			if s.Id == n.span.Id {
				n.got = int64(s.Timestamp)
				vsym.Assert(n.got == n.start || zzRight(n, n.got, parent), "wrong corrected start")
				vsym.Assert(int64(s.Duration) == n.duration, "wrong corrected duration")
				vsym.Assert(s.Timings == n.span.Timings, "the timings were changed")
			}
		}
	}
	vsym.Reach("ok")
}

func zzMake(id, parent Id, parentIdx int, broken bool) *zzNode {
	n := &zzNode{parent: parentIdx}
	n.span = proxy.Span{Id: id, Trace: 9, Parent: parent, Name: "n"}
	n.span.Timestamp = proxy.Timestamp(zzTime("timestamp", broken))
	d := vsym.Int64("duration")
	vsym.Assume(d >= 0 && d < int64(time.Hour))
	n.span.Duration = time.Duration(d)
	return n
}

// skewed gives the span all four timings; the server's clock is arbitrary.
func (n *zzNode) skewed(mask int) {
	t := int64(n.span.Timestamp)
	server := t
	if mask&12 == 12 {
		server = zzTime("serverclock", false)
	}
	if mask&1 != 0 {
		n.span.Timings.CS = proxy.Timestamp(zzNear("cs", t))
	}
	if mask&2 != 0 {
		n.span.Timings.CR = proxy.Timestamp(zzNear("cr", t))
	}
	if mask&4 != 0 {
		n.span.Timings.SR = proxy.Timestamp(zzNear("sr", server))
	}
	if mask&8 != 0 {
		n.span.Timings.SS = proxy.Timestamp(zzNear("ss", server))
	}
}

// a root (with all four timings or none) with one child (with any subset of the four timings) and a grandchild; arbitrary clocks from 2020 to 2100, timings within 10 s of their clock
//gosym: quick=300 thorough=900 reach=ok
func ZZC21_Chain() {
	root := zzMake(1, 1, -1, false)
	if vsym.Bool("rootskew") {
		root.skewed(15)
	}
	child := zzMake(2, 1, 0, false)
	child.skewed(vsym.Choose("timings", 16))
	grand := zzMake(3, 2, 1, false)
	zzCheckTree([]*zzNode{root, child, grand})
}

// a root with two subtrees: one below a span with all four timings, one beside it, each of the other spans with all or none of the timings; parents of the topmost span missing or itself
//gosym: quick=300 thorough=900 reach=ok
func ZZC21_Branches() {
	rootParent := Id(1)
	if vsym.Bool("missing") {
		rootParent = 77
	}
	root := zzMake(1, rootParent, -1, false)
	a := zzMake(5, 1, 0, false)
	a.skewed(15)
	b := zzMake(3, 1, 0, false)
	c := zzMake(4, 5, 1, false)
	if vsym.Bool("c") {
		c.skewed(15)
	}
	d := zzMake(2, 3, 2, false)
	if vsym.Bool("d") {
		d.skewed(15)
	}
	zzCheckTree([]*zzNode{root, a, b, c, d})
}

// a root, a child and a grandchild, each of them with a time before 2020 or not, the child with all four timings or none: broken starts are taken from the parent, except for the root
//gosym: quick=300 thorough=900 reach=ok
func ZZC21_Broken() {
	root := zzMake(1, 1, -1, vsym.Bool("broken"))
	child := zzMake(2, 1, 0, vsym.Bool("broken"))
	if vsym.Bool("skew") {
		child.skewed(15)
	}
	grand := zzMake(3, 2, 1, vsym.Bool("broken"))
	zzCheckTree([]*zzNode{root, child, grand})
}

// one skewed span above one with an arbitrary time of the five days around 2020-01-01, whose corrected start lies before or behind it
//gosym: quick=300 thorough=900 reach=ok
func ZZC21_Limit() {
	root := zzMake(1, 1, -1, false)
	root.skewed(15)
	child := zzMake(2, 1, 0, false)
	t := vsym.Int64("near")
	vsym.Assume(t >= -int64(60*time.Hour) && t <= int64(60*time.Hour))
	child.span.Timestamp = proxy.Timestamp(zz2020 + t)
	zzCheckTree([]*zzNode{root, child})
}

// a chain of 15, 70 or 300 spans below, or 15, 70 or 300 children of, a span with all four timings and a clock that is behind or ahead by 3 h or 7 s, the last one with an arbitrary time, ids ascending or descending:
// every one of them is moved by the same time
//gosym: quick=300 thorough=900 reach=ok
func ZZC21_Deep() {
	vsym.Option("steps", 1<<40)
	vsym.Option("maxdepth", 100000)
	n := []int{15, 70, 300}[vsym.Choose("spans", 3)]
	chain := vsym.Bool("chain")
	down := vsym.Bool("descending")
	id := func(i int) Id {
		if down {
			return Id(1000 - i)
		}
		return Id(1 + i)
	}
	const at = proxy.Timestamp(zz2020 + int64(400*time.Hour))
	skew := proxy.Timestamp([]int64{int64(3 * time.Hour), -int64(3 * time.Hour), int64(7 * time.Second), -int64(7 * time.Second)}[vsym.Choose("skew", 4)])
	root := &zzNode{parent: -1, span: proxy.Span{Id: id(0), Trace: 9, Parent: id(0), Name: "n", Timestamp: at, Duration: 100}}
	root.span.Timings = proxy.Timings{CS: at, CR: at + 100, SR: at + skew + 20, SS: at + skew + 80}
	nodes := []*zzNode{root}
	for i := 1; i < n; i++ {
		c := &zzNode{span: proxy.Span{Id: id(i), Trace: 9, Name: "n"}}
		if chain {
			c.parent = i - 1
		}
		c.span.Parent = id(c.parent)
		c.span.Timestamp = proxy.Timestamp(zz2020 + int64(400*time.Hour) + int64(i))
		c.span.Duration = time.Duration(i)
		if i == n-1 {
			c.span.Timestamp = proxy.Timestamp(zzTime("timestamp", false))
		}
		nodes = append(nodes, c)
	}
	zzCheckTree(nodes)
}
