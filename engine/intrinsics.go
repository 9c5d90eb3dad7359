package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// Intrinsic replaces the body of a function. pure: may be evaluated under a merge guard.
type Intrinsic struct {
	name string
	pure bool
	run  func(w *Wk, g *G, fi *fnInfo, a []Value) Value
}

type sideKey struct {
	o   *Obj
	off int
}

func (w *Wk) sideKeyOf(p Value) sideKey {
	p = w.resolvePtr(p)
	o, _ := p.x.(*Obj)
	if o == nil {
		w.goPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	return sideKey{o, int(p.n)}
}

func (w *Wk) sideGet(k any) any {
	if v, ok := w.side[k]; ok {
		return v
	}
	return w.baseSide[k]
}

func (w *Wk) sideSet(k, v any) {
	if w.initDepth > 0 {
		w.baseSide[k] = v
		return
	}
	w.side[k] = v
}

const vsymPath = "github.com/flachnetz/dd-zipkin-proxy/internal/vsym."

// packages whose functions have no influence on the checked behaviour: calls return zero values
var noopPkgs = []string{
	"github.com/sirupsen/logrus", "github.com/rcrowley/go-metrics", "log", "log/slog", "runtime/debug", "runtime/pprof", "runtime/trace", "os/signal",
	"expvar", "github.com/flachnetz/startup", "github.com/flachnetz/go-admin", "github.com/pkg/profile",
}

// packages whose initialisers are not run
var noInitPkgs = map[string]bool{
	"runtime": true, "internal/cpu": true, "internal/bytealg": true, "os": true, "syscall": true, "net": true, "reflect": true,
	"internal/godebug": true, "internal/godebugs": true, "internal/poll": true, "internal/reflectlite": true, "internal/abi": true,
	"github.com/sirupsen/logrus": true, "github.com/rcrowley/go-metrics": true, "log": true, "log/slog": true, "github.com/modern-go/reflect2": true,
	"net/http": true, "crypto/tls": true, "github.com/Shopify/sarama": true, "golang.org/x/sys/cpu": true, "hash/crc32": false,
	"github.com/DataDog/dd-trace-go/tracer": true, "github.com/flachnetz/startup/v2": true, "encoding/json": true, "math/rand": true, "math/rand/v2": true,
	"internal/syscall/unix": true, "internal/testlog": true, "internal/oserror": false, "internal/race": true, "unique": true, "net/netip": true,
	"time": true, "mime/multipart": true, "net/url": false, "fmt": true, "crypto": true, "crypto/rand": true, "internal/runtime/atomic": true,
	"internal/runtime/sys": true, "sync": true, "sync/atomic": true, "internal/sync": true, "unicode": false,
}

func skipInit(p string) bool {
	if noInitPkgs[p] {
		return true
	}
	for _, n := range noopPkgs {
		if p == n || strings.HasPrefix(p, n+"/") {
			return true
		}
	}
	return strings.HasPrefix(p, "crypto/") || strings.HasPrefix(p, "internal/runtime/") || strings.HasPrefix(p, "vendor/")
}

func pkgPathOf(f *ssa.Function) string {
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if o := f.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func (w *Wk) zeroResults(sig *types.Signature) Value {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return Value{}
	case 1:
		return w.ls.get(r.At(0).Type()).zeroValue()
	}
	vs := make([]Value, r.Len())
	for i := range vs {
		vs[i] = w.ls.get(r.At(i).Type()).zeroValue()
	}
	return Value{k: KTuple, x: vs}
}

func tuple(vs ...Value) Value { return Value{k: KTuple, x: vs} }

func (w *Wk) findIntrinsic(name string, f *ssa.Function) *Intrinsic {
	if in, ok := w.intrs[name]; ok {
		if !w.opts.realTime || !(strings.HasPrefix(name, "(time.Time).") || strings.HasPrefix(name, "time.Unix")) {
			return in
		}
	}
	if w.opts.realTime {
		switch name {
		case "time.Now", "time.Since", "time.Until":
			return &Intrinsic{name: name, run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
				w.unsupported(name + " with real time values")
				return Value{}
			}}
		case "time.initLocal":
			return &Intrinsic{name: name, run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return Value{} }}
		}
	}
	pp := pkgPathOf(f)
	switch pp {
	case "github.com/rcrowley/go-metrics":
		if in := w.metricsIntrinsic(f); in != nil {
			return in
		}
	case "sync/atomic", "internal/runtime/atomic":
		if in := atomicIntrinsic(f.Name()); in != nil && f.Signature.Recv() == nil {
			return in
		}
	case "internal/bytealg":
		if in, ok := bytealgTable[f.Name()]; ok {
			return in
		}
	}
	if realMetrics(f) {
		return nil
	}
	for _, n := range noopPkgs {
		if pp == n || strings.HasPrefix(pp, n+"/") {
			nm := f.Name()
			if f.Synthetic == "package initializer" {
				return nil
			}
			return &Intrinsic{name: name, run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
				switch {
				case strings.HasPrefix(nm, "Fatal") || nm == "FatalOnError":
					if nm == "FatalOnError" {
						return Value{}
					}
					w.violateHere("exit", "the process is ended by "+name)
				case strings.HasPrefix(nm, "Panic"):
					w.goPanic("panic by " + name)
				}
				return w.logResult(f)
			}}
		}
	}
	return nil
}

// logResult gives zero results, but a usable object for pointers to named structs (chained loggers).
func (w *Wk) logResult(f *ssa.Function) Value {
	r := f.Signature.Results()
	if r.Len() == 1 {
		if p, ok := r.At(0).Type().Underlying().(*types.Pointer); ok {
			if _, ok := p.Elem().Underlying().(*types.Struct); ok {
				return mkPtr(w.newObj(p.Elem(), 1), 0)
			}
		}
		if f.Name() == "GetLevel" {
			return mkInt(32, 4)
		}
	}
	return w.zeroResults(f.Signature)
}

// realMetrics: functional gauges have no effect of their own but run code of the repository.
func realMetrics(f *ssa.Function) bool {
	return pkgPathOf(f) == "github.com/rcrowley/go-metrics" && strings.Contains(f.String(), "FunctionalGauge")
}

func (w *Wk) metricsIntrinsic(f *ssa.Function) *Intrinsic {
	r := f.Signature.Results()
	if realMetrics(f) {
		return nil
	}
	if f.Signature.Recv() != nil {
		if f.Name() == "Time" {
			return &Intrinsic{name: f.String(), run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
				w.callValue(g, a[len(a)-1], nil, nil)
				return Value{}
			}}
		}
		return nil
	}
	if r.Len() == 1 {
		if n, ok := r.At(0).Type().(*types.Named); ok {
			if _, isI := n.Underlying().(*types.Interface); isI {
				tn := "Nil" + n.Obj().Name()
				if o := n.Obj().Pkg().Scope().Lookup(tn); o != nil {
					t := o.Type()
					return &Intrinsic{name: f.String(), run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
						return w.iface(t, w.ls.get(t).zeroValue())
					}}
				}
			}
		}
	}
	return nil
}

// ---- helpers ----

func (w *Wk) pkgFunc(path, name string) *ssa.Function {
	p := w.prog.pkgs[path]
	if p == nil {
		w.unsupported("package not loaded: " + path)
	}
	return p.Func(name)
}

func (w *Wk) errorValue(msg Value) Value {
	f := w.pkgFunc("errors", "New")
	g := w.cur
	return w.callFn(g, f, nil, []Value{msg})
}

func (w *Wk) input(name, kind string, width uint8) *Term {
	if w.initDepth > 0 {
		w.unsupported("input during initialisation")
	}
	full := w.inputName(name)
	t := w.ts.Var(full, width)
	w.inputs = append(w.inputs, input{name: full, kind: kind, t: t})
	return t
}

func (w *Wk) inputName(name string) string {
	if w.initDepth > 0 {
		w.unsupported("input during initialisation")
	}
	n := 0
	for i := range w.inputs {
		if w.inputs[i].name == name || strings.HasPrefix(w.inputs[i].name, name+"#") {
			n++
		}
	}
	return fmt.Sprintf("%s#%d", name, n)
}

func (w *Wk) inputVal(name, kind string, v uint64) {
	n := 0
	for i := range w.inputs {
		if strings.HasPrefix(w.inputs[i].name, name+"#") {
			n++
		}
	}
	w.inputs = append(w.inputs, input{name: fmt.Sprintf("%s#%d", name, n), kind: kind, val: v})
}

func (w *Wk) raceAcq(g *G, key any) {
	if w.race != nil && w.initDepth == 0 {
		w.race.acquire(g, key)
	}
}

func (w *Wk) raceRel(g *G, key any) {
	if w.race != nil && w.initDepth == 0 {
		w.race.releaseTo(g, key)
	}
}

func intrinsicTable() map[string]*Intrinsic {
	m := map[string]*Intrinsic{}
	def := func(name string, pure bool, f func(w *Wk, g *G, fi *fnInfo, a []Value) Value) {
		m[name] = &Intrinsic{name: name, pure: pure, run: f}
	}
	noop := func(names ...string) {
		for _, n := range names {
			def(n, true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.zeroResults(fi.fn.Signature) })
		}
	}
	defVsym(def)
	defTime(def)
	defSync(def)
	defReflect2(def)
	defFmt(def)
	defJSON(def)

	noop("runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.ReadMemStats", "runtime.LockOSThread", "runtime.UnlockOSThread",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable",
		"internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors",
		"(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).Value", "internal/godebug.New",
		"runtime.Callers", "internal/msan.Read", "internal/asan.Read", "hash/crc32.archAvailableIEEE", "hash/crc32.archAvailableCastagnoli",
		"internal/cpu.Initialize", "internal/runtime/sys.Prefetch", "os.Stdout", "os/signal.Notify")
	def("runtime.Gosched", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { w.yield(g); return Value{} })
	def("runtime.NumCPU", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return mkInt(64, 8) })
	def("runtime.GOMAXPROCS", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return mkInt(64, 8) })
	def("runtime.NumGoroutine", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return mkInt(64, uint64(len(w.gs))) })
	def("runtime.Caller", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.zeroResults(fi.fn.Signature) })
	def("runtime.Goexit", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { w.unsupported("Goexit"); return Value{} })
	def("os.Getenv", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return Value{k: KString} })
	def("os.LookupEnv", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.zeroResults(fi.fn.Signature) })
	def("os.Exit", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		w.violateHere("exit", "the process is ended by os.Exit")
		return Value{}
	})
	def("math.Float64bits", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		if t := w.floatTerm(a[0]); t != nil {
			return fromTerm(t)
		}
		if a[0].x != nil {
			w.unsupported("bits of an unknown float")
		}
		return mkInt(64, a[0].n)
	})
	def("math.Float64frombits", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		if t, ok := a[0].x.(*Term); ok {
			return fromFloat(t)
		}
		if a[0].x != nil {
			return Value{k: KFloat, w: 64, x: &OpaqueF{"bits"}}
		}
		return mkFloat(math.Float64frombits(a[0].n))
	})
	for name, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Trunc": math.Trunc, "Abs": math.Abs} {
		f, name := f, name
		for _, nm := range []string{"math." + name, "math." + strings.ToLower(name)} {
			def(nm, true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
				if t, ok := a[0].x.(*Term); ok {
					switch name {
					case "Trunc":
						return fromFloat(w.ts.Float(OpFTrn, 64, 0, t, nil))
					case "Floor":
						return fromFloat(w.ts.Float(OpFTrn, 64, 1, t, nil))
					case "Ceil":
						return fromFloat(w.ts.Float(OpFTrn, 64, 2, t, nil))
					case "Abs":
						return fromFloat(w.ts.Bin(OpBAnd, t, w.ts.Const(64, 1<<63-1)))
					}
					return Value{k: KFloat, w: 64, x: &OpaqueF{"math"}}
				}
				if a[0].x != nil {
					return a[0]
				}
				return mkFloat(f(fl(a[0])))
			})
		}
	}
	for name, f := range map[string]func(float64) float64{"Log": math.Log, "Log2": math.Log2, "Log10": math.Log10, "Exp": math.Exp} {
		f := f
		def("math."+name, true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
			if a[0].x != nil {
				return Value{k: KFloat, w: 64, x: &OpaqueF{"math"}}
			}
			return mkFloat(f(fl(a[0])))
		})
	}
	for name, f := range map[string]func(x, y float64) float64{"Max": math.Max, "Min": math.Min, "Pow": math.Pow, "Mod": math.Mod} {
		f, name := f, name
		def("math."+name, true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
			x, y := w.floatTerm(a[0]), w.floatTerm(a[1])
			if a[0].x == nil && a[1].x == nil {
				return mkFloat(f(fl(a[0]), fl(a[1])))
			}
			if x != nil && y != nil && (name == "Max" || name == "Min") {
				// for numbers other than NaN and negative zero
				lt := w.ts.Float(OpFLt, 0, 0, x, y)
				if name == "Max" {
					return fromFloat(w.ts.Ite(lt, y, x))
				}
				return fromFloat(w.ts.Ite(lt, x, y))
			}
			return Value{k: KFloat, w: 64, x: &OpaqueF{"math"}}
		})
	}
	for _, p := range []string{"math/rand.", "math/rand/v2."} {
		def(p+"Float64", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return Value{k: KFloat, w: 64, x: &OpaqueF{"rand"}} })
		for _, n := range []string{"Intn", "Int63n", "Int31n", "IntN", "Int64N", "N"} {
			def(p+n, false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
				t := w.freshVar("rand", a[0].w)
				w.assume(w.ts.Ult(t, w.term(a[0])))
				return fromTerm(t)
			})
		}
		for _, n := range []string{"Int63", "Int", "Int31", "Uint32", "Uint64", "Int64", "Int32"} {
			def(p+n, false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
				_, wd := basicKind(fi.fn.Signature.Results().At(0).Type())
				t := w.freshVar("rand", wd)
				if !strings.HasPrefix(fi.fn.Name(), "U") {
					w.assume(w.ts.Sle(w.ts.Const(wd, 0), t))
				}
				return fromTerm(t)
			})
		}
		noop(p+"Seed", p+"Shuffle")
	}
	def("sort.Slice", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.sortSlice(g, a, "pdqsort_func") })
	def("sort.SliceStable", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.sortSlice(g, a, "stable_func") })
	def("errors.Is", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return mkBool(w.errIs(g, a[0], a[1])) })
	def("errors.As", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return mkBool(w.errAs(g, a[0], a[1])) })
	def("strings.EqualFold", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.equalFold(a[0], a[1]) })
	def("math/bits.Len64", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.bitLen(a[0]) })
	def("math/bits.Len", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.bitLen(a[0]) })
	def("math/bits.Len32", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.bitLen(a[0]) })
	def("math/bits.TrailingZeros64", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		if a[0].x != nil {
			w.unsupported("symbolic TrailingZeros64")
		}
		return mkInt(64, uint64(bits.TrailingZeros64(a[0].n)))
	})
	def("math/bits.TrailingZeros32", true, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		if a[0].x != nil {
			w.unsupported("symbolic TrailingZeros32")
		}
		return mkInt(64, uint64(bits.TrailingZeros32(uint32(a[0].n))))
	})
	def("(reflect.StructTag).Get", false, nil2)
	def("unicode/utf8.DecodeRuneInString", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.decodeRuneV(a[0]) })
	def("unicode/utf8.DecodeRune", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.decodeRuneV(a[0]) })
	return m
}

func nil2(w *Wk, g *G, fi *fnInfo, a []Value) Value { w.unsupported(fi.name); return Value{} }

func (w *Wk) decodeRuneV(v Value) Value {
	b := w.bytesOf(v)
	if len(b) == 0 {
		return tuple(mkInt(32, utf8.RuneError), mkInt(64, 0))
	}
	r, n := w.decodeRune(b)
	return tuple(r, mkInt(64, uint64(n)))
}

func (w *Wk) bitLen(v Value) Value {
	if v.x == nil {
		return mkInt(64, uint64(bits.Len64(v.n)))
	}
	t := w.term(v)
	ts := w.ts
	r := ts.Const(64, 0)
	for i := int(t.w) - 1; i >= 0; i-- {
		_ = i
	}
	for i := 0; i < int(t.w); i++ {
		// highest set bit wins
		r = ts.Ite(ts.Eq(ts.Extract(t, uint8(i), uint8(i)), ts.Const(1, 1)), ts.Const(64, uint64(i+1)), r)
	}
	return fromTerm(r)
}

// ---- strings ----

func (w *Wk) equalFold(a, b Value) Value {
	x, y := w.bytesOf(a), w.bytesOf(b)
	ascii := func(v []Value) bool {
		for _, e := range v {
			if e.x == nil && e.n >= 0x80 {
				return false
			}
		}
		return true
	}
	conc := func(v []Value) bool {
		for _, e := range v {
			if e.x != nil {
				return false
			}
		}
		return true
	}
	if conc(x) && conc(y) {
		s, _ := w.concreteStr(a)
		t, _ := w.concreteStr(b)
		return mkBool(strings.EqualFold(s, t))
	}
	ts := w.ts
	if conc(x) {
		x, y = y, x
	}
	if !conc(y) || !ascii(y) {
		w.unsupported("EqualFold of symbolic or non-ASCII text")
	}
	if len(x) != len(y) {
		// bytes >= 0x80: only the Kelvin sign and the long s fold to ASCII letters; they need 3 and 2 bytes
		m := map[[2]int]*Term{}
		is := func(i int, bs ...byte) *Term {
			r := ts.True
			for k, b := range bs {
				if i+k >= len(x) {
					return ts.False
				}
				r = ts.And(r, ts.Eq(w.term(x[i+k]), ts.Const(8, uint64(b))))
			}
			return r
		}
		var match func(i, j int) *Term
		match = func(i, j int) *Term {
			if j == len(y) {
				return ts.Bool(i == len(x))
			}
			if len(x)-i < len(y)-j || len(x)-i > 3*(len(y)-j) {
				return ts.False
			}
			if t := m[[2]int{i, j}]; t != nil {
				return t
			}
			c := byte(y[j].n)
			r := ts.And(is(i, c), match(i+1, j+1))
			if l := c | 0x20; l >= 'a' && l <= 'z' {
				r = ts.Or(r, ts.And(is(i, c^0x20), match(i+1, j+1)))
				if l == 's' {
					r = ts.Or(r, ts.And(is(i, 0xc5, 0xbf), match(i+2, j+1)))
				}
				if l == 'k' {
					r = ts.Or(r, ts.And(is(i, 0xe2, 0x84, 0xaa), match(i+3, j+1)))
				}
			}
			m[[2]int{i, j}] = r
			return r
		}
		return fromTerm(match(0, 0))
	}
	r := ts.True
	low := func(t *Term) *Term {
		up := ts.And(ts.Ule(ts.Const(8, 'A'), t), ts.Ule(t, ts.Const(8, 'Z')))
		return ts.Ite(up, ts.Bin(OpBOr, t, ts.Const(8, 0x20)), t)
	}
	for i := range x {
		r = ts.And(r, ts.Eq(low(w.term(x[i])), low(w.term(y[i]))))
	}
	return fromTerm(r)
}

var bytealgTable = map[string]*Intrinsic{
	"IndexByte":           {run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.indexByte(a[0], a[1]) }},
	"IndexByteString":     {run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.indexByte(a[0], a[1]) }},
	"LastIndexByte":       {run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.lastIndexByte(a[0], a[1]) }},
	"LastIndexByteString": {run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.lastIndexByte(a[0], a[1]) }},
	"Count":               {run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.countByte(a[0], a[1]) }},
	"CountString":         {run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.countByte(a[0], a[1]) }},
	"Equal": {pure: true, run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		x, y := a[0], a[1]
		x.k, y.k = KString, KString
		return fromTerm(w.eqTerm(x, y))
	}},
	"Compare":       {pure: true, run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.compareB(a[0], a[1]) }},
	"CompareString": {pure: true, run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.compareB(a[0], a[1]) }},
	"MakeNoZero": {run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		n := int(w.intOf(a[0], "MakeNoZero"))
		w.checkAlloc(int64(n))
		if n > 1<<26 {
			panic(pathEnd{"limit", "allocation too large to model"})
		}
		o := w.newObj(types.Typ[types.Uint8], n)
		return Value{k: KSlice, x: &SliceV{obj: o, len: n, cap: n}}
	}},
	"Index":       {run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.indexStr(a[0], a[1]) }},
	"IndexString": {run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.indexStr(a[0], a[1]) }},
	"Cutover":     {pure: true, run: func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return mkInt(64, 1<<30) }},
}

func (w *Wk) indexByte(s, c Value) Value {
	b := w.bytesOf(s)
	ct := w.term(c)
	for i := range b {
		if w.branchG(w.ts.Eq(w.term(b[i]), ct)) {
			return mkInt(64, uint64(i))
		}
	}
	return mkInt(64, ^uint64(0))
}

func (w *Wk) lastIndexByte(s, c Value) Value {
	b := w.bytesOf(s)
	ct := w.term(c)
	for i := len(b) - 1; i >= 0; i-- {
		if w.branchG(w.ts.Eq(w.term(b[i]), ct)) {
			return mkInt(64, uint64(i))
		}
	}
	return mkInt(64, ^uint64(0))
}

func (w *Wk) countByte(s, c Value) Value {
	b := w.bytesOf(s)
	ct := w.term(c)
	n := 0
	for i := range b {
		if w.branchG(w.ts.Eq(w.term(b[i]), ct)) {
			n++
		}
	}
	return mkInt(64, uint64(n))
}

func (w *Wk) indexStr(s, sub Value) Value {
	b, t := w.bytesOf(s), w.bytesOf(sub)
	for i := 0; i+len(t) <= len(b); i++ {
		e := w.ts.True
		for j := range t {
			e = w.ts.And(e, w.ts.Eq(w.term(b[i+j]), w.term(t[j])))
		}
		if w.branchG(e) {
			return mkInt(64, uint64(i))
		}
	}
	return mkInt(64, ^uint64(0))
}

func (w *Wk) compareB(a, b Value) Value {
	ts := w.ts
	lt := w.lessStr(a, b, false)
	x, y := a, b
	x.k, y.k = KString, KString
	eq := w.eqTerm(x, y)
	return fromTerm(ts.Ite(eq, ts.Const(64, 0), ts.Ite(lt, ts.Const(64, ^uint64(0)), ts.Const(64, 1))))
}

// ---- sort ----

func (w *Wk) sortSlice(g *G, a []Value, fn string) Value {
	iv, _ := a[0].x.(*IfaceV)
	if iv == nil {
		w.goPanic("sort of nil")
	}
	s := sliceOf(iv.v)
	el := w.ls.get(iv.t.Underlying().(*types.Slice).Elem())
	swap := Value{k: KFunc, x: &FuncV{gofn: func(g *G, args []Value) Value {
		i, j := int(w.intOf(args[0], "swap index")), int(w.intOf(args[1], "swap index"))
		if i < 0 || j < 0 || i >= s.len || j >= s.len {
			w.goPanic("reflect: slice index out of range")
		}
		for k := 0; k < el.n; k++ {
			p, q := s.off+i*el.n+k, s.off+j*el.n+k
			w.raceAccess(s.obj, p, true)
			w.raceAccess(s.obj, q, true)
			x, y := s.obj.slots[p], s.obj.slots[q]
			w.setSlot(s.obj, p, y)
			w.setSlot(s.obj, q, x)
		}
		return Value{}
	}}}
	f := w.pkgFunc("sort", fn)
	ls := Value{k: KAgg, x: []Value{a[1], swap}}
	n := mkInt(64, uint64(s.len))
	if fn == "stable_func" {
		w.callFn(g, f, nil, []Value{ls, n})
	} else {
		w.callFn(g, f, nil, []Value{ls, mkInt(64, 0), n, mkInt(64, uint64(bits.Len(uint(s.len))))})
	}
	return Value{}
}

// ---- errors ----

func (w *Wk) errIs(g *G, e, target Value) bool {
	for n := 0; n < 100; n++ {
		iv, _ := e.x.(*IfaceV)
		tv, _ := target.x.(*IfaceV)
		if iv == nil || tv == nil {
			return iv == nil && tv == nil
		}
		if types.Comparable(tv.t) && iv.t == tv.t && w.branchG(w.eqTerm(iv.v, tv.v)) {
			return true
		}
		if f := w.methodByName(iv.t, "Is"); f != nil {
			if w.cond(w.callFn(g, f, nil, []Value{iv.v, target})) {
				return true
			}
		}
		f := w.methodByName(iv.t, "Unwrap")
		if f == nil {
			return false
		}
		if _, ok := f.Signature.Results().At(0).Type().Underlying().(*types.Slice); ok {
			r := w.callFn(g, f, nil, []Value{iv.v})
			s := sliceOf(r)
			for i := 0; i < s.len; i++ {
				if w.errIs(g, s.obj.slots[s.off+i], target) {
					return true
				}
			}
			return false
		}
		e = w.callFn(g, f, nil, []Value{iv.v})
	}
	return false
}

func (w *Wk) errAs(g *G, e, target Value) bool {
	tv, _ := target.x.(*IfaceV)
	if tv == nil {
		w.goPanic("errors: target cannot be nil")
	}
	want := tv.t.Underlying().(*types.Pointer).Elem()
	l := w.ls.get(want)
	for n := 0; n < 100; n++ {
		iv, _ := e.x.(*IfaceV)
		if iv == nil {
			return false
		}
		if it, ok := want.Underlying().(*types.Interface); ok {
			if w.implements(iv.t, it) {
				w.store(tv.v, e, l)
				return true
			}
		} else if iv.t == w.canon(want) {
			w.store(tv.v, iv.v, l)
			return true
		}
		f := w.methodByName(iv.t, "Unwrap")
		if f == nil {
			return false
		}
		e = w.callFn(g, f, nil, []Value{iv.v})
	}
	return false
}

// ---- fmt ----

func defFmt(def func(string, bool, func(w *Wk, g *G, fi *fnInfo, a []Value) Value)) {
	def("fmt.Sprintf", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.sprintf(g, a[0], a[1]) })
	def("fmt.Sprint", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.sprint(g, a[0], "") })
	def("fmt.Sprintln", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.sprint(g, a[0], "\n") })
	def("fmt.Errorf", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		s := sliceOf(a[1])
		msg := w.sprintf(g, a[0], a[1])
		f, _ := w.concreteStr(a[0])
		if strings.Contains(f, "%w") {
			for i := 0; i < s.len; i++ {
				iv, _ := s.obj.slots[s.off+i].x.(*IfaceV)
				if iv != nil && w.methodByName(iv.t, "Error") != nil {
					p := w.prog.pkgs["fmt"].Type("wrapError")
					o := w.newObj(p.Type(), 1)
					o.slots[0] = msg
					o.slots[1] = s.obj.slots[s.off+i]
					return w.iface(types.NewPointer(p.Type()), mkPtr(o, 0))
				}
			}
		}
		return w.errorValue(msg)
	})
	for _, n := range []string{"Printf", "Println", "Print"} {
		def("fmt."+n, false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.zeroResults(fi.fn.Signature) })
	}
	wr := func(w *Wk, g *G, fi *fnInfo, dst, text Value) Value {
		iv, _ := dst.x.(*IfaceV)
		if iv == nil {
			w.goPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		f := w.methodByName(iv.t, "Write")
		b := text
		b.k = KSlice
		return w.callFn(g, f, nil, []Value{iv.v, w.newBytes(w.bytesOf(b), KSlice)})
	}
	def("fmt.Fprintf", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return wr(w, g, fi, a[0], w.sprintf(g, a[1], a[2])) })
	def("fmt.Fprintln", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return wr(w, g, fi, a[0], w.sprint(g, a[1], "\n")) })
	def("fmt.Fprint", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return wr(w, g, fi, a[0], w.sprint(g, a[1], "")) })
	def("(time.Duration).String", false, func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return w.str("<duration>") })
}

func (w *Wk) sprint(g *G, args Value, end string) Value {
	s := sliceOf(args)
	var out []Value
	for i := 0; i < s.len; i++ {
		if i > 0 && end == "\n" {
			out = append(out, mkInt(8, ' '))
		}
		out = append(out, w.formatArg(g, s.obj.slots[s.off+i], 'v', "", 0)...)
	}
	for i := range end {
		out = append(out, mkInt(8, uint64(end[i])))
	}
	return w.newBytes(out, KString)
}

func constBytes(s string) []Value {
	r := make([]Value, len(s))
	for i := range r {
		r[i] = mkInt(8, uint64(s[i]))
	}
	return r
}

// sprintf is exact for strings, errors, Stringers and concrete integers and for hexadecimal symbolic ones;
// anything else is formatted as "<?>" (such text only ever ends up in error messages and logs).
func (w *Wk) sprintf(g *G, format, args Value) Value {
	f, ok := w.concreteStr(format)
	if !ok {
		return w.str("<symbolic format>")
	}
	s := sliceOf(args)
	var out []Value
	ai := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, mkInt(8, uint64(f[i])))
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			break
		}
		spec, verb := f[i+1:j], f[j]
		i = j
		if verb == '%' {
			out = append(out, mkInt(8, '%'))
			continue
		}
		if ai >= s.len {
			out = append(out, constBytes("%!"+string(verb)+"(MISSING)")...)
			continue
		}
		out = append(out, w.formatArg(g, s.obj.slots[s.off+ai], verb, spec, 0)...)
		ai++
	}
	return w.newBytes(out, KString)
}

func (w *Wk) formatArg(g *G, v Value, verb byte, spec string, depth int) []Value {
	iv, _ := v.x.(*IfaceV)
	if iv == nil {
		return constBytes("<nil>")
	}
	if verb == 'w' {
		verb = 'v'
	}
	if (verb == 'v' || verb == 's') && depth < 4 {
		for _, m := range []string{"Error", "String"} {
			if f := w.methodByName(iv.t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if iv.v.k == KPtr && iv.v.x == nil {
					return constBytes("<nil>")
				}
				r := w.callFn(g, f, nil, []Value{iv.v})
				if r.k == KString {
					return w.bytesOf(r)
				}
			}
		}
	}
	switch iv.v.k {
	case KString:
		if verb == 's' || verb == 'v' {
			return w.bytesOf(iv.v)
		}
		if s, ok := w.concreteStr(iv.v); ok {
			return constBytes(fmt.Sprintf("%"+spec+string(verb), s))
		}
	case KSlice:
		if sl, ok := iv.t.Underlying().(*types.Slice); ok && verb == 's' {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				return w.bytesOf(iv.v)
			}
		}
	case KInt:
		if iv.v.x == nil {
			if isSigned(iv.t) {
				return constBytes(fmt.Sprintf("%"+spec+string(verb), sext64(iv.v.n, iv.v.w)))
			}
			return constBytes(fmt.Sprintf("%"+spec+string(verb), iv.v.n))
		}
		if _, isT := iv.v.x.(*Term); isT && (verb == 'x' || verb == 'X') && !isSigned(iv.t) {
			n, err := strconv.Atoi(strings.TrimLeft(spec, "0"))
			if err == nil && strings.HasPrefix(spec, "0") && n == int(iv.v.w/4) {
				t := w.term(iv.v)
				var out []Value
				for k := n - 1; k >= 0; k-- {
					nib := w.ts.Resize(w.ts.Extract(t, uint8(4*k+3), uint8(4*k)), 8, false)
					al := uint64('a' - 10)
					if verb == 'X' {
						al = 'A' - 10
					}
					out = append(out, fromTerm(w.ts.Ite(w.ts.Ult(nib, w.ts.Const(8, 10)), w.ts.Bin(OpAdd, nib, w.ts.Const(8, '0')), w.ts.Bin(OpAdd, nib, w.ts.Const(8, al)))))
				}
				return out
			}
		}
	case KBool:
		if iv.v.x == nil {
			return constBytes(fmt.Sprintf("%v", iv.v.n != 0))
		}
	}
	return constBytes("<?>")
}

// ---- vsym ----

func defVsym(def func(string, bool, func(w *Wk, g *G, fi *fnInfo, a []Value) Value)) {
	v := func(n string, f func(w *Wk, g *G, fi *fnInfo, a []Value) Value) { def(vsymPath+n, false, f) }
	defWiring(v)
	ints := map[string]uint8{"Byte": 8, "Uint16": 16, "Uint32": 32, "Uint64": 64, "Int64": 64, "Int": 64}
	for n, wd := range ints {
		n, wd := n, wd
		v(n, func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
			return fromTerm(w.input(w.mustStr(a[0], "input name"), n, wd))
		})
	}
	v("Bool", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		return fromTerm(w.input(w.mustStr(a[0], "input name"), "Bool", 0))
	})
	seq := func(kind Kind) func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		return func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
			name := w.mustStr(a[0], "input name")
			n := int(w.intOf(a[1], "input length"))
			// one name per byte, indexed within this call
			c := 0
			for i := range w.inputs {
				if strings.HasPrefix(w.inputs[i].name, name+"@") {
					c++
				}
			}
			call := 0
			if x, ok := w.side["seq:"+name]; ok {
				call = x.(int)
			}
			w.side["seq:"+name] = call + 1
			_ = c
			vals := make([]Value, n)
			for i := range vals {
				full := fmt.Sprintf("%s@%d.%d", name, call, i)
				t := w.ts.Var(full, 8)
				w.inputs = append(w.inputs, input{name: full, kind: "Byte", t: t})
				vals[i] = fromTerm(t)
			}
			return w.newBytes(vals, kind)
		}
	}
	v("Bytes", seq(KSlice))
	v("String", seq(KString))
	v("Choose", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		n := int(w.intOf(a[1], "choice"))
		k := w.choose(n)
		w.inputVal(w.mustStr(a[0], "input name"), "Choose", uint64(k))
		return mkInt(64, uint64(k))
	})
	v("Upto", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		max := uint64(w.intOf(a[1], "Upto"))
		if max == 0 {
			return mkInt(64, 0)
		}
		full := w.inputName(fmt.Sprintf("%s<=%d", w.mustStr(a[0], "input name"), max))
		t := w.ts.VarMax(full, 64, max)
		w.inputs = append(w.inputs, input{name: full, kind: "Upto", t: t})
		w.assume(w.ts.RawUle(t, max))
		return fromTerm(t)
	})
	v("Assume", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		w.assume(w.term(a[0]))
		return Value{}
	})
	v("Assert", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		w.mustHold(w.term(a[0]), "assert", w.mustStr(a[1], "assertion text"))
		return Value{}
	})
	v("Fail", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		w.mustHold(w.ts.False, "assert", w.mustStr(a[0], "assertion text"))
		return Value{}
	})
	v("Reach", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		w.reached[w.mustStr(a[0], "label")] = true
		return Value{}
	})
	v("Note", func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return Value{} })
	v("Concrete", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		return mkInt(64, uint64(w.intOf(a[0], "Concrete")))
	})
	v("Settle", func(w *Wk, g *G, fi *fnInfo, a []Value) Value { w.settle(g); return Value{} })
	v("Advance", func(w *Wk, g *G, fi *fnInfo, a []Value) Value { w.advance(g, w.term(a[0])); return Value{} })
	v("Goroutines", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		n := 0
		for _, o := range w.gs {
			if o.state != gDone {
				n++
			}
		}
		return mkInt(64, uint64(n))
	})
	v("Native", func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return mkBool(false) })
	v("Thorough", func(w *Wk, g *G, fi *fnInfo, a []Value) Value { return mkBool(w.opts.thorough) })
	v("Exit", func(w *Wk, g *G, fi *fnInfo, a []Value) Value { panic(pathEnd{"exit", "harness done"}) })
	v("Option", func(w *Wk, g *G, fi *fnInfo, a []Value) Value {
		n := w.intOf(a[1], "option")
		switch k := w.mustStr(a[0], "option"); k {
		case "maxsteps": // hang bound: violation when exceeded
			w.ho.maxSteps, w.ho.stepsViol = w.steps+n, true
		case "maxdepth": // stack bound: violation when exceeded
			w.ho.maxDepth, w.ho.depthViol = int(n), true
		case "steps":
			w.ho.maxSteps, w.ho.stepsViol = w.steps+n, false
		case "maxalloc":
			w.ho.maxAlloc = n
		case "maporder":
			w.ho.mapOrder = int(n)
		case "preempt":
			w.ho.preempt = int(n)
		case "delay":
			w.ho.delay = int(n)
		case "race":
			w.enableRace()
		case "pool":
			w.ho.poolChoice = n != 0
		case "conc":
			w.ho.concLimit = int(n)
		case "deadlock":
			w.ho.allowDead = n != 0
		case "nomerge":
			w.ho.noMerge = n != 0
		case "selectfirst":
			w.ho.selectFirst = n != 0
		case "stubintern":
			w.ho.stubIntern = n != 0
		default:
			w.unsupported("option " + k)
		}
		return Value{}
	})
}

func (w *Wk) settle(g *G) {
	ready := func() bool {
		for _, o := range w.gs {
			if o != g && o.state != gDone && o.why != "settle" && w.isReady(o) {
				return false
			}
		}
		return true
	}
	if !ready() {
		w.block(g, "settle", ready)
		g.why = ""
	}
	if w.race != nil {
		// as with synctest.Wait, what the others did so far happens before what comes now
		for _, o := range w.gs {
			if o != g {
				w.race.join(g, o.vc)
				w.race.release(o)
			}
		}
	}
}
