package cache

import (
	"github.com/rcrowley/go-metrics"

	"github.com/flachnetz/dd-zipkin-proxy/internal/vsym"
)

// zzRegistry hands the registered gauges to the harness.
type zzRegistry struct {
	metrics.Registry
	gauges []interface{}
}

func (r *zzRegistry) Register(name string, v interface{}) error {
	r.gauges = append(r.gauges, v)
	return nil
}

func zzInternOne(how int, s string) string {
	switch how {
	case 0:
		return String(s)
	case 1:
		buf := []byte(s)
		got := StringForByteSliceCopy(buf)
		vsym.Assert(got == s, "interning changed the string")
		for i := range buf {
			buf[i] = 'X'
		}
		return got
	}
	return StringForByteSliceNoCopy([]byte(s))
}

// two goroutines (thorough: three) intern one or two strings each, in any of the three ways, out of two, while a third reads the cache's metrics or nothing; the cache holds one of
// them already or none, and is large or so small that it evicts; every schedule with up to 2 preemptions (thorough: 3)
//gosym: quick=200 thorough=900 reach=ok stress nobubble
func ZZC27_Interning() {
	vsym.Option("race", 1)
	n, p := 2, 2
	if vsym.Thorough() {
		n, p = 3, 3
	}
	vsym.Option("preempt", p)
	if vsym.Bool("small") {
		c := NewLRUCache(1 << 20)
		c.Set("abc")
		binaryCache = NewLRUCache(c.Size())
	}
	reg := &zzRegistry{}
	RegisterCacheMetrics(reg)
	keys := []string{"abc", "xyz"}
	if vsym.Bool("warm") {
		String(keys[0])
	}
	done := make(chan []string, 4)
	for i := 0; i < n; i++ {
		how := vsym.Choose("how", 3)
		first := vsym.Choose("key", 2)
		more := 0
		if i == 0 {
			more = 1
		}
		go func() {
			var out []string
			for k := 0; k <= more; k++ {
				s := keys[(first+k)%2]
				got := zzInternOne(how, s)
				vsym.Assert(got == s, "interning changed the string")
				out = append(out, got, s)
			}
			done <- out
		}()
	}
	if vsym.Bool("metrics") {
		for _, g := range reg.gauges {
			if v, ok := g.(metrics.Gauge); ok {
				v.Value()
			}
			if v, ok := g.(metrics.GaugeFloat64); ok {
				v.Value()
			}
		}
	}
	for i := 0; i < n; i++ {
		out := <-done
		for k := 0; k < len(out); k += 2 {
			vsym.Assert(out[k] == out[k+1], "an interned string changed later")
		}
	}
	for _, s := range keys {
		vsym.Assert(String(s) == s, "a later lookup gives a different string")
	}
	vsym.Reach("ok")
}
