package cache

import "github.com/flachnetz/dd-zipkin-proxy/internal/vsym"

// as History with three strings of 1..2 bytes (thorough: four) and a cache that only holds two or three, so that entries are evicted
//gosym: quick=120 thorough=900 reach=done
func ZZC06_Evicting() {
	c := NewLRUCache(1 << 20)
	c.Set("abc")
	cost := c.Size()
	binaryCache = NewLRUCache(cost + cost/2 + vsym.Choose("larger", 2)*cost)
	n := 3
	if vsym.Thorough() {
		n = 4
	}
	zzInternAll(n, 2)
}
