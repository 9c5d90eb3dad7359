// Package vsym is the interface between harnesses and the checker. Under the symbolic executor every function is
// replaced by an engine operation; natively (this code) a harness is replayed on one concrete input assignment.
package vsym

import (
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

type rec struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	Val  uint64 `json:"val"`
}

var (
	mu       sync.Mutex
	vals     map[string]uint64
	cnt      = map[string]int{}
	reached  = map[string]bool{}
	maxAlloc uint64
	alloc0   uint64
	thorough bool
	// SettleFn and AdvanceFn are set by the replay driver.
	SettleFn  = func() {}
	AdvanceFn = func(d time.Duration) {}
)

// Load reads the input assignment.
func Load(file string) {
	b, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	var in struct {
		Inputs   []rec `json:"inputs"`
		Thorough bool  `json:"thorough"`
	}
	if err := json.Unmarshal(b, &in); err != nil {
		panic(err)
	}
	vals = map[string]uint64{}
	for _, r := range in.Inputs {
		vals[r.Name] = r.Val
	}
	thorough = in.Thorough
}

func next(name string) uint64 {
	mu.Lock()
	defer mu.Unlock()
	k := fmt.Sprintf("%s#%d", name, cnt[name])
	cnt[name]++
	return vals[k]
}

func Byte(name string) byte     { return byte(next(name)) }
func Uint16(name string) uint16 { return uint16(next(name)) }
func Uint32(name string) uint32 { return uint32(next(name)) }
func Uint64(name string) uint64 { return next(name) }

// Upto gives a value from 0 to max.
func Upto(name string, max uint64) uint64 { return next(fmt.Sprintf("%s<=%d", name, max)) }

func Int64(name string) int64 { return int64(next(name)) }
func Int(name string) int     { return int(next(name)) }
func Bool(name string) bool   { return next(name) != 0 }

// Bytes gives n input bytes.
func Bytes(name string, n int) []byte {
	mu.Lock()
	defer mu.Unlock()
	call := cnt["@"+name]
	cnt["@"+name]++
	r := make([]byte, n)
	for i := range r {
		r[i] = byte(vals[fmt.Sprintf("%s@%d.%d", name, call, i)])
	}
	return r
}

func String(name string, n int) string { return string(Bytes(name, n)) }

// Choose picks one of 0..n-1; every alternative is explored.
func Choose(name string, n int) int {
	if n <= 1 {
		return 0
	}
	return int(next(name))
}

func out(kind, msg string) {
	fmt.Printf("\nVSYM-%s %s\n", kind, msg)
}

// Finish ends the replay.
func Finish() {
	checkAlloc()
	var r []string
	mu.Lock()
	for k := range reached {
		r = append(r, k)
	}
	sort.Strings(r)
	out("OK", strings.Join(r, ","))
	os.Exit(0)
}

func checkAlloc() {
	if maxAlloc == 0 {
		return
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.TotalAlloc-alloc0 > maxAlloc {
		Fail(fmt.Sprintf("allocated %d bytes, more than %d", m.TotalAlloc-alloc0, maxAlloc))
	}
}

func Assume(c bool) {
	if !c {
		out("ASSUME", "assumption does not hold")
		os.Exit(4)
	}
}

func Assert(c bool, msg string) {
	if !c {
		out("VIOLATION", msg)
		os.Exit(3)
	}
}

func Fail(msg string) { Assert(false, msg) }

func Reach(label string) {
	mu.Lock()
	reached[label] = true
	mu.Unlock()
}

func Note(msg string)         {}
func Concrete(v int) int      { return v }
func Settle()                 { SettleFn() }
func Advance(d time.Duration) { AdvanceFn(d) }
func Native() bool            { return true }

// Goroutines gives the number of goroutines that have not ended.
func Goroutines() int { return runtime.NumGoroutine() }
func Thorough() bool  { return thorough }
func Exit()           { Finish() }

// Option sets an exploration option; natively only the allocation bound has a meaning.
func Option(name string, n int) {
	if name == "maxalloc" {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		maxAlloc, alloc0 = uint64(n), m.TotalAlloc
	}
}

var (
	perturbSeed = func() uint64 {
		n := uint64(0)
		fmt.Sscan(os.Getenv("VSYM_PERTURB"), &n)
		return n
	}()
	perturbState uint64
	perturbCount int64
)

func mix(x uint64) uint64 {
	x += 0x9e3779b97f4a7c15
	x = (x ^ x>>30) * 0xbf58476d1ce4e5b9
	x = (x ^ x>>27) * 0x94d049bb133111eb
	return x ^ x>>31
}

// Point is put before every statement of the repository's code in replays that look for an interleaving: depending on the
// seed, some places or some moments hold up the goroutine that comes there.
func Point(site uint64) {
	if perturbSeed == 0 {
		return
	}
	n := atomic.AddUint64(&perturbState, 1)
	hold := false
	switch perturbSeed % 3 {
	case 0:
		hold = mix(site+perturbSeed*1000003)%5 == 0
	case 1:
		hold = mix(n+perturbSeed*1000003)%7 == 0
	case 2:
		hold = mix(site+perturbSeed*1000003)%23 == 0
	}
	if !hold || atomic.AddInt64(&perturbCount, 1) > 400 {
		return
	}
	for i := uint64(0); i < 500+mix(n)%1500; i++ {
		runtime.Gosched()
	}
}

var replaced []interface{}

// Replace makes every call of the function old a call of the function repl, which has the same signature. It is meant for
// what surrounds the repository's code: listeners, clients, the command line.
func Replace(old, repl interface{}) {
	replaced = append(replaced, repl)
	at := reflect.ValueOf(old).Pointer()
	f := (*[2]uintptr)(unsafe.Pointer(&repl))[1]
	code := []byte{0x48, 0xba, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0x22} // mov rdx, f; jmp [rdx]
	for i := uint(0); i < 8; i++ {
		code[2+i] = byte(f >> (8 * i))
	}
	page := uintptr(syscall.Getpagesize())
	from := at &^ (page - 1)
	to := (at + uintptr(len(code)) + page - 1) &^ (page - 1)
	mem := bytesAt(from, int(to-from))
	if err := syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_WRITE|syscall.PROT_EXEC); err != nil {
		panic(err)
	}
	copy(bytesAt(at, len(code)), code)
	if err := syscall.Mprotect(mem, syscall.PROT_READ|syscall.PROT_EXEC); err != nil {
		panic(err)
	}
}

func bytesAt(at uintptr, n int) []byte {
	h := [3]uintptr{at, uintptr(n), uintptr(n)}
	return *(*[]byte)(unsafe.Pointer(&h))
}

// ParseFlags sets the fields of an options struct that have a "long" tag: to the value of --name=value in args, or to
// their default.
func ParseFlags(opts interface{}, args []string) {
	parseFlags(reflect.ValueOf(opts).Elem(), args)
}

func parseFlags(v reflect.Value, args []string) {
	if v.Kind() != reflect.Struct {
		return
	}
	for i := 0; i < v.NumField(); i++ {
		q, tag := v.Field(i), v.Type().Field(i).Tag
		name := tag.Get("long")
		if name == "" {
			parseFlags(q, args)
			continue
		}
		var vals []string
		for _, arg := range args {
			if strings.HasPrefix(arg, "--"+name+"=") {
				vals = append(vals, arg[len(name)+3:])
			} else if arg == "--"+name {
				vals = append(vals, "true")
			}
		}
		if d, ok := tag.Lookup("default"); ok && len(vals) == 0 {
			vals = []string{d}
		}
		if len(vals) == 0 {
			continue
		}
		last := vals[len(vals)-1]
		switch q.Kind() {
		case reflect.String:
			q.SetString(last)
		case reflect.Bool:
			q.SetBool(last == "true")
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if n, err := strconv.ParseInt(last, 10, 64); err == nil {
				q.SetInt(n)
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if n, err := strconv.ParseInt(last, 10, 64); err == nil {
				q.SetUint(uint64(n))
			}
		case reflect.Slice:
			q.Set(reflect.ValueOf(vals).Convert(q.Type()))
		}
	}
}
