// Package verifnd is the harness interface. The solver-based checker gives
// these functions their symbolic meaning; the bodies below replay one
// concrete counterexample natively against the real code.
package verifnd

import (
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"reflect"
	"runtime"
	"strconv"
	"sync"
	"time"
	"unsafe"
)

// RuntimeError is the type the checker uses for run-time panics.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type ufEntry struct {
	Name string
	Args []string
	Val  string
}

type replay struct {
	Values map[string][]string
	UF     []ufEntry
	Events []string
}

var (
	mu     sync.Mutex
	data   replay
	pos    = map[string]int{}
	uf     = map[string]*big.Int{}
	base   int
	limit  uint64
	start  uint64
	loaded bool
)

func load() {
	if loaded {
		return
	}
	loaded = true
	f := os.Getenv("VERIF_REPLAY")
	if f == "" {
		return
	}
	b, err := os.ReadFile(f)
	if err == nil {
		err = json.Unmarshal(b, &data)
	}
	if err != nil {
		fmt.Println("VERIF-REPLAY: bad replay file:", err)
		os.Exit(3)
	}
	for _, e := range data.UF {
		if len(e.Args) == 1 {
			v, _ := new(big.Int).SetString(e.Val, 16)
			uf[e.Name+"|"+e.Args[0]] = v
		}
	}
}

func next(name string) *big.Int {
	mu.Lock()
	defer mu.Unlock()
	load()
	i := pos[name]
	pos[name] = i + 1
	l := data.Values[name]
	if i >= len(l) {
		return new(big.Int)
	}
	v, ok := new(big.Int).SetString(l[i], 10)
	if !ok {
		return new(big.Int)
	}
	return v
}

func U8(name string) uint8   { return uint8(next(name).Uint64()) }
func U16(name string) uint16 { return uint16(next(name).Uint64()) }
func U32(name string) uint32 { return uint32(next(name).Uint64()) }
func U64(name string) uint64 { return next(name).Uint64() }
func I64(name string) int64  { return int64(next(name).Uint64()) }

// Now is the clock: what the counterexample read, then the real one.
func Now() time.Time {
	mu.Lock()
	ok := running
	if ok {
		load()
		ok = pos["$now"] < len(data.Values["$now"])
	}
	mu.Unlock()
	if !ok {
		return time.Now()
	}
	return time.Unix(int64(next("$now").Uint64()), 0).UTC()
}

var running bool

func Bool(name string) bool { return next(name).Uint64() == 1 }

// Int is an integer in [lo, hi].
func Int(name string, lo, hi int) int {
	v := int(int64(next(name).Uint64()))
	if v < lo || v > hi {
		Assume(false)
	}
	return v
}

// Bytes is a slice of n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(next(name).Uint64())
	}
	return b
}

// Choose is one of 0..n-1, explored one by one.
func Choose(name string, n int) int { return int(next(name).Uint64()) }

// Shard is Choose, possibly distributed over several solver processes.
func Shard(n int) int { return int(next("$shard").Uint64()) }

// Assume restricts the inputs considered.
func Assume(cond bool) {
	if !cond {
		fmt.Println("VERIF-REPLAY: assume-failed")
		os.Stdout.Sync()
		os.Exit(4)
	}
}

// Assert states a property.
func Assert(cond bool, msg string) {
	if !cond {
		fmt.Println("VERIF-REPLAY: assert-failed: " + msg)
	}
}

// Cover marks a point that must be reachable.
func Cover(name string) {
	fmt.Println("VERIF-REPLAY: cover: " + name)
	if os.Getenv("VERIF_UNTIL") == name && name != "" {
		os.Exit(0)
	}
}

// MaxAlloc bounds every single allocation from here on.
func MaxAlloc(n int) {
	limit = uint64(n)
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	start = m.TotalAlloc
}

// Known marks the inputs of a recorded finding.
func Known(id string, cond bool) {
	if cond {
		fmt.Println("VERIF-REPLAY: known: " + id)
	}
}

// WaitIdle returns when every other goroutine is blocked or finished.
//
//go:norace
func WaitIdle() {
	d := 150
	if s := os.Getenv("VERIF_IDLE_MS"); s != "" {
		d, _ = strconv.Atoi(s)
	}
	if head < len(script) {
		d /= 5
	}
	for {
		seen := head
		time.Sleep(time.Duration(d) * time.Millisecond)
		if seen == head { // nothing happened meanwhile
			return
		}
	}
}

// Baseline starts counting goroutines.
func Baseline() { base = runtime.NumGoroutine() }

// Blocked is the number of unfinished goroutines started since Baseline.
func Blocked() int { return runtime.NumGoroutine() - base }

// Symbolic tells whether the code runs in the checker.
func Symbolic() bool { return false }

// Concrete fixes a value (path by path).
func Concrete(v uint64) uint64 { return v }

var drawn []byte

// Random is the last n bytes the code drew from crypto/rand.
func Random(n int) []byte {
	mu.Lock()
	defer mu.Unlock()
	if n > len(drawn) {
		n = len(drawn)
	}
	return append([]byte(nil), drawn[len(drawn)-n:]...)
}

// RandRead stands in for crypto/rand.Read; ok is false outside replays.
func RandRead(b []byte) bool {
	if !running {
		return false
	}
	for i := range b {
		b[i] = byte(next("$crand").Uint64())
	}
	mu.Lock()
	drawn = append(drawn, b...)
	mu.Unlock()
	return true
}

// RandU64 stands in for math/rand; ok is false outside replays.
func RandU64() (uint64, bool) {
	if !running {
		return 0, false
	}
	return next("$rand").Uint64(), true
}

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Run replays one harness.
func Run(f func()) {
	running = true
	load()
	loadScript()
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				fmt.Printf("VERIF-REPLAY: panic: %v\n", r)
				if os.Getenv("VERIF_STACK") != "" {
					b := make([]byte, 1<<16)
					fmt.Printf("%s\n", b[:runtime.Stack(b, false)])
				}
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(20 * time.Second):
		fmt.Println("VERIF-REPLAY: hang")
		os.Stdout.Sync()
		os.Exit(5)
	}
	if limit > 0 {
		var m runtime.MemStats
		runtime.ReadMemStats(&m)
		if m.TotalAlloc-start > limit {
			fmt.Printf("VERIF-REPLAY: alloc: %d bytes, limit %d\n", m.TotalAlloc-start, limit)
		}
	}
	fmt.Println("VERIF-REPLAY: done")
}

// ---------------------------------------------------------------- function tables

type flat struct {
	v *big.Int
	w int
}

func (f *flat) add(v *big.Int, w int) {
	f.v.Lsh(f.v, uint(w))
	f.v.Or(f.v, v)
	f.w += w
}

// IsQR decides quadratic residues for the table keys; set by the replay glue.
var IsQR func(*big.Int) bool

func (f *flat) value(v reflect.Value) {
	if v.CanAddr() && !v.CanInterface() { // an unexported field
		v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
	}
	if v.Type() == reflect.TypeOf(big.Int{}) {
		var b *big.Int
		if v.CanAddr() {
			b = v.Addr().Interface().(*big.Int)
		} else {
			t := v.Interface().(big.Int)
			b = &t
		}
		w := 512
		if b.BitLen() > w {
			w = (b.BitLen() + 7) / 8 * 8
		}
		f.add(new(big.Int).Abs(b), w)
		return
	}
	switch v.Kind() {
	case reflect.Bool:
		if v.Bool() {
			f.add(big.NewInt(1), 8)
		} else {
			f.add(big.NewInt(0), 8)
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		w := int(v.Type().Size()) * 8
		f.add(new(big.Int).And(new(big.Int).SetUint64(uint64(v.Int())), mask(w)), w)
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f.add(new(big.Int).SetUint64(v.Uint()), int(v.Type().Size())*8)
	case reflect.String:
		for _, b := range []byte(v.String()) {
			f.add(big.NewInt(int64(b)), 8)
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			f.value(v.Index(i))
		}
	case reflect.Ptr:
		if v.IsNil() {
			f.add(big.NewInt(0), 8)
			return
		}
		f.value(v.Elem())
	case reflect.Struct:
		if v.Type().Name() == "Point" && v.NumField() == 2 {
			x, y := v.Field(0).Interface().(*big.Int), v.Field(1).Interface().(*big.Int)
			if x == nil || y == nil {
				f.add(big.NewInt(0), 8)
				return
			}
			f.value(reflect.ValueOf(x).Elem())
			q := int64(0)
			if IsQR(y) {
				q = 1
			}
			f.add(big.NewInt(q), 8)
			return
		}
		for i := 0; i < v.NumField(); i++ {
			f.value(v.Field(i))
		}
	case reflect.Interface:
		f.value(v.Elem())
	}
}

func mask(w int) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return m.Sub(m, big.NewInt(1))
}

var (
	hooked    = map[string]bool{}
	fieldP, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f", 16)
)

// Lookup finds the value the counterexample assigns to a function application.
func Lookup(name string, args ...interface{}) (*big.Int, bool) {
	mu.Lock()
	load()
	mu.Unlock()
	if len(uf) == 0 {
		return nil, false
	}
	f := &flat{v: new(big.Int)}
	for _, a := range args {
		v := reflect.New(reflect.TypeOf(a)).Elem() // addressable
		v.Set(reflect.ValueOf(a))
		f.value(v)
	}
	if f.w == 0 {
		f.add(big.NewInt(0), 8)
	}
	v, ok := uf[fmt.Sprintf("%s/%d|%d:%s", name, f.w, f.w, f.v.Text(16))]
	mu.Lock()
	// the y coordinates of the counterexample's points carry their residuosity in bit 254
	switch {
	case ok && name == "liftx":
		v = new(big.Int).SetBit(v, 254, 1-f.v.Bit(0))
		hooked[v.Text(16)] = true
	case ok && name == "modsqrt":
		v = new(big.Int).SetBit(v, 254, 1)
		hooked[v.Text(16)] = true
	case ok && (name == "scalarmul" || name == "sumpoints"):
		hooked[new(big.Int).And(v, mask(256)).Text(16)] = true
	case name == "isqr":
		y := args[0].(*big.Int)
		if m := new(big.Int).Sub(fieldP, y); hooked[y.Text(16)] {
			v, ok = big.NewInt(int64(y.Bit(254))), true
		} else if hooked[m.Text(16)] {
			v, ok = big.NewInt(1-int64(m.Bit(254))), true
		}
	}
	mu.Unlock()
	if os.Getenv("VERIF_UFDEBUG") != "" {
		fmt.Printf("VERIF-UF: %s/%d %v %s\n", name, f.w, ok, f.v.Text(16))
	}
	return v, ok
}
