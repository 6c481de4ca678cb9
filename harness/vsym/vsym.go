// Package vsym is the interface between the harnesses and the checker.  The
// symbolic engine replaces every function here; the bodies below replay one
// concrete input, taken from a solver's model, against the compiled code.
package vsym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"strconv"
	"sync"

	"github.com/chronos-tachyon/morehttp/vharness/vsched"
)

type input struct {
	Harness  string                       `json:"harness"`
	Tier     string                       `json:"tier"`
	Vars     map[string]uint64            `json:"vars"`
	UFs      map[string]map[string]uint64 `json:"ufs"`
	Schedule []int                        `json:"schedule"`
}

var (
	in input
	mu sync.Mutex

	atomic sync.Mutex
	names  = map[string]int{}
)

// Load reads the input file and returns the harness to run.
func Load(path string) string {
	b, err := os.ReadFile(path)
	if err == nil {
		err = json.Unmarshal(b, &in)
	}
	if err != nil {
		fmt.Println("REPLAY-ERROR", err)
		os.Exit(9)
	}
	vsched.Schedule = in.Schedule
	vsched.Deadlock = func() { fmt.Println("REPLAY-DEADLOCK"); os.Exit(6) }
	return in.Harness
}

func uniq(name string) string {
	mu.Lock()
	defer mu.Unlock()
	k := names[name]
	names[name] = k + 1
	if k > 0 {
		return fmt.Sprintf("%s#%d", name, k)
	}
	return name
}

func val(name string) uint64 { return in.Vars[uniq(name)] }

func Int64(name string) int64 { return int64(val(name)) }
func Int(name string) int     { return int(val(name)) }
func Byte(name string) byte   { return byte(val(name)) }
func Bool(name string) bool   { return val(name) != 0 }

func IntRange(name string, lo, hi int) int {
	v := Int(name)
	Assume(lo <= v && v <= hi)
	return v
}

func Int64Range(name string, lo, hi int64) int64 {
	v := Int64(name)
	Assume(lo <= v && v <= hi)
	return v
}

// Choose explores every value from 0 to n-1 as a separate path.
func Choose(name string, n int) int { return Int(name) }

// Concrete explores every value of v as a separate path.
func Concrete(v int) int { return v }

func Assume(c bool) {
	if !c {
		fmt.Println("REPLAY-ASSUME")
		os.Exit(4)
	}
}

func Assert(c bool, label string) {
	if !c {
		Fail(label)
	}
}

func Fail(label string) {
	fmt.Println("REPLAY-FAIL", label)
	os.Exit(3)
}

func Reach(label string) {}

// Decided reports whether c holds on every continuation of the path.
func Decided(c bool) bool { return c }

// Symbolic reports whether the symbolic engine is running the harness.
func Symbolic() bool { return false }

// Observe publishes a value; the replayed run must publish the same.
func Observe(label string, v int64) {
	mu.Lock()
	defer mu.Unlock()
	fmt.Println("OBS", label, v)
}

// MapOrder turns exploration of map iteration orders on or off.
func MapOrder(on bool) {}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return in.Tier == "thorough" }

// Par runs the functions concurrently, in every interleaving.
func Par(fs ...func()) {
	if vsched.On {
		vsched.Par(fs...)
		return
	}
	var wg sync.WaitGroup
	start := make(chan struct{})
	for _, f := range fs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			f()
		}()
	}
	close(start)
	wg.Wait()
}

// Atomic runs f, which no other goroutine can observe half-done.
func Atomic(f func()) {
	atomic.Lock()
	defer atomic.Unlock()
	f()
}

// Yield is a scheduling point.
func Yield() { vsched.Point(nil) }

// SetSide and Side attach engine-side state to an object.
var side = map[interface{}]map[string]interface{}{}

func SetSide(obj interface{}, key string, v interface{}) {
	m := side[obj]
	if m == nil {
		m = map[string]interface{}{}
		side[obj] = m
	}
	m[key] = v
}

func Side(obj interface{}, key string) interface{} { return side[obj][key] }

// Data is an unbounded sequence of arbitrary bytes.
type Data struct{ name string }

func NewData(name string) Data { return Data{uniq(name)} }

func (d Data) At(i int64) byte                         { return dataAt(d.name, i) }
func (d Data) Fill(p []byte, off int64)                { dataFill(d.name, p, off) }
func (d Data) Bytes(n int) []byte                      { return dataBytes(d.name, n) }
func (d Data) String(n int) string                     { return dataString(d.name, n) }
func (d Data) Check(p []byte, off int64, label string) { dataCheck(d.name, p, off, label) }
func (d Data) CheckStr(p string, off int64, label string) {
	dataCheck(d.name, []byte(p), off, label)
}

// SameBytes asserts that both hold the same bytes.
func SameBytes(p, q []byte, label string) { sameBytes(p, q, label) }

// Alike reports whether both hold the same bytes.  The symbolic result stands
// for an arbitrary position: a harness may only conclude from true that
// nothing is wrong.
func Alike(p, q []byte) bool { return bytes.Equal(p, q) }

// StringEq compares without branching.
func StringEq(a, b string) bool { return a == b }

func dataAt(name string, i int64) byte {
	if v, ok := in.UFs[name][strconv.FormatUint(uint64(i), 10)]; ok {
		return byte(v)
	}
	h := fnv.New32a()
	fmt.Fprintf(h, "%s/%d", name, i)
	return byte(h.Sum32() >> 7)
}

func dataFill(name string, p []byte, off int64) {
	for i := range p {
		p[i] = dataAt(name, off+int64(i))
	}
}

func dataBytes(name string, n int) []byte {
	p := make([]byte, n)
	dataFill(name, p, 0)
	return p
}

func dataString(name string, n int) string { return string(dataBytes(name, n)) }

func dataCheck(name string, p []byte, off int64, label string) {
	for i := range p {
		if p[i] != dataAt(name, off+int64(i)) {
			fmt.Printf("byte %d of %d is %#x, want byte %d of %s = %#x\n", i, len(p), p[i], off+int64(i), name, dataAt(name, off+int64(i)))
			Fail(label)
		}
	}
}

func sameBytes(p, q []byte, label string) {
	if !bytes.Equal(p, q) {
		Fail(label)
	}
}
