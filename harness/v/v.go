// Package v is the interface between harnesses and the symbolic executor. Under the
// executor its functions are intrinsics; compiled natively they read the values of a
// recorded counterexample, so that every harness can be replayed against the real code.
package v

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

// RuntimeError is the dynamic type of runtime panics under the executor.
type RuntimeError string

func (e RuntimeError) Error() string { return string(e) }
func (e RuntimeError) RuntimeError() {}

type state struct {
	mu      sync.Mutex
	inputs  map[string]uint64
	counter map[string]int
	obs     []string
	reached map[string]bool
	fails   []string
	assume  bool
	base    int
}

var cur *state

type abort struct{ msg string }

func fresh(label string) uint64 {
	s := cur
	s.mu.Lock()
	defer s.mu.Unlock()
	k := s.counter[label]
	s.counter[label] = k + 1
	return s.inputs[fmt.Sprintf("%s#%d", label, k)]
}

// Byte is an arbitrary byte.
func Byte(label string) byte { return byte(fresh(label)) }

// Bool is an arbitrary bool.
func Bool(label string) bool { return fresh(label)&1 != 0 }

// Uint16 is an arbitrary uint16.
func Uint16(label string) uint16 { return uint16(fresh(label)) }

// Uint32 is an arbitrary uint32.
func Uint32(label string) uint32 { return uint32(fresh(label)) }

// Int32 is an arbitrary int32.
func Int32(label string) int32 { return int32(fresh(label)) }

// Uint64 is an arbitrary uint64.
func Uint64(label string) uint64 { return fresh(label) }

// Int64 is an arbitrary int64.
func Int64(label string) int64 { return int64(fresh(label)) }

// Int is an arbitrary int in [lo,hi].
func Int(label string, lo, hi int) int {
	n := int(fresh(label))
	if n < lo || n > hi {
		Assume(false)
	}
	return n
}

// Choose is a value in [0,n), each explored on its own path.
func Choose(label string, n int) int {
	if n <= 1 {
		return 0
	}
	r := int(fresh(label))
	if r >= n {
		Assume(false)
	}
	return r
}

// Bytes is n arbitrary bytes.
func Bytes(label string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(label)
	}
	return b
}

// BytesUpTo is 0..max arbitrary bytes.
func BytesUpTo(label string, max int) []byte { return Bytes(label, Choose(label+".len", max+1)) }

// String is an arbitrary string of n bytes.
func String(label string, n int) string { return string(Bytes(label, n)) }

// StringUpTo is an arbitrary string of 0..max bytes.
func StringUpTo(label string, max int) string { return string(BytesUpTo(label, max)) }

// Assume discards executions in which c is false.
func Assume(c bool) {
	if !c {
		cur.mu.Lock()
		cur.assume = true
		cur.mu.Unlock()
		panic(abort{"assume"})
	}
}

// Assert states that c holds on every execution.
func Assert(c bool, msg string) {
	if !c {
		Fail(msg)
	}
}

// Fail states that this point is never reached.
func Fail(msg string) {
	cur.mu.Lock()
	cur.fails = append(cur.fails, msg)
	cur.mu.Unlock()
	panic(abort{msg})
}

// Reach is a vacuity witness: some execution must get here.
func Reach(label string) {
	cur.mu.Lock()
	cur.reached[label] = true
	cur.mu.Unlock()
}

// Observe records a value compared between the executor and the native run.
func Observe(label string, n int) {
	cur.mu.Lock()
	cur.obs = append(cur.obs, fmt.Sprintf("%s=%d", label, uint64(int64(n))))
	cur.mu.Unlock()
}

// Quiesce waits until every other goroutine is blocked or has ended.
func Quiesce() {
	for i := 0; i < 15; i++ {
		runtime.Gosched()
		time.Sleep(2 * time.Millisecond)
	}
}

// Yield is a scheduling point.
func Yield() { runtime.Gosched() }

// Others is the number of other goroutines alive (natively: an estimate).
func Others() int {
	n := 0
	for i := 0; i < 100; i++ {
		if n = runtime.NumGoroutine() - cur.base; n <= 0 {
			return 0
		}
		time.Sleep(2 * time.Millisecond)
	}
	return n
}

// NoOthers states that no other goroutine is alive.
func NoOthers(msg string) {
	if Others() > 0 {
		Fail(msg)
	}
}

// Native is true when compiled natively.
func Native() bool { return true }

// Thorough is true in the thorough tier.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Bound is a size that depends on the tier.
func Bound(quick, thorough int) int {
	if Thorough() {
		return thorough
	}
	return quick
}

// Stub replaces the function with the given name by fn (executor only).
func Stub(name string, fn any) {}

// Concretize forks over the values of n.
func Concretize(n int) int { return n }

// NoDelays ends the exploration of alternative schedules on this path.
func NoDelays() {}

// Result is the outcome of one native run.
type Result struct {
	OK      bool     `json:"ok"`
	Assume  bool     `json:"assume"`
	Msg     string   `json:"msg"`
	Obs     []string `json:"obs"`
	Reached []string `json:"reached"`
}

// Request asks for native runs.
type Request struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Repeat  int               `json:"repeat"`
	Timeout int               `json:"timeout_ms"`
}

func runOnce(fn func(), in map[string]uint64, timeout time.Duration) Result {
	st := &state{inputs: in, counter: map[string]int{}, reached: map[string]bool{}}
	cur = st
	st.base = runtime.NumGoroutine() + 1
	done := make(chan string, 1)
	go func() {
		msg := ""
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(abort); !ok {
					msg = fmt.Sprintf("panic: %v", r)
				}
			}
			done <- msg
		}()
		fn()
	}()
	var msg string
	select {
	case msg = <-done:
	case <-time.After(timeout):
		msg = "timeout: the harness did not finish"
	}
	st.mu.Lock()
	defer st.mu.Unlock()
	r := Result{Assume: st.assume, Obs: st.obs}
	for l := range st.reached {
		r.Reached = append(r.Reached, l)
	}
	sort.Strings(r.Reached)
	if len(st.fails) > 0 {
		msg = st.fails[0]
	}
	r.Msg = msg
	r.OK = msg == ""
	return r
}

// Main serves run requests, one JSON object per line.
func Main(table map[string]func()) {
	sc := bufio.NewScanner(os.Stdin)
	sc.Buffer(make([]byte, 1<<20), 1<<26)
	out := json.NewEncoder(os.Stdout)
	for sc.Scan() {
		var rq Request
		if err := json.Unmarshal(sc.Bytes(), &rq); err != nil {
			out.Encode(Result{Msg: err.Error()})
			continue
		}
		fn := table[rq.Harness]
		if fn == nil {
			out.Encode(Result{Msg: "unknown harness"})
			continue
		}
		var r Result
		for i := 0; i < max(rq.Repeat, 1); i++ {
			r = runOnce(fn, rq.Inputs, time.Duration(max(rq.Timeout, 1000))*time.Millisecond)
			if !r.OK && !r.Assume {
				break
			}
			if strings.HasPrefix(r.Msg, "timeout") {
				break
			}
		}
		out.Encode(r)
	}
}
