// Package selftest exercises the executor itself.
package selftest

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aperturerobotics/starpc/zz_verif/v"
	perr "github.com/pkg/errors"
)

type shape interface{ Area() int }
type sq struct{ n int }
type rc struct{ a, b int }

func (s sq) Area() int  { return s.n * s.n }
func (r *rc) Area() int { return r.a * r.b }

type emb struct {
	sq
	*rc
	name string
}

func (e *emb) Area() int { return e.sq.Area() + e.rc.Area() }

func H_basic() {
	x := v.Int("x", -100, 100)
	y := x*2 + 1
	v.Assert(y != 0, "odd is never zero")
	var s shape = sq{x}
	v.Assert(s.Area() >= 0, "square")
	e := &emb{sq{2}, &rc{3, 4}, "n"}
	s = e
	v.Assert(s.Area() == 16, "embedded")
	f := e.rc.Area
	v.Assert(f() == 12, "bound method")
	arr := [4]int{1, 2, 3, 4}
	b := arr
	b[1] = 9
	v.Assert(arr[1] == 2 && b[1] == 9, "array copy")
	sl := arr[:2]
	sl = append(sl, 7)
	v.Assert(arr[2] == 7, "append aliases")
	sl = append(sl[:2:2], 8)
	v.Assert(arr[2] == 7, "append with cap copies")
	m := map[string]int{"a": 1, "b": 2}
	sum := 0
	for k, n := range m {
		sum += n
		if k == "a" {
			delete(m, "b")
		}
	}
	v.Assert(sum == 1 || sum == 3, "map range")
	v.Observe("sum", len(m))
	i := v.Int("i", 0, 3)
	v.Assert(arr[i] >= 1, "symbolic index")
	st := v.String("s", 2)
	if st == "ab" {
		v.Reach("ab")
	}
	if strings.HasPrefix(st, "x") {
		v.Assert(st[0] == 'x', "prefix")
		v.Reach("x")
	}
	switch {
	case x > 50:
		v.Reach("big")
	case x < -50:
		v.Reach("small")
	}
	v.Observe("x", x)
	q := []int{3, 1, 2}
	sort.Ints(q)
	v.Assert(q[0] == 1 && q[2] == 3, "sorted")
	sort.Slice(q, func(i, j int) bool { return q[i] > q[j] })
	v.Assert(q[0] == 3 && q[2] == 1, "sorted desc")
}

func mayPanic(n int) (r int, err error) {
	defer func() {
		if e := recover(); e != nil {
			err = fmt.Errorf("recovered: %v", e)
			r++
		}
	}()
	defer func() { r = 10 }()
	a := []int{1, 2, 3}
	return a[n], nil
}

func H_panic() {
	n := v.Int("n", -2, 5)
	r, err := mayPanic(n)
	if n >= 0 && n < 3 {
		v.Assert(err == nil && r == 10, "no panic")
	} else {
		v.Assert(err != nil && r == 11, "panic recovered")
		v.Reach("recovered")
	}
	var order []int
	func() {
		defer func() { recover(); order = append(order, 3) }()
		for i := 0; i < 3; i++ {
			defer func() { order = append(order, i) }()
		}
		panic("x")
	}()
	v.Assert(len(order) == 4 && order[0] == 2 && order[3] == 3, "defer order")
	var np *rc
	func() {
		defer func() {
			e := recover()
			err, ok := e.(error)
			v.Assert(ok && strings.Contains(err.Error(), "nil pointer"), "nil deref")
		}()
		np.a = 1
	}()
}

var errBase = errors.New("base")

type myErr struct{ code int }

func (m *myErr) Error() string { return "my" }

func H_lib() {
	e := perr.Wrap(errBase, "ctx")
	v.Assert(errors.Is(e, errBase), "is")
	v.Assert(e.Error() == "ctx: base", "wrap")
	e2 := fmt.Errorf("hello %d %q: %w", 5, "x", errBase)
	v.Assert(errors.Is(e2, errBase), "is2")
	v.Assert(e2.Error() == `hello 5 "x": base`, "errorf")
	var me *myErr
	v.Assert(errors.As(fmt.Errorf("w: %w", &myErr{3}), &me) && me.code == 3, "as")
	var b bytes.Buffer
	b.WriteString("hello")
	b.WriteByte(' ')
	b.Write([]byte("world"))
	v.Assert(b.String() == "hello world", "buffer")
	p, _ := io.ReadAll(&b)
	v.Assert(len(p) == 11, "readall")
	v.Assert(strings.Split("a/b/c", "/")[2] == "c", "split")
	v.Assert(strings.Join([]string{"a", "b"}, "-") == "a-b", "join")
	var sb strings.Builder
	sb.WriteString("ab")
	sb.WriteString("cd")
	v.Assert(sb.String() == "abcd", "builder")
	for i, r := range "aé" {
		if i == 1 {
			v.Assert(r == 'é', "rune")
		}
	}
	d := 1500 * time.Millisecond
	v.Assert(d.String() == "1.5s", "duration")
	ctx, cancel := context.WithTimeout(context.Background(), time.Second)
	v.Assert(ctx.Err() == nil, "live")
	<-ctx.Done()
	v.Assert(ctx.Err() == context.DeadlineExceeded, "deadline")
	cancel()
	for i := range func(yield func(int) bool) {
		for j := 0; j < 5; j++ {
			if !yield(j) {
				return
			}
		}
	} {
		if i == 3 {
			break
		}
		defer func() {}()
	}
	v.Reach("end")
}

// sym: delays=2
func H_mutex() {
	var mu sync.Mutex
	n := 0
	var wg sync.WaitGroup
	for i := 0; i < 3; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mu.Lock()
			defer mu.Unlock()
			n++
		}()
	}
	wg.Wait()
	v.Assert(n == 3, "three")
	v.Quiesce()
	v.NoOthers("leak")
}

// sym: delays=2
func H_chan() {
	c := make(chan int)
	d := make(chan int, 1)
	done := make(chan struct{})
	go func() {
		for x := range c {
			d <- x * 2
		}
		close(d)
		close(done)
	}()
	go func() { c <- 1; c <- 2; close(c) }()
	s := 0
	for x := range d {
		s += x
	}
	<-done
	v.Assert(s == 6, "sum")
	ctx, cancel := context.WithCancel(context.Background())
	child, cc := context.WithCancel(ctx)
	defer cc()
	var got atomic.Int32
	go func() {
		select {
		case <-child.Done():
			got.Store(1)
		}
	}()
	v.Assert(child.Err() == nil, "not yet")
	cancel()
	v.Assert(child.Err() == context.Canceled, "cancelled")
	v.Quiesce()
	v.Assert(got.Load() == 1, "woken")
	v.NoOthers("leak")
}

// sym: delays=2
func H_pipe() {
	pr, pw := io.Pipe()
	go func() {
		pw.Write([]byte("hello"))
		pw.CloseWithError(io.ErrUnexpectedEOF)
	}()
	b := make([]byte, 3)
	n, err := pr.Read(b)
	v.Assert(n == 3 && err == nil, "r1")
	n, err = pr.Read(b)
	v.Assert(n == 2 && err == nil, "r2")
	n, err = pr.Read(b)
	v.Assert(n == 0 && err == io.ErrUnexpectedEOF, "r3")
	v.Quiesce()
	v.NoOthers("leak")
}
