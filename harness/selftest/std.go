package selftest

import (
	"bufio"
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"io"
	"maps"
	"math"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode/utf8"

	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// H_good_std1: strings, bytes, slices, maps.
func H_good_std1() {
	b := v.Bytes("b", 3)
	s := string(b)
	if i := strings.IndexByte(s, 'x'); i >= 0 {
		v.Assert(s[i] == 'x', "IndexByte")
	}
	if t, ok := strings.CutPrefix(s, "ab"); ok {
		v.Assert(len(t) == 1 && b[0] == 'a', "CutPrefix")
	}
	v.Assert(strings.TrimPrefix("xx"+s, "xx") == s, "TrimPrefix")
	v.Assert(bytes.Equal(bytes.Clone(b), b), "Clone")
	v.Assert(slices.Equal(slices.Clone(b), b), "slices.Clone")
	l := []int{3, 1, 2}
	slices.Sort(l)
	v.Assert(l[0] == 1 && slices.Contains(l, 3) && slices.Index(l, 2) == 1, "slices")
	slices.Reverse(l)
	sort.Ints(l)
	v.Assert(sort.SearchInts(l, 2) == 1, "sort")
	m := map[string]int{"a": 1, "b": 2}
	ks := slices.Sorted(maps.Keys(m))
	v.Assert(len(ks) == 2 && ks[0] == "a", "maps.Keys")
	c := maps.Clone(m)
	delete(c, "a")
	v.Assert(len(c) == 1 && len(m) == 2, "maps.Clone")
	var sb strings.Builder
	sb.WriteString(s)
	sb.WriteByte('z')
	v.Assert(sb.String() == s+"z", "Builder")
	v.Assert(strings.Join([]string{"a", "b"}, ",") == "a,b", "Join")
	v.Assert(len(strings.Split("a/b/c", "/")) == 3, "Split")
	v.Assert(strings.Contains("hello", "ell") && strings.HasSuffix("hello", "lo") && strings.Index("abc", "c") == 2 && strings.LastIndex("abcb", "b") == 3, "Contains")
	v.Assert(strings.ToLower("AbC") == "abc" && strings.EqualFold("Ab", "aB"), "case")
	v.Assert(strings.Repeat("ab", 3) == "ababab" && strings.ReplaceAll("aab", "a", "c") == "ccb", "Repeat")
	n, err := strconv.Atoi("123")
	v.Assert(err == nil && n == 123 && strconv.Itoa(-5) == "-5", "strconv")
	v.Assert(utf8.ValidString("abc") && utf8.RuneCountInString("äb") == 2, "utf8")
	v.Assert(bytes.Contains([]byte("abc"), []byte("bc")) && bytes.IndexByte(b, b[0]) == 0, "bytes")
	for i, r := range "aä" {
		v.Assert(i < 2 && r > 0, "range string")
	}
	clear(c)
	v.Assert(len(c) == 0 && max(1, 2) == 2 && min(3, 1) == 1, "builtins")
	v.Assert(math.MaxUint32 > 5 && math.MaxInt32 > 0, "math")
}

// H_good_std2: readers, writers, binary.
func H_good_std2() {
	b := v.Bytes("b", 5)
	r := bufio.NewReader(bytes.NewReader(b))
	x := make([]byte, 3)
	_, err := io.ReadFull(r, x)
	v.Assert(err == nil && bytes.Equal(x, b[:3]), "ReadFull")
	rest, err := io.ReadAll(r)
	v.Assert(err == nil && bytes.Equal(rest, b[3:]), "ReadAll")
	_, err = io.ReadFull(strings.NewReader("ab"), x)
	v.Assert(err == io.ErrUnexpectedEOF, "short ReadFull")
	var buf bytes.Buffer
	w := bufio.NewWriter(&buf)
	_, _ = w.Write(b)
	v.Assert(w.Flush() == nil && bytes.Equal(buf.Bytes(), b), "bufio.Writer")
	n := binary.BigEndian.Uint32(b)
	o := binary.BigEndian.AppendUint32(nil, n)
	v.Assert(bytes.Equal(o, b[:4]), "binary")
	le := binary.LittleEndian.AppendUint32(nil, uint32(b[4]))
	v.Assert(le[0] == b[4] && le[1] == 0, "binary")
	l, k := binary.Uvarint(binary.AppendUvarint(nil, 300))
	v.Assert(l == 300 && k == 2, "uvarint")
	var dst bytes.Buffer
	c, err := io.Copy(&dst, io.LimitReader(bytes.NewReader(b), 2))
	v.Assert(err == nil && c == 2 && dst.Len() == 2, "Copy")
	mr := io.MultiReader(strings.NewReader("a"), strings.NewReader("b"))
	all, _ := io.ReadAll(mr)
	v.Assert(string(all) == "ab", "MultiReader")
	_, _ = io.WriteString(&dst, "x")
	tee, _ := io.ReadAll(io.TeeReader(strings.NewReader("q"), &dst))
	v.Assert(string(tee) == "q", "TeeReader")
	pr, pw := io.Pipe()
	go func() {
		_, _ = pw.Write(b)
		_ = pw.CloseWithError(errors.New("end"))
	}()
	got, err := io.ReadAll(pr)
	v.Assert(bytes.Equal(got, b) && err.Error() == "end", "io.Pipe")
}

type strErr struct{ s string }

func (e *strErr) Error() string { return e.s }

// H_good_std3: errors, contexts, sync.
//
// sym: delays=1
func H_good_std3() {
	e := errors.Join(io.EOF, &strErr{"x"})
	v.Assert(errors.Is(e, io.EOF), "Join")
	var me *strErr
	v.Assert(errors.As(e, &me) && me.s == "x", "As")
	ctx, cancel := context.WithCancelCause(context.Background())
	ctx2, cancel2 := context.WithTimeout(ctx, time.Hour)
	defer cancel2()
	type key struct{}
	ctx3 := context.WithValue(ctx2, key{}, 5)
	v.Assert(ctx3.Value(key{}) == any(5) && ctx3.Value("q") == nil, "WithValue")
	ctx4, cancel4 := context.WithCancel(ctx3)
	defer cancel4()
	fired := make(chan bool, 1)
	stop := context.AfterFunc(ctx4, func() { fired <- true })
	cancel(io.EOF)
	<-ctx4.Done()
	<-fired
	v.Assert(!stop(), "stop")
	v.Assert(context.Cause(ctx4) == io.EOF && ctx4.Err() == context.Canceled, "Cause")
	wc := context.WithoutCancel(ctx4)
	v.Assert(wc.Err() == nil, "WithoutCancel")
	var wg sync.WaitGroup
	var n atomic.Int64
	var once sync.Once
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	ready := false
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			once.Do(func() { n.Add(10) })
			n.Add(1)
			mu.Lock()
			for !ready {
				cond.Wait()
			}
			mu.Unlock()
		}()
	}
	mu.Lock()
	ready = true
	cond.Broadcast()
	mu.Unlock()
	wg.Wait()
	v.Assert(n.Load() == 12, "sync")
	var sm sync.Map
	sm.Store("a", 1)
	x, ok := sm.Load("a")
	v.Assert(ok && x == any(1), "sync.Map")
	_, loaded := sm.LoadOrStore("a", 2)
	v.Assert(loaded, "LoadOrStore")
	k := 0
	sm.Range(func(a, b any) bool { k++; return true })
	sm.Delete("a")
	v.Assert(k == 1, "Range")
	pool := sync.Pool{New: func() any { return new(int) }}
	p := pool.Get().(*int)
	pool.Put(p)
	ov := sync.OnceValue(func() int { return 7 })
	v.Assert(ov() == 7 && ov() == 7, "OnceValue")
	v.Assert(mu.TryLock(), "TryLock")
	mu.Unlock()
	var rw sync.RWMutex
	rw.RLock()
	v.Assert(!rw.TryLock(), "RW TryLock")
	rw.RUnlock()
	var ap atomic.Pointer[strErr]
	ap.Store(&strErr{"q"})
	v.Assert(ap.Load().s == "q", "atomic.Pointer")
	var ab atomic.Bool
	v.Assert(ab.CompareAndSwap(false, true) && ab.Load(), "atomic.Bool")
	var av atomic.Value
	av.Store("s")
	v.Assert(av.Load().(string) == "s", "atomic.Value")
}

// H_good_std4: timers.
func H_good_std4() {
	t := time.NewTimer(time.Millisecond)
	select {
	case <-t.C:
	case <-time.After(time.Hour):
		v.Fail("later timer first")
	}
	done := make(chan bool)
	time.AfterFunc(time.Millisecond, func() { close(done) })
	<-done
	ctx, cancel := context.WithTimeout(context.Background(), time.Millisecond)
	defer cancel()
	<-ctx.Done()
	v.Assert(ctx.Err() == context.DeadlineExceeded, "deadline")
	tk := time.NewTicker(time.Second)
	<-tk.C
	tk.Stop()
	t2 := time.NewTimer(time.Hour)
	v.Assert(t2.Stop(), "Stop")
	time.Sleep(time.Millisecond)
}
