package v

import (
	"context"
	"fmt"
	"io"
	"strconv"
	"sync"
	"time"
)

// Go models of library functions whose implementation is reflective.

func comparable_(x any) bool          { return true }
func asInto(err, target any) bool     { return false }
func typeName(x any) string           { return "" }
func intOf(x any) (int64, bool, bool) { return 0, false, false }
func stringOf(x any) (string, bool)   { return "", false }
func bytesOf(x any) ([]byte, bool)    { return nil, false }
func boolOf(x any) (bool, bool)       { return false, false }
func swapAny(s any, i, j int)         {}
func lenAny(s any) int                { return 0 }

// ModelErrorsIs is errors.Is.
func ModelErrorsIs(err, target error) bool {
	if err == nil || target == nil {
		return err == target
	}
	return modelIs(err, target, comparable_(target))
}

func modelIs(err, target error, cmp bool) bool {
	for {
		if cmp && comparable_(err) && err == target {
			return true
		}
		if x, ok := err.(interface{ Is(error) bool }); ok && x.Is(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
			if err == nil {
				return false
			}
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && modelIs(e, target, cmp) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
}

// ModelErrorsAs is errors.As.
func ModelErrorsAs(err error, target any) bool {
	for err != nil {
		if asInto(err, target) {
			return true
		}
		if x, ok := err.(interface{ As(any) bool }); ok && x.As(target) {
			return true
		}
		switch x := err.(type) {
		case interface{ Unwrap() error }:
			err = x.Unwrap()
		case interface{ Unwrap() []error }:
			for _, e := range x.Unwrap() {
				if e != nil && ModelErrorsAs(e, target) {
					return true
				}
			}
			return false
		default:
			return false
		}
	}
	return false
}

// lazyError formats its text when it is asked for it.
type lazyError struct {
	format string
	args   []any
}

func (e *lazyError) Error() string { s, _ := format_(e.format, e.args); return s }

type wrapError struct {
	lazyError
	err error
}

func (e *wrapError) Unwrap() error { return e.err }

// ModelErrorf is fmt.Errorf (at most one %w).
func ModelErrorf(format string, args ...any) error {
	as := make([]any, len(args))
	for i, a := range args {
		as[i] = a
		_, s := stringOf(a)
		_, _, n := intOf(a)
		_, b := boolOf(a)
		if e, ok := a.(error); ok {
			as[i] = e
		} else if !s && !n && !b {
			as[i] = value('v', a)
		}
	}
	l := lazyError{format, as}
	n := 0
	for i := 0; i+1 < len(format); i++ {
		if format[i] != '%' {
			continue
		}
		i++
		if format[i] == '%' {
			continue
		}
		if format[i] == 'w' && n < len(args) {
			if e, ok := args[n].(error); ok {
				return &wrapError{l, e}
			}
		}
		n++
	}
	return &l
}

// ModelSprintf is fmt.Sprintf for the common verbs.
func ModelSprintf(format string, args ...any) string {
	s, _ := format_(format, args)
	return s
}

// ModelSprint is fmt.Sprint.
func ModelSprint(args ...any) string {
	r := ""
	for i, a := range args {
		if i > 0 {
			_, s1 := stringOf(a)
			_, s0 := stringOf(args[i-1])
			if !s1 && !s0 {
				r += " "
			}
		}
		r += value('v', a)
	}
	return r
}

// ModelSprintln is fmt.Sprintln.
func ModelSprintln(args ...any) string {
	r := ""
	for i, a := range args {
		if i > 0 {
			r += " "
		}
		r += value('v', a)
	}
	return r + "\n"
}

// ModelFprintf is fmt.Fprintf.
func ModelFprintf(w io.Writer, format string, args ...any) (int, error) {
	return w.Write([]byte(ModelSprintf(format, args...)))
}

// ModelFprint is fmt.Fprint.
func ModelFprint(w io.Writer, args ...any) (int, error) { return w.Write([]byte(ModelSprint(args...))) }

// ModelFprintln is fmt.Fprintln.
func ModelFprintln(w io.Writer, args ...any) (int, error) {
	return w.Write([]byte(ModelSprintln(args...)))
}

// ModelPrintf is fmt.Printf with the output discarded.
func ModelPrintf(format string, args ...any) (int, error) {
	return len(ModelSprintf(format, args...)), nil
}

// ModelPrintln is fmt.Println with the output discarded.
func ModelPrintln(args ...any) (int, error) { return len(ModelSprintln(args...)), nil }

// ModelAppend is fmt.Append.
func ModelAppend(b []byte, args ...any) []byte { return append(b, ModelSprint(args...)...) }

// ModelAppendf is fmt.Appendf.
func ModelAppendf(b []byte, format string, args ...any) []byte {
	return append(b, ModelSprintf(format, args...)...)
}

func format_(format string, args []any) (string, error) {
	var w error
	r := ""
	n := 0
	for i := 0; i < len(format); i++ {
		c := format[i]
		if c != '%' {
			r += string(format[i : i+1])
			continue
		}
		i++
		for i < len(format) && (format[i] == '+' || format[i] == '#' || format[i] == '-' || format[i] == ' ' || format[i] == '.' || (format[i] >= '0' && format[i] <= '9')) {
			i++
		}
		if i >= len(format) {
			r += "%!(NOVERB)"
			break
		}
		verb := format[i]
		if verb == '%' {
			r += "%"
			continue
		}
		if n >= len(args) {
			r += "%!" + string(verb) + "(MISSING)"
			continue
		}
		a := args[n]
		n++
		if verb == 'w' {
			if e, ok := a.(error); ok && w == nil {
				w = e
			}
			verb = 'v'
		}
		r += value(verb, a)
	}
	return r, w
}

func value(verb byte, a any) string {
	if verb == 'T' {
		return typeName(a)
	}
	if a == nil {
		if verb == 'v' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	if verb == 'v' || verb == 's' || verb == 'q' {
		if e, ok := a.(error); ok {
			return quoteIf(verb, e.Error())
		}
		if e, ok := a.(fmt.Stringer); ok {
			return quoteIf(verb, e.String())
		}
		if b, ok := a.([]error); ok {
			r := "["
			for i, e := range b {
				if i > 0 {
					r += " "
				}
				r += value('v', e)
			}
			return r + "]"
		}
	}
	if s, ok := stringOf(a); ok {
		if verb == 'x' {
			return hex([]byte(s))
		}
		return quoteIf(verb, s)
	}
	if b, ok := boolOf(a); ok {
		return strconv.FormatBool(b)
	}
	if n, uns, ok := intOf(a); ok {
		base := 10
		switch verb {
		case 'x', 'X':
			base = 16
		case 'b':
			base = 2
		case 'o':
			base = 8
		case 'c':
			return string(rune(n))
		case 'q':
			return strconv.QuoteRune(rune(n))
		}
		if uns {
			return strconv.FormatUint(uint64(n), base)
		}
		return strconv.FormatInt(n, base)
	}
	if b, ok := bytesOf(a); ok {
		switch verb {
		case 's':
			return string(b)
		case 'x':
			return hex(b)
		case 'q':
			return quoteIf('q', string(b))
		}
		r := "["
		for i, e := range b {
			if i > 0 {
				r += " "
			}
			r += strconv.FormatUint(uint64(e), 10)
		}
		return r + "]"
	}
	if ss, ok := a.([]string); ok {
		r := "["
		for i, e := range ss {
			if i > 0 {
				r += " "
			}
			r += quoteIf(verb, e)
		}
		return r + "]"
	}
	return "(" + typeName(a) + ")"
}

func quoteIf(verb byte, s string) string {
	if verb == 'q' {
		return "\"" + s + "\""
	}
	return s
}

func hex(b []byte) string {
	const d = "0123456789abcdef"
	r := make([]byte, 0, 2*len(b))
	for _, c := range b {
		r = append(r, d[c>>4], d[c&15])
	}
	return string(r)
}

// ModelSince is time.Since.
func ModelSince(t time.Time) time.Duration { return time.Now().Sub(t) }

// ModelUntil is time.Until.
func ModelUntil(t time.Time) time.Duration { return t.Sub(time.Now()) }

// ModelSortSlice is sort.Slice (insertion sort).
func ModelSortSlice(x any, less func(i, j int) bool) {
	n := lenAny(x)
	for i := 1; i < n; i++ {
		for j := i; j > 0 && less(j, j-1); j-- {
			swapAny(x, j, j-1)
		}
	}
}

// valueCtx is a context with a value.
type valueCtx struct {
	context.Context
	key, val any
}

func (c *valueCtx) Value(key any) any {
	if c.key == key {
		return c.val
	}
	return c.Context.Value(key)
}

// ModelWithValue is context.WithValue.
func ModelWithValue(parent context.Context, key, val any) context.Context {
	return &valueCtx{parent, key, val}
}

// syncMap is the content of a sync.Map.
type syncMap struct {
	mu   sync.Mutex
	ents []*syncEnt
}

type syncEnt struct{ k, v any }

var (
	syncMapsMu sync.Mutex
	syncMaps   map[*sync.Map]*syncMap
)

func syncMapOf(m *sync.Map) *syncMap {
	syncMapsMu.Lock()
	defer syncMapsMu.Unlock()
	if syncMaps == nil {
		syncMaps = map[*sync.Map]*syncMap{}
	}
	s := syncMaps[m]
	if s == nil {
		s = &syncMap{}
		syncMaps[m] = s
	}
	return s
}

func (s *syncMap) find(k any) int {
	for i, e := range s.ents {
		if e.k == k {
			return i
		}
	}
	return -1
}

func (s *syncMap) del(i int) { s.ents = append(s.ents[:i:i], s.ents[i+1:]...) }

// ModelMapLoad is Load.
func ModelMapLoad(m *sync.Map, k any) (any, bool) {
	s := syncMapOf(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.find(k); i >= 0 {
		return s.ents[i].v, true
	}
	return nil, false
}

// ModelMapStore is Store.
func ModelMapStore(m *sync.Map, k, val any) { ModelMapSwap(m, k, val) }

// ModelMapSwap is Swap.
func ModelMapSwap(m *sync.Map, k, val any) (any, bool) {
	s := syncMapOf(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.find(k); i >= 0 {
		old := s.ents[i].v
		s.ents[i] = &syncEnt{k, val}
		return old, true
	}
	s.ents = append(s.ents, &syncEnt{k, val})
	return nil, false
}

// ModelMapLoadOrStore is LoadOrStore.
func ModelMapLoadOrStore(m *sync.Map, k, val any) (any, bool) {
	s := syncMapOf(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.find(k); i >= 0 {
		return s.ents[i].v, true
	}
	s.ents = append(s.ents, &syncEnt{k, val})
	return val, false
}

// ModelMapLoadAndDelete is LoadAndDelete.
func ModelMapLoadAndDelete(m *sync.Map, k any) (any, bool) {
	s := syncMapOf(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.find(k); i >= 0 {
		old := s.ents[i].v
		s.del(i)
		return old, true
	}
	return nil, false
}

// ModelMapDelete is Delete.
func ModelMapDelete(m *sync.Map, k any) { ModelMapLoadAndDelete(m, k) }

// ModelMapCompareAndSwap is CompareAndSwap.
func ModelMapCompareAndSwap(m *sync.Map, k, old, val any) bool {
	s := syncMapOf(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.find(k); i >= 0 && s.ents[i].v == old {
		s.ents[i] = &syncEnt{k, val}
		return true
	}
	return false
}

// ModelMapCompareAndDelete is CompareAndDelete.
func ModelMapCompareAndDelete(m *sync.Map, k, old any) bool {
	s := syncMapOf(m)
	s.mu.Lock()
	defer s.mu.Unlock()
	if i := s.find(k); i >= 0 && s.ents[i].v == old {
		s.del(i)
		return true
	}
	return false
}

// ModelMapRange is Range.
func ModelMapRange(m *sync.Map, f func(k, val any) bool) {
	s := syncMapOf(m)
	s.mu.Lock()
	l := append([]*syncEnt(nil), s.ents...)
	s.mu.Unlock()
	for _, e := range l {
		if !f(e.k, e.v) {
			return
		}
	}
}

// ModelMapClear is Clear.
func ModelMapClear(m *sync.Map) {
	s := syncMapOf(m)
	s.mu.Lock()
	s.ents = nil
	s.mu.Unlock()
}
