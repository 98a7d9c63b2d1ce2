package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is a runtime value of the interpreted program:
//
//	*Term                 booleans and integers (possibly symbolic)
//	string, *SymStr       strings (concrete / with symbolic bytes; the length is concrete)
//	float64, complex128   floats (concrete only)
//	Struct, Array         aggregates
//	Slice                 slices (native Go slices of cells: aliasing is by construction)
//	*Value                pointers (the cell pointed to), unsafe.Pointer too
//	*SlicePtr             unsafe.SliceData results
//	*MapObj, *ChanObj, *Closure, Iface, Tuple
type Value interface{}

type (
	Struct []Value
	Array  []Value
	Slice  []Value
	Tuple  []Value
)

// SymStr is a string with at least one symbolic byte.
type SymStr struct{ b []*Term }

// SlicePtr is the pointer returned by unsafe.SliceData / unsafe.StringData.
type SlicePtr struct{ s Slice }

// Iface is an interface value; t==nil is the nil interface.
type Iface struct {
	t *TInfo
	v Value
}

// Closure is a function value.
type Closure struct {
	fn    *ssa.Function
	env   []Value
	bi    *ssa.Builtin
	bound func(x *Exec, t *Thread, args []Value) Value // engine-made function
	name  string
}

// TInfo is the canonical object of a type (pointer identity is type identity).
type TInfo struct {
	T       types.Type
	methods sync.Map // method key -> *ssa.Function
	id      int
}

var (
	tiMu  sync.Mutex
	tiMap typeutil.Map
	tiN   int
	tiFst sync.Map // types.Type -> *TInfo
)

func tinfo(T types.Type) *TInfo {
	if v, ok := tiFst.Load(T); ok {
		return v.(*TInfo)
	}
	tiMu.Lock()
	defer tiMu.Unlock()
	T2 := types.Unalias(T)
	if v := tiMap.At(T2); v != nil {
		tiFst.Store(T, v)
		return v.(*TInfo)
	}
	tiN++
	ti := &TInfo{T: T2, id: tiN}
	tiMap.Set(T2, ti)
	tiFst.Store(T, ti)
	return ti
}

// MapObj is a map.
type MapObj struct {
	ents   []*mapEnt
	idx    map[any]*mapEnt
	symKey bool
	live   int
	cell   Value // race-detection cell
}

type mapEnt struct {
	k, v Value
	del  bool
}

// ChanObj is a channel.
type ChanObj struct {
	id     int
	cap    int
	buf    []chanItem
	closed bool
	elem   func() Value
	vcC    VC   // clock of close
	recvVC []VC // clocks of receives (buffered channels)
	nsent  int
	timer  *Timer
}

type chanItem struct {
	v  Value
	vc VC
}

// intInfo describes an integer type.
type intInfo struct {
	w      uint8
	signed bool
}

func intOf(T types.Type) (intInfo, bool) {
	b, ok := T.Underlying().(*types.Basic)
	if !ok {
		return intInfo{}, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return intInfo{64, true}, true
	case types.Uint, types.Uint64, types.Uintptr:
		return intInfo{64, false}, true
	case types.Int32, types.UntypedRune:
		return intInfo{32, true}, true
	case types.Uint32:
		return intInfo{32, false}, true
	case types.Int16:
		return intInfo{16, true}, true
	case types.Uint16:
		return intInfo{16, false}, true
	case types.Int8:
		return intInfo{8, true}, true
	case types.Uint8:
		return intInfo{8, false}, true
	case types.Bool, types.UntypedBool:
		return intInfo{0, false}, true
	}
	return intInfo{}, false
}

func isFloat(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isString(T types.Type) bool {
	b, ok := T.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isIface(T types.Type) bool {
	_, ok := T.Underlying().(*types.Interface)
	return ok
}

// zeroFn returns a maker of the zero value of T.
func (w *Worker) zeroFn(T types.Type) func() Value {
	if f, ok := w.zeros[T]; ok {
		return f
	}
	f := w.mkZero(T)
	w.zeros[T] = f
	return f
}

func (w *Worker) zero(T types.Type) Value { return w.zeroFn(T)() }

func (w *Worker) mkZero(T types.Type) func() Value {
	if ii, ok := intOf(T); ok {
		var v Value = w.c.Const(ii.w, 0)
		if ii.w == 0 {
			v = w.c.F
		}
		return func() Value { return v }
	}
	konst := func(v Value) func() Value { return func() Value { return v } }
	switch u := T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return konst("")
		case u.Info()&types.IsFloat != 0:
			return konst(float64(0))
		case u.Info()&types.IsComplex != 0:
			return konst(complex128(0))
		case u.Kind() == types.UnsafePointer:
			return konst((*Value)(nil))
		case u.Kind() == types.UntypedNil:
			return konst(nil)
		}
	case *types.Pointer:
		return konst((*Value)(nil))
	case *types.Slice:
		return konst(Slice(nil))
	case *types.Map:
		return konst((*MapObj)(nil))
	case *types.Chan:
		return konst((*ChanObj)(nil))
	case *types.Signature:
		return konst((*Closure)(nil))
	case *types.Interface:
		return konst(Iface{})
	case *types.Struct:
		n := u.NumFields()
		fs := make([]func() Value, n)
		for i := 0; i < n; i++ {
			fs[i] = w.zeroFn(u.Field(i).Type())
		}
		return func() Value {
			s := make(Struct, n)
			for i, f := range fs {
				s[i] = f()
			}
			return s
		}
	case *types.Array:
		n := u.Len()
		f := w.zeroFn(u.Elem())
		return func() Value {
			if n > 1<<22 {
				panic(engErr("array too large: %d", n))
			}
			a := make(Array, n)
			for i := range a {
				a[i] = f()
			}
			return a
		}
	case *types.Tuple:
		n := u.Len()
		return func() Value {
			s := make(Tuple, n)
			for i := range s {
				s[i] = w.zero(u.At(i).Type())
			}
			return s
		}
	}
	return func() Value { panic(engErr("zero of %v", T)) }
}

// copyVal copies aggregates (value semantics).
func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, e := range v {
			switch e.(type) {
			case Struct, Array:
				n[i] = copyVal(e)
			default:
				n[i] = e
			}
		}
		return n
	}
	return v
}

// storeCell stores v into *p keeping the identity of nested cells.
func storeCell(p *Value, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*p).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeCell(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
		return
	case Array:
		if d, ok := (*p).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeCell(&d[i], v[i])
			}
			return
		}
		*p = copyVal(v)
		return
	}
	*p = v
}

// ---- strings ----

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SymStr:
		return len(v.b)
	}
	panic(engErr("strLen of %T", v))
}

func (w *Worker) strByte(v Value, i int) *Term {
	switch v := v.(type) {
	case string:
		return w.c.Const(8, uint64(v[i]))
	case *SymStr:
		return v.b[i]
	}
	panic(engErr("strByte of %T", v))
}

func (w *Worker) strTerms(v Value) []*Term {
	switch v := v.(type) {
	case string:
		t := make([]*Term, len(v))
		for i := range t {
			t[i] = w.c.Const(8, uint64(v[i]))
		}
		return t
	case *SymStr:
		return v.b
	}
	panic(engErr("strTerms of %T", v))
}

// mkStr makes a string of the given bytes.
func mkStr(b []*Term) Value {
	for _, t := range b {
		if !t.IsConst() {
			return &SymStr{append([]*Term(nil), b...)}
		}
	}
	s := make([]byte, len(b))
	for i, t := range b {
		s[i] = byte(t.val)
	}
	return string(s)
}

func strSlice(v Value, lo, hi int) Value {
	switch v := v.(type) {
	case string:
		return v[lo:hi]
	case *SymStr:
		return mkStr(v.b[lo:hi])
	}
	panic(engErr("strSlice of %T", v))
}

func sliceTerms(s Slice) []*Term {
	t := make([]*Term, len(s))
	for i := range s {
		t[i] = s[i].(*Term)
	}
	return t
}

func (w *Worker) concatStr(a, b Value) Value {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return as + bs
	}
	return mkStr(append(append([]*Term(nil), w.strTerms(a)...), w.strTerms(b)...))
}

func (w *Worker) strEq(a, b Value) *Term {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return w.c.Bool(as == bs)
	}
	if strLen(a) != strLen(b) {
		return w.c.F
	}
	x, y := w.strTerms(a), w.strTerms(b)
	r := w.c.T
	for i := range x {
		r = w.c.And(r, w.c.Eq(x[i], y[i]))
	}
	return r
}

func (w *Worker) strLess(a, b Value) *Term {
	as, ok1 := a.(string)
	bs, ok2 := b.(string)
	if ok1 && ok2 {
		return w.c.Bool(as < bs)
	}
	x, y := w.strTerms(a), w.strTerms(b)
	n := min(len(x), len(y))
	r := w.c.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		r = w.c.Ite(w.c.Eq(x[i], y[i]), r, w.c.Ult(x[i], y[i]))
	}
	return r
}

// rawEqTerm is eqTerm for harness code.
func (x *Exec) rawEqTerm(a, b Value) *Term {
	switch s := a.(type) {
	case *Term:
		return x.c.RawEq(s, b.(*Term))
	case string, *SymStr:
		_, ok1 := a.(string)
		_, ok2 := b.(string)
		if ok1 && ok2 || strLen(a) != strLen(b) || strLen(a) > 256 {
			return x.w.strEq(a, b)
		}
		p, q := x.w.strTerms(a), x.w.strTerms(b)
		r := x.c.T
		for i := range p {
			r = x.c.And(r, x.c.RawEq(p[i], q[i]))
		}
		return r
	}
	return x.eqTerm(a, b)
}

// eqTerm is the Go == of two values of the same static type.
func (x *Exec) eqTerm(a, b Value) *Term {
	c := x.c
	switch a := a.(type) {
	case *Term:
		return c.Eq(a, b.(*Term))
	case string, *SymStr:
		return x.w.strEq(a, b)
	case float64:
		return c.Bool(a == b.(float64))
	case complex128:
		return c.Bool(a == b.(complex128))
	case *Value:
		switch b := b.(type) {
		case *Value:
			return c.Bool(a == b)
		case nil:
			return c.Bool(a == nil)
		case *SlicePtr:
			return c.Bool(len(b.s) > 0 && a == &b.s[0])
		}
	case *SlicePtr:
		switch b := b.(type) {
		case *SlicePtr:
			return c.Bool(a == b || cap(a.s) > 0 && cap(b.s) > 0 && &a.s[:1][0] == &b.s[:1][0])
		case *Value:
			return c.Bool(cap(a.s) > 0 && b == &a.s[:1][0])
		}
	case Struct:
		b := b.(Struct)
		r := c.T
		for i := range a {
			r = c.And(r, x.eqTerm(a[i], b[i]))
		}
		return r
	case Array:
		b := b.(Array)
		r := c.T
		for i := range a {
			r = c.And(r, x.eqTerm(a[i], b[i]))
		}
		return r
	case Iface:
		bi, ok := b.(Iface)
		if !ok {
			if b == nil {
				return c.Bool(a.t == nil)
			}
			panic(engErr("eq Iface with %T", b))
		}
		if a.t == nil || bi.t == nil {
			return c.Bool(a.t == bi.t)
		}
		if a.t != bi.t {
			return c.F
		}
		if !types.Comparable(a.t.T) {
			x.rtPanic("comparing uncomparable type " + a.t.T.String())
		}
		return x.eqTerm(a.v, bi.v)
	case *ChanObj:
		if b == nil {
			return c.Bool(a == nil)
		}
		return c.Bool(a == b.(*ChanObj))
	case *MapObj:
		if b == nil {
			return c.Bool(a == nil)
		}
		return c.Bool(a == b.(*MapObj))
	case *Closure:
		if b == nil {
			return c.Bool(a == nil)
		}
		return c.Bool(a == b.(*Closure))
	case Slice:
		if b == nil {
			return c.Bool(a == nil)
		}
		bs := b.(Slice)
		if a == nil || bs == nil {
			return c.Bool(a == nil && bs == nil)
		}
	case nil:
		if b == nil {
			return c.T
		}
		return x.eqTerm(b, a)
	case Tuple:
	}
	panic(engErr("eq of %T and %T", a, b))
}

// ---- maps ----

type ifKey struct {
	t *TInfo
	k any
}

// mapKey returns a Go-comparable key for a concrete value.
func mapKey(v Value) (any, bool) {
	switch v := v.(type) {
	case *Term:
		if v.IsConst() {
			return v.val, true
		}
		return nil, false
	case string:
		return v, true
	case *SymStr:
		return nil, false
	case float64:
		return v, true
	case *Value, *ChanObj, *MapObj, *Closure:
		return v, true
	case Iface:
		if v.t == nil {
			return ifKey{}, true
		}
		k, ok := mapKey(v.v)
		return ifKey{v.t, k}, ok
	case Struct:
		return aggKey([]Value(v))
	case Array:
		return aggKey([]Value(v))
	}
	return nil, false
}

func aggKey(vs []Value) (any, bool) {
	var sb strings.Builder
	for _, e := range vs {
		k, ok := mapKey(e)
		if !ok {
			return nil, false
		}
		switch k.(type) {
		case *Value, *ChanObj, *MapObj, *Closure:
			fmt.Fprintf(&sb, "%T:%p|", k, k)
		case string:
			fmt.Fprintf(&sb, "%q|", k)
		default:
			fmt.Fprintf(&sb, "%T:%v|", k, k)
		}
	}
	return sb.String(), true
}

func (x *Exec) mapFind(m *MapObj, k Value) *mapEnt {
	if m == nil {
		return nil
	}
	if ifv, ok := k.(Iface); ok && ifv.t != nil && !types.Comparable(ifv.t.T) {
		x.rtPanic("hash of unhashable type " + ifv.t.T.String())
	}
	if key, ok := mapKey(k); ok && !m.symKey {
		e := m.idx[key]
		return e
	}
	for _, e := range m.ents {
		if e.del {
			continue
		}
		if x.decide(x.eqTerm(e.k, k)) {
			return e
		}
	}
	return nil
}

func (x *Exec) mapSet(m *MapObj, k, v Value) {
	if e := x.mapFind(m, k); e != nil {
		e.v = v
		return
	}
	e := &mapEnt{k: k, v: v}
	m.ents = append(m.ents, e)
	m.live++
	if key, ok := mapKey(k); ok {
		if m.idx == nil {
			m.idx = map[any]*mapEnt{}
		}
		m.idx[key] = e
	} else {
		m.symKey = true
	}
}

func (x *Exec) mapDelete(m *MapObj, k Value) {
	e := x.mapFind(m, k)
	if e == nil {
		return
	}
	e.del = true
	m.live--
	if key, ok := mapKey(e.k); ok {
		delete(m.idx, key)
	}
	for i, o := range m.ents {
		if o == e {
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
			break
		}
	}
}

// ---- slices: capacity growth as in the Go runtime ----

var sizeClasses = []int{0, 8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func roundupsize(n int) int {
	if n <= 32768-8 {
		i := sort.SearchInts(sizeClasses, n)
		return sizeClasses[i]
	}
	return (n + 8191) &^ 8191
}

func growCap(newLen, oldCap, esize int) int {
	newcap := oldCap
	double := newcap + newcap
	if newLen > double {
		newcap = newLen
	} else if oldCap < 256 {
		newcap = double
	} else {
		for newcap < newLen {
			newcap += (newcap + 3*256) >> 2
		}
	}
	if esize == 0 {
		return newLen
	}
	return max(roundupsize(newcap*esize)/esize, newLen)
}

var stdSizes = types.SizesFor("gc", "amd64")

func (x *Exec) appendVals(s Slice, add []Value, elem types.Type) Slice {
	n := len(s) + len(add)
	if n <= cap(s) {
		r := s[:n]
		for i, v := range add {
			storeCell(&r[len(s)+i], v)
		}
		return r
	}
	nc := growCap(n, cap(s), int(stdSizes.Sizeof(elem)))
	if nc > 1<<24 {
		panic(engErr("slice grows too large: %d", nc))
	}
	r := make(Slice, nc)
	for i, v := range s {
		r[i] = copyVal(v)
	}
	for i, v := range add {
		r[len(s)+i] = copyVal(v)
	}
	z := x.w.zeroFn(elem)
	for i := n; i < nc; i++ {
		r[i] = z()
	}
	return r[:n]
}

// describe renders a value for traces.
func (x *Exec) describe(v Value, depth int) string {
	if depth > 4 {
		return "..."
	}
	switch v := v.(type) {
	case *Term:
		if v.IsConst() {
			return x.c.String(v)
		}
		return fmt.Sprintf("%d{%s}", x.c.Eval(v, x.vals), x.c.str(v, 3))
	case string:
		return fmt.Sprintf("%q", v)
	case *SymStr:
		return fmt.Sprintf("sym%q", x.concStr(v))
	case Iface:
		if v.t == nil {
			return "nil"
		}
		return fmt.Sprintf("%v(%s)", v.t.T, x.describe(v.v, depth+1))
	case Struct:
		var p []string
		for _, e := range v {
			p = append(p, x.describe(e, depth+1))
		}
		return "{" + strings.Join(p, " ") + "}"
	case Slice:
		var p []string
		for i, e := range v {
			if i > 8 {
				p = append(p, "...")
				break
			}
			p = append(p, x.describe(e, depth+1))
		}
		return "[" + strings.Join(p, " ") + "]"
	case *Value:
		if v == nil {
			return "nil"
		}
		return "&" + x.describe(*v, depth+1)
	}
	return fmt.Sprintf("%T", v)
}

// concStr is the string under the current model.
func (x *Exec) concStr(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(x.c.Eval(t, x.vals))
		}
		return string(b)
	}
	return fmt.Sprintf("%T", v)
}
