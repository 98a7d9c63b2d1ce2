package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
	"sync"
)

// Term is a hash-consed SMT term: Bool (w==0) or bit-vector of width w<=64.
type Term struct {
	k       TKind
	w       uint8
	val     uint64 // const value / extract low bit / variable index
	a, b, c *Term
	id      int32
	defined int32 // solver generation in which a definition was emitted
	epoch   int32
	ev      uint64
	umax    uint64 // cheap unsigned upper bound (bit-vectors)
	vars    []int32
	varsOK  bool
}

type TKind uint8

const (
	KConst TKind = iota
	KVar
	KNot
	KAnd
	KOr
	KEq
	KIte
	KAdd
	KSub
	KMul
	KUDiv
	KSDiv
	KURem
	KSRem
	KBAnd
	KBOr
	KBXor
	KBNot
	KNeg
	KShl
	KLShr
	KAShr
	KUlt
	KUle
	KSlt
	KSle
	KZExt
	KSExt
	KExtract
)

var kindSMT = map[TKind]string{
	KNot: "not", KAnd: "and", KOr: "or", KEq: "=", KIte: "ite", KAdd: "bvadd", KSub: "bvsub", KMul: "bvmul",
	KUDiv: "bvudiv", KSDiv: "bvsdiv", KURem: "bvurem", KSRem: "bvsrem", KBAnd: "bvand", KBOr: "bvor", KBXor: "bvxor",
	KBNot: "bvnot", KNeg: "bvneg", KShl: "bvshl", KLShr: "bvlshr", KAShr: "bvashr",
	KUlt: "bvult", KUle: "bvule", KSlt: "bvslt", KSle: "bvsle",
}

type termKey struct {
	k       TKind
	w       uint8
	val     uint64
	a, b, c int32
}

// TermCtx owns the terms of one worker.
type TermCtx struct {
	tab     map[termKey]*Term
	nextID  int32
	small   [65][]*Term
	varIdx  map[string]int32
	varList []*Term
	varName []string
	T, F    *Term
	epoch   int32
	nameMu  sync.RWMutex // variable names are read by other workers
}

const smallConsts = 512

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, varIdx: map[string]int32{}}
	c.T = c.mk(KConst, 0, 1, nil, nil, nil)
	c.F = c.mk(KConst, 0, 0, nil, nil, nil)
	for _, w := range []uint8{8, 16, 32, 64} {
		n := smallConsts
		if w == 8 {
			n = 256
		}
		s := make([]*Term, n)
		for i := range s {
			s[i] = c.mk(KConst, w, uint64(i), nil, nil, nil)
		}
		c.small[w] = s
	}
	return c
}

func tid(t *Term) int32 {
	if t == nil {
		return -1
	}
	return t.id
}

func (c *TermCtx) mk(k TKind, w uint8, val uint64, a, b, d *Term) *Term {
	key := termKey{k, w, val, tid(a), tid(b), tid(d)}
	if t, ok := c.tab[key]; ok {
		return t
	}
	t := &Term{k: k, w: w, val: val, a: a, b: b, c: d, id: c.nextID}
	c.nextID++
	t.umax = c.calcUmax(t)
	c.tab[key] = t
	return t
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	sh := 64 - uint(w)
	return int64(v<<sh) >> sh
}

func (c *TermCtx) calcUmax(t *Term) uint64 {
	if t.w == 0 {
		return 1
	}
	m := mask(t.w)
	switch t.k {
	case KConst:
		return t.val
	case KZExt:
		return t.a.umax
	case KBAnd:
		return min(t.a.umax, t.b.umax)
	case KBOr, KBXor:
		x := t.a.umax | t.b.umax
		if x == 0 {
			return 0
		}
		return mask(uint8(bits.Len64(x)))
	case KIte:
		return max(t.b.umax, t.c.umax)
	case KLShr:
		if t.b.k == KConst {
			if t.b.val >= 64 {
				return 0
			}
			return t.a.umax >> t.b.val
		}
		return t.a.umax
	case KShl:
		if t.b.k == KConst && t.b.val < 64 {
			x := t.a.umax << t.b.val
			if x>>t.b.val == t.a.umax && x <= m {
				return x
			}
		}
		return m
	case KAdd:
		x := t.a.umax + t.b.umax
		if x >= t.a.umax && x <= m {
			return x
		}
		return m
	case KURem:
		if t.b.k == KConst && t.b.val > 0 {
			return min(t.a.umax, t.b.val-1)
		}
		return m
	case KUDiv:
		if t.b.k == KConst && t.b.val > 0 {
			return t.a.umax / t.b.val
		}
		return m
	case KExtract:
		if t.val == 0 {
			return min(t.a.umax, m)
		}
		return m
	}
	return m
}

func (c *TermCtx) Const(w uint8, v uint64) *Term {
	v &= mask(w)
	if s := c.small[w]; v < uint64(len(s)) {
		return s[v]
	}
	return c.mk(KConst, w, v, nil, nil, nil)
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.T
	}
	return c.F
}

// Var returns the variable with the given name (w==0: Bool).
func (c *TermCtx) Var(name string, w uint8) *Term {
	if i, ok := c.varIdx[name]; ok {
		t := c.varList[i]
		if t.w != w {
			panic(engErr("variable %s used with two widths", name))
		}
		return t
	}
	i := int32(len(c.varList))
	t := c.mk(KVar, w, uint64(i), nil, nil, nil)
	t.vars, t.varsOK = []int32{i}, true
	c.varIdx[name] = i
	c.varList = append(c.varList, t)
	c.nameMu.Lock()
	c.varName = append(c.varName, name)
	c.nameMu.Unlock()
	return t
}

func (c *TermCtx) nameOf(t *Term) string {
	c.nameMu.RLock()
	defer c.nameMu.RUnlock()
	return c.varName[t.val]
}

// RawEq is equality as harness code states it: it is left to the solver even when both
// sides are the same term.
func (c *TermCtx) RawEq(a, b *Term) *Term {
	if a == b && !a.IsConst() {
		return c.mk(KEq, 0, 0, a, b, nil)
	}
	return c.Eq(a, b)
}

func (t *Term) IsConst() bool { return t.k == KConst }

func (c *TermCtx) Not(a *Term) *Term {
	switch a.k {
	case KConst:
		return c.Bool(a.val == 0)
	case KNot:
		return a.a
	case KUlt:
		return c.Ule(a.b, a.a)
	case KUle:
		return c.Ult(a.b, a.a)
	case KSlt:
		return c.Sle(a.b, a.a)
	case KSle:
		return c.Slt(a.b, a.a)
	}
	return c.mk(KNot, 0, 0, a, nil, nil)
}

func (c *TermCtx) And(a, b *Term) *Term {
	if a.IsConst() {
		if a.val == 0 {
			return c.F
		}
		return b
	}
	if b.IsConst() {
		if b.val == 0 {
			return c.F
		}
		return a
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(KAnd, 0, 0, a, b, nil)
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if a.IsConst() {
		if a.val != 0 {
			return c.T
		}
		return b
	}
	if b.IsConst() {
		if b.val != 0 {
			return c.T
		}
		return a
	}
	if a == b {
		return a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(KOr, 0, 0, a, b, nil)
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.IsConst() {
		if cond.val != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.IsConst() && b.IsConst() {
			if a.val != 0 {
				return cond
			}
			return c.Not(cond)
		}
		return c.Or(c.And(cond, a), c.And(c.Not(cond), b))
	}
	return c.mk(KIte, a.w, 0, cond, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.w != b.w {
		panic(engErr("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val == b.val)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if b.IsConst() {
		if a.w == 0 {
			if b.val != 0 {
				return a
			}
			return c.Not(a)
		}
		if b.val > a.umax {
			return c.F
		}
		switch a.k {
		case KZExt:
			return c.Eq(a.a, c.Const(a.a.w, b.val))
		case KIte:
			if a.b.IsConst() || a.c.IsConst() {
				return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
			}
		case KAdd:
			if a.b.IsConst() {
				return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
			}
		case KBXor:
			if a.b.IsConst() {
				return c.Eq(a.a, c.Const(a.w, b.val^a.b.val))
			}
		}
	} else if a.k == KZExt && b.k == KZExt && a.a.w == b.a.w {
		return c.Eq(a.a, b.a)
	}
	if a.id > b.id && !b.IsConst() {
		a, b = b, a
	}
	return c.mk(KEq, 0, 0, a, b, nil)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val < b.val)
	}
	if b.IsConst() {
		if b.val == 0 {
			return c.F
		}
		if a.umax < b.val {
			return c.T
		}
		if b.val == 1 {
			return c.Eq(a, c.Const(a.w, 0))
		}
		if a.k == KZExt {
			return c.Ult(a.a, c.Const(a.a.w, b.val))
		}
	}
	if a.IsConst() {
		if a.val >= b.umax {
			return c.F
		}
		if b.k == KZExt {
			return c.Ult(c.Const(b.a.w, a.val), b.a)
		}
		if a.val == 0 {
			return c.Not(c.Eq(b, a))
		}
	}
	if a.k == KZExt && b.k == KZExt && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	return c.mk(KUlt, 0, 0, a, b, nil)
}

func (c *TermCtx) Ule(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.val <= b.val)
	}
	if b.IsConst() {
		if a.umax <= b.val {
			return c.T
		}
		if b.val == 0 {
			return c.Eq(a, b)
		}
		if a.k == KZExt {
			return c.Ule(a.a, c.Const(a.a.w, b.val))
		}
	}
	if a.IsConst() {
		if a.val == 0 {
			return c.T
		}
		if a.val > b.umax {
			return c.F
		}
		if b.k == KZExt {
			return c.Ule(c.Const(b.a.w, a.val), b.a)
		}
	}
	if a.k == KZExt && b.k == KZExt && a.a.w == b.a.w {
		return c.Ule(a.a, b.a)
	}
	return c.mk(KUle, 0, 0, a, b, nil)
}

func nonneg(t *Term) bool { return t.umax <= mask(t.w)>>1 }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.F
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext(a.val, a.w) < sext(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	if a.IsConst() && sext(a.val, a.w) < 0 && nonneg(b) {
		return c.T
	}
	if b.IsConst() && sext(b.val, b.w) < 0 && nonneg(a) {
		return c.F
	}
	return c.mk(KSlt, 0, 0, a, b, nil)
}

func (c *TermCtx) Sle(a, b *Term) *Term {
	if a == b {
		return c.T
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sext(a.val, a.w) <= sext(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ule(a, b)
	}
	if a.IsConst() && sext(a.val, a.w) < 0 && nonneg(b) {
		return c.T
	}
	if b.IsConst() && sext(b.val, b.w) < 0 && nonneg(a) {
		return c.F
	}
	return c.mk(KSle, 0, 0, a, b, nil)
}

func foldBin(k TKind, w uint8, x, y uint64) uint64 {
	m := mask(w)
	switch k {
	case KAdd:
		return (x + y) & m
	case KSub:
		return (x - y) & m
	case KMul:
		return (x * y) & m
	case KUDiv:
		if y == 0 {
			return m
		}
		return x / y
	case KURem:
		if y == 0 {
			return x
		}
		return x % y
	case KSDiv:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case KSRem:
		sx, sy := sext(x, w), sext(y, w)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case KBAnd:
		return x & y
	case KBOr:
		return x | y
	case KBXor:
		return x ^ y
	case KShl:
		if y >= uint64(w) {
			return 0
		}
		return (x << y) & m
	case KLShr:
		if y >= uint64(w) {
			return 0
		}
		return x >> y
	case KAShr:
		if y >= uint64(w) {
			y = uint64(w) - 1
		}
		return uint64(sext(x, w)>>y) & m
	}
	panic(engErr("foldBin %d", k))
}

// Bin builds a bit-vector binary operation on equal widths.
func (c *TermCtx) Bin(k TKind, a, b *Term) *Term {
	if a.w != b.w {
		panic(engErr("Bin width mismatch %d %d (kind %d)", a.w, b.w, k))
	}
	w := a.w
	if a.IsConst() && b.IsConst() {
		return c.Const(w, foldBin(k, w, a.val, b.val))
	}
	switch k {
	case KAdd, KMul, KBAnd, KBOr, KBXor:
		if a.IsConst() {
			a, b = b, a
		}
		if !b.IsConst() && a.id > b.id {
			a, b = b, a
		}
	}
	if b.IsConst() {
		switch k {
		case KAdd:
			if b.val == 0 {
				return a
			}
			if a.k == KAdd && a.b.IsConst() {
				return c.Bin(KAdd, a.a, c.Const(w, a.b.val+b.val))
			}
		case KSub:
			return c.Bin(KAdd, a, c.Const(w, -b.val))
		case KMul:
			if b.val == 0 {
				return b
			}
			if b.val == 1 {
				return a
			}
		case KUDiv, KSDiv:
			if b.val == 1 {
				return a
			}
		case KBAnd:
			if b.val == 0 {
				return b
			}
			if b.val == mask(w) {
				return a
			}
			if a.umax <= b.val && b.val&(b.val+1) == 0 {
				return a
			}
			if a.k == KZExt && a.a.w < w {
				return c.ZExt(c.Bin(KBAnd, a.a, c.Const(a.a.w, b.val)), w)
			}
		case KBOr, KBXor:
			if b.val == 0 {
				return a
			}
		case KShl, KLShr:
			if b.val == 0 {
				return a
			}
			if b.val >= uint64(w) {
				return c.Const(w, 0)
			}
			if k == KLShr && b.val < 64 && a.umax>>b.val == 0 {
				return c.Const(w, 0)
			}
		case KAShr:
			if b.val == 0 {
				return a
			}
		}
	}
	if a.IsConst() && a.val == 0 {
		switch k {
		case KShl, KLShr, KAShr:
			return a
		}
	}
	if a == b {
		switch k {
		case KSub, KBXor:
			return c.Const(w, 0)
		case KBAnd, KBOr:
			return a
		}
	}
	if k == KSub && a.k == KAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	return c.mk(k, w, 0, a, b, nil)
}

func (c *TermCtx) BNot(a *Term) *Term {
	if a.IsConst() {
		return c.Const(a.w, ^a.val)
	}
	if a.k == KBNot {
		return a.a
	}
	return c.mk(KBNot, a.w, 0, a, nil, nil)
}

func (c *TermCtx) Neg(a *Term) *Term {
	if a.IsConst() {
		return c.Const(a.w, -a.val)
	}
	return c.mk(KNeg, a.w, 0, a, nil, nil)
}

func (c *TermCtx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, a.val)
	}
	if a.k == KZExt {
		a = a.a
	}
	return c.mk(KZExt, w, 0, a, nil, nil)
}

func (c *TermCtx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, uint64(sext(a.val, a.w)))
	}
	if nonneg(a) {
		return c.ZExt(a, w)
	}
	return c.mk(KSExt, w, 0, a, nil, nil)
}

func (c *TermCtx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, a.val)
	}
	switch a.k {
	case KZExt, KSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.k == KZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	case KExtract:
		if a.val == 0 {
			return c.Trunc(a.a, w)
		}
	case KIte:
		if a.b.IsConst() || a.c.IsConst() {
			return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
		}
	case KBAnd, KBOr, KBXor:
		return c.Bin(a.k, c.Trunc(a.a, w), c.Trunc(a.b, w))
	}
	return c.mk(KExtract, w, 0, a, nil, nil)
}

// BoolToBV converts a Bool to 0/1 of width w.
func (c *TermCtx) BoolToBV(a *Term, w uint8) *Term { return c.Ite(a, c.Const(w, 1), c.Const(w, 0)) }

// Vars returns the sorted indexes of the variables in t.
func (c *TermCtx) Vars(t *Term) []int32 {
	if t == nil || t.k == KConst {
		return nil
	}
	if t.varsOK {
		return t.vars
	}
	v := c.Vars(t.a)
	v = mergeVars(v, c.Vars(t.b))
	v = mergeVars(v, c.Vars(t.c))
	t.vars, t.varsOK = v, true
	return v
}

func mergeVars(a, b []int32) []int32 {
	if len(b) == 0 {
		return a
	}
	if len(a) == 0 {
		return b
	}
	// subset fast path
	if len(a) >= len(b) && subsetVars(b, a) {
		return a
	}
	if len(b) > len(a) && subsetVars(a, b) {
		return b
	}
	out := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		case a[i] > b[j]:
			out = append(out, b[j])
			j++
		default:
			out = append(out, a[i])
			i++
			j++
		}
	}
	out = append(out, a[i:]...)
	return append(out, b[j:]...)
}

func subsetVars(a, b []int32) bool {
	j := 0
	for _, x := range a {
		for j < len(b) && b[j] < x {
			j++
		}
		if j >= len(b) || b[j] != x {
			return false
		}
		j++
	}
	return true
}

// Model assigns values to variables by name (absent: zero).
type Model map[string]uint64

// Eval evaluates t under the per-worker assignment vals (indexed by variable index).
func (c *TermCtx) Eval(t *Term, vals []uint64) uint64 {
	c.epoch++
	return c.eval(t, vals)
}

func (c *TermCtx) eval(t *Term, vals []uint64) uint64 {
	switch t.k {
	case KConst:
		return t.val
	case KVar:
		if int(t.val) < len(vals) {
			return vals[t.val] & maskB(t.w)
		}
		return 0
	}
	if t.epoch == c.epoch {
		return t.ev
	}
	var r uint64
	switch t.k {
	case KNot:
		r = 1 - c.eval(t.a, vals)
	case KAnd:
		r = c.eval(t.a, vals)
		if r != 0 {
			r = c.eval(t.b, vals)
		}
	case KOr:
		r = c.eval(t.a, vals)
		if r == 0 {
			r = c.eval(t.b, vals)
		}
	case KEq:
		r = b2u(c.eval(t.a, vals) == c.eval(t.b, vals))
	case KIte:
		if c.eval(t.a, vals) != 0 {
			r = c.eval(t.b, vals)
		} else {
			r = c.eval(t.c, vals)
		}
	case KUlt:
		r = b2u(c.eval(t.a, vals) < c.eval(t.b, vals))
	case KUle:
		r = b2u(c.eval(t.a, vals) <= c.eval(t.b, vals))
	case KSlt:
		r = b2u(sext(c.eval(t.a, vals), t.a.w) < sext(c.eval(t.b, vals), t.b.w))
	case KSle:
		r = b2u(sext(c.eval(t.a, vals), t.a.w) <= sext(c.eval(t.b, vals), t.b.w))
	case KZExt:
		r = c.eval(t.a, vals)
	case KSExt:
		r = uint64(sext(c.eval(t.a, vals), t.a.w)) & mask(t.w)
	case KExtract:
		r = (c.eval(t.a, vals) >> t.val) & mask(t.w)
	case KBNot:
		r = ^c.eval(t.a, vals) & mask(t.w)
	case KNeg:
		r = -c.eval(t.a, vals) & mask(t.w)
	default:
		r = foldBin(t.k, t.w, c.eval(t.a, vals), c.eval(t.b, vals))
	}
	t.epoch, t.ev = c.epoch, r
	return r
}

func maskB(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	return mask(w)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

// ref is the SMT-LIB name of a term (constants inline).
func (c *TermCtx) ref(t *Term) string {
	if t.k == KConst {
		if t.w == 0 {
			if t.val != 0 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.val)
		}
		return fmt.Sprintf("#b%0*b", t.w, t.val)
	}
	if t.k == KVar {
		return fmt.Sprintf("v%d", t.val)
	}
	return fmt.Sprintf("t%d", t.id)
}

// emitDefs writes declarations/definitions needed for t, once per solver generation.
func (c *TermCtx) emitDefs(sb *strings.Builder, t *Term, gen int32) {
	if t == nil || t.k == KConst || t.defined == gen {
		return
	}
	c.emitDefs(sb, t.a, gen)
	c.emitDefs(sb, t.b, gen)
	c.emitDefs(sb, t.c, gen)
	t.defined = gen
	if t.k == KVar {
		fmt.Fprintf(sb, "(declare-const v%d %s)\n", t.val, sortName(t.w))
		return
	}
	fmt.Fprintf(sb, "(define-fun t%d () %s ", t.id, sortName(t.w))
	switch t.k {
	case KZExt:
		fmt.Fprintf(sb, "((_ zero_extend %d) %s)", t.w-t.a.w, c.ref(t.a))
	case KSExt:
		fmt.Fprintf(sb, "((_ sign_extend %d) %s)", t.w-t.a.w, c.ref(t.a))
	case KExtract:
		fmt.Fprintf(sb, "((_ extract %d %d) %s)", t.val+uint64(t.w)-1, t.val, c.ref(t.a))
	default:
		sb.WriteString("(" + kindSMT[t.k])
		for _, x := range []*Term{t.a, t.b, t.c} {
			if x != nil {
				sb.WriteString(" " + c.ref(x))
			}
		}
		sb.WriteString(")")
	}
	sb.WriteString(")\n")
}

func (c *TermCtx) String(t *Term) string {
	return c.str(t, 6)
}

func (c *TermCtx) str(t *Term, d int) string {
	if t == nil {
		return "?"
	}
	switch t.k {
	case KConst:
		if t.w == 0 {
			return fmt.Sprint(t.val != 0)
		}
		return fmt.Sprint(t.val)
	case KVar:
		return c.varName[t.val]
	}
	if d == 0 {
		return "..."
	}
	s := "(" + kindSMT[t.k]
	if kindSMT[t.k] == "" {
		s = fmt.Sprintf("(k%d", t.k)
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + c.str(x, d-1)
		}
	}
	return s + ")"
}

func sortInt32(a []int32) { sort.Slice(a, func(i, j int) bool { return a[i] < a[j] }) }

// EngineError is an unsupported construct or an internal error: never a verdict.
type EngineError struct{ msg string }

func (e *EngineError) Error() string { return e.msg }

func engErr(f string, a ...any) *EngineError { return &EngineError{fmt.Sprintf(f, a...)} }
