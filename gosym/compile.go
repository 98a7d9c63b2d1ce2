package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type ctl uint8

const (
	cNext  ctl = iota // continue with the next instruction of the (possibly new) top frame
	cYield            // the instruction must be retried after a scheduling decision
)

type instrFn func(x *Exec, t *Thread, fr *Frame) ctl

// cfunc is a compiled ssa.Function (per worker).
type cfunc struct {
	fn      *ssa.Function
	name    string
	pkg     string
	nreg    int
	blocks  []*cblock
	rec     *cblock
	intr    intrinsic
	isCtx   bool
	harness bool // harness code: its comparisons are left to the solver
	inScope bool // belongs to the code under test
	nparams int
	zeroRes func() Value
}

type cblock struct {
	idx  int
	ins  []instrFn
	src  []ssa.Instruction
	phis []cphi
}

type cphi struct {
	dst   int
	edges []operand
}

type operand struct {
	slot int // >=0: register
	c    Value
	g    *ssa.Global
}

func (o *operand) get(x *Exec, fr *Frame) Value {
	if o.slot >= 0 {
		return fr.regs[o.slot]
	}
	if o.g != nil {
		return x.globalPtr(o.g)
	}
	return o.c
}

type compiler struct {
	w     *Worker
	cf    *cfunc
	slots map[ssa.Value]int
	blk   map[*ssa.BasicBlock]*cblock
}

func (w *Worker) compiled(fn *ssa.Function) *cfunc {
	if cf, ok := w.funcs[fn]; ok {
		return cf
	}
	cf := &cfunc{fn: fn, name: fnName(fn), pkg: fnPkg(fn)}
	w.funcs[fn] = cf
	cf.isCtx = cf.pkg == "context"
	cf.harness = strings.HasPrefix(cf.pkg, zzPath)
	cf.inScope = strings.HasPrefix(cf.pkg, "github.com/aperturerobotics/")
	cf.nparams = len(fn.Params)
	cf.intr = lookupIntrinsic(cf)
	cf.zeroRes = func() Value { return w.zeroResults(fn.Signature) }
	if cf.intr == nil && fn.Blocks != nil {
		c := &compiler{w: w, cf: cf, slots: map[ssa.Value]int{}, blk: map[*ssa.BasicBlock]*cblock{}}
		c.compile()
	}
	return cf
}

func (w *Worker) zeroResults(sig *types.Signature) Value {
	switch sig.Results().Len() {
	case 0:
		return nil
	case 1:
		return w.zero(sig.Results().At(0).Type())
	}
	return w.zero(sig.Results())
}

func fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return fn.RelString(nil)
}

func fnPkg(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if ob := f.Object(); ob != nil && ob.Pkg() != nil {
			return ob.Pkg().Path()
		}
	}
	return ""
}

func (c *compiler) compile() {
	fn := c.cf.fn
	n := 0
	for _, p := range fn.Params {
		c.slots[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		c.slots[p] = n
		n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.slots[v] = n
				n++
			}
		}
	}
	c.cf.nreg = n
	for _, b := range fn.Blocks {
		cb := &cblock{idx: b.Index}
		c.blk[b] = cb
		c.cf.blocks = append(c.cf.blocks, cb)
	}
	if fn.Recover != nil {
		c.cf.rec = c.blk[fn.Recover]
	}
	for _, b := range fn.Blocks {
		cb := c.blk[b]
		for _, in := range b.Instrs {
			if p, ok := in.(*ssa.Phi); ok {
				ph := cphi{dst: c.slots[p]}
				for _, e := range p.Edges {
					ph.edges = append(ph.edges, c.opnd(e))
				}
				cb.phis = append(cb.phis, ph)
				continue
			}
			if _, ok := in.(*ssa.DebugRef); ok {
				continue
			}
			cb.ins = append(cb.ins, c.instr(in))
			cb.src = append(cb.src, in)
		}
	}
}

func (c *compiler) opnd(v ssa.Value) operand {
	switch v := v.(type) {
	case *ssa.Const:
		return operand{slot: -1, c: c.w.constVal(v)}
	case *ssa.Global:
		return operand{slot: -1, g: v}
	case *ssa.Function:
		return operand{slot: -1, c: &Closure{fn: v}}
	case *ssa.Builtin:
		return operand{slot: -1, c: &Closure{bi: v}}
	}
	s, ok := c.slots[v]
	if !ok {
		panic(engErr("no slot for %v in %s", v, c.cf.name))
	}
	return operand{slot: s}
}

func (w *Worker) constVal(k *ssa.Const) Value {
	T := k.Type()
	if k.Value == nil {
		if T == nil {
			return nil
		}
		if _, ok := T.(*types.TypeParam); ok {
			panic(engErr("const of type parameter"))
		}
		return w.zero(T)
	}
	if ii, ok := intOf(T); ok {
		if ii.w == 0 {
			return w.c.Bool(constant.BoolVal(k.Value))
		}
		if ii.signed {
			return w.c.Const(ii.w, uint64(k.Int64()))
		}
		return w.c.Const(ii.w, k.Uint64())
	}
	if isString(T) {
		if k.Value.Kind() == constant.String {
			return constant.StringVal(k.Value)
		}
		return string(rune(k.Int64()))
	}
	if isFloat(T) {
		f := k.Float64()
		if b := T.Underlying().(*types.Basic); b.Kind() == types.Float32 {
			return float64(float32(f))
		}
		return f
	}
	if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return k.Complex128()
	}
	panic(engErr("constant %v of %v", k, T))
}

// edge prepares a jump from block b to its i-th successor.
func (c *compiler) edge(b *ssa.BasicBlock, i int) func(x *Exec, fr *Frame) {
	to := b.Succs[i]
	// index of this edge among to.Preds (duplicates: i-th occurrence)
	occ := 0
	for j := 0; j < i; j++ {
		if b.Succs[j] == to {
			occ++
		}
	}
	pi := -1
	for j, p := range to.Preds {
		if p == b {
			if occ == 0 {
				pi = j
				break
			}
			occ--
		}
	}
	cb := c.blk[to]
	return func(x *Exec, fr *Frame) {
		switch len(cb.phis) {
		case 0:
		case 1:
			p := &cb.phis[0]
			fr.regs[p.dst] = p.edges[pi].get(x, fr)
		default:
			var tmp [16]Value
			vals := tmp[:0]
			for k := range cb.phis {
				vals = append(vals, cb.phis[k].edges[pi].get(x, fr))
			}
			for k := range cb.phis {
				fr.regs[cb.phis[k].dst] = vals[k]
			}
		}
		fr.b, fr.pc = cb, 0
	}
}

const nilDeref = "invalid memory address or nil pointer dereference"

func (x *Exec) ptr(v Value) *Value {
	p, ok := v.(*Value)
	if !ok {
		if sp, ok := v.(*SlicePtr); ok && cap(sp.s) > 0 {
			return &sp.s[:1][0]
		}
		panic(engErr("pointer is %T", v))
	}
	if p == nil {
		x.rtPanic(nilDeref)
	}
	return p
}

// SymPtr is the address of an element at a symbolic index (loads only).
type SymPtr struct {
	s   []Value
	idx *Term
}

func (c *compiler) instr(in ssa.Instruction) instrFn {
	w := c.w
	tc := w.c
	switch in := in.(type) {
	case *ssa.Alloc:
		dst := c.slots[in]
		z := w.zeroFn(in.Type().Underlying().(*types.Pointer).Elem())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			p := new(Value)
			*p = z()
			fr.regs[dst] = p
			return cNext
		}
	case *ssa.BinOp:
		dst := c.slots[in]
		a, b := c.opnd(in.X), c.opnd(in.Y)
		f := c.binop(in.Op, in.X.Type(), in.Y.Type())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = f(x, a.get(x, fr), b.get(x, fr))
			return cNext
		}
	case *ssa.UnOp:
		return c.unop(in)
	case *ssa.Call:
		return c.call(in.Common(), c.slots[in], in)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		v := in.(ssa.Value)
		dst := c.slots[v]
		a := c.opnd(*in.Operands(nil)[0])
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = a.get(x, fr)
			return cNext
		}
	case *ssa.Convert:
		dst := c.slots[in]
		a := c.opnd(in.X)
		f := c.convert(in.X.Type(), in.Type())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = f(x, a.get(x, fr))
			return cNext
		}
	case *ssa.MultiConvert:
		dst := c.slots[in]
		a := c.opnd(in.X)
		f := c.convert(in.X.Type(), in.Type())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = f(x, a.get(x, fr))
			return cNext
		}
	case *ssa.Defer:
		common := in.Common()
		prep := c.prepCall(common)
		var ds operand
		hasDS := in.DeferStack != nil
		if hasDS {
			ds = c.opnd(in.DeferStack)
		}
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fn, args := prep(x, fr)
			target := fr
			if hasDS {
				if f, ok := ds.get(x, fr).(*Frame); ok {
					target = f
				}
			}
			target.defers = append(target.defers, deferred{fn, args})
			return cNext
		}
	case *ssa.Extract:
		dst := c.slots[in]
		a := c.opnd(in.Tuple)
		i := in.Index
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = a.get(x, fr).(Tuple)[i]
			return cNext
		}
	case *ssa.Field:
		dst := c.slots[in]
		a := c.opnd(in.X)
		i := in.Field
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = copyVal(a.get(x, fr).(Struct)[i])
			return cNext
		}
	case *ssa.FieldAddr:
		dst := c.slots[in]
		a := c.opnd(in.X)
		i := in.Field
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			p := x.ptr(a.get(x, fr))
			s, ok := (*p).(Struct)
			if !ok {
				panic(engErr("FieldAddr on %T (%v)", *p, in))
			}
			fr.regs[dst] = &s[i]
			return cNext
		}
	case *ssa.Go:
		prep := c.prepCall(in.Common())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fn, args := prep(x, fr)
			x.spawn(t, fn, args, fr.b.src[fr.pc-1])
			return cNext
		}
	case *ssa.If:
		a := c.opnd(in.Cond)
		e0, e1 := c.edge(in.Block(), 0), c.edge(in.Block(), 1)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			cond := a.get(x, fr).(*Term)
			var b bool
			if cond.k == KConst {
				b = cond.val != 0
			} else {
				b = x.decide(cond)
			}
			if b {
				e0(x, fr)
			} else {
				e1(x, fr)
			}
			return cNext
		}
	case *ssa.Jump:
		e := c.edge(in.Block(), 0)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			e(x, fr)
			return cNext
		}
	case *ssa.Index:
		dst := c.slots[in]
		a, i := c.opnd(in.X), c.opnd(in.Index)
		ii, _ := intOf(in.Index.Type())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			v := a.get(x, fr)
			it := x.widen(i.get(x, fr).(*Term), ii)
			switch v := v.(type) {
			case Array:
				fr.regs[dst] = x.indexLoad(v, it)
			case Slice:
				fr.regs[dst] = x.indexLoad(v, it)
			case string, *SymStr:
				n := strLen(v)
				x.bounds(it, n, "index out of range")
				if it.IsConst() {
					fr.regs[dst] = w.strByte(v, int(it.val))
				} else {
					ts := w.strTerms(v)
					r := ts[n-1]
					for k := n - 2; k >= 0; k-- {
						r = tc.Ite(tc.Eq(it, tc.Const(64, uint64(k))), ts[k], r)
					}
					fr.regs[dst] = r
				}
			default:
				panic(engErr("Index of %T", v))
			}
			return cNext
		}
	case *ssa.IndexAddr:
		dst := c.slots[in]
		a, i := c.opnd(in.X), c.opnd(in.Index)
		ii, _ := intOf(in.Index.Type())
		isPtr := false
		var elem types.Type
		switch u := in.X.Type().Underlying().(type) {
		case *types.Pointer:
			isPtr = true
			elem = u.Elem().Underlying().(*types.Array).Elem()
		case *types.Slice:
			elem = u.Elem()
		}
		loadsOnly := elem != nil
		if loadsOnly {
			if _, ok := intOf(elem); !ok {
				loadsOnly = false
			}
			for _, r := range *in.Referrers() {
				if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
					loadsOnly = false
				}
			}
		}
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			var s []Value
			v := a.get(x, fr)
			if isPtr {
				p := x.ptr(v)
				s = (*p).(Array)
			} else {
				s = v.(Slice)
			}
			it := x.widen(i.get(x, fr).(*Term), ii)
			if it.IsConst() {
				if it.val >= uint64(len(s)) {
					x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(it.val), len(s)))
				}
				fr.regs[dst] = &s[it.val]
				return cNext
			}
			x.bounds(it, len(s), "index out of range")
			if loadsOnly && len(s) <= 256 {
				fr.regs[dst] = &SymPtr{s, it}
				return cNext
			}
			fr.regs[dst] = &s[x.concretize(it)]
			return cNext
		}
	case *ssa.Lookup:
		dst := c.slots[in]
		a, i := c.opnd(in.X), c.opnd(in.Index)
		ok := in.CommaOk
		if isString(in.X.Type()) {
			panic(engErr("Lookup on string"))
		}
		z := w.zeroFn(in.X.Type().Underlying().(*types.Map).Elem())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			m, _ := a.get(x, fr).(*MapObj)
			if m != nil {
				x.rd(&m.cell)
			}
			e := x.mapFind(m, i.get(x, fr))
			var v Value
			if e != nil {
				v = copyVal(e.v)
			} else {
				v = z()
			}
			if ok {
				fr.regs[dst] = Tuple{v, tc.Bool(e != nil)}
			} else {
				fr.regs[dst] = v
			}
			return cNext
		}
	case *ssa.MakeChan:
		dst := c.slots[in]
		a := c.opnd(in.Size)
		ii, _ := intOf(in.Size.Type())
		z := w.zeroFn(in.Type().Underlying().(*types.Chan).Elem())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			n := int64(x.concretize(x.widen(a.get(x, fr).(*Term), ii)))
			if n < 0 || n > 1<<24 {
				x.rtPanic("makechan: size out of range")
			}
			fr.regs[dst] = x.newChan(int(n), z)
			return cNext
		}
	case *ssa.MakeClosure:
		dst := c.slots[in]
		fn := in.Fn.(*ssa.Function)
		var bs []operand
		for _, b := range in.Bindings {
			bs = append(bs, c.opnd(b))
		}
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			env := make([]Value, len(bs))
			for i := range bs {
				env[i] = bs[i].get(x, fr)
			}
			fr.regs[dst] = &Closure{fn: fn, env: env}
			return cNext
		}
	case *ssa.MakeInterface:
		dst := c.slots[in]
		a := c.opnd(in.X)
		ti := tinfo(in.X.Type())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = Iface{ti, copyVal(a.get(x, fr))}
			return cNext
		}
	case *ssa.MakeMap:
		dst := c.slots[in]
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = &MapObj{idx: map[any]*mapEnt{}}
			return cNext
		}
	case *ssa.MakeSlice:
		dst := c.slots[in]
		l, cp := c.opnd(in.Len), c.opnd(in.Cap)
		li, _ := intOf(in.Len.Type())
		ci, _ := intOf(in.Cap.Type())
		elem := in.Type().Underlying().(*types.Slice).Elem()
		z := w.zeroFn(elem)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			lt := x.widen(l.get(x, fr).(*Term), li)
			ct := x.widen(cp.get(x, fr).(*Term), ci)
			x.allocBound(lt)
			n := int64(x.concretize(lt))
			x.allocBound(ct)
			cap := int64(x.concretize(ct))
			if n < 0 || n > 1<<40 {
				x.rtPanic("makeslice: len out of range")
			}
			if cap < n || cap > 1<<40 {
				x.rtPanic("makeslice: cap out of range")
			}
			s := make(Slice, cap)
			for i := range s {
				s[i] = z()
			}
			fr.regs[dst] = s[:n]
			return cNext
		}
	case *ssa.MapUpdate:
		m, k, v := c.opnd(in.Map), c.opnd(in.Key), c.opnd(in.Value)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			mo, _ := m.get(x, fr).(*MapObj)
			if mo == nil {
				x.goPanic(x.plainErr("assignment to entry in nil map"))
			}
			x.wr(&mo.cell)
			x.mapSet(mo, copyVal(k.get(x, fr)), copyVal(v.get(x, fr)))
			return cNext
		}
	case *ssa.Next:
		dst := c.slots[in]
		a := c.opnd(in.Iter)
		var zk, zv func() Value
		tup := in.Type().(*types.Tuple)
		mk := func(T types.Type) func() Value {
			if b, ok := T.(*types.Basic); ok && b.Kind() == types.Invalid {
				return func() Value { return nil }
			}
			return w.zeroFn(T)
		}
		zk, zv = mk(tup.At(1).Type()), mk(tup.At(2).Type())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = a.get(x, fr).(iterator).next(x, zk, zv)
			return cNext
		}
	case *ssa.Panic:
		a := c.opnd(in.X)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			v := a.get(x, fr).(Iface)
			if v.t == nil {
				v = x.plainErr("panic called with nil argument (use GODEBUG=panicnil=1 to disable)")
			}
			x.goPanic(v)
			return cNext
		}
	case *ssa.Range:
		dst := c.slots[in]
		a := c.opnd(in.X)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			switch v := a.get(x, fr).(type) {
			case *MapObj:
				it := &mapIter{m: v}
				if v != nil {
					x.rd(&v.cell)
					it.rest = append(it.rest, v.ents...)
				}
				fr.regs[dst] = it
			case string, *SymStr:
				fr.regs[dst] = &strIter{s: v}
			default:
				panic(engErr("range over %T", v))
			}
			return cNext
		}
	case *ssa.Return:
		var rs []operand
		for _, r := range in.Results {
			rs = append(rs, c.opnd(r))
		}
		switch len(rs) {
		case 0:
			return func(x *Exec, t *Thread, fr *Frame) ctl { return x.doReturn(t, fr, nil) }
		case 1:
			return func(x *Exec, t *Thread, fr *Frame) ctl { return x.doReturn(t, fr, rs[0].get(x, fr)) }
		}
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			tp := make(Tuple, len(rs))
			for i := range rs {
				tp[i] = rs[i].get(x, fr)
			}
			return x.doReturn(t, fr, tp)
		}
	case *ssa.RunDefers:
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			if len(fr.defers) == 0 {
				return cNext
			}
			k := x.runDeferred(t, fr)
			if k != cYield {
				fr.pc-- // come back here until none is left
			}
			return k
		}
	case *ssa.Select:
		dst := c.slots[in]
		type st struct {
			send bool
			ch   operand
			val  operand
			z    func() Value
		}
		var sts []st
		for _, s := range in.States {
			e := st{send: s.Dir == types.SendOnly, ch: c.opnd(s.Chan)}
			if e.send {
				e.val = c.opnd(s.Send)
			}
			e.z = w.zeroFn(s.Chan.Type().Underlying().(*types.Chan).Elem())
			sts = append(sts, e)
		}
		hasDef := !in.Blocking
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			cases := make([]selCase, len(sts))
			for i := range sts {
				ch, _ := sts[i].ch.get(x, fr).(*ChanObj)
				cases[i] = selCase{send: sts[i].send, ch: ch}
				if sts[i].send {
					cases[i].val = copyVal(sts[i].val.get(x, fr))
				}
			}
			r, ok := x.chanOp(t, cases, hasDef)
			if !ok {
				return cYield
			}
			tp := make(Tuple, 0, 2+len(sts))
			tp = append(tp, tc.Const(64, uint64(int64(r.idx))), tc.Bool(r.ok))
			for i := range sts {
				if sts[i].send {
					continue
				}
				if i == r.idx && r.ok {
					tp = append(tp, r.val)
				} else {
					tp = append(tp, sts[i].z())
				}
			}
			fr.regs[dst] = tp
			return cNext
		}
	case *ssa.Send:
		a, v := c.opnd(in.Chan), c.opnd(in.X)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			ch, _ := a.get(x, fr).(*ChanObj)
			_, ok := x.chanOp(t, []selCase{{send: true, ch: ch, val: copyVal(v.get(x, fr))}}, false)
			if !ok {
				return cYield
			}
			return cNext
		}
	case *ssa.Slice:
		return c.slice(in)
	case *ssa.SliceToArrayPointer:
		dst := c.slots[in]
		a := c.opnd(in.X)
		n := int(in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			s := a.get(x, fr).(Slice)
			if len(s) < n {
				x.rtPanic("cannot convert slice to array pointer: length too short")
			}
			p := new(Value)
			*p = Array(s[:n:n])
			fr.regs[dst] = p
			return cNext
		}
	case *ssa.Store:
		a, v := c.opnd(in.Addr), c.opnd(in.Val)
		local := isLocalAddr(in.Addr)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			p := x.ptr(a.get(x, fr))
			if !local {
				x.wr(p)
			}
			storeCell(p, v.get(x, fr))
			return cNext
		}
	case *ssa.TypeAssert:
		return c.typeAssert(in)
	}
	s := fmt.Sprintf("unsupported instruction %T: %v in %s", in, in, c.cf.name)
	return func(x *Exec, t *Thread, fr *Frame) ctl { panic(engErr("%s", s)) }
}

func isLocalAddr(v ssa.Value) bool {
	switch v := v.(type) {
	case *ssa.Alloc:
		return !v.Heap
	case *ssa.FieldAddr:
		return isLocalAddr(v.X)
	case *ssa.IndexAddr:
		if _, ok := v.X.Type().Underlying().(*types.Pointer); ok {
			return isLocalAddr(v.X)
		}
	}
	return false
}

// widen converts an index or length of any integer type to 64 bits.
func (x *Exec) widen(t *Term, ii intInfo) *Term {
	if t.w == 64 {
		return t
	}
	if ii.signed {
		return x.c.SExt(t, 64)
	}
	return x.c.ZExt(t, 64)
}

// bounds raises a Go panic when 0 <= it < n does not hold.
func (x *Exec) bounds(it *Term, n int, msg string) {
	ok := x.c.Ult(it, x.c.Const(64, uint64(n)))
	if ok == x.c.T {
		return
	}
	if !x.decide(ok) {
		x.rtPanic(msg)
	}
}

// allocBound: symbolic allocation sizes are forked at the engine's limit first.
func (x *Exec) allocBound(t *Term) {
	lim := x.c.Const(64, uint64(x.maxAlloc()))
	if !x.decide(x.c.Sle(t, lim)) {
		// larger than the modelled heap: either makeslice panics or the path is outside the bound
		if x.decide(x.c.Slt(x.c.Const(64, 1<<47), t)) {
			x.rtPanic("makeslice: len out of range")
		}
		x.outOfBound("allocation larger than the modelled heap")
	}
}

func (x *Exec) indexLoad(s []Value, it *Term) Value {
	if it.IsConst() {
		if it.val >= uint64(len(s)) {
			x.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(it.val), len(s)))
		}
		return copyVal(s[it.val])
	}
	x.bounds(it, len(s), "index out of range")
	if len(s) <= 256 {
		if v, ok := x.iteChain(s, it); ok {
			return v
		}
	}
	return copyVal(s[x.concretize(it)])
}

func (x *Exec) iteChain(s []Value, it *Term) (Value, bool) {
	last, ok := s[len(s)-1].(*Term)
	if !ok {
		return nil, false
	}
	r := last
	for k := len(s) - 2; k >= 0; k-- {
		r = x.c.Ite(x.c.Eq(it, x.c.Const(64, uint64(k))), s[k].(*Term), r)
	}
	return r, true
}

func (c *compiler) unop(in *ssa.UnOp) instrFn {
	dst := c.slots[in]
	a := c.opnd(in.X)
	tc := c.w.c
	switch in.Op {
	case token.MUL:
		local := isLocalAddr(in.X)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			v := a.get(x, fr)
			if sp, ok := v.(*SymPtr); ok {
				for i := range sp.s {
					x.rd(&sp.s[i])
				}
				r, ok := x.iteChain(sp.s, sp.idx)
				if !ok {
					panic(engErr("symbolic load of non-scalar"))
				}
				fr.regs[dst] = r
				return cNext
			}
			p, ok := v.(*Value)
			if !ok || p == nil {
				p = x.ptr(v)
			}
			if !local {
				x.rd(p)
			}
			switch e := (*p).(type) {
			case Struct, Array:
				fr.regs[dst] = copyVal(e)
			default:
				fr.regs[dst] = e
			}
			return cNext
		}
	case token.ARROW:
		ok := in.CommaOk
		z := c.w.zeroFn(in.X.Type().Underlying().(*types.Chan).Elem())
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			ch, _ := a.get(x, fr).(*ChanObj)
			r, rdy := x.chanOp(t, []selCase{{ch: ch}}, false)
			if !rdy {
				return cYield
			}
			v := r.val
			if !r.ok {
				v = z()
			}
			if ok {
				fr.regs[dst] = Tuple{v, tc.Bool(r.ok)}
			} else {
				fr.regs[dst] = v
			}
			return cNext
		}
	case token.NOT:
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = tc.Not(a.get(x, fr).(*Term))
			return cNext
		}
	case token.SUB:
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			switch v := a.get(x, fr).(type) {
			case *Term:
				fr.regs[dst] = tc.Neg(v)
			case float64:
				fr.regs[dst] = -v
			case complex128:
				fr.regs[dst] = -v
			}
			return cNext
		}
	case token.XOR:
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			fr.regs[dst] = tc.BNot(a.get(x, fr).(*Term))
			return cNext
		}
	}
	panic(engErr("unop %v", in.Op))
}

func (c *compiler) binop(op token.Token, T, T2 types.Type) func(x *Exec, a, b Value) Value {
	tc := c.w.c
	w := c.w
	switch op {
	case token.EQL:
		if c.cf.harness {
			return func(x *Exec, a, b Value) Value { return x.rawEqTerm(a, b) }
		}
		return func(x *Exec, a, b Value) Value {
			if s, ok := a.(*Term); ok {
				return tc.Eq(s, b.(*Term))
			}
			return x.eqTerm(a, b)
		}
	case token.NEQ:
		if c.cf.harness {
			return func(x *Exec, a, b Value) Value { return tc.Not(x.rawEqTerm(a, b)) }
		}
		return func(x *Exec, a, b Value) Value {
			if s, ok := a.(*Term); ok {
				return tc.Not(tc.Eq(s, b.(*Term)))
			}
			return tc.Not(x.eqTerm(a, b))
		}
	}
	if isString(T) {
		switch op {
		case token.ADD:
			return func(x *Exec, a, b Value) Value { return w.concatStr(a, b) }
		case token.LSS:
			return func(x *Exec, a, b Value) Value { return w.strLess(a, b) }
		case token.GTR:
			return func(x *Exec, a, b Value) Value { return w.strLess(b, a) }
		case token.LEQ:
			return func(x *Exec, a, b Value) Value { return tc.Not(w.strLess(b, a)) }
		case token.GEQ:
			return func(x *Exec, a, b Value) Value { return tc.Not(w.strLess(a, b)) }
		}
	}
	if isFloat(T) {
		f32 := T.Underlying().(*types.Basic).Kind() == types.Float32
		return func(x *Exec, a, b Value) Value {
			p, q := a.(float64), b.(float64)
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			case token.LSS:
				return tc.Bool(p < q)
			case token.LEQ:
				return tc.Bool(p <= q)
			case token.GTR:
				return tc.Bool(p > q)
			case token.GEQ:
				return tc.Bool(p >= q)
			}
			if f32 {
				r = float64(float32(r))
			}
			return r
		}
	}
	if b, ok := T.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return func(x *Exec, a, b Value) Value {
			p, q := a.(complex128), b.(complex128)
			switch op {
			case token.ADD:
				return p + q
			case token.SUB:
				return p - q
			case token.MUL:
				return p * q
			}
			return p / q
		}
	}
	ii, ok := intOf(T)
	if !ok {
		panic(engErr("binop %v on %v", op, T))
	}
	bin := func(k TKind) func(x *Exec, a, b Value) Value {
		return func(x *Exec, a, b Value) Value { return tc.Bin(k, a.(*Term), b.(*Term)) }
	}
	cmp := func(f func(a, b *Term) *Term, swap bool) func(x *Exec, a, b Value) Value {
		if swap {
			return func(x *Exec, a, b Value) Value { return f(b.(*Term), a.(*Term)) }
		}
		return func(x *Exec, a, b Value) Value { return f(a.(*Term), b.(*Term)) }
	}
	lt, le := tc.Ult, tc.Ule
	if ii.signed {
		lt, le = tc.Slt, tc.Sle
	}
	switch op {
	case token.ADD:
		return bin(KAdd)
	case token.SUB:
		return bin(KSub)
	case token.MUL:
		return bin(KMul)
	case token.AND:
		if ii.w == 0 {
			return func(x *Exec, a, b Value) Value { return tc.And(a.(*Term), b.(*Term)) }
		}
		return bin(KBAnd)
	case token.OR:
		if ii.w == 0 {
			return func(x *Exec, a, b Value) Value { return tc.Or(a.(*Term), b.(*Term)) }
		}
		return bin(KBOr)
	case token.XOR:
		return bin(KBXor)
	case token.AND_NOT:
		return func(x *Exec, a, b Value) Value { return tc.Bin(KBAnd, a.(*Term), tc.BNot(b.(*Term))) }
	case token.QUO, token.REM:
		k := KUDiv
		if op == token.REM {
			k = KURem
		}
		if ii.signed {
			k++ // KSDiv / KSRem
		}
		return func(x *Exec, a, b Value) Value {
			q := b.(*Term)
			if x.decide(tc.Eq(q, tc.Const(q.w, 0))) {
				x.rtPanic("integer divide by zero")
			}
			return tc.Bin(k, a.(*Term), q)
		}
	case token.SHL, token.SHR:
		ci, _ := intOf(T2)
		return func(x *Exec, a, b Value) Value { return x.shift(op == token.SHL, ii, ci, a.(*Term), b.(*Term)) }
	case token.LSS:
		return cmp(lt, false)
	case token.LEQ:
		return cmp(le, false)
	case token.GTR:
		return cmp(lt, true)
	case token.GEQ:
		return cmp(le, true)
	}
	panic(engErr("binop %v", op))
}

func (x *Exec) shift(left bool, ii, ci intInfo, a, n *Term) *Term {
	c := x.c
	if ci.signed && !nonneg(n) {
		if x.decide(c.Slt(n, c.Const(n.w, 0))) {
			x.rtPanic("negative shift amount")
		}
	}
	w := ii.w
	k := KShl
	if !left {
		k = KLShr
		if ii.signed {
			k = KAShr
		}
	}
	if n.w <= w {
		return c.Bin(k, a, c.ZExt(n, w))
	}
	big := c.Not(c.Ult(n, c.Const(n.w, uint64(w))))
	r := c.Bin(k, a, c.Trunc(n, w))
	if big == c.F {
		return r
	}
	ov := c.Const(w, 0)
	if k == KAShr {
		ov = c.Bin(KAShr, a, c.Const(w, uint64(w-1)))
	}
	return c.Ite(big, ov, r)
}

func (c *compiler) convert(from, to types.Type) func(x *Exec, v Value) Value {
	tc := c.w.c
	fi, fok := intOf(from)
	ti, tok := intOf(to)
	switch {
	case fok && tok && fi.w > 0 && ti.w > 0:
		return func(x *Exec, v Value) Value {
			t, ok := v.(*Term)
			if !ok {
				panic(engErr("conversion of pointer to integer"))
			}
			switch {
			case ti.w == fi.w:
				return t
			case ti.w < fi.w:
				return tc.Trunc(t, ti.w)
			case fi.signed:
				return tc.SExt(t, ti.w)
			}
			return tc.ZExt(t, ti.w)
		}
	case fok && fi.w > 0 && isFloat(to):
		f32 := to.Underlying().(*types.Basic).Kind() == types.Float32
		return func(x *Exec, v Value) Value {
			n := x.concretize(v.(*Term))
			var f float64
			if fi.signed {
				f = float64(sext(n, fi.w))
			} else {
				f = float64(n)
			}
			if f32 {
				f = float64(float32(f))
			}
			return f
		}
	case isFloat(from) && tok && ti.w > 0:
		return func(x *Exec, v Value) Value {
			f := v.(float64)
			if ti.signed {
				return tc.Const(ti.w, uint64(int64(f)))
			}
			return tc.Const(ti.w, uint64(f))
		}
	case isFloat(from) && isFloat(to):
		f32 := to.Underlying().(*types.Basic).Kind() == types.Float32
		return func(x *Exec, v Value) Value {
			if f32 {
				return float64(float32(v.(float64)))
			}
			return v
		}
	case fok && fi.w > 0 && isString(to):
		return func(x *Exec, v Value) Value {
			n := x.concretize(v.(*Term))
			var r rune
			if fi.signed {
				s := sext(n, fi.w)
				r = rune(s)
				if int64(r) != s {
					r = utf8.RuneError
				}
			} else {
				r = rune(n)
				if uint64(r) != n {
					r = utf8.RuneError
				}
			}
			return string(r)
		}
	case isString(from) && isString(to):
		return func(x *Exec, v Value) Value { return v }
	case isString(from):
		if s, ok := to.Underlying().(*types.Slice); ok {
			if ei, _ := intOf(s.Elem()); ei.w == 8 {
				return func(x *Exec, v Value) Value {
					ts := x.w.strTerms(v)
					cp := len(ts)
					if cp <= 32 && cp > 0 {
						cp = max(roundupsize(cp), cp)
					} else {
						cp = roundupsize(cp)
					}
					r := make(Slice, cp)
					z := tc.Const(8, 0)
					for i := range r {
						if i < len(ts) {
							r[i] = ts[i]
						} else {
							r[i] = z
						}
					}
					return r[:len(ts)]
				}
			}
			return func(x *Exec, v Value) Value {
				var r Slice = Slice{}
				for _, ch := range x.concStrForce(v) {
					r = append(r, tc.Const(32, uint64(ch)))
				}
				return r
			}
		}
	case isString(to):
		if s, ok := from.Underlying().(*types.Slice); ok {
			if ei, _ := intOf(s.Elem()); ei.w == 8 {
				return func(x *Exec, v Value) Value {
					sl := v.(Slice)
					for i := range sl {
						x.rd(&sl[i])
					}
					return mkStr(sliceTerms(sl))
				}
			}
			return func(x *Exec, v Value) Value {
				var r []rune
				for _, e := range v.(Slice) {
					r = append(r, rune(x.concretize(e.(*Term))))
				}
				return string(r)
			}
		}
	}
	if b, ok := from.Underlying().(*types.Basic); ok && b.Info()&types.IsComplex != 0 {
		return func(x *Exec, v Value) Value { return v }
	}
	// pointers and unsafe.Pointer
	return func(x *Exec, v Value) Value {
		switch v.(type) {
		case *Value, *SlicePtr:
			if tok {
				if p, ok := v.(*Value); ok && p == nil {
					return tc.Const(64, 0)
				}
				return tc.Const(64, x.fakeAddr(v))
			}
			return v
		case *MapObj, *ChanObj, *Closure, Slice, Iface:
			return v
		}
		panic(engErr("convert %v to %v", from, to))
	}
}

func (c *compiler) slice(in *ssa.Slice) instrFn {
	dst := c.slots[in]
	a := c.opnd(in.X)
	var lo, hi, mx *operand
	var loI, hiI, mxI intInfo
	get := func(v ssa.Value) (*operand, intInfo) {
		if v == nil {
			return nil, intInfo{}
		}
		o := c.opnd(v)
		ii, _ := intOf(v.Type())
		return &o, ii
	}
	lo, loI = get(in.Low)
	hi, hiI = get(in.High)
	mx, mxI = get(in.Max)
	tc := c.w.c
	return func(x *Exec, t *Thread, fr *Frame) ctl {
		v := a.get(x, fr)
		var ln, cp int
		var base Slice
		isStr := false
		switch v := v.(type) {
		case string, *SymStr:
			ln = strLen(v)
			cp = ln
			isStr = true
		case Slice:
			ln, cp = len(v), cap(v)
			base = v
		case *Value:
			p := x.ptr(v)
			base = Slice((*p).(Array))
			ln, cp = len(base), len(base)
		default:
			panic(engErr("slice of %T", v))
		}
		l := tc.Const(64, 0)
		if lo != nil {
			l = x.widen(lo.get(x, fr).(*Term), loI)
		}
		h := tc.Const(64, uint64(ln))
		if hi != nil {
			h = x.widen(hi.get(x, fr).(*Term), hiI)
		}
		m := tc.Const(64, uint64(cp))
		if mx != nil {
			m = x.widen(mx.get(x, fr).(*Term), mxI)
			if !x.decide(tc.Ule(m, tc.Const(64, uint64(cp)))) {
				x.rtPanic("slice bounds out of range")
			}
		}
		ok := tc.And(tc.Ule(l, h), tc.Ule(h, m))
		if ok != tc.T && !x.decide(ok) {
			x.rtPanic(fmt.Sprintf("slice bounds out of range (cap %d)", cp))
		}
		li, hiv, mv := int(x.concretize(l)), int(x.concretize(h)), int(x.concretize(m))
		if isStr {
			fr.regs[dst] = strSlice(v, li, hiv)
			return cNext
		}
		if base == nil {
			fr.regs[dst] = Slice(nil)
			return cNext
		}
		fr.regs[dst] = base[li:hiv:mv]
		return cNext
	}
}

func (c *compiler) typeAssert(in *ssa.TypeAssert) instrFn {
	dst := c.slots[in]
	a := c.opnd(in.X)
	T := in.AssertedType
	commaOk := in.CommaOk
	w := c.w
	tc := w.c
	z := w.zeroFn(T)
	it, toIface := T.Underlying().(*types.Interface)
	ti := tinfo(T)
	return func(x *Exec, t *Thread, fr *Frame) ctl {
		v := a.get(x, fr).(Iface)
		ok := false
		var r Value
		if toIface {
			if v.t != nil && w.implements(v.t, it) {
				ok, r = true, v
			}
		} else if v.t == ti {
			ok, r = true, copyVal(v.v)
		}
		if commaOk {
			if !ok {
				r = z()
			}
			fr.regs[dst] = Tuple{r, tc.Bool(ok)}
			return cNext
		}
		if !ok {
			d := "nil"
			if v.t != nil {
				d = v.t.T.String()
			}
			x.rtPanic("interface conversion: interface is " + d + ", not " + T.String())
		}
		fr.regs[dst] = r
		return cNext
	}
}

type implKey struct {
	t *TInfo
	i *types.Interface
}

func (w *Worker) implements(t *TInfo, it *types.Interface) bool {
	k := implKey{t, it}
	if r, ok := w.impl[k]; ok {
		return r
	}
	r := types.Implements(t.T, it)
	w.impl[k] = r
	return r
}

// method finds the implementation of an interface method for a dynamic type.
func (w *Worker) method(t *TInfo, m *types.Func) *ssa.Function {
	key := m.Name()
	if !m.Exported() {
		key = m.Pkg().Path() + "." + key
	}
	if f, ok := t.methods.Load(key); ok {
		return f.(*ssa.Function)
	}
	progMu.Lock()
	defer progMu.Unlock()
	sel := w.eng.prog.MethodSets.MethodSet(t.T).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		panic(engErr("no method %s on %v", m.Name(), t.T))
	}
	f := w.eng.prog.MethodValue(sel)
	if f == nil {
		panic(engErr("abstract method %s on %v", m.Name(), t.T))
	}
	t.methods.Store(key, f)
	return f
}

// prepCall evaluates the callee and arguments of a call.
func (c *compiler) prepCall(common *ssa.CallCommon) func(x *Exec, fr *Frame) (*Closure, []Value) {
	w := c.w
	var args []operand
	for _, a := range common.Args {
		args = append(args, c.opnd(a))
	}
	if common.IsInvoke() {
		recv := c.opnd(common.Value)
		m := common.Method
		var lastT *TInfo
		var lastF *Closure
		return func(x *Exec, fr *Frame) (*Closure, []Value) {
			iv, ok := recv.get(x, fr).(Iface)
			if !ok {
				panic(engErr("invoke on %T", recv.get(x, fr)))
			}
			if iv.t == nil {
				x.rtPanic(nilDeref)
			}
			if iv.t != lastT {
				lastF = &Closure{fn: w.method(iv.t, m)}
				lastT = iv.t
			}
			as := make([]Value, len(args)+1)
			as[0] = iv.v
			for i := range args {
				as[i+1] = args[i].get(x, fr)
			}
			return lastF, as
		}
	}
	callee := c.opnd(common.Value)
	return func(x *Exec, fr *Frame) (*Closure, []Value) {
		cl, _ := callee.get(x, fr).(*Closure)
		if cl == nil {
			x.rtPanic(nilDeref)
		}
		as := make([]Value, len(args))
		for i := range args {
			as[i] = args[i].get(x, fr)
		}
		return cl, as
	}
}

func (c *compiler) call(common *ssa.CallCommon, dst int, in *ssa.Call) instrFn {
	if b, ok := common.Value.(*ssa.Builtin); ok {
		var args []operand
		for _, a := range common.Args {
			args = append(args, c.opnd(a))
		}
		f := c.builtin(b, common, in)
		return func(x *Exec, t *Thread, fr *Frame) ctl {
			var tmp [4]Value
			as := tmp[:0]
			for i := range args {
				as = append(as, args[i].get(x, fr))
			}
			v, k := f(x, t, fr, as)
			if k == cYield {
				return cYield
			}
			fr.regs[dst] = v
			return cNext
		}
	}
	prep := c.prepCall(common)
	return func(x *Exec, t *Thread, fr *Frame) ctl {
		cl, args := prep(x, fr)
		return x.call(t, fr, cl, args, dst)
	}
}

// ---- iterators ----

type iterator interface {
	next(x *Exec, zk, zv func() Value) Value
}

type mapIter struct {
	m    *MapObj
	rest []*mapEnt
}

func (it *mapIter) next(x *Exec, zk, zv func() Value) Value {
	// entries deleted meanwhile are not produced
	live := it.rest[:0]
	for _, e := range it.rest {
		if !e.del {
			live = append(live, e)
		}
	}
	it.rest = live
	if len(live) == 0 {
		return Tuple{x.c.F, zk(), zv()}
	}
	i := 0
	if len(live) > 1 {
		i = x.choose(len(live), "maporder")
	}
	e := live[i]
	it.rest = append(append([]*mapEnt(nil), live[:i]...), live[i+1:]...)
	return Tuple{x.c.T, copyVal(e.k), copyVal(e.v)}
}

type strIter struct {
	s   Value
	pos int
}

func (it *strIter) next(x *Exec, zk, zv func() Value) Value {
	n := strLen(it.s)
	if it.pos >= n {
		return Tuple{x.c.F, zk(), zv()}
	}
	p := it.pos
	b := x.w.strByte(it.s, p)
	if x.decide(x.c.Ult(b, x.c.Const(8, 0x80))) {
		it.pos++
		return Tuple{x.c.T, x.c.Const(64, uint64(p)), x.c.ZExt(b, 32)}
	}
	var buf []byte
	for i := p; i < n && i < p+4; i++ {
		buf = append(buf, byte(x.concretize(x.w.strByte(it.s, i))))
	}
	r, sz := utf8.DecodeRune(buf)
	it.pos += sz
	return Tuple{x.c.T, x.c.Const(64, uint64(p)), x.c.Const(32, uint64(r))}
}

// concStrForce concretizes a string.
func (x *Exec) concStrForce(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SymStr:
		b := make([]byte, len(v.b))
		for i, t := range v.b {
			b[i] = byte(x.concretize(t))
		}
		return string(b)
	}
	panic(engErr("concStr of %T", v))
}

// ---- builtins ----

func (c *compiler) builtin(b *ssa.Builtin, common *ssa.CallCommon, in *ssa.Call) func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
	w := c.w
	tc := w.c
	name := b.Name()
	k64 := func(n int) Value { return tc.Const(64, uint64(int64(n))) }
	switch name {
	case "append":
		elem := in.Type().Underlying().(*types.Slice).Elem()
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			s, _ := a[0].(Slice)
			var add []Value
			switch v := a[1].(type) {
			case Slice:
				add = v
			case string, *SymStr:
				for _, b := range w.strTerms(v) {
					add = append(add, b)
				}
			}
			if len(add) == 0 {
				return s, cNext
			}
			if x.racing {
				if sl, ok := a[1].(Slice); ok {
					for i := range sl {
						x.rd(&sl[i])
					}
				}
				if len(s)+len(add) <= cap(s) {
					r := s[:len(s)+len(add)]
					for i := len(s); i < len(r); i++ {
						x.wr(&r[i])
					}
				} else {
					for i := range s {
						x.rd(&s[i])
					}
				}
			}
			if len(s)+len(add) <= cap(s) && overlaps(s, add) {
				tmp := make([]Value, len(add))
				for i := range add {
					tmp[i] = copyVal(add[i])
				}
				add = tmp
			}
			return x.appendVals(s, add, elem), cNext
		}
	case "cap":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			switch v := a[0].(type) {
			case Slice:
				return k64(cap(v)), cNext
			case Array:
				return k64(len(v)), cNext
			case *Value:
				return k64(len((*x.ptr(v)).(Array))), cNext
			case *ChanObj:
				if v == nil {
					return k64(0), cNext
				}
				return k64(v.cap), cNext
			}
			panic(engErr("cap of %T", a[0]))
		}
	case "len":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			switch v := a[0].(type) {
			case Slice:
				return k64(len(v)), cNext
			case Array:
				return k64(len(v)), cNext
			case string, *SymStr:
				return k64(strLen(v)), cNext
			case *Value:
				return k64(len((*x.ptr(v)).(Array))), cNext
			case *MapObj:
				if v == nil {
					return k64(0), cNext
				}
				x.rd(&v.cell)
				return k64(v.live), cNext
			case *ChanObj:
				if v == nil {
					return k64(0), cNext
				}
				if !x.visible(t, alwaysEnabled, "len(chan)") {
					return nil, cYield
				}
				return k64(len(v.buf)), cNext
			}
			panic(engErr("len of %T", a[0]))
		}
	case "clear":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			switch v := a[0].(type) {
			case *MapObj:
				if v != nil {
					x.wr(&v.cell)
					for _, e := range v.ents {
						e.del = true
					}
					v.ents, v.idx, v.live, v.symKey = nil, map[any]*mapEnt{}, 0, false
				}
			case Slice:
				z := w.zeroFn(common.Args[0].Type().Underlying().(*types.Slice).Elem())
				for i := range v {
					x.wr(&v[i])
					storeCell(&v[i], z())
				}
			}
			return nil, cNext
		}
	case "close":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			if !x.closeChan(t, a[0]) {
				return nil, cYield
			}
			return nil, cNext
		}
	case "copy":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			d := a[0].(Slice)
			switch s := a[1].(type) {
			case Slice:
				n := min(len(d), len(s))
				if x.racing {
					for i := 0; i < n; i++ {
						x.rd(&s[i])
						x.wr(&d[i])
					}
				}
				if n > 0 {
					if _, ok := s[0].(*Term); ok {
						copy(d[:n], s[:n])
					} else {
						tmp := make([]Value, n)
						for i := range tmp {
							tmp[i] = copyVal(s[i])
						}
						for i := range tmp {
							storeCell(&d[i], tmp[i])
						}
					}
				}
				return k64(n), cNext
			case string, *SymStr:
				ts := w.strTerms(s)
				n := min(len(d), len(ts))
				for i := 0; i < n; i++ {
					x.wr(&d[i])
					d[i] = ts[i]
				}
				return k64(n), cNext
			}
			panic(engErr("copy from %T", a[1]))
		}
	case "delete":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			if m, _ := a[0].(*MapObj); m != nil {
				x.wr(&m.cell)
				x.mapDelete(m, a[1])
			}
			return nil, cNext
		}
	case "min", "max":
		T := in.Type()
		less := c.binop(token.LSS, T, T)
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			r := a[0]
			for _, v := range a[1:] {
				p, q := v, r
				if name == "max" {
					p, q = r, v
				}
				l := less(x, p, q).(*Term)
				rt, ok1 := r.(*Term)
				vt, ok2 := v.(*Term)
				if ok1 && ok2 {
					r = tc.Ite(l, vt, rt)
				} else if x.decide(l) {
					r = v
				}
			}
			return r, cNext
		}
	case "panic":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			x.goPanic(a[0].(Iface))
			return nil, cNext
		}
	case "print", "println":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) { return nil, cNext }
	case "recover":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) { return x.doRecover(fr), cNext }
	case "real", "imag", "complex":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			switch name {
			case "real":
				return real(a[0].(complex128)), cNext
			case "imag":
				return imag(a[0].(complex128)), cNext
			}
			return complex(a[0].(float64), a[1].(float64)), cNext
		}
	case "ssa:wrapnilchk":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			if p, ok := a[0].(*Value); ok && p == nil {
				x.rtPanic(fmt.Sprintf("value method %v.%v called using nil pointer", a[1], a[2]))
			}
			return a[0], cNext
		}
	case "ssa:deferstack":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) { return fr, cNext }
	case "SliceData":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			s := a[0].(Slice)
			if s == nil {
				return (*Value)(nil), cNext
			}
			return &SlicePtr{s[:len(s):cap(s)]}, cNext
		}
	case "StringData":
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			ts := w.strTerms(a[0])
			s := make(Slice, len(ts))
			for i := range ts {
				s[i] = ts[i]
			}
			return &SlicePtr{s}, cNext
		}
	case "String":
		ii, _ := intOf(common.Args[1].Type())
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			n := int(x.concretize(x.widen(a[1].(*Term), ii)))
			if n == 0 {
				return "", cNext
			}
			switch p := a[0].(type) {
			case *SlicePtr:
				return mkStr(sliceTerms(p.s[:n])), cNext
			case *Value:
				if n == 1 && p != nil {
					return mkStr([]*Term{(*p).(*Term)}), cNext
				}
			}
			panic(engErr("unsafe.String of %T", a[0]))
		}
	case "Slice":
		ii, _ := intOf(common.Args[1].Type())
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) {
			n := int(x.concretize(x.widen(a[1].(*Term), ii)))
			switch p := a[0].(type) {
			case *SlicePtr:
				return p.s[:n:n], cNext
			case *Value:
				if p == nil && n == 0 {
					return Slice(nil), cNext
				}
			}
			panic(engErr("unsafe.Slice of %T", a[0]))
		}
	}
	return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl) { panic(engErr("builtin %s", name)) }
}

func overlaps(a, b []Value) bool {
	if cap(a) == 0 || cap(b) == 0 {
		return false
	}
	// same backing array iff the last cells of the capacities coincide
	return &a[:cap(a)][cap(a)-1] == &b[:cap(b)][cap(b)-1]
}

var _ = math.MaxInt
