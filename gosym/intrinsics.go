package main

import (
	"fmt"
	"go/types"
	"strings"
)

type tailCall struct {
	fn   *Closure
	args []Value
}

type intrinsic func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall)

type mutexState struct {
	locked  bool
	readers int
	waiting map[*Thread]bool // writers blocked in RWMutex.Lock
	count   int64            // WaitGroup
	seq     int              // Cond: number of signals handed out / waiters
	waiters []*condWaiter
	own     map[*Thread]*condWaiter
}

type condWaiter struct {
	t        *Thread
	signaled bool
}

func (x *Exec) mtx(v Value) *mutexState {
	p := x.ptr(v)
	m := x.mutexes[p]
	if m == nil {
		m = &mutexState{}
		x.mutexes[p] = m
	}
	return m
}

func ret(v Value) (Value, ctl, *tailCall) { return v, cNext, nil }

var yieldRet = func() (Value, ctl, *tailCall) { return nil, cYield, nil }

var intrinsics map[string]intrinsic

// models maps library functions to Go models in the harness support package.
var models = map[string]string{
	"context.WithValue":            "ModelWithValue",
	"(*sync.Map).Load":             "ModelMapLoad",
	"(*sync.Map).Store":            "ModelMapStore",
	"(*sync.Map).LoadOrStore":      "ModelMapLoadOrStore",
	"(*sync.Map).LoadAndDelete":    "ModelMapLoadAndDelete",
	"(*sync.Map).Delete":           "ModelMapDelete",
	"(*sync.Map).Swap":             "ModelMapSwap",
	"(*sync.Map).CompareAndSwap":   "ModelMapCompareAndSwap",
	"(*sync.Map).CompareAndDelete": "ModelMapCompareAndDelete",
	"(*sync.Map).Range":            "ModelMapRange",
	"(*sync.Map).Clear":            "ModelMapClear",
	"errors.Is":                    "ModelErrorsIs",
	"github.com/pkg/errors.Is":     "ModelErrorsIs",
	"errors.As":                    "ModelErrorsAs",
	"github.com/pkg/errors.As":     "ModelErrorsAs",
	"fmt.Errorf":                   "ModelErrorf",
	"github.com/pkg/errors.Errorf": "ModelErrorf",
	"fmt.Sprintf":                  "ModelSprintf",
	"fmt.Sprint":                   "ModelSprint",
	"fmt.Sprintln":                 "ModelSprintln",
	"fmt.Fprintf":                  "ModelFprintf",
	"fmt.Printf":                   "ModelPrintf",
	"fmt.Println":                  "ModelPrintln",
	"fmt.Fprint":                   "ModelFprint",
	"fmt.Fprintln":                 "ModelFprintln",
	"fmt.Append":                   "ModelAppend",
	"fmt.Appendf":                  "ModelAppendf",
	"time.Since":                   "ModelSince",
	"time.Until":                   "ModelUntil",
	"sort.Slice":                   "ModelSortSlice",
	"sort.SliceStable":             "ModelSortSlice",
}

func lookupIntrinsic(cf *cfunc) intrinsic {
	if f, ok := intrinsics[cf.name]; ok {
		return f
	}
	if m, ok := models[cf.name]; ok {
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
			fn := x.w.eng.vpkg.Func(m)
			if fn == nil {
				panic(engErr("missing model %s", m))
			}
			return nil, cNext, &tailCall{&Closure{fn: fn}, a}
		}
	}
	if strings.HasPrefix(cf.pkg, "github.com/sirupsen/logrus") {
		return logrusIntrinsic(cf)
	}
	if cf.pkg == vPath {
		if f, ok := vIntrinsics[cf.fn.Name()]; ok && cf.fn.Signature.Recv() == nil && cf.fn.Parent() == nil {
			return f
		}
	}
	if cf.pkg == "sync/atomic" && cf.fn.Signature.Recv() == nil {
		if f := atomicIntrinsic(cf); f != nil {
			return f
		}
	}
	return nil
}

func logrusIntrinsic(cf *cfunc) intrinsic {
	n := cf.fn.Name()
	res := cf.fn.Signature.Results()
	switch {
	case n == "init" || cf.fn.Parent() != nil:
		return nil
	case n == "IsLevelEnabled":
		return nil
	case strings.HasPrefix(n, "With") && cf.fn.Signature.Recv() != nil:
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
			if tinfo(res.At(0).Type()) == tinfo(cf.fn.Signature.Recv().Type()) {
				return ret(a[0])
			}
			p := new(Value)
			*p = x.w.zero(res.At(0).Type().Underlying().(*types.Pointer).Elem())
			return ret(p)
		}
	}
	for _, p := range []string{"Debug", "Info", "Warn", "Error", "Trace", "Log", "Print", "Fatal", "Panic"} {
		if strings.HasPrefix(n, p) && res.Len() == 0 {
			if p == "Panic" || p == "Fatal" {
				return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
					x.goPanic(x.plainErr("logrus." + n))
					return ret(nil)
				}
			}
			return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) { return ret(nil) }
		}
	}
	return nil
}

func atomicIntrinsic(cf *cfunc) intrinsic {
	n := cf.fn.Name()
	op := ""
	for _, p := range []string{"Load", "Store", "Add", "Swap", "CompareAndSwap", "And", "Or"} {
		if strings.HasPrefix(n, p) {
			op = p
		}
	}
	if op == "" {
		return nil
	}
	if cf.fn.Blocks != nil && cf.fn.Signature.Recv() != nil {
		return nil
	}
	return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		if !x.visible(t, alwaysEnabled, "atomic "+n) {
			return yieldRet()
		}
		p := x.ptr(a[0])
		old := *p
		x.acquire(t, p)
		var r Value
		switch op {
		case "Load":
			r = old
		case "Store":
			*p = a[1]
		case "Add":
			*p = x.c.Bin(KAdd, old.(*Term), a[1].(*Term))
			r = *p
		case "And":
			*p = x.c.Bin(KBAnd, old.(*Term), a[1].(*Term))
			r = old
		case "Or":
			*p = x.c.Bin(KBOr, old.(*Term), a[1].(*Term))
			r = old
		case "Swap":
			*p = a[1]
			r = old
		case "CompareAndSwap":
			if x.decide(x.eqTerm(old, a[1])) {
				*p = a[2]
				r = x.c.T
			} else {
				r = x.c.F
			}
		}
		if op != "Load" {
			x.release(t, p)
		}
		return ret(r)
	}
}

func nop(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) { return ret(nil) }

func init() {
	I := map[string]intrinsic{}
	intrinsics = I
	lock := func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		if !x.visible(t, func() bool { return !m.locked }, "Lock") {
			return yieldRet()
		}
		m.locked = true
		x.acquire(t, m)
		return ret(nil)
	}
	unlock := func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		if !m.locked {
			x.report(&Violation{Kind: "panic", Msg: "fatal error: sync: unlock of unlocked mutex", Stack: x.stack(t)})
		}
		m.locked = false
		x.release(t, m)
		return ret(nil)
	}
	trylock := func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		if !x.visible(t, alwaysEnabled, "TryLock") {
			return yieldRet()
		}
		if m.locked {
			return ret(x.c.F)
		}
		m.locked = true
		x.acquire(t, m)
		return ret(x.c.T)
	}
	I["(*sync.Mutex).Lock"] = lock
	I["(*sync.Mutex).Unlock"] = unlock
	I["(*sync.Mutex).TryLock"] = trylock
	I["(*internal/sync.Mutex).Lock"] = lock
	I["(*internal/sync.Mutex).Unlock"] = unlock
	I["(*internal/sync.Mutex).TryLock"] = trylock
	I["(*sync.RWMutex).Lock"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		free := func() bool { return !m.locked && m.readers == 0 }
		if m.waiting[t] {
			// announced: wait for the holders
			if !x.visible(t, free, "RWMutex.Lock") {
				return yieldRet()
			}
			delete(m.waiting, t)
		} else {
			if !x.visible(t, alwaysEnabled, "RWMutex.Lock") {
				return yieldRet()
			}
			if !free() {
				if m.waiting == nil {
					m.waiting = map[*Thread]bool{}
				}
				m.waiting[t] = true
				t.enabled, t.desc = free, "RWMutex.Lock"
				return yieldRet()
			}
		}
		m.locked = true
		x.acquire(t, m)
		x.acquire(t, &m.readers)
		return ret(nil)
	}
	I["(*sync.RWMutex).Unlock"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		if !m.locked {
			x.report(&Violation{Kind: "panic", Msg: "fatal error: sync: Unlock of unlocked RWMutex", Stack: x.stack(t)})
		}
		m.locked = false
		x.release(t, m)
		return ret(nil)
	}
	I["(*sync.RWMutex).RLock"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		if !x.visible(t, func() bool { return !m.locked && len(m.waiting) == 0 }, "RLock") {
			return yieldRet()
		}
		m.readers++
		x.acquire(t, m)
		return ret(nil)
	}
	I["(*sync.RWMutex).RUnlock"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		if m.readers <= 0 {
			x.report(&Violation{Kind: "panic", Msg: "fatal error: sync: RUnlock of unlocked RWMutex", Stack: x.stack(t)})
		}
		m.readers--
		x.release(t, &m.readers)
		return ret(nil)
	}
	I["(*sync.RWMutex).TryLock"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		if !x.visible(t, alwaysEnabled, "TryLock") {
			return yieldRet()
		}
		if m.locked || m.readers > 0 || len(m.waiting) > 0 {
			return ret(x.c.F)
		}
		m.locked = true
		x.acquire(t, m)
		x.acquire(t, &m.readers)
		return ret(x.c.T)
	}
	I["(*sync.RWMutex).TryRLock"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		if !x.visible(t, alwaysEnabled, "TryRLock") {
			return yieldRet()
		}
		if m.locked || len(m.waiting) > 0 {
			return ret(x.c.F)
		}
		m.readers++
		x.acquire(t, m)
		return ret(x.c.T)
	}
	I["(*sync.WaitGroup).Add"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		m.count += int64(x.concretize(a[1].(*Term)))
		if m.count < 0 {
			x.goPanic(x.plainErr("sync: negative WaitGroup counter"))
		}
		x.release(t, m)
		return ret(nil)
	}
	I["(*sync.WaitGroup).Done"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		m.count--
		if m.count < 0 {
			x.goPanic(x.plainErr("sync: negative WaitGroup counter"))
		}
		x.release(t, m)
		return ret(nil)
	}
	I["(*sync.WaitGroup).Wait"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		if !x.visible(t, func() bool { return m.count == 0 }, "WaitGroup.Wait") {
			return yieldRet()
		}
		x.acquire(t, m)
		return ret(nil)
	}
	I["(*sync.Pool).Get"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		p := x.ptr(a[0])
		if !x.visible(t, alwaysEnabled, "Pool.Get") {
			return yieldRet()
		}
		if s := x.pools[p]; len(s) > 0 {
			v := s[len(s)-1]
			x.pools[p] = s[:len(s)-1]
			x.acquire(t, &x.pools)
			return ret(v)
		}
		// New is the only func-typed field of sync.Pool
		for _, f := range (*p).(Struct) {
			if cl, ok := f.(*Closure); ok && cl != nil {
				return nil, cNext, &tailCall{cl, nil}
			}
		}
		return ret(Iface{})
	}
	I["(*sync.Pool).Put"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		p := x.ptr(a[0])
		if !x.visible(t, alwaysEnabled, "Pool.Put") {
			return yieldRet()
		}
		if iv := a[1].(Iface); iv.t != nil {
			x.pools[p] = append(x.pools[p][:len(x.pools[p]):len(x.pools[p])], iv)
			x.release(t, &x.pools)
		}
		return ret(nil)
	}
	I["(*sync.Cond).Wait"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m := x.mtx(a[0])
		st := (*x.ptr(a[0])).(Struct)
		var lk Value
		for _, f := range st {
			if iv, ok := f.(Iface); ok && iv.t != nil {
				lk = iv.v
			}
		}
		l := x.mtx(lk)
		w := m.own[t]
		if w == nil {
			w = &condWaiter{t: t}
			if m.own == nil {
				m.own = map[*Thread]*condWaiter{}
			}
			m.own[t] = w
			m.waiters = append(m.waiters, w)
			l.locked = false
			x.release(t, l)
		}
		if !x.visible(t, func() bool { return w.signaled && !l.locked }, "Cond.Wait") {
			return yieldRet()
		}
		delete(m.own, t)
		l.locked = true
		x.acquire(t, l)
		x.acquire(t, m)
		return ret(nil)
	}
	sig := func(all bool) intrinsic {
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
			m := x.mtx(a[0])
			if !x.visible(t, alwaysEnabled, "Cond.Signal") {
				return yieldRet()
			}
			x.release(t, m)
			for len(m.waiters) > 0 {
				m.waiters[0].signaled = true
				m.waiters = m.waiters[1:]
				if !all {
					break
				}
			}
			return ret(nil)
		}
	}
	I["(*sync.Cond).Signal"] = sig(false)
	I["(*sync.Cond).Broadcast"] = sig(true)

	// atomic.Value holds its content in its only field
	I["(*sync/atomic.Value).Load"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		p := x.ptr(a[0])
		if !x.visible(t, alwaysEnabled, "atomic.Value.Load") {
			return yieldRet()
		}
		x.acquire(t, p)
		return ret((*p).(Struct)[0])
	}
	I["(*sync/atomic.Value).Store"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		p := x.ptr(a[0])
		if !x.visible(t, alwaysEnabled, "atomic.Value.Store") {
			return yieldRet()
		}
		(*p).(Struct)[0] = a[1]
		x.acquire(t, p)
		x.release(t, p)
		return ret(nil)
	}
	I["(*sync/atomic.Value).Swap"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		p := x.ptr(a[0])
		if !x.visible(t, alwaysEnabled, "atomic.Value.Swap") {
			return yieldRet()
		}
		o := (*p).(Struct)[0]
		(*p).(Struct)[0] = a[1]
		x.acquire(t, p)
		x.release(t, p)
		return ret(o)
	}
	I["(*sync/atomic.Value).CompareAndSwap"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		p := x.ptr(a[0])
		if !x.visible(t, alwaysEnabled, "atomic.Value.CompareAndSwap") {
			return yieldRet()
		}
		x.acquire(t, p)
		if x.decide(x.eqTerm((*p).(Struct)[0], a[1])) {
			(*p).(Struct)[0] = a[2]
			x.release(t, p)
			return ret(x.c.T)
		}
		return ret(x.c.F)
	}

	// runtime
	for _, n := range []string{"runtime.GC", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime.LockOSThread", "runtime.UnlockOSThread", "runtime/debug.FreeOSMemory",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReleaseMerge", "internal/race.Disable", "internal/race.Enable", "internal/race.Read", "internal/race.Write", "internal/race.ReadRange", "internal/race.WriteRange", "internal/race.Errors"} {
		I[n] = nop
	}
	I["runtime.Gosched"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		if !x.visible(t, alwaysEnabled, "Gosched") {
			return yieldRet()
		}
		return ret(nil)
	}
	num := func(n uint64) intrinsic {
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) { return ret(x.c.Const(64, n)) }
	}
	I["maps.clone"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		m, _ := a[0].(Iface)
		src, _ := m.v.(*MapObj)
		if src == nil {
			return ret(m)
		}
		dst := &MapObj{}
		x.rd(&src.cell)
		for _, e := range src.ents {
			if !e.del {
				x.mapSet(dst, e.k, copyVal(e.v))
			}
		}
		return ret(Iface{t: m.t, v: dst})
	}
	I["runtime.Callers"] = num(0)
	I["runtime.NumCPU"] = num(4)
	I["runtime.GOMAXPROCS"] = num(4)
	I["runtime.NumGoroutine"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(x.c.Const(64, uint64(x.liveThreads())))
	}
	I["runtime.Caller"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(Tuple{x.c.Const(64, 0), "", x.c.Const(64, 0), x.c.F})
	}
	I["internal/abi.NoEscape"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) { return ret(a[0]) }
	I["internal/abi.Escape"] = I["internal/abi.NoEscape"]
	I["strings.noescape"] = I["internal/abi.NoEscape"]
	I["internal/stringslite.Clone"] = I["internal/abi.NoEscape"]
	I["strings.Clone"] = I["internal/abi.NoEscape"]

	// time
	I["time.Now"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		x.now++
		return ret(Struct{x.c.Const(64, 1<<63|1<<40), x.c.Const(64, uint64(x.now+1)), (*Value)(nil)})
	}
	I["time.runtimeNano"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(x.c.Const(64, uint64(x.now+1)))
	}
	I["time.Sleep"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		if !x.visible(t, alwaysEnabled, "Sleep") {
			return yieldRet()
		}
		return ret(nil)
	}
	mkTimer := func(x *Exec, typ string, c Value) *Value {
		T := x.w.eng.prog.ImportedPackage("time").Type(typ).Type()
		p := new(Value)
		*p = x.w.zero(T)
		if c != nil {
			(*p).(Struct)[0] = c
		}
		return p
	}
	timerChan := func(x *Exec) *ChanObj {
		return x.newChan(1, x.w.zeroFn(x.w.eng.prog.ImportedPackage("time").Type("Time").Type()))
	}
	push := func(x *Exec, ch *ChanObj) {
		if len(ch.buf) == 0 {
			ch.buf = append(ch.buf, chanItem{v: ch.elem()})
		}
	}
	I["time.AfterFunc"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		p := mkTimer(x, "Timer", nil)
		d := int64(x.concretize(a[0].(*Term)))
		f := a[1].(*Closure)
		vc := x.relVC(t)
		tm := x.addTimer(d, func(x *Exec) {
			n := x.spawn(nil, f, nil, nil)
			n.vc = n.vc.join(vc)
		})
		x.ids[p] = tm
		return ret(p)
	}
	newTimer := func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		ch := timerChan(x)
		p := mkTimer(x, "Timer", ch)
		tm := x.addTimer(int64(x.concretize(a[0].(*Term))), func(x *Exec) { push(x, ch) })
		x.ids[p] = tm
		return ret(p)
	}
	I["time.NewTimer"] = newTimer
	I["time.After"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		ch := timerChan(x)
		x.addTimer(int64(x.concretize(a[0].(*Term))), func(x *Exec) { push(x, ch) })
		return ret(ch)
	}
	I["time.NewTicker"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		ch := timerChan(x)
		p := mkTimer(x, "Ticker", ch)
		d := int64(x.concretize(a[0].(*Term)))
		if d <= 0 {
			x.goPanic(x.plainErr("non-positive interval for NewTicker"))
		}
		var tm *Timer
		n := 0
		tm = x.addTimer(d, func(x *Exec) {
			push(x, ch)
			n++
			if n < x.h.maxTicks {
				tm.at = x.now + d
				tm.active = true
			}
		})
		x.ids[p] = tm
		return ret(p)
	}
	stop := func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		tm, _ := x.ids[a[0].(*Value)].(*Timer)
		if !x.visible(t, alwaysEnabled, "Timer.Stop") {
			return yieldRet()
		}
		was := tm != nil && tm.active
		if tm != nil {
			tm.active = false
		}
		return ret(x.c.Bool(was))
	}
	I["(*time.Timer).Stop"] = stop
	I["(*time.Ticker).Stop"] = stop
	I["(*time.Timer).Reset"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		tm, _ := x.ids[a[0].(*Value)].(*Timer)
		was := tm != nil && tm.active
		if tm != nil {
			tm.active = true
			tm.at = x.now + int64(x.concretize(a[1].(*Term)))
		}
		return ret(x.c.Bool(was))
	}

	// bytealg
	eqIdx := func(x *Exec, ts []*Term, b *Term) Value {
		for i, e := range ts {
			if x.decide(x.c.Eq(e, b)) {
				return x.c.Const(64, uint64(i))
			}
		}
		return x.c.Const(64, ^uint64(0))
	}
	I["internal/bytealg.IndexByte"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(eqIdx(x, sliceTerms(a[0].(Slice)), a[1].(*Term)))
	}
	I["internal/bytealg.IndexByteString"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(eqIdx(x, x.w.strTerms(a[0]), a[1].(*Term)))
	}
	lastIdx := func(x *Exec, ts []*Term, b *Term) Value {
		for i := len(ts) - 1; i >= 0; i-- {
			if x.decide(x.c.Eq(ts[i], b)) {
				return x.c.Const(64, uint64(i))
			}
		}
		return x.c.Const(64, ^uint64(0))
	}
	I["internal/bytealg.LastIndexByteString"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(lastIdx(x, x.w.strTerms(a[0]), a[1].(*Term)))
	}
	I["internal/bytealg.LastIndexByte"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(lastIdx(x, sliceTerms(a[0].(Slice)), a[1].(*Term)))
	}
	count := func(x *Exec, ts []*Term, b *Term) Value {
		r := x.c.Const(64, 0)
		for _, e := range ts {
			r = x.c.Bin(KAdd, r, x.c.BoolToBV(x.c.Eq(e, b), 64))
		}
		return r
	}
	I["internal/bytealg.Count"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(count(x, sliceTerms(a[0].(Slice)), a[1].(*Term)))
	}
	I["internal/bytealg.CountString"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(count(x, x.w.strTerms(a[0]), a[1].(*Term)))
	}
	cmp3 := func(x *Exec, s1, s2 Value) Value {
		c := x.c
		return c.Ite(x.w.strEq(s1, s2), c.Const(64, 0), c.Ite(x.w.strLess(s1, s2), c.Const(64, ^uint64(0)), c.Const(64, 1)))
	}
	I["internal/bytealg.Compare"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(cmp3(x, mkStr(sliceTerms(a[0].(Slice))), mkStr(sliceTerms(a[1].(Slice)))))
	}
	I["internal/bytealg.CompareString"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(cmp3(x, a[0], a[1]))
	}
	I["strings.Compare"] = I["internal/bytealg.CompareString"]
	eqb := func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		p, q := a[0].(Slice), a[1].(Slice)
		for i := range p {
			x.rd(&p[i])
		}
		for i := range q {
			x.rd(&q[i])
		}
		return ret(x.w.strEq(mkStr(sliceTerms(p)), mkStr(sliceTerms(q))))
	}
	I["bytes.Equal"] = eqb
	I["internal/bytealg.Equal"] = eqb
	I["internal/bytealg.MakeNoZero"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		n := int(x.concretize(a[0].(*Term)))
		if n > x.maxAlloc() {
			x.outOfBound("allocation larger than the modelled heap")
		}
		cp := roundupsize(n)
		s := make(Slice, cp)
		for i := range s {
			s[i] = x.c.Const(8, 0)
		}
		return ret(s[:n])
	}
	index := func(x *Exec, h, n Value) Value {
		hl, nl := strLen(h), strLen(n)
		for i := 0; i+nl <= hl; i++ {
			if x.decide(x.w.strEq(strSlice(h, i, i+nl), n)) {
				return x.c.Const(64, uint64(i))
			}
		}
		return x.c.Const(64, ^uint64(0))
	}
	I["strings.Index"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(index(x, a[0], a[1]))
	}
	I["internal/stringslite.Index"] = I["strings.Index"]
	I["bytes.Index"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(index(x, mkStr(sliceTerms(a[0].(Slice))), mkStr(sliceTerms(a[1].(Slice)))))
	}

	// math/bits
	blen := func(w uint8) intrinsic {
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
			v := a[0].(*Term)
			r := x.c.Const(64, 0)
			for i := 1; i <= int(v.w); i++ {
				if uint64(1)<<(i-1) > v.umax {
					break
				}
				r = x.c.Ite(x.c.Ule(x.c.Const(v.w, 1<<(i-1)), v), x.c.Const(64, uint64(i)), r)
			}
			return ret(r)
		}
	}
	I["math/bits.Len"], I["math/bits.Len64"], I["math/bits.Len32"], I["math/bits.Len16"], I["math/bits.Len8"] = blen(64), blen(64), blen(32), blen(16), blen(8)
	lz := func(w uint8) intrinsic {
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
			v, _, _ := blen(w)(x, t, fr, a)
			return ret(x.c.Bin(KSub, x.c.Const(64, uint64(w)), v.(*Term)))
		}
	}
	I["math/bits.LeadingZeros"], I["math/bits.LeadingZeros64"], I["math/bits.LeadingZeros32"] = lz(64), lz(64), lz(32)
	tz := func(w uint8) intrinsic {
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
			v := a[0].(*Term)
			r := x.c.Const(64, uint64(w))
			for i := int(w) - 1; i >= 0; i-- {
				bit := x.c.Not(x.c.Eq(x.c.Bin(KBAnd, v, x.c.Const(v.w, 1<<i)), x.c.Const(v.w, 0)))
				r = x.c.Ite(bit, x.c.Const(64, uint64(i)), r)
			}
			return ret(r)
		}
	}
	I["math/bits.TrailingZeros"], I["math/bits.TrailingZeros64"], I["math/bits.TrailingZeros32"] = tz(64), tz(64), tz(32)
	I["math/bits.OnesCount64"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		v := a[0].(*Term)
		r := x.c.Const(64, 0)
		for i := 0; i < 64; i++ {
			r = x.c.Bin(KAdd, r, x.c.Bin(KBAnd, x.c.Bin(KLShr, v, x.c.Const(64, uint64(i))), x.c.Const(64, 1)))
		}
		return ret(r)
	}
	I["os.Exit"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		x.report(&Violation{Kind: "panic", Msg: "os.Exit called", Stack: x.stack(t)})
		return ret(nil)
	}
}

// ---- the harness support package ----

const vPath = "github.com/aperturerobotics/starpc/zz_verif/v"

var vIntrinsics map[string]intrinsic

func (x *Exec) cstr(v Value) string {
	s, ok := v.(string)
	if !ok {
		return x.concStrForce(v)
	}
	return s
}

// fresh returns a new input variable label#k.
func (x *Exec) fresh(label string, w uint8) *Term {
	k := x.counter[label]
	x.counter[label] = k + 1
	n := fmt.Sprintf("%s#%d", label, k)
	t := x.newVar(n, w)
	x.inputs = append(x.inputs, inputRec{n, t})
	return t
}

func init() {
	V := map[string]intrinsic{}
	vIntrinsics = V
	scalar := func(w uint8) intrinsic {
		return func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
			return ret(x.fresh(x.cstr(a[0]), w))
		}
	}
	V["Byte"], V["Bool"], V["Uint32"], V["Uint64"], V["Int64"], V["Uint16"] = scalar(8), scalar(0), scalar(32), scalar(64), scalar(64), scalar(16)
	V["Int32"] = scalar(32)
	V["Int"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		v := x.fresh(x.cstr(a[0]), 64)
		lo, hi := a[1].(*Term), a[2].(*Term)
		x.assume(x.c.And(x.c.Sle(lo, v), x.c.Sle(v, hi)))
		return ret(v)
	}
	V["Choose"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		n := int(x.concretize(a[1].(*Term)))
		return ret(x.c.Const(64, uint64(x.choose(n, x.cstr(a[0])))))
	}
	bytesOf := func(x *Exec, label string, n int) []*Term {
		ts := make([]*Term, n)
		for i := range ts {
			ts[i] = x.fresh(label, 8)
		}
		return ts
	}
	toSlice := func(ts []*Term) Slice {
		s := make(Slice, len(ts))
		for i := range ts {
			s[i] = ts[i]
		}
		return s
	}
	V["Bytes"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(toSlice(bytesOf(x, x.cstr(a[0]), int(x.concretize(a[1].(*Term))))))
	}
	V["BytesUpTo"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		l := x.cstr(a[0])
		n := x.choose(int(x.concretize(a[1].(*Term)))+1, l+".len")
		return ret(toSlice(bytesOf(x, l, n)))
	}
	V["String"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(mkStr(bytesOf(x, x.cstr(a[0]), int(x.concretize(a[1].(*Term))))))
	}
	V["StringUpTo"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		l := x.cstr(a[0])
		n := x.choose(int(x.concretize(a[1].(*Term)))+1, l+".len")
		return ret(mkStr(bytesOf(x, l, n)))
	}
	V["Assume"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		x.assume(a[0].(*Term))
		return ret(nil)
	}
	V["Assert"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		x.assert(t, a[0].(*Term), x.cstr(a[1]))
		return ret(nil)
	}
	V["Fail"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		x.assert(t, x.c.F, x.cstr(a[0]))
		return ret(nil)
	}
	V["Reach"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		x.reached[x.cstr(a[0])] = true
		return ret(nil)
	}
	V["Quiesce"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		if t.granted {
			t.granted = false
			for _, o := range x.threads { // real time has passed: everything is ordered before
				if o != t && x.racing {
					t.vc = t.vc.join(o.vc)
					o.vc = o.vc.inc(o.id)
				}
			}
			return ret(nil)
		}
		t.quiesce, t.enabled, t.desc = true, alwaysEnabled, "Quiesce"
		return yieldRet()
	}
	V["Yield"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		if !x.visible(t, alwaysEnabled, "Yield") {
			return yieldRet()
		}
		return ret(nil)
	}
	V["Others"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		n := 0
		for _, o := range x.threads {
			if !o.done && o != t {
				n++
			}
		}
		return ret(x.c.Const(64, uint64(n)))
	}
	V["NoOthers"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		if s := x.aliveOthers(t); len(s) > 0 {
			x.report(&Violation{Kind: "assert", Msg: x.cstr(a[0]), Stack: s})
		}
		return ret(nil)
	}
	V["Native"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) { return ret(x.c.F) }
	V["Thorough"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(x.c.Bool(x.w.eng.tier == "thorough"))
	}
	V["Bound"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		if x.w.eng.tier == "thorough" {
			return ret(a[1])
		}
		return ret(a[0])
	}
	V["Stub"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		if x.stubs == nil {
			x.stubs = map[string]*Closure{}
		}
		x.stubs[x.cstr(a[0])] = a[1].(Iface).v.(*Closure)
		return ret(nil)
	}
	V["Observe"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		x.obs = append(x.obs, x.cstr(a[0]))
		x.obsV = append(x.obsV, a[1].(*Term))
		return ret(nil)
	}
	V["Concretize"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(x.c.Const(64, x.concretize(a[0].(*Term))))
	}
	V["NoDelays"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		x.delays = 0
		return ret(nil)
	}
	V["comparable_"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		iv := a[0].(Iface)
		return ret(x.c.Bool(iv.t == nil || types.Comparable(iv.t.T)))
	}
	// asInto(err, target any) bool: *target = err when the dynamic type fits.
	V["asInto"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		e, tg := a[0].(Iface), a[1].(Iface)
		pt, ok := tg.t.T.Underlying().(*types.Pointer)
		if !ok {
			x.goPanic(x.plainErr("errors: target must be a non-nil pointer"))
		}
		p := x.ptr(tg.v)
		if it, ok := pt.Elem().Underlying().(*types.Interface); ok {
			if x.w.implements(e.t, it) {
				*p = e
				return ret(x.c.T)
			}
			return ret(x.c.F)
		}
		if tinfo(pt.Elem()) == e.t {
			storeCell(p, e.v)
			return ret(x.c.T)
		}
		return ret(x.c.F)
	}
	V["typeName"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		iv := a[0].(Iface)
		if iv.t == nil {
			return ret("<nil>")
		}
		return ret(types.TypeString(iv.t.T, func(p *types.Package) string { return p.Name() }))
	}
	// intOf(x any) (v int64, unsigned, ok bool): integers of any named type
	V["intOf"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		iv := a[0].(Iface)
		if iv.t != nil {
			if ii, ok := intOf(iv.t.T); ok && ii.w > 0 {
				return ret(Tuple{x.widen(iv.v.(*Term), ii), x.c.Bool(!ii.signed), x.c.T})
			}
		}
		return ret(Tuple{x.c.Const(64, 0), x.c.F, x.c.F})
	}
	V["stringOf"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		iv := a[0].(Iface)
		if iv.t != nil && isString(iv.t.T) {
			return ret(Tuple{iv.v, x.c.T})
		}
		return ret(Tuple{"", x.c.F})
	}
	V["bytesOf"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		iv := a[0].(Iface)
		if iv.t != nil {
			if s, ok := iv.t.T.Underlying().(*types.Slice); ok {
				if ii, _ := intOf(s.Elem()); ii.w == 8 {
					return ret(Tuple{iv.v, x.c.T})
				}
			}
		}
		return ret(Tuple{Slice(nil), x.c.F})
	}
	V["boolOf"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		iv := a[0].(Iface)
		if iv.t != nil {
			if ii, ok := intOf(iv.t.T); ok && ii.w == 0 {
				return ret(Tuple{iv.v, x.c.T})
			}
		}
		return ret(Tuple{x.c.F, x.c.F})
	}
	// swapAny(slice any, i, j int)
	V["swapAny"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		s := a[0].(Iface).v.(Slice)
		i, j := x.concretize(a[1].(*Term)), x.concretize(a[2].(*Term))
		s[i], s[j] = s[j], s[i]
		return ret(nil)
	}
	V["lenAny"] = func(x *Exec, t *Thread, fr *Frame, a []Value) (Value, ctl, *tailCall) {
		return ret(x.c.Const(64, uint64(len(a[0].(Iface).v.(Slice)))))
	}
}
