package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is an activation record.
type Frame struct {
	f          *cfunc
	regs       []Value
	b          *cblock
	pc         int
	caller     *Frame
	dst        int // result register in the caller (-1: none)
	defers     []deferred
	panicking  *panicInfo
	recovering bool
	deferOf    *Frame // frame whose deferred call this is
	onRet      func(x *Exec, v Value)
}

type deferred struct {
	fn   *Closure
	args []Value
}

type panicInfo struct {
	val       Iface
	recovered bool
	stack     []string
}

// Thread is a goroutine.
type Thread struct {
	id         int
	top        *Frame
	started    bool
	startFn    *Closure
	startArgs  []Value
	done       bool
	granted    bool
	enabled    func() bool
	desc       string
	wait       *waitOp
	quiesce    bool
	ctxYielded bool
	vc         VC
	born       ssa.Instruction
	parked     bool
}

// Exec is the execution of one path.
type Exec struct {
	w   *Worker
	c   *TermCtx
	h   *Harness
	job *job

	// decisions
	prefix  []decision
	dpos    int
	node    *dnode
	tn      *tnode // position in the verification condition tree
	te      int
	pc      []*Term
	pcSet   map[*Term]bool
	vals    []uint64
	model   Model
	newDec  int
	inputs  []inputRec
	counter map[string]int
	reached map[string]bool
	obs     []string
	obsV    []*Term

	// machine
	threads       []*Thread
	cur           *Thread
	chanN         int
	steps         int
	delays        int
	globals       map[*ssa.Global]*Value
	stubs         map[string]*Closure
	pools         map[*Value][]Value
	timers        []*Timer
	now           int64
	atomic        int
	tolerant      bool
	started       bool
	trace         *[]string
	asserts       int
	solverAsserts int

	// races
	racing  bool
	meta    map[*Value]*accMeta
	syncVC  map[any]VC
	mutexes map[*Value]*mutexState

	ids map[any]any
}

type inputRec struct {
	name string
	t    *Term
}

// targetPanic is a Go panic of the interpreted program.
type targetPanic struct{ v Iface }

// pathEnd ends the current path.
type pathEnd struct {
	kind string // "assume", "bound", "dead"
	msg  string
}

// Violation is a counterexample.
type Violation struct {
	Harness string            `json:"harness"`
	Kind    string            `json:"kind"` // assert, panic, deadlock, race, steps
	Msg     string            `json:"msg"`
	Inputs  map[string]uint64 `json:"inputs"`
	Threads int               `json:"threads"`
	Stack   []string          `json:"stack,omitempty"`
	Trace   []string          `json:"trace,omitempty"`
	Decs    []decision        `json:"decisions"`
}

func (x *Exec) goPanic(v Iface) { panic(&targetPanic{v}) }

// rtPanic raises a runtime error.
func (x *Exec) rtPanic(msg string) {
	panic(&targetPanic{Iface{x.w.eng.rtErrT, "runtime error: " + msg}})
}

func (x *Exec) plainErr(msg string) Iface { return Iface{x.w.eng.rtErrT, msg} }

func (x *Exec) outOfBound(msg string) { panic(&pathEnd{"bound", msg}) }

func (x *Exec) maxAlloc() int { return x.h.maxAlloc }

func (x *Exec) fakeAddr(v Value) uint64 { panic(engErr("pointer to integer conversion")) }

func (x *Exec) pos(fr *Frame) string {
	if fr == nil || fr.b == nil {
		return "?"
	}
	i := fr.pc - 1
	if i < 0 {
		i = 0
	}
	p := token.NoPos
	for j := i; j >= 0 && j < len(fr.b.src); j-- {
		if p = fr.b.src[j].Pos(); p.IsValid() {
			break
		}
	}
	if !p.IsValid() {
		p = fr.f.fn.Pos()
	}
	ps := x.w.eng.prog.Fset.Position(p)
	f := ps.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	} else if i := strings.LastIndex(f, "/"); i >= 0 {
		if j := strings.LastIndex(f[:i], "/"); j >= 0 {
			f = f[j+1:]
		}
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) stack(t *Thread) []string {
	var s []string
	for fr := t.top; fr != nil && len(s) < 30; fr = fr.caller {
		s = append(s, fr.f.name+" "+x.pos(fr))
	}
	return s
}

// call invokes a closure from frame fr (nil: thread root).
func (x *Exec) call(t *Thread, fr *Frame, cl *Closure, args []Value, dst int) ctl {
	return x.call2(t, fr, cl, args, dst, nil)
}

func (x *Exec) call2(t *Thread, fr *Frame, cl *Closure, args []Value, dst int, deferOf *Frame) ctl {
	for {
		if cl == nil {
			x.rtPanic(nilDeref)
		}
		if cl.bound != nil {
			v := cl.bound(x, t, args)
			if dst >= 0 {
				fr.regs[dst] = v
			}
			return cNext
		}
		if cl.bi != nil {
			return x.callBuiltin(t, fr, cl.bi, args, dst, deferOf)
		}
		cf := x.w.compiled(cl.fn)
		if x.stubs != nil {
			if s, ok := x.stubs[cf.name]; ok {
				cl = s
				cf = x.w.compiled(cl.fn)
			}
		}
		if cf.intr != nil {
			v, k, tail := cf.intr(x, t, fr, args)
			if k == cYield {
				return cYield
			}
			if tail != nil {
				cl, args = tail.fn, tail.args
				continue
			}
			if dst >= 0 {
				fr.regs[dst] = v
			}
			return cNext
		}
		if len(cf.blocks) == 0 {
			if x.tolerant {
				if dst >= 0 {
					fr.regs[dst] = cf.zeroRes()
				}
				return cNext
			}
			panic(engErr("no body for %s", cf.name))
		}
		if cl.fn.Synthetic == "package initializer" && fr != nil {
			return cNext // other packages initialise on demand
		}
		x.pushFrame(t, fr, cl, cf, args, dst, deferOf)
		return cNext
	}
}

func (x *Exec) pushFrame(t *Thread, fr *Frame, cl *Closure, cf *cfunc, args []Value, dst int, deferOf *Frame) *Frame {
	nf := &Frame{f: cf, caller: fr, dst: dst, deferOf: deferOf, b: cf.blocks[0]}
	nf.regs = make([]Value, cf.nreg)
	if len(args) != cf.nparams {
		panic(engErr("call of %s with %d args", cf.name, len(args)))
	}
	copy(nf.regs, args)
	copy(nf.regs[cf.nparams:], cl.env)
	if cf.isCtx && (fr == nil || !fr.f.isCtx) {
		t.ctxYielded = ctxSilent[cf.fn.Name()]
	}
	if cf.inScope && !x.tolerant {
		x.w.executed[cf.fn] = true
	}
	t.top = nf
	d := 0
	for f := nf; f != nil && d < 4000; f = f.caller {
		d++
		if d >= 3000 {
			x.violate("steps", "call stack deeper than 3000 frames in "+cf.name)
		}
		if d > 8 && x.steps%64 != 0 {
			break
		}
	}
	return nf
}

var ctxSilent = map[string]bool{"Done": true, "Value": true, "Deadline": true, "String": true, "WithCancel": true, "WithCancelCause": true, "WithValue": true, "Background": true, "TODO": true, "WithTimeout": true, "WithDeadline": true, "WithoutCancel": true}

func (x *Exec) doReturn(t *Thread, fr *Frame, v Value) ctl {
	t.top = fr.caller
	if fr.onRet != nil {
		fr.onRet(x, v)
	}
	if fr.caller == nil {
		t.done = true
		return cNext
	}
	if fr.dst >= 0 {
		fr.caller.regs[fr.dst] = v
	}
	return cNext
}

func (x *Exec) runDeferred(t *Thread, fr *Frame) ctl {
	d := fr.defers[len(fr.defers)-1]
	n := len(fr.defers)
	fr.defers = fr.defers[:n-1]
	k := x.call2(t, fr, d.fn, d.args, -1, fr)
	if k == cYield {
		fr.defers = append(fr.defers[:n-1], d)
	}
	return k
}

// unwindStep runs one step of a panicking (or recovering) frame.
func (x *Exec) unwindStep(t *Thread, fr *Frame) ctl {
	p := fr.panicking
	if p != nil && p.recovered {
		fr.panicking, fr.recovering = nil, true
		p = nil
	}
	if len(fr.defers) > 0 {
		return x.runDeferred(t, fr)
	}
	if fr.recovering {
		fr.recovering = false
		if fr.f.rec != nil {
			fr.b, fr.pc = fr.f.rec, 0
			return cNext
		}
		return x.doReturn(t, fr, fr.f.zeroRes())
	}
	t.top = fr.caller
	if fr.caller == nil {
		x.uncaught(t, p)
		return cNext
	}
	fr.caller.panicking = p
	fr.caller.recovering = false
	return cNext
}

func (x *Exec) uncaught(t *Thread, p *panicInfo) {
	if x.tolerant {
		panic(engErr("panic during initialisation: %s", x.describe(p.val, 0)))
	}
	v := &Violation{Kind: "panic", Msg: "panic: " + x.panicText(p.val), Stack: p.stack}
	x.report(v)
}

func (x *Exec) panicText(v Iface) string {
	if v.t == nil {
		return "nil"
	}
	switch s := v.v.(type) {
	case string, *SymStr:
		return x.concStr(s)
	case *Value:
		if s != nil {
			if st, ok := (*s).(Struct); ok && len(st) > 0 {
				if str, ok := st[0].(string); ok {
					return str
				}
			}
		}
	}
	return x.describe(v, 0)
}

func (x *Exec) doRecover(fr *Frame) Value {
	if p := fr.deferOf; p != nil && p.panicking != nil && !p.panicking.recovered {
		p.panicking.recovered = true
		return p.panicking.val
	}
	return Iface{}
}

// callBuiltin runs a builtin used as a function value (go/defer statements).
func (x *Exec) callBuiltin(t *Thread, fr *Frame, b *ssa.Builtin, args []Value, dst int, deferOf *Frame) ctl {
	switch b.Name() {
	case "close":
		if !x.closeChan(t, args[0]) {
			return cYield
		}
		return cNext
	case "delete":
		if m, _ := args[0].(*MapObj); m != nil {
			x.wr(&m.cell)
			x.mapDelete(m, args[1])
		}
		return cNext
	case "panic":
		x.goPanic(args[0].(Iface))
	case "print", "println":
		return cNext
	case "recover":
		if deferOf != nil && deferOf.panicking != nil {
			deferOf.panicking.recovered = true
		}
		return cNext
	case "copy":
		d := args[0].(Slice)
		if s, ok := args[1].(Slice); ok {
			copy(d, s)
			return cNext
		}
	}
	panic(engErr("deferred builtin %s", b.Name()))
}

// spawn creates a goroutine.
func (x *Exec) spawn(t *Thread, fn *Closure, args []Value, at ssa.Instruction) *Thread {
	n := &Thread{id: len(x.threads), startFn: fn, startArgs: args, enabled: alwaysEnabled, desc: "start", born: at}
	if len(x.threads) >= x.h.maxThreads {
		x.violate("steps", fmt.Sprintf("more than %d goroutines", x.h.maxThreads))
	}
	x.threads = append(x.threads, n)
	x.racing = x.h.race && !x.tolerant
	if t != nil {
		t.vc = t.vc.inc(t.id)
		n.vc = t.vc.clone()
		t.vc = t.vc.inc(t.id)
	}
	n.vc = n.vc.inc(n.id)
	return n
}

func alwaysEnabled() bool { return true }

func (x *Exec) liveThreads() int {
	n := 0
	for _, t := range x.threads {
		if !t.done {
			n++
		}
	}
	return n
}

// visible is called by operations other goroutines can observe. It returns true when
// the operation may be performed now; otherwise the instruction is retried later.
func (x *Exec) visible(t *Thread, enabled func() bool, desc string) bool {
	if t.granted {
		t.granted = false
		if enabled() {
			x.mark(t)
			return true
		}
	}
	if x.quiet(t) && enabled() {
		x.mark(t)
		return true
	}
	if x.tolerant {
		panic(engErr("blocking operation during initialisation: %s", desc))
	}
	t.enabled, t.desc = enabled, desc
	return false
}

// quiet: no scheduling decision is needed here.
func (x *Exec) quiet(t *Thread) bool {
	if x.tolerant || x.atomic > 0 {
		return true
	}
	if len(x.threads) == 1 {
		return true
	}
	if t.top != nil && t.top.f.isCtx && t.ctxYielded {
		return true
	}
	return x.liveThreads() == 1
}

func (x *Exec) mark(t *Thread) {
	if t.top != nil && t.top.f.isCtx {
		t.ctxYielded = true
	}
	x.w.stats.visible++
	if x.trace != nil && t.top != nil && !x.tolerant {
		d := t.desc
		*x.trace = append(*x.trace, fmt.Sprintf("g%d %s at %s %s", t.id, d, t.top.f.name, x.pos(t.top)))
	}
}

// runThread executes t until it yields or ends.
func (x *Exec) runThread(t *Thread) {
	x.cur = t
	for !x.runLoop(t) {
	}
}

// runLoop returns false when it must be re-entered (a Go panic was raised).
func (x *Exec) runLoop(t *Thread) (ret bool) {
	defer func() {
		if r := recover(); r != nil {
			tp, ok := r.(*targetPanic)
			if !ok {
				if re, ok := r.(error); ok {
					if _, isEng := r.(*EngineError); !isEng && t.top != nil {
						panic(fmt.Sprintf("%v\n  in %s", re, strings.Join(x.stack(t), "\n     ")))
					}
				}
				if ee, ok := r.(*EngineError); ok && t.top != nil && !strings.Contains(ee.msg, "\n") {
					ee.msg += "\n  at " + strings.Join(x.stack(t), "\n     ")
				}
				panic(r)
			}
			p := &panicInfo{val: tp.v, stack: x.stack(t)}
			if t.top == nil {
				t.done = true
				x.uncaught(t, p)
				ret = true
				return
			}
			t.top.panicking = p
			ret = false
		}
	}()
	if !t.started {
		t.started = true
		t.granted = false
		fn, args := t.startFn, t.startArgs
		if x.call(t, nil, fn, args, -1) == cYield {
			t.started = false
			return true
		}
		if t.top == nil {
			t.done = true
			return true
		}
	}
	limit := x.h.maxSteps
	for {
		fr := t.top
		if fr == nil {
			t.done = true
			return true
		}
		x.steps++
		if x.steps > limit {
			if x.tolerant {
				panic(engErr("initialisation too long in %s", fr.f.name))
			}
			x.violate("steps", fmt.Sprintf("not finished within %d steps (in %s %s)", limit, fr.f.name, x.pos(fr)))
		}
		if fr.panicking != nil || fr.recovering {
			if x.unwindStep(t, fr) == cYield {
				return true
			}
			continue
		}
		in := fr.b.ins[fr.pc]
		fr.pc++
		if in(x, t, fr) == cYield {
			fr.pc--
			return true
		}
	}
}

// globalPtr returns the cell of a global variable.
func (x *Exec) globalPtr(g *ssa.Global) *Value {
	if p, ok := x.globals[g]; ok {
		return p
	}
	if p, ok := x.w.shared[g]; ok {
		return p
	}
	pk := g.Pkg
	T := g.Type().Underlying().(*types.Pointer).Elem()
	p := new(Value)
	*p = x.w.zero(T)
	if x.w.eng.isFresh(pk) {
		x.globals[g] = p
		return p
	}
	x.w.ensureInit(pk)
	if q, ok := x.w.shared[g]; ok {
		return q
	}
	x.w.shared[g] = p
	return p
}

// ensureInit runs the initialiser of a package shared by all paths of the worker.
func (w *Worker) ensureInit(pk *ssa.Package) {
	if w.inited[pk] {
		return
	}
	w.inited[pk] = true
	for _, m := range pk.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := w.shared[g]; !ok {
				p := new(Value)
				*p = w.zero(g.Type().Underlying().(*types.Pointer).Elem())
				w.shared[g] = p
			}
		}
	}
	if skipInit[pk.Pkg.Path()] {
		return
	}
	w.runInit(pk, nil)
}

var skipInit = map[string]bool{"runtime": true, "internal/cpu": true, "internal/godebug": true, "os": true, "syscall": true, "internal/poll": true, "reflect": true, "golang.org/x/sys/cpu": true, "golang.org/x/sys/unix": true, "internal/godebugs": true, "crypto/internal/fips140deps/godebug": true}

// runInit executes a package initialiser in tolerant mode.
func (w *Worker) runInit(pk *ssa.Package, host *Exec) {
	fn := pk.Func("init")
	if fn == nil {
		return
	}
	x := host
	var saveTh []*Thread
	var saveCur *Thread
	var saveTol bool
	saveSteps := 0
	saveRacing := false
	if x == nil {
		x = newExec(w, w.eng.initHarness, nil)
	} else {
		saveTh, saveCur, saveTol, saveSteps, saveRacing = x.threads, x.cur, x.tolerant, x.steps, x.racing
	}
	x.tolerant = true
	x.racing = false
	t := &Thread{startFn: &Closure{fn: fn}, enabled: alwaysEnabled}
	x.threads = []*Thread{t}
	x.steps = 0
	x.runThread(t)
	if host != nil {
		x.threads, x.cur, x.tolerant, x.steps, x.racing = saveTh, saveCur, saveTol, saveSteps, saveRacing
	}
	if !t.done {
		panic(engErr("initialiser of %s did not finish", pk.Pkg.Path()))
	}
}
