package main

import (
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type decision struct {
	K uint8  `json:"k"` // 0 branch, 1 equal, 2 not equal, 3 choice
	V uint64 `json:"v"`
}

// dnode is a decision prefix (shared, newest first).
type dnode struct {
	parent *dnode
	d      decision
	depth  int
}

func (n *dnode) list() []decision {
	if n == nil {
		return nil
	}
	r := make([]decision, n.depth)
	for m := n; m != nil; m = m.parent {
		r[m.depth-1] = m.d
	}
	return r
}

func (n *dnode) add(d decision) *dnode {
	dep := 1
	if n != nil {
		dep = n.depth + 1
	}
	return &dnode{n, d, dep}
}

type job struct {
	node  *dnode
	model Model
	tn    *tnode // where the tree continues
	te    int
}

// Harness is one harness function with its bounds.
type Harness struct {
	name       string
	fn         *ssa.Function
	pkg        *ssa.Package
	delays     int
	selCost    bool // choosing other than the first ready select case costs a delay
	race       bool
	maxSteps   int
	maxThreads int
	maxAlloc   int
	maxTicks   int
	maxPaths   int
	budget     time.Duration
	opts       map[string]string
	labels     []string
	fresh      []*ssa.Package
}

// Stats counts what one worker did.
type Stats struct {
	queries, sat, unsat, unknown int
	solverTime                   time.Duration
	paths, pruned, bound         int
	steps                        int64
	decisions                    int
	asserts, assertsSolved       int
	assertsConst                 int
	visible                      int
	cacheHits                    int
	forks                        int
	maxDepth                     int
	maxThreads                   int
	vcs, vcNodes, vcCases        int
	vcTime                       time.Duration
}

func (s *Stats) addQuery(r string, d time.Duration) {
	s.queries++
	s.solverTime += d
	switch r {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	default:
		s.unknown++
	}
}

func (s *Stats) add(o *Stats) {
	s.queries += o.queries
	s.sat += o.sat
	s.unsat += o.unsat
	s.unknown += o.unknown
	s.solverTime += o.solverTime
	s.paths += o.paths
	s.pruned += o.pruned
	s.bound += o.bound
	s.steps += o.steps
	s.decisions += o.decisions
	s.asserts += o.asserts
	s.assertsSolved += o.assertsSolved
	s.assertsConst += o.assertsConst
	s.visible += o.visible
	s.cacheHits += o.cacheHits
	s.forks += o.forks
	s.maxDepth = max(s.maxDepth, o.maxDepth)
	s.maxThreads = max(s.maxThreads, o.maxThreads)
	s.vcs += o.vcs
	s.vcNodes += o.vcNodes
	s.vcCases += o.vcCases
	s.vcTime += o.vcTime
}

// Sample is a completed path kept for native replay.
type Sample struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Obs     []string          `json:"obs"`
	Reached []string          `json:"reached"`
	Threads int               `json:"threads"`
	Decs    []decision        `json:"-"`
}

// Worker executes paths.
type Worker struct {
	id       int
	eng      *Engine
	c        *TermCtx
	solver   *Solver
	stats    *Stats
	funcs    map[*ssa.Function]*cfunc
	zeros    map[any]func() Value
	impl     map[implKey]bool
	shared   map[*ssa.Global]*Value
	inited   map[*ssa.Package]bool
	executed map[*ssa.Function]bool
	cache    map[uint64]cacheEnt
	ex       *Exploration
	rng      *rand.Rand

	certSolver *Solver
}

type cacheEnt struct {
	key  string
	sat  bool
	vars []int32
	vals []uint64
}

func newWorker(eng *Engine, id int) *Worker {
	w := &Worker{id: id, eng: eng, stats: &Stats{}, executed: map[*ssa.Function]bool{}, rng: rand.New(rand.NewSource(int64(eng.seed)*1000 + int64(id)))}
	w.reset()
	return w
}

func (w *Worker) reset() {
	if w.solver != nil {
		w.solver.Close()
	}
	w.c = NewTermCtx()
	w.solver = nil
	w.funcs = map[*ssa.Function]*cfunc{}
	w.zeros = map[any]func() Value{}
	w.impl = map[implKey]bool{}
	w.shared = map[*ssa.Global]*Value{}
	w.inited = map[*ssa.Package]bool{}
	w.cache = map[uint64]cacheEnt{}
}

func (w *Worker) getSolver() *Solver {
	if w.solver == nil {
		w.solver = NewSolver(w.c, w.stats, w.eng.solverKind, w.eng.queryTimeout)
	}
	return w.solver
}

// secondOpinion asks a different solver when the first one gives up. Both share the
// emission marks of the terms, so each gets a fresh process.
func (w *Worker) secondOpinion(conj []*Term, vars []int32) (string, []uint64) {
	kind := "cvc5"
	if w.eng.solverKind == "cvc5" {
		kind = "z3"
	}
	alt := NewSolver(w.c, w.stats, kind, w.eng.queryTimeout)
	r, vals := alt.Check(conj, vars)
	alt.Close()
	w.getSolver().restart()
	return r, vals
}

// Exploration is the shared state of exploring one harness.
type Exploration struct {
	mu         sync.Mutex
	cond       *sync.Cond
	eng        *Engine
	h          *Harness
	work       []job
	busy       int
	stop       bool
	violations []*Violation
	knownHits  map[string]*Violation
	engErrs    map[string]int
	reached    map[string]int
	samples    []*Sample
	nSamples   int
	incomplete string
	deadline   time.Time
	paths      int
	cert       *certTree
}

func newExec(w *Worker, h *Harness, j *job) *Exec {
	x := &Exec{w: w, c: w.c, h: h, job: j}
	x.counter = map[string]int{}
	x.reached = map[string]bool{}
	x.globals = map[*ssa.Global]*Value{}
	x.pools = map[*Value][]Value{}
	x.meta = map[*Value]*accMeta{}
	x.syncVC = map[any]VC{}
	x.mutexes = map[*Value]*mutexState{}
	x.pcSet = map[*Term]bool{}
	x.ids = map[any]any{}
	x.delays = h.delays
	if j != nil {
		x.prefix = j.node.list()
		x.model = j.model
		x.tn, x.te = j.tn, j.te
	}
	return x
}

func (x *Exec) newVar(name string, w uint8) *Term {
	t := x.c.Var(name, w)
	i := int(t.val)
	for len(x.vals) <= i {
		x.vals = append(x.vals, 0)
	}
	x.vals[i] = x.model[name] & maskB(w)
	return t
}

func (x *Exec) addPC(t *Term) {
	if t == x.c.T || x.pcSet[t] {
		return
	}
	if t.k == KAnd {
		x.addPC(t.a)
		x.addPC(t.b)
		return
	}
	x.pcSet[t] = true
	x.pc = append(x.pc, t)
}

func (x *Exec) record(d decision) {
	x.node = x.node.add(d)
	x.w.stats.decisions++
}

func (x *Exec) nextPrefix() (decision, bool) {
	if x.dpos < len(x.prefix) {
		d := x.prefix[x.dpos]
		x.dpos++
		x.node = x.node.add(d)
		return d, true
	}
	return decision{}, false
}

// decide forks on a condition.
func (x *Exec) decide(cond *Term) bool {
	if cond.k == KConst {
		return cond.val != 0
	}
	if x.pcSet[cond] {
		return true
	}
	neg := x.c.Not(cond)
	if x.pcSet[neg] {
		return false
	}
	if x.tolerant && x.job == nil {
		panic(engErr("symbolic branch during initialisation"))
	}
	if d, ok := x.nextPrefix(); ok {
		if d.K != 0 {
			panic(engErr("replay divergence: branch vs %d", d.K))
		}
		if d.V != 0 {
			x.addPC(cond)
			return true
		}
		x.addPC(neg)
		return false
	}
	side := x.c.Eval(cond, x.vals) != 0
	me, other := cond, neg
	var dm, do uint64 = 1, 0
	if !side {
		me, other = neg, cond
		dm, do = 0, 1
	}
	site := x.site(nBranch, cond, "", 2)
	m, r := x.feasible(other)
	x.alternative(site, int(do), decision{0, do}, m, r)
	x.follow(site, int(dm))
	x.record(decision{0, dm})
	x.addPC(me)
	return side
}

// concretize forks over the values of a term.
func (x *Exec) concretize(t *Term) uint64 {
	if t.k == KConst {
		return t.val
	}
	n := 0
	for {
		if d, ok := x.nextPrefix(); ok {
			e := x.c.Eq(t, x.c.Const(t.w, d.V))
			switch d.K {
			case 1:
				x.addPC(e)
				return d.V
			case 2:
				x.addPC(x.c.Not(e))
				n++
				continue
			}
			panic(engErr("replay divergence: concretize vs %d", d.K))
		}
		v := x.c.Eval(t, x.vals)
		e := x.c.Eq(t, x.c.Const(t.w, v))
		if n > 4096 {
			x.outOfBound("more than 4096 values of a concretized term")
		}
		site := x.site(nBranch, e, "", 2)
		m, r := x.feasible(x.c.Not(e))
		x.alternative(site, 0, decision{2, v}, m, r)
		x.follow(site, 1)
		x.record(decision{1, v})
		x.addPC(e)
		return v
	}
}

// choose makes an n-way choice; it is recorded as a symbolic variable.
func (x *Exec) choose(n int, label string) int {
	if n <= 1 {
		return 0
	}
	if x.tolerant && x.job == nil {
		return 0
	}
	v := x.fresh(label, 16)
	idx := int(v.val)
	if d, ok := x.nextPrefix(); ok {
		if d.K != 3 {
			panic(engErr("replay divergence: choice %s vs %d", label, d.K))
		}
		x.vals[idx] = d.V
		x.addPC(x.c.Eq(v, x.c.Const(16, d.V)))
		if int(d.V) >= n {
			panic(engErr("replay divergence: choice %d of %d", d.V, n))
		}
		return int(d.V)
	}
	if x.w.ex != nil {
		site := x.site(nChoice, nil, x.inputs[len(x.inputs)-1].name, n)
		for i := n - 1; i >= 1; i-- {
			x.push(decision{3, uint64(i)}, nil, site, i)
		}
		x.follow(site, 0)
	}
	x.record(decision{3, 0})
	x.vals[idx] = 0
	x.addPC(x.c.Eq(v, x.c.Const(16, 0)))
	return 0
}

func (x *Exec) push(d decision, m []varVal, site *tnode, edge int) {
	model := x.currentModel(m)
	x.w.stats.forks++
	x.w.ex.push(job{x.node.add(d), model, site, edge})
}

// alternative schedules the other side of a two-way decision, or notes its infeasibility.
func (x *Exec) alternative(site *tnode, edge int, d decision, m []varVal, r string) {
	if r == "sat" {
		x.push(d, m, site, edge)
		return
	}
	x.w.closeEdge(x.w.ex, site, edge, eNone)
}

// follow continues this path below an edge of a new site.
func (x *Exec) follow(site *tnode, edge int) {
	if site != nil {
		x.tn, x.te = site, edge
	}
}

type varVal struct {
	v   int32
	val uint64
}

// currentModel is the current assignment updated with m.
func (x *Exec) currentModel(m []varVal) Model {
	r := make(Model, len(x.inputs)+len(m))
	for _, in := range x.inputs {
		if v := x.vals[in.t.val]; v != 0 {
			r[in.name] = v
		}
	}
	for _, e := range m {
		r[x.c.varName[e.v]] = e.val
	}
	return r
}

func (x *Exec) setModel(m []varVal) {
	for _, e := range m {
		for len(x.vals) <= int(e.v) {
			x.vals = append(x.vals, 0)
		}
		x.vals[e.v] = e.val
	}
}

// slice returns the path-condition conjuncts connected to t.
func (x *Exec) slice(t *Term) ([]*Term, []int32) {
	vars := x.c.Vars(t)
	in := make([]bool, len(x.pc))
	var out []*Term
	for changed := true; changed; {
		changed = false
		for i, p := range x.pc {
			if in[i] {
				continue
			}
			pv := x.c.Vars(p)
			if intersects(pv, vars) {
				in[i] = true
				out = append(out, p)
				n := mergeVars(vars, pv)
				if len(n) != len(vars) {
					changed = true
				}
				vars = n
			}
		}
	}
	return out, vars
}

func intersects(a, b []int32) bool {
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] < b[j]:
			i++
		case a[i] > b[j]:
			j++
		default:
			return true
		}
	}
	return false
}

// feasible decides pc ∧ t.
func (x *Exec) feasible(t *Term) ([]varVal, string) {
	if t == x.c.F {
		return nil, "unsat"
	}
	conj, vars := x.slice(t)
	conj = append(conj, t)
	ids := make([]int, len(conj))
	for i, c := range conj {
		ids[i] = int(c.id)
	}
	sort.Ints(ids)
	hh := fnv.New64a()
	var sb strings.Builder
	for _, i := range ids {
		fmt.Fprintf(&sb, "%d,", i)
	}
	key := sb.String()
	hh.Write([]byte(key))
	hk := hh.Sum64()
	if e, ok := x.w.cache[hk]; ok && e.key == key {
		x.w.stats.cacheHits++
		if !e.sat {
			return nil, "unsat"
		}
		return mkVV(e.vars, e.vals), "sat"
	}
	r, vals := x.w.getSolver().Check(conj, vars)
	if r == "unknown" {
		// a second opinion from a different solver
		r, vals = x.w.secondOpinion(conj, vars)
	}
	if r == "unknown" {
		x.w.ex.noteIncomplete("solver returned unknown")
		return nil, r
	}
	if len(x.w.cache) > 400000 {
		x.w.cache = map[uint64]cacheEnt{}
	}
	x.w.cache[hk] = cacheEnt{key, r == "sat", vars, vals}
	if r == "sat" {
		return mkVV(vars, vals), r
	}
	return nil, r
}

func mkVV(vars []int32, vals []uint64) []varVal {
	m := make([]varVal, len(vars))
	for i := range vars {
		m[i] = varVal{vars[i], vals[i]}
	}
	return m
}

// assume restricts the path to executions satisfying t.
func (x *Exec) assume(t *Term) {
	if t == x.c.T {
		return
	}
	if t == x.c.F {
		panic(&pathEnd{"assume", "assumption false"})
	}
	if x.dpos < len(x.prefix) {
		x.addPC(t)
		return
	}
	if x.c.Eval(t, x.vals) == 0 {
		m, r := x.feasible(t)
		if r != "sat" {
			x.follow(x.site(nAssume, t, "", 1), 0)
			panic(&pathEnd{"unsat", "assumption unsatisfiable"})
		}
		x.setModel(m)
	}
	if !x.pcSet[t] {
		x.follow(x.site(nAssume, t, "", 1), 0)
	}
	x.addPC(t)
}

// assert checks that t holds on every execution of this path.
func (x *Exec) assert(th *Thread, t *Term, msg string) {
	st := x.w.stats
	if t == x.c.T || x.pcSet[t] {
		st.asserts++
		st.assertsConst++
		return
	}
	if x.dpos < len(x.prefix) && t != x.c.F {
		x.pcSet[t] = true // decided when the prefix was first explored
		return
	}
	st.asserts++
	if t == x.c.F {
		x.report(&Violation{Kind: "assert", Msg: msg, Stack: x.stack(th)})
		return
	}
	m, r := x.feasible(x.c.Not(t))
	st.assertsSolved++
	if r == "sat" {
		x.setModel(m)
		x.report(&Violation{Kind: "assert", Msg: msg, Stack: x.stack(th)})
		return
	}
	if r == "unknown" {
		return
	}
	x.follow(x.site(nAssert, t, "", 1), 0)
	x.pcSet[t] = true // implied by the path condition
}

func (x *Exec) violate(kind, msg string) {
	var s []string
	if x.cur != nil {
		s = x.stack(x.cur)
	}
	x.report(&Violation{Kind: kind, Msg: msg, Stack: s})
}

// report ends the path with a violation.
func (x *Exec) report(v *Violation) {
	v.Harness = x.h.name
	v.Inputs = map[string]uint64{}
	for _, in := range x.inputs {
		v.Inputs[in.name] = x.vals[in.t.val]
	}
	v.Threads = len(x.threads)
	v.Decs = x.node.list()
	if x.trace != nil {
		v.Trace = append(v.Trace, *x.trace...)
	}
	panic(v)
}

// run executes one path from the start; the returned value says how it ended.
func (x *Exec) run() (end any) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case *pathEnd:
				end = r
			case *Violation:
				end = r
			case *EngineError:
				end = r
			default:
				end = engErr("internal error: %v\n%s", r, debug.Stack())
			}
		}
	}()
	for _, p := range x.h.fresh {
		x.w.runInit(p, x)
	}
	x.tolerant = false
	main := &Thread{startFn: &Closure{fn: x.h.fn}, enabled: alwaysEnabled, desc: "start"}
	main.vc = VC{1}
	x.threads = []*Thread{main}
	x.steps = 0
	x.schedule(main)
	return nil
}

func (e *Exploration) push(j job) {
	e.mu.Lock()
	e.work = append(e.work, j)
	e.mu.Unlock()
	e.cond.Signal()
}

func (e *Exploration) noteIncomplete(s string) {
	e.mu.Lock()
	if e.incomplete == "" {
		e.incomplete = s
	}
	e.mu.Unlock()
}

func (e *Exploration) next() (job, bool) {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.stop {
			return job{}, false
		}
		if len(e.work) > 0 {
			if time.Now().After(e.deadline) {
				e.incomplete = fmt.Sprintf("time budget exhausted (%d prefixes left)", len(e.work))
				e.stop = true
				e.cond.Broadcast()
				return job{}, false
			}
			if e.h.maxPaths > 0 && e.paths >= e.h.maxPaths {
				e.incomplete = fmt.Sprintf("path budget exhausted (%d prefixes left)", len(e.work))
				e.stop = true
				e.cond.Broadcast()
				return job{}, false
			}
			j := e.work[len(e.work)-1]
			e.work = e.work[:len(e.work)-1]
			e.busy++
			e.paths++
			return j, true
		}
		if e.busy == 0 {
			e.stop = true
			e.cond.Broadcast()
			return job{}, false
		}
		e.cond.Wait()
	}
}

func (e *Exploration) doneJob() {
	e.mu.Lock()
	e.busy--
	if e.busy == 0 && len(e.work) == 0 {
		e.cond.Broadcast()
	}
	e.mu.Unlock()
}

func (w *Worker) explore(e *Exploration) {
	w.ex = e
	defer func() {
		w.ex = nil
		if w.solver != nil {
			w.solver.Close()
			w.solver = nil
			w.reset()
		}
		if w.certSolver != nil {
			w.certSolver.Close()
			w.certSolver = nil
		}
	}()
	for {
		j, ok := e.next()
		if !ok {
			return
		}
		x := newExec(w, e.h, &j)
		end := x.run()
		w.finish(e, x, end)
		w.closeEdge(e, x.tn, x.te, edgeEnd(end))
		e.doneJob()
		if len(w.c.tab) > 3000000 {
			w.reset()
		}
	}
}

// edgeEnd is what the end of a path means for the verification conditions.
func edgeEnd(end any) edgeState {
	switch end := end.(type) {
	case nil:
		return eOK
	case *pathEnd:
		if end.kind == "unsat" {
			return eNone
		}
		if end.kind == "bound" {
			return eBad
		}
		return eOK // outside the assumptions
	}
	return eBad
}

func (w *Worker) finish(e *Exploration, x *Exec, end any) {
	st := w.stats
	st.steps += int64(x.steps)
	if x.node != nil {
		st.maxDepth = max(st.maxDepth, x.node.depth)
	}
	st.maxThreads = max(st.maxThreads, len(x.threads))
	switch end := end.(type) {
	case nil:
		st.paths++
		e.mu.Lock()
		for l := range x.reached {
			e.reached[l]++
		}
		e.nSamples++
		keep := -1
		if len(e.samples) < e.eng.maxSamples {
			keep = len(e.samples)
			e.samples = append(e.samples, nil)
		} else if k := w.rng.Intn(e.nSamples); k < e.eng.maxSamples {
			keep = k
		}
		if keep >= 0 {
			s := &Sample{Harness: e.h.name, Inputs: map[string]uint64{}, Threads: len(x.threads)}
			for _, in := range x.inputs {
				if v := x.vals[in.t.val]; v != 0 {
					s.Inputs[in.name] = v
				}
			}
			for i, o := range x.obs {
				s.Obs = append(s.Obs, fmt.Sprintf("%s=%d", o, x.c.Eval(x.obsV[i], x.vals)))
			}
			for l := range x.reached {
				s.Reached = append(s.Reached, l)
			}
			sort.Strings(s.Reached)
			e.samples[keep] = s
		}
		e.mu.Unlock()
	case *pathEnd:
		if end.kind == "bound" {
			st.bound++
			e.mu.Lock()
			e.engErrs["outside the bound: "+end.msg]++
			e.mu.Unlock()
		} else {
			st.pruned++
		}
	case *Violation:
		st.paths++
		e.mu.Lock()
		// reached labels count as witnesses on failing paths too
		for l := range x.reached {
			e.reached[l]++
		}
		if id := e.eng.knownID(end); id != "" {
			if e.knownHits[id] == nil {
				e.knownHits[id] = end
			}
		} else {
			dup := false
			for _, v := range e.violations {
				if v.Msg == end.Msg {
					dup = true
				}
			}
			if !dup || len(e.violations) < 4 {
				e.violations = append(e.violations, end)
			}
			if len(e.violations) >= e.eng.maxViolations {
				e.stop = true
				e.cond.Broadcast()
			}
		}
		e.mu.Unlock()
	case *EngineError:
		e.mu.Lock()
		e.engErrs[end.msg]++
		n := 0
		for _, c := range e.engErrs {
			n += c
		}
		if n > 2000 {
			e.incomplete = "too many unsupported paths"
			e.stop = true
			e.cond.Broadcast()
		}
		e.mu.Unlock()
	}
}

// Explore runs a harness to completion or to its budget.
func (eng *Engine) Explore(h *Harness, workers []*Worker) *Exploration {
	e := &Exploration{eng: eng, h: h, knownHits: map[string]*Violation{}, engErrs: map[string]int{}, reached: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	e.deadline = time.Now().Add(h.budget)
	if eng.hardDeadline.Before(e.deadline) {
		e.deadline = eng.hardDeadline
	}
	e.cert = newCertTree(4000)
	e.work = []job{{tn: e.cert.root}}
	var wg sync.WaitGroup
	for _, w := range workers {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.explore(e)
		}()
	}
	wg.Wait()
	return e
}

// replay re-executes the path of a violation with tracing.
func (eng *Engine) replay(w *Worker, h *Harness, v *Violation) (*Violation, any) {
	var n *dnode
	for _, d := range v.Decs {
		n = n.add(d)
	}
	m := Model{}
	for k, val := range v.Inputs {
		m[k] = val
	}
	e := &Exploration{eng: eng, h: h, knownHits: map[string]*Violation{}, engErrs: map[string]int{}, reached: map[string]int{}}
	e.cond = sync.NewCond(&e.mu)
	w.ex = e
	defer func() { w.ex = nil }()
	x := newExec(w, h, &job{node: n, model: m})
	var tr []string
	x.trace = &tr
	end := x.run()
	if r, ok := end.(*Violation); ok {
		return r, nil
	}
	return nil, end
}

var _ = os.Stderr
var _ = runtime.NumCPU
