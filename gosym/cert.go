package main

import (
	"fmt"
	"io"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// The decision tree of a harness is turned into verification conditions that the solver
// discharges: for a subtree rooted at a decision site, under the path condition of that
// site, "some value of the inputs, choices and schedule variables takes an execution to a
// failed assertion, or to a case that was not executed" must be unsatisfiable. A
// discharged subtree counts as verified in the condition of the tree above it, so the
// conditions of one harness together cover its whole input and schedule space.

type nodeKind uint8

const (
	nRoot   nodeKind = iota
	nBranch          // ite(t, ch[1], ch[0])
	nChoice          // variable name < n, value i -> ch[i]
	nAssume          // t assumed -> ch[0]
	nAssert          // t asserted -> ch[0]
)

type edgeState uint8

const (
	eOpen       edgeState = iota
	eNode                 // a decision follows
	eOK                   // executed to the end, every assertion held
	eBad                  // executed, violated
	eNone                 // claimed infeasible, never executed
	eDischarged           // verified by an earlier condition
)

type tedge struct {
	st edgeState
	n  *tnode
}

type tnode struct {
	parent *tnode
	pedge  int32
	kind   nodeKind
	open   int32
	leaves int32
	t      *Term
	c      *TermCtx
	name   string
	ch     []tedge
}

// certTree is the tree of one exploration.
type certTree struct {
	mu    sync.Mutex
	root  *tnode
	limit int32
}

func newCertTree(limit int) *certTree {
	return &certTree{root: &tnode{kind: nRoot, open: 1, ch: make([]tedge, 1)}, limit: int32(limit)}
}

// site adds a decision below the current position of x.
func (x *Exec) site(kind nodeKind, t *Term, name string, n int) *tnode {
	if x.tn == nil {
		return nil
	}
	nn := &tnode{parent: x.tn, pedge: int32(x.te), kind: kind, t: t, c: x.c, name: name, ch: make([]tedge, n), open: int32(n)}
	e := x.w.ex
	e.cert.mu.Lock()
	x.tn.ch[x.te] = tedge{eNode, nn}
	e.cert.mu.Unlock()
	return nn
}

// closeEdge records how an edge ended and discharges the subtrees that became complete.
func (w *Worker) closeEdge(e *Exploration, n *tnode, edge int, st edgeState) {
	if n == nil {
		return
	}
	ct := e.cert
	ct.mu.Lock()
	n.ch[edge] = tedge{st, nil}
	n.open--
	n.leaves++
	if n.kind == nBranch {
		n.leaves += 30 // conditions over data make larger queries costly
	}
	for n.open == 0 {
		p := n.parent
		if p == nil || n.leaves >= ct.limit {
			// nobody else touches a complete subtree
			ct.mu.Unlock()
			w.discharge(e, n)
			if p == nil {
				return
			}
			ct.mu.Lock()
			p.ch[n.pedge] = tedge{eDischarged, nil}
			p.leaves++
		} else {
			p.leaves += n.leaves
		}
		p.open--
		n = p
	}
	ct.mu.Unlock()
}

type certEmit struct {
	sb    strings.Builder
	names map[string]string
	terms map[*Term]string
	ndef  int
	nodes int
	cases int
	bad   bool
}

func (ce *certEmit) variable(name string, w uint8) string {
	key := fmt.Sprintf("%s|%d", name, w)
	if s, ok := ce.names[key]; ok {
		return s
	}
	s := fmt.Sprintf("x%d", len(ce.names))
	ce.names[key] = s
	fmt.Fprintf(&ce.sb, "(declare-const %s %s) ; %s\n", s, sortName(w), strings.ReplaceAll(name, "\n", " "))
	return s
}

// term emits a term of a worker's context; terms are immutable once made.
func (ce *certEmit) term(c *TermCtx, t *Term) string {
	if t.k == KConst {
		return c.ref(t)
	}
	if s, ok := ce.terms[t]; ok {
		return s
	}
	var s string
	if t.k == KVar {
		s = ce.variable(c.nameOf(t), t.w)
	} else {
		var args []string
		for _, a := range []*Term{t.a, t.b, t.c} {
			if a != nil {
				args = append(args, ce.term(c, a))
			}
		}
		ce.ndef++
		s = fmt.Sprintf("t%d", ce.ndef)
		var op string
		switch t.k {
		case KZExt:
			op = fmt.Sprintf("(_ zero_extend %d)", t.w-t.a.w)
		case KSExt:
			op = fmt.Sprintf("(_ sign_extend %d)", t.w-t.a.w)
		case KExtract:
			op = fmt.Sprintf("(_ extract %d %d)", t.val+uint64(t.w)-1, t.val)
		default:
			op = kindSMT[t.k]
		}
		fmt.Fprintf(&ce.sb, "(define-fun %s () %s (%s %s))\n", s, sortName(t.w), op, strings.Join(args, " "))
	}
	ce.terms[t] = s
	return s
}

func (ce *certEmit) edge(e tedge) string {
	switch e.st {
	case eNode:
		return ce.node(e.n)
	case eOK, eDischarged:
		ce.cases++
		return "false"
	case eBad:
		ce.cases++
		ce.bad = true
		return "true"
	}
	return "true" // not executed: must be unreachable
}

// node emits "an execution below n goes wrong or is uncovered".
func (ce *certEmit) node(n *tnode) string {
	ce.nodes++
	var body string
	switch n.kind {
	case nRoot:
		return ce.edge(n.ch[0])
	case nBranch:
		f, t := ce.edge(n.ch[0]), ce.edge(n.ch[1])
		body = fmt.Sprintf("(ite %s %s %s)", ce.term(n.c, n.t), t, f)
	case nChoice:
		x := ce.variable(n.name, 16)
		parts := make([]string, len(n.ch))
		for i := range n.ch {
			parts[i] = ce.edge(n.ch[i])
		}
		var sb strings.Builder
		fmt.Fprintf(&sb, "(and (bvult %s #x%04x) (or", x, len(n.ch))
		for i, p := range parts {
			fmt.Fprintf(&sb, " (and (= %s #x%04x) %s)", x, i, p)
		}
		sb.WriteString(" (not (or")
		for i := range parts {
			fmt.Fprintf(&sb, " (= %s #x%04x)", x, i)
		}
		sb.WriteString("))))")
		body = sb.String()
	case nAssume:
		b := ce.edge(n.ch[0])
		body = fmt.Sprintf("(and %s %s)", ce.term(n.c, n.t), b)
	case nAssert:
		b := ce.edge(n.ch[0])
		body = fmt.Sprintf("(or (not %s) %s)", ce.term(n.c, n.t), b)
	}
	ce.ndef++
	s := fmt.Sprintf("n%d", ce.ndef)
	fmt.Fprintf(&ce.sb, "(define-fun %s () Bool %s)\n", s, body)
	return s
}

// discharge asks the solver for the verdict on a complete subtree.
func (w *Worker) discharge(e *Exploration, n *tnode) {
	if e.stopped() {
		return
	}
	ce := &certEmit{names: map[string]string{}, terms: map[*Term]string{}}
	bad := ce.node(n)
	if ce.bad {
		return // a violation is reported by its own path
	}
	var path []string
	for c := n; c.parent != nil; c = c.parent {
		p, i := c.parent, int(c.pedge)
		switch p.kind {
		case nBranch:
			t := ce.term(p.c, p.t)
			if i == 0 {
				t = "(not " + t + ")"
			}
			path = append(path, t)
		case nChoice:
			path = append(path, fmt.Sprintf("(= %s #x%04x)", ce.variable(p.name, 16), i))
		case nAssume, nAssert:
			path = append(path, ce.term(p.c, p.t))
		}
	}
	for _, p := range path {
		fmt.Fprintf(&ce.sb, "(assert %s)\n", p)
	}
	fmt.Fprintf(&ce.sb, "(assert %s)\n(check-sat)\n", bad)
	t0 := time.Now()
	r, err := w.certCheck(ce.sb.String())
	d := time.Since(t0)
	st := w.stats
	st.vcs++
	st.vcNodes += ce.nodes
	st.vcCases += ce.cases
	st.vcTime += d
	st.addQuery(r, d)
	if r != "unsat" {
		msg := "verification condition of a subtree: solver said " + r
		if err != nil {
			msg += " (" + err.Error() + ")"
		}
		e.noteIncomplete(msg)
	}
}

func (e *Exploration) stopped() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.stop && (e.incomplete != "" || len(e.violations) > 0)
}

var certFail atomic.Int32

// certCheck runs one script in the worker's certificate solver.
func (w *Worker) certCheck(script string) (string, error) {
	if w.certSolver == nil {
		w.certSolver = &Solver{kind: w.eng.solverKind, timeout: 60000, stats: &Stats{}}
		w.certSolver.start()
	}
	s := w.certSolver
	pre := "(reset)\n(set-option :print-success false)\n"
	if s.kind == "cvc5" {
		pre += "(set-logic QF_BV)\n"
	} else {
		pre += fmt.Sprintf("(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
	}
	if _, err := io.WriteString(s.in, pre+script); err != nil {
		return "unknown", err
	}
	r := s.readLine()
	switch r {
	case "sat", "unsat", "unknown":
		return r, nil
	case "timeout":
		return "unknown", nil
	}
	s.restart()
	return "unknown", fmt.Errorf("%.300s", r)
}
