package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Solver drives one SMT solver process over SMT-LIB2.
type Solver struct {
	ctx     *TermCtx
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	gen     int32
	stats   *Stats
	kind    string
	timeout int // ms
	queries int
}

var solverPath = "z3"

func solverCmd(kind string) *exec.Cmd {
	switch kind {
	case "cvc5":
		return exec.Command("cvc5", "--incremental", "--produce-models", "--lang=smt2", "--quiet")
	case "z3-new":
		return exec.Command("z3-new", "-in", "-smt2")
	}
	return exec.Command("z3", "-in", "-smt2")
}

func NewSolver(ctx *TermCtx, stats *Stats, kind string, timeoutMS int) *Solver {
	s := &Solver{ctx: ctx, stats: stats, kind: kind, timeout: timeoutMS}
	s.start()
	return s
}

var solverGen int32

func (s *Solver) start() {
	s.cmd = solverCmd(s.kind)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(engErr("solver: %v", err))
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(engErr("solver: %v", err))
	}
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic(engErr("solver start: %v", err))
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.gen = atomic.AddInt32(&solverGen, 1)
	s.queries = 0
	pre := "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n"
	if s.kind == "cvc5" {
		pre += fmt.Sprintf("(set-option :tlimit-per %d)\n(set-logic QF_BV)\n", s.timeout)
	} else {
		pre += fmt.Sprintf("(set-option :timeout %d)\n(set-logic QF_BV)\n", s.timeout)
	}
	io.WriteString(s.in, pre)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// restart replaces the process (all definitions are re-emitted on demand).
func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if err != nil && l == "" {
			panic(engErr("solver died: %v", err))
		}
		if l != "" {
			return l
		}
	}
}

// Check decides the conjunction of the given Bool terms. On sat, the values of the
// variables in vars are returned.
func (s *Solver) Check(conj []*Term, vars []int32) (string, []uint64) {
	t0 := time.Now()
	if s.queries > 20000 {
		s.restart()
	}
	s.queries++
	var sb strings.Builder
	for _, t := range conj {
		s.ctx.emitDefs(&sb, t, s.gen)
	}
	for _, v := range vars {
		s.ctx.emitDefs(&sb, s.ctx.varList[v], s.gen)
	}
	sb.WriteString("(push 1)\n")
	for _, t := range conj {
		sb.WriteString("(assert " + s.ctx.ref(t) + ")\n")
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		panic(engErr("solver write: %v", err))
	}
	r := s.readLine()
	var vals []uint64
	switch r {
	case "sat":
		if len(vars) > 0 {
			vals = s.getValues(vars)
		}
	case "unsat":
	case "unknown", "timeout":
		r = "unknown"
	default:
		panic(engErr("solver said %q", r))
	}
	io.WriteString(s.in, "(pop 1)\n")
	d := time.Since(t0)
	s.stats.addQuery(r, d)
	return r, vals
}

func (s *Solver) getValues(vars []int32) []uint64 {
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range vars {
		fmt.Fprintf(&sb, "v%d ", v)
	}
	sb.WriteString("))\n")
	io.WriteString(s.in, sb.String())
	// read a balanced s-expression
	depth, started := 0, false
	var buf strings.Builder
	for !started || depth > 0 {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic(engErr("solver died in get-value: %v", err))
		}
		for _, ch := range l {
			if ch == '(' {
				depth++
				started = true
			} else if ch == ')' {
				depth--
			}
		}
		buf.WriteString(l)
	}
	txt := buf.String()
	if strings.Contains(txt, "error") {
		panic(engErr("solver get-value: %s", txt))
	}
	txt = strings.NewReplacer("(", " ", ")", " ").Replace(txt)
	f := strings.Fields(txt)
	out := make([]uint64, len(vars))
	if len(f) != 2*len(vars) {
		panic(engErr("get-value: %d fields for %d vars: %.200s", len(f), len(vars), txt))
	}
	for i := range vars {
		out[i] = parseSMTVal(f[2*i+1])
	}
	return out
}

func parseSMTVal(s string) uint64 {
	switch {
	case s == "true":
		return 1
	case s == "false":
		return 0
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		if err == nil {
			return v
		}
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		if err == nil {
			return v
		}
	}
	panic(engErr("cannot parse solver value %q", s))
}
