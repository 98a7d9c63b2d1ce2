package main

import (
	"fmt"
)

// VC is a vector clock.
type VC []int32

func (v VC) clone() VC { return append(VC(nil), v...) }

func (v VC) inc(i int) VC {
	for len(v) <= i {
		v = append(v, 0)
	}
	v[i]++
	return v
}

func (v VC) at(i int) int32 {
	if i < len(v) {
		return v[i]
	}
	return 0
}

// join merges o into v (v may be modified in place).
func (v VC) join(o VC) VC {
	for len(v) < len(o) {
		v = append(v, 0)
	}
	for i, c := range o {
		if c > v[i] {
			v[i] = c
		}
	}
	return v
}

type accMeta struct {
	wt    int
	wc    int32
	wpos  string
	hasW  bool
	reads []racc
}

type racc struct {
	t   int
	c   int32
	pos string
}

func (x *Exec) rd(p *Value) {
	if !x.racing || x.tolerant {
		return
	}
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			x.rd(&v[i])
		}
		return
	case Array:
		for i := range v {
			x.rd(&v[i])
		}
		return
	}
	t := x.cur
	m := x.meta[p]
	if m == nil {
		m = &accMeta{}
		x.meta[p] = m
	}
	if m.hasW && m.wt != t.id && m.wc > t.vc.at(m.wt) {
		x.race(p, "read", t, m.wt, "write", m.wpos)
	}
	for i := range m.reads {
		if m.reads[i].t == t.id {
			m.reads[i].c = t.vc.at(t.id)
			m.reads[i].pos = ""
			if x.trace != nil {
				m.reads[i].pos = x.posOf(t)
			}
			return
		}
	}
	r := racc{t: t.id, c: t.vc.at(t.id)}
	if x.trace != nil {
		r.pos = x.posOf(t)
	}
	m.reads = append(m.reads, r)
}

func (x *Exec) wr(p *Value) {
	if !x.racing || x.tolerant {
		return
	}
	switch v := (*p).(type) {
	case Struct:
		for i := range v {
			x.wr(&v[i])
		}
		return
	case Array:
		for i := range v {
			x.wr(&v[i])
		}
		return
	}
	t := x.cur
	m := x.meta[p]
	if m == nil {
		m = &accMeta{}
		x.meta[p] = m
	}
	if m.hasW && m.wt != t.id && m.wc > t.vc.at(m.wt) {
		x.race(p, "write", t, m.wt, "write", m.wpos)
	}
	for i := range m.reads {
		if r := &m.reads[i]; r.t != t.id && r.c > t.vc.at(r.t) {
			x.race(p, "write", t, r.t, "read", r.pos)
		}
	}
	m.reads = m.reads[:0]
	m.hasW, m.wt, m.wc = true, t.id, t.vc.at(t.id)
	m.wpos = ""
	if x.trace != nil {
		m.wpos = x.posOf(t)
	}
}

func (x *Exec) posOf(t *Thread) string {
	if t.top == nil {
		return "?"
	}
	return t.top.f.name + " " + x.pos(t.top)
}

func (x *Exec) race(p *Value, what string, t *Thread, other int, owhat, opos string) {
	v := &Violation{Kind: "race", Msg: "data race: conflicting unsynchronised accesses in " + t.top.f.name}
	v.Stack = append([]string{fmt.Sprintf("%s by g%d at %s", what, t.id, x.posOf(t)), fmt.Sprintf("previous %s by g%d at %s", owhat, other, opos)}, x.stack(t)...)
	x.report(v)
}

// acquire/release: happens-before through a synchronisation object.
func (x *Exec) acquire(t *Thread, obj any) {
	if !x.racing {
		return
	}
	if v, ok := x.syncVC[obj]; ok {
		t.vc = t.vc.join(v)
	}
}

func (x *Exec) release(t *Thread, obj any) {
	if !x.racing {
		return
	}
	x.syncVC[obj] = x.syncVC[obj].join(t.vc)
	t.vc = t.vc.inc(t.id)
}

func (x *Exec) relVC(t *Thread) VC {
	if !x.racing {
		return nil
	}
	v := t.vc.clone()
	t.vc = t.vc.inc(t.id)
	return v
}

// ---- channels ----

type selCase struct {
	send bool
	ch   *ChanObj
	val  Value
}

type waitOp struct {
	cases  []selCase
	hasDef bool
	done   bool
	res    opRes
}

type opRes struct {
	idx int
	val Value
	ok  bool
}

func (x *Exec) newChan(n int, z func() Value) *ChanObj {
	x.chanN++
	return &ChanObj{id: x.chanN, cap: n, elem: z}
}

type chOption struct {
	idx     int
	partner *Thread
	pidx    int
}

// chOptions lists how the operation w of thread t could proceed now. definite is
// true when one of them does not depend on whether a partner has already parked.
func (x *Exec) chOptions(t *Thread, w *waitOp, first bool) (opts []chOption, definite bool) {
	for i, c := range w.cases {
		ch := c.ch
		if ch == nil {
			continue
		}
		if c.send {
			if ch.closed || len(ch.buf) < ch.cap {
				opts = append(opts, chOption{idx: i})
				definite = true
				if first {
					return
				}
				continue
			}
			if ch.cap == 0 {
				for _, r := range x.threads {
					if r == t || r.done || r.wait == nil || r.wait.done || r.wait.hasDef {
						continue
					}
					for j, rc := range r.wait.cases {
						if !rc.send && rc.ch == ch {
							opts = append(opts, chOption{i, r, j})
							if r.parked {
								definite = true
							}
							if first {
								return
							}
						}
					}
				}
			}
			continue
		}
		if len(ch.buf) > 0 || ch.closed {
			opts = append(opts, chOption{idx: i})
			definite = true
			if first {
				return
			}
			continue
		}
		if ch.cap == 0 && w.hasDef {
			for _, s := range x.threads {
				if s == t || s.done || s.wait == nil || s.wait.done || s.wait.hasDef {
					continue
				}
				for j, sc := range s.wait.cases {
					if sc.send && sc.ch == ch {
						opts = append(opts, chOption{i, s, j})
						if s.parked {
							definite = true
						}
						if first {
							return
						}
					}
				}
			}
		}
	}
	return
}

// chanOp performs a channel operation (send, receive or select).
func (x *Exec) chanOp(t *Thread, cases []selCase, hasDef bool) (opRes, bool) {
	w := t.wait
	if w != nil && w.done {
		t.wait = nil
		t.granted = false
		x.mark(t)
		return w.res, true
	}
	if w == nil {
		w = &waitOp{cases: cases, hasDef: hasDef}
	}
	go1 := t.granted
	if !go1 && x.quiet(t) {
		if o, _ := x.chOptions(t, w, true); len(o) > 0 || hasDef {
			go1 = true
		} else if x.tolerant {
			panic(engErr("blocking channel operation during initialisation"))
		}
	}
	t.granted = false
	if go1 {
		opts, definite := x.chOptions(t, w, false)
		n := len(opts)
		if hasDef && !definite {
			n++
		}
		if n > 0 {
			t.wait = nil
			x.mark(t)
			k := 0
			if n > 1 && (!x.h.selCost || x.delays > 0) {
				if k = x.choose(n, "select"); k > 0 && x.h.selCost {
					x.delays--
				}
			}
			if k == len(opts) {
				return opRes{idx: -1}, true
			}
			return x.perform(t, w, opts[k]), true
		}
	}
	t.wait = w
	t.parked = false
	t.enabled = func() bool {
		if w.done || w.hasDef {
			return true
		}
		o, _ := x.chOptions(t, w, true)
		return len(o) > 0
	}
	t.desc = "chan"
	if len(cases) > 1 || hasDef {
		t.desc = "select"
	} else if cases[0].send {
		t.desc = "send"
	} else {
		t.desc = "recv"
	}
	return opRes{}, false
}

func (x *Exec) perform(t *Thread, w *waitOp, o chOption) opRes {
	c := w.cases[o.idx]
	ch := c.ch
	if c.send {
		if ch.closed {
			x.goPanic(x.plainErr("send on closed channel"))
		}
		if o.partner != nil {
			p := o.partner
			p.wait.done = true
			p.wait.res = opRes{idx: o.pidx, val: c.val, ok: true}
			x.rendezvous(t, p)
			return opRes{idx: o.idx, ok: false}
		}
		if x.racing && len(ch.recvVC) > 0 && ch.nsent >= ch.cap {
			// the k-th receive happens before the (k+cap)-th send completes
			k := ch.nsent - ch.cap
			if k < len(ch.recvVC) {
				t.vc = t.vc.join(ch.recvVC[k])
			}
		}
		ch.nsent++
		ch.buf = append(ch.buf, chanItem{c.val, x.relVC(t)})
		return opRes{idx: o.idx}
	}
	if o.partner != nil {
		p := o.partner
		v := p.wait.cases[o.pidx].val
		p.wait.done = true
		p.wait.res = opRes{idx: o.pidx}
		x.rendezvous(t, p)
		return opRes{idx: o.idx, val: v, ok: true}
	}
	if len(ch.buf) > 0 {
		it := ch.buf[0]
		ch.buf = append([]chanItem(nil), ch.buf[1:]...)
		if x.racing {
			t.vc = t.vc.join(it.vc)
			ch.recvVC = append(ch.recvVC, x.relVC(t))
		}
		return opRes{idx: o.idx, val: it.v, ok: true}
	}
	if x.racing {
		t.vc = t.vc.join(ch.vcC)
	}
	return opRes{idx: o.idx, val: ch.elem(), ok: false}
}

func (x *Exec) rendezvous(a, b *Thread) {
	if !x.racing {
		return
	}
	a.vc = a.vc.join(b.vc)
	b.vc = b.vc.join(a.vc)
	a.vc = a.vc.inc(a.id)
	b.vc = b.vc.inc(b.id)
}

func (x *Exec) closeChan(t *Thread, v Value) bool {
	if !x.visible(t, alwaysEnabled, "close") {
		return false
	}
	ch, _ := v.(*ChanObj)
	if ch == nil {
		x.goPanic(x.plainErr("close of nil channel"))
	}
	if ch.closed {
		x.goPanic(x.plainErr("close of closed channel"))
	}
	ch.closed = true
	ch.vcC = x.relVC(t)
	return true
}

// ---- timers ----

// Timer fires when nothing else can run (or never, if the path ends before).
type Timer struct {
	at     int64
	seq    int
	active bool
	fire   func(x *Exec)
}

func (x *Exec) addTimer(d int64, fire func(x *Exec)) *Timer {
	if d < 0 {
		d = 0
	}
	tm := &Timer{at: x.now + d, seq: len(x.timers), active: true, fire: fire}
	x.timers = append(x.timers, tm)
	return tm
}

func (x *Exec) fireTimer() bool {
	var b *Timer
	for _, t := range x.timers {
		if t.active && (b == nil || t.at < b.at) {
			b = t
		}
	}
	if b == nil {
		return false
	}
	b.active = false
	if b.at > x.now {
		x.now = b.at
	}
	b.fire(x)
	return true
}

// ---- the scheduler ----

func (x *Exec) schedule(main *Thread) {
	t := main
	for {
		x.runThread(t)
		if main.done {
			return
		}
		t = x.pick(t)
	}
}

func (x *Exec) pick(cur *Thread) *Thread {
	for {
		n := len(x.threads)
		var cands []*Thread
		for k := 0; k < n; k++ {
			t := x.threads[(cur.id+k)%n]
			if t.done || t.quiesce {
				continue
			}
			if t.enabled == nil || t.enabled() {
				cands = append(cands, t)
			}
		}
		if len(cands) == 0 {
			// everything is blocked
			q := 0
			for _, t := range x.threads {
				if !t.done && t.quiesce {
					q++
					cands = append(cands, t)
				} else {
					t.parked = true
				}
			}
			if q > 0 {
				cands = cands[:1]
				cands[0].quiesce = false
			} else if x.fireTimer() {
				continue
			} else {
				x.deadlock()
			}
		}
		t := cands[0]
		if m := min(len(cands), x.delays+1); m > 1 {
			k := x.choose(m, "sched")
			x.delays -= k
			t = cands[k]
		}
		if t.started {
			t.granted = true
		}
		return t
	}
}

func (x *Exec) deadlock() {
	var s []string
	for _, t := range x.threads {
		if t.done {
			continue
		}
		s = append(s, fmt.Sprintf("g%d blocked in %s:", t.id, t.desc))
		s = append(s, x.stack(t)...)
	}
	x.report(&Violation{Kind: "deadlock", Msg: "deadlock: the main harness goroutine can never continue", Stack: s})
}

// blockedThreads describes the goroutines other than the main one that are alive.
func (x *Exec) aliveOthers(me *Thread) []string {
	var s []string
	for _, t := range x.threads {
		if t.done || t == me {
			continue
		}
		s = append(s, fmt.Sprintf("g%d in %s: %s", t.id, t.desc, firstN(x.stack(t), 4)))
	}
	return s
}

func firstN(s []string, n int) []string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
