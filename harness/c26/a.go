// Package c26: proxied and raw rpc streams forward all data unchanged in both directions.
//
// bound: up to 2 (thorough 3) packets or chunks per direction of 0 to 2 symbolic bytes, each side ending in every way (end-of-stream, transport error, close of the stream, cancellation, failing or short write) after every number of packets, delay bound 2 (thorough 3).
// assume: reads and sends of the streams return after a close.
package c26

import (
	"context"
	"io"
	"sync/atomic"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

func packets(label string, max int) (l [][]byte) {
	n := v.Choose(label+"n", max+1)
	for i := 0; i < n; i++ {
		switch v.Choose(label+"kind", v.Bound(2, 3)) {
		case 0:
			l = append(l, hx.RData(v.Bytes(label, 1)))
		case 1:
			l = append(l, nil)
		case 2:
			l = append(l, v.Bytes(label, 2)) // not even an rpcstream packet
		}
	}
	return
}

func nonEmpty(l [][]byte) (o [][]byte) {
	for _, b := range l {
		if len(b) != 0 {
			o = append(o, b)
		}
	}
	return
}

// same checks that got is want, or a prefix of it.
func same(got, want [][]byte, prefix bool, msg string) {
	v.Assert(len(got) <= len(want), msg+": a packet is invented")
	for i := range got {
		v.Assert(hx.Eq(got[i], want[i]), msg+": a packet is changed or reordered")
	}
	v.Assert(prefix || len(got) == len(want), msg+": a packet is lost")
}

func proxy(ctx context.Context, s, t *hx.RS, nrel *int) error {
	return rpcstream.HandleProxyRpcStream(s, func(c context.Context, id string) (rpcstream.RpcStreamCaller[*hx.RS], string, func(), error) {
		v.Assert(id == "id", "another component is looked up")
		return func(c context.Context) (*hx.RS, error) {
			v.Assert(c.Err() == nil, "the target is called with a cancelled context")
			return t, nil
		}, "remote", func() { *nrel++ }, nil
	})
}

func bothClosed(s, t *hx.RS) {
	a, _ := s.Closed()
	b, _ := t.Closed()
	v.Assert(a >= 1, "the caller's stream is not closed after a side ended")
	v.Assert(b >= 1, "the target's stream is not closed after a side ended")
	v.Quiesce()
	v.NoOthers("a copying goroutine is left behind")
}

// H_proxy_idle: everything sent is forwarded before a side ends.
//
// sym: delays=1 delays@thorough=2 paths=6000000 budget=500
func H_proxy_idle() {
	up, down := packets("up", v.Bound(2, 3)), packets("down", v.Bound(2, 3))
	s := hx.NewRS(context.Background(), nil, append([][]byte{hx.RInit("id")}, up...)...)
	t := hx.NewRS(context.Background(), nil, append([][]byte{hx.RAck("")}, down...)...)
	how := v.Choose("how", 4)
	ended := make(chan struct{})
	go func() {
		v.Quiesce()
		switch how {
		case 0:
			s.Drop()
		case 1:
			t.Drop()
		case 2:
			_ = s.Close() // cancels its context
		case 3:
			t.Drop()
			s.Drop()
		}
		close(ended)
	}()
	nrel := 0
	_ = proxy(context.Background(), s, t, &nrel)
	v.Assert(nrel == 1, "the target is not released exactly once")
	<-ended
	same(t.Sent(), append([][]byte{hx.RInit("remote")}, nonEmpty(up)...), false, "to the target")
	same(s.Sent(), append([][]byte{hx.RAck("")}, nonEmpty(down)...), false, "to the caller")
	bothClosed(s, t)
	v.Reach("idle end")
}

// H_proxy_end: one side ends after its packets, whatever the other does.
//
// sym: delays=2 paths=6000000 budget=500
func H_proxy_end() {
	proxyEnd(packets("up", 2), packets("down", v.Bound(1, 2)), plain)
}

func plain(s string) error { return &hx.Err{S: s} }

// H_proxy_errors: one side ends with every kind of error.
//
// sym: delays=1 delays@thorough=2 paths=6000000 budget=500
func H_proxy_errors() {
	proxyEnd([][]byte{hx.RData([]byte{1})}, nil, func(s string) error { return hx.AFailure("fail", s) })
}

func proxyEnd(up, down [][]byte, failure func(string) error) {
	var es, et error
	var fail error
	switch v.Choose("end", 8) {
	case 0:
		es = io.EOF
	case 1:
		et = io.EOF
	case 2:
		fail = failure("caller")
		es = fail
	case 3:
		fail = failure("target")
		et = fail
	case 4:
		es, et = io.EOF, io.EOF
	case 5:
		fail = failure("target")
		es, et = io.EOF, fail
	case 6:
		fail = failure("caller")
		es, et = fail, io.EOF
	case 7:
		fail = failure("caller")
		es, et = fail, &hx.Err{S: "target"}
	}
	s := hx.NewRS(context.Background(), es, append([][]byte{hx.RInit("id")}, up...)...)
	t := hx.NewRS(context.Background(), et, append([][]byte{hx.RAck("")}, down...)...)
	nrel := 0
	err := proxy(context.Background(), s, t, &nrel)
	v.Assert(nrel == 1, "the target is not released exactly once")
	if fail != nil && (es == nil || et == nil) || s.Failed() || t.Failed() {
		v.Assert(err != nil, "a failure is not returned")
		v.Reach("failure")
	}
	if es != nil && et == nil {
		same(t.Sent(), append([][]byte{hx.RInit("remote")}, nonEmpty(up)...), false, "to the target")
	} else {
		same(t.Sent(), append([][]byte{hx.RInit("remote")}, nonEmpty(up)...), true, "to the target")
	}
	if et != nil && es == nil {
		same(s.Sent(), append([][]byte{hx.RAck("")}, nonEmpty(down)...), false, "to the caller")
	} else {
		same(s.Sent(), append([][]byte{hx.RAck("")}, nonEmpty(down)...), true, "to the caller")
	}
	bothClosed(s, t)
	v.Reach("end")
}

// H_proxy_fail: a send fails.
//
// sym: delays=2 delays@thorough=3 paths=6000000 budget=500
func H_proxy_fail() {
	e := hx.AFailure("fail", "send")
	at := v.Choose("at", 2)
	s := hx.NewRS(context.Background(), nil, hx.RInit("id"), []byte{1}, []byte{2})
	t := hx.NewRS(context.Background(), nil, []byte{3}, []byte{4})
	if v.Choose("side", 2) == 0 {
		s.Fail = func(i int) error {
			if i == at {
				return e
			}
			return nil
		}
	} else {
		t.Fail = func(i int) error {
			if i == at+1 {
				return e
			}
			return nil
		}
	}
	nrel := 0
	err := proxy(context.Background(), s, t, &nrel)
	v.Assert(err != nil, "a failing send is not returned")
	v.Assert(nrel == 1, "the target is not released exactly once")
	same(t.Sent(), [][]byte{hx.RInit("remote"), {1}, {2}}, true, "to the target")
	same(s.Sent(), [][]byte{{3}, {4}}, true, "to the caller")
	bothClosed(s, t)
	v.Reach("send failed")
}

// H_proxy_blocked: a send blocked on a stream that ends does not keep the proxy alive.
//
// sym: delays=2 delays@thorough=3 paths=6000000 budget=500
func H_proxy_blocked() {
	s := hx.NewRS(context.Background(), nil, hx.RInit("id"), []byte{1})
	t := hx.NewRS(context.Background(), nil, []byte{3})
	side := v.Choose("side", 2)
	if side == 0 {
		s.Block = true
	} else {
		t.OnSend = func(i int, b []byte) {
			if i == 0 {
				t.Block = true
			}
		}
	}
	ended := make(chan struct{})
	go func() {
		v.Quiesce()
		if side == 0 {
			s.Drop()
		} else {
			t.Drop()
		}
		close(ended)
	}()
	nrel := 0
	err := proxy(context.Background(), s, t, &nrel)
	v.Assert(err != nil, "a failure is not returned")
	v.Assert(nrel == 1, "the target is not released exactly once")
	<-ended
	bothClosed(s, t)
	v.Reach("unblocked")
}

// raw is a raw component with independent directions.
type raw struct {
	in     chan []byte
	rest   []byte
	end    error
	out    []byte
	werr   error
	wfail  int // index of the failing write, -1: none
	short  bool
	nw     int
	done   chan struct{}
	nclose int
	closed chan struct{}
	failed atomic.Bool // a read failed before the close
}

func newRaw(end error, chunks ...[]byte) *raw {
	r := &raw{in: make(chan []byte, len(chunks)), end: end, wfail: -1, done: make(chan struct{}), closed: make(chan struct{}, 8)}
	for _, c := range chunks {
		r.in <- c
	}
	if end != nil {
		close(r.in)
	}
	return r
}

func (r *raw) Read(p []byte) (int, error) {
	if len(r.rest) == 0 {
		select {
		case <-r.done:
			return 0, io.ErrClosedPipe
		default:
		}
		select {
		case <-r.done:
			return 0, io.ErrClosedPipe
		case b, ok := <-r.in:
			if !ok {
				if r.end != io.EOF {
					r.failed.Store(true)
				}
				return 0, r.end
			}
			r.rest = b
		}
	}
	n := copy(p, r.rest)
	r.rest = r.rest[n:]
	return n, nil
}

func (r *raw) Write(p []byte) (int, error) {
	select {
	case <-r.done:
		return 0, io.ErrClosedPipe
	default:
	}
	i := r.nw
	r.nw++
	if i == r.wfail {
		if r.short {
			r.out = append(r.out, p[:len(p)-1]...)
			return len(p) - 1, nil
		}
		return 0, r.werr
	}
	r.out = append(r.out, p...)
	return len(p), nil
}

func (r *raw) Close() error {
	select {
	case r.closed <- struct{}{}:
		if len(r.closed) == 1 {
			close(r.done)
		}
	default:
	}
	return nil
}

func handleRaw(s *hx.RS, r *raw, nrel *int) error {
	return rpcstream.HandleRawRpcStream(s, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
		v.Assert(id == "id", "another component is looked up")
		return r, func() { *nrel++ }, nil
	})
}

func payload(sent [][]byte) (all []byte) {
	v.Assert(len(sent) >= 1 && hx.Eq(sent[0], hx.RAck("")), "the stream is not acknowledged first")
	for _, b := range sent[1:] {
		p := hx.RDec(b)
		_, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Data)
		v.Assert(ok, "something other than data is sent after the ack")
		all = append(all, p.GetData()...)
	}
	return
}

func bytesOf(label string) (l [][]byte, all []byte) {
	n := v.Choose(label+"n", v.Bound(2, 3)+1)
	for i := 0; i < n; i++ {
		b := v.Bytes(label, v.Choose(label+"len", 2)+1)
		l = append(l, b)
		all = append(all, b...)
	}
	return
}

func rawClosed(s *hx.RS, r *raw) {
	a, _ := s.Closed()
	v.Assert(a >= 1, "the stream is not closed after a side ended")
	v.Assert(len(r.closed) >= 1, "the component is not closed after a side ended")
	v.Quiesce()
	v.NoOthers("a copying goroutine is left behind")
}

func data(l [][]byte) (o [][]byte) {
	for _, b := range l {
		o = append(o, hx.RData(b))
	}
	return
}

// H_raw_idle: everything is forwarded before a side ends.
//
// sym: delays=1 delays@thorough=2 paths=6000000 budget=500
func H_raw_idle() {
	up, upAll := bytesOf("up")
	down, downAll := bytesOf("down")
	pk := data(up)
	if v.Choose("empty", 2) == 1 {
		pk = append([][]byte{hx.RData(nil)}, pk...)
	}
	s := hx.NewRS(context.Background(), nil, append([][]byte{hx.RInit("id")}, pk...)...)
	r := newRaw(nil, down...)
	how := v.Choose("how", 3)
	ended := make(chan struct{})
	go func() {
		v.Quiesce()
		switch how {
		case 0:
			s.Drop()
		case 1:
			_ = r.Close()
		case 2:
			_ = s.Close()
		}
		close(ended)
	}()
	nrel := 0
	_ = handleRaw(s, r, &nrel)
	v.Assert(nrel == 1, "the component is not released exactly once")
	<-ended
	v.Assert(hx.Eq(r.out, upAll), "the bytes written to the component are not those received")
	v.Assert(hx.Eq(payload(s.Sent()), downAll), "the bytes sent are not those of the component")
	rawClosed(s, r)
	v.Reach("idle end")
}

// H_raw_end: one side ends after its bytes.
//
// sym: delays=2 delays@thorough=3 paths=6000000 budget=500
func H_raw_end() {
	up, upAll := bytesOf("up")
	down, downAll := bytesOf("down")
	rawEnd(up, down, upAll, downAll, plain)
}

// H_raw_errors: one side ends with every kind of error.
//
// sym: delays=1 delays@thorough=2 paths=6000000 budget=500
func H_raw_errors() {
	rawEnd([][]byte{{1}}, nil, []byte{1}, nil, func(s string) error { return hx.AFailure("fail", s) })
}

func rawEnd(up, down [][]byte, upAll, downAll []byte, failure func(string) error) {
	var es, er error
	failing := false
	switch v.Choose("end", 7) {
	case 0:
		es = io.EOF
	case 1:
		er = io.EOF
	case 2:
		es, failing = failure("stream"), true
	case 3:
		er, failing = failure("component"), true
	case 4:
		es, er = io.EOF, failure("component")
	case 5:
		es, er = failure("stream"), io.EOF
	case 6:
		es, er = io.EOF, io.EOF
	}
	s := hx.NewRS(context.Background(), es, append([][]byte{hx.RInit("id")}, data(up)...)...)
	r := newRaw(er, down...)
	nrel := 0
	err := handleRaw(s, r, &nrel)
	v.Assert(nrel == 1, "the component is not released exactly once")
	if failing || s.Failed() || r.failed.Load() {
		v.Assert(err != nil, "a failure is not returned")
		v.Reach("failure")
	}
	sent := payload(s.Sent())
	switch {
	case es != nil && er != nil:
		v.Assert(len(sent) <= len(downAll) && hx.Eq(sent, downAll[:len(sent)]), "the bytes sent are not those of the component")
		v.Assert(len(r.out) <= len(upAll) && hx.Eq(r.out, upAll[:len(r.out)]), "the bytes written to the component are not those received")
	case es != nil:
		v.Assert(hx.Eq(r.out, upAll), "the bytes written to the component are not those received")
		v.Assert(len(sent) <= len(downAll) && hx.Eq(sent, downAll[:len(sent)]), "the bytes sent are not those of the component")
	default:
		v.Assert(hx.Eq(sent, downAll), "the bytes sent are not those of the component")
		v.Assert(len(r.out) <= len(upAll) && hx.Eq(r.out, upAll[:len(r.out)]), "the bytes written to the component are not those received")
	}
	rawClosed(s, r)
	v.Reach("end")
}

// H_raw_fail: a write to the component fails or is short, or a send fails, or the ack of
// a remote carries an error.
//
// sym: delays=2 delays@thorough=3 paths=6000000 budget=500
func H_raw_fail() {
	s := hx.NewRS(context.Background(), nil, hx.RInit("id"), hx.RData([]byte{1, 2}), hx.RData([]byte{3, 4}))
	r := newRaw(nil, []byte{5}, []byte{6})
	at := v.Choose("at", 2)
	switch v.Choose("what", 3) {
	case 0:
		r.wfail, r.werr = at, hx.AFailure("fail", "write")
	case 1:
		r.wfail, r.short = at, true
	case 2:
		fail := hx.AFailure("fail", "send")
		s.Fail = func(i int) error {
			if i == at+1 {
				return fail
			}
			return nil
		}
	}
	nrel := 0
	err := handleRaw(s, r, &nrel)
	v.Assert(err != nil, "a failure is not returned")
	v.Assert(nrel == 1, "the component is not released exactly once")
	sent := payload(s.Sent())
	v.Assert(len(sent) <= 2 && hx.Eq(sent, []byte{5, 6}[:len(sent)]), "the bytes sent are not those of the component")
	v.Assert(len(r.out) <= 4 && hx.Eq(r.out, []byte{1, 2, 3, 4}[:len(r.out)]), "the bytes written to the component are not those received")
	rawClosed(s, r)
	v.Reach("failed")
}

// H_raw_large: a component delivering more than the copy buffer at once.
//
// sym: delays=0 paths=1000000 budget=300
func H_raw_large() {
	b := make([]byte, 8200)
	for _, i := range []int{0, 8191, 8192, 8199} {
		b[i] = v.Byte("x")
	}
	s := hx.NewRS(context.Background(), nil, hx.RInit("id"), hx.RData(b))
	r := newRaw(io.EOF, b)
	nrel := 0
	_ = handleRaw(s, r, &nrel)
	v.Assert(hx.Eq(payload(s.Sent()), b), "the bytes sent are not those of the component")
	v.Assert(len(r.out) == 0 || hx.Eq(r.out, b), "the bytes written to the component are not those received")
	v.Reach("large")
}
