// Package c32: a failed or finished client call always releases its resources.
//
// bound: one call, failing in every way the transport, the messages, the peer and the caller can make it fail, at every point; messages and packets of 0 to 2 symbolic bytes, up to 2 packets received, writers whose close and cancel write fail, delay bound 2 (thorough 3).
// assume: a transport that hands out no writer returns an error.
package c32

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// caller is a context of a type of its own, so that a call which does not cancel its
// context leaves a goroutine behind.
type caller struct {
	mu   sync.Mutex
	done chan struct{}
	err  error
	why  error
}

// newCaller constructs a context which will be cancelled or expire.
func newCaller() *caller {
	why := []error{context.Canceled, context.DeadlineExceeded}[v.Choose("why", 2)]
	return &caller{done: make(chan struct{}), why: why}
}

// ended: err reports that the context has ended.
func (c *caller) ended(err error) bool { return err == context.Canceled || err == c.why }

func (c *caller) Deadline() (t time.Time, ok bool) { return }
func (c *caller) Done() <-chan struct{}            { return c.done }
func (c *caller) Value(any) any                    { return nil }
func (c *caller) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}
func (c *caller) cancel() {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = c.why
		close(c.done)
	}
}

// transport hands out one writer.
type transport struct {
	w       *hx.PW
	n       int
	err     error
	h       srpc.PacketDataHandler
	ch      srpc.CloseHandler
	ctx     context.Context
	onOpen  func()
	started chan struct{}
}

func (t *transport) open(ctx context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
	t.n++
	t.h, t.ch, t.ctx = h, ch, ctx
	if t.onOpen != nil {
		t.onOpen()
	}
	if t.err != nil {
		return nil, t.err
	}
	return t.w, nil
}

func newTransport() *transport {
	t := &transport{w: &hx.PW{}, started: make(chan struct{}, 1)}
	t.w.OnWrite = func(p *hx.Pkt) {
		if p.Kind == hx.Start {
			t.started <- struct{}{}
		}
	}
	return t
}

var errFail = &hx.Err{S: "failure"}

// breakWriter makes the writer fail after the start packet.
func (t *transport) breakWriter() {
	if v.Bool("closeerr") {
		t.w.CloseErr = &hx.Err{S: "close failed"}
	}
	if v.Bool("cancelerr") {
		t.w.Fail = func(i int) error {
			if i == 0 {
				return nil
			}
			return &hx.Err{S: "write failed"}
		}
	}
}

// startFail is a way starting a call fails; what is expected of the error.
func startFail(t *transport, ctx *caller, in *hx.Msg) func(error) bool {
	kind := v.Choose("start", 6)
	var errFail error
	if kind < 3 {
		errFail = hx.AnErr("fail", "failure")
	}
	switch kind {
	case 0: // the message cannot be encoded
		in.MErr = errFail
	case 1: // no stream
		t.err = errFail
	case 2: // the start packet cannot be written
		t.w.Fail = func(i int) error { return errFail }
	case 3: // cancelled before
		ctx.cancel()
		return ctx.ended
	case 4: // cancelled while the stream is opened
		t.onOpen = func() { ctx.cancel(); v.Quiesce() } // (the cancellation spreads)
		return ctx.ended
	case 5: // cancelled, and the transport notices
		t.onOpen = ctx.cancel
		t.err = context.Canceled
		return ctx.ended
	}
	if v.Bool("closeerr") {
		t.w.CloseErr = &hx.Err{S: "close failed"}
	}
	return func(err error) bool { return err == errFail }
}

// H_start: a call that cannot be started.
//
// sym: delays=2 delays@thorough=3
func H_start() {
	t, ctx, in := newTransport(), newCaller(), hx.M(v.BytesUpTo("in", 1))
	ok := startFail(t, ctx, in)
	c := srpc.NewClient(t.open)
	if v.Bool("stream") {
		s, err := c.NewStream(ctx, "s", "m", in)
		v.Assert(s == nil, "a failed start returns a stream")
		v.Assert(err != nil && ok(err), "the error of starting is not returned")
	} else {
		err := c.ExecCall(ctx, "s", "m", in, hx.M(nil))
		v.Assert(err != nil && ok(err), "the error of starting is not returned")
	}
	v.Assert(t.n <= 1, "more than one stream is opened")
	v.Assert(t.n == 0 || t.err != nil || t.w.Closed() > 0, "a failed start does not close the packet writer")
	if t.n > 0 && t.err == nil {
		v.Reach("writer")
	}
	v.Quiesce()
	v.NoOthers("a failed start does not cancel the context of the call")
	v.Reach("failed")
}

// H_stream_nil: a stream without first message that cannot be started.
//
// sym: delays=1
func H_stream_nil() {
	t, ctx := newTransport(), newCaller()
	kind := v.Choose("start", 3)
	var want error
	if kind < 2 {
		want = hx.AnErr("fail", "failure")
	}
	switch kind {
	case 0:
		t.err = want
	case 1:
		t.w.Fail = func(i int) error { return want }
	case 2:
		ctx.cancel()
		want = context.Canceled
	}
	s, err := srpc.NewClient(t.open).NewStream(ctx, "s", "m", nil)
	v.Assert(s == nil && (err == want || kind == 2 && ctx.ended(err)), "the error of starting is not returned")
	v.Assert(t.n == 0 || t.err != nil || t.w.Closed() > 0, "a failed start does not close the packet writer")
	v.Quiesce()
	v.NoOthers("a failed start does not cancel the context of the call")
	v.Reach("failed")
}

func data(b []byte, complete bool, err error) []byte {
	return hx.Enc(srpc.NewCallDataPacket(b, len(b) == 0 && !complete && err == nil, complete, err))
}

// H_unary: whatever ends a unary call.
//
// sym: delays=1 delays@thorough=3
func H_unary() {
	t, ctx := newTransport(), newCaller()
	t.breakWriter()
	out := hx.M(nil)
	b := v.BytesUpTo("out", 2)
	how := v.Choose("how", 12)
	var ok func(err error) bool
	is := func(want error) { ok = func(err error) bool { return err == want } }
	anyErr := func(err error) bool { return err != nil }
	feed := func() {}
	switch how {
	case 0: // a response and its completion
		is(nil)
		feed = func() { _ = t.h(data(b, false, nil)); _ = t.h(data(nil, true, nil)) }
	case 1: // a response without completion
		is(nil)
		feed = func() { _ = t.h(data(b, false, nil)) }
	case 2: // the response cannot be decoded
		out.UErr = errFail
		ok = func(err error) bool { return errors.Is(err, srpc.ErrInvalidMessage) }
		feed = func() { _ = t.h(data(b, false, nil)) }
	case 3: // a remote error
		ok = func(err error) bool { return err != nil && err.Error() == "remote" }
		feed = func() { _ = t.h(data(nil, true, errors.New("remote"))) }
	case 4: // completed without a response
		ok = anyErr
		feed = func() { _ = t.h(data(nil, true, nil)) }
	case 5: // the stream ends
		ok = anyErr
		feed = func() { t.ch(nil) }
	case 6: // the stream fails
		is(errFail)
		feed = func() { t.ch(errFail) }
	case 7: // the peer cancels
		ok = anyErr
		feed = func() { _ = t.h(hx.Enc(srpc.NewCallCancelPacket())) }
	case 8: // a packet that cannot be decoded, after which the transport gives up
		ok = anyErr
		feed = func() {
			err := t.h([]byte{0xff})
			v.Assert(err != nil, "an undecodable packet is accepted")
			t.ch(err)
		}
	case 9: // cancelled
		ok = ctx.ended
		feed = ctx.cancel
	case 10: // cancelled while the stream ends
		ok = anyErr
		feed = func() { ctx.cancel(); t.ch(io.EOF) }
	case 11: // cancelled while the response arrives
		ok = func(err error) bool { return err == nil || ctx.ended(err) }
		feed = func() { ctx.cancel(); _ = t.h(data(b, false, nil)) }
	}
	fed := make(chan struct{})
	go func() {
		<-t.started
		feed()
		close(fed)
	}()
	err := srpc.NewClient(t.open).ExecCall(ctx, "s", "m", hx.M([]byte{1}), out)
	v.Assert(t.w.Closed() > 0, "a call returns without closing its packet writer")
	v.Assert(ok(err), "a call does not return its outcome")
	if err == nil {
		v.Assert(hx.Eq(out.B, b), "a call returns another response")
		v.Reach("ok")
	} else {
		v.Reach("error")
	}
	v.Assert(t.n == 1, "a call does not open exactly one stream")
	<-fed
	v.Quiesce()
	v.NoOthers("a finished call does not cancel its context")
}

// H_close: closing a stream tells the peer, then closes the writer; twice is harmless.
//
// sym: delays=1 delays@thorough=2
func H_close() {
	t, ctx := newTransport(), newCaller()
	t.breakWriter()
	failing := t.w.Fail != nil
	s, err := srpc.NewClient(t.open).NewStream(ctx, "s", "m", nil)
	if err != nil {
		v.Fail("the stream is not started")
		return
	}
	v.Assert(t.w.Closed() == 0, "a started stream is closed")
	peerClosed := false
	switch v.Choose("before", 8) {
	case 0:
	case 1:
		_ = s.MsgSend(hx.M(v.BytesUpTo("out", 1)))
	case 2:
		_ = s.CloseSend()
	case 3:
		_ = t.h(data(v.BytesUpTo("in", 1), false, nil))
		if v.Bool("recv") {
			v.Assert(s.MsgRecv(hx.M(nil)) == nil, "a message is not received")
		}
	case 4:
		_ = t.h(data(nil, true, nil))
	case 5:
		_ = t.h(data(nil, true, errors.New("remote")))
	case 6:
		t.ch(io.EOF)
		peerClosed = true
	case 7:
		ctx.cancel()
	}
	readers := make(chan struct{})
	if v.Bool("reader") {
		go func() { _ = s.MsgRecv(hx.M(nil)); close(readers) }()
	} else {
		close(readers)
	}
	errs := [2]error{s.Close(), nil}
	v.Assert(t.w.Closed() > 0, "closing a stream does not close its packet writer")
	told := false
	for _, p := range t.w.Snapshot() {
		if p.Kind == hx.Cancel && p.Flag {
			told = true
		}
	}
	if !failing && !peerClosed {
		v.Assert(told, "closing a stream does not tell the peer")
		v.Reach("told")
	}
	<-readers
	switch v.Choose("again", 3) {
	case 0:
	case 1:
		errs[1] = s.Close()
		v.Reach("twice")
	case 2:
		t.ch(io.EOF)
	}
	v.Quiesce()
	v.NoOthers("closing a stream does not cancel the context of the call")
	v.Reach("closed")
}

// H_order: the cancel packet is written before the writer is closed.
//
// sym: race=0
func H_order() {
	t, ctx := newTransport(), newCaller()
	closed := false
	t.w.OnClose = func() { closed = true }
	t.w.OnWrite = func(p *hx.Pkt) {
		if p.Kind == hx.Cancel {
			v.Assert(!closed, "the peer is told after the packet writer was closed")
			v.Reach("cancel packet")
		}
	}
	s, err := srpc.NewClient(t.open).NewStream(ctx, "s", "m", hx.M(v.BytesUpTo("in", 1)))
	if err != nil {
		v.Fail("the stream is not started")
		return
	}
	_ = s.Close()
	v.Assert(closed, "closing a stream does not close its packet writer")
	v.Quiesce()
	v.NoOthers("closing a stream does not cancel the context of the call")
	v.Reach("order")
}
