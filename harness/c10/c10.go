// Package c10: cancellation and close reach both sides and unblock every waiter.
//
// bound: one call; cancellation, close or connection failure at every scheduling point, before, during and after a read, with 0 or 1 messages under way; delay bound 2 (reads after the end 1; thorough 3), on the server alone 3 (thorough 4).
// assume: the transport reports the close of either end to the other end, as the buffered stream of the harness does.
package c10

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// conn is a client and server whose contexts are independent.
type conn struct {
	*hx.Conn
	inv    *hx.Inv
	ctxEnd chan struct{} // closed when the handler saw its context end
}

// newConn: the handler sends n messages and then waits (for its context or a message).
func newConn(n, wait int) *conn {
	c := &conn{ctxEnd: make(chan struct{})}
	c.inv = &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		for i := 0; i < n; i++ {
			if strm.MsgSend(hx.M([]byte{7})) != nil {
				break
			}
		}
		if wait == 1 {
			for {
				x := hx.M(nil)
				if err := strm.MsgRecv(x); err != nil {
					break
				}
			}
		}
		<-strm.Context().Done()
		v.Assert(strm.Context().Err() == context.Canceled, "the stream context ends with another error")
		v.Assert(strm.MsgSend(hx.M(nil)) != nil, "sending under a cancelled context succeeds")
		if strm.MsgRecv(hx.M(nil)) == nil { // the request may still be drained
			v.Assert(strm.MsgRecv(hx.M(nil)) != nil, "receiving on a cancelled call succeeds")
		}
		close(c.ctxEnd)
		return true, strm.Context().Err()
	}}
	c.Conn = hx.NewConn(c.inv, 8)
	c.SrvCtx = context.Background()
	return c
}

// stop ends the call in one of the ways there are; returns a name for it.
func (c *conn) stop(k int, cancel func(), strm srpc.Stream) {
	cl, sv := c.Streams()
	switch k {
	case 0:
		cancel()
	case 1:
		_ = strm.Close()
	case 2:
		_ = cl[0].Close()
	case 3:
		_ = sv[0].Close()
	}
}

// newCtx is a context which will be cancelled or expire.
func newCtx(expires bool) (context.Context, func()) {
	if !expires {
		return context.WithCancel(context.Background())
	}
	c := hx.NewCtx()
	return c, func() { c.End(context.DeadlineExceeded) }
}

// cancelled: err reports that the caller's context has ended.
func cancelled(err error) bool {
	return err == context.Canceled || err == context.DeadlineExceeded
}

// H_stream: a streaming call with a pending reader.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_stream() { stream(false) }

// H_stream_expire: the same with a context which expires.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_stream_expire() { stream(true) }

func stream(expires bool) {
	k := 0
	if !expires {
		k = v.Choose("how", 4)
	}
	n := v.Choose("n", 2)
	c := newConn(n, v.Choose("wait", 2))
	ctx, cancel := newCtx(expires)
	defer cancel()
	strm, err := c.Client.NewStream(ctx, "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	read := make(chan struct{})
	go func() {
		defer close(read)
		for i := 0; ; i++ {
			x := hx.M(nil)
			if strm.MsgRecv(x) != nil {
				break
			}
			v.Assert(i < n && hx.Eq(x.B, []byte{7}), "message invented")
		}
	}()
	c.stop(k, cancel, strm)
	<-read // a pending read returns
	v.Quiesce()
	if strm.MsgRecv(hx.M(nil)) == nil {
		// a message received before the end may still be drained
		v.Assert(n == 1, "message invented")
		v.Assert(strm.MsgRecv(hx.M(nil)) != nil, "a later read returns no error")
	}
	if c.inv.Count() > 0 {
		<-c.ctxEnd // the server's context is cancelled
		v.Reach("server saw it")
	}
	v.Quiesce()
	v.NoOthers("something of the call is left running")
}

// H_later: the read starts after the end.
//
// sym: delays=1 delays@thorough=3 budget=400
func H_later() {
	k := v.Choose("how", 4)
	c := newConn(v.Choose("n", 2), v.Choose("wait", 2))
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	strm, err := c.Client.NewStream(ctx, "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	c.stop(k, cancel, strm)
	if v.Choose("quiet", 2) == 1 {
		v.Quiesce()
		if k == 1 {
			v.NoOthers("something is left running after Close")
		}
	}
	for i := 0; strm.MsgRecv(hx.M(nil)) == nil; i++ {
		v.Assert(i == 0, "message invented")
	}
	if k == 0 || k == 1 {
		v.Assert(strm.MsgSend(hx.M([]byte("x"))) != nil, "sending on an ended call succeeds")
	}
	v.Quiesce()
	v.NoOthers("something of the call is left running")
}

// H_unary: cancelling the context of a unary call.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_unary() { unary(false) }

// H_unary_expire: the same with a context which expires.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_unary_expire() { unary(true) }

func unary(expires bool) {
	k := 0
	if !expires {
		k = v.Choose("how", 3)
	}
	c := newConn(0, v.Choose("wait", 2))
	ctx, cancel := newCtx(expires)
	defer cancel()
	done := make(chan error, 1)
	go func() {
		done <- c.Client.ExecCall(ctx, "svc", "m", hx.M([]byte("q")), hx.M(nil))
	}()
	if v.Choose("quiet", 2) == 1 {
		v.Quiesce()
	}
	cl, _ := c.Streams()
	if k != 0 && len(cl) == 0 {
		v.Quiesce()
		cl, _ = c.Streams()
	}
	v.Assert(k == 0 || len(cl) == 1, "no stream opened")
	if k == 0 {
		cancel()
	} else {
		c.stop(k+1, cancel, nil)
	}
	err := <-done
	v.Assert(err != nil, "a cancelled call succeeds")
	if k == 0 {
		v.Assert(cancelled(err), "a cancelled call does not return a cancelled error")
	}
	v.Quiesce()
	if c.inv.Count() > 0 {
		<-c.ctxEnd
		v.Reach("server saw it")
	}
	v.Quiesce()
	v.NoOthers("something of the call is left running")
}

// H_cancelled: a client starting a call under an already cancelled context.
func H_cancelled() {
	w := &hx.PW{}
	cl := srpc.NewClient(func(ctx context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		return w, nil
	})
	ctx, cancel := newCtx(v.Choose("expires", 2) == 1)
	cancel()
	m := hx.M(v.BytesUpTo("m", 1))
	switch v.Choose("kind", 4) {
	case 0:
		v.Assert(cancelled(cl.ExecCall(ctx, "svc", "m", m, hx.M(nil))), "ExecCall does not return a cancelled error")
	case 1:
		s, err := cl.NewStream(ctx, "svc", "m", nil)
		v.Assert(cancelled(err) && s == nil, "NewStream does not return a cancelled error")
	case 2:
		s, err := cl.NewStream(ctx, "svc", "m", m)
		v.Assert(cancelled(err) && s == nil, "NewStream does not return a cancelled error")
	case 3:
		rpc := srpc.NewClientRPC(ctx, "svc", "m")
		v.Assert(cancelled(rpc.Start(w, true, m.B)), "Start does not return a cancelled error")
	}
	v.Assert(len(w.Pkts) == 0, "a call under a cancelled context sends something")
	v.Assert(w.Closed() > 0, "the writer is not closed")
	v.NoOthers("something is left running")
}

// H_server_cancel: cancel packet or stream close on the server, before and after the start.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_server_cancel() {
	before := v.Choose("before", 2) == 1
	wait := v.Choose("wait", 3)
	ended := false
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		ended = true
		switch wait {
		case 0:
			<-strm.Context().Done()
		case 1:
			v.Assert(strm.MsgRecv(hx.M(nil)) != nil, "a read of a cancelled call succeeds")
			<-strm.Context().Done()
		case 2:
			err := strm.MsgRecv(hx.M(nil))
			v.Assert(err != nil, "a read of a cancelled call succeeds")
		}
		return true, nil
	}}
	w := &hx.PW{}
	rpc := srpc.NewServerRPC(context.Background(), inv, w)
	stop := func() {
		switch v.Choose("how", 3) {
		case 0:
			v.Assert(rpc.HandlePacket(srpc.NewCallCancelPacket()) == nil, "cancel refused")
		case 1:
			rpc.HandleStreamClose(nil)
		case 2:
			rpc.HandleStreamClose(&hx.Err{S: "lost"})
		}
	}
	start := srpc.NewCallStartPacket("svc", "m", nil, false)
	if before {
		stop()
		v.Assert(rpc.HandlePacket(start) != nil, "a start after the cancellation is accepted")
		v.Quiesce()
		v.Assert(inv.Count() == 0, "a cancelled call is invoked")
		v.Assert(!ended, "a cancelled call is invoked")
	} else {
		v.Assert(rpc.HandlePacket(start) == nil, "start refused")
		stop()
		v.Quiesce()
		v.Assert(inv.Count() == 1, "a started call is not invoked")
	}
	v.Assert(rpc.Context().Err() == context.Canceled, "the call's context is not cancelled")
	v.NoOthers("the handler is not unblocked")
}

// H_server_parent: the connection's context ends.
//
// sym: delays=2 delays@thorough=3
func H_server_parent() {
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		for strm.MsgRecv(hx.M(nil)) == nil {
		}
		return true, nil
	}}
	w := &hx.PW{}
	ctx, cancel := context.WithCancel(context.Background())
	rpc := srpc.NewServerRPC(ctx, inv, w)
	v.Assert(rpc.HandlePacket(srpc.NewCallStartPacket("svc", "m", []byte("x"), false)) == nil, "start refused")
	cancel()
	v.Quiesce()
	v.Assert(w.Closed() > 0, "the writer is not closed")
	v.NoOthers("the handler is not unblocked")
}

// H_wait: Wait returns when the call or the caller's context ends.
//
// sym: delays=2 delays@thorough=3
func H_wait() {
	rpc := srpc.NewClientRPC(context.Background(), "svc", "m")
	v.Assert(rpc.Start(&hx.PW{}, false, nil) == nil, "start fails")
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	done := make(chan error, 1)
	go func() { done <- rpc.Wait(ctx) }()
	k := v.Choose("how", 5)
	switch k {
	case 0:
		cancel()
	case 1:
		rpc.Close()
	case 2:
		rpc.HandleStreamClose(nil)
	case 3:
		rpc.HandleStreamClose(&hx.Err{S: "lost"})
	case 4:
		v.Assert(rpc.HandlePacket(srpc.NewCallDataPacket(nil, false, true, &hx.Err{S: "lost"})) == nil, "completion")
	}
	err := <-done
	if k == 3 {
		v.Assert(err != nil, "Wait does not return an error")
	} else if k == 4 {
		v.Assert(err.Error() == "lost", "Wait does not return the call's error")
	} else {
		v.Assert(err == context.Canceled, "Wait does not return a cancelled error")
	}
}
