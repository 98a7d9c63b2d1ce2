// Package c08: a unary call ends with its own result, one invocation and no leftovers.
//
// bound: requests and responses of 0 or 1 (thorough up to 2) symbolic bytes or an error of 1 symbolic byte; buffered and unbuffered (net.Pipe) streams, delay bound 2 (thorough 3); two concurrent calls with delay bound 1 (thorough 2).
package c08

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

type call struct {
	req, resp []byte
	err       error
}

func anyCall() *call {
	c := &call{req: v.BytesUpTo("req", v.Bound(1, 2))}
	if v.Choose("fails", 2) == 1 {
		c.err = &hx.Err{S: v.String("e", 1)}
	} else {
		c.resp = v.BytesUpTo("resp", v.Bound(1, 2))
	}
	return c
}

// serve is a unary handler as the generator emits it.
func (c *call) serve(svc, meth string, strm srpc.Stream) (bool, error) {
	v.Assert(svc == "svc" && meth == "m", "wrong method invoked")
	x := hx.M([]byte("old"))
	if err := strm.MsgRecv(x); err != nil {
		v.Fail("the request does not arrive: " + err.Error())
	}
	v.Assert(hx.Eq(x.B, c.req), "the request is changed")
	if c.err != nil {
		return true, c.err
	}
	return true, strm.MsgSend(hx.M(c.resp))
}

func (c *call) check(err error, x *hx.Msg) {
	if c.err != nil {
		v.Assert(err != nil && err.Error() == c.err.Error(), "the handler's error is not returned")
		return
	}
	v.Assert(err == nil, "a successful call fails")
	v.Assert(hx.Eq(x.B, c.resp), "the response is changed")
}

// H_buffered: over a buffered transport.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_buffered() {
	k := anyCall()
	inv := &hx.Inv{Fn: k.serve}
	c := hx.NewConn(inv, 4)
	x := hx.M([]byte("old"))
	k.check(c.Client.ExecCall(context.Background(), "svc", "m", hx.M(k.req), x), x)
	cl, sv := c.Streams()
	v.Assert(len(cl) == 1, "not exactly one stream opened")
	v.Assert(cl[0].Closed() > 0, "the call returned without closing its stream")
	v.Assert(inv.Count() == 1, "not invoked exactly once")
	v.Quiesce()
	v.Assert(sv[0].Closed() > 0, "the server does not close its end")
	v.Quiesce()
	v.NoOthers("something of the call is left running")
	v.Reach("done")
}

// H_unbuffered: over a synchronous in-memory pipe.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_unbuffered() {
	k := anyCall()
	inv := &hx.Inv{Fn: k.serve}
	open := srpc.NewServerPipe(srpc.NewServer(inv))
	x := hx.M([]byte("old"))
	k.check(srpc.NewClient(open).ExecCall(context.Background(), "svc", "m", hx.M(k.req), x), x)
	v.Assert(inv.Count() == 1, "not invoked exactly once")
	v.Quiesce()
	v.NoOthers("something of the call is left running")
	v.Reach("done")
}

// H_two: concurrent calls get their own results.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_two() {
	a, b := v.Byte("a"), v.Byte("b")
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		x := hx.M(nil)
		if err := strm.MsgRecv(x); err != nil {
			return true, err
		}
		if meth == "bad" {
			return true, &hx.Err{S: "x" + string(x.B)}
		}
		return true, strm.MsgSend(hx.M(append([]byte(svc), x.B...)))
	}}
	c := hx.NewConn(inv, 4)
	done := make(chan struct{})
	go func() {
		defer close(done)
		x := hx.M(nil)
		v.Assert(c.Client.ExecCall(context.Background(), "s2", "m", hx.M([]byte{b}), x) == nil, "second call fails")
		v.Assert(hx.Eq(x.B, []byte{'s', '2', b}), "the second call gets another response")
	}()
	x := hx.M(nil)
	if v.Choose("bad", 2) == 1 {
		err := c.Client.ExecCall(context.Background(), "s1", "bad", hx.M([]byte{a}), x)
		v.Assert(err != nil && err.Error() == "x"+string([]byte{a}), "the first call gets another error")
	} else {
		v.Assert(c.Client.ExecCall(context.Background(), "s1", "m", hx.M([]byte{a}), x) == nil, "first call fails")
		v.Assert(hx.Eq(x.B, []byte{'s', '1', a}), "the first call gets another response")
	}
	<-done
	v.Assert(inv.Count() == 2, "not one invocation per call")
	v.Quiesce()
	v.NoOthers("something of the calls is left running")
}

// H_early: a handler that answers without reading its request, or fails after answering.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_early() {
	k := v.Choose("kind", 3)
	r := v.Byte("r")
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		switch k {
		case 0:
			return true, strm.MsgSend(hx.M([]byte{r}))
		case 1:
			if err := strm.MsgSend(hx.M([]byte{r})); err != nil {
				return true, err
			}
			return true, &hx.Err{S: "late"}
		}
		// sends until the caller is gone
		for i := 0; i < 3; i++ {
			if err := strm.MsgSend(hx.M([]byte{r})); err != nil {
				return true, err
			}
		}
		<-strm.Context().Done()
		return true, strm.Context().Err()
	}}
	c := hx.NewConn(inv, 8)
	c.SrvCtx = context.Background()
	x := hx.M(nil)
	v.Assert(c.Client.ExecCall(context.Background(), "svc", "m", hx.M([]byte("q")), x) == nil, "the call fails although a response was sent")
	v.Assert(hx.Eq(x.B, []byte{r}), "the response is changed")
	v.Assert(inv.Count() == 1, "not invoked exactly once")
	v.Quiesce()
	v.NoOthers("something of the call is left running")
}
