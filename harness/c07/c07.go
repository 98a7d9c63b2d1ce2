// Package c07: the handler's outcome reaches the caller unchanged.
//
// bound: up to 3 messages of 0 or 1 symbolic bytes, error texts of 1 to 3 symbolic bytes, of 1 symbolic and 200 fixed bytes, or of well known errors; client and server connected by buffered streams, delay bound 1 (thorough 2) end to end and 2 (thorough 3) on the server alone.
// assume: the handler does not close the stream or its send direction itself.
package c07

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

const long = "01234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789"

// outcome is what a handler returns.
type outcome struct {
	found bool
	err   error
}

// want is the error text the caller sees, "" is none.
func (o *outcome) want() string {
	if o.err != nil {
		return o.err.Error()
	}
	if !o.found {
		return "unimplemented"
	}
	return ""
}

func anyOutcome() *outcome {
	o := &outcome{found: v.Choose("found", 2) == 1}
	switch v.Choose("kind", 12) {
	case 1:
		o.err = &hx.Err{S: v.String("e", 1)}
	case 2:
		o.err = &hx.Err{S: v.String("e", 2)}
	case 3:
		o.err = &hx.Err{S: v.String("e", 3)}
	case 4:
		o.err = &hx.Err{S: v.String("e", 1) + long}
	case 5:
		o.err = io.EOF
	case 6:
		o.err = context.Canceled
	case 7:
		o.err = srpc.ErrUnimplemented
	case 8:
		o.err = srpc.ErrCompleted
	case 9:
		o.err = context.DeadlineExceeded
	case 10:
		o.err = &hx.WErr{E: context.Canceled}
	case 11:
		o.err = &hx.WErr{E: srpc.ErrUnimplemented}
	}
	return o
}

func msgs(max int) [][]byte {
	n := v.Choose("nmsg", max+1)
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, v.BytesUpTo("m", 1))
	}
	return r
}

func handler(ms [][]byte, o *outcome) *hx.Inv {
	return &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		for _, m := range ms {
			v.Assert(strm.MsgSend(hx.M(m)) == nil, "send fails")
		}
		return o.found, o.err
	}}
}

// H_server: messages, then exactly one completion with the outcome, then the close.
//
// sym: delays=2 delays@thorough=3
func H_server() {
	ms, o := msgs(v.Bound(2, 3)), anyOutcome()
	w := &hx.PW{}
	inv := handler(ms, o)
	rpc := srpc.NewServerRPC(context.Background(), inv, w)
	v.Assert(rpc.HandlePacket(srpc.NewCallStartPacket("svc", "m", nil, v.Choose("first", 2) == 1)) == nil, "start refused")
	switch v.Choose("later", 3) {
	case 1:
		_ = rpc.HandlePacket(srpc.NewCallDataPacket([]byte("x"), false, false, nil))
	case 2:
		_ = rpc.HandlePacket(srpc.NewCallDataPacket(nil, false, true, nil))
	}
	v.Quiesce()
	ps := w.Snapshot()
	v.Assert(len(ps) == len(ms)+1, "not exactly one completion packet after the messages")
	for i, m := range ms {
		p := ps[i]
		v.Assert(p.Kind == hx.Data && p.HasMsg() && hx.Eq(p.Data, m), "message lost or changed")
		v.Assert(!p.Complete && p.Err == "", "the call completes before its last message")
	}
	p := ps[len(ms)]
	v.Assert(p.Kind == hx.Data && p.Complete, "the last packet is not a completion")
	v.Assert(!p.HasMsg(), "the completion invents a message")
	v.Assert(p.Err == o.want(), "the outcome of the handler is changed")
	v.Assert(w.AfterClose == 0, "the completion is written after the writer was closed")
	v.Assert(w.Closed() > 0, "the writer is not closed")
	v.NoOthers("goroutine left behind")

	// and the client reads it
	cl := srpc.NewClientRPC(context.Background(), "svc", "m")
	v.Assert(cl.Start(&hx.PW{}, false, nil) == nil, "client start")
	for _, p := range ps {
		v.Assert(cl.HandlePacket(srpc.NewCallDataPacket(p.Data, p.Zero, p.Complete, errOf(p.Err))) == nil, "the client refuses a packet")
	}
	cl.HandleStreamClose(nil)
	for _, m := range ms {
		d, err := cl.ReadOne()
		v.Assert(err == nil && hx.Eq(d, m), "message not read")
	}
	_, err := cl.ReadOne()
	check(err, o)
}

func errOf(s string) error {
	if s == "" {
		return nil
	}
	return &hx.Err{S: s}
}

func check(err error, o *outcome) {
	v.Assert(err != nil, "a call without a message does not end")
	if w := o.want(); w == "" {
		v.Assert(err == io.EOF, "a successful method is reported as an error")
	} else {
		v.Assert(err.Error() == w, "the error text is changed")
	}
}

// H_stream: a streaming caller.
//
// sym: delays=1 delays@thorough=2
func H_stream() {
	ms, o := msgs(2), anyOutcome()
	inv := handler(ms, o)
	c := hx.NewConn(inv, 8)
	strm, err := c.Client.NewStream(context.Background(), "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	for _, m := range ms {
		x := hx.M([]byte("old"))
		v.Assert(strm.MsgRecv(x) == nil, "a message sent before the end is not received")
		v.Assert(hx.Eq(x.B, m), "message changed")
	}
	x := hx.M(nil)
	check(strm.MsgRecv(x), o)
	check(strm.MsgRecv(x), o)
	v.Assert(inv.Count() == 1, "not invoked exactly once")
}

// H_unary: a unary caller.
//
// sym: delays=1 delays@thorough=2
func H_unary() {
	ms, o := msgs(1), anyOutcome()
	c := hx.NewConn(handler(ms, o), 8)
	x := hx.M([]byte("old"))
	err := c.Client.ExecCall(context.Background(), "svc", "m", hx.M([]byte("q")), x)
	if len(ms) != 0 {
		v.Assert(err == nil, "the response was sent but the call fails")
		v.Assert(hx.Eq(x.B, ms[0]), "response changed")
		return
	}
	check(err, o)
	v.Assert(string(x.B) == "old", "a failed call changes the output message")
}

// H_mux: a service or method that does not exist.
//
// sym: delays=1
func H_mux() {
	mux := srpc.NewMux()
	n := 0
	h := &hnd{svc: "svc", meths: []string{"m"}, fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		n++
		v.Assert(strm.MsgSend(hx.M([]byte("r"))) == nil, "send")
		return true, nil
	}}
	v.Assert(mux.Register(h) == nil, "register")
	c := hx.NewConn(mux, 8)
	svc, meth := v.String("svc", 3), v.String("meth", 1)
	x := hx.M(nil)
	err := c.Client.ExecCall(context.Background(), svc, meth, hx.M(nil), x)
	if svc == "svc" && meth == "m" {
		v.Assert(err == nil && n == 1 && string(x.B) == "r", "existing method")
		v.Reach("exists")
	} else {
		v.Assert(err != nil && err.Error() == srpc.ErrUnimplemented.Error() && n == 0, "a missing method is not reported as unimplemented")
		v.Reach("missing")
	}
}

type hnd struct {
	svc   string
	meths []string
	fn    func(svc, meth string, strm srpc.Stream) (bool, error)
}

func (h *hnd) GetServiceID() string   { return h.svc }
func (h *hnd) GetMethodIDs() []string { return h.meths }
func (h *hnd) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	return h.fn(svc, meth, strm)
}
