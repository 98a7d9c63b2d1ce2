// Package c14: half-closing a stream ends it without inventing a message.
//
// bound: up to 3 messages of 0 or 1 symbolic bytes before the half close and up to 2 in the other direction after it, on either side; buffered streams, delay bound 1 (thorough 2); recorded packets of 3 (thorough 4) sends.
package c14

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

func msgs(label string, max int) [][]byte {
	n := v.Choose("n"+label, max+1)
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, v.BytesUpTo(label, 1))
	}
	return r
}

func send(s srpc.Stream, ms [][]byte) {
	for _, m := range ms {
		v.Assert(s.MsgSend(hx.M(m)) == nil, "send fails")
	}
}

// recv expects exactly the messages and then end-of-stream.
func recv(s srpc.Stream, ms [][]byte) {
	for _, m := range ms {
		x := hx.M([]byte("old"))
		err := s.MsgRecv(x)
		v.Assert(err == nil, "the stream ends before the messages sent before the half close")
		v.Assert(hx.Eq(x.B, m), "message changed")
	}
	x := hx.M([]byte("old"))
	v.Assert(s.MsgRecv(x) == io.EOF, "no end-of-stream after the half close")
	v.Assert(string(x.B) == "old", "end-of-stream delivers a message")
	v.Assert(s.MsgRecv(x) == io.EOF, "end-of-stream is not final")
}

// H_client: the client half-closes and still receives.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_client() {
	up, down := msgs("u", 2), msgs("d", 2)
	first := v.Choose("first", 3)
	ok := false
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		want := up
		if first == 1 {
			want = append([][]byte{{'f'}}, up...)
		} else if first == 2 {
			want = append([][]byte{nil}, up...)
		}
		recv(strm, want)
		send(strm, down)
		ok = true
		return true, nil
	}}
	c := hx.NewConn(inv, 8)
	var fm srpc.Message
	if first == 1 {
		fm = hx.M([]byte("f"))
	} else if first == 2 {
		fm = hx.M(nil)
	}
	strm, err := c.Client.NewStream(context.Background(), "svc", "m", fm)
	v.Assert(err == nil, "NewStream fails")
	send(strm, up)
	v.Assert(strm.CloseSend() == nil, "CloseSend fails")
	recv(strm, down)
	v.Quiesce()
	v.Assert(ok, "the handler did not finish")
}

// H_server: the handler half-closes and still receives.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_server() {
	up, down := msgs("u", 2), msgs("d", 2)
	ok := false
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		send(strm, down)
		v.Assert(strm.CloseSend() == nil, "CloseSend fails")
		recv(strm, up)
		ok = true
		return true, nil
	}}
	c := hx.NewConn(inv, 8)
	strm, err := c.Client.NewStream(context.Background(), "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	recv(strm, down)
	send(strm, up)
	v.Assert(strm.CloseSend() == nil, "CloseSend fails")
	v.Quiesce()
	v.Assert(ok, "the handler did not finish")
	v.Assert(strm.MsgRecv(hx.M(nil)) == io.EOF, "the end of the call changes the outcome of the half close")
}

// H_both: both sides half-close at any time.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_both() {
	up, down := msgs("u", 1), msgs("d", 1)
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		send(strm, down)
		v.Assert(strm.CloseSend() == nil, "CloseSend fails")
		recv(strm, up)
		return true, nil
	}}
	c := hx.NewConn(inv, 8)
	strm, err := c.Client.NewStream(context.Background(), "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	send(strm, up)
	v.Assert(strm.CloseSend() == nil, "CloseSend fails")
	recv(strm, down)
}

// H_packets: what is written for messages and half closes.
func H_packets() {
	w := &hx.PW{}
	var strm srpc.Stream
	if v.Choose("side", 2) == 0 {
		rpc := srpc.NewClientRPC(context.Background(), "svc", "m")
		v.Assert(rpc.Start(w, false, nil) == nil, "start")
		p := w.Pkts[0]
		v.Assert(p.Kind == hx.Start && !p.HasMsg() && p.Service == "svc" && p.Method == "m", "the call start invents a message")
		w.Pkts = nil
		strm = srpc.NewMsgStream(rpc.Context(), rpc, nil)
	} else {
		rpc := srpc.NewServerRPC(context.Background(), nil, w)
		strm = srpc.NewMsgStream(rpc.Context(), rpc, nil)
	}
	ms := msgs("m", v.Bound(3, 4))
	send(strm, ms)
	v.Assert(strm.CloseSend() == nil, "CloseSend fails")
	v.Assert(len(w.Pkts) == len(ms)+1, "not one packet per message")
	for i, m := range ms {
		p := w.Pkts[i]
		v.Assert(p.Kind == hx.Data && p.HasMsg() && !p.Complete && p.Err == "" && hx.Eq(p.Data, m), "an empty message is not distinguishable or a message is changed")
	}
	p := w.Pkts[len(ms)]
	v.Assert(p.Kind == hx.Data && p.Complete && !p.HasMsg() && p.Err == "", "closing the send direction sends a message or does not close")
	v.Assert(w.NClose == 0, "closing the send direction closes the stream")
}

// H_start: the first message of a call, empty or absent.
func H_start() {
	w := &hx.PW{}
	rpc := srpc.NewClientRPC(context.Background(), "svc", "m")
	with := v.Choose("with", 2) == 1
	m := v.BytesUpTo("m", 1)
	if !with {
		m = nil
	}
	v.Assert(rpc.Start(w, with, m) == nil, "start")
	p := w.Pkts[0]
	v.Assert(len(w.Pkts) == 1 && p.Kind == hx.Start && p.HasMsg() == with && hx.Eq(p.Data, m), "the first message is lost, changed or invented")
}
