// Package c27: a call nested in an rpc stream behaves like a direct call.
//
// bound: one nested unary call with service, method, request, response and error text of 1 symbolic byte each, and one nested bidirectional call of 2 messages per direction, with and without waiting for the ack, delay bound 1 (thorough 2); every lookup failure; nesting depth 2; packets handed on by the rpcstream read loop: 3 of every kind.
package c27

import (
	"context"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// rs is an rpc stream over a stream.
type rs struct{ srpc.Stream }

func (r *rs) Send(p *rpcstream.RpcStreamPacket) error { return r.MsgSend(p) }
func (r *rs) Recv() (*rpcstream.RpcStreamPacket, error) {
	p := &rpcstream.RpcStreamPacket{}
	if err := r.MsgRecv(p); err != nil {
		return nil, err
	}
	return p, nil
}

// host is an invoker serving rpc streams.
func host(getter rpcstream.RpcStreamGetter) *hx.Inv {
	return &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		return true, rpcstream.HandleRpcStream(&rs{strm}, getter)
	}}
}

// nested is a client calling through an rpc stream of c.
func nested(c srpc.Client, id string, wait bool) srpc.Client {
	return rpcstream.NewRpcStreamClient(func(ctx context.Context) (*rs, error) {
		s, err := c.NewStream(ctx, "host", "RpcStream", nil)
		if err != nil {
			return nil, err
		}
		return &rs{s}, nil
	}, id, wait)
}

func unary(depth int) {
	svc, meth := "s"+v.String("ids", 1), "m"+v.String("ids", 1)
	n := 1
	if depth > 1 || v.Thorough() {
		n = v.Choose("len", 2)
	}
	req, resp := v.Bytes("req", n), v.Bytes("resp", n)
	outcome := v.Choose("outcome", 3)
	txt := v.String("txt", 1)
	comp := &hx.Inv{Fn: func(gs, gm string, strm srpc.Stream) (bool, error) {
		v.Assert(gs == svc && gm == meth, "the component is asked for another method")
		m := hx.M(nil)
		v.Assert(strm.MsgRecv(m) == nil, "the component gets no request")
		v.Assert(hx.Eq(m.B, req), "the component gets another request")
		switch outcome {
		case 1:
			return true, &hx.Err{S: txt}
		case 2:
			return false, nil
		}
		return true, strm.MsgSend(hx.M(resp))
	}}
	nrel := 0
	var inv srpc.Invoker = comp
	for i := 0; i < depth; i++ {
		target := inv
		inv = host(func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
			v.Assert(id == "comp", "another component is looked up")
			return target, func() { nrel++ }, nil
		})
	}
	cn := hx.NewConn(inv, 4)
	client := cn.Client
	wait := v.Choose("wait", 2) == 1
	for i := 0; i < depth; i++ {
		client = nested(client, "comp", wait)
	}
	out := hx.M([]byte{9, 9})
	err := client.ExecCall(context.Background(), svc, meth, hx.M(req), out)
	switch outcome {
	case 0:
		v.Assert(err == nil, "a successful call fails")
		v.Assert(hx.Eq(out.B, resp), "the caller gets another response")
	case 1:
		v.Assert(err != nil && err.Error() == txt, "the caller does not get the error of the method")
	case 2:
		v.Assert(err != nil && err.Error() == srpc.ErrUnimplemented.Error(), "the caller does not get the unimplemented error")
	}
	v.Quiesce()
	v.Assert(comp.Count() == 1, "the method is not invoked exactly once")
	v.Assert(nrel == depth, "the component is not released exactly once")
	v.NoOthers("a goroutine is left behind")
	v.Reach("called")
}

// H_unary: one nested unary call.
//
// sym: delays=1 delays@thorough=2 paths=6000000 budget=500 race=1
func H_unary() { unary(1) }

// H_deep: nested twice.
//
// sym: delays=0 delays@thorough=1 paths=6000000 budget=500
func H_deep() { unary(2) }

// H_stream: a nested bidirectional call.
//
// sym: delays=1 delays@thorough=2 paths=6000000 budget=500
func H_stream() {
	a, b := v.Bytes("a", 2), v.Bytes("b", 2)
	fail := v.Choose("fail", 2) == 1
	wait := v.Choose("wait", 2) == 1
	if !v.Thorough() {
		v.Assume(fail == wait) // the other combinations are left to the thorough tier
	}
	comp := &hx.Inv{Fn: func(gs, gm string, strm srpc.Stream) (bool, error) {
		for i := 0; i < 2; i++ {
			m := hx.M(nil)
			v.Assert(strm.MsgRecv(m) == nil && hx.Eq(m.B, a[i:i+1]), "a message of the caller is lost or changed")
			v.Assert(strm.MsgSend(hx.M(b[i:i+1])) == nil, "sending fails")
		}
		m := hx.M(nil)
		v.Assert(strm.MsgRecv(m) == io.EOF, "the component does not see the end of the stream")
		if fail {
			return true, &hx.Err{S: "late"}
		}
		return true, nil
	}}
	cn := hx.NewConn(host(func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		return comp, nil, nil
	}), 8)
	client := nested(cn.Client, "comp", wait)
	s, err := client.NewStream(context.Background(), "s", "m", nil)
	v.Assert(err == nil, "opening a stream fails")
	for i := 0; i < 2; i++ {
		v.Assert(s.MsgSend(hx.M(a[i:i+1])) == nil, "sending fails")
	}
	v.Assert(s.CloseSend() == nil, "half close fails")
	for i := 0; i < 2; i++ {
		m := hx.M(nil)
		v.Assert(s.MsgRecv(m) == nil && hx.Eq(m.B, b[i:i+1]), "a message of the component is lost or changed")
	}
	err = s.MsgRecv(hx.M(nil))
	if fail {
		v.Assert(err != nil && err.Error() == "late", "the caller does not get the error of the method")
	} else {
		v.Assert(err == io.EOF, "the caller does not see the end of the stream")
	}
	_ = s.Close()
	v.Quiesce()
	v.Assert(comp.Count() == 1, "the method is not invoked exactly once")
	v.NoOthers("a goroutine is left behind")
	v.Reach("streamed")
}

// H_missing: the component is not found.
//
// sym: delays=1 delays@thorough=2 paths=6000000 budget=500
func H_missing() {
	txt := "no server for that component"
	var lerr error
	if v.Choose("err", 2) == 1 {
		txt = v.String("txt", 2)
		lerr = &hx.Err{S: txt}
	}
	cn := hx.NewConn(host(func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		return nil, nil, lerr
	}), 8)
	wait := v.Choose("wait", 2) == 1
	client := nested(cn.Client, "comp", wait)
	if v.Choose("strm", 2) == 0 {
		err := client.ExecCall(context.Background(), "s", "m", hx.M([]byte{1}), hx.M(nil))
		v.Assert(err != nil, "a call to a missing component succeeds")
		v.Assert(!wait || strings.Contains(err.Error(), txt), "the caller does not get the error of the lookup")
		v.Reach("unary")
	} else {
		s, err := client.NewStream(context.Background(), "s", "m", nil)
		if err == nil {
			err = s.MsgRecv(hx.M(nil))
			_ = s.Close()
		}
		v.Assert(err != nil, "a call to a missing component succeeds")
		v.Assert(!wait || strings.Contains(err.Error(), txt), "the caller does not get the error of the lookup")
		v.Reach("stream")
	}
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
}

// H_echo: the echo server's rpc stream with the generated client.
//
// sym: delays=0 delays@thorough=1 paths=6000000 budget=500
func H_echo() {
	inner := srpc.NewMux()
	v.Assert(echo.SRPCRegisterEchoer(inner, echo.NewEchoServer(nil)) == nil, "register")
	outer := srpc.NewMux()
	v.Assert(echo.SRPCRegisterEchoer(outer, echo.NewEchoServer(inner)) == nil, "register")
	cn := hx.NewConn(outer, 8)
	oc := echo.NewSRPCEchoerClient(cn.Client)
	client := rpcstream.NewRpcStreamClient(oc.RpcStream, v.String("id", 1), v.Choose("wait", 2) == 1)
	ic := echo.NewSRPCEchoerClient(client)
	body := v.String("body", 2)
	m, err := ic.Echo(context.Background(), &echo.EchoMsg{Body: body})
	v.Assert(err == nil && m.GetBody() == body, "a nested echo fails")
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
	v.Reach("echoed")
}

// H_pump: the read loop hands on the data of the packets, and then the end.
//
// sym: delays=1 paths=3000000 budget=300
func H_pump() {
	var pkts, want [][]byte
	for i := 0; i < 3; i++ {
		switch v.Choose("kind", 4) {
		case 0:
			b := v.Bytes("d", v.Choose("dl", 2)+1)
			pkts, want = append(pkts, hx.RData(b)), append(want, b)
		case 1:
			pkts = append(pkts, hx.RData(nil))
		case 2:
			pkts = append(pkts, hx.RAck(""))
		case 3:
			pkts = append(pkts, nil)
		}
	}
	end := io.EOF
	if v.Choose("end", 2) == 1 {
		end = &hx.Err{S: "end"}
	}
	stop := v.Choose("stop", 4) // the handler fails on this packet
	he := &hx.Err{S: "handler"}
	var got [][]byte
	nclosed := 0
	var cerr error
	s := hx.NewRS(context.Background(), end, pkts...)
	cb := func(b []byte) error {
		got = append(got, append([]byte(nil), b...))
		if len(got) == stop+1 {
			return he
		}
		return nil
	}
	var closed srpc.CloseHandler
	if v.Choose("nil", 2) == 0 {
		closed = func(err error) { nclosed++; cerr = err }
	}
	rpcstream.ReadPump(s, cb, closed)
	wantErr := end
	if stop < len(want) {
		want = want[:stop+1]
		wantErr = he
		v.Reach("handler fails")
	}
	v.Assert(len(got) == len(want), "a packet is lost, invented or delivered after an error")
	for i := range got {
		v.Assert(hx.Eq(got[i], want[i]), "a packet is changed")
	}
	if closed != nil {
		v.Assert(nclosed == 1, "the close handler is not called exactly once")
		v.Assert(cerr == wantErr, "the close handler does not get the error")
		v.Reach("closed")
	}
}
