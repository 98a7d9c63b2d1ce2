// Package c24: opening an rpc stream performs the handshake or fails cleanly.
//
// bound: component ids of 0 to 2 and error texts of 1 to 3 symbolic bytes, every first reply (ack with or without error, empty ack body, data, init, no body, end-of-stream, transport error, undecodable bytes), every failing send or call, with and without waiting for the ack; cancellation while waiting, delay bound 2 (thorough 3).
package c24

import (
	"context"
	"errors"
	"io"
	"strings"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// open opens a stream through OpenRpcStream or through an OpenStream function.
func open(ctx context.Context, how int, caller rpcstream.RpcStreamCaller[*hx.RS], id string, wait bool) (any, error) {
	if how == 0 {
		s, err := rpcstream.OpenRpcStream(ctx, caller, id, wait)
		if s == nil {
			return nil, err
		}
		return s, err
	}
	w, err := rpcstream.NewRpcStreamOpenStream(caller, id, wait)(ctx, func([]byte) error { return nil }, func(error) {})
	if w == nil {
		return nil, err
	}
	return w, err
}

func checkInit(rs *hx.RS, id string) {
	sent := rs.Sent()
	v.Assert(len(sent) == 1, "not exactly one packet is sent by the handshake")
	p := hx.RDec(sent[0])
	in, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Init)
	v.Assert(ok && in.Init != nil, "the first packet is not an init packet")
	v.Assert(in.Init.GetComponentId() == id, "the init packet does not carry the component id given")
}

// H_open: all replies.
//
// sym: delays=1 paths=3000000 budget=400
func H_open() {
	id := v.StringUpTo("id", 2)
	wait := v.Choose("wait", 2) == 1
	how := v.Choose("how", 2)
	txt := v.String("txt", v.Choose("tl", 3)+1)
	var pkts [][]byte
	var end error
	kind := v.Choose("kind", 9)
	switch kind {
	case 0:
		pkts = append(pkts, hx.RAck(""))
	case 1:
		pkts = append(pkts, hx.RAck(txt))
	case 2:
		pkts = append(pkts, hx.RData([]byte(txt)))
	case 3:
		pkts = append(pkts, hx.RInit(txt))
	case 4:
		pkts = append(pkts, nil) // no body
	case 5:
		end = io.EOF
	case 6:
		end = hx.AnErr("end", "transport")
	case 7:
		pkts = append(pkts, []byte{0xff})
	case 8:
		pkts = append(pkts, hx.RData(nil))
	}
	rs := hx.NewRS(context.Background(), end, pkts...)
	failSend := v.Choose("sendfails", 2) == 1
	se := error(&hx.Err{S: "send"})
	if failSend {
		se = hx.AnErr("se", "send")
		rs.Fail = func(int) error { return se }
	}
	failCall := v.Choose("callfails", 2) == 1
	ce := error(&hx.Err{S: "call"})
	if failCall {
		ce = hx.AnErr("ce", "call")
	}
	ncall := 0
	caller := func(ctx context.Context) (*hx.RS, error) {
		ncall++
		if failCall {
			return nil, ce
		}
		return rs, nil
	}
	s, err := open(context.Background(), how, caller, id, wait)
	v.Assert(ncall == 1, "the remote is not called exactly once")
	v.Assert((s != nil) == (err == nil), "a stream is returned together with an error, or neither")
	nc, _ := rs.Closed()
	if failCall {
		v.Assert(err == ce, "the error of the call is not returned")
		return
	}
	if failSend {
		v.Assert(err == se, "the error of the send is not returned")
		v.Assert(nc == 1, "the stream is not closed after a failed open")
		v.Reach("send fails")
		v.Quiesce()
		v.NoOthers("a goroutine is left behind by a failed open")
		return
	}
	checkInit(rs, id)
	if !wait {
		v.Assert(err == nil, "opening without waiting fails")
		if how == 0 {
			v.Assert(nc == 0, "the stream is closed after a successful open")
		}
		return
	}
	if kind == 0 {
		v.Assert(err == nil, "opening fails after an ack")
		v.Assert(nc == 0, "the stream is closed after a successful open")
		v.Reach("ack")
		return
	}
	v.Assert(err != nil, "opening succeeds without an ack")
	v.Assert(nc == 1, "the stream is not closed after a failed open")
	if kind == 1 {
		v.Assert(strings.Contains(err.Error(), txt), "the remote error is not reported with its text")
		v.Reach("remote error")
	}
	if kind == 6 && !errors.Is(end, io.EOF) {
		v.Assert(errors.Is(err, end), "the transport error is not returned")
	}
	v.Quiesce()
	v.NoOthers("a goroutine is left behind by a failed open")
}

// H_use: an opened stream is the remote's stream: what is sent and received on it is
// untouched by the handshake.
//
// sym: delays=1 paths=3000000 budget=400
func H_use() {
	d, e := v.Bytes("d", 2), v.Bytes("e", 2)
	wait := v.Choose("wait", 2) == 1
	pkts := [][]byte{hx.RAck(""), hx.RData(d)}
	rs := hx.NewRS(context.Background(), io.EOF, pkts...)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type key struct{}
	_ = key{}
	var cctx context.Context
	s, err := rpcstream.OpenRpcStream(ctx, func(c context.Context) (*hx.RS, error) { cctx = c; return rs, nil }, "c", wait)
	v.Assert(err == nil && s != nil, "opening fails")
	v.Assert(cctx.Err() == nil, "the remote is called with a cancelled context")
	cancel()
	v.Assert(cctx.Err() != nil, "the remote call does not use the caller's context")
	if !wait {
		p, err := s.Recv()
		_, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Ack)
		v.Assert(err == nil && ok, "the ack is lost")
	}
	p, err := s.Recv()
	v.Assert(err == nil && hx.Eq(p.GetData(), d), "data after the ack is lost")
	v.Assert(s.Send(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: e}}) == nil, "send")
	sent := rs.Sent()
	v.Assert(len(sent) == 2 && hx.Eq(sent[1], hx.RData(e)), "a packet sent on the stream is changed")
	nc, ncs := rs.Closed()
	v.Assert(nc == 0 && ncs == 0, "the stream is closed after a successful open")
	v.Reach("used")
}

// H_cancel: the stream fails while the ack is awaited.
//
// sym: delays=2 delays@thorough=3 paths=3000000 budget=400
func H_cancel() {
	ctx, cancel := context.WithCancel(context.Background())
	rs := hx.NewRS(ctx, nil)
	ack := v.Choose("ack", 2) == 1
	go func() {
		if ack {
			rs.Push(hx.RAck(""))
		}
		if v.Choose("drop", 2) == 1 {
			rs.Drop()
		} else {
			cancel()
		}
	}()
	how := v.Choose("how", 2)
	s, err := open(ctx, how, func(c context.Context) (*hx.RS, error) { return rs, nil }, "c", true)
	v.Assert((s != nil) == (err == nil), "a stream is returned together with an error, or neither")
	nc, _ := rs.Closed()
	if err != nil {
		v.Assert(nc == 1, "the stream is not closed after a failed open")
		v.Reach("failed")
	} else {
		v.Assert(ack, "opening succeeds without an ack")
		v.Reach("opened")
	}
	cancel()
	rs.Drop()
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
}

var _ srpc.PacketWriter = (*rpcstream.RpcStreamWriter)(nil)
