// Package c25: serving an rpc stream checks, acknowledges and releases the component.
//
// bound: every first packet (init with a component id of 0 to 2 symbolic bytes, init without body, ack, data, none, undecodable, end-of-stream, error), every lookup outcome (component, nothing, error with 1 to 2 symbolic bytes of text, error together with a component), with and without a release function, a failing ack, streams that end normally, fail, are cancelled or closed while the call runs or waits, delay bound 1 to 2 (thorough 2 to 3); for the handlers serving calls, raw streams and proxies.
// assume: component lookups return either nil or usable components.
package c25

import (
	"context"
	"io"
	"sync/atomic"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// first is a first packet; ok: a valid init.
func first(id string) (pkts [][]byte, end error, ok bool) {
	switch v.Choose("first", 8) {
	case 0:
		return [][]byte{hx.RInit(id)}, nil, true
	case 1:
		return [][]byte{hx.RAck("")}, nil, false
	case 2:
		return [][]byte{hx.RData([]byte("x"))}, nil, false
	case 3:
		return [][]byte{nil}, nil, false
	case 4:
		return [][]byte{{0xff}}, nil, false
	case 5:
		return nil, io.EOF, false
	case 6:
		return nil, hx.AnErr("end", "transport"), false
	}
	return [][]byte{hx.RData(nil)}, nil, false
}

// ack checks that the i-th packet sent is an ack with the text.
func ack(rs *hx.RS, i int, txt string) {
	sent := rs.Sent()
	v.Assert(len(sent) > i, "no ack is sent")
	p := hx.RDec(sent[i])
	a, ok := p.GetBody().(*rpcstream.RpcStreamPacket_Ack)
	v.Assert(ok, "the first packet sent is not an ack")
	v.Assert(a.Ack.GetError() == txt, "the ack does not carry the lookup's error text")
}

func noMoreAcks(rs *hx.RS) {
	for i, b := range rs.Sent() {
		if i != 0 {
			_, ok := hx.RDec(b).GetBody().(*rpcstream.RpcStreamPacket_Ack)
			v.Assert(!ok, "more than one ack is sent")
		}
	}
}

// rwc is a raw component.
type rwc struct {
	*hx.RW
}

// serve runs one of the three handlers. lookup is called with the component id and
// returns whether a component is handed out and the error.
func serve(kind int, rs *hx.RS, target *hx.RS, raw *hx.RW, inv srpc.Invoker, rel func(), lookup func(ctx context.Context, id string) (bool, error)) error {
	switch kind {
	case 0:
		return rpcstream.HandleRpcStream(rs, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
			ok, err := lookup(ctx, id)
			if !ok {
				return nil, nil, err
			}
			return inv, rel, err
		})
	case 1:
		return rpcstream.HandleRawRpcStream(rs, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
			ok, err := lookup(ctx, id)
			if !ok {
				return nil, nil, err
			}
			return &rwc{raw}, rel, err
		})
	}
	return rpcstream.HandleProxyRpcStream(rs, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*hx.RS], string, func(), error) {
		ok, err := lookup(ctx, id)
		if !ok {
			return nil, "", nil, err
		}
		return func(context.Context) (*hx.RS, error) { return target, nil }, id + "'", rel, err
	})
}

// H_handshake: first packets and lookups.
//
// sym: delays=1 paths=3000000 budget=400
func H_handshake() {
	kind := v.Choose("kind", 3)
	id := v.StringUpTo("id", 2)
	pkts, end, valid := first(id)
	rs := hx.NewRS(context.Background(), end, pkts...)
	target := hx.NewRS(context.Background(), nil, hx.RAck(""))
	raw := hx.NewRW()
	raw.BlockAtEnd = true
	inv := &hx.Inv{Found: true}
	nlook, nrel := 0, 0
	hasRel := v.Choose("hasrel", 2) == 1
	var rel func()
	if hasRel {
		rel = func() { nrel++ }
	}
	look := v.Choose("look", 4)
	txt := v.String("txt", v.Choose("tl", 2)+1)
	lerr := error(&hx.Err{S: txt})
	if look >= 2 && valid {
		if lerr = hx.AnErr("lerr", txt); lerr.Error() != txt {
			txt = lerr.Error()
		}
	}
	lookup := func(ctx context.Context, got string) (bool, error) {
		nlook++
		v.Assert(got == id, "a component other than the one received is looked up")
		v.Assert(ctx.Err() == nil, "the lookup's context is cancelled")
		switch look {
		case 1:
			return false, nil
		case 2:
			return false, lerr
		case 3:
			return true, lerr
		}
		return true, nil
	}
	if look == 0 && valid {
		// the stream ends after the handshake
		go func() {
			v.Quiesce()
			rs.Drop()
			_ = raw.Close()
			target.Drop()
		}()
	}
	err := serve(kind, rs, target, raw, inv, rel, lookup)
	sent := rs.Sent()
	if !valid {
		v.Assert(err != nil, "a stream without an init packet does not end with an error")
		v.Assert(nlook == 0, "something is looked up without an init packet")
		v.Assert(len(sent) == 0, "something is sent without an init packet")
		v.Assert(inv.Count() == 0, "something is served without an init packet")
		v.Reach("no init")
		return
	}
	v.Assert(nlook == 1, "the component is not looked up exactly once")
	if look == 0 {
		// the ack of a proxied stream is the target's
		ack(rs, 0, "")
		noMoreAcks(rs)
		if hasRel {
			v.Assert(nrel == 1, "the component is not released exactly once")
			v.Reach("served")
		}
		v.Quiesce()
		v.NoOthers("a goroutine is left behind")
		return
	}
	v.Assert(err != nil, "a failed lookup does not end the stream with an error")
	if look == 1 {
		v.Assert(err == rpcstream.ErrNoServerForComponent, "an empty lookup is not reported as such")
		ack(rs, 0, err.Error())
		v.Reach("not found")
	} else {
		v.Assert(err == lerr, "the lookup's error is not returned")
		ack(rs, 0, txt)
		v.Reach("lookup error")
	}
	v.Assert(len(sent) == 1, "something is sent after a failed lookup")
	v.Assert(inv.Count() == 0 && raw.NRead == 0 && raw.NWrite == 0, "something is served after a failed lookup")
	want := 0
	if look == 3 && hasRel {
		want = 1
	}
	v.Assert(nrel == want, "a component handed out is not released exactly once")
	if look == 3 && kind == 1 {
		v.Assert(raw.NClose == 1, "a component handed out is not closed")
	}
	v.Assert(len(target.Sent()) == 0, "a target is called after a failed lookup")
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
}

// H_ackfails: the ack cannot be sent.
//
// sym: delays=1 paths=3000000 budget=400
func H_ackfails() {
	kind := v.Choose("kind", 2)
	rs := hx.NewRS(context.Background(), nil, hx.RInit("c"))
	e := hx.AnErr("e", "send")
	rs.Fail = func(i int) error { return e }
	raw := hx.NewRW()
	raw.BlockAtEnd = true
	inv := &hx.Inv{Found: true}
	nrel := 0
	err := serve(kind, rs, nil, raw, inv, func() { nrel++ }, func(context.Context, string) (bool, error) { return true, nil })
	v.Assert(err == e, "the error of the ack is not returned")
	v.Assert(nrel == 1, "the component is not released exactly once")
	v.Assert(inv.Count() == 0 && raw.NRead == 0, "something is served although the ack failed")
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
	v.Reach("ack failed")
}

// H_target: the target of a proxied stream cannot be called or refuses the init.
//
// sym: delays=1 paths=3000000 budget=400
func H_target() {
	id, remote := v.StringUpTo("id", 1), v.StringUpTo("rid", 1)
	rs := hx.NewRS(context.Background(), nil, hx.RInit(id))
	target := hx.NewRS(context.Background(), nil)
	how := v.Choose("how", 2)
	e := hx.AnErr("e", v.String("txt", 1))
	if how == 1 {
		target.Fail = func(int) error { return e }
	}
	nrel, ncall := 0, 0
	err := rpcstream.HandleProxyRpcStream(rs, func(ctx context.Context, got string) (rpcstream.RpcStreamCaller[rpcstream.RpcStream], string, func(), error) {
		return func(context.Context) (rpcstream.RpcStream, error) {
			ncall++
			if how == 0 {
				return nil, e
			}
			return target, nil
		}, remote, func() { nrel++ }, nil
	})
	v.Assert(err == e, "the error of the target is not returned")
	v.Assert(ncall == 1, "the target is not called exactly once")
	ack(rs, 0, e.Error())
	v.Assert(len(rs.Sent()) == 1, "something is sent after the failure")
	v.Assert(nrel == 1, "the component is not released exactly once")
	if how == 1 {
		nc, _ := target.Closed()
		v.Assert(nc >= 1, "the target stream is not closed")
	}
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
	v.Reach("target fails")
}

// H_serve: a call is served on the stream, which ends in every way.
//
// sym: delays=2 delays@thorough=3 paths=3000000 budget=400
func H_serve() {
	svc, meth := v.StringUpTo("s", 1), v.StringUpTo("m", 1)
	d := v.Bytes("d", 1)
	svc, meth = svc+"s", meth+"m"
	start := hx.RData(hx.Enc(srpc.NewCallStartPacket(svc, meth, d, false)))
	rs := hx.NewRS(context.Background(), nil, hx.RInit("c"), start)
	var released, running atomic.Int32
	ret := v.Choose("ret", 3)
	inv := &hx.Inv{Fn: func(gs, gm string, strm srpc.Stream) (bool, error) {
		running.Add(1)
		defer running.Add(-1)
		v.Assert(gs == svc && gm == meth, "another method is invoked")
		m := hx.M(nil)
		v.Assert(strm.MsgRecv(m) == nil && hx.Eq(m.B, d), "the request is lost")
		if ret == 0 {
			return true, nil
		}
		if ret == 1 {
			return true, hx.AnErr("failure", "failed")
		}
		// wait until the caller goes away
		v.Assert(strm.MsgRecv(m) != nil, "a message is invented")
		return true, nil
	}}
	how := v.Choose("how", 3)
	ended := make(chan struct{})
	go func() {
		defer close(ended)
		if ret != 2 && v.Choose("settle", 2) == 1 {
			v.Quiesce()
		}
		switch how {
		case 0:
			rs.Push(hx.RData(hx.Enc(srpc.NewCallCancelPacket())))
			v.Quiesce()
			rs.Drop()
		case 1:
			rs.Drop()
		case 2:
			_ = rs.Close()
		}
	}()
	_ = rpcstream.HandleRpcStream(rs, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		return inv, func() { released.Add(1) }, nil
	})
	v.Assert(released.Load() == 1, "the component is not released exactly once")
	<-ended
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
	v.Assert(released.Load() == 1, "the component is not released exactly once")
	v.Assert(inv.Count() <= 1, "the method is invoked more than once")
	v.Assert(running.Load() == 0, "the method is still running")
	sent := rs.Sent()
	if len(sent) != 0 {
		ack(rs, 0, "")
		noMoreAcks(rs)
		v.Reach("acked")
	}
	if inv.Count() == 1 {
		v.Reach("invoked")
	}
}
