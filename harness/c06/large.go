package c06

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: messages of 100 to 70000 bytes (three symbolic bytes each) and queues of 20 to 1100 unread messages.

// H_large: large messages in both directions of a call.
//
// sym: race=0
func H_large() {
	n := hx.Size("size", 0)
	in, out := hx.Blob("in", n), hx.Blob("out", n)
	w := &hx.PW{}
	var h srpc.PacketDataHandler
	c := srpc.NewClient(func(ctx context.Context, ph srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		h = ph
		return w, nil
	})
	s, err := c.NewStream(context.Background(), "s", "m", hx.M(out))
	v.Assert(err == nil, "the call is not started")
	v.Assert(s.MsgSend(hx.M(out)) == nil, "a message is not sent")
	v.Assert(h(hx.Enc(srpc.NewCallDataPacket(in, false, false, nil))) == nil, "a message is refused")
	v.Assert(h(hx.Enc(srpc.NewCallDataPacket(in, false, true, nil))) == nil, "a message is refused")
	for i := 0; i < 2; i++ {
		x := hx.M(nil)
		v.Assert(s.MsgRecv(x) == nil && hx.Eq(x.B, in), "a message is changed, duplicated or reordered")
	}
	v.Assert(s.MsgRecv(hx.M(nil)) == io.EOF, "no end of stream after the last message")
	ps := w.Snapshot()
	v.Assert(len(ps) == 2 && hx.Eq(ps[0].Data, out) && hx.Eq(ps[1].Data, out), "a message is changed, duplicated or reordered")
}

// H_large_server: the same on the server.
//
// sym: race=0 delays=0
func H_large_server() {
	n := hx.Size("size", 0)
	in, out := hx.Blob("in", n), hx.Blob("out", n)
	w := &hx.PW{}
	inv := &hx.Inv{Fn: func(svc, meth string, s srpc.Stream) (bool, error) {
		for i := 0; i < 3; i++ {
			x := hx.M(nil)
			v.Assert(s.MsgRecv(x) == nil && hx.Eq(x.B, in), "a message is changed, duplicated or reordered")
		}
		v.Assert(s.MsgRecv(hx.M(nil)) == io.EOF, "no end of stream after the last message")
		v.Assert(s.MsgSend(hx.M(out)) == nil, "a message is not sent")
		return true, nil
	}}
	s := srpc.NewServerRPC(context.Background(), inv, w)
	v.Assert(s.HandlePacketData(hx.Enc(srpc.NewCallStartPacket("s", "m", in, false))) == nil, "a message is refused")
	v.Assert(s.HandlePacketData(hx.Enc(srpc.NewCallDataPacket(in, false, false, nil))) == nil, "a message is refused")
	v.Assert(s.HandlePacketData(hx.Enc(srpc.NewCallDataPacket(in, false, true, nil))) == nil, "a message is refused")
	v.Quiesce()
	ps := w.Snapshot()
	v.Assert(len(ps) == 2 && hx.Eq(ps[0].Data, out) && ps[1].Complete, "a message is changed, duplicated or reordered")
}

// H_many: messages nobody reads yet do not get lost however many they are.
//
// sym: race=0 delays=0 steps=3000000
func H_many() {
	n := []int{20, 70, 300, 1100}[v.Choose("many", 4)]
	rpc := client()
	d := v.Bytes("d", 3)
	at := func(i int) []byte { return []byte{byte(i), byte(i >> 8), d[i%3]} }
	for i := 0; i < n; i++ {
		v.Assert(rpc.HandlePacket(srpc.NewCallDataPacket(at(i), false, i == n-1, nil)) == nil, "a message is refused")
	}
	for i := 0; i < n; i++ {
		b, err := rpc.ReadOne()
		v.Assert(err == nil && hx.Eq(b, at(i)), "a message is changed, duplicated or reordered")
	}
	_, err := rpc.ReadOne()
	v.Assert(err == io.EOF, "no end of stream after the last message")
}

// H_many_server: the same for a server whose handler does not read yet.
//
// sym: race=0 delays=0 steps=3000000
func H_many_server() {
	n := []int{20, 70, 300, 1100}[v.Choose("many", 4)]
	d := v.Bytes("d", 3)
	at := func(i int) []byte { return []byte{byte(i), byte(i >> 8), d[i%3]} }
	fed := make(chan struct{})
	done := false
	inv := &hx.Inv{Fn: func(svc, meth string, s srpc.Stream) (bool, error) {
		<-fed
		for i := 0; i < n; i++ {
			x := hx.M(nil)
			v.Assert(s.MsgRecv(x) == nil && hx.Eq(x.B, at(i)), "a message is changed, duplicated or reordered")
		}
		v.Assert(s.MsgRecv(hx.M(nil)) == io.EOF, "no end of stream after the last message")
		done = true
		return true, nil
	}}
	s := srpc.NewServerRPC(context.Background(), inv, &hx.PW{})
	v.Assert(s.HandlePacket(srpc.NewCallStartPacket("s", "m", nil, false)) == nil, "a message is refused")
	for i := 0; i < n; i++ {
		v.Assert(s.HandlePacket(srpc.NewCallDataPacket(at(i), false, i == n-1, nil)) == nil, "a message is refused")
	}
	close(fed)
	v.Quiesce()
	v.Assert(done, "the handler does not finish")
}
