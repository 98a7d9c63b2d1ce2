// Package c09: once a call has completed on the wire its outcome never changes.
//
// bound: 0 to 2 messages of one symbolic byte, every kind of completion (end, message with end, error of 1 symbolic byte with and without the flag and message), followed by 2 (thorough 3) late events of every kind with symbolic contents; a racing reader with delay bound 2 (thorough 3); the same through the frame reader.
// assume: no cancel packet arrives after the completion (a cancel is the peer's own revocation).
package c09

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

func data(b []byte, zero, complete bool, e string) *srpc.Packet {
	return &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: b, DataIsZero: zero, Complete: complete, Error: e}}}
}

// script is what the server sent until it completed the call.
type script struct {
	pkts []*srpc.Packet
	msgs [][]byte
	err  string
}

func anyScript(max int) *script {
	s := &script{}
	n := v.Choose("nmsg", max+1)
	for i := 0; i < n; i++ {
		if v.Choose("zero", 2) == 1 {
			s.msgs = append(s.msgs, nil)
			s.pkts = append(s.pkts, data(nil, true, false, ""))
		} else {
			b := v.Bytes("m", 1)
			s.msgs = append(s.msgs, b)
			s.pkts = append(s.pkts, data(b, false, false, ""))
		}
	}
	k := v.Choose("completion", 6)
	if k >= 2 {
		s.err = "e" + v.String("e", 1)
	}
	var b []byte
	if k == 1 || k == 3 || k == 5 {
		b = v.Bytes("last", 1)
		s.msgs = append(s.msgs, b)
	}
	s.pkts = append(s.pkts, data(b, false, k < 4, s.err))
	return s
}

func (s *script) end(err error) {
	v.Assert(err != nil, "a message is invented after the completion")
	if s.err == "" {
		v.Assert(err == io.EOF, "end-of-stream became another outcome")
	} else {
		v.Assert(err.Error() == s.err, "the error of the completion became another outcome")
	}
}

func (s *script) readAll(read func() ([]byte, error)) {
	for _, m := range s.msgs {
		d, err := read()
		v.Assert(err == nil, "a queued message is lost")
		v.Assert(hx.Eq(d, m), "a queued message is changed")
	}
	_, err := read()
	s.end(err)
	_, err = read()
	s.end(err)
}

const nLate = 9

// late delivers an event after the completion.
func late(rpc *srpc.ClientRPC, k int) {
	switch k {
	case 0:
		_ = rpc.HandlePacket(data(v.Bytes("l", 1), false, false, ""))
	case 1:
		_ = rpc.HandlePacket(data(nil, true, false, ""))
	case 2:
		_ = rpc.HandlePacket(data(nil, false, true, ""))
	case 3:
		_ = rpc.HandlePacket(data(nil, false, true, "late"))
	case 4:
		_ = rpc.HandlePacket(data(v.Bytes("l", 1), false, true, "l"+v.String("le", 1)))
	case 5:
		rpc.HandleStreamClose(nil)
	case 6:
		rpc.HandleStreamClose(&hx.Err{S: "transport failed"})
	case 7:
		rpc.HandleStreamClose(io.ErrUnexpectedEOF)
	}
}

// lateOK excludes raw bytes that are a cancel packet (field 3, true).
func lateOK(rpc *srpc.ClientRPC) {
	k := v.Choose("late", nLate)
	if k == 8 {
		b := v.Bytes("raw", 2)
		v.Assume(b[0] != 3<<3)
		_ = rpc.HandlePacketData(b)
		return
	}
	late(rpc, k)
}

func start(ctx context.Context) *srpc.ClientRPC {
	rpc := srpc.NewClientRPC(ctx, "svc", "m")
	v.Assert(rpc.Start(hx.NopPW{}, false, nil) == nil, "start fails")
	return rpc
}

// H_late: every late event leaves the outcome and the queue alone.
//
// sym: paths=3000000 budget=400
func H_late() {
	rpc := start(context.Background())
	s := anyScript(v.Bound(1, 2))
	for _, p := range s.pkts {
		v.Assert(rpc.HandlePacket(p) == nil, "packet refused")
	}
	n := v.Bound(2, 3)
	for i := 0; i < n; i++ {
		lateOK(rpc)
	}
	s.readAll(rpc.ReadOne)
	v.Reach("read")
}

// H_stream: the same seen through the client's stream, reading between the late events.
//
// sym: paths=3000000 budget=400
func H_stream() {
	rpc := start(context.Background())
	strm := srpc.NewMsgStream(rpc.Context(), rpc, nil)
	s := anyScript(2)
	for _, p := range s.pkts {
		v.Assert(rpc.HandlePacket(p) == nil, "packet refused")
	}
	n := 0
	s.readAll(func() ([]byte, error) {
		if n < 2 {
			lateOK(rpc)
			n++
		}
		x := hx.M(nil)
		err := strm.MsgRecv(x)
		return x.B, err
	})
}

// H_race: a reader racing with the completion and what follows it.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_race() {
	rpc := start(context.Background())
	s := anyScript(1)
	done := make(chan struct{})
	go func() {
		defer close(done)
		s.readAll(rpc.ReadOne)
	}()
	for _, p := range s.pkts {
		v.Assert(rpc.HandlePacket(p) == nil, "packet refused")
	}
	late(rpc, v.Choose("late", 8))
	late(rpc, 5+v.Choose("close", 2))
	<-done
}

// H_wire: through the frame reader, which stops at the first refused packet.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_wire() {
	s := anyScript(1)
	var buf []byte
	for _, p := range s.pkts {
		buf = append(buf, hx.Frame(hx.Enc(p))...)
	}
	last := hx.Chunk{Err: &hx.Err{S: "reset"}}
	switch v.Choose("after", 5) {
	case 0:
		last.Err = io.EOF
	case 1:
		last.B = hx.Frame(hx.Enc(data([]byte("late"), false, false, "")))
		last.Err = io.EOF
	case 2:
		last.B = hx.Frame(hx.Enc(data(nil, false, true, "late")))
	case 3:
		last.B = []byte{0, 0, 0, 0}
	}
	var rw *hx.RW
	if last.Err == io.EOF && v.Choose("joined", 2) == 1 {
		rw = hx.NewRW(hx.Chunk{B: append(buf, last.B...), Err: last.Err})
	} else {
		rw = hx.NewRW(hx.Chunk{B: buf}, last)
	}
	rpc := srpc.NewClientRPC(context.Background(), "svc", "m")
	prw := srpc.NewPacketReadWriter(rw)
	v.Assert(rpc.Start(prw, false, nil) == nil, "start fails")
	go prw.ReadPump(rpc.HandlePacketData, rpc.HandleStreamClose)
	if v.Choose("when", 2) == 1 {
		v.Quiesce()
	}
	s.readAll(rpc.ReadOne)
}

// H_send_and_close: a server that finished with send-and-close, read late.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_send_and_close() {
	n := v.Choose("n", 3)
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		for i := 0; i < n; i++ {
			v.Assert(strm.MsgSend(hx.M([]byte{byte(i)})) == nil, "send")
		}
		v.Assert(strm.CloseSend() == nil, "CloseSend fails")
		return true, nil
	}}
	c := hx.NewConn(inv, 8)
	strm, err := c.Client.NewStream(context.Background(), "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	if v.Choose("late", 2) == 1 {
		v.Quiesce()
	}
	for i := 0; i < n; i++ {
		x := hx.M(nil)
		v.Assert(strm.MsgRecv(x) == nil, "message lost")
		v.Assert(hx.Eq(x.B, []byte{byte(i)}), "message changed")
	}
	v.Assert(strm.MsgRecv(hx.M(nil)) == io.EOF, "send-and-close does not end in end-of-stream")
	v.Quiesce()
	v.Assert(strm.MsgRecv(hx.M(nil)) == io.EOF, "the outcome changed")
}
