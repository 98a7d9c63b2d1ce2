// Package c06: a call delivers its messages in order, exactly once, then its end.
//
// bound: every sequence of 5 (thorough 6) packets, close notifications and reads on the client side and 4 (thorough 5) on the server side, one symbolic byte per message and error text; a reader racing with sequences of 3 deliveries, delay bound 3 (thorough 4); unread queues of up to 5 messages.
// assume: the side under test does not close or cancel the call itself.
package c06

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// side is one side of a call.
type side interface {
	HandlePacketData([]byte) error
	HandleStreamClose(error)
	ReadOne() ([]byte, error)
}

// model is the specification of the receive direction of a call.
type model struct {
	queue [][]byte
	done  bool
	err   string // "" is end of stream
}

// op delivers one event; returns whether it was one.
func (m *model) op(s side, o int) {
	push := func(d []byte) {
		if !m.done {
			m.queue = append(m.queue, d)
		}
	}
	was := m.done
	packet := func(p *srpc.Packet) {
		err := s.HandlePacketData(hx.Enc(p))
		if was {
			v.Assert(err != nil, "data after completion is not rejected")
		} else {
			v.Assert(err == nil, "data before completion is rejected")
		}
	}
	end := func(e string) {
		if !m.done {
			m.done, m.err = true, e
		}
	}
	switch o {
	case 0:
		d := v.Bytes("d", 1)
		push(d)
		packet(srpc.NewCallDataPacket(d, false, false, nil))
	case 1:
		push(nil)
		packet(srpc.NewCallDataPacket(nil, true, false, nil))
	case 2:
		d := v.Bytes("d", 1)
		push(d)
		end("")
		packet(srpc.NewCallDataPacket(d, false, true, nil))
	case 3:
		end("")
		packet(srpc.NewCallDataPacket(nil, false, true, nil))
	case 4:
		e := "e" + v.String("e", 1)
		end(e)
		packet(srpc.NewCallDataPacket(nil, false, true, &hx.Err{S: e}))
	case 5:
		// an error with the flag unset completes as well, after its message
		e := "f" + v.String("e", 1)
		d := v.Bytes("d", 1)
		push(d)
		end(e)
		packet(&srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: d, Error: e}}})
	case 6:
		push(nil)
		end("")
		packet(srpc.NewCallDataPacket(nil, true, true, nil))
	case 7:
		end("")
		s.HandleStreamClose(nil)
	case 8:
		end("lost")
		s.HandleStreamClose(&hx.Err{S: "lost"})
	}
}

const nOps = 9

func (m *model) check(d []byte, err error) {
	if len(m.queue) > 0 {
		v.Assert(err == nil, "message lost: a read fails although a message is queued")
		v.Assert(hx.Eq(d, m.queue[0]), "message lost, duplicated, reordered or changed")
		m.queue = m.queue[1:]
		return
	}
	v.Assert(m.done, "a read returns although nothing arrived")
	v.Assert(err != nil, "message invented")
	if m.err == "" {
		v.Assert(err == io.EOF, "a completed call does not end with end-of-stream")
	} else {
		v.Assert(err.Error() == m.err, "the call does not end with the peer's error")
	}
}

func (m *model) read(s side) {
	if len(m.queue) == 0 && !m.done {
		return
	}
	m.check(s.ReadOne())
}

func run(s side, m *model, n int) {
	for i := 0; i < n; i++ {
		o := v.Choose("op", nOps+1)
		if o == nOps {
			m.read(s)
		} else {
			m.op(s, o)
		}
	}
	for len(m.queue) > 0 {
		m.read(s)
	}
	if m.done {
		m.read(s)
		m.read(s)
		v.Reach("ended")
	}
}

func client() *srpc.ClientRPC {
	rpc := srpc.NewClientRPC(context.Background(), "svc", "m")
	if err := rpc.Start(&hx.PW{}, false, nil); err != nil {
		v.Fail("start fails: " + err.Error())
	}
	return rpc
}

// H_client: every history on the client side.
//
// sym: paths=3000000 budget=500
func H_client() {
	run(client(), &model{}, v.Bound(5, 6))
}

// H_server: every history on the server side, the first message possibly in the call start.
//
// sym: paths=3000000 budget=500 delays=0
func H_server() {
	block := make(chan struct{})
	got := make(chan srpc.Stream, 1)
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		got <- strm
		<-block
		return true, nil
	}}
	rpc := srpc.NewServerRPC(context.Background(), inv, &hx.PW{})
	m := &model{}
	var d []byte
	k := v.Choose("kind", 3)
	switch k {
	case 1:
		d = v.Bytes("first", 1)
		m.queue = append(m.queue, d)
	case 2:
		m.queue = append(m.queue, nil)
	}
	v.Assert(rpc.HandlePacketData(hx.Enc(srpc.NewCallStartPacket("svc", "m", d, k == 2))) == nil, "call start refused")
	strm := <-got
	x := hx.M(nil)
	run(&streamSide{rpc, strm, x}, m, v.Bound(4, 5))
	close(block)
}

// streamSide reads through the stream handed to the service.
type streamSide struct {
	*srpc.ServerRPC
	strm srpc.Stream
	msg  *hx.Msg
}

func (s *streamSide) ReadOne() ([]byte, error) {
	if err := s.strm.MsgRecv(s.msg); err != nil {
		return nil, err
	}
	return s.msg.B, nil
}

// H_race_client: a reader racing with deliveries.
//
// sym: delays=3 delays@thorough=4 paths=3000000 budget=500
func H_race_client() { race(client()) }

// H_race_server: a handler racing with deliveries.
//
// sym: delays=2 delays@thorough=3 paths=3000000 budget=500
func H_race_server() {
	m := &model{}
	done := make(chan struct{})
	var got [][]byte
	var end error
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		defer close(done)
		for {
			x := hx.M(nil)
			if err := strm.MsgRecv(x); err != nil {
				end = err
				return true, nil
			}
			got = append(got, x.B)
		}
	}}
	rpc := srpc.NewServerRPC(context.Background(), inv, &hx.PW{})
	d := v.Bytes("first", 1)
	m.queue = append(m.queue, d)
	if err := rpc.HandlePacket(srpc.NewCallStartPacket("svc", "m", d, false)); err != nil {
		v.Fail("call start refused")
	}
	m.op(rpc, v.Choose("op", 2))
	m.op(rpc, v.Choose("op", nOps-1))
	if !m.done {
		m.op(rpc, 3)
	}
	<-done
	cmp(m, got, end)
}

func cmp(m *model, got [][]byte, end error) {
	for _, d := range got {
		v.Assert(len(m.queue) > 0, "message invented or duplicated")
		m.check(d, nil)
	}
	v.Assert(len(m.queue) == 0, "the end of the call overtakes a message")
	m.check(nil, end)
}

func race(rpc *srpc.ClientRPC) {
	m := &model{}
	done := make(chan struct{})
	var got [][]byte
	var end error
	go func() {
		defer close(done)
		for {
			d, err := rpc.ReadOne()
			if err != nil {
				end = err
				return
			}
			got = append(got, d)
		}
	}()
	m.op(rpc, v.Choose("op", 2))
	m.op(rpc, v.Choose("op", 2))
	m.op(rpc, v.Choose("op", nOps-2))
	if !m.done {
		m.op(rpc, 3)
	}
	<-done
	cmp(m, got, end)
	v.Reach("raced")
}

// H_two_readers: two readers share the messages, neither duplicated nor lost.
//
// sym: delays=2
func H_two_readers() {
	rpc := client()
	res := make(chan []byte, 4)
	read := func() {
		for {
			d, err := rpc.ReadOne()
			if err != nil {
				v.Assert(err == io.EOF, "end of stream")
				res <- nil
				return
			}
			res <- d
		}
	}
	go read()
	go read()
	for i := 0; i < 2; i++ {
		v.Assert(rpc.HandlePacket(srpc.NewCallDataPacket([]byte{byte('a' + i)}, false, false, nil)) == nil, "delivery")
	}
	v.Assert(rpc.HandlePacket(srpc.NewCallDataPacket(nil, false, true, nil)) == nil, "completion")
	a, b, n := 0, 0, 0
	for i := 0; i < 4; i++ {
		switch d := <-res; {
		case d == nil:
			n++
		case d[0] == 'a':
			a++
		case d[0] == 'b':
			b++
		}
	}
	v.Assert(a == 1 && b == 1 && n == 2, "message lost or duplicated between two readers")
}

// H_queue: five unread messages.
func H_queue() {
	rpc := client()
	m := &model{}
	for i := 0; i < 5; i++ {
		m.op(rpc, v.Choose("zero", 2))
	}
	m.op(rpc, 3+v.Choose("end", 2))
	for len(m.queue) > 0 {
		m.read(rpc)
	}
	m.read(rpc)
	m.read(rpc)
}

// H_msgstream: the message stream of the client passes messages and outcome on.
func H_msgstream() {
	rpc := client()
	strm := srpc.NewMsgStream(context.Background(), rpc, nil)
	m := &model{}
	m.op(rpc, v.Choose("op", nOps))
	m.op(rpc, v.Choose("op", nOps))
	x := hx.M([]byte("old"))
	for len(m.queue) > 0 {
		err := strm.MsgRecv(x)
		m.check(x.B, err)
	}
	if m.done {
		m.check(nil, strm.MsgRecv(x))
		m.check(nil, strm.MsgRecv(x))
	}
	bad := &hx.Err{S: "bad"}
	if !m.done {
		m.op(rpc, 0)
		v.Assert(strm.MsgRecv(&hx.Msg{UErr: bad}) == error(bad), "decoding error not returned")
		v.Reach("undecodable")
	}
}
