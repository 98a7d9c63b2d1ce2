// Package c13: no packet sequence from the peer can crash a client or server.
//
// bound: every sequence of 2 (thorough 3; around the start 3) packets, valid or not, with ids, data and error of 0 or 1 symbolic bytes and symbolic flags, encoded and parsed, before or after the start and after the completion of a call; arbitrary byte strings of up to 5 (thorough 7) bytes; packets arriving while the handler runs, with delay bound 2 (thorough 3).
package c13

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

type rpc interface {
	HandlePacket(*srpc.Packet) error
	HandlePacketData([]byte) error
	HandleStreamClose(error)
	ReadOne() ([]byte, error)
	Context() context.Context
}

// model is the receive direction of a started call.
type model struct {
	server bool
	queue  [][]byte
	done   bool
}

// parsed: packets are handed over parsed, not encoded (chosen once per execution).
var parsed bool

// give hands a packet over, parsed or encoded.
func give(r rpc, p *srpc.Packet) error {
	if parsed {
		return r.HandlePacket(p)
	}
	return r.HandlePacketData(hx.Enc(p))
}

// step feeds one arbitrary packet; m is nil if the call was not started.
func step(r rpc, m *model) {
	switch v.Choose("op", 9) {
	case 0:
		v.Assert(give(r, &srpc.Packet{}) != nil, "a packet without body is accepted")
	case 1:
		c := &srpc.CallStart{RpcService: v.StringUpTo("svc", 1), RpcMethod: v.StringUpTo("meth", 1)}
		bad := c.RpcService == "" || c.RpcMethod == ""
		_, client := r.(*srpc.ClientRPC)
		err := give(r, &srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: c}})
		if client || bad || m != nil {
			v.Assert(err != nil, "an unexpected or incomplete call start is accepted")
		}
	case 2:
		c := &srpc.CallData{Data: v.BytesUpTo("d", 1), DataIsZero: v.Choose("zero", 2) == 1, Complete: v.Choose("complete", 2) == 1, Error: v.StringUpTo("e", 1)}
		err := give(r, &srpc.Packet{Body: &srpc.Packet_CallData{CallData: c}})
		switch {
		case len(c.Data) == 0 && !c.DataIsZero && !c.Complete && c.Error == "":
			v.Assert(err != nil, "an empty data packet is accepted")
		case m != nil && m.done:
			v.Assert(err != nil, "data after the completion is accepted")
		case m != nil:
			v.Assert(err == nil, "valid data is refused")
			if len(c.Data) != 0 || c.DataIsZero {
				m.queue = append(m.queue, append([]byte(nil), c.Data...))
			}
			m.done = c.Complete || c.Error != ""
		}
	case 3:
		f := v.Choose("flag", 2) == 1
		err := give(r, &srpc.Packet{Body: &srpc.Packet_CallCancel{CallCancel: f}})
		if f {
			if m != nil {
				m.done = true
			}
		} else {
			v.Assert(err == nil, "a cancel packet whose flag is false is refused")
		}
	case 4:
		b := v.Bytes("raw", 1)
		p := &srpc.Packet{}
		if p.UnmarshalVT(b) != nil {
			v.Assert(r.HandlePacketData(b) != nil, "undecodable bytes are accepted")
		} else {
			v.Assume(p.GetBody() == nil)
			v.Assert(r.HandlePacketData(b) != nil, "a packet without body is accepted")
		}
	case 5:
		v.Assert(r.HandlePacket(&srpc.Packet{Body: &srpc.Packet_CallStart{}}) != nil, "an empty call start is accepted")
	case 6:
		v.Assert(r.HandlePacket(&srpc.Packet{Body: &srpc.Packet_CallData{}}) != nil, "an empty data packet is accepted")
	case 7:
		r.HandleStreamClose(nil)
		if m != nil {
			m.done = true
		}
	case 8:
		r.HandleStreamClose(&hx.Err{S: "lost"})
		if m != nil {
			m.done = true
		}
	}
}

// drain checks that exactly the valid packets had an effect.
func drain(r rpc, m *model) {
	if !m.done {
		v.Assert(r.Context().Err() == nil, "an invalid packet cancels the call")
		v.Assert(r.HandlePacket(srpc.NewCallDataPacket([]byte("end"), false, true, nil)) == nil, "valid data is refused")
		m.queue = append(m.queue, []byte("end"))
	}
	for _, q := range m.queue {
		d, err := r.ReadOne()
		v.Assert(err == nil && hx.Eq(d, q), "an invalid packet changes what is delivered")
	}
	_, err := r.ReadOne()
	v.Assert(err != nil, "an invalid packet invents a message")
}

// H_client: a started client call.
//
// sym: paths=9000000 budget=400
func H_client() {
	parsed = v.Choose("parsed", 2) == 1
	r := srpc.NewClientRPC(context.Background(), "svc", "m")
	w := &hx.PW{}
	v.Assert(r.Start(w, false, nil) == nil, "start")
	m := &model{}
	n := v.Bound(2, 3)
	for i := 0; i < n; i++ {
		step(r, m)
	}
	drain(r, m)
	v.Assert(len(w.Pkts) == 1, "a received packet makes the client send something")
	r.Close()
	step(r, nil)
}

// H_client_unstarted: packets before the start of the call, and a start after them.
//
// sym: paths=9000000 budget=400
func H_client_unstarted() {
	parsed = v.Choose("parsed", 2) == 1
	r := srpc.NewClientRPC(context.Background(), "svc", "m")
	step(r, nil)
	step(r, nil)
	w := &hx.PW{}
	err := r.Start(w, true, []byte("x"))
	if err != nil {
		v.Assert(len(w.Pkts) == 0 && w.NClose > 0, "a failed start leaves the writer open or sends something")
	}
	if v.Thorough() {
		step(r, nil)
	}
	r.Close()
	step(r, nil)
	_, _ = r.ReadOne()
	r.Close()
}

// H_server: a started server call.
//
// sym: paths=9000000 budget=400 delays=0
func H_server() {
	parsed = v.Choose("parsed", 2) == 1
	release := make(chan struct{})
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		v.Assert(svc == "svc" && meth == "m", "another method is invoked")
		<-release
		return true, nil
	}}
	w := &hx.PW{}
	r := srpc.NewServerRPC(context.Background(), inv, w)
	v.Assert(r.HandlePacket(srpc.NewCallStartPacket("svc", "m", nil, false)) == nil, "start")
	m := &model{server: true}
	n := v.Bound(2, 3)
	for i := 0; i < n; i++ {
		step(r, m)
	}
	drain(r, m)
	v.Assert(len(w.Snapshot()) == 0, "a received packet makes the server send something")
	close(release)
	v.Quiesce()
	v.Assert(inv.Count() == 1, "not invoked exactly once")
	step(r, nil)
	v.Quiesce()
	v.Assert(inv.Count() == 1, "invoked again")
}

// H_server_unstarted: packets before the start.
//
// sym: paths=9000000 budget=400 delays=1 delays@thorough=2
func H_server_unstarted() {
	parsed = v.Choose("parsed", 2) == 1
	inv := &hx.Inv{Found: true}
	r := srpc.NewServerRPC(context.Background(), inv, &hx.PW{})
	step(r, nil)
	step(r, nil)
	_ = r.HandlePacket(srpc.NewCallStartPacket("svc", "m", nil, false))
	v.Assert(r.HandlePacket(nil) == nil, "no packet")
	v.Quiesce()
	v.Assert(inv.Count() <= 1, "invoked more than once")
	step(r, nil)
	v.Quiesce()
	v.NoOthers("goroutine left")
}

// H_invalid_start: an invalid packet leaves a server stream usable.
func H_invalid_start() {
	parsed = v.Choose("parsed", 2) == 1
	inv := &hx.Inv{Found: true}
	r := srpc.NewServerRPC(context.Background(), inv, &hx.PW{})
	for i := 0; i < 2; i++ {
		switch v.Choose("bad", 6) {
		case 0:
			v.Assert(give(r, &srpc.Packet{}) != nil, "a packet without body is accepted")
		case 1:
			v.Assert(give(r, srpc.NewCallStartPacket("", v.StringUpTo("meth", 1), []byte("z"), false)) != nil, "a start without service is accepted")
		case 2:
			v.Assert(give(r, srpc.NewCallStartPacket(v.StringUpTo("svc", 1), "", []byte("z"), false)) != nil, "a start without method is accepted")
		case 3:
			v.Assert(give(r, srpc.NewCallDataPacket(nil, false, false, nil)) != nil, "an empty data packet is accepted")
		case 4:
			v.Assert(give(r, &srpc.Packet{Body: &srpc.Packet_CallCancel{}}) == nil, "a cancel packet whose flag is false is refused")
		case 5:
			v.Assert(r.HandlePacketData([]byte{0xff}) != nil, "undecodable bytes are accepted")
		}
	}
	v.Assert(inv.Count() == 0, "an invalid packet invokes something")
	v.Assert(r.Context().Err() == nil, "an invalid packet cancels the call")
	v.Assert(r.HandlePacket(srpc.NewCallStartPacket("svc", "m", []byte("d"), false)) == nil, "a valid start is refused after an invalid packet")
	d, err := r.ReadOne()
	v.Assert(err == nil && string(d) == "d", "an invalid packet changes what is delivered")
	v.Quiesce()
	v.Assert(inv.Count() == 1, "not invoked exactly once")
}

// H_bytes: arbitrary bytes.
//
// sym: paths=9000000 budget=400
func H_bytes() {
	inv := &hx.Inv{Found: true}
	var r rpc
	if v.Choose("side", 2) == 1 {
		r = srpc.NewServerRPC(context.Background(), inv, &hx.PW{})
	} else {
		c := srpc.NewClientRPC(context.Background(), "svc", "m")
		if v.Choose("started", 2) == 1 {
			v.Assert(c.Start(&hx.PW{}, false, nil) == nil, "start")
		}
		r = c
	}
	b := v.BytesUpTo("b", v.Bound(5, 7))
	err := r.HandlePacketData(b)
	if (&srpc.Packet{}).UnmarshalVT(b) != nil {
		v.Assert(err != nil, "undecodable bytes are accepted")
		v.Reach("undecodable")
	}
	v.Quiesce()
	v.NoOthers("goroutine left")
}

// H_running: packets arriving while the handler reads, writes and returns.
//
// sym: delays=2 delays@thorough=3 paths=9000000 budget=400
func H_running() {
	parsed = v.Choose("parsed", 2) == 1
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		_ = strm.MsgSend(hx.M([]byte("x")))
		return true, strm.MsgRecv(hx.M(nil))
	}}
	r := srpc.NewServerRPC(context.Background(), inv, &hx.PW{})
	v.Assert(r.HandlePacket(srpc.NewCallStartPacket("svc", "m", nil, false)) == nil, "start")
	m := &model{}
	step(r, m)
	r.HandleStreamClose(nil)
	v.Quiesce()
	v.NoOthers("goroutine left")
}
