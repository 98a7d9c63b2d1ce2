// Package c01: packets survive an encode/decode round trip unchanged.
//
// bound: field lengths from {0,1,2,127,128} in every combination and, one field at a time, 126..130 and 16382..16385 (thorough: also 2097150..2097153 for one field); all contents symbolic.
package c01

import (
	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

type vt interface {
	SizeVT() int
	MarshalVT() ([]byte, error)
	MarshalToSizedBufferVT([]byte) (int, error)
	MarshalToVT([]byte) (int, error)
}

func encode(m vt) []byte {
	size := m.SizeVT()
	b, err := m.MarshalVT()
	v.Assert(err == nil, "MarshalVT fails on a valid message")
	v.Assert(len(b) == size, "SizeVT differs from the number of bytes written")
	b2 := make([]byte, size)
	n, err := m.MarshalToSizedBufferVT(b2)
	v.Assert(err == nil && n == size, "MarshalToSizedBufferVT does not write SizeVT bytes")
	v.Assert(hx.Eq(b, b2), "MarshalToSizedBufferVT and MarshalVT disagree")
	// a buffer with room in front: the message is written at its end
	b3 := make([]byte, size+3)
	b3[0], b3[1], b3[2] = 1, 2, 3
	n, err = m.MarshalToSizedBufferVT(b3)
	v.Assert(err == nil && n == size, "MarshalToSizedBufferVT with a larger buffer")
	v.Assert(hx.Eq(b, b3[3:]) && b3[0] == 1 && b3[1] == 2 && b3[2] == 3, "MarshalToSizedBufferVT writes elsewhere")
	b4 := make([]byte, size+1)
	b4[size] = 7
	n, err = m.MarshalToVT(b4)
	v.Assert(err == nil && n == size && hx.Eq(b, b4[:size]) && b4[size] == 7, "MarshalToVT")
	return b
}

// lens picks the length of field i of n: small combinations, or one field at a boundary.
type lens struct {
	big int
	l   int
}

func pick(n int) *lens {
	s := &lens{big: v.Choose("big", n+1) - 1}
	if s.big >= 0 {
		c := []int{126, 127, 128, 129, 130, 16382, 16383, 16384, 16385}
		s.l = c[v.Choose("biglen", len(c))]
	}
	return s
}

func (s *lens) of(i int) int {
	if s.big == i {
		return s.l
	}
	if s.big >= 0 {
		return v.Choose("restlen", 2)
	}
	c := []int{0, 1, 2, 127, 128}
	return c[v.Choose("len", len(c))]
}

// sym keeps long contents cheap: symbolic at both ends and in the middle of long fields.
func sym(label string, n int) []byte {
	return v.Bytes(label, n)
}

func checkPacket(p *srpc.Packet, want *hx.Pkt) {
	got := hx.Copy(p)
	v.Assert(got.Kind == want.Kind, "body kind changed")
	v.Assert(got.Service == want.Service, "service id changed")
	v.Assert(got.Method == want.Method, "method id changed")
	v.Assert(hx.Eq(got.Data, want.Data), "data changed")
	v.Assert(got.Zero == want.Zero, "data-is-zero flag changed")
	v.Assert(got.Complete == want.Complete, "complete flag changed")
	v.Assert(got.Err == want.Err, "error text changed")
	v.Assert(got.Flag == want.Flag, "cancel flag changed")
}

func roundTrip(p *srpc.Packet, want *hx.Pkt) {
	checkPacket(p, want)
	b := encode(p)
	q := &srpc.Packet{}
	v.Assert(q.UnmarshalVT(b) == nil, "decoding an encoded packet fails")
	checkPacket(q, want)
	v.Assert(q.EqualVT(p) && p.EqualVT(q), "decoded packet is not equal")
	r := &srpc.Packet{}
	got := 0
	h := srpc.NewPacketDataHandler(func(p *srpc.Packet) error { got++; r = p; return nil })
	v.Assert(h(b) == nil && got == 1, "packet data handler")
	checkPacket(r, want)
}

// H_start: call start packets.
//
// sym: steps=4000000 paths=20000
func H_start() {
	s := pick(3)
	svc, m, d := string(sym("svc", s.of(0))), string(sym("meth", s.of(1))), sym("data", s.of(2))
	z := v.Bool("zero")
	roundTrip(srpc.NewCallStartPacket(svc, m, d, z), &hx.Pkt{Kind: hx.Start, Service: svc, Method: m, Data: d, Zero: z})
	if s.big >= 0 && s.l == 16384 {
		v.Reach("long")
	}
}

// H_data: call data packets.
//
// sym: steps=4000000 paths=20000
func H_data() {
	s := pick(2)
	d, e := sym("data", s.of(0)), string(sym("err", s.of(1)))
	z, c := v.Bool("zero"), v.Bool("complete")
	p := &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: d, DataIsZero: z, Complete: c, Error: e}}}
	roundTrip(p, &hx.Pkt{Kind: hx.Data, Data: d, Zero: z, Complete: c, Err: e})
	if z && c {
		v.Reach("flags")
	}
}

// H_construct: the packet constructors carry their arguments.
func H_construct() {
	d := v.BytesUpTo("data", 2)
	z, c := v.Bool("zero"), v.Bool("complete")
	var err error
	e := ""
	if v.Choose("err", 2) == 1 {
		e = v.StringUpTo("errtext", 2)
		err = &hx.Err{S: e}
		v.Reach("error")
	}
	roundTrip(srpc.NewCallDataPacket(d, z, c, err), &hx.Pkt{Kind: hx.Data, Data: d, Zero: z, Complete: c || err != nil, Err: e})
	roundTrip(srpc.NewCallCancelPacket(), &hx.Pkt{Kind: hx.Cancel, Flag: true})
	f := v.Bool("cancel")
	roundTrip(&srpc.Packet{Body: &srpc.Packet_CallCancel{CallCancel: f}}, &hx.Pkt{Kind: hx.Cancel, Flag: f})
	roundTrip(&srpc.Packet{}, &hx.Pkt{})
}

// H_rpcstream: rpcstream packets.
//
// sym: steps=4000000
func H_rpcstream() {
	s := pick(1)
	b := sym("content", s.of(0))
	p := &rpcstream.RpcStreamPacket{}
	k := v.Choose("kind", 3)
	switch k {
	case 0:
		p.Body = &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: string(b)}}
	case 1:
		p.Body = &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: string(b)}}
	case 2:
		p.Body = &rpcstream.RpcStreamPacket_Data{Data: b}
	}
	q := &rpcstream.RpcStreamPacket{}
	v.Assert(q.UnmarshalVT(encode(p)) == nil, "decoding an encoded rpcstream packet fails")
	switch x := q.GetBody().(type) {
	case *rpcstream.RpcStreamPacket_Init:
		v.Assert(k == 0 && x.Init.GetComponentId() == string(b), "init changed")
		v.Reach("init")
	case *rpcstream.RpcStreamPacket_Ack:
		v.Assert(k == 1 && x.Ack.GetError() == string(b), "ack changed")
		v.Reach("ack")
	case *rpcstream.RpcStreamPacket_Data:
		v.Assert(k == 2 && hx.Eq(x.Data, b), "data changed")
		v.Assert(hx.Eq(q.GetData(), b), "data getter")
		v.Reach("data")
	default:
		v.Fail("body lost")
	}
	v.Assert(q.EqualVT(p) && p.EqualVT(q), "decoded rpcstream packet is not equal")
}

// H_msgs: the example message types.
//
// sym: steps=4000000
func H_msgs() {
	s := pick(1)
	b := string(sym("content", s.of(0)))
	em := &echo.EchoMsg{Body: b}
	e2 := &echo.EchoMsg{}
	v.Assert(e2.UnmarshalVT(encode(em)) == nil && e2.GetBody() == b && e2.EqualVT(em), "echo message changed")
	mm := &mock.MockMsg{Body: b}
	m2 := &mock.MockMsg{}
	v.Assert(m2.UnmarshalVT(encode(mm)) == nil && m2.GetBody() == b && m2.EqualVT(mm), "mock message changed")
}

// H_sub: the sub-messages on their own.
//
// sym: steps=4000000
func H_sub() {
	n := []int{0, 1, 127, 128}
	a, b, d := v.String("a", n[v.Choose("la", 4)]), v.String("b", n[v.Choose("lb", 4)]), v.Bytes("d", n[v.Choose("ld", 4)])
	z, c := v.Bool("z"), v.Bool("c")
	x := &srpc.CallStart{RpcService: a, RpcMethod: b, Data: d, DataIsZero: z}
	y := &srpc.CallStart{}
	v.Assert(y.UnmarshalVT(encode(x)) == nil, "decode call start")
	v.Assert(y.GetRpcService() == a && y.GetRpcMethod() == b && hx.Eq(y.GetData(), d) && y.GetDataIsZero() == z, "call start changed")
	p := &srpc.CallData{Data: d, DataIsZero: z, Complete: c, Error: a}
	q := &srpc.CallData{}
	v.Assert(q.UnmarshalVT(encode(p)) == nil, "decode call data")
	v.Assert(q.GetError() == a && q.GetComplete() == c && hx.Eq(q.GetData(), d) && q.GetDataIsZero() == z, "call data changed")
	i := &rpcstream.RpcStreamInit{ComponentId: a}
	i2 := &rpcstream.RpcStreamInit{}
	v.Assert(i2.UnmarshalVT(encode(i)) == nil && i2.GetComponentId() == a, "init changed")
	k := &rpcstream.RpcAck{Error: b}
	k2 := &rpcstream.RpcAck{}
	v.Assert(k2.UnmarshalVT(encode(k)) == nil && k2.GetError() == b, "ack changed")
}
