// Package c34: message clone and equality agree with the content.
//
// bound: pairs of messages of every type and body kind with string and bytes fields of 0 or 1 (thorough 0 to 2) symbolic bytes, every flag, with and without a nil or empty sub-message, one unknown field of a symbolic value at each level.
package c34

import (
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// gm is a generated message.
type gm interface {
	EqualMessageVT(any) bool
	UnmarshalVT([]byte) error
	MarshalVT() ([]byte, error)
	SizeVT() int
}

// spec is the content of a message.
type spec struct {
	s1, s2 string
	data   []byte
	f1, f2 bool
	u      string // unknown fields
}

func str(label string) string { return v.StringUpTo(label, v.Bound(1, 2)) }

func unknown(label string) string {
	if !v.Bool(label + ".has") {
		return ""
	}
	return string([]byte{15 << 3, v.Byte(label+".val") & 0x7f})
}

func bytes_(label string) []byte {
	n := v.Choose(label+".nil", v.Bound(3, 4))
	if n == 0 {
		return nil
	}
	b := append([]byte{}, v.Bytes(label, n-1)...)
	return b
}

func newSpec(strs, flags int, data bool, l string) (s spec) {
	if strs > 0 {
		s.s1 = str(l + "s1")
	}
	if strs > 1 {
		s.s2 = str(l + "s2")
	}
	if data {
		s.data = bytes_(l + "data")
	}
	if flags > 0 {
		s.f1 = v.Bool(l + "f1")
	}
	if flags > 1 {
		s.f2 = v.Bool(l + "f2")
	}
	s.u = unknown(l + "u")
	return
}

func (s spec) same(t spec) bool {
	return s.s1 == t.s1 && s.s2 == t.s2 && string(s.data) == string(t.data) && s.f1 == t.f1 && s.f2 == t.f2 && s.u == t.u
}

func (s spec) empty() bool { return s.same(spec{}) }

func cp(b []byte) []byte {
	if b == nil {
		return nil
	}
	return append([]byte{}, b...)
}

// with adds unknown fields to a message.
func with[T gm](m T, u string) T {
	if u != "" {
		if err := m.UnmarshalVT([]byte(u)); err != nil {
			v.Fail("unknown fields are refused")
		}
	}
	return m
}

// The messages of a content.
func start(s spec) *srpc.CallStart {
	return with(&srpc.CallStart{RpcService: s.s1, RpcMethod: s.s2, Data: cp(s.data), DataIsZero: s.f1}, s.u)
}
func data(s spec) *srpc.CallData {
	return with(&srpc.CallData{Data: cp(s.data), DataIsZero: s.f1, Complete: s.f2, Error: s.s1}, s.u)
}
func init_(s spec) *rpcstream.RpcStreamInit {
	return with(&rpcstream.RpcStreamInit{ComponentId: s.s1}, s.u)
}
func ack(s spec) *rpcstream.RpcAck     { return with(&rpcstream.RpcAck{Error: s.s1}, s.u) }
func echoMsg(s spec) *echo.EchoMsg     { return with(&echo.EchoMsg{Body: s.s1}, s.u) }
func mockMsg(s spec) *e2e_mock.MockMsg { return with(&e2e_mock.MockMsg{Body: s.s1}, s.u) }

// pspec is the content of a packet: 0 no body, 1.. a body; a body may lack its message.
type pspec struct {
	kind int
	none bool
	in   spec
	u    string
}

func newP(kinds int, l string, rs bool) (p pspec) {
	p.kind = v.Choose(l+"kind", kinds)
	if !rs {
		switch p.kind {
		case 1:
			p.in = newSpec(1, 1, true, l)
		case 2:
			p.in = newSpec(1, 2, true, l)
		case 3:
			p.in.f1 = v.Bool(l + "flag")
		}
	} else {
		switch p.kind {
		case 1, 2:
			p.in = newSpec(1, 0, false, l)
		case 3:
			p.in.data = bytes_(l + "bytes")
		}
	}
	if (p.kind == 1 || p.kind == 2) && v.Bool(l+"none") {
		p.none, p.in = true, spec{}
	}
	p.u = unknown(l + "ou")
	return
}

func (p pspec) same(q pspec) bool { return p.kind == q.kind && p.in.same(q.in) && p.u == q.u }

func packet(p pspec) *srpc.Packet {
	m := &srpc.Packet{}
	switch p.kind {
	case 1:
		b := &srpc.Packet_CallStart{}
		if !p.none {
			b.CallStart = start(p.in)
		}
		m.Body = b
	case 2:
		b := &srpc.Packet_CallData{}
		if !p.none {
			b.CallData = data(p.in)
		}
		m.Body = b
	case 3:
		m.Body = &srpc.Packet_CallCancel{CallCancel: p.in.f1}
	}
	return with(m, p.u)
}

func rpacket(p pspec) *rpcstream.RpcStreamPacket {
	m := &rpcstream.RpcStreamPacket{}
	switch p.kind {
	case 1:
		b := &rpcstream.RpcStreamPacket_Init{}
		if !p.none {
			b.Init = init_(p.in)
		}
		m.Body = b
	case 2:
		b := &rpcstream.RpcStreamPacket_Ack{}
		if !p.none {
			b.Ack = ack(p.in)
		}
		m.Body = b
	case 3:
		m.Body = &rpcstream.RpcStreamPacket_Data{Data: cp(p.in.data)}
	}
	return with(m, p.u)
}

// equal checks both ways of comparing and their symmetry.
func equal(want, ab, ba, aa, bb bool, a, b gm, an, na bool) {
	v.Assert(ab == ba, "equality is not symmetric")
	v.Assert(aa && bb, "equality is not reflexive")
	v.Assert(ab == want, "messages compare equal although they differ, or differ although they are equal")
	v.Assert(a.EqualMessageVT(b) == want && b.EqualMessageVT(a) == want, "comparing as messages differs")
	v.Assert(!a.EqualMessageVT("x") && !a.EqualMessageVT(nil), "a message equals something which is not one")
	v.Assert(!an && !na, "a message equals no message")
}

// H_equal_simple: the messages without a body.
//
// sym: race=0
func H_equal_simple() {
	var want bool
	switch v.Choose("type", 6) {
	case 0:
		s, t := newSpec(2, 1, true, "a"), newSpec(2, 1, true, "b")
		a, b := start(s), start(t)
		want = s.same(t)
		equal(want, a.EqualVT(b), b.EqualVT(a), a.EqualVT(a), b.EqualVT(b), a, b, a.EqualVT(nil), (*srpc.CallStart)(nil).EqualVT(a))
		v.Assert((*srpc.CallStart)(nil).EqualVT(nil), "equality is not reflexive")
	case 1:
		s, t := newSpec(1, 2, true, "a"), newSpec(1, 2, true, "b")
		a, b := data(s), data(t)
		want = s.same(t)
		equal(want, a.EqualVT(b), b.EqualVT(a), a.EqualVT(a), b.EqualVT(b), a, b, a.EqualVT(nil), (*srpc.CallData)(nil).EqualVT(a))
		v.Assert((*srpc.CallData)(nil).EqualVT(nil), "equality is not reflexive")
	case 2:
		s, t := newSpec(1, 0, false, "a"), newSpec(1, 0, false, "b")
		a, b := init_(s), init_(t)
		want = s.same(t)
		equal(want, a.EqualVT(b), b.EqualVT(a), a.EqualVT(a), b.EqualVT(b), a, b, a.EqualVT(nil), (*rpcstream.RpcStreamInit)(nil).EqualVT(a))
		v.Assert((*rpcstream.RpcStreamInit)(nil).EqualVT(nil), "equality is not reflexive")
	case 3:
		s, t := newSpec(1, 0, false, "a"), newSpec(1, 0, false, "b")
		a, b := ack(s), ack(t)
		want = s.same(t)
		equal(want, a.EqualVT(b), b.EqualVT(a), a.EqualVT(a), b.EqualVT(b), a, b, a.EqualVT(nil), (*rpcstream.RpcAck)(nil).EqualVT(a))
		v.Assert((*rpcstream.RpcAck)(nil).EqualVT(nil), "equality is not reflexive")
	case 4:
		s, t := newSpec(1, 0, false, "a"), newSpec(1, 0, false, "b")
		a, b := echoMsg(s), echoMsg(t)
		want = s.same(t)
		equal(want, a.EqualVT(b), b.EqualVT(a), a.EqualVT(a), b.EqualVT(b), a, b, a.EqualVT(nil), (*echo.EchoMsg)(nil).EqualVT(a))
		v.Assert((*echo.EchoMsg)(nil).EqualVT(nil), "equality is not reflexive")
	case 5:
		s, t := newSpec(1, 0, false, "a"), newSpec(1, 0, false, "b")
		a, b := mockMsg(s), mockMsg(t)
		want = s.same(t)
		equal(want, a.EqualVT(b), b.EqualVT(a), a.EqualVT(a), b.EqualVT(b), a, b, a.EqualVT(nil), (*e2e_mock.MockMsg)(nil).EqualVT(a))
		v.Assert((*e2e_mock.MockMsg)(nil).EqualVT(nil), "equality is not reflexive")
	}
	if want {
		v.Reach("equal")
	} else {
		v.Reach("different")
	}
}

// H_equal_packet: the packets with a body.
//
// sym: race=0
func H_equal_packet() {
	var want bool
	if v.Bool("rpcstream") {
		s, t := newP(4, "a", true), newP(4, "b", true)
		a, b := rpacket(s), rpacket(t)
		want = s.same(t)
		equal(want, a.EqualVT(b), b.EqualVT(a), a.EqualVT(a), b.EqualVT(b), a, b, a.EqualVT(nil), (*rpcstream.RpcStreamPacket)(nil).EqualVT(a))
	} else {
		s, t := newP(4, "a", false), newP(4, "b", false)
		a, b := packet(s), packet(t)
		want = s.same(t)
		equal(want, a.EqualVT(b), b.EqualVT(a), a.EqualVT(a), b.EqualVT(b), a, b, a.EqualVT(nil), (*srpc.Packet)(nil).EqualVT(a))
	}
	if want {
		v.Reach("equal")
	} else {
		v.Reach("different")
	}
}

func flip(b []byte) {
	for i := range b {
		b[i] ^= 0x55
	}
}

func flipStart(m *srpc.CallStart) {
	if m != nil {
		flip(m.Data)
		m.RpcService, m.RpcMethod, m.DataIsZero = m.RpcService+"x", "y", !m.DataIsZero
	}
}
func flipData(m *srpc.CallData) {
	if m != nil {
		flip(m.Data)
		m.Error, m.Complete, m.DataIsZero = m.Error+"x", !m.Complete, !m.DataIsZero
	}
}

// more adds an unknown field in place and returns its encoding.
func more(m gm, b byte) {
	if err := m.UnmarshalVT([]byte{14 << 3, b}); err != nil {
		v.Fail("unknown fields are refused")
	}
}

// apart checks that changing m does not change c, which equals fresh.
func apart[T gm](m, c, fresh T, change func(T)) {
	v.Assert(c.EqualMessageVT(fresh) && fresh.EqualMessageVT(c), "a clone differs from the original")
	o, err := c.MarshalVT()
	w, werr := fresh.MarshalVT()
	v.Assert(err == nil && werr == nil && string(o) == string(w) && c.SizeVT() == len(w), "a clone is encoded differently")
	if v.Bool("back") {
		m, c = c, m
	}
	change(m)
	v.Assert(c.EqualMessageVT(fresh), "changing a message changes its clone, or the other way round")
	// unknown fields appended to both stay apart
	more(c, 1)
	more(m, 2)
	more(fresh, 1)
	v.Assert(c.EqualMessageVT(fresh), "a message and its clone share unknown fields")
	v.Reach("apart")
}

// H_clone: clones are equal and share no memory.
//
// sym: race=0
func H_clone() {
	switch v.Choose("type", 6) {
	case 0:
		s := newSpec(2, 1, true, "a")
		m := start(s)
		apart(m, m.CloneVT(), start(s), flipStart)
	case 1:
		s := newSpec(1, 2, true, "a")
		m := data(s)
		apart(m, m.CloneVT(), data(s), flipData)
	case 2:
		s := newSpec(1, 0, false, "a")
		m := init_(s)
		apart(m, m.CloneVT(), init_(s), func(m *rpcstream.RpcStreamInit) { m.ComponentId += "x" })
	case 3:
		s := newSpec(1, 0, false, "a")
		m := ack(s)
		apart(m, m.CloneVT(), ack(s), func(m *rpcstream.RpcAck) { m.Error += "x" })
	case 4:
		s := newSpec(1, 0, false, "a")
		m := echoMsg(s)
		apart(m, m.CloneVT(), echoMsg(s), func(m *echo.EchoMsg) { m.Body += "x" })
	case 5:
		s := newSpec(1, 0, false, "a")
		m := mockMsg(s)
		apart(m, m.CloneVT(), mockMsg(s), func(m *e2e_mock.MockMsg) { m.Body += "x" })
	}
}

func flipPacket(m *srpc.Packet) {
	switch b := m.Body.(type) {
	case *srpc.Packet_CallStart:
		flipStart(b.CallStart)
		if v.Bool("drop") {
			b.CallStart = &srpc.CallStart{RpcMethod: "z"}
		}
	case *srpc.Packet_CallData:
		flipData(b.CallData)
		if v.Bool("drop") {
			b.CallData = &srpc.CallData{Error: "z"}
		}
	case *srpc.Packet_CallCancel:
		b.CallCancel = !b.CallCancel
	}
}

func flipRPacket(m *rpcstream.RpcStreamPacket) {
	switch b := m.Body.(type) {
	case *rpcstream.RpcStreamPacket_Init:
		if b.Init != nil {
			b.Init.ComponentId += "x"
		}
		if v.Bool("drop") {
			b.Init = &rpcstream.RpcStreamInit{ComponentId: "z"}
		}
	case *rpcstream.RpcStreamPacket_Ack:
		if b.Ack != nil {
			b.Ack.Error += "x"
		}
		if v.Bool("drop") {
			b.Ack = &rpcstream.RpcAck{Error: "z"}
		}
	case *rpcstream.RpcStreamPacket_Data:
		flip(b.Data)
	}
}

// H_clone_packet: clones of packets.
//
// sym: race=0
func H_clone_packet() {
	if v.Bool("rpcstream") {
		s := newP(4, "a", true)
		m := rpacket(s)
		c := m.CloneVT()
		if v.Bool("iface") {
			c = m.CloneMessageVT().(*rpcstream.RpcStreamPacket)
		}
		v.Assert(c != m, "a clone is the message itself")
		// the bodies' inner unknown fields
		apart(m, c, rpacket(s), func(m *rpcstream.RpcStreamPacket) { flipRPacket(m) })
	} else {
		s := newP(4, "a", false)
		m := packet(s)
		c := m.CloneVT()
		if v.Bool("iface") {
			c = m.CloneMessageVT().(*srpc.Packet)
		}
		v.Assert(c != m, "a clone is the message itself")
		apart(m, c, packet(s), flipPacket)
	}
}

// H_clone_nil: cloning no message gives no message.
//
// sym: race=0
func H_clone_nil() {
	v.Assert((*srpc.Packet)(nil).CloneVT() == nil && (*srpc.CallStart)(nil).CloneVT() == nil && (*srpc.CallData)(nil).CloneVT() == nil, "cloning no message gives a message")
	v.Assert((*rpcstream.RpcStreamPacket)(nil).CloneVT() == nil && (*rpcstream.RpcStreamInit)(nil).CloneVT() == nil && (*rpcstream.RpcAck)(nil).CloneVT() == nil, "cloning no message gives a message")
	v.Assert((*echo.EchoMsg)(nil).CloneVT() == nil && (*e2e_mock.MockMsg)(nil).CloneVT() == nil, "cloning no message gives a message")
	v.Reach("nil")
}
