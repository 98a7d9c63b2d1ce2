// Package c35: the JSON form of a message carries exactly its content.
//
// bound: every message type and body kind (also a body without its message), every combination of set and default fields; strings of 0 to 2 (thorough 0 to 3) symbolic printable ASCII characters, bytes fields from six contents of 0 to 4 bytes, symbolic flags; fields in reverse order, under both of their names, with an unknown field before them.
// assume: strings contain printable ASCII (the JSON library, a dependency, escapes some control characters in a form it does not read back).
package c35

import (
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// gm is a generated message.
type gm interface {
	MarshalJSON() ([]byte, error)
	UnmarshalJSON([]byte) error
	EqualMessageVT(any) bool
}

// field is one field of a JSON object.
type field struct{ name, proto, val string }

// text is the JSON text of fields, optionally in reverse order, under the proto names, or
// with an unknown field first.
func text(fs []field, mode int) string {
	s := "{"
	if mode == 3 {
		s += `"unknownField":{"a":[1,"x",null]}`
	}
	for i := range fs {
		f := fs[i]
		if mode == 1 {
			f = fs[len(fs)-1-i]
		}
		if len(s) > 1 {
			s += ","
		}
		n := f.name
		if mode == 2 {
			n = f.proto
		}
		s += `"` + n + `":` + f.val
	}
	return s + "}"
}

const b64 = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"

func sym(x byte) byte { return b64[x&0x3f] }

// base64 is the standard encoding with padding.
func base64(b []byte) string {
	var o []byte
	for len(b) > 0 {
		var x [3]byte
		n := copy(x[:], b)
		q := [4]byte{sym(x[0] >> 2), sym(x[0]<<4&0x3f | x[1]>>4), sym(x[1]<<2&0x3f | x[2]>>6), sym(x[2] & 0x3f)}
		for i := n + 1; i < 4; i++ {
			q[i] = '='
		}
		o = append(o, q[:]...)
		b = b[n:]
	}
	return string(o)
}

// contents are bytes fields; their base64 form is a matter of the JSON library.
var contents = []string{"", "\x00", "\xfb", "a\xff", "\xff\xef\xbe", "\x00\x10\x83\x10"}

func dat(label string, n int) []byte { return []byte(contents[v.Choose(label, n)]) }

func str(label string) string {
	s := v.StringUpTo(label, v.Bound(2, 3))
	for i := 0; i < len(s); i++ {
		v.Assume(s[i] >= 0x20 && s[i] < 0x7f)
	}
	return s
}

// plain: the string needs no escape in JSON.
func plain(s string) bool {
	for i := 0; i < len(s); i++ {
		if c := s[i]; c == '"' || c == '\\' || c == '<' || c == '>' || c == '&' {
			return false
		}
	}
	return true
}

// obj collects the non-default fields of a message.
type obj struct {
	fs    []field
	exact bool
}

func newObj() *obj { return &obj{exact: true} }

func (o *obj) str(name, proto, s string) *obj {
	if s != "" {
		if !plain(s) {
			o.exact = false
		}
		o.fs = append(o.fs, field{name, proto, `"` + s + `"`})
	}
	return o
}
func (o *obj) data(name, proto string, b []byte) *obj {
	if len(b) != 0 {
		o.fs = append(o.fs, field{name, proto, `"` + base64(b) + `"`})
	}
	return o
}
func (o *obj) flag(name, proto string, f bool) *obj {
	if f {
		o.fs = append(o.fs, field{name, proto, "true"})
	}
	return o
}
func (o *obj) sub(name, proto string, p *obj) *obj {
	o.exact = o.exact && p.exact
	o.fs = append(o.fs, field{name, proto, text(p.fs, 0)})
	return o
}

// check compares the JSON form of m with o, and reads it back into the empty message n.
func check(m, n gm, o *obj) {
	b, err := m.MarshalJSON()
	v.Assert(err == nil, "a message cannot be marshaled")
	if o.exact {
		v.Assert(string(b) == text(o.fs, 0), "the JSON form is not that of the set fields under their names")
	}
	in := b
	if o.exact {
		if mode := v.Choose("mode", 4); mode != 0 {
			in = []byte(text(o.fs, mode))
		}
	}
	v.Assert(n.UnmarshalJSON(in) == nil, "the JSON form is refused")
	v.Assert(m.EqualMessageVT(n) && n.EqualMessageVT(m), "the message read back differs")
}

func startObj(s *srpc.CallStart) *obj {
	return newObj().str("rpcService", "rpc_service", s.RpcService).str("rpcMethod", "rpc_method", s.RpcMethod).data("data", "data", s.Data).flag("dataIsZero", "data_is_zero", s.DataIsZero)
}
func dataObj(s *srpc.CallData) *obj {
	return newObj().data("data", "data", s.Data).flag("dataIsZero", "data_is_zero", s.DataIsZero).flag("complete", "complete", s.Complete).str("error", "error", s.Error)
}

func start() *srpc.CallStart {
	return &srpc.CallStart{RpcService: str("svc"), RpcMethod: str("meth"), Data: dat("data", 3), DataIsZero: v.Bool("zero")}
}
func data() *srpc.CallData {
	return &srpc.CallData{Data: dat("data", 3), DataIsZero: v.Bool("zero"), Complete: v.Bool("complete"), Error: str("error")}
}

// H_start: call starts.
//
// sym: race=0 steps=3000000 paths=200000
func H_start() {
	m := start()
	check(m, &srpc.CallStart{}, startObj(m))
}

// H_data: call data.
//
// sym: race=0 steps=3000000 paths=200000
func H_data() {
	m := data()
	check(m, &srpc.CallData{}, dataObj(m))
}

// H_bytes: longer contents of bytes fields.
//
// sym: race=0 steps=3000000 paths=200000
func H_bytes() {
	d := dat("data", 6)
	if v.Choose("type", 2) == 0 {
		m := &srpc.CallData{Data: d}
		check(m, &srpc.CallData{}, dataObj(m))
		return
	}
	m := &rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: d}}
	n := &rpcstream.RpcStreamPacket{}
	b, err := m.MarshalJSON()
	v.Assert(err == nil && string(b) == `{"data":"`+base64(d)+`"}`, "the JSON form is not that of the set fields under their names")
	v.Assert(n.UnmarshalJSON(b) == nil && m.EqualVT(n), "the message read back differs")
}

// H_packet: srpc packets.
//
// sym: race=0 steps=3000000 paths=200000
func H_packet() {
	m, o := &srpc.Packet{}, newObj()
	switch v.Choose("kind", 6) {
	case 1:
		s := &srpc.CallStart{RpcService: str("svc"), RpcMethod: str("meth"), DataIsZero: v.Bool("zero")}
		m.Body = &srpc.Packet_CallStart{CallStart: s}
		o.sub("callStart", "call_start", startObj(s))
	case 2:
		s := &srpc.CallData{DataIsZero: v.Bool("zero"), Complete: v.Bool("complete"), Error: str("error")}
		m.Body = &srpc.Packet_CallData{CallData: s}
		o.sub("callData", "call_data", dataObj(s))
	case 3:
		f := v.Bool("flag")
		m.Body = &srpc.Packet_CallCancel{CallCancel: f}
		s := "false"
		if f {
			s = "true"
		}
		o.fs = append(o.fs, field{"callCancel", "call_cancel", s})
	case 4:
		m.Body = &srpc.Packet_CallStart{}
		o.fs = append(o.fs, field{"callStart", "call_start", "null"})
	case 5:
		m.Body = &srpc.Packet_CallData{}
		o.fs = append(o.fs, field{"callData", "call_data", "null"})
	}
	check(m, &srpc.Packet{}, o)
}

// H_rs: rpcstream packets and their bodies.
//
// sym: race=0 steps=3000000 paths=200000
func H_rs() {
	m, o := &rpcstream.RpcStreamPacket{}, newObj()
	switch v.Choose("kind", 7) {
	case 1:
		s := str("id")
		m.Body = &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: s}}
		o.sub("init", "init", newObj().str("componentId", "component_id", s))
	case 2:
		s := str("error")
		m.Body = &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: s}}
		o.sub("ack", "ack", newObj().str("error", "error", s))
	case 3:
		m.Body = &rpcstream.RpcStreamPacket_Init{}
		o.fs = append(o.fs, field{"init", "init", "null"})
	case 4:
		m.Body = &rpcstream.RpcStreamPacket_Ack{}
		o.fs = append(o.fs, field{"ack", "ack", "null"})
	case 5:
		i := &rpcstream.RpcStreamInit{ComponentId: str("id")}
		check(i, &rpcstream.RpcStreamInit{}, newObj().str("componentId", "component_id", i.ComponentId))
		return
	case 6:
		a := &rpcstream.RpcAck{Error: str("error")}
		check(a, &rpcstream.RpcAck{}, newObj().str("error", "error", a.Error))
		return
	}
	check(m, &rpcstream.RpcStreamPacket{}, o)
}

// H_msgs: the example messages, and a null where a message is expected.
//
// sym: race=0 steps=3000000 paths=200000
func H_msgs() {
	switch v.Choose("type", 3) {
	case 0:
		m := &echo.EchoMsg{Body: str("body")}
		check(m, &echo.EchoMsg{}, newObj().str("body", "body", m.Body))
	case 1:
		m := &e2e_mock.MockMsg{Body: str("body")}
		check(m, &e2e_mock.MockMsg{}, newObj().str("body", "body", m.Body))
	case 2:
		var ms []gm
		ms = append(ms, &srpc.Packet{}, &srpc.CallStart{}, &srpc.CallData{}, &rpcstream.RpcStreamPacket{}, &rpcstream.RpcStreamInit{}, &rpcstream.RpcAck{}, &echo.EchoMsg{}, &e2e_mock.MockMsg{})
		m := ms[v.Choose("of", len(ms))]
		v.Assert(m.UnmarshalJSON([]byte("null")) == nil, "null is refused")
		b, err := m.MarshalJSON()
		v.Assert(err == nil && string(b) == "{}", "null is not the empty message")
	}
}
