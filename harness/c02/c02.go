// Package c02: decoding untrusted bytes is total and follows the protobuf wire format.
//
// bound: every byte string of up to 5 bytes (thorough 6) for srpc packets and rpcstream packets; sub-messages: every string of up to 5 (thorough 6) bytes inside a length-delimited body or decoded directly; varints of up to 11 bytes; two records in any order.
// assume: tags whose field number exceeds 2^29-1, varints exceeding 64 bits and mismatched group numbers may be accepted or rejected (implementations of protobuf differ).
package c02

import (
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// rd is an independent reader of the wire format.
type rd struct {
	b     []byte
	i     int
	bad   bool // malformed: must be rejected
	loose bool // outcome not specified
}

func (r *rd) varint() uint64 {
	var n uint64
	for k := 0; k < 10; k++ {
		if r.i >= len(r.b) {
			r.bad = true
			return 0
		}
		c := r.b[r.i]
		r.i++
		if k == 9 && c > 1 && c < 0x80 {
			r.loose = true
		}
		n |= uint64(c&0x7f) << (7 * k)
		if c < 0x80 {
			return n
		}
	}
	r.bad = true
	return 0
}

// rec is one field occurrence.
type rec struct {
	field      uint64
	typ        uint64
	n          uint64
	data       []byte
	start, end int
}

func (r *rd) skipBytes(n uint64) (int, int) {
	if r.bad {
		return 0, 0
	}
	if n > uint64(len(r.b)-r.i) {
		r.bad = true
		return 0, 0
	}
	s := r.i
	r.i += v.Concretize(int(n))
	return s, r.i
}

// next reads one record; known(field) says whether the field's contents must not be skipped as a group.
func (r *rd) next(nested bool) rec {
	c := rec{start: r.i}
	tag := r.varint()
	if r.bad {
		return c
	}
	c.field, c.typ = tag>>3, tag&7
	if c.field > 1<<29-1 {
		r.loose = true
	}
	if c.field == 0 && !nested {
		r.bad = true
		return c
	}
	if c.field == 0 {
		r.loose = true
	}
	switch c.typ {
	case 0:
		c.n = r.varint()
	case 1:
		r.skipBytes(8)
	case 2:
		n := r.varint()
		s, e := r.skipBytes(n)
		if !r.bad {
			c.data = r.b[s:e]
		}
	case 3:
		for !r.bad {
			x := r.next(true)
			if r.bad {
				break
			}
			if x.typ == 4 {
				if x.field != c.field {
					r.loose = true
				}
				break
			}
		}
	case 4:
		if !nested {
			r.bad = true
		}
	case 5:
		r.skipBytes(4)
	default:
		r.bad = true
	}
	c.end = r.i
	return c
}

type start struct {
	svc, meth string
	data      []byte
	zero      bool
	unk       []byte
}

type data struct {
	data     []byte
	zero     bool
	complete bool
	err      string
	unk      []byte
}

func (r *rd) start(s *start) {
	for r.i < len(r.b) && !r.bad {
		c := r.next(false)
		if r.bad {
			return
		}
		switch c.field {
		case 1, 2, 3:
			if c.typ != 2 {
				r.bad = true
				return
			}
			switch c.field {
			case 1:
				s.svc = string(c.data)
			case 2:
				s.meth = string(c.data)
			default:
				s.data = append([]byte{}, c.data...)
			}
		case 4:
			if c.typ != 0 {
				r.bad = true
				return
			}
			s.zero = c.n != 0
		default:
			s.unk = append(s.unk, r.b[c.start:c.end]...)
		}
	}
}

func (r *rd) data(d *data) {
	for r.i < len(r.b) && !r.bad {
		c := r.next(false)
		if r.bad {
			return
		}
		switch c.field {
		case 1, 4:
			if c.typ != 2 {
				r.bad = true
				return
			}
			if c.field == 1 {
				d.data = append([]byte{}, c.data...)
			} else {
				d.err = string(c.data)
			}
		case 2, 3:
			if c.typ != 0 {
				r.bad = true
				return
			}
			if c.field == 2 {
				d.zero = c.n != 0
			} else {
				d.complete = c.n != 0
			}
		default:
			d.unk = append(d.unk, r.b[c.start:c.end]...)
		}
	}
}

type packet struct {
	kind   int
	start  start
	data   data
	cancel bool
	unk    []byte
}

func (r *rd) sub(b []byte) *rd { return &rd{b: b} }

func (r *rd) join(s *rd) {
	r.bad = r.bad || s.bad
	r.loose = r.loose || s.loose
}

func (r *rd) packet(p *packet) {
	for r.i < len(r.b) && !r.bad {
		c := r.next(false)
		if r.bad {
			return
		}
		switch c.field {
		case 1, 2:
			if c.typ != 2 {
				r.bad = true
				return
			}
			s := r.sub(c.data)
			if c.field == 1 {
				if p.kind != hx.Start {
					p.start = start{}
				}
				p.kind = hx.Start
				s.start(&p.start)
			} else {
				if p.kind != hx.Data {
					p.data = data{}
				}
				p.kind = hx.Data
				s.data(&p.data)
			}
			r.join(s)
		case 3:
			if c.typ != 0 {
				r.bad = true
				return
			}
			p.kind = hx.Cancel
			p.cancel = c.n != 0
		default:
			p.unk = append(p.unk, r.b[c.start:c.end]...)
		}
	}
}

// enc is an independent encoder of the same content.
func encVar(b []byte, n int) []byte {
	for n >= 0x80 {
		b = append(b, byte(n)|0x80)
		n >>= 7
	}
	return append(b, byte(n))
}

func encBytes(b []byte, tag byte, d []byte) []byte {
	if len(d) == 0 {
		return b
	}
	b = encVar(append(b, tag), len(d))
	return append(b, d...)
}

func encBool(b []byte, tag byte, f bool) []byte {
	if f {
		return append(b, tag, 1)
	}
	return b
}

func (s *start) enc() []byte {
	b := encBytes(nil, 0x0a, []byte(s.svc))
	b = encBytes(b, 0x12, []byte(s.meth))
	b = encBytes(b, 0x1a, s.data)
	b = encBool(b, 0x20, s.zero)
	return append(b, s.unk...)
}

func (d *data) enc() []byte {
	b := encBytes(nil, 0x0a, d.data)
	b = encBool(b, 0x10, d.zero)
	b = encBool(b, 0x18, d.complete)
	b = encBytes(b, 0x22, []byte(d.err))
	return append(b, d.unk...)
}

func (p *packet) enc() []byte {
	var b []byte
	switch p.kind {
	case hx.Start:
		s := p.start.enc()
		b = append(encVar([]byte{0x0a}, len(s)), s...)
	case hx.Data:
		s := p.data.enc()
		b = append(encVar([]byte{0x12}, len(s)), s...)
	case hx.Cancel:
		b = append(b, 0x18, 0)
		if p.cancel {
			b[1] = 1
		}
	}
	return append(b, p.unk...)
}

func checkStart(c *srpc.CallStart, s *start) {
	v.Assert(c.GetRpcService() == s.svc, "service id differs from the wire format")
	v.Assert(c.GetRpcMethod() == s.meth, "method id differs from the wire format")
	v.Assert(hx.Eq(c.GetData(), s.data), "data differs from the wire format")
	v.Assert(c.GetDataIsZero() == s.zero, "flag differs from the wire format")
}

func checkData(c *srpc.CallData, d *data) {
	v.Assert(hx.Eq(c.GetData(), d.data), "data differs from the wire format")
	v.Assert(c.GetDataIsZero() == d.zero && c.GetComplete() == d.complete, "flags differ from the wire format")
	v.Assert(c.GetError() == d.err, "error differs from the wire format")
}

// checkPacket returns what the bytes are.
func checkPacket(b []byte) string {
	orig := append([]byte(nil), b...)
	p := &srpc.Packet{}
	err := p.UnmarshalVT(b)
	v.Assert(hx.Eq(orig, b), "decoding changes its input")
	// the handler wrapper agrees
	called := 0
	herr := srpc.NewPacketDataHandler(func(q *srpc.Packet) error { called++; return nil })(b)
	v.Assert((herr == nil) == (err == nil), "packet data handler and decoder disagree")
	v.Assert((called == 1) == (err == nil), "packet data handler passes on an undecodable packet")
	r := &rd{b: b}
	var want packet
	r.packet(&want)
	if r.loose {
		return "loose"
	}
	if r.bad {
		v.Assert(err != nil, "malformed packet accepted")
		return "malformed"
	}
	v.Assert(err == nil, "well-formed packet rejected")
	kind := "none"
	switch x := p.GetBody().(type) {
	case *srpc.Packet_CallStart:
		v.Assert(want.kind == hx.Start, "wrong body kind")
		checkStart(x.CallStart, &want.start)
		kind = "start"
	case *srpc.Packet_CallData:
		v.Assert(want.kind == hx.Data, "wrong body kind")
		checkData(x.CallData, &want.data)
		kind = "data"
	case *srpc.Packet_CallCancel:
		v.Assert(want.kind == hx.Cancel && x.CallCancel == want.cancel, "wrong body kind")
		kind = "cancel"
	default:
		v.Assert(want.kind == hx.None, "body lost")
	}
	e, err := p.MarshalVT()
	v.Assert(err == nil && hx.Eq(e, want.enc()), "re-encoding loses or changes something (unknown fields included)")
	if len(want.unk) != 0 {
		kind += "+unknown"
	}
	return kind
}

// H_any: every short byte string as an srpc packet.
//
// sym: paths=2000000 budget=500
func H_any() {
	switch checkPacket(v.BytesUpTo("b", v.Bound(5, 6))) {
	case "malformed":
		v.Reach("malformed")
	case "start":
		v.Reach("start")
	case "data":
		v.Reach("data")
	case "cancel":
		v.Reach("cancel")
	case "start+unknown":
		v.Reach("start and unknown")
	case "none+unknown":
		v.Reach("unknown")
	}
}

// H_any_start: every short byte string inside a call start body.
//
// sym: paths=2000000 budget=500
func H_any_start() {
	in := v.BytesUpTo("b", v.Bound(5, 6))
	checkPacket(append([]byte{0x0a, byte(len(in))}, in...))
}

// H_any_data: every short byte string inside a call data body.
//
// sym: paths=2000000 budget=500
func H_any_data() {
	in := v.BytesUpTo("b", v.Bound(5, 6))
	checkPacket(append([]byte{0x12, byte(len(in))}, in...))
}

// H_merge: two bodies in a row: the same kind merges, a different kind replaces.
func H_merge() {
	mk := func(tag string) []byte {
		switch v.Choose(tag, 4) {
		case 0: // call start with one or two fields
			in := []byte{0x0a, 1, v.Byte("svc")}
			if v.Choose("f2", 2) == 1 {
				in = append(in, 0x12, 1, v.Byte("meth"), 0x20, v.Byte("zero")&0x7f)
			}
			return append([]byte{0x0a, byte(len(in))}, in...)
		case 1:
			in := []byte{0x22, 1, v.Byte("err")}
			if v.Choose("f2", 2) == 1 {
				in = append(in, 0x0a, 1, v.Byte("data"), 0x10, v.Byte("zero")&0x7f)
			}
			return append([]byte{0x12, byte(len(in))}, in...)
		case 2:
			return []byte{0x18, v.Byte("flag") & 0x7f}
		default:
			return []byte{0x22, 1, v.Byte("unk")}
		}
	}
	b := mk("k1")
	b = append(b, mk("k2")...)
	if v.Choose("third", 2) == 1 {
		b = append(b, mk("k3")...)
	}
	checkPacket(b)
}

// H_varint: over-long and maximal varints as tag, length and value.
//
// sym: paths=500000
func H_varint() {
	n := 1 + v.Choose("n", 11)
	vi := make([]byte, n)
	for i := range vi {
		vi[i] = v.Byte("vi") | 0x80
	}
	if v.Choose("end", 2) == 1 {
		vi[n-1] &= 0x7f
	}
	var b []byte
	switch v.Choose("where", 6) {
	case 0:
		b = vi
	case 1:
		b = append([]byte{0x0a}, vi...)
	case 2:
		b = append([]byte{0x18}, vi...)
	case 3:
		b = append([]byte{0x12, byte(1 + n), 0x0a}, vi...)
	case 4:
		b = append([]byte{0x0a, byte(1 + n), 0x20}, vi...)
	case 5:
		b = append([]byte{0x2a}, vi...)
	}
	checkPacket(b)
}

// H_rs: every short byte string as an rpcstream packet.
//
// sym: paths=2000000 budget=500
func H_rs() {
	b := v.BytesUpTo("b", v.Bound(5, 6))
	p := &rpcstream.RpcStreamPacket{}
	err := p.UnmarshalVT(b)
	r := &rd{b: b}
	kind := 0
	var txt, unk, subunk []byte
	for r.i < len(r.b) && !r.bad {
		c := r.next(false)
		if r.bad {
			break
		}
		switch c.field {
		case 1, 2:
			if c.typ != 2 {
				r.bad = true
				break
			}
			if kind != int(c.field) {
				txt, subunk = nil, nil
			}
			kind = v.Concretize(int(c.field))
			s := r.sub(c.data)
			for s.i < len(s.b) && !s.bad {
				x := s.next(false)
				if s.bad {
					break
				}
				if x.field == 1 {
					if x.typ != 2 {
						s.bad = true
						break
					}
					txt = x.data
				} else {
					subunk = append(subunk, s.b[x.start:x.end]...)
				}
			}
			r.join(s)
		case 3:
			if c.typ != 2 {
				r.bad = true
				break
			}
			kind = 3
			txt = c.data
		default:
			unk = append(unk, r.b[c.start:c.end]...)
		}
	}
	if r.loose {
		return
	}
	if r.bad {
		v.Assert(err != nil, "malformed rpcstream packet accepted")
		v.Reach("malformed")
		return
	}
	v.Assert(err == nil, "well-formed rpcstream packet rejected")
	var e []byte
	switch x := p.GetBody().(type) {
	case *rpcstream.RpcStreamPacket_Init:
		v.Assert(kind == 1 && x.Init.GetComponentId() == string(txt), "init differs from the wire format")
		v.Reach("init")
	case *rpcstream.RpcStreamPacket_Ack:
		v.Assert(kind == 2 && x.Ack.GetError() == string(txt), "ack differs from the wire format")
		v.Reach("ack")
	case *rpcstream.RpcStreamPacket_Data:
		v.Assert(kind == 3 && hx.Eq(x.Data, txt), "data differs from the wire format")
		v.Reach("data")
	default:
		v.Assert(kind == 0, "body lost")
	}
	switch kind {
	case 1, 2:
		s := append(encBytes(nil, 0x0a, txt), subunk...)
		e = append(encVar([]byte{byte(kind<<3 | 2)}, len(s)), s...)
	case 3:
		e = append(encVar([]byte{0x1a}, len(txt)), txt...)
	}
	e = append(e, unk...)
	o, err := p.MarshalVT()
	v.Assert(err == nil && hx.Eq(o, e), "re-encoding loses or changes something")
}

// H_long: decoding a long, truncated or oversized length never panics and reports truncation.
func H_long() {
	n := []int{0, 1, 127, 128, 200}[v.Choose("n", 5)]
	claim := v.Uint32("claim")
	b := []byte{0x12, byte(claim) | 0x80, byte(claim>>7) | 0x80, byte(claim>>14) | 0x80, byte(claim>>21) & 0x7f}
	claim &= 1<<28 - 1
	body := make([]byte, n)
	for i := range body {
		body[i] = 0
	}
	if n >= 3 {
		// one data field filling the body
		if n < 130 {
			body[0], body[1] = 0x0a, byte(n-2)
		} else {
			body[0], body[1], body[2] = 0x0a, byte(n-3)|0x80, byte((n-3)>>7)
		}
	} else if n == 1 {
		body[0] = 0x0a
	}
	b = append(b, body...)
	p := &srpc.Packet{}
	err := p.UnmarshalVT(b)
	if int(claim) > n {
		v.Assert(err != nil, "truncated packet accepted")
		v.Reach("truncated")
	}
	if int(claim) == n && n != 1 {
		v.Assert(err == nil, "complete packet rejected")
		v.Reach("complete")
	}
	if err == nil {
		v.Assert(int(claim) <= n, "length beyond the input accepted")
	}
}
