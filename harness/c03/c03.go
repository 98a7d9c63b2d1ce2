// Package c03: framing delivers exactly the packets written, for any segmentation.
//
// bound: every segmentation of streams of up to 12 bytes (two frames; thorough 16 bytes, three frames); frames of 1..3 bytes and around 2044, 2048 and 4096 bytes (one size class per path) with cuts at every position near a frame or buffer boundary; contents symbolic.
// assume: a packet that encodes to zero bytes is not a valid packet and is not written.
package c03

import (
	"errors"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// cutRW reads a fixed stream in pieces chosen by the solver.
type cutRW struct {
	b       []byte
	i       int
	cut     func(rest, max int) int
	withEOF bool
	eofErr  error
	out     []byte
	closed  int
}

func (r *cutRW) Read(p []byte) (int, error) {
	rest := len(r.b) - r.i
	if rest == 0 {
		return 0, r.eofErr
	}
	m := min(rest, len(p))
	n := r.cut(rest, m)
	copy(p, r.b[r.i:r.i+n])
	// the transport owns the rest of the buffer
	for k := n; k < len(p) && k < n+4; k++ {
		p[k] = 0xaa
	}
	r.i += n
	if r.i == len(r.b) && r.withEOF {
		return n, r.eofErr
	}
	return n, nil
}
func (r *cutRW) Write(p []byte) (int, error) { r.out = append(r.out, p...); return len(p), nil }
func (r *cutRW) Close() error                { r.closed++; return nil }

type packet struct {
	p   *srpc.Packet
	enc []byte
}

func mk(n int) packet {
	// n bytes encoded in total
	var p *srpc.Packet
	switch {
	case n == 2:
		if v.Choose("k", 2) == 0 {
			p = srpc.NewCallCancelPacket()
		} else {
			p = &srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{}}}
		}
	case n == 4:
		p = srpc.NewCallDataPacket(nil, false, true, nil)
	default:
		k := n - 4
		if n > 131 {
			k = n - 6
		}
		p = srpc.NewCallDataPacket(v.Bytes("data", k), false, false, nil)
	}
	return packet{p, hx.Enc(p)}
}

// write sends the packets through the real writer and returns the byte stream.
func write(ps []packet) []byte {
	w := &cutRW{}
	prw := srpc.NewPacketReadWriter(w)
	for _, p := range ps {
		v.Assert(prw.WritePacket(p.p) == nil, "writing to a healthy transport fails")
	}
	var want []byte
	for _, p := range ps {
		want = append(want, hx.Frame(p.enc)...)
	}
	v.Assert(hx.Eq(w.out, want), "bytes on the wire are not the length-prefixed packets")
	v.Assert(w.closed == 0, "writing closes the transport")
	return w.out
}

// read runs the read pump over r and checks what it delivers.
func read(r *cutRW, ps []packet) {
	prw := srpc.NewPacketReadWriter(r)
	i := 0
	closed := 0
	prw.ReadPump(func(d []byte) error {
		v.Assert(closed == 0, "delivery after close")
		v.Assert(i < len(ps), "more packets delivered than written")
		v.Assert(hx.Eq(d, ps[i].enc), "delivered packet differs from the one written")
		// the handler may scribble over what it was given
		for k := range d {
			if k < 4 || k >= len(d)-4 {
				d[k] = 0x55
			}
		}
		i++
		return nil
	}, func(err error) {
		v.Assert(err == nil, "clean end of stream reported as an error")
		closed++
	})
	v.Assert(i == len(ps), "packet lost")
	v.Assert(closed == 1, "close handler not called exactly once")
}

// H_all_cuts: two small frames, every segmentation.
//
// sym: paths=200000 budget=400
func H_all_cuts() {
	var ps []packet
	for k := 0; k < v.Bound(2, 3); k++ {
		ps = append(ps, mk(2))
	}
	if v.Choose("third", 2) == 1 && !v.Thorough() {
		ps[1] = mk(4)
	}
	r := &cutRW{b: write(ps), eofErr: io.EOF, withEOF: v.Choose("eofwith", 2) == 1}
	r.cut = func(rest, m int) int { return 1 + v.Choose("cut", m) }
	read(r, ps)
	v.Reach("done")
}

// H_content: symbolic contents, the cut after each read chosen from one byte, a whole prefix, all.
//
// sym: paths=200000 budget=400
func H_content() {
	n := v.Bound(2, 3)
	var ps []packet
	for k := 0; k < n; k++ {
		ps = append(ps, mk(5+v.Choose("len", 2)))
	}
	r := &cutRW{b: write(ps), eofErr: io.EOF, withEOF: v.Choose("eofwith", 2) == 1}
	mode := v.Choose("mode", 5)
	first := 0
	if mode == 4 {
		first = 1 + v.Choose("first", len(r.b))
	}
	r.cut = func(rest, m int) int {
		switch mode {
		case 0:
			return m
		case 1:
			return 1
		case 2:
			return min(m, 3)
		case 3:
			return min(m, 7)
		}
		if rest == len(r.b) {
			return first
		}
		return m
	}
	read(r, ps)
}

// H_large: frames around the size of the read buffer.
//
// sym: paths=200000 steps=20000000 alloc=400000 budget=400
func H_large() {
	sizes := []int{2043, 2044, 2045, 2048, 2049, 4092, 4097, 9000}
	if v.Thorough() {
		sizes = append(sizes, 2042, 2046, 2047, 4091, 4093, 4096, 6140, 6144, 65536)
	}
	n := sizes[v.Choose("size", len(sizes))]
	order := v.Choose("order", 3)
	small := func() packet { return mk(6) }
	var ps []packet
	switch order {
	case 0:
		ps = []packet{mk(n), small()}
	case 1:
		ps = []packet{small(), mk(n), small()}
	case 2:
		ps = []packet{mk(n), mk(n)}
	}
	r := &cutRW{b: write(ps), eofErr: io.EOF, withEOF: v.Choose("eofwith", 2) == 1}
	mode := v.Choose("mode", 6)
	r.cut = func(rest, m int) int {
		switch mode {
		case 0:
			return m
		case 1:
			return min(m, 1460)
		case 2:
			// everything but the last three bytes, then the rest
			if rest > 3 {
				return min(m, rest-3)
			}
			return m
		case 3:
			// inside the first prefix
			if rest == len(r.b) {
				return 2
			}
			return m
		case 4:
			// one byte past the first frame
			if at := len(hx.Frame(ps[0].enc)) + 1 - (len(r.b) - rest); at > 0 {
				return min(m, at)
			}
			return m
		}
		// inside the second prefix
		if at := len(hx.Frame(ps[0].enc)) + 3 - (len(r.b) - rest); at > 0 {
			return min(m, at)
		}
		return m
	}
	read(r, ps)
}

// H_queue: one read-writer used in both directions keeps the directions apart.
func H_queue() {
	in := []packet{mk(6), mk(2)}
	r := &cutRW{b: write(in), eofErr: io.EOF}
	r.cut = func(rest, m int) int { return min(m, 5) }
	prw := srpc.NewPacketReadWriter(r)
	o := mk(7)
	i := 0
	err := prw.ReadToHandler(func(d []byte) error {
		v.Assert(i < len(in) && hx.Eq(d, in[i].enc), "delivered packet differs from the one written")
		i++
		return prw.WritePacket(o.p)
	})
	v.Assert(err == nil && i == 2, "packet lost")
	f := hx.Frame(o.enc)
	v.Assert(hx.Eq(r.out, append(append([]byte{}, f...), f...)), "bytes written while reading")
	v.Assert(prw.Close() == nil && r.closed == 1, "Close closes the transport")
}

// H_nohandler: a read pump without a close handler ends quietly.
func H_nohandler() {
	ps := []packet{mk(2)}
	r := &cutRW{b: write(ps), eofErr: io.EOF}
	r.cut = func(rest, m int) int { return m }
	n := 0
	srpc.NewPacketReadWriter(r).ReadPump(func(d []byte) error { n++; return nil }, nil)
	v.Assert(n == 1, "packet lost")
	v.Assert(errors.Is(r.eofErr, io.EOF), "eof")
}
