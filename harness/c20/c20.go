// Package c20: raw messages carry bytes unchanged and copy when asked to.
//
// bound: every sequence of 3 (thorough 4) operations (set, unmarshal, clear, reset, marshal) on a message, contents of 0 to 3 symbolic bytes, in copy and in no-copy mode; buffers given are prefixes of larger ones; every buffer given or returned is overwritten afterwards in copy mode; sized buffers of 0 to 4 bytes.
package c20

import (
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

func check(m *srpc.RawMessage, want []byte) {
	v.Assert(hx.Eq(m.GetData(), want), "the message does not hold the bytes last set")
	v.Assert(m.SizeVT() == len(want), "the reported size disagrees with the bytes")
	b, err := m.MarshalVT()
	v.Assert(err == nil && hx.Eq(b, want), "marshaling disagrees with the bytes")
	buf := v.Bytes("buf", v.Choose("buflen", 5))
	keep := append([]byte(nil), buf...)
	n, err := m.MarshalToSizedBufferVT(buf)
	if len(buf) != len(want) {
		v.Assert(err != nil, "a wrongly sized buffer is accepted")
		v.Assert(hx.Eq(buf, keep), "a refused buffer is written")
	} else {
		v.Assert(err == nil && n == len(want) && hx.Eq(buf, want), "sized marshaling disagrees with the bytes")
	}
	v.Assert(hx.Eq(m.GetData(), want), "marshaling changes the message")
}

func scribble(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

// part is the first bytes of a buffer of the caller.
func part(label string) []byte {
	n := v.Choose(label+" len", 4)
	return v.Bytes(label, 3)[:n]
}

// H_copy: in copy mode nothing is shared.
//
// sym: paths=3000000 budget=400
func H_copy() {
	m := srpc.NewRawMessage(nil, true)
	var want []byte
	var out [][]byte
	var outWant [][]byte
	var in [][]byte
	var inWant [][]byte
	given := func(b []byte) {
		b = b[:cap(b)]
		scribble(b)
		in = append(in, b)
		inWant = append(inWant, append([]byte(nil), b...))
	}
	n := v.Bound(3, 4)
	for i := 0; i < n; i++ {
		switch v.Choose("op", 5) {
		case 0:
			b := part("set")
			want = append([]byte(nil), b...)
			m.SetData(b)
			given(b)
		case 1:
			b := part("unm")
			want = append([]byte(nil), b...)
			v.Assert(m.UnmarshalVT(b) == nil, "unmarshal fails")
			given(b)
		case 2:
			m.Clear()
			want = nil
		case 3:
			m.Reset()
			want = nil
		case 4:
			b, err := m.MarshalVT()
			v.Assert(err == nil && hx.Eq(b, want), "marshaling disagrees with the bytes")
			if v.Choose("scribble", 2) == 1 {
				scribble(b)
			} else {
				out = append(out, b)
				outWant = append(outWant, append([]byte(nil), want...))
			}
		}
		v.Assert(hx.Eq(m.GetData(), want), "changing a buffer changes the message")
		for j := range in {
			v.Assert(hx.Eq(in[j], inWant[j]), "changing the message changes a buffer it was given")
		}
		for j := range out {
			v.Assert(hx.Eq(out[j], outWant[j]), "changing the message changes a marshaled buffer")
		}
	}
	check(m, want)
}

// H_initial: a message constructed over a buffer, then reused in copy mode.
//
// sym: paths=3000000 budget=400
func H_initial() {
	d := v.BytesUpTo("d", 3)
	m := srpc.NewRawMessage(d, true)
	check(m, d)
	b, _ := m.MarshalVT()
	scribble(b)
	check(m, d)
	e := v.BytesUpTo("e", 3)
	m.SetData(e)
	w := append([]byte(nil), e...)
	scribble(e)
	check(m, w)
}

// H_nocopy: without copying the content is still exactly what was last set.
//
// sym: paths=3000000 budget=400
func H_nocopy() {
	d := v.BytesUpTo("d", 3)
	var m *srpc.RawMessage
	if v.Choose("zero", 2) == 1 {
		m = &srpc.RawMessage{}
		m.SetData(d)
	} else {
		m = srpc.NewRawMessage(d, false)
	}
	check(m, d)
	want := d
	for i := 0; i < 2; i++ {
		switch v.Choose("op", 4) {
		case 0:
			want = v.BytesUpTo("set", 3)
			m.SetData(want)
		case 1:
			want = v.BytesUpTo("unm", 3)
			v.Assert(m.UnmarshalVT(want) == nil, "unmarshal fails")
		case 2:
			m.Clear()
			want = nil
		case 3:
			m.Reset()
			want = nil
		}
		v.Assert(hx.Eq(m.GetData(), want), "the message does not hold the bytes last set")
	}
	check(m, want)
}

// H_sizes: reuse for larger and smaller data.
//
// sym: paths=3000000 budget=400
func H_sizes() {
	m := srpc.NewRawMessage(nil, true)
	for _, n := range []int{v.Choose("a", 6), v.Choose("b", 6), v.Choose("c", 6)} {
		b := v.Bytes("x", n)
		w := append([]byte(nil), b...)
		v.Assert(m.UnmarshalVT(b) == nil, "unmarshal fails")
		scribble(b)
		o, err := m.MarshalVT()
		v.Assert(err == nil && hx.Eq(o, w) && m.SizeVT() == n, "reuse changes the content")
	}
}
