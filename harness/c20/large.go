package c20

import (
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: contents of 100 to 70000 bytes.

// H_large: large contents.
//
// sym: race=0
func H_large() {
	n := hx.Size("size", 0)
	in := hx.Blob("in", n)
	want := append([]byte(nil), in...)
	m := srpc.NewRawMessage(nil, true)
	if v.Choose("set", 2) == 1 {
		m.SetData(in)
	} else {
		v.Assert(m.UnmarshalVT(in) == nil, "unmarshal fails")
	}
	clear(in)
	o, err := m.MarshalVT()
	v.Assert(err == nil && hx.Eq(o, want) && m.SizeVT() == n, "marshaling disagrees with the bytes")
	clear(o)
	buf := make([]byte, n)
	k, err := m.MarshalToSizedBufferVT(buf)
	v.Assert(err == nil && k == n && hx.Eq(buf, want), "sized marshaling disagrees with the bytes")
	clear(buf)
	v.Assert(hx.Eq(m.GetData(), want), "changing a buffer changes the message")
	// reused for something smaller
	small := hx.Blob("small", 10)
	v.Assert(m.UnmarshalVT(small) == nil && hx.Eq(m.GetData(), small), "reuse changes the content")
}
