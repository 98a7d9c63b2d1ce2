package c23

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: messages of 100 to 70000 bytes.

// H_large: large messages.
//
// sym: race=0
func H_large() {
	a, b := srpc.NewPipeStream(context.Background())
	if v.Choose("dir", 2) == 1 {
		a, b = b, a
	}
	d := hx.Blob("d", hx.Size("size", 0))
	keep := append([]byte(nil), d...)
	v.Assert(a.MsgSend(hx.M(d)) == nil && a.MsgSend(hx.M(d[:5])) == nil, "sending fails")
	for _, w := range [][]byte{keep, keep[:5]} {
		m := hx.M(nil)
		v.Assert(b.MsgRecv(m) == nil && hx.Eq(m.B, w), "a message is changed or reordered")
	}
}
