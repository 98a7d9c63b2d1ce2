package c23

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: 60 messages in each direction at a time, with readers that start at once, or only when the buffers are full, without delays.

// H_many: long conversations in both directions.
//
// sym: delays=0 steps=4000000
func H_many() {
	const n = 60
	var s [2]srpc.Stream
	s[0], s[1] = srpc.NewPipeStream(context.Background())
	var d [2][]byte
	d[0], d[1] = v.Bytes("a", n), v.Bytes("b", n)
	late := v.Bool("late")
	done := make(chan struct{}, 2)
	for i := range s {
		go func() {
			for j := range d[i] {
				v.Assert(s[i].MsgSend(hx.M(d[i][j:j+1])) == nil, "sending fails")
			}
			v.Assert(s[i].CloseSend() == nil, "half close fails")
			done <- struct{}{}
		}()
	}
	if late {
		v.Quiesce()
	}
	for j := 0; j < n; j++ {
		for i := range s {
			m := hx.M(nil)
			v.Assert(s[1-i].MsgRecv(m) == nil, "receiving fails")
			v.Assert(hx.Eq(m.B, d[i][j:j+1]), "a message is changed or reordered")
		}
	}
	for i := range s {
		v.Assert(s[i].MsgRecv(hx.M(nil)) == io.EOF, "no end of stream after a half close")
	}
	<-done
	<-done
	v.Reach("many")
}
