package c27

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: messages of 100 to 70000 bytes.

// H_large: a nested unary call with large messages.
//
// sym: delays=0 selcost=1 steps=12000000
func H_large() {
	n := hx.Size("size", 0)
	req, resp := hx.Blob("req", n), hx.Blob("resp", n)
	comp := &hx.Inv{Fn: func(gs, gm string, strm srpc.Stream) (bool, error) {
		m := hx.M(nil)
		v.Assert(strm.MsgRecv(m) == nil && hx.Eq(m.B, req), "the component gets another request")
		return true, strm.MsgSend(hx.M(resp))
	}}
	cn := hx.NewConn(host(func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		return comp, nil, nil
	}), 4)
	out := hx.M([]byte{9, 9})
	err := nested(cn.Client, "comp", v.Choose("wait", 2) == 1).ExecCall(context.Background(), "s", "m", hx.M(req), out)
	v.Assert(err == nil, "a successful call fails")
	v.Assert(hx.Eq(out.B, resp), "the caller gets another response")
}
