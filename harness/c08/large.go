package c08

import (
	"context"

	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: requests and responses of 100 to 70000 bytes, errors up to 9000.

// H_large: large requests, responses and errors.
//
// sym: delays=0
func H_large() {
	n := []int{100, 2100, 9000, 70000}[v.Choose("size", 4)]
	k := &call{req: hx.Blob("req", n)}
	if v.Choose("fails", 2) == 1 {
		k.err = &hx.Err{S: string(hx.Blob("e", min(n, 9000)))}
	} else {
		k.resp = hx.Blob("resp", n)
	}
	inv := &hx.Inv{Fn: k.serve}
	c := hx.NewConn(inv, 4)
	x := hx.M([]byte("old"))
	k.check(c.Client.ExecCall(context.Background(), "svc", "m", hx.M(k.req), x), x)
	v.Assert(inv.Count() == 1, "not invoked exactly once")
}
