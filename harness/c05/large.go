package c05

import (
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: two concurrent packets of 100 to 70000 bytes, whole or in halves.

// H_large: concurrent writers of large packets.
//
// sym: delays=2 delays@thorough=3
func H_large() {
	n := hx.Size("size", 0)
	half := v.Choose("half", 2) == 1
	r := &rw{fn: func(i int, p []byte) (int, error) {
		if half && i < 2 {
			return (len(p) + 1) / 2, nil
		}
		return len(p), nil
	}}
	prw := srpc.NewPacketReadWriter(r)
	a := srpc.NewCallDataPacket(hx.Blob("a", n), false, false, nil)
	b := srpc.NewCallDataPacket(hx.Blob("b", n+1), false, false, nil)
	fa, fb := hx.Frame(hx.Enc(a)), hx.Frame(hx.Enc(b))
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		v.Assert(prw.WritePacket(a) == nil, "writing to a healthy transport fails")
		wg.Done()
	}()
	v.Assert(prw.WritePacket(b) == nil, "writing to a healthy transport fails")
	wg.Wait()
	v.Assert(orders(r.out, [][][]byte{{fa}, {fb}}), "frames interleaved, lost or duplicated")
}
