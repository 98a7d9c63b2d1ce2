package c26

import (
	"context"

	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: packets and chunks of 100 to 70000 bytes; 60 packets or chunks in each direction, without delays.

// H_proxy_large: large packets through the proxy.
//
// sym: delays=0 steps=3000000
func H_proxy_large() {
	n := hx.Size("size", 0)
	up, down := [][]byte{hx.RData(hx.Blob("up", n)), hx.RData([]byte{1})}, [][]byte{hx.RData(hx.Blob("down", n)), hx.RData([]byte{2})}
	s := hx.NewRS(context.Background(), nil, append([][]byte{hx.RInit("id")}, up...)...)
	t := hx.NewRS(context.Background(), nil, append([][]byte{hx.RAck("")}, down...)...)
	go func() {
		v.Quiesce()
		s.Drop()
	}()
	nrel := 0
	_ = proxy(context.Background(), s, t, &nrel)
	same(t.Sent(), append([][]byte{hx.RInit("remote")}, up...), false, "to the target")
	same(s.Sent(), append([][]byte{hx.RAck("")}, down...), false, "to the caller")
}

// H_raw_larger: large chunks through a raw component.
//
// sym: delays=0
func H_raw_larger() {
	n := hx.Size("size", 0)
	up, down := hx.Blob("up", n), hx.Blob("down", n)
	s := hx.NewRS(context.Background(), nil, hx.RInit("id"), hx.RData(up), hx.RData([]byte{1}))
	r := newRaw(nil, down, []byte{2})
	go func() {
		v.Quiesce()
		s.Drop()
	}()
	nrel := 0
	_ = handleRaw(s, r, &nrel)
	v.Quiesce()
	v.Assert(hx.Eq(r.out, append(append([]byte(nil), up...), 1)), "to the component: the bytes are changed")
	v.Assert(hx.Eq(payload(s.Sent()), append(append([]byte(nil), down...), 2)), "to the caller: the bytes are changed")
}

// H_proxy_many: many packets through the proxy.
//
// sym: delays=0 steps=4000000
func H_proxy_many() {
	const n = 60
	var up, down [][]byte
	a, b := v.Bytes("up", n), v.Bytes("down", n)
	for i := 0; i < n; i++ {
		up, down = append(up, hx.RData(a[i:i+1])), append(down, hx.RData(b[i:i+1]))
	}
	s := hx.NewRS(context.Background(), nil, append([][]byte{hx.RInit("id")}, up...)...)
	t := hx.NewRS(context.Background(), nil, append([][]byte{hx.RAck("")}, down...)...)
	go func() {
		v.Quiesce()
		s.Drop()
	}()
	nrel := 0
	_ = proxy(context.Background(), s, t, &nrel)
	same(t.Sent(), append([][]byte{hx.RInit("remote")}, up...), false, "to the target")
	same(s.Sent(), append([][]byte{hx.RAck("")}, down...), false, "to the caller")
}

// H_raw_many: many chunks through a raw component.
//
// sym: delays=0 steps=4000000
func H_raw_many() {
	const n = 60
	up, down := v.Bytes("up", n), v.Bytes("down", n)
	in := [][]byte{hx.RInit("id")}
	var out [][]byte
	for i := 0; i < n; i++ {
		in, out = append(in, hx.RData(up[i:i+1])), append(out, down[i:i+1])
	}
	s := hx.NewRS(context.Background(), nil, in...)
	r := newRaw(nil, out...)
	go func() {
		v.Quiesce()
		s.Drop()
	}()
	nrel := 0
	_ = handleRaw(s, r, &nrel)
	v.Quiesce()
	v.Assert(hx.Eq(r.out, up), "to the component: the bytes are changed")
	v.Assert(hx.Eq(payload(s.Sent()), down), "to the caller: the bytes are changed")
}
