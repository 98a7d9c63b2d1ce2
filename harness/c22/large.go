package c22

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: chunks of 100 to 9000 and writes of 100 to 70000 bytes.

// H_large_small: several large chunks read into smaller and larger buffers.
//
// sym: delays=0 race=0
func H_large_small() {
	n := hx.Size("size", 5)
	var in []hx.Chunk
	var want []byte
	for i := 0; i < 2; i++ {
		b := hx.Blob("m", n)
		want = append(want, b...)
		in = append(in, hx.Chunk{B: b})
	}
	// the wrapper hands out chunks of at most the packet size
	k := []int{2048, 3000, 2*n + 1}[v.Choose("k", 3)]
	c := srpc.NewRwcConn(context.Background(), hx.NewRW(in...), nil, nil, 1+v.Choose("buf", 2))
	var got []byte
	for {
		p := make([]byte, k)
		j, err := c.Read(p)
		got = append(got, p[:j]...)
		if err != nil {
			v.Assert(err == io.EOF, "a read fails")
			break
		}
	}
	v.Assert(hx.Eq(got, want), "the bytes read are not the bytes received")
}

// H_large_write: large writes.
//
// sym: delays=0 race=0
func H_large_write() {
	b := hx.Blob("w", hx.Size("size", 0))
	keep := append([]byte(nil), b...)
	rw := hx.NewRW()
	rw.BlockAtEnd = true
	part := v.Choose("part", 3)
	rw.WriteFn = func(i int, p []byte) (int, error) {
		if i == 0 && part != 0 {
			return (len(p) + 1) / (part + 1), nil
		}
		return len(p), nil
	}
	c := srpc.NewRwcConn(context.Background(), rw, nil, nil, 1)
	k, err := c.Write(b)
	v.Assert(err == nil && k == len(keep), "a successful write does not report the full length")
	v.Assert(hx.Eq(b, keep), "a write changes the caller's buffer")
	v.Assert(hx.Eq(rw.Out, keep), "the bytes written are not the bytes passed on")
}
