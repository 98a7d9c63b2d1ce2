package c21

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: messages and writes of 100 to 70000 bytes, buffers from 4096 bytes to more than the message.

// all reads everything with buffers of one size.
func all(r io.Reader, k int) []byte {
	var got []byte
	for {
		p := make([]byte, k)
		n, err := r.Read(p)
		got = append(got, p[:n]...)
		if err != nil {
			v.Assert(err == io.EOF, "a read fails")
			return got
		}
		v.Assert(n > 0, "a read returns nothing")
	}
}

// H_large: large messages and buffers of several sizes.
//
// sym: race=0
func H_large() {
	n := hx.Size("size", 0)
	a, b := hx.Blob("a", n), hx.Blob("b", 10)
	k := []int{n/2 + 1, n, n + 7, 4096}[v.Choose("k", 4)]
	want := append(append([]byte(nil), a...), b...)
	var got []byte
	switch v.Choose("kind", 2) {
	case 0:
		got = all(srpc.NewStreamRwc(&hx.Strm{In: [][]byte{append([]byte(nil), a...), b}, InErr: io.EOF}), k)
	case 1:
		got = all(rpcstream.NewRpcStreamReadWriter(hx.NewRS(context.Background(), io.EOF, hx.RData(a), hx.RData(b))), k)
	}
	v.Assert(hx.Eq(got, want), "the bytes read are not the bytes received")
}

// H_large_write: large writes.
//
// sym: race=0
func H_large_write() {
	b := hx.Blob("w", hx.Size("size", 0))
	keep := append([]byte(nil), b...)
	var got []byte
	if v.Choose("kind", 2) == 0 {
		s := &hx.Strm{}
		k, err := srpc.NewStreamRwc(s).Write(b)
		v.Assert(err == nil && k == len(b), "a successful write does not report the full length")
		for _, m := range s.Sent {
			got = append(got, m...)
		}
	} else {
		rs := hx.NewRS(context.Background(), io.EOF)
		var w io.Writer = rpcstream.NewRpcStreamReadWriter(rs)
		if v.Choose("writer", 2) == 1 {
			w = rpcstream.NewRpcStreamWriter(rs)
		}
		k, err := w.Write(b)
		v.Assert(err == nil && k == len(b), "a successful write does not report the full length")
		for _, m := range rs.Sent() {
			got = append(got, hx.RDec(m).GetData()...)
		}
	}
	v.Assert(hx.Eq(b, keep), "a write changes the caller's buffer")
	v.Assert(hx.Eq(got, keep), "the message is not the bytes written")
}
