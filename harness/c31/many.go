package c31

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: 14 streams of one connection at a time, of which any chosen share is still running when the others are answered, and 14 calls of one client, without delays.

// H_many: many streams of one connection.
//
// sym: delays=0 selcost=1 steps=6000000 threads=400
func H_many() {
	const n = 14
	every := []int{1, 2, 7, n + 1}[v.Choose("every", 4)] // how many are held
	hold := make(chan struct{})
	inv := &calls{hold: func(svc string) chan struct{} {
		if svc[0] == 'h' {
			return hold
		}
		return nil
	}}
	cl, sv := hx.MuxPair(3)
	ret := serve(context.Background(), inv, sv)
	var strms []io.ReadWriteCloser
	d := v.Bytes("d", n)
	svc := func(i int) string {
		if i%every == 0 && every <= n {
			return "held"
		}
		return "a"
	}
	for i := 0; i < n; i++ {
		s, err := cl.OpenStream(context.Background())
		if err != nil {
			v.Fail("the connection is closed early")
			return
		}
		strms = append(strms, s)
		_, _ = s.Write(hx.Frame(hx.Enc(srpc.NewCallStartPacket(svc(i), string(rune('A'+i)), d[i:i+1], false))))
	}
	back := v.Bool("backwards")
	at := func(i int) int {
		if back {
			return n - 1 - i
		}
		return i
	}
	for i := 0; i < n; i++ {
		if j := at(i); svc(j) == "a" {
			answer(strms[j], d[j:j+1])
		}
	}
	v.Quiesce()
	v.Assert(len(inv.list()) == n, "not every stream gets exactly one call")
	close(hold)
	for i := 0; i < n; i++ {
		if j := at(i); svc(j) != "a" {
			answer(strms[j], d[j:j+1])
		}
	}
	seen := map[string]int{}
	for _, c := range inv.list() {
		seen[c.meth]++
	}
	v.Assert(len(seen) == n, "a stream does not get its own call")
	v.Assert(!sv.IsClosed() && sv.Closed() == 0 && len(ret) == 0, "serving ends although the connection is open")
	sv.Break(io.EOF)
	v.Assert(<-ret == io.EOF, "the accept error is not returned")
	v.Quiesce()
	v.NoOthers("a stream is still served after its connection has ended")
	v.Reach("many")
}

// H_calls_many: many calls of one client, one after the other while a chosen number of others is running.
//
// sym: delays=0 selcost=1 steps=6000000 threads=400
func H_calls_many() {
	const n = 14
	held := []int{0, 1, 9}[v.Choose("held", 3)]
	hold := make(chan struct{})
	inv := &calls{hold: func(svc string) chan struct{} {
		if svc[0] == 'h' {
			return hold
		}
		return nil
	}}
	cl, sv := hx.MuxPair(3)
	ret := serve(context.Background(), inv, sv)
	c := srpc.NewClientWithMuxedConn(cl)
	d := v.Bytes("d", n)
	res := make(chan bool, held)
	for i := 0; i < held; i++ {
		go func() {
			out := hx.M(nil)
			err := c.ExecCall(context.Background(), "held", "m", hx.M(d[i:i+1]), out)
			res <- err == nil && hx.Eq(out.B, d[i:i+1])
		}()
	}
	for i := held; i < n; i++ {
		out := hx.M(nil)
		v.Assert(c.ExecCall(context.Background(), "svc", "m", hx.M(d[i:i+1]), out) == nil, "a call fails while others run")
		v.Assert(hx.Eq(out.B, d[i:i+1]), "a call gets the answer of another one")
	}
	close(hold)
	for i := 0; i < held; i++ {
		v.Assert(<-res, "a call fails or gets the answer of another one")
	}
	_ = cl.Close()
	<-ret
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
	v.Reach("many")
}
