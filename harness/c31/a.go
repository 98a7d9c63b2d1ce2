// Package c31: every stream of a multiplexed connection is served independently.
//
// bound: 2 (thorough 3) streams per connection with service, method and message of 1 symbolic byte each, every one answered, failing, dropped or still running when the next is opened, delay bound 1 (thorough 2); the connection closed, failing or cancelled before and during serving; every failure of opening a stream; 2 calls from one client with delay bound 1 (thorough 2).
// assume: the multiplexer delivers each stream's bytes in order to its other end (a fake connection stands for yamux).
package c31

import (
	"context"
	"io"
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// calls is an invoker recording its calls; each one is answered with its own request.
type calls struct {
	mu   sync.Mutex
	l    []call
	hold func(svc string) chan struct{}
}
type call struct{ svc, meth string }

func (c *calls) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	c.mu.Lock()
	c.l = append(c.l, call{svc, meth})
	c.mu.Unlock()
	m := hx.M(nil)
	if err := strm.MsgRecv(m); err != nil {
		return true, err
	}
	if h := c.hold(svc); h != nil {
		select {
		case <-h:
		case <-strm.Context().Done():
			return true, context.Canceled
		}
	}
	return true, strm.MsgSend(m)
}

func (c *calls) list() []call {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]call(nil), c.l...)
}

func serve(ctx context.Context, inv srpc.Invoker, mc *hx.Mux) chan error {
	ret := make(chan error, 1)
	go func() { ret <- srpc.NewServer(inv).AcceptMuxedConn(ctx, mc) }()
	return ret
}

// answer reads the answer of a call from its stream.
func answer(s io.Reader, want []byte) {
	b, err := hx.ReadFrame(s)
	v.Assert(err == nil, "a stream gets no answer")
	p := &srpc.Packet{}
	v.Assert(p.UnmarshalVT(b) == nil, "a stream gets a broken answer")
	c := hx.Copy(p)
	v.Assert(c.Kind == hx.Data && c.Err == "" && hx.Eq(c.Data, want), "a stream gets the answer of another call")
}

// H_serve: every stream gets its own call.
//
// sym: delays=1 delays@thorough=2 paths=6000000 budget=500
func H_serve() {
	n := v.Bound(2, 3)
	hold := make(chan struct{})
	inv := &calls{}
	inv.hold = func(svc string) chan struct{} {
		if svc[0] == 'h' {
			return hold
		}
		return nil
	}
	cl, sv := hx.MuxPair(3)
	ret := serve(context.Background(), inv, sv)
	var strms []io.ReadWriteCloser
	var kinds []int
	var data [][]byte
	var want []call
	for i := 0; i < n; i++ {
		k := 0
		if i == 0 || v.Thorough() && i == 1 {
			k = v.Choose("kind", 5)
		}
		c := call{"ahaaa"[k:k+1] + string(rune('0'+i)) + v.String("svc", 1), v.String("meth", 1)}
		b := v.Bytes("data", 1)
		kinds, data = append(kinds, k), append(data, b)
		s, err := cl.OpenStream(context.Background())
		if err != nil {
			v.Fail("the connection is closed early")
			return
		}
		strms = append(strms, s)
		switch k {
		case 2: // not a frame
			_, _ = s.Write(hx.Frame([]byte{0xff}))
		case 3: // ends at once
			_ = s.Close()
		default:
			_, _ = s.Write(hx.Frame(hx.Enc(srpc.NewCallStartPacket(c.svc, c.meth, b, false))))
			want = append(want, c)
			if k == 4 { // dropped after the request
				_ = s.Close()
			}
		}
		if k == 0 && i == 0 && v.Bool("wait") {
			answer(s, b)
			kinds[i] = 5
		}
	}
	for i, k := range kinds {
		if k == 0 {
			answer(strms[i], data[i])
			v.Reach("answered")
		}
	}
	v.Quiesce() // those which are held are still running
	got := inv.list()
	v.Assert(len(got) == len(want), "not every stream gets exactly one call")
	for _, w := range want {
		k := 0
		for _, g := range got {
			if g == w {
				k++
			}
		}
		v.Assert(k == 1, "a stream does not get its own call")
	}
	close(hold)
	for i, k := range kinds {
		if k == 1 {
			answer(strms[i], data[i])
			v.Reach("held")
		}
	}
	v.Assert(!sv.IsClosed() && sv.Closed() == 0, "the connection is closed because of a stream")
	v.Quiesce()
	v.Assert(len(ret) == 0, "serving ends although the connection is open")
	sv.Break(io.EOF)
	v.Assert(<-ret == io.EOF, "the accept error is not returned")
	v.Quiesce()
	v.NoOthers("a stream is still served after its connection has ended")
}

// H_end: serving ends with the connection or the context.
//
// sym: delays=2 delays@thorough=4
func H_end() {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	inv := &calls{hold: func(string) chan struct{} { return make(chan struct{}) }}
	cl, sv := hx.MuxPair(3)
	broken := error(&hx.Err{S: "broken"})
	how := v.Choose("how", 6)
	before := v.Bool("before")
	end := func() {
		switch how {
		case 0:
			_ = sv.Close()
		case 1:
			_ = cl.Close()
		case 2:
			sv.Break(io.EOF)
		case 3:
			sv.Break(broken)
		case 4, 5:
			cancel()
		}
	}
	if v.Bool("stream") {
		s, err := cl.OpenStream(context.Background())
		if err != nil {
			v.Fail("the connection is closed early")
			return
		}
		_, _ = s.Write(hx.Frame(hx.Enc(srpc.NewCallStartPacket("s", "m", []byte{1}, false))))
	}
	if before {
		end()
	}
	ret := serve(ctx, inv, sv)
	if !before {
		if v.Bool("wait") {
			v.Quiesce()
			v.Assert(len(ret) == 0, "serving ends although the connection is open")
		}
		end()
	}
	if how == 5 { // the pending accept returns with a stream
		_, _ = cl.OpenStream(context.Background())
	}
	if how == 4 {
		v.Quiesce()
		_ = sv.Close() // ends the pending accept
	}
	err := <-ret
	switch {
	case how == 4 || how == 5:
		v.Assert(err == context.Canceled || how == 4 && (err == io.EOF || err == hx.ErrMuxClosed), "a cancelled server returns another error")
		v.Assert(!before || err == context.Canceled, "a cancelled server returns another error")
		v.Reach("cancelled")
	case before:
		v.Assert(err == io.EOF, "a closed connection is not reported as end-of-stream")
		v.Reach("closed before")
	case how == 2:
		v.Assert(err == io.EOF, "the accept error is not returned")
	case how == 3:
		v.Assert(err == broken || err == io.EOF, "the accept error is not returned")
	default:
		v.Assert(err == io.EOF || err == hx.ErrMuxClosed, "the accept error is not returned")
	}
	_ = sv.Close()
	v.Quiesce()
	v.NoOthers("a stream is still served after its connection has ended")
	v.Reach("end")
}

// H_broken: an accept error is returned as it is.
//
// sym: delays=1
func H_broken() {
	_, sv := hx.MuxPair(3)
	broken := hx.AnErr("err", "broken")
	ret := serve(context.Background(), &calls{}, sv)
	v.Quiesce()
	sv.Break(broken)
	v.Assert(<-ret == broken, "the accept error is not returned")
	v.Reach("broken")
}

type timeout struct{ is bool }

func (t *timeout) Error() string { return "timeout" }
func (t *timeout) Timeout() bool { return t.is }

func nopData([]byte) error { return nil }
func nopClose(error)       {}

// H_open_fail: failures of opening a stream.
//
// sym: race=0
func H_open_fail() {
	cl, _ := hx.MuxPair(3)
	cl.OpenErr = &timeout{v.Choose("is", 2) == 1}
	if v.Choose("other", 2) == 1 {
		cl.OpenErr = hx.AnErr("err", "failed")
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	cancelled := v.Bool("cancelled")
	if cancelled {
		cancel()
	}
	w, err := srpc.NewOpenStreamWithMuxedConn(cl)(ctx, nopData, nopClose)
	n, c := cl.Opened()
	v.Assert(n == 1 && c == ctx, "opening is not tried exactly once with the context of the call")
	v.Assert(w == nil && err != nil, "a failure to open is not reported")
	t, is := cl.OpenErr.(interface{ Timeout() bool })
	if is && t.Timeout() && cancelled {
		v.Assert(err == context.Canceled, "a cancelled context is not reported as cancelled")
		v.Reach("cancelled")
	} else {
		v.Assert(err == cl.OpenErr, "the error of opening is not returned")
		v.Reach("error")
	}
	v.NoOthers("a goroutine is left behind")
}

// H_open: every call has its own stream and handlers.
//
// sym: delays=1 delays@thorough=2
func H_open() {
	n := v.Bound(2, 3)
	cl, sv := hx.MuxPair(3)
	open := srpc.NewOpenStreamWithMuxedConn(cl)
	var mu sync.Mutex
	got := make([][]byte, n)
	ends := make([]int, n)
	closed := make(chan int, 2*n)
	var ws []srpc.PacketWriter
	var peers []io.ReadWriteCloser
	var in [][]byte
	for i := 0; i < n; i++ {
		w, err := open(context.Background(), func(b []byte) error {
			mu.Lock()
			got[i] = append(got[i], b...)
			mu.Unlock()
			return nil
		}, func(err error) {
			mu.Lock()
			ends[i]++
			mu.Unlock()
			closed <- i
		})
		v.Assert(err == nil && w != nil, "a stream is not opened")
		k, _ := cl.Opened()
		v.Assert(k == i+1, "a call does not open exactly one stream")
		p, err := sv.AcceptStream()
		if err != nil {
			v.Fail("the connection is closed early")
			return
		}
		ws, peers = append(ws, w), append(peers, p)
		b := v.Bytes("in", 2)
		in = append(in, b)
	}
	// bytes of the peer go to the handler of their stream, in any order of the streams
	first := v.Choose("first", n)
	for j := 0; j < n; j++ {
		i := (first + j) % n
		_, _ = peers[i].Write(hx.Frame(in[i]))
	}
	// packets written go to their own stream
	for i, w := range ws {
		id := []byte{byte(i)}
		v.Assert(w.WritePacket(srpc.NewCallDataPacket(id, false, false, nil)) == nil, "a packet is not written")
		b, err := hx.ReadFrame(peers[i])
		p := &srpc.Packet{}
		v.Assert(err == nil && p.UnmarshalVT(b) == nil, "a packet does not arrive on its stream")
		v.Assert(hx.Eq(hx.Copy(p).Data, id), "a packet arrives on another stream")
	}
	v.Quiesce()
	for i := range got {
		mu.Lock()
		v.Assert(hx.Eq(got[i], in[i]), "a handler does not get exactly the packets of its stream")
		v.Assert(ends[i] == 0, "a stream which is open is reported as closed")
		mu.Unlock()
	}
	// closing one stream leaves the others open
	if v.Bool("local") {
		_ = ws[first].Close()
	} else {
		_ = peers[first].Close()
	}
	v.Assert(<-closed == first, "another stream is reported as closed")
	v.Quiesce()
	for i := range ends {
		mu.Lock()
		v.Assert((ends[i] == 1) == (i == first), "a stream is not reported as closed exactly once")
		mu.Unlock()
		if i != first {
			v.Assert(ws[i].WritePacket(srpc.NewCallDataPacket([]byte{1}, false, false, nil)) == nil, "closing a stream closes another one")
		}
	}
	v.Assert(!cl.IsClosed(), "closing a stream closes the connection")
	_ = cl.Close()
	v.Quiesce()
	v.NoOthers("a reader is left behind")
	for i := range ends {
		mu.Lock()
		v.Assert(ends[i] == 1, "a stream is not reported as closed exactly once")
		mu.Unlock()
	}
	v.Reach("open")
}

// H_calls: two calls of one client over one connection.
//
// sym: delays=1 delays@thorough=2 paths=6000000 budget=500
func H_calls() {
	hold := make(chan struct{})
	inv := &calls{hold: func(svc string) chan struct{} {
		if svc == "held" {
			return hold
		}
		return nil
	}}
	cl, sv := hx.MuxPair(3)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ret := serve(ctx, inv, sv)
	c := srpc.NewClientWithMuxedConn(cl)
	a, b := v.Bytes("a", 1), v.Bytes("b", 1)
	cctx, ccancel := context.WithCancel(context.Background())
	defer ccancel()
	res := make(chan error, 1)
	out := hx.M(nil)
	go func() { res <- c.ExecCall(cctx, "held", "m", hx.M(a), out) }()
	o := hx.M(nil)
	v.Assert(c.ExecCall(context.Background(), "svc", "m", hx.M(b), o) == nil, "a call fails while another one runs")
	v.Assert(hx.Eq(o.B, b), "a call gets the answer of another one")
	abort := v.Bool("abort")
	if abort {
		ccancel()
		v.Assert(<-res == context.Canceled, "a cancelled call is not reported as cancelled")
		v.Assert(c.ExecCall(context.Background(), "svc", "m", hx.M(b), o) == nil, "a call fails after another one is cancelled")
		v.Reach("abort")
	} else {
		close(hold)
		v.Assert(<-res == nil, "a call fails while another one runs")
		v.Assert(hx.Eq(out.B, a), "a call gets the answer of another one")
		v.Reach("both")
	}
	v.NoDelays()
	_ = cl.Close()
	<-ret
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
}
