// Package c22: the connection wrapper preserves the byte stream and shuts down cleanly.
//
// bound: every sequence of 3 (thorough 4) underlying reads of 0 to 2 symbolic bytes, the last with or without an error of its own, receive buffers of 1 to 3 chunks, reader buffers of 0 to 4 bytes, delay bound 2 (thorough 3); one chunk of more than the 2048 byte packet size; writes of up to 4 bytes split by the transport at every point; close or cancellation at every point of a blocked or unread connection.
// assume: the underlying stream's Read returns after its Close; one reader at a time.
package c22

import (
	"context"
	"errors"
	"io"
	"net"
	"os"
	"time"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

type addr string

func (a addr) Network() string { return "fake" }
func (a addr) String() string  { return string(a) }

// H_read: the bytes arrive in order, then the error.
//
// sym: delays=2 delays@thorough=3 race=1 paths=6000000 budget=400
func H_read() {
	n := v.Bound(3, 4)
	var all []byte
	var in []hx.Chunk
	for i := 0; i < n; i++ {
		b := v.BytesUpTo("m", 2)
		all = append(all, b...)
		in = append(in, hx.Chunk{B: b})
	}
	want := io.EOF
	switch v.Choose("end", 3) {
	case 1: // a failure after the bytes
		want = &hx.Err{S: "broken"}
		in = append(in, hx.Chunk{Err: want})
	case 2: // a failure together with the last bytes
		want = &hx.Err{S: "broken"}
		in[n-1].Err = want
	}
	rw := hx.NewRW(in...)
	c := srpc.NewRwcConn(context.Background(), rw, addr("l"), addr("r"), v.Choose("bufn", 3)+1)
	v.Assert(c.LocalAddr() == net.Addr(addr("l")) && c.RemoteAddr() == net.Addr(addr("r")), "the addresses are not those given")
	var got []byte
	for i := 0; ; i++ {
		v.Assert(i <= n+1, "reading does not end")
		p := make([]byte, 2+i%2)
		k, err := c.Read(p)
		v.Assert(k >= 0 && k <= len(p), "a read returns more than fits")
		got = append(got, p[:k]...)
		v.Assert(len(got) <= len(all) && hx.Eq(got, all[:len(got)]), "the bytes read are not the bytes received")
		if err != nil {
			v.Assert(err == want, "the underlying error is not returned")
			break
		}
		v.Assert(k > 0, "a read returns nothing and no error")
		if i == 0 && v.Choose("pause", 2) == 1 {
			v.Quiesce() // let the receive loop run ahead
		}
	}
	v.Assert(len(got) == len(all), "bytes are lost")
	_, err := c.Read(make([]byte, 2))
	v.Assert(err == want, "a later read forgets the error")
	v.Quiesce()
	v.NoOthers("the receive loop is still running after the stream ended")
	v.Reach("end")
}

// H_short: a buffer too small for a chunk is an error, not a silent loss.
//
// sym: delays=1 paths=3000000 budget=400
func H_short() {
	a, b := v.Bytes("a", 1+v.Choose("al", 3)), v.Bytes("b", 2)
	rw := hx.NewRW(hx.Chunk{B: a}, hx.Chunk{B: b})
	c := srpc.NewRwcConn(context.Background(), rw, nil, nil, 2)
	p := make([]byte, v.Choose("pl", 4))
	k, err := c.Read(p)
	if len(p) < len(a) {
		v.Assert(errors.Is(err, io.ErrShortBuffer), "bytes are dropped silently")
		v.Assert(k <= len(p) && hx.Eq(p[:k], a[:k]), "the bytes read are not the bytes received")
		v.Reach("short")
		return
	}
	v.Assert(err == nil && k == len(a) && hx.Eq(p[:k], a), "the bytes read are not the bytes received")
	p = make([]byte, 4)
	k, err = c.Read(p)
	v.Assert(err == nil && k == 2 && hx.Eq(p[:k], b), "the next chunk is corrupted")
	v.Reach("fits")
}

// H_large: a chunk larger than the packet size.
//
// sym: delays=1 paths=3000000 budget=400
func H_large() {
	b := make([]byte, 4100)
	for _, i := range []int{0, 1, 2046, 2047, 2048, 2049, 4095, 4096, 4097, 4099} {
		b[i] = v.Byte("x")
	}
	rw := hx.NewRW(hx.Chunk{B: append([]byte(nil), b...)})
	c := srpc.NewRwcConn(context.Background(), rw, nil, nil, 2)
	var got []byte
	for i := 0; i < 10; i++ {
		p := make([]byte, 5000)
		k, err := c.Read(p)
		got = append(got, p[:k]...)
		if err != nil {
			v.Assert(err == io.EOF, "a read fails")
			break
		}
	}
	v.Assert(hx.Eq(got, b), "the bytes read are not the bytes received")
	v.Reach("done")
}

// H_reuse: many chunks through reused buffers while the reader holds earlier ones.
//
// sym: delays=2 delays@thorough=3 race=1 paths=6000000 budget=400
func H_reuse() {
	n := v.Bound(4, 5)
	var in []hx.Chunk
	var want [][]byte
	for i := 0; i < n; i++ {
		b := v.Bytes("m", 1+i%2)
		want = append(want, append([]byte(nil), b...))
		in = append(in, hx.Chunk{B: b})
	}
	c := srpc.NewRwcConn(context.Background(), hx.NewRW(in...), nil, nil, 1)
	var got [][]byte
	for i := 0; i < n; i++ {
		p := make([]byte, 2)
		k, err := c.Read(p)
		v.Assert(err == nil, "a read fails")
		got = append(got, p[:k])
	}
	for i := range want {
		v.Assert(hx.Eq(got[i], want[i]), "the bytes read are not the bytes received")
	}
	v.Reach("done")
}

// H_write: writes pass everything through, whatever the transport accepts per call.
//
// sym: delays=1 paths=3000000 budget=400
func H_write() {
	rw := hx.NewRW()
	rw.BlockAtEnd = true
	var fail error
	rw.WriteFn = func(i int, p []byte) (int, error) {
		k := v.Choose("k", len(p)+1)
		if v.Choose("fail", 3) == 1 {
			fail = &hx.Err{S: "write"}
			return k, fail
		}
		if k == 0 {
			k = 1
		}
		return k, nil
	}
	c := srpc.NewRwcConn(context.Background(), rw, nil, nil, 1)
	var all []byte
	for i := 0; i < 2; i++ {
		b := v.BytesUpTo("w", 3)
		keep := append([]byte(nil), b...)
		before := len(rw.Out)
		k, err := c.Write(b)
		v.Assert(hx.Eq(b, keep), "a write changes the caller's buffer")
		if fail != nil {
			v.Assert(err == fail, "the error of a write is not reported")
			v.Assert(k == len(rw.Out)-before && hx.Eq(rw.Out[before:], keep[:k]), "the count written is wrong")
			v.Reach("write error")
			return
		}
		v.Assert(err == nil && k == len(b), "a successful write does not report the full length")
		all = append(all, keep...)
		v.Assert(hx.Eq(rw.Out, all), "the bytes written are not the bytes passed on")
	}
	v.Reach("written")
}

// H_stop: closing or cancelling unblocks the reader and ends the receive loop.
//
// sym: delays=2 delays@thorough=3 race=1 paths=6000000 budget=400
func H_stop() {
	nd := v.Choose("nd", 5) // chunks received, some never read
	nr := v.Choose("nr", 3)
	var in []hx.Chunk
	for i := 0; i < nd; i++ {
		in = append(in, hx.Chunk{B: v.Bytes("m", 1)})
	}
	rw := hx.NewRW(in...)
	rw.BlockAtEnd = true
	ctx, cancel := context.WithCancel(context.Background())
	c := srpc.NewRwcConn(ctx, rw, nil, nil, 1+v.Choose("bufn", 2))
	how := v.Choose("how", 3)
	stopped := make(chan struct{})
	go func() {
		defer close(stopped)
		switch how {
		case 0:
			v.Assert(c.Close() == nil, "close fails")
		case 1:
			cancel()
		case 2:
			cancel()
			v.Assert(c.Close() == nil, "close fails")
			_ = c.Close()
		}
	}()
	for i := 0; i < nr; i++ {
		_, err := c.Read(make([]byte, 1))
		if err != nil {
			v.Reach("read unblocked")
			break
		}
	}
	<-stopped
	// at most the chunks received before remain
	for i := 0; ; i++ {
		v.Assert(i <= nd, "reading does not end after the connection was closed")
		if _, err := c.Read(make([]byte, 1)); err != nil {
			break
		}
	}
	if how == 1 {
		// the pending read of the underlying stream returns
		_ = rw.Close()
	}
	v.Quiesce()
	v.NoOthers("the receive loop is still running after the connection was closed")
	v.Assert(rw.NClose >= 1, "the underlying stream is not closed")
	cancel()
}

// H_unread: data nobody reads does not keep a closed connection alive.
//
// sym: delays=1 paths=3000000 budget=400
func H_unread() {
	rw := hx.NewRW(hx.Chunk{B: []byte{1}}, hx.Chunk{B: []byte{2}}, hx.Chunk{B: []byte{3}}, hx.Chunk{B: []byte{4}})
	rw.BlockAtEnd = true
	ctx, cancel := context.WithCancel(context.Background())
	c := srpc.NewRwcConn(ctx, rw, nil, nil, 1)
	if v.Choose("settle", 2) == 1 {
		v.Quiesce() // the receive loop waits for a reader
	}
	if v.Choose("how", 2) == 0 {
		_ = c.Close()
		v.Quiesce()
	} else {
		cancel()
		v.Quiesce()
		_ = rw.Close()
		v.Quiesce()
	}
	v.NoOthers("the receive loop is still running after the connection was closed")
	v.Reach("stopped")
	cancel()
}

// H_deadline: a read deadline unblocks a read and loses nothing.
//
// sym: delays=1 paths=3000000 budget=400
func H_deadline() {
	a, b := hx.Pipe(2)
	c := srpc.NewRwcConn(context.Background(), a, nil, nil, 2)
	if v.Choose("both", 2) == 0 {
		v.Assert(c.SetReadDeadline(time.Now().Add(time.Second)) == nil, "deadline")
	} else {
		v.Assert(c.SetDeadline(time.Now().Add(time.Second)) == nil, "deadline")
	}
	p := make([]byte, 4)
	_, err := c.Read(p)
	v.Assert(errors.Is(err, os.ErrDeadlineExceeded), "a read blocked past its deadline does not fail with a deadline error")
	v.Assert(c.SetReadDeadline(time.Time{}) == nil, "deadline")
	d := v.Bytes("d", 2)
	_, _ = b.Write(d)
	if v.Choose("later", 2) == 1 {
		v.Assert(c.SetReadDeadline(time.Now().Add(time.Hour)) == nil, "deadline")
	}
	k, err := c.Read(p)
	v.Assert(err == nil && hx.Eq(p[:k], d), "data is lost after a deadline")
	_ = c.Close()
	_ = b.Close()
	v.Reach("done")
}
