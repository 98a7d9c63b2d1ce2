// Package c23: the in-memory stream pair behaves like a stream and never panics.
//
// bound: every sequence of 5 (thorough 6) sends, receives, half closes, closes on either end and cancellations; 7 messages of one symbolic byte through the 5 message buffer with a concurrent reader; half close, close and cancellation racing with up to 2 senders and a reader, delay bound 3 (thorough 4).
// assume: one receiver per end at a time.
package c23

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// dir is the specification of one direction.
type dir struct {
	q      [][]byte
	closed bool
}

// H_seq: sequences of operations on both ends.
//
// sym: delays=0 paths=8000000 budget=500
func H_seq() {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var s [2]srpc.Stream
	s[0], s[1] = srpc.NewPipeStream(ctx)
	var out [2]dir // what end i sent
	var dead [2]bool
	n := v.Bound(5, 6)
	for i := 0; i < n; i++ {
		switch op := v.Choose("op", 9); op {
		case 0, 1: // send
			if len(out[op].q) == 5 {
				v.Assume(false)
			}
			b := v.BytesUpTo("m", 1)
			err := s[op].MsgSend(hx.M(b))
			if out[op].closed {
				v.Assert(err != nil, "sending after a close succeeds")
				v.Reach("send after close")
			} else if !dead[op] {
				v.Assert(err == nil, "sending fails")
			}
			if err == nil {
				out[op].q = append(out[op].q, b)
			}
		case 2, 3: // receive
			me, d := op-2, &out[3-op]
			if len(d.q) == 0 && !d.closed && !dead[me] {
				v.Assume(false) // would block
			}
			m := hx.M([]byte{0x55, 0x55})
			err := s[me].MsgRecv(m)
			switch {
			case err == nil:
				v.Assert(len(d.q) != 0, "a message is invented")
				v.Assert(hx.Eq(m.B, d.q[0]), "a message is changed or reordered")
				d.q = d.q[1:]
			case dead[me]:
			default:
				v.Assert(len(d.q) == 0, "end of stream overtakes a message")
				v.Assert(err == io.EOF, "the end of the stream is not end-of-stream")
				v.Reach("eof")
			}
		case 4, 5: // half close
			v.Assert(s[op-4].CloseSend() == nil, "half close fails")
			out[op-4].closed = true
		case 6, 7: // close
			v.Assert(s[op-6].Close() == nil, "close fails")
			out[op-6].closed, dead[op-6] = true, true
			v.Assert(s[op-6].Context().Err() != nil, "the context outlives the stream")
		case 8:
			cancel()
			dead = [2]bool{true, true}
		}
	}
	for i := range s {
		v.Assert((s[i].Context().Err() != nil) == dead[i], "the context does not match the stream")
		_ = s[i].Close()
	}
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
}

// H_flow: more messages than the buffer holds, with a concurrent reader.
//
// sym: delays=2 delays@thorough=3 race=1 paths=8000000 budget=400
func H_flow() {
	a, b := srpc.NewPipeStream(context.Background())
	const n = 7
	d := v.Bytes("d", n)
	go func() {
		m := hx.M(nil)
		for i := 0; i < n; i++ {
			m.B = append(m.B[:0], d[i])
			v.Assert(a.MsgSend(m) == nil, "sending fails")
		}
		v.Assert(a.CloseSend() == nil, "half close fails")
		v.Assert(a.MsgSend(m) != nil, "sending after a half close succeeds")
	}()
	for i := 0; i < n; i++ {
		m := hx.M(nil)
		v.Assert(b.MsgRecv(m) == nil, "receiving fails")
		v.Assert(len(m.B) == 1 && m.B[0] == d[i], "a message is changed or reordered")
	}
	v.Assert(b.MsgRecv(hx.M(nil)) == io.EOF, "no end of stream after a half close")
	v.Assert(b.MsgRecv(hx.M(nil)) == io.EOF, "no end of stream after a half close")
	// the other direction still works
	v.Assert(b.MsgSend(hx.M(d[:2])) == nil, "sending fails")
	m := hx.M(nil)
	v.Assert(a.MsgRecv(m) == nil && hx.Eq(m.B, d[:2]), "the other direction is affected by a half close")
	v.Reach("done")
}

// H_race: closes racing with senders and a receiver.
//
// sym: delays=3 delays@thorough=4 race=1 paths=8000000 budget=400
func H_race() {
	ctx, cancel := context.WithCancel(context.Background())
	a, b := srpc.NewPipeStream(ctx)
	d := v.Bytes("d", 2)
	var ok [2]bool
	done := make(chan struct{}, 4)
	for i := 0; i < 2; i++ {
		go func() {
			ok[i] = a.MsgSend(hx.M(d[i:i+1])) == nil
			done <- struct{}{}
		}()
	}
	how := v.Choose("how", 5)
	go func() {
		switch how {
		case 0:
			_ = a.CloseSend()
		case 1:
			_ = a.Close()
		case 2:
			_ = a.CloseSend()
			_ = a.Close()
		case 3:
			cancel()
			_ = a.Close()
		case 4:
			_ = b.Close()
			_ = a.Close()
		}
		done <- struct{}{}
	}()
	if how < 3 && v.Choose("again", 2) == 1 {
		_ = a.Close() // concurrently with the other close
	}
	var got []byte
	var end error
	go func() {
		for {
			m := hx.M(nil)
			if end = b.MsgRecv(m); end != nil {
				break
			}
			got = append(got, m.B...)
		}
		done <- struct{}{}
	}()
	for i := 0; i < 4; i++ {
		<-done
	}
	if how < 3 {
		v.Assert(end == io.EOF, "the end of the stream is not end-of-stream")
		k := 0
		for i := range ok {
			if ok[i] {
				k++
			}
		}
		v.Assert(len(got) == k, "a message sent successfully is lost, or a refused one delivered")
		switch k {
		case 1:
			v.Assert(ok[0] && got[0] == d[0] || ok[1] && got[0] == d[1], "a message is changed")
		case 2:
			v.Assert(got[0] == d[0] && got[1] == d[1] || got[0] == d[1] && got[1] == d[0], "a message is changed")
			v.Reach("both")
		}
	}
	v.Assert(a.MsgSend(hx.M(d)) != nil, "sending after a close succeeds")
	cancel()
}

// H_full: senders blocked on a full buffer.
//
// sym: delays=2 delays@thorough=3 race=1 paths=8000000 budget=400
func H_full() {
	ctx, cancel := context.WithCancel(context.Background())
	a, b := srpc.NewPipeStream(ctx)
	for i := 0; i < 5; i++ {
		v.Assert(a.MsgSend(hx.M([]byte{byte(i)})) == nil, "sending fails")
	}
	res := make(chan error, 1)
	go func() { res <- a.MsgSend(hx.M([]byte{5})) }()
	if v.Choose("settle", 2) == 1 {
		v.Quiesce()
	}
	switch v.Choose("how", 4) {
	case 0:
		_ = a.Close()
		v.Assert(<-res != nil, "a blocked send succeeds on a closed stream")
	case 1:
		cancel()
		v.Assert(<-res != nil, "a blocked send succeeds on a cancelled stream")
	case 2: // a half close lets the message be sent or refused
		_ = a.CloseSend()
		for i := 0; ; i++ {
			m := hx.M(nil)
			err := b.MsgRecv(m)
			if err != nil {
				v.Assert(err == io.EOF, "the end of the stream is not end-of-stream")
				v.Assert((<-res == nil) == (i == 6), "a message sent successfully is lost, or a refused one delivered")
				break
			}
			v.Assert(i <= 5 && len(m.B) == 1 && m.B[0] == byte(i), "a message is changed or reordered")
		}
		v.Reach("half")
	case 3: // a receiver blocked on an empty buffer
		go func() { res <- a.MsgRecv(hx.M(nil)) }()
		_ = a.Close()
		v.Assert(<-res != nil && <-res != nil, "a blocked operation succeeds on a closed stream")
		v.Reach("recv")
	}
	cancel()
	_ = b.Close()
	_ = a.Close()
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
}
