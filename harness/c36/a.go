// Package c36: streaming calls are full duplex and accept concurrent senders.
//
// bound: up to 2 messages of 0 or 1 symbolic bytes per direction (3 when both sides send before reading; 3 rounds of question and answer), two concurrent senders of up to 2 messages per stream, two streams of one client; buffered and unbuffered streams, delay bound 1 (thorough 2) end to end, 2 to 3 (thorough 3 to 4) on one side.
package c36

import (
	"context"
	"io"
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

func msgs(label string, max int) [][]byte {
	n := v.Choose("n"+label, max+1)
	var r [][]byte
	for i := 0; i < n; i++ {
		r = append(r, v.BytesUpTo(label, 1))
	}
	return r
}

func send(s srpc.Stream, ms [][]byte) {
	for _, m := range ms {
		v.Assert(s.MsgSend(hx.M(m)) == nil, "a send on an open stream fails")
	}
}

func recv(s srpc.Stream, ms [][]byte) {
	for _, m := range ms {
		x := hx.M([]byte("old"))
		v.Assert(s.MsgRecv(x) == nil, "a message is not received")
		v.Assert(hx.Eq(x.B, m), "a message is changed, duplicated or out of order")
	}
}

func end(s srpc.Stream) {
	v.Assert(s.MsgRecv(hx.M(nil)) == io.EOF, "no end-of-stream after the last message")
}

func open(c *hx.Conn) srpc.Stream {
	s, err := c.Client.NewStream(context.Background(), "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	return s
}

// H_duplex: each side sends from one goroutine while another receives.
//
// sym: delays=1 budget=400
func H_duplex() {
	duplex(2)
}

// H_duplex_deep: one message per direction, one preemption more.
//
// sym: delays=2 budget=600 tier=thorough
func H_duplex_deep() {
	duplex(1)
}

func duplex(max int) {
	up, down := msgs("u", max), msgs("d", max)
	served := false
	c := hx.NewConn(&hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		done := make(chan struct{})
		go func() {
			send(strm, down)
			close(done)
		}()
		recv(strm, up)
		end(strm)
		<-done
		served = true
		return true, nil
	}}, v.Choose("buffer", 2)*8)
	strm := open(c)
	sent := make(chan struct{})
	go func() {
		send(strm, up)
		v.Assert(strm.CloseSend() == nil, "CloseSend fails")
		close(sent)
	}()
	recv(strm, down)
	end(strm)
	<-sent
	v.Quiesce()
	v.Assert(served, "the handler did not finish")
	_ = strm.Close()
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
}

// H_send_first: both sides send everything before they read anything, over a transport
// without any buffer.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_send_first() {
	n := v.Choose("n", 4)
	var up, down [][]byte
	for i := 0; i < n; i++ {
		up, down = append(up, v.Bytes("u", 1)), append(down, v.Bytes("d", 1))
	}
	served := false
	c := hx.NewConn(&hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		send(strm, down)
		recv(strm, up)
		served = true
		return true, nil
	}}, 0)
	strm := open(c)
	send(strm, up)
	recv(strm, down)
	end(strm)
	v.Quiesce()
	v.Assert(served, "the handler did not finish")
}

// H_rounds: every message is answered before the next one is sent.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_rounds() {
	greet := v.Choose("greet", 2) == 1
	c := hx.NewConn(&hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		if greet {
			send(strm, [][]byte{[]byte("hello")})
		}
		for {
			x := hx.M(nil)
			err := strm.MsgRecv(x)
			if err == io.EOF {
				return true, nil
			}
			v.Assert(err == nil, "the handler fails to receive")
			send(strm, [][]byte{append([]byte("re"), x.B...)})
		}
	}}, 0)
	strm := open(c)
	if greet {
		recv(strm, [][]byte{[]byte("hello")})
	}
	for i := 0; i < 3; i++ {
		m := v.BytesUpTo("m", 1)
		send(strm, [][]byte{m})
		recv(strm, [][]byte{append([]byte("re"), m...)})
	}
	v.Assert(strm.CloseSend() == nil, "CloseSend fails")
	end(strm)
}

// merged: got is an interleaving of a and b.
func merged(got, a, b [][]byte) bool {
	if len(got) != len(a)+len(b) {
		return false
	}
	i, j := 0, 0
	for _, g := range got {
		if i < len(a) && hx.Eq(g, a[i]) {
			i++
		} else if j < len(b) && hx.Eq(g, b[j]) {
			j++
		} else {
			return false
		}
	}
	return true
}

// two sends from two goroutines.
func two(s srpc.Stream) ([][]byte, [][]byte, func()) {
	var a, b [][]byte
	na, nb := v.Choose("na", 2)+1, v.Choose("nb", 2)+1
	// the first bytes tell the senders apart
	for i := 0; i < na; i++ {
		a = append(a, append([]byte{'a', byte(i)}, v.BytesUpTo("a", 1)...))
	}
	for i := 0; i < nb; i++ {
		b = append(b, append([]byte{'b', byte(i)}, v.BytesUpTo("b", 1)...))
	}
	var wg sync.WaitGroup
	wg.Add(2)
	go func(ms [][]byte) { send(s, ms); wg.Done() }(a)
	go func(ms [][]byte) { send(s, ms); wg.Done() }(b)
	return a, b, wg.Wait
}

func contents(ps []*hx.Pkt) (r [][]byte) {
	for _, p := range ps {
		v.Assert(p.Kind == hx.Data && !p.Complete && p.Err == "", "not a plain message")
		r = append(r, p.Data)
	}
	return
}

// H_senders_client: two goroutines send on one client stream.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_senders_client() {
	w := &hx.PW{}
	cl := srpc.NewClient(func(ctx context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		return w, nil
	})
	strm, err := cl.NewStream(context.Background(), "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	a, b, wait := two(strm)
	wait()
	ps := w.Snapshot()
	v.Assert(len(ps) > 0 && ps[0].Kind == hx.Start, "the call is not started first")
	v.Assert(merged(contents(ps[1:]), a, b), "the messages of concurrent senders are lost, changed or reordered")
}

// H_senders_server: two goroutines of a handler send.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_senders_server() {
	w := &hx.PW{}
	var a, b [][]byte
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		x, y, wait := two(strm)
		wait()
		a, b = x, y
		return true, nil
	}}
	rpc := srpc.NewServerRPC(context.Background(), inv, w)
	v.Assert(rpc.HandlePacket(srpc.NewCallStartPacket("svc", "m", nil, false)) == nil, "start refused")
	v.Quiesce()
	ps := w.Snapshot()
	v.Assert(len(ps) == len(a)+len(b)+1 && ps[len(ps)-1].Complete, "no completion after the last message")
	v.Assert(merged(contents(ps[:len(ps)-1]), a, b), "the messages of concurrent senders are lost, changed or reordered")
}

// H_senders_race: concurrent use makes no conflicting accesses.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_senders_race() {
	var h srpc.PacketDataHandler
	cl := srpc.NewClient(func(ctx context.Context, ph srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		h = ph
		return hx.NopPW{}, nil
	})
	strm, err := cl.NewStream(context.Background(), "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	m := []byte("x")
	switch v.Choose("other", 4) {
	case 0:
		go send(strm, [][]byte{m})
	case 1:
		go func() { _ = strm.CloseSend() }()
	case 2:
		go func() { _ = h(hx.Enc(srpc.NewCallDataPacket([]byte("y"), false, false, nil))) }()
	case 3:
		go func() { _ = strm.MsgRecv(hx.M(nil)) }()
	}
	send(strm, [][]byte{m})
	v.Assert(h(hx.Enc(srpc.NewCallDataPacket([]byte("z"), false, true, nil))) == nil, "a message is refused")
}

// H_senders_e2e: concurrent senders end to end, over the frame writer.
//
// sym: delays=1 delays@thorough=2 budget=400
func H_senders_e2e() {
	var got [][]byte
	c := hx.NewConn(&hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		for {
			x := hx.M(nil)
			err := strm.MsgRecv(x)
			if err == io.EOF {
				return true, nil
			}
			v.Assert(err == nil, "the handler fails to receive")
			got = append(got, x.B)
		}
	}}, v.Choose("buffer", 2)*8)
	strm := open(c)
	a, b, wait := two(strm)
	wait()
	v.Assert(strm.CloseSend() == nil, "CloseSend fails")
	end(strm)
	v.Quiesce()
	v.Assert(merged(got, a, b), "the messages of concurrent senders are lost, changed or reordered")
}

// H_two_streams: two streams of one client do not mix.
//
// sym: delays=0 delays@thorough=1 budget=400
func H_two_streams() {
	c := hx.NewConn(&hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		x := hx.M(nil)
		if err := strm.MsgRecv(x); err != nil {
			return true, err // closed by the client
		}
		err := strm.MsgSend(x)
		v.Assert(err == nil || x.B[0] == '1', "a send on an open stream fails")
		return true, nil
	}}, 8)
	s1, s2 := open(c), open(c) // the first one may be closed early
	m1, m2 := append([]byte("1"), v.BytesUpTo("a", 1)...), append([]byte("2"), v.BytesUpTo("b", 1)...)
	done := make(chan struct{})
	go func() {
		send(s2, [][]byte{m2})
		recv(s2, [][]byte{m2})
		end(s2)
		close(done)
	}()
	send(s1, [][]byte{m1})
	if v.Choose("close", 2) == 1 {
		_ = s1.Close()
	} else {
		recv(s1, [][]byte{m1})
		end(s1)
	}
	<-done
}
