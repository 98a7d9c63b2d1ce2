// Package c11: no wakeup is lost and no deadlock arises inside a call.
//
// bound: one reader or waiter with one source of one or two events (message, completion, error, stream close, cancel packet, context cancellation, close), delay bound 4 (thorough 5); two readers and two sources, reader, writer, packet source and closer together with delay bound 2 (thorough 3); every schedule within the bound is checked for deadlock and for data races.
package c11

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

func client() (*srpc.ClientRPC, context.CancelFunc) {
	ctx, cancel := context.WithCancel(context.Background())
	rpc := srpc.NewClientRPC(ctx, "svc", "m")
	v.Assert(rpc.Start(hx.NopPW{}, false, nil) == nil, "start fails")
	return rpc, cancel
}

// rpc is a call of either side.
type rpc interface {
	HandlePacket(*srpc.Packet) error
	HandleStreamClose(error)
	ReadOne() ([]byte, error)
	Wait(context.Context) error
	WriteCallData([]byte, bool, error) error
	WriteCallCancel() error
	Context() context.Context
}

// event is something that ends a wait.
func event(r rpc, cancel func(), k int) {
	switch k {
	case 0:
		_ = r.HandlePacket(srpc.NewCallDataPacket([]byte("m"), false, false, nil))
	case 1:
		_ = r.HandlePacket(srpc.NewCallDataPacket(nil, false, true, nil))
	case 2:
		_ = r.HandlePacket(srpc.NewCallDataPacket(nil, false, true, &hx.Err{S: "e"}))
	case 3:
		r.HandleStreamClose(nil)
	case 4:
		r.HandleStreamClose(&hx.Err{S: "e"})
	case 5:
		_ = r.HandlePacket(srpc.NewCallCancelPacket())
	case 6:
		cancel()
	case 7:
		_ = r.HandlePacket(srpc.NewCallDataPacket(nil, true, false, nil))
	case 8:
		if c, ok := r.(*srpc.ClientRPC); ok {
			c.Close()
		} else {
			cancel()
		}
	}
}

const nEvents = 9

func either() (rpc, context.CancelFunc) {
	if v.Choose("side", 2) == 0 {
		return client()
	}
	ctx, cancel := context.WithCancel(context.Background())
	return srpc.NewServerRPC(ctx, nil, hx.NopPW{}), cancel
}

// H_read: a blocked reader resumes after any one event.
//
// sym: delays=4 delays@thorough=5 budget=400
func H_read() {
	r, cancel := either()
	done := make(chan bool, 1)
	go func() {
		d, err := r.ReadOne()
		v.Assert(err != nil || string(d) == "m" || len(d) == 0, "read")
		done <- true
	}()
	event(r, cancel, v.Choose("event", nEvents))
	<-done
}

// H_read_all: a reader sees a message and then the end, whatever ends the call.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_read_all() {
	r, cancel := either()
	done := make(chan int, 1)
	go func() {
		n := 0
		for {
			if _, err := r.ReadOne(); err != nil {
				break
			}
			n++
		}
		done <- n
	}()
	a, b := v.Choose("a", nEvents), v.Choose("b", nEvents)
	if (a == 0 || a == 7) && (b == 0 || b == 7) {
		b = 1
	}
	event(r, cancel, a)
	event(r, cancel, b)
	<-done
}

// H_wait: a waiter resumes once the call fails, is closed or cancelled, or its own context ends.
//
// sym: delays=4 delays@thorough=5 budget=400
func H_wait() {
	r, cancel := either()
	wctx, wcancel := context.WithCancel(context.Background())
	done := make(chan error, 1)
	go func() { done <- r.Wait(wctx) }()
	switch k := v.Choose("event", 7); k {
	case 0:
		wcancel()
	case 1:
		event(r, cancel, 8)
	default:
		event(r, cancel, k)
	}
	v.Assert(<-done != nil, "Wait returns without an error")
	wcancel()
}

// H_wait_through: events that do not end the call do not hide the one that does.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_wait_through() {
	r, cancel := either()
	done := make(chan error, 1)
	go func() { done <- r.Wait(context.Background()) }()
	event(r, cancel, []int{0, 7, 1}[v.Choose("first", 3)])
	event(r, cancel, []int{3, 4, 5, 6, 8}[v.Choose("last", 5)])
	v.Assert(<-done != nil, "Wait returns without an error")
}

// H_two_readers: two readers and two sources.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_two_readers() {
	r, cancel := either()
	done := make(chan bool, 3)
	read := func() {
		for {
			if _, err := r.ReadOne(); err != nil {
				break
			}
		}
		done <- true
	}
	go read()
	go read()
	go func() {
		event(r, cancel, 0)
		done <- true
	}()
	event(r, cancel, 1+v.Choose("end", 6))
	<-done
	<-done
	<-done
}

// H_all: reader, writer, packet source and closer of one client call at the same time.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_all() {
	r, cancel := client()
	strm := srpc.NewMsgStream(r.Context(), r, nil)
	done := make(chan bool, 3)
	go func() {
		for strm.MsgRecv(hx.M(nil)) == nil {
		}
		done <- true
	}()
	go func() {
		_ = strm.MsgSend(hx.M([]byte("x")))
		_ = strm.CloseSend()
		done <- true
	}()
	go func() {
		event(r, cancel, 0)
		event(r, cancel, v.Choose("end", 6))
		done <- true
	}()
	switch v.Choose("closer", 3) {
	case 0:
		r.Close()
	case 1:
		_ = strm.Close()
		cancel()
	case 2:
		cancel()
		r.Close()
	}
	<-done
	<-done
	<-done
}

// H_server_all: the same for a server call with a handler.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_server_all() {
	done := make(chan bool, 3)
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		go func() {
			_ = strm.MsgSend(hx.M([]byte("x")))
			done <- true
		}()
		for strm.MsgRecv(hx.M(nil)) == nil {
		}
		done <- true
		return true, nil
	}}
	ctx, cancel := context.WithCancel(context.Background())
	r := srpc.NewServerRPC(ctx, inv, hx.NopPW{})
	v.Assert(r.HandlePacket(srpc.NewCallStartPacket("svc", "m", []byte("f"), false)) == nil, "start refused")
	go func() {
		event(r, cancel, 0)
		event(r, cancel, 1+v.Choose("end", 5))
		done <- true
	}()
	if v.Choose("cancel", 2) == 1 {
		cancel()
	}
	<-done
	<-done
	<-done
	cancel()
}

// H_start: packets and closes arriving while the client starts the call.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_start() {
	ctx, cancel := context.WithCancel(context.Background())
	r := srpc.NewClientRPC(ctx, "svc", "m")
	done := make(chan bool, 1)
	go func() {
		event(r, cancel, v.Choose("event", nEvents-1))
		done <- true
	}()
	_ = r.Start(hx.NopPW{}, true, []byte("x"))
	<-done
	r.Close()
	for {
		if _, err := r.ReadOne(); err != nil {
			break
		}
	}
	cancel()
}

// H_pipe: an unbuffered transport on which both sides write and close at the same time.
//
// sym: delays=2 delays@thorough=3 budget=400
func H_pipe() {
	k := v.Choose("client", 3)
	h := v.Choose("handler", 3)
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		_ = strm.MsgSend(hx.M([]byte("x")))
		switch h {
		case 0:
			return true, strm.MsgRecv(hx.M(nil))
		case 1:
			_ = strm.MsgSend(hx.M([]byte("y")))
			for strm.MsgRecv(hx.M(nil)) == nil {
			}
		}
		return true, nil
	}}
	open := srpc.NewServerPipe(srpc.NewServer(inv))
	strm, err := srpc.NewClient(open).NewStream(context.Background(), "svc", "m", nil)
	v.Assert(err == nil, "NewStream fails")
	switch k {
	case 0:
		_ = strm.MsgSend(hx.M([]byte("a")))
		_ = strm.MsgRecv(hx.M(nil))
	case 1:
		_ = strm.MsgRecv(hx.M(nil))
		_ = strm.CloseSend()
	}
	_ = strm.Close()
	v.Quiesce()
	v.NoOthers("a goroutine of the call is deadlocked")
}
