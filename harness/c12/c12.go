// Package c12: a server stream starts at most one call and closes it properly.
//
// bound: every sequence of 5 (thorough 6) packets and close notifications on one server stream, sequential (delay bound 1) and from two concurrent sources (delay bound 3, thorough 4); symbolic service and method ids of 1 byte; a transport on which any of the first 2 writes fails.
package c12

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

type ids struct{ svc, meth string }

// state is the specification of the stream.
type state struct {
	started, ended bool
	first          ids
}

func (s *state) step(rpc *srpc.ServerRPC) {
	switch k := v.Choose("op", 8); k {
	case 0:
		id := ids{v.String("svc", 1), v.String("meth", 1)}
		err := rpc.HandlePacket(srpc.NewCallStartPacket(id.svc, id.meth, nil, false))
		if s.started || s.ended {
			v.Assert(err != nil, "a second start, or a start after the end, is not refused")
		} else {
			v.Assert(err == nil, "the first start is refused")
			s.started, s.first = true, id
		}
	case 1:
		_ = rpc.HandlePacket(srpc.NewCallDataPacket([]byte("d"), false, false, nil))
	case 2:
		_ = rpc.HandlePacket(srpc.NewCallDataPacket(nil, false, true, nil))
		s.ended = true
	case 3:
		_ = rpc.HandlePacket(srpc.NewCallDataPacket(nil, false, true, &hx.Err{S: "e"}))
		s.ended = true
	case 4:
		_ = rpc.HandlePacket(srpc.NewCallCancelPacket())
		s.ended = true
	case 5:
		rpc.HandleStreamClose(nil)
		s.ended = true
	case 6:
		rpc.HandleStreamClose(&hx.Err{S: "lost"})
		s.ended = true
	case 7:
		// an incomplete start is none
		if v.Choose("empty", 2) == 0 {
			v.Assert(rpc.HandlePacket(srpc.NewCallStartPacket("", "m", nil, false)) != nil, "a start without service is accepted")
		} else {
			v.Assert(rpc.HandlePacket(srpc.NewCallStartPacket("svc", "", nil, false)) != nil, "a start without method is accepted")
		}
	}
}

// completions is the number of completions written.
func completions(w *hx.PW) int {
	n := 0
	for _, p := range w.Snapshot() {
		if p.Kind == hx.Data && p.Complete {
			n++
		}
	}
	return n
}

func after(w *hx.PW, rpc *srpc.ServerRPC) {
	v.Assert(w.Closed() > 0, "the packet writer is not closed")
	v.Assert(rpc.Context().Err() != nil, "the call's context is not cancelled")
}

// H_sequence: every sequence of packets while the handler runs.
//
// sym: delays=0 delays@thorough=1 budget=400
func H_sequence() {
	release := make(chan struct{})
	w := &hx.PW{}
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		<-release
		return true, nil
	}}
	rpc := srpc.NewServerRPC(context.Background(), inv, w)
	s := &state{}
	n := v.Bound(5, 6)
	for i := 0; i < n; i++ {
		s.step(rpc)
	}
	v.Quiesce()
	if s.started {
		v.Assert(inv.Count() == 1, "not invoked exactly once")
		v.Assert(inv.Svc == s.first.svc && inv.Meth == s.first.meth, "another method than that of the first start is invoked")
		v.Assert(completions(w) == 0, "completed before the method returned")
	} else {
		v.Assert(inv.Count() == 0, "invoked without a start")
	}
	close(release)
	v.Quiesce()
	if s.started {
		v.Assert(completions(w) == 1, "not exactly one completion")
		after(w, rpc)
		v.Reach("returned")
	}
	v.NoOthers("goroutine left")
}

// H_returned: packets arriving when the method may already have returned.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_returned() {
	w := &hx.PW{}
	h := v.Choose("handler", 4)
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		switch h {
		case 1:
			return false, nil
		case 2:
			return true, &hx.Err{S: "bad"}
		case 3:
			err := strm.MsgRecv(hx.M(nil))
			if err == io.EOF {
				err = nil
			}
			return true, err
		}
		return true, nil
	}}
	rpc := srpc.NewServerRPC(context.Background(), inv, w)
	s := &state{started: true}
	v.Assert(rpc.HandlePacket(srpc.NewCallStartPacket("svc", "m", nil, false)) == nil, "start refused")
	s.step(rpc)
	s.step(rpc)
	if h == 3 && !s.ended {
		_ = rpc.HandlePacket(srpc.NewCallDataPacket([]byte("d"), false, false, nil))
	}
	v.Quiesce()
	v.Assert(inv.Count() == 1, "not invoked exactly once")
	v.Assert(completions(w) == 1, "not exactly one completion")
	after(w, rpc)
	v.NoOthers("goroutine left")
}

// H_two_sources: starts from concurrent sources, and a cancel racing with a start.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_two_sources() {
	w := &hx.PW{}
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		_ = strm.MsgSend(hx.M(nil))
		return true, nil
	}}
	rpc := srpc.NewServerRPC(context.Background(), inv, w)
	k := v.Choose("other", 3)
	res := make(chan error, 1)
	go func() {
		switch k {
		case 0:
			res <- rpc.HandlePacket(srpc.NewCallStartPacket("svc2", "m2", nil, false))
		case 1:
			res <- rpc.HandlePacket(srpc.NewCallCancelPacket())
		case 2:
			rpc.HandleStreamClose(nil)
			res <- nil
		}
	}()
	e1 := rpc.HandlePacket(srpc.NewCallStartPacket("svc", "m", nil, false))
	e2 := <-res
	v.Quiesce()
	ok := 0
	if e1 == nil {
		ok++
	}
	if k == 0 {
		if e2 == nil {
			ok++
		}
		v.Assert(ok == 1, "not exactly one of two starts is accepted")
	}
	v.Assert(inv.Count() == ok, "invocations and accepted starts differ")
	v.Assert(completions(w) == ok, "not one completion per call")
	if ok == 1 {
		after(w, rpc)
	}
	v.NoOthers("goroutine left")
}

// H_failing: the transport fails while the handler sends or completes.
//
// sym: delays=3 delays@thorough=4
func H_failing() {
	at := v.Choose("fails", 3)
	w := &hx.PW{CloseErr: &hx.Err{S: "close"}, Fail: func(i int) error {
		if i >= at {
			return &hx.Err{S: "broken"}
		}
		return nil
	}}
	if v.Choose("closeok", 2) == 1 {
		w.CloseErr = nil
	}
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		err := strm.MsgSend(hx.M(nil))
		v.Assert((err == nil) == (at > 0), "the result of a send is not returned")
		return true, err
	}}
	rpc := srpc.NewServerRPC(context.Background(), inv, w)
	v.Assert(rpc.HandlePacket(srpc.NewCallStartPacket("svc", "m", nil, false)) == nil, "start refused")
	v.Quiesce()
	after(w, rpc)
	v.NoOthers("goroutine left")
}

// H_stream: over a byte stream; the end of the stream ends the call.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_stream() {
	var in []byte
	start := hx.Frame(hx.Enc(srpc.NewCallStartPacket("svc", "m", nil, false)))
	in = append(in, start...)
	k := v.Choose("second", 3)
	switch k {
	case 1:
		in = append(in, start...)
	case 2:
		in = append(in, hx.Frame(hx.Enc(srpc.NewCallCancelPacket()))...)
	}
	rw := hx.NewRW(hx.Chunk{B: in})
	rw.BlockAtEnd = v.Choose("open", 2) == 1
	h := v.Choose("handler", 2)
	inv := &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		if h == 1 {
			for strm.MsgRecv(hx.M(nil)) == nil {
			}
			<-strm.Context().Done()
		}
		return true, nil
	}}
	if h == 1 && k == 0 {
		rw.BlockAtEnd = false // nothing else ends the call
	}
	srpc.NewServer(inv).HandleStream(context.Background(), rw)
	v.Quiesce()
	v.Assert(inv.Count() == 1, "not invoked exactly once")
	v.Assert(rw.NClose > 0, "the stream is not closed")
	v.NoOthers("goroutine left")
}
