package c30

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: 8 connections of one listener of which any one fails, breaks at once, is answered or has a call running, the others being of one kind each, without delays.

// H_accept_many: many connections of a listener.
//
// sym: delays=0 native=0 selcost=1 steps=6000000 threads=400
func H_accept_many() {
	s := newScene()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ret := make(chan error, 1)
	go func() { ret <- srpc.AcceptMuxedListener(ctx, s.l, srpc.NewServer(s.inv), nil) }()
	rest := v.Choose("rest", 4)
	odd := v.Choose("odd", 4)
	at := 8
	if odd != rest {
		at = v.Choose("at", 8)
	}
	for i := 0; i < 8; i++ {
		k := rest
		if i == at {
			k = odd
		}
		s.add(k)
	}
	s.check()
	v.Assert(len(ret) == 0, "accepting ends although the listener is open")
	for i, c := range s.conns[2:] { // all but two end before
		if s.kinds[i+2] >= 2 {
			s.w.of(c).mine.Break(io.EOF)
			v.Quiesce()
		}
	}
	cancel()
	v.Quiesce()
	s.torn()
	_ = s.l.Close()
	v.Quiesce()
	v.NoOthers("something is still served after the context was cancelled")
	v.Reach("many")
}
