// Package c19: a client set fails over only on unimplemented or unavailable clients.
//
// bound: sets of up to 4 (thorough 5) members, each nil, succeeding, unimplemented (as the sentinel or received as text), cancelled, cancelled together with the caller's context (which is cancelled or expires), or failing with a text of 1 symbolic byte or a text that contains "unimplemented".
package c19

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// H_set: one call on a set.
//
// sym: paths=3000000 budget=400
func H_set() {
	n := v.Choose("n", v.Bound(5, 6))
	exec := v.Choose("exec", 2) == 1
	ctx := hx.NewCtx()
	reason := []error{context.Canceled, context.DeadlineExceeded}[v.Choose("reason", 2)]
	cancel := func() { ctx.End(reason) }
	defer cancel()
	pre := v.Choose("precancelled", 2) == 1
	if pre {
		cancel()
	}
	in, out := hx.M([]byte("in")), hx.M([]byte("out"))
	strm := &hx.NullStream{ID: 1}
	var order, want []int
	var list []srpc.Client
	var wantErr error = srpc.ErrNoAvailableClients
	ended, cancelled := false, pre
	for i := 0; i < n; i++ {
		i := i
		k := v.Choose("kind", 8)
		if k == 0 {
			list = append(list, nil)
			continue
		}
		var err error
		stop := false
		switch k {
		case 1:
			stop = true
		case 2:
			err = srpc.ErrUnimplemented
		case 3:
			err = &hx.Err{S: "unimplemented"}
		case 4, 5:
			err = context.Canceled
		case 6:
			err = &hx.Err{S: v.String("e", 1)}
			stop = true
		case 7:
			err = []error{&hx.Err{S: "method is unimplemented"}, io.EOF, context.DeadlineExceeded}[v.Choose("other", 3)]
			stop = true
		}
		c := &hx.Client{Strm: strm}
		c.Fn = func() error {
			order = append(order, i)
			v.Assert(c.Svc == "svc" && c.Meth == "m" && c.In == srpc.Message(in) && c.Ctx == context.Context(ctx) && c.Exec == exec && (!exec || c.Out == srpc.Message(out)), "a member gets other arguments")
			if k == 5 {
				cancel()
			}
			return err
		}
		list = append(list, c)
		if !ended {
			want = append(want, i)
			if k == 5 {
				cancelled = true
			}
			wantErr = srpc.ErrUnimplemented
			if stop {
				ended, wantErr = true, err
			} else if (k == 4 || k == 5) && cancelled {
				ended, wantErr = true, context.Canceled
			}
		}
	}
	set := srpc.NewClientSet(list)
	var err error
	var s srpc.Stream
	if exec {
		err = set.ExecCall(ctx, "svc", "m", in, out)
	} else {
		s, err = set.NewStream(ctx, "svc", "m", in)
	}
	v.Assert(len(order) == len(want), "a member after the one that decided is used, or one before it is skipped")
	for i := range want {
		v.Assert(order[i] == want[i], "the members are not tried in order")
	}
	v.Assert(err == wantErr, "not the deciding result is returned")
	if err == nil && !exec {
		v.Assert(s == srpc.Stream(strm), "not the member's stream is returned")
	}
	if !exec && err != nil {
		v.Assert(s == nil, "a stream is returned together with an error")
	}
	if wantErr == srpc.ErrNoAvailableClients {
		v.Reach("empty")
	}
	if ended && cancelled {
		v.Reach("cancelled")
	}
}

// H_order: a set decides every call anew, in the same order.
func H_order() {
	a, b := &hx.Client{Err: srpc.ErrUnimplemented}, &hx.Client{}
	set := srpc.NewClientSet([]srpc.Client{a, nil, b})
	for i := 1; i <= 3; i++ {
		v.Assert(set.ExecCall(context.Background(), "s", "m", hx.M(nil), hx.M(nil)) == nil, "call")
		v.Assert(a.N == i && b.N == i, "the members are not tried in order on every call")
	}
}
