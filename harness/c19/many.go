package c19

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: sets of 20 clients of which any one answers or fails, the others being nil or unimplemented.

// H_many: a large set.
func H_many() {
	const n = 20
	end := v.Choose("end", n+1)
	exec := v.Bool("exec")
	var e error
	if end < n && v.Bool("fails") {
		e = error(&hx.Err{S: "failed"})
	}
	strm := &hx.NullStream{ID: 1}
	var order []int
	var list []srpc.Client
	for i := 0; i < n; i++ {
		if i%4 == 1 && i != end {
			list = append(list, nil)
			continue
		}
		c := &hx.Client{Strm: strm, Err: srpc.ErrUnimplemented}
		if i%4 == 3 {
			c.Err = &hx.Err{S: "unimplemented"}
		}
		if i == end {
			c.Err = e
		}
		err := c.Err
		c.Fn = func() error {
			order = append(order, i)
			return err
		}
		list = append(list, c)
	}
	set := srpc.NewClientSet(list)
	in, out := hx.M([]byte("in")), hx.M(nil)
	var err error
	if exec {
		err = set.ExecCall(context.Background(), "s", "m", in, out)
	} else {
		var s srpc.Stream
		s, err = set.NewStream(context.Background(), "s", "m", in)
		v.Assert(err != nil || s == srpc.Stream(strm), "the stream of the member is not returned")
	}
	if end < n {
		v.Assert(err == e, "the result of the member is not returned")
	} else {
		v.Assert(err == srpc.ErrUnimplemented, "the error of an exhausted set is not that of its members")
	}
	j := 0
	for i := 0; i <= end && i < n; i++ {
		if list[i] == nil {
			continue
		}
		v.Assert(j < len(order) && order[j] == i, "the members are not tried in order")
		j++
	}
	v.Assert(len(order) == j, "not exactly the members up to the first that answers are tried")
	v.Reach("many")
}
