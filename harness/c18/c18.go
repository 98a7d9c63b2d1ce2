// Package c18: invoker chains stop at the first invoker that handles or fails the call.
//
// bound: lists of up to 4 (thorough 5) invokers, each nil, passing, handling, failing or handling with an error (one of its own or a sentinel, bare or wrapped), also nested; symbolic ids of 0 or 1 byte.
package c18

import (
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// H_slice: a list of invokers.
//
// sym: paths=3000000 budget=400
func H_slice() {
	n := v.Choose("n", v.Bound(5, 6))
	svc, meth := v.StringUpTo("svc", 1), v.StringUpTo("meth", 1)
	strm := &hx.NullStream{}
	var order []int
	var list srpc.InvokerSlice
	end := -1
	var wantErr error
	var want []int
	for i := 0; i < n; i++ {
		i := i
		k := v.Choose("kind", 6)
		if k == 0 {
			list = append(list, nil)
			continue
		}
		if k == 1 {
			list = append(list, srpc.InvokerFunc(nil))
			continue
		}
		inv := &hx.Inv{Found: k == 3 || k == 5}
		if k >= 4 {
			if end < 0 {
				inv.Err = hx.AnErr("err", "e")
			} else {
				inv.Err = &hx.Err{S: "later"}
			}
		}
		found, err := inv.Found, inv.Err
		inv.Fn = func(s, m string, st srpc.Stream) (bool, error) {
			order = append(order, i)
			v.Assert(s == svc && m == meth && st == srpc.Stream(strm), "an invoker gets other ids or another stream")
			return found, err
		}
		if end < 0 {
			want = append(want, i)
			if found || err != nil {
				end, wantErr = i, err
			}
		}
		if k%2 == 0 {
			list = append(list, inv)
		} else {
			list = append(list, srpc.InvokerFunc(inv.InvokeMethod))
		}
	}
	ok, err := list.InvokeMethod(svc, meth, strm)
	v.Assert(len(order) == len(want), "not exactly the members up to the first that handles or fails are invoked")
	for i := range want {
		v.Assert(order[i] == want[i], "the members are not tried in order")
	}
	if end < 0 {
		v.Assert(!ok && err == nil, "an unhandled call is not reported as not found")
		v.Reach("none")
	} else {
		v.Assert(err == wantErr, "the error of the member is not returned")
		v.Assert(ok || err != nil, "a handled call is reported as not found")
		v.Reach("handled")
	}
}

// H_nested: lists inside lists and a mux, called through a server.
func H_nested() {
	n := 0
	var order []int
	mk := func(found bool, err error) srpc.Invoker {
		i := n
		n++
		return srpc.InvokerFunc(func(string, string, srpc.Stream) (bool, error) {
			order = append(order, i)
			return found, err
		})
	}
	k := v.Choose("kind", 3)
	var e error
	if k == 2 {
		e = hx.AnErr("err", "e")
	}
	list := srpc.InvokerSlice{
		srpc.InvokerSlice{mk(false, nil), nil},
		srpc.InvokerSlice{},
		srpc.InvokerSlice{mk(k == 1, e), mk(false, nil)},
		srpc.NewMux(mk(true, nil)),
		mk(true, nil),
	}
	ok, err := list.InvokeMethod("s", "m", &hx.NullStream{})
	v.Assert(err == e, "error")
	if k == 0 {
		v.Assert(ok && len(order) == 4 && order[3] == 3, "nested lists")
	} else {
		v.Assert((ok || e != nil) && len(order) == 2 && order[1] == 1, "nested lists")
	}
}

// H_func: a nil invoker function.
func H_func() {
	var f srpc.InvokerFunc
	ok, err := f.InvokeMethod(v.StringUpTo("svc", 1), v.StringUpTo("meth", 1), &hx.NullStream{})
	v.Assert(!ok && err == nil, "a nil invoker function does not behave as not found")
	ok, err = (srpc.InvokerSlice)(nil).InvokeMethod("s", "m", &hx.NullStream{})
	v.Assert(!ok && err == nil, "an empty list does not behave as not found")
}
