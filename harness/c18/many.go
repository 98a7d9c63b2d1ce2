package c18

import (
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: lists of 20 invokers, flat or in nested lists of any chosen depth up to 6, with any one of them handling or failing the call, and long symbolic ids.

// H_many: a long list.
func H_many() {
	const n = 20
	end := v.Choose("end", n+1)
	var e error
	if end < n && v.Bool("fails") {
		e = hx.AnErr("err", "e")
	}
	svc, meth := "a/long/service/"+v.String("svc", 30), v.String("meth", 40)
	strm := &hx.NullStream{}
	var order []int
	var list srpc.InvokerSlice
	deep := v.Choose("deep", 7)
	for i := n - 1; i >= 0; i-- {
		i := i
		inv := srpc.Invoker(srpc.InvokerFunc(func(s, m string, st srpc.Stream) (bool, error) {
			order = append(order, i)
			v.Assert(s == svc && m == meth && st == srpc.Stream(strm), "an invoker gets other ids or another stream")
			if i == end {
				return e == nil, e
			}
			return false, nil
		}))
		if i%3 == 0 {
			list = append(srpc.InvokerSlice{nil}, list...)
		}
		list = append(srpc.InvokerSlice{inv}, list...)
		if i < deep {
			list = srpc.InvokerSlice{list}
		}
	}
	ok, err := list.InvokeMethod(svc, meth, strm)
	v.Assert(err == e, "the error of the member is not returned")
	v.Assert(ok == (end < n) || e != nil, "the result of the member is not returned")
	want := end + 1
	if end == n {
		want = n
	}
	v.Assert(len(order) == want, "not exactly the members up to the first that handles or fails are invoked")
	for i := range order {
		v.Assert(order[i] == i, "the members are not tried in order")
	}
	v.Reach("many")
}
