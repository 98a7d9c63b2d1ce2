package c15

import (
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: 12 handlers of 12 methods each and 12 fallback invokers, of which the first, second, a middle, the last or none handles the call, with ids of 30 bytes that differ in the last byte.

// H_many: many handlers, methods and fallbacks.
//
// sym: paths=100000
func H_many() {
	const n = 12
	const long = "github.com/a/long/service/id/"
	who, gsvc, gmeth := -1, "", ""
	strm := &hx.NullStream{ID: 7}
	fb := []int{0, 1, n / 2, n - 1, n}[v.Choose("fallback", 5)]
	var order []int
	var invs []srpc.Invoker
	for i := 0; i < n; i++ {
		invs = append(invs, srpc.InvokerFunc(func(s, m string, st srpc.Stream) (bool, error) {
			order = append(order, i)
			v.Assert(st == srpc.Stream(strm), "another stream")
			gsvc, gmeth = s, m
			return i == fb, nil
		}))
	}
	mux := srpc.NewMux(invs...)
	var meths []string
	for j := 0; j < n; j++ {
		meths = append(meths, long+string(rune('A'+j)))
	}
	for i := 0; i < n; i++ {
		v.Assert(mux.Register(&hx.Hnd{Svc: long + string(rune('a'+i)), Meths: meths, Fn: func(s, m string, st srpc.Stream) (bool, error) {
			who, gsvc, gmeth = i, s, m
			v.Assert(st == srpc.Stream(strm), "another stream")
			return true, nil
		}}) == nil, "registering fails")
	}
	sb, mb := byte('a'+v.Choose("which svc", n+1)), byte('A'+v.Choose("which meth", n+1))
	svc, meth := long+string([]byte{sb}), long+string([]byte{mb})
	known := sb >= 'a' && sb < 'a'+n
	knownM := mb >= 'A' && mb < 'A'+n
	v.Assert(mux.HasService(svc) == known, "HasService")
	ok, err := mux.InvokeMethod(svc, meth, strm)
	v.Assert(err == nil, "a call fails")
	if known && knownM {
		v.Assert(ok && who == int(sb-'a'), "a call reaches another handler")
		v.Assert(len(order) == 0, "a call to a known method reaches a fallback")
		v.Assert(gsvc == svc && gmeth == meth, "the ids are changed")
		v.Reach("handler")
		return
	}
	v.Assert(who < 0, "a call to an unknown method reaches a handler")
	v.Assert(ok == (fb < n), "the result of the fallbacks is not returned")
	want := fb + 1
	if fb == n {
		want = n
	}
	v.Assert(len(order) == want, "not exactly the fallbacks up to the first that handles the call are tried")
	for i := range order {
		v.Assert(order[i] == i, "the fallbacks are not tried in order")
	}
	v.Assert(gsvc == svc && gmeth == meth, "the ids are changed")
	v.Reach("fallback")
}
