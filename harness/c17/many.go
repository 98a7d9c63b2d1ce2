package c17

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// bound: 14 prefixes of up to 30 bytes of which any one or two match, an id of 4 symbolic bytes after the prefix.

// H_many: a long list of long prefixes.
//
// sym: paths=3000000 budget=400
func H_many() {
	const n = 14
	const long = "a/long/prefix/of/ids/"
	first, second := v.Choose("first", n+1), v.Choose("second", n+1)
	rest := v.String("rest", 4)
	id := long + "match/" + rest
	var ps []string
	for i := 0; i < n; i++ {
		switch i {
		case first:
			ps = append(ps, long+"match/")
		case second:
			ps = append(ps, long[:7])
		default:
			ps = append(ps, long+string(rune('A'+i)))
		}
	}
	which := first
	if second < first {
		which = second
	}
	strm := &hx.NullStream{}
	inv := &hx.Inv{Found: true}
	ok, err := srpc.NewPrefixInvoker(inv, ps).InvokeMethod(id, "m", strm)
	cl := &hx.Client{Strm: strm}
	s, cerr := srpc.NewPrefixClient(cl, ps).NewStream(context.Background(), id, "m", nil)
	if which == n {
		v.Assert(!ok && err == nil && inv.N == 0, "an id without the prefix reaches the invoker")
		v.Assert(cerr == srpc.ErrUnimplemented && s == nil && cl.N == 0, "an id without the prefix reaches the client")
		v.Reach("refused")
		return
	}
	want := id[len(ps[which]):]
	v.Assert(ok && err == nil && inv.N == 1 && inv.Svc == want, "not exactly the first matching prefix is removed by the invoker")
	v.Assert(cerr == nil && cl.N == 1 && cl.Svc == want && s == srpc.Stream(strm), "not exactly the first matching prefix is removed by the client")
	v.Reach("forwarded")
}
