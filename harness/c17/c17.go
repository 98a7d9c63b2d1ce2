// Package c17: prefixed invokers and clients strip exactly the first matching prefix.
//
// bound: 0 to 3 prefixes of 1 or 2 (thorough up to 3) symbolic bytes, service ids of 0 to 4 symbolic bytes, symbolic method ids of 0 or 1 byte.
// assume: no prefix is the empty string (such a list is a configuration error).
package c17

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

func prefixes(max int) []string {
	n := v.Choose("n", max+1)
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, string(v.Bytes("p", 1+v.Choose("plen", v.Bound(2, 3)))))
	}
	return r
}

func hasPrefix(s, p string) bool {
	if len(s) < len(p) {
		return false
	}
	for i := range []byte(p) {
		if s[i] != p[i] {
			return false
		}
	}
	return true
}

// strip is the specification: the id to forward and whether it is.
func strip(id string, ps []string) (string, int) {
	for i, p := range ps {
		if hasPrefix(id, p) {
			return id[len(p):], i
		}
	}
	return id, -1
}

// H_invoker: a prefixed invoker.
//
// sym: paths=3000000 budget=400
func H_invoker() {
	ps := prefixes(v.Bound(2, 3))
	id, meth := v.StringUpTo("id", v.Bound(3, 4)), v.StringUpTo("meth", 1)
	inv := &hx.Inv{Found: v.Choose("found", 2) == 1}
	if v.Choose("fails", 2) == 1 {
		inv.Err = hx.AnErr("err", "e")
	}
	strm := &hx.NullStream{}
	keep := append([]string(nil), ps...)
	ok, err := srpc.NewPrefixInvoker(inv, ps).InvokeMethod(id, meth, strm)
	for i := range ps {
		v.Assert(ps[i] == keep[i], "the list of prefixes is changed")
	}
	want, which := strip(id, ps)
	if len(ps) != 0 && which < 0 {
		v.Assert(!ok && err == nil, "an id without the prefix is not refused as not found")
		v.Assert(inv.N == 0, "an id without the prefix reaches the invoker")
		v.Reach("refused")
		return
	}
	v.Assert(inv.N == 1, "not forwarded exactly once")
	v.Assert(inv.Svc == want, "not exactly the first matching prefix is removed")
	v.Assert(inv.Meth == meth && inv.Strm == srpc.Stream(strm), "the method or stream is changed")
	v.Assert(ok == inv.Found && err == inv.Err, "the result is changed")
	if which > 0 {
		v.Reach("second")
	}
}

// H_client: a prefixed client.
//
// sym: paths=3000000 budget=400
func H_client() {
	ps := prefixes(v.Bound(2, 3))
	id, meth := v.StringUpTo("id", v.Bound(3, 4)), v.StringUpTo("meth", 1)
	strm := &hx.NullStream{}
	cl := &hx.Client{Strm: strm}
	if v.Choose("fails", 2) == 1 {
		cl.Err = hx.AnErr("err", "e")
	}
	p := srpc.NewPrefixClient(cl, ps)
	type key struct{}
	ctx := context.WithValue(context.Background(), key{}, 1)
	in, out := hx.M([]byte("in")), hx.M([]byte("out"))
	var err error
	exec := v.Choose("exec", 2) == 1
	var s srpc.Stream
	if exec {
		err = p.ExecCall(ctx, id, meth, in, out)
	} else {
		s, err = p.NewStream(ctx, id, meth, in)
	}
	want, which := strip(id, ps)
	if len(ps) != 0 && which < 0 {
		v.Assert(err == srpc.ErrUnimplemented && s == nil, "an id without the prefix is not refused as unimplemented")
		v.Assert(cl.N == 0, "an id without the prefix reaches the client")
		v.Reach("refused")
		return
	}
	v.Assert(cl.N == 1 && cl.Exec == exec, "not forwarded exactly once")
	v.Assert(cl.Svc == want, "not exactly the first matching prefix is removed")
	v.Assert(cl.Meth == meth && cl.In == srpc.Message(in) && cl.Ctx == ctx, "an argument is changed")
	v.Assert(!exec || cl.Out == srpc.Message(out), "the response message is changed")
	v.Assert(err == cl.Err, "the error is changed")
	v.Assert(exec || err != nil || s == srpc.Stream(strm), "the stream is changed")
	v.Reach("forwarded")
}

// H_strip: the helper they share.
//
// sym: paths=3000000 budget=400
func H_strip() {
	ps := prefixes(3)
	id := v.StringUpTo("id", 4)
	s, p := srpc.CheckStripPrefix(id, ps)
	want, which := strip(id, ps)
	v.Assert(s == want, "not exactly the first matching prefix is removed")
	if which < 0 {
		v.Assert(p == "", "a prefix is reported although none matches")
	} else {
		v.Assert(p == ps[which], "another prefix than the first matching one is reported")
	}
}
