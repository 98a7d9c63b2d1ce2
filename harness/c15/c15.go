// Package c15: the mux routes every call to the registered handler or its fallbacks.
//
// bound: up to 3 (thorough 4) registrations of handlers with one symbolic service byte and one or two symbolic method bytes (overlapping in every way), one call with symbolic or empty ids, up to 3 fallback invokers (nil, passing, handling, failing or handling with an error) and nested muxes.
package c15

import (
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// id is an id of one of the symbolic letters a..c (or longer ids sharing a prefix).
func id(label string) string {
	return v.String(label, 1)
}

type result struct {
	ok  bool
	err error
}

func anyResult(label string) result {
	r := result{}
	switch v.Choose(label, 4) {
	case 1:
		r.ok = true
	case 2:
		r.err = hx.AnErr(label+" err", "x")
	case 3:
		r.ok, r.err = true, hx.AnErr(label+" err", "y")
	}
	return r
}

// call is what an invoker saw.
type call struct {
	who       int
	svc, meth string
	strm      srpc.Stream
}

// H_route: registrations, then one call.
//
// sym: paths=3000000 budget=400
func H_route() {
	mux := srpc.NewMux()
	var calls []call
	type reg struct {
		svc   string
		meths []string
	}
	n := 1 + v.Choose("n", v.Bound(3, 4))
	var regs []reg
	res := result{ok: true}
	if v.Choose("fails", 2) == 1 {
		res.err = &hx.Err{S: "failed"}
	}
	if v.Choose("notfound", 2) == 1 {
		res.ok = false
	}
	for i := 0; i < n; i++ {
		r := reg{svc: id("svc"), meths: []string{id("meth")}}
		if i < 2 && v.Choose("two", 2) == 1 {
			r.meths = append(r.meths, id("meth"))
		}
		i := i
		h := &hx.Hnd{Svc: r.svc, Meths: r.meths, Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
			calls = append(calls, call{i, svc, meth, strm})
			return res.ok, res.err
		}}
		v.Assert(mux.Register(h) == nil, "registering fails")
		regs = append(regs, r)
	}
	svc, meth := id("csvc"), id("cmeth")
	empty := v.Choose("empty", 2) == 1
	if empty {
		svc = ""
	}
	strm := &hx.NullStream{ID: 7}
	ok, err := mux.InvokeMethod(svc, meth, strm)

	// the specification
	want := -1
	any := map[int]bool{}
	for i, r := range regs {
		for _, m := range r.meths {
			if m != meth {
				continue
			}
			if r.svc == svc {
				want = i
			}
			// the latest registration of each service may serve an empty service id
			for j := 0; j < i; j++ {
				if any[j] && regs[j].svc == r.svc {
					any[j] = false
				}
			}
			any[i] = true
		}
	}
	found := want >= 0
	if empty {
		found = false
		for _, a := range any {
			found = found || a
		}
	}
	if !found {
		v.Assert(!ok && err == nil, "a call nobody is registered for is not reported as not found")
		v.Assert(len(calls) == 0, "a handler of another service or method is invoked")
		v.Reach("not found")
		return
	}
	v.Assert(len(calls) == 1, "not exactly one handler invoked")
	c := calls[0]
	if empty {
		v.Assert(any[c.who], "a handler not registered for the method serves an empty service id")
		v.Reach("empty service")
	} else {
		v.Assert(c.who == want, "not the most recently registered handler of the pair is invoked")
		v.Reach("found")
	}
	v.Assert(c.svc == svc && c.meth == meth && c.strm == srpc.Stream(strm), "the handler gets other ids or another stream")
	v.Assert(ok == res.ok && err == res.err, "the handler's result is changed")
}

// H_long: ids that share prefixes and ids whose concatenations coincide.
func H_long() {
	mux := srpc.NewMux()
	who := -1
	mk := func(i int, svc string, meths ...string) {
		h := &hx.Hnd{Svc: svc, Meths: meths, Fn: func(string, string, srpc.Stream) (bool, error) { who = i; return true, nil }}
		v.Assert(mux.Register(h) == nil, "registering fails")
	}
	ids := []string{"a", "ab", "abc", "b", "bc", "a/b", "A", "a "}
	s1, m1 := ids[v.Choose("s1", len(ids))], ids[v.Choose("m1", len(ids))]
	mk(1, s1, m1)
	mk(2, "ab", "b", "bc")
	cs, cm := ids[v.Choose("cs", len(ids))], ids[v.Choose("cm", len(ids))]
	ok, err := mux.InvokeMethod(cs, cm, &hx.NullStream{})
	want := -1
	if cs == s1 && cm == m1 {
		want = 1
	}
	if cs == "ab" && (cm == "b" || cm == "bc") {
		want = 2
	}
	v.Assert(err == nil && ok == (want >= 0) && who == want, "wrong routing of ids sharing a prefix")
}

// H_fallback: unregistered calls are tried on the fallbacks in order.
func H_fallback() {
	n := v.Choose("n", 4)
	var fbs []srpc.Invoker
	var calls []call
	var rs []*result
	for i := 0; i < n; i++ {
		i := i
		if v.Choose("nil", 2) == 1 {
			fbs = append(fbs, nil)
			rs = append(rs, nil)
			continue
		}
		r := anyResult("fb")
		rs = append(rs, &r)
		fbs = append(fbs, &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
			calls = append(calls, call{i, svc, meth, strm})
			return r.ok, r.err
		}})
	}
	mux := srpc.NewMux(fbs...)
	reg := v.Choose("registered", 2) == 1
	hres := anyResult("h")
	if reg {
		v.Assert(mux.Register(&hx.Hnd{Svc: "s", Meths: []string{"m"}, Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
			calls = append(calls, call{100, svc, meth, strm})
			return hres.ok, hres.err
		}}) == nil, "register")
	}
	svc, meth := id("svc"), id("meth")
	strm := &hx.NullStream{}
	ok, err := mux.InvokeMethod(svc, meth, strm)
	for _, c := range calls {
		v.Assert(c.svc == svc && c.meth == meth && c.strm == srpc.Stream(strm), "an invoker gets other ids or another stream")
	}
	if reg && svc == "s" && meth == "m" {
		v.Assert(len(calls) == 1 && calls[0].who == 100, "a registered call reaches a fallback")
		v.Assert(ok == hres.ok && err == hres.err, "the handler's result is changed")
		v.Reach("registered")
		return
	}
	k := 0
	for i, r := range rs {
		if r == nil {
			continue
		}
		v.Assert(k < len(calls) && calls[k].who == i, "the fallbacks are not tried in order")
		k++
		if r.ok || r.err != nil {
			v.Assert(err == r.err, "the error of the fallback is not returned")
			v.Assert(ok == r.ok || err != nil, "the result of the fallback is not returned")
			v.Assert(len(calls) == k, "a fallback after the one that handled or failed the call is invoked")
			v.Reach("handled")
			return
		}
	}
	v.Assert(len(calls) == k, "a fallback is invoked again")
	v.Assert(!ok && err == nil, "an unhandled call is not reported as not found")
}

// H_nested: a mux as fallback of another, called with symbolic ids.
func H_nested() {
	inner := srpc.NewMux()
	outer := srpc.NewMux(inner)
	who := 0
	mk := func(m srpc.Mux, i int, svc string) {
		v.Assert(m.Register(&hx.Hnd{Svc: svc, Meths: []string{"m"}, Fn: func(string, string, srpc.Stream) (bool, error) { who = i; return true, nil }}) == nil, "register")
	}
	a, b, c := id("a"), id("b"), id("c")
	mk(inner, 1, a)
	mk(outer, 2, b)
	ok, err := outer.InvokeMethod(c, "m", &hx.NullStream{})
	v.Assert(err == nil, "error")
	switch {
	case c == b:
		v.Assert(ok && who == 2, "the outer handler is not invoked")
	case c == a:
		v.Assert(ok && who == 1, "the fallback mux is not used")
	default:
		v.Assert(!ok && who == 0, "another service is invoked")
	}
}
