// Package c16: mux queries agree with routing, also under concurrent registration.
//
// bound: up to 3 registrations with symbolic service and method bytes (or empty ids, or no method at all), queries with symbolic or empty ids; registration, query, call and registration from a running handler interleaved with delay bound 3 (thorough 4) and checked for races and deadlocks.
// assume: a handler reports the same service id and method list whenever asked; a service registered without any method counts as absent.
package c16

import (
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

func id(label string) string { return v.StringUpTo(label, 1) }

// H_queries: the answers agree with the registrations and with routing.
//
// sym: paths=3000000 budget=400
func H_queries() {
	mux := srpc.NewMux()
	type pair struct{ svc, meth string }
	var ps []pair
	n := v.Choose("n", 4)
	for i := 0; i < n; i++ {
		svc := id("svc")
		var ms []string
		if v.Choose("methods", 2) == 1 {
			ms = append(ms, v.StringUpTo("m1", 1))
		}
		if i == 0 && v.Choose("two", 2) == 1 {
			ms = append(ms, id("m2"))
		}
		err := mux.Register(&hx.Hnd{Svc: svc, Meths: ms})
		if svc == "" {
			v.Assert(err != nil, "an empty service id is registered")
			continue
		}
		v.Assert(err == nil, "registering fails")
		for _, m := range ms {
			if m != "" {
				ps = append(ps, pair{svc, m})
			}
		}
	}
	qs, qm := id("qs"), id("qm")
	hasS, hasP, hasM := false, false, false
	for _, p := range ps {
		if p.svc == qs {
			hasS = true
			if p.meth == qm {
				hasP = true
			}
		}
		if p.meth == qm {
			hasM = true
		}
	}
	v.Assert(mux.HasService(qs) == hasS, "HasService disagrees with the registrations")
	v.Assert(mux.HasServiceMethod(qs, qm) == hasP, "HasServiceMethod disagrees with the registrations")
	ok, err := mux.InvokeMethod(qs, qm, &hx.NullStream{})
	v.Assert(err == nil, "error")
	if qs == "" {
		v.Assert(ok == hasM, "routing with an empty service id disagrees with the registrations")
	} else {
		v.Assert(ok == hasP, "routing disagrees with the registrations")
	}
	if hasP {
		v.Reach("has")
	}
}

// H_unchanged: a refused registration and queries change nothing.
func H_unchanged() {
	mux := srpc.NewMux()
	first := &hx.Hnd{Svc: "s", Meths: []string{"m"}}
	v.Assert(mux.Register(first) == nil, "register")
	bad := &hx.Hnd{Svc: "", Meths: []string{"m", "x"}}
	v.Assert(mux.Register(bad) == srpc.ErrEmptyServiceID, "an empty service id is not refused as such")
	s, m := id("s"), id("m")
	_ = mux.HasService(s)
	_ = mux.HasServiceMethod(s, m)
	_, _ = mux.InvokeMethod(s, m, &hx.NullStream{})
	v.Assert(bad.N == 0, "a refused handler is invoked")
	v.Assert(!mux.HasService("") && !mux.HasServiceMethod("", "m") && !mux.HasServiceMethod("s", "") && !mux.HasServiceMethod("", ""), "an empty id is present")
	v.Assert(mux.HasService("s") && mux.HasServiceMethod("s", "m") && !mux.HasServiceMethod("s", "x"), "the registration changed")
	n := first.N
	ok, err := mux.InvokeMethod("s", "m", &hx.NullStream{})
	v.Assert(ok && err == nil && first.N == n+1, "the registration changed")
	if s != "s" && s != "" {
		v.Assert(!mux.HasService(s), "a query registers a service")
	}
}

// H_concurrent: registration, queries and calls at the same time.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_concurrent() {
	mux := srpc.NewMux()
	h1 := &hx.Hnd{Svc: "a", Meths: []string{"m"}}
	v.Assert(mux.Register(h1) == nil, "register")
	done := make(chan bool, 2)
	registered := make(chan bool)
	go func() {
		h2 := &hx.Hnd{Svc: []string{"a", "b"}[v.Choose("which", 2)], Meths: []string{"n"}}
		v.Assert(mux.Register(h2) == nil, "register")
		close(registered)
		v.Assert(mux.HasServiceMethod(h2.Svc, "n"), "a registration is not seen after it completed")
		done <- true
	}()
	go func() {
		switch v.Choose("op", 4) {
		case 0:
			v.Assert(mux.HasService("a"), "a registered service is absent")
		case 1:
			v.Assert(mux.HasServiceMethod("a", "m"), "a registered method is absent")
		case 2:
			ok, err := mux.InvokeMethod("a", "m", &hx.NullStream{})
			v.Assert(ok && err == nil, "a registered method is not routed")
		case 3:
			ok, err := mux.InvokeMethod("", "m", &hx.NullStream{})
			v.Assert(ok && err == nil, "a registered method is not routed")
		}
		done <- true
	}()
	select {
	case <-registered:
		ok1, _ := mux.InvokeMethod("a", "n", &hx.NullStream{})
		ok2, _ := mux.InvokeMethod("b", "n", &hx.NullStream{})
		v.Assert(ok1 || ok2, "a call made after a registration does not see it")
	default:
		_, _ = mux.InvokeMethod("a", "n", &hx.NullStream{})
	}
	<-done
	<-done
}

// H_two_registrations: concurrent registrations for one service both take effect.
//
// sym: delays=3 delays@thorough=4
func H_two_registrations() {
	mux := srpc.NewMux()
	done := make(chan bool, 1)
	go func() {
		v.Assert(mux.Register(&hx.Hnd{Svc: "s", Meths: []string{"a"}}) == nil, "register")
		done <- true
	}()
	v.Assert(mux.Register(&hx.Hnd{Svc: "s", Meths: []string{"b"}}) == nil, "register")
	<-done
	v.Assert(mux.HasServiceMethod("s", "a") && mux.HasServiceMethod("s", "b"), "a concurrent registration is lost")
	for _, m := range []string{"a", "b"} {
		ok, err := mux.InvokeMethod("s", m, &hx.NullStream{})
		v.Assert(ok && err == nil, "a concurrent registration is lost")
	}
}

// H_reentrant: a handler registers and calls on the same mux while others do.
//
// sym: delays=3 delays@thorough=4 budget=400
func H_reentrant() {
	mux := srpc.NewMux()
	inner := 0
	reg := func(svc string, fn func(string, string, srpc.Stream) (bool, error)) {
		v.Assert(mux.Register(&hx.Hnd{Svc: svc, Meths: []string{"m"}, Fn: fn}) == nil, "register")
	}
	reg("leaf", func(string, string, srpc.Stream) (bool, error) { inner++; return true, nil })
	what := v.Choose("what", 4)
	reg("a", func(string, string, srpc.Stream) (bool, error) {
		switch what {
		case 0:
			reg("new", func(string, string, srpc.Stream) (bool, error) { inner++; return true, nil })
			return mux.InvokeMethod("new", "m", &hx.NullStream{})
		case 1:
			return mux.InvokeMethod("leaf", "m", &hx.NullStream{})
		case 2:
			inner++
			return mux.HasService("leaf") && mux.HasServiceMethod("leaf", "m"), nil
		}
		reg("a", func(string, string, srpc.Stream) (bool, error) { inner++; return true, nil })
		return mux.InvokeMethod("a", "m", &hx.NullStream{})
	})
	done := make(chan bool, 1)
	go func() {
		switch v.Choose("other", 2) {
		case 0:
			reg("other", nil)
		case 1:
			_ = mux.HasService("leaf")
		}
		done <- true
	}()
	ok, err := mux.InvokeMethod("a", "m", &hx.NullStream{})
	v.Assert(ok && err == nil && inner == 1, "a handler cannot use its own mux")
	<-done
}

// H_fallback_reentrant: a fallback registers a service on the mux while it runs.
//
// sym: delays=2 delays@thorough=3
func H_fallback_reentrant() {
	var mux srpc.Mux
	n := 0
	mux = srpc.NewMux(srpc.InvokerFunc(func(svc, meth string, strm srpc.Stream) (bool, error) {
		n++
		if err := mux.Register(&hx.Hnd{Svc: svc, Meths: []string{meth}}); err != nil {
			return false, err
		}
		return mux.InvokeMethod(svc, meth, strm)
	}))
	done := make(chan bool, 1)
	go func() { mux.HasService("s"); done <- true }()
	for i := 0; i < 2; i++ {
		ok, err := mux.InvokeMethod("s", "m", &hx.NullStream{})
		v.Assert(ok && err == nil, "lazy registration")
	}
	<-done
	v.Assert(n == 1, "a registration made by a fallback is not seen by later calls")
}
