// Package c29: decorators of clients, muxes, streams and packet writers are transparent.
//
// bound: sequences of 2 (thorough 3) calls in any order with service and method ids of 0 to 2 symbolic bytes, every outcome of the wrapped object (found or not, nil, application error, io.EOF, context.Canceled bare and wrapped, context.DeadlineExceeded, srpc.ErrUnimplemented), every logging level, both verbosities; 2 concurrent calls with delay bound 2 (thorough 3).
// assume: what is logged is not checked (the logger's output functions are no-ops in the executor).
package c29

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
	"github.com/sirupsen/logrus"
)

func entry() *logrus.Entry {
	lg := logrus.New()
	lg.Out = io.Discard
	lg.Level = []logrus.Level{logrus.PanicLevel, logrus.ErrorLevel, logrus.InfoLevel, logrus.DebugLevel, logrus.TraceLevel}[v.Choose("level", 5)]
	return logrus.NewEntry(lg)
}

var errApp = &hx.Err{S: "application error"}

func fewer(label string) error {
	return []error{nil, errApp, io.EOF, context.Canceled}[v.Choose(label, 4)]
}

func outcome(label string) error {
	return []error{nil, errApp, io.EOF, context.Canceled, context.DeadlineExceeded, srpc.ErrUnimplemented, &hx.WErr{E: context.Canceled}}[v.Choose(label, 7)]
}

// H_client: the verbose client.
//
// sym: race=0
func H_client() {
	in := &hx.Client{}
	c := srpc.NewVClient(in, entry())
	n := v.Bound(2, 3)
	for i := 1; i <= n; i++ {
		ctx, cancel := context.WithCancel(context.Background())
		if v.Bool("cancelled") {
			cancel()
		}
		svc, meth := v.StringUpTo("svc", 2), v.StringUpTo("meth", v.Bound(1, 2))
		var a, b srpc.Message
		if v.Bool("msg") {
			a = hx.M([]byte{1})
		}
		in.Err, in.Strm = outcome("outcome"), &hx.Strm{}
		if v.Bool("exec") {
			b = hx.M(nil)
			err := c.ExecCall(ctx, svc, meth, a, b)
			v.Assert(in.Exec, "a call is turned into a stream")
			v.Assert(err == in.Err, "ExecCall changes the outcome")
			v.Reach("exec")
		} else {
			s, err := c.NewStream(ctx, svc, meth, a)
			v.Assert(!in.Exec, "a stream is turned into a call")
			v.Assert(err == in.Err, "NewStream changes the outcome")
			v.Assert(err != nil || s == in.Strm, "NewStream returns another stream")
			v.Assert(err == nil || s == nil, "NewStream returns a stream with an error")
			v.Reach("stream")
		}
		v.Assert(in.N == i, "the wrapped client is not called exactly once")
		v.Assert(in.Ctx == ctx && in.Svc == svc && in.Meth == meth && in.In == a && in.Out == b, "an argument is changed")
		cancel()
	}
}

// H_client_panic: a panic of the wrapped client is passed on.
//
// sym: race=0
func H_client_panic() {
	in := &hx.Client{Fn: func() error { panic("boom") }}
	c := srpc.NewVClient(in, entry())
	defer func() {
		v.Assert(recover() == "boom", "the panic is swallowed or changed")
		v.Reach("panic")
	}()
	if v.Bool("exec") {
		_ = c.ExecCall(context.Background(), "s", "m", nil, nil)
	} else {
		_, _ = c.NewStream(context.Background(), "s", "m", nil)
	}
	v.Fail("the panic is swallowed")
}

type conc struct{ hx.Client }

func (c *conc) ExecCall(ctx context.Context, svc, meth string, in, out srpc.Message) error {
	if svc == "a" {
		return errApp
	}
	return nil
}
func (c *conc) NewStream(ctx context.Context, svc, meth string, first srpc.Message) (srpc.Stream, error) {
	return &hx.Strm{LastMsg: first}, nil
}

// H_client_conc: concurrent calls keep their own results.
//
// sym: delays=2 delays@thorough=3
func H_client_conc() {
	c := srpc.NewVClient(&conc{}, entry())
	done := make(chan struct{})
	go func() {
		v.Assert(c.ExecCall(context.Background(), "a", "m", nil, nil) == error(errApp), "the outcome of a concurrent call is changed")
		close(done)
	}()
	if v.Bool("stream") {
		m := hx.M(nil)
		s, err := c.NewStream(context.Background(), "b", "m", m)
		v.Assert(err == nil && s.(*hx.Strm).LastMsg == srpc.Message(m), "the outcome of a concurrent call is changed")
	} else {
		v.Assert(c.ExecCall(context.Background(), "b", "m", nil, nil) == nil, "the outcome of a concurrent call is changed")
	}
	<-done
	v.Reach("both")
}

// mux records its calls.
type mux struct {
	op        string
	n         int
	svc, meth string
	strm      srpc.Stream
	h         srpc.Handler
	ok        bool
	err       error
}

func (m *mux) rec(op, svc, meth string) { m.n++; m.op, m.svc, m.meth = op, svc, meth }
func (m *mux) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	m.rec("invoke", svc, meth)
	m.strm = strm
	return m.ok, m.err
}
func (m *mux) Register(h srpc.Handler) error     { m.rec("register", "", ""); m.h = h; return m.err }
func (m *mux) HasService(svc string) bool        { m.rec("service", svc, ""); return m.ok }
func (m *mux) HasServiceMethod(s, x string) bool { m.rec("method", s, x); return m.ok }

// H_mux: the verbose mux.
//
// sym: race=0
func H_mux() {
	in := &mux{}
	m := srpc.NewVMux(in, entry(), v.Bool("very"))
	n := v.Bound(2, 3)
	for i := 1; i <= n; i++ {
		svc, meth := v.StringUpTo("svc", v.Bound(1, 2)), v.StringUpTo("meth", 1)
		in.ok, in.err = v.Bool("ok"), outcome("outcome")
		var op string
		switch v.Choose("op", 4) {
		case 0:
			op = "invoke"
			s := &hx.Strm{}
			ok, err := m.InvokeMethod(svc, meth, s)
			v.Assert(ok == in.ok && err == in.err, "InvokeMethod changes the outcome")
			v.Assert(in.strm == srpc.Stream(s), "InvokeMethod changes the stream")
			v.Assert(s.NSend+s.NRecv+s.NClose+s.NCloseSend == 0, "InvokeMethod uses the stream")
		case 1:
			op = "register"
			h := &hx.Hnd{Svc: svc}
			v.Assert(m.Register(h) == in.err, "Register changes the outcome")
			v.Assert(in.h == srpc.Handler(h), "Register changes the handler")
			svc, meth = "", ""
		case 2:
			op = "service"
			v.Assert(m.HasService(svc) == in.ok, "HasService changes the outcome")
			meth = ""
		case 3:
			op = "method"
			v.Assert(m.HasServiceMethod(svc, meth) == in.ok, "HasServiceMethod changes the outcome")
		}
		v.Assert(in.n == i && in.op == op, "the wrapped mux is not called exactly once")
		v.Assert(in.svc == svc && in.meth == meth, "an argument is changed")
	}
	v.Reach("mux")
}

// H_mux_panic: a panic of a method is passed on.
//
// sym: race=0
func H_mux_panic() {
	in := srpc.NewMux()
	_ = in.Register(&hx.Hnd{Svc: "s", Meths: []string{"m"}, Fn: func(string, string, srpc.Stream) (bool, error) { panic("boom") }})
	m := srpc.NewVMux(in, entry(), v.Bool("very"))
	defer func() {
		v.Assert(recover() == "boom", "the panic is swallowed or changed")
		v.Reach("panic")
	}()
	_, _ = m.InvokeMethod("s", "m", &hx.Strm{})
	v.Fail("the panic is swallowed")
}

// H_mux_real: a verbose mux over a mux answers as the mux does.
//
// sym: race=0
func H_mux_real() {
	very, le := v.Bool("very"), entry()
	plain, verb := srpc.NewMux(), srpc.Mux(srpc.NewVMux(srpc.NewMux(), le, very))
	for i, n := 0, v.Choose("handlers", 3); i < n; i++ {
		h := &hx.Hnd{ID: i, Svc: v.String("svc", 1), Meths: []string{v.String("meth", 1)}}
		a, b := plain.Register(h), verb.Register(h)
		v.Assert((a == nil) == (b == nil), "Register changes the outcome")
	}
	svc, meth := v.StringUpTo("q", 1), v.StringUpTo("q", 1)
	v.Assert(plain.HasService(svc) == verb.HasService(svc), "HasService changes the outcome")
	v.Assert(plain.HasServiceMethod(svc, meth) == verb.HasServiceMethod(svc, meth), "HasServiceMethod changes the outcome")
	a, ea := plain.InvokeMethod(svc, meth, &hx.Strm{})
	b, eb := verb.InvokeMethod(svc, meth, &hx.Strm{})
	v.Assert(a == b && ea == eb, "InvokeMethod changes the outcome")
	if a {
		v.Reach("found")
	} else {
		v.Reach("not found")
	}
}

// closing runs close and checks it.
func closing(inner, cb error, ninner *int, ncb *int, close func() error) {
	err := close()
	v.Assert(*ninner == 1, "close does not close the wrapped object exactly once")
	v.Assert(*ncb == 1, "close does not run the callback exactly once")
	want := inner
	if want == nil {
		want = cb
	}
	v.Assert(err == want, "close does not return the first error")
}

// H_stream: the stream wrapper.
//
// sym: race=0
func H_stream() {
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	in := &hx.Strm{Ctx: ctx, SendErr: fewer("senderr"), InErr: fewer("recverr"), CloseSendErr: fewer("closesenderr"), CloseErr: fewer("closeerr")}
	cberr, ncb := fewer("cberr"), 0
	s := srpc.NewStreamWithClose(in, func() error { ncb++; return cberr })
	v.Assert(s.Context() == ctx, "another context")
	if in.InErr == nil {
		in.In = [][]byte{v.BytesUpTo("in", 2), v.BytesUpTo("in", 1)}
	}
	want := [4]int{}
	for i := 0; i < 2; i++ {
		switch v.Choose("op", 3) {
		case 0:
			m := hx.M(v.BytesUpTo("out", 2))
			v.Assert(s.MsgSend(m) == in.SendErr && in.LastMsg == srpc.Message(m), "MsgSend is not forwarded unchanged")
			want[0]++
		case 1:
			m := hx.M(nil)
			var next []byte
			if in.InErr == nil {
				next = in.In[0]
			}
			v.Assert(s.MsgRecv(m) == in.InErr && in.LastMsg == srpc.Message(m), "MsgRecv is not forwarded unchanged")
			v.Assert(hx.Eq(m.B, next), "MsgRecv changes the message")
			want[1]++
		case 2:
			v.Assert(s.CloseSend() == in.CloseSendErr, "CloseSend is not forwarded unchanged")
			want[2]++
		}
		v.Assert(in.NSend == want[0] && in.NRecv == want[1] && in.NCloseSend == want[2] && in.NClose == 0 && ncb == 0, "an operation is not forwarded exactly once")
	}
	closing(in.CloseErr, cberr, &in.NClose, &ncb, s.Close)
	v.Assert(in.NSend == want[0] && in.NRecv == want[1] && in.NCloseSend == want[2], "close uses the stream")
	v.Reach("stream")
}

// pw records what is written.
type pw struct {
	p           *srpc.Packet
	n, nc       int
	err, closed error
}

func (w *pw) WritePacket(p *srpc.Packet) error { w.n++; w.p = p; return w.err }
func (w *pw) Close() error                     { w.nc++; return w.closed }

// H_writer: the packet writer wrapper.
//
// sym: race=0
func H_writer() {
	in := &pw{err: outcome("writeerr"), closed: outcome("closeerr")}
	cberr, ncb := outcome("cberr"), 0
	w := srpc.NewPacketWriterWithClose(in, func() error { ncb++; return cberr })
	n := v.Choose("writes", 3)
	for i := 1; i <= n; i++ {
		p := srpc.NewCallDataPacket(v.BytesUpTo("data", 1), false, false, nil)
		v.Assert(w.WritePacket(p) == in.err, "WritePacket changes the outcome")
		v.Assert(in.p == p && in.n == i && in.nc == 0 && ncb == 0, "WritePacket is not forwarded unchanged")
	}
	closing(in.closed, cberr, &in.nc, &ncb, w.Close)
	v.Assert(in.n == n, "close writes a packet")
	v.Reach("writer")
}
