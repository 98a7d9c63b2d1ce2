// Package c37: the bundled echo and mock services do what they document.
//
// bound: message bodies of 0 to 2 symbolic bytes, up to 3 (thorough 4) messages per bidirectional stream, every position at which the caller's stream fails, ends or is cancelled, every error sentinel; the 5 messages of a server stream with a cancellation before or after each; a nested call through the RpcStream method with and without a mux.
package c37

import (
	"context"
	"io"
	"sync"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// strm is the stream of one call as the service sees it.
type strm struct {
	ctx        context.Context
	mu         sync.Mutex
	in         [][]byte
	end        error
	sent       [][]byte
	nsend      int
	failAt     int
	fail       error
	onSend     func(n int)
	nclose, cs int
}

func (s *strm) Context() context.Context { return s.ctx }

func (s *strm) MsgSend(m srpc.Message) error {
	s.nsend++
	if s.fail != nil && s.nsend == s.failAt {
		return s.fail
	}
	v.Assert(s.fail == nil || s.nsend < s.failAt, "a send after a failed send")
	b, err := m.MarshalVT()
	v.Assert(err == nil, "a message cannot be encoded")
	s.sent = append(s.sent, append([]byte(nil), b...))
	if s.onSend != nil {
		s.onSend(s.nsend)
	}
	return nil
}

func (s *strm) MsgRecv(m srpc.Message) error {
	if len(s.in) == 0 {
		if s.end == nil {
			v.Fail("a receive beyond the last message")
		}
		return s.end
	}
	b := append([]byte(nil), s.in[0]...)
	s.in = s.in[1:]
	return m.UnmarshalVT(b)
}

func (s *strm) CloseSend() error { s.cs++; return nil }
func (s *strm) Close() error     { s.nclose++; return nil }

func body(label string, max int) string { return v.String(label, v.Choose(label+"len", max+1)) }

func emsg(b string) []byte {
	d, err := (&echo.EchoMsg{Body: b}).MarshalVT()
	v.Assert(err == nil, "a message cannot be encoded")
	return d
}

func is(d []byte, b string) {
	m := &echo.EchoMsg{}
	v.Assert(m.UnmarshalVT(d) == nil, "a response cannot be decoded")
	v.Assert(m.Body == b, "the response has another content")
}

// call runs a method of a mux with the echo service.
func call(inner srpc.Mux, meth string, s *strm) error {
	mux := srpc.NewMux()
	v.Assert(echo.NewEchoServer(inner).Register(mux) == nil, "the service cannot be registered")
	v.Assert(mux.HasService(echo.SRPCEchoerServiceID), "the service is not registered")
	if s.ctx == nil {
		s.ctx = context.Background()
	}
	ok, err := mux.InvokeMethod(echo.SRPCEchoerServiceID, meth, s)
	v.Assert(ok, "the method is not found")
	v.Assert(s.nclose == 0, "the service closes the stream")
	return err
}

// H_echo: the unary method answers with the request.
func H_echo() {
	b := body("b", 2)
	s := &strm{in: [][]byte{emsg(b)}}
	v.Assert(call(nil, "Echo", s) == nil, "the call fails")
	v.Assert(len(s.sent) == 1, "not exactly one response")
	is(s.sent[0], b)
}

// H_echo_copy: the answer shares nothing with the request.
func H_echo_copy() {
	b := body("b", 2)
	in := &echo.EchoMsg{Body: b}
	out, err := echo.NewEchoServer(nil).Echo(context.Background(), in)
	v.Assert(err == nil && out != nil && out != in, "the call fails")
	in.Body = "changed"
	v.Assert(out.Body == b, "the response has another content")
	out.Body = "other"
	v.Assert(in.Body == "changed", "the response is the request")
}

// H_nothing: the empty method answers with an empty message.
func H_nothing() {
	s := &strm{in: [][]byte{nil}}
	v.Assert(call(nil, "DoNothing", s) == nil, "the call fails")
	v.Assert(len(s.sent) == 1 && len(s.sent[0]) == 0, "not exactly one empty response")
	out, err := echo.NewEchoServer(nil).DoNothing(context.Background(), &emptypb.Empty{})
	v.Assert(err == nil && out != nil, "the call fails")
}

// H_client_stream: the client-streaming method answers with the first message.
func H_client_stream() {
	s := &strm{}
	n := v.Choose("n", 3)
	var want []string
	for i := 0; i < n; i++ {
		want = append(want, body("b", 1))
		s.in = append(s.in, emsg(want[i]))
	}
	s.end = hx.AnErr("end", "end")
	err := call(nil, "EchoClientStream", s)
	if n == 0 {
		v.Assert(err == s.end, "the failure of the stream is not returned")
		v.Assert(len(s.sent) == 0, "a response without a message")
		return
	}
	v.Assert(err == nil && len(s.sent) == 1, "not exactly one response")
	is(s.sent[0], want[0])
}

// H_bidi: the bidirectional method greets, then echoes every message until the caller is done.
func H_bidi() {
	s := &strm{}
	max := 3
	if v.Thorough() {
		max = 4
	}
	n := v.Choose("n", max+1)
	want := []string{"hello from server"}
	bad := false
	for i := 0; i < n; i++ {
		b := body("b", 2)
		s.in = append(s.in, emsg(b))
		if bad = bad || len(b) == 0; !bad {
			want = append(want, b)
		}
	}
	s.end = hx.AnErr("end", "end")
	if k := v.Choose("fail", n+2); k > 0 {
		s.failAt, s.fail = k, hx.AnErr("failure", "send")
	}
	err := call(nil, "EchoBidiStream", s)
	for i, d := range s.sent {
		is(d, want[i])
	}
	switch {
	case s.fail != nil && s.failAt <= len(want):
		v.Assert(err == s.fail, "the failure of a send is not returned")
		v.Assert(len(s.sent) == s.failAt-1, "messages missing before the failed send")
	case bad:
		v.Assert(err != nil && err != io.EOF, "an empty message is accepted")
		v.Assert(len(s.sent) == len(want), "not every message is echoed")
	case s.end == io.EOF:
		v.Assert(err == nil, "a stream which ended fails")
		v.Assert(len(s.sent) == len(want), "not every message is echoed")
	default:
		v.Assert(err == s.end, "the failure of the stream is not returned")
		v.Assert(len(s.sent) == len(want), "not every message is echoed")
	}
}

// H_server_stream: the server-streaming method sends five copies, unless the call is cancelled
// or a send fails.
//
// sym: delays=1 delays@thorough=2 ticks=8
func H_server_stream() {
	b := body("b", 1)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	s := &strm{ctx: ctx, in: [][]byte{emsg(b)}}
	at := v.Choose("cancel", 6)
	if k := v.Choose("fail", 6); k > 0 {
		s.failAt, s.fail = k, hx.AnErr("failure", "send")
	}
	async := v.Choose("async", 2) == 1
	s.onSend = func(n int) {
		if n == at {
			if async {
				go cancel()
			} else {
				cancel()
			}
		}
	}
	err := call(nil, "EchoServerStream", s)
	for _, d := range s.sent {
		is(d, b)
	}
	switch {
	case s.fail != nil && (at == 0 || s.failAt <= at):
		v.Assert(err == s.fail && len(s.sent) == s.failAt-1, "the failure of a send is not returned")
	case at != 0 && !async:
		v.Assert(err == context.Canceled, "a cancelled call goes on")
		v.Assert(len(s.sent) == at, "a cancelled call sends")
	case at != 0:
		v.Assert(err == context.Canceled || s.fail != nil && err == s.fail || s.fail == nil && err == nil && len(s.sent) == 5, "a cancelled call ends otherwise")
	default:
		v.Assert(err == nil && len(s.sent) == 5, "not exactly five messages")
	}
}

// H_rpcstream: the RpcStream method serves its mux.
//
// sym: delays=0 delays@thorough=1
func H_rpcstream() {
	inner := srpc.NewMux()
	has := v.Choose("mux", 2) == 1
	if has {
		v.Assert(echo.NewEchoServer(nil).Register(inner) == nil, "the service cannot be registered")
	}
	outer := srpc.NewMux()
	srv := echo.NewEchoServer(nil)
	if has {
		srv = echo.NewEchoServer(inner)
	}
	v.Assert(srv.Register(outer) == nil, "the service cannot be registered")
	client := echo.NewSRPCEchoerClient(hx.NewConn(outer, 8).Client)
	nested := echo.NewSRPCEchoerClient(rpcstream.NewRpcStreamClient(client.RpcStream, "any", v.Choose("wait", 2) == 1))
	b := body("b", 1)
	out, err := nested.Echo(context.Background(), &echo.EchoMsg{Body: b})
	if !has {
		v.Assert(err != nil, "a call without a mux succeeds")
		return
	}
	v.Assert(err == nil && out.GetBody() == b, "the nested call has another outcome")
}

// H_mock: the mock service runs its callback.
func H_mock() {
	srv := &e2e_mock.MockServer{}
	mux := srpc.NewMux()
	v.Assert(srv.Register(mux) == nil, "the service cannot be registered")
	in, out := body("in", 2), body("out", 2)
	ctx := context.WithValue(context.Background(), srv, 1)
	n := 0
	var fail error
	if v.Choose("callback", 2) == 1 {
		if v.Choose("fails", 2) == 1 {
			fail = hx.AnErr("failure", "callback")
		}
		srv.MockRequestCb = func(c context.Context, m *e2e_mock.MockMsg) (*e2e_mock.MockMsg, error) {
			n++
			v.Assert(c == ctx, "the callback gets another context")
			v.Assert(m.GetBody() == in, "the callback gets another request")
			if fail != nil {
				return nil, fail
			}
			return &e2e_mock.MockMsg{Body: out}, nil
		}
	}
	d, err := (&e2e_mock.MockMsg{Body: in}).MarshalVT()
	v.Assert(err == nil, "a message cannot be encoded")
	s := &strm{ctx: ctx, in: [][]byte{d}}
	ok, err := mux.InvokeMethod(e2e_mock.SRPCMockServiceID, "MockRequest", s)
	v.Assert(ok, "the method is not found")
	switch {
	case srv.MockRequestCb == nil:
		v.Assert(err == srpc.ErrUnimplemented && len(s.sent) == 0, "a call without callback does not say unimplemented")
	case fail != nil:
		v.Assert(n == 1 && err == fail && len(s.sent) == 0, "the failure of the callback is not returned")
	default:
		v.Assert(n == 1 && err == nil && len(s.sent) == 1, "not exactly one response")
		m := &e2e_mock.MockMsg{}
		v.Assert(m.UnmarshalVT(s.sent[0]) == nil && m.Body == out, "the response has another content")
	}
}
