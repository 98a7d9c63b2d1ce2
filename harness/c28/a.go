// Package c28: generated clients and handlers agree on routing and message flow.
//
// bound: the generator built from the current tree, run on 4 services with all 4 streaming kinds (names in several cases, with underscores, without package, without methods, imported messages, comments), and the generated code of the repository (echo, mock); every requested service and method id up to 2 bytes longer than the real ones, messages of 0 to 2 symbolic bytes, every failing stream or client operation.
// assume: the schemas given to the generator stand for all schemas; the generator itself is run, not encoded.
package c28

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// ptr is a pointer to a message.
type ptr[T any] interface {
	*T
	srpc.Message
}

// enc is the encoding of a message.
func enc(m srpc.Message) []byte {
	b, err := m.MarshalVT()
	v.Assert(err == nil, "encoding a message fails")
	return append([]byte(nil), b...)
}

// dec decodes a message.
func dec[T any, P ptr[T]](b []byte) P {
	p := P(new(T))
	v.Assert(p.UnmarshalVT(append([]byte(nil), b...)) == nil, "decoding a message fails")
	return p
}

type ctxKey struct{}

func newCtx() context.Context { return context.WithValue(context.Background(), ctxKey{}, 1) }

// called checks that the client was called once as expected.
func called(c *hx.Client, ctx context.Context, svc, id string, exec bool, first srpc.Message) {
	v.Assert(c.N == 1, "not exactly one remote call is made")
	v.Assert(c.Svc == svc, "the remote call goes to another service")
	v.Assert(c.Meth == id, "the remote call goes to another method")
	v.Assert(c.Ctx == ctx, "the remote call does not use the caller's context")
	v.Assert(c.Exec == exec, "the remote call is of another kind")
	if first == nil {
		v.Assert(c.In == nil, "a streaming call sends a first message")
	} else {
		v.Assert(c.In != nil && hx.Eq(enc(c.In), enc(first)), "the request is changed")
	}
}

// client is a recording client whose call may fail.
func client() (*hx.Client, *hx.Strm) {
	s := &hx.Strm{}
	c := &hx.Client{Strm: s}
	if v.Choose("callfails", 2) == 1 {
		c.Err = hx.AnErr("call", "call")
	}
	return c, s
}

// unaryCall checks a generated unary client method.
func unaryCall[I, O any, PI ptr[I], PO ptr[O]](c *hx.Client, svc, id string, in, out []byte, call func(context.Context, PI) (PO, error)) {
	ctx := newCtx()
	req := dec[I, PI](in)
	if c.Err == nil {
		c.Fn = func() error { return c.Out.UnmarshalVT(append([]byte(nil), out...)) }
	}
	got, err := call(ctx, req)
	called(c, ctx, svc, id, true, req)
	v.Assert(hx.Eq(enc(req), in), "a call changes the request")
	if c.Err != nil {
		v.Assert(err == c.Err && got == nil, "the error of the call is not returned")
		return
	}
	v.Assert(err == nil && got != nil, "a successful call fails")
	v.Assert(hx.Eq(enc(got), out), "the response is changed")
}

// opened checks the result of a generated streaming client method.
func opened(c *hx.Client, s *hx.Strm, strm any, isNil bool, err error, half bool) bool {
	if c.Err != nil {
		v.Assert(err == c.Err && isNil, "the error of the call is not returned")
		return false
	}
	if half && s.CloseSendErr != nil {
		v.Assert(err == s.CloseSendErr && isNil, "the error of the half close is not returned")
		return false
	}
	v.Assert(err == nil && !isNil, "a successful call fails")
	n := 0
	if half {
		n = 1
	}
	v.Assert(s.NCloseSend == n, "the send direction is closed wrongly")
	v.Assert(s.NSend == 0 && s.NRecv == 0 && s.NClose == 0, "opening a stream does something else to it")
	v.Assert(strm.(srpc.Stream).Context() == s.Context(), "the stream is another one")
	return true
}

// recvs checks Recv and RecvTo.
func recvs[T any, P ptr[T]](s *hx.Strm, a, b []byte, recv func() (P, error), recvTo func(P) error) {
	e := hx.AnErr("recv", "recv")
	s.In = append(s.In, append([]byte(nil), a...), append([]byte(nil), b...))
	s.InErr = e
	m, err := recv()
	v.Assert(err == nil && m != nil && hx.Eq(enc(m), a), "a message received is changed")
	t := P(new(T))
	v.Assert(recvTo(t) == nil && hx.Eq(enc(t), b), "a message received is changed")
	m, err = recv()
	v.Assert(err == e && m == nil, "the error of a receive is not returned")
	v.Assert(recvTo(t) == e, "the error of a receive is not returned")
	v.Assert(s.NRecv == 4, "a receive is not one receive of the stream")
}

// sends checks Send.
func sends[T any, P ptr[T]](s *hx.Strm, a []byte, send func(P) error) {
	k, n := s.NSend, len(s.Sent)
	v.Assert(send(dec[T, P](a)) == nil, "sending fails")
	v.Assert(s.NSend == k+1 && len(s.Sent) == n+1 && hx.Eq(s.Sent[n], a), "a message sent is changed")
	v.Assert(send(nil) == nil && s.NSend == k+1, "sending no message sends something")
	e := hx.AnErr("send", "send")
	s.SendErr = e
	v.Assert(send(dec[T, P](a)) == e, "the error of a send is not returned")
	s.SendErr = nil
	v.Assert(s.NCloseSend == 0 && s.NClose == 0, "sending closes the stream")
}

// closeRecvs checks CloseAndRecv.
func closeRecvs[T any, P ptr[T]](s *hx.Strm, a []byte, recv func() (P, error), strm any) {
	// the variant that receives into a message of the caller
	if x, ok := strm.(interface{ CloseAndMsgRecv(P) error }); ok && v.Choose("into", 2) == 1 {
		recv = func() (P, error) {
			m := P(new(T))
			if err := x.CloseAndMsgRecv(m); err != nil {
				return nil, err
			}
			return m, nil
		}
	}
	before := s.NCloseSend
	s.In = append(s.In, append([]byte(nil), a...))
	s.InErr = io.EOF
	switch v.Choose("fails", 3) {
	case 1:
		s.CloseSendErr = hx.AnErr("close", "close")
		m, err := recv()
		v.Assert(err == s.CloseSendErr && m == nil, "the error of the half close is not returned")
		return
	case 2:
		s.In, s.InErr = nil, hx.AnErr("recv", "recv")
		m, err := recv()
		v.Assert(err == s.InErr && m == nil, "the error of the receive is not returned")
		v.Assert(s.NCloseSend == before+1, "the send direction is not closed")
		return
	}
	m, err := recv()
	v.Assert(err == nil && m != nil && hx.Eq(enc(m), a), "the response is changed")
	v.Assert(s.NCloseSend == before+1 && s.NClose == 0, "the send direction is not closed exactly once")
}

// rec is what an implementation was asked to do.
type rec struct {
	n     int
	meth  string
	in    [][]byte
	ctx   context.Context
	err   error
	out   []byte
	outs  [][]byte
	nrecv int
	close bool // SendAndClose the last message
	empty bool // SendAndClose no message after the last one
	serr  error
}

func (r *rec) got(m string, ctx context.Context, in srpc.Message) {
	r.n++
	r.meth, r.ctx = m, ctx
	if in != nil {
		r.in = append(r.in, enc(in))
	}
}

func result[O any, PO ptr[O]](r *rec) (PO, error) {
	if r.err != nil {
		return nil, r.err
	}
	return dec[O, PO](r.out), nil
}

// pull receives with the typed methods.
func pull[T any, P ptr[T]](r *rec, recv func() (P, error), recvTo func(P) error) {
	for i := 0; i < r.nrecv; i++ {
		var m P
		var err error
		if i%2 == 0 {
			m, err = recv()
		} else {
			m = P(new(T))
			err = recvTo(m)
		}
		if err != nil {
			r.serr = err
			v.Assert(i%2 == 1 || m == nil, "a failed receive returns a message")
			return
		}
		r.in = append(r.in, enc(m))
	}
}

// push sends with the typed methods.
func push[T any, P ptr[T]](r *rec, send, sendAndClose func(P) error) {
	for i, o := range r.outs {
		m := dec[T, P](o)
		f := send
		if r.close && i == len(r.outs)-1 {
			f = sendAndClose
		}
		if err := f(m); err != nil {
			r.serr = err
			return
		}
	}
	if r.empty {
		if err := sendAndClose(nil); err != nil {
			r.serr = err
		}
	}
}

// Kinds of methods.
const (
	unary = iota
	clientStream
	serverStream
	bidi
)

// serve checks the generated handler of one method.
func serve(h srpc.Handler, r *rec, svc, id string, kind int, in, out [][]byte) {
	s := &hx.Strm{Ctx: newCtx(), InErr: io.EOF}
	for _, b := range in {
		s.In = append(s.In, append([]byte(nil), b...))
	}
	switch kind {
	case unary, serverStream:
		s.In = s.In[:1]
	}
	fails := v.Choose("servefails", 5)
	switch fails {
	case 1:
		r.err = hx.AnErr("impl", "impl")
	case 2:
		s.In, s.InErr = nil, hx.AnErr("recv", "recv")
	case 3:
		s.SendErr = hx.AnErr("send", "send")
	case 4:
		s.CloseSendErr = hx.AnErr("close", "close")
		if kind == unary || kind == clientStream {
			v.Assume(false)
		}
	}
	r.out, r.outs = out[0], out
	if fails == 3 && v.Choose("single", 2) == 1 {
		r.outs = out[:1]
	}
	if kind == clientStream || kind == bidi {
		r.nrecv = len(in)
	}
	if kind == serverStream || kind == bidi {
		switch v.Choose("sendandclose", 3) {
		case 0:
			r.close = fails == 4
		case 1:
			r.close = true
		case 2:
			r.empty = true
		}
	}
	found, err := h.InvokeMethod(svc, id, s)
	v.Assert(found, "a method of the service is not found")
	v.Assert(s.NClose == 0, "the handler closes the stream")
	if fails == 2 && (kind == unary || kind == serverStream) {
		v.Assert(r.n == 0, "the implementation is called without a request")
		v.Assert(err == s.InErr, "the error of a receive is not returned")
		v.Assert(s.NSend == 0, "something is sent without a request")
		return
	}
	v.Assert(r.n == 1, "the implementation is not called exactly once")
	v.Assert(r.meth == id, "another method of the implementation is called")
	v.Assert(r.ctx == s.Ctx, "the implementation gets another context")
	if fails == 2 {
		v.Assert(r.serr == s.InErr, "the error of a receive does not reach the implementation")
		return
	}
	want := in
	if kind == unary || kind == serverStream {
		want = in[:1]
	}
	v.Assert(len(r.in) == len(want), "the implementation does not get the messages received")
	for i := range want {
		v.Assert(hx.Eq(r.in[i], want[i]), "a message received is changed")
	}
	single := kind == unary || kind == clientStream
	switch fails {
	case 1:
		v.Assert(err == r.err, "the error of the implementation is not returned")
		v.Assert(!single || s.NSend == 0, "a response is sent despite the error")
		return
	case 3:
		if single {
			v.Assert(err == s.SendErr, "the error of a send is not returned")
		} else {
			v.Assert(r.serr == s.SendErr, "the error of a send does not reach the implementation")
		}
		return
	case 4:
		v.Assert(r.serr == s.CloseSendErr, "the error of a half close does not reach the implementation")
		return
	}
	v.Assert(err == nil, "a successful method fails")
	if single {
		v.Assert(len(s.Sent) == 1 && hx.Eq(s.Sent[0], out[0]), "the response is changed")
	} else {
		v.Assert(len(s.Sent) == len(out), "the messages sent are not those of the implementation")
		for i := range out {
			v.Assert(hx.Eq(s.Sent[i], out[i]), "a message sent is changed")
		}
		n := 0
		if r.close || r.empty {
			n = 1
		}
		v.Assert(s.NCloseSend == n, "the send direction is closed wrongly")
	}
}

// routes checks that a handler dispatches exactly its methods.
func routes(h srpc.Handler, reset func() *rec, svc string, ids []string) {
	v.Assert(h.GetServiceID() == svc, "the handler has another service id")
	got := h.GetMethodIDs()
	v.Assert(len(got) == len(ids), "the method list is not the set of methods")
	for _, id := range ids {
		k := 0
		for _, g := range got {
			if g == id {
				k++
			}
		}
		v.Assert(k == 1, "the method list is not the set of methods")
	}
	max := 0
	for _, id := range ids {
		if len(id) > max {
			max = len(id)
		}
	}
	// every method id
	n := v.Choose("midlen", max+3)
	m := v.String("mid", n)
	s := svc
	exact := v.Choose("svckind", 3)
	match := true
	switch exact {
	case 1:
		s = ""
	case 2:
		s = v.String("sid", len(svc)+v.Choose("sidlen", 3)-1)
		match = s == svc || s == ""
	}
	r := reset()
	r.err = &hx.Err{S: "impl"}
	strm := &hx.Strm{InErr: &hx.Err{S: "recv"}}
	known := ""
	for _, id := range ids {
		if m == id {
			known = id
		}
	}
	found, err := h.InvokeMethod(s, m, strm)
	if match && known != "" {
		v.Assert(found && err != nil, "a method of the service is not dispatched")
		v.Assert(r.n == 0 || r.meth == known, "another method is dispatched")
		v.Reach("dispatched")
	} else {
		v.Assert(!found && err == nil, "an unknown id pair is dispatched")
		v.Assert(r.n == 0 && strm.NRecv == 0 && strm.NSend == 0, "an unknown id pair has an effect")
		v.Reach("refused")
	}
}

// svcID is an overriding service id (empty: the default).
func svcID() string {
	return v.StringUpTo("override", 2)
}

func orDefault(id, def string) string {
	if id == "" {
		return def
	}
	return id
}
