package c28

import (
	"context"

	"github.com/aperturerobotics/starpc/echo"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

type zeta struct{ *rec }

func (z zeta) Unary(ctx context.Context, in *In) (*Out, error) {
	z.got("Unary", ctx, in)
	return result[Out](z.rec)
}

func (z zeta) ClientStream(s SRPCZeta_ClientStreamStream) (*Out, error) {
	z.got("client_stream", s.Context(), nil)
	pull(z.rec, s.Recv, s.RecvTo)
	return result[Out](z.rec)
}

func (z zeta) ServerStream(in *In, s SRPCZeta_ServerStreamStream) error {
	z.got("ServerStream", s.Context(), in)
	push(z.rec, s.Send, s.SendAndClose)
	return z.err
}

func (z zeta) Bidi(s SRPCZeta_BidiStream) error {
	z.got("bidi", s.Context(), nil)
	pull(z.rec, s.Recv, s.RecvTo)
	push(z.rec, s.Send, s.SendAndClose)
	return z.err
}

func (z zeta) Another(ctx context.Context, in *In) (*In, error) {
	z.got("Another", ctx, in)
	return result[In](z.rec)
}

func (z zeta) Unary2(ctx context.Context, in *Out) (*In, error) {
	z.got("Unary2", ctx, in)
	return result[In](z.rec)
}

func (z zeta) Imported(in *echo.EchoMsg, s SRPCZeta_ImportedStream) error {
	z.got("Imported", s.Context(), in)
	push(z.rec, s.Send, s.SendAndClose)
	return z.err
}

type zeta2 struct{ *rec }

func (z zeta2) Stream_It(s SRPCZeta__2_Stream__ItStream) error {
	z.got("Stream_It", s.Context(), nil)
	pull(z.rec, s.Recv, s.RecvTo)
	push(z.rec, s.Send, s.SendAndClose)
	return z.err
}

func (z zeta2) Unary(ctx context.Context, in *Out) (*Out, error) {
	z.got("Unary", ctx, in)
	return result[Out](z.rec)
}

type nopkg struct{ *rec }

func (z nopkg) Collect(s SRPCNopkg_CollectStream) (*In, error) {
	z.got("collect", s.Context(), nil)
	pull(z.rec, s.Recv, s.RecvTo)
	return result[In](z.rec)
}

type nothing struct{}

var (
	_ SRPCZetaServer    = zeta{}
	_ SRPCNothingServer = nothing{}
)

func msgs() (in, out [][]byte) {
	in = [][]byte{v.BytesUpTo("in", 2), v.Bytes("in", 1)}
	out = [][]byte{v.BytesUpTo("out", 2), v.Bytes("out", 1)}
	return
}

// H_gen_client: the generated client methods.
//
// sym: delays=0 paths=3000000 budget=300
func H_gen_client() {
	in, out := msgs()
	id := svcID()
	c, s := client()
	z := NewSRPCZetaClientWithServiceID(c, id)
	if v.Choose("default", 2) == 1 {
		z, id = NewSRPCZetaClient(c), ""
	}
	v.Assert(z.SRPCClient() == srpc.Client(c), "the underlying client is another one")
	svc := orDefault(id, "zz.gen.Zeta")
	ctx := newCtx()
	half := v.Choose("halffails", 2) == 1
	switch v.Choose("meth", 7) {
	case 0:
		unaryCall(c, svc, "Unary", in[0], out[0], z.Unary)
		v.Reach("unary")
	case 1:
		unaryCall(c, svc, "Another", in[0], out[0], z.Another)
	case 2:
		unaryCall(c, svc, "Unary2", in[0], out[0], z.Unary2)
	case 3:
		r, err := z.ClientStream(ctx)
		called(c, ctx, svc, "client_stream", false, nil)
		if opened(c, s, r, r == nil, err, false) {
			sends(s, in[0], r.Send)
			closeRecvs(s, out[0], r.CloseAndRecv, r)
			v.Reach("client stream")
		}
	case 4:
		if half {
			s.CloseSendErr = hx.AnErr("close", "close")
		}
		req := dec[In](in[0])
		r, err := z.ServerStream(ctx, req)
		called(c, ctx, svc, "ServerStream", false, req)
		if opened(c, s, r, r == nil, err, true) {
			recvs(s, out[0], out[1], r.Recv, r.RecvTo)
			v.Reach("server stream")
		}
	case 5:
		r, err := z.Bidi(ctx)
		called(c, ctx, svc, "bidi", false, nil)
		if opened(c, s, r, r == nil, err, false) {
			sends(s, in[0], r.Send)
			recvs(s, out[0], out[1], r.Recv, r.RecvTo)
			v.Reach("bidi")
		}
	case 6:
		e := enc(&echo.EchoMsg{Body: v.String("body", 2)})
		req := dec[echo.EchoMsg](e)
		r, err := z.Imported(ctx, req)
		called(c, ctx, svc, "Imported", false, req)
		if opened(c, s, r, r == nil, err, true) {
			recvs(s, e, e, r.Recv, r.RecvTo)
			v.Reach("imported")
		}
	}
}

// H_gen_client2: the other generated clients.
//
// sym: delays=0 paths=3000000 budget=300
func H_gen_client2() {
	in, out := msgs()
	id := svcID()
	c, s := client()
	ctx := newCtx()
	switch v.Choose("meth", 3) {
	case 0:
		z := NewSRPCZeta_2ClientWithServiceID(c, id)
		r, err := z.Stream_It(ctx)
		called(c, ctx, orDefault(id, "zz.gen.Zeta_2"), "Stream_It", false, nil)
		if opened(c, s, r, r == nil, err, false) {
			sends(s, in[0], r.Send)
			recvs(s, out[0], out[1], r.Recv, r.RecvTo)
			v.Reach("stream it")
		}
	case 1:
		unaryCall(c, orDefault(id, "zz.gen.Zeta_2"), "Unary", in[0], out[0], NewSRPCZeta_2ClientWithServiceID(c, id).Unary)
	case 2:
		z := NewSRPCNopkgClientWithServiceID(c, id)
		r, err := z.Collect(ctx)
		called(c, ctx, orDefault(id, "nopkg"), "collect", false, nil)
		if opened(c, s, r, r == nil, err, false) {
			sends(s, in[0], r.Send)
			closeRecvs(s, out[0], r.CloseAndRecv, r)
			v.Reach("collect")
		}
	}
}

// H_gen_server: the generated handlers.
//
// sym: delays=0 paths=3000000 budget=300
func H_gen_server() {
	in, out := msgs()
	r := &rec{}
	id := svcID()
	h := NewSRPCZetaHandler(zeta{r}, id)
	svc := orDefault(id, "zz.gen.Zeta")
	v.Assert(h.GetServiceID() == svc, "the handler has another service id")
	if v.Choose("nosvc", 2) == 1 {
		svc = ""
	}
	m := v.Choose("meth", 10)
	if m >= 7 {
		h = NewSRPCZeta_2Handler(zeta2{r}, id)
		svc = orDefault(id, "zz.gen.Zeta_2")
		if m == 9 {
			h = NewSRPCNopkgHandler(nopkg{r}, id)
			svc = orDefault(id, "nopkg")
		}
	}
	switch m {
	case 0:
		serve(h, r, svc, "Unary", unary, in, out)
	case 1:
		serve(h, r, svc, "client_stream", clientStream, in, out)
	case 2:
		serve(h, r, svc, "ServerStream", serverStream, in, out)
	case 3:
		serve(h, r, svc, "bidi", bidi, in, out)
	case 4:
		serve(h, r, svc, "Another", unary, in, out)
	case 5:
		serve(h, r, svc, "Unary2", unary, in, out)
	case 6:
		e := [][]byte{enc(&echo.EchoMsg{Body: v.String("body", 2)})}
		serve(h, r, svc, "Imported", serverStream, e, e)
	case 7:
		serve(h, r, svc, "Stream_It", bidi, in, out)
	case 8:
		serve(h, r, svc, "Unary", unary, in, out)
	case 9:
		serve(h, r, svc, "collect", clientStream, in, out)
	}
	v.Reach("served")
}

// H_gen_routes: exactly the methods of the service are dispatched.
//
// sym: delays=0 paths=3000000 budget=300
func H_gen_routes() {
	r := &rec{}
	reset := func() *rec { return r }
	switch v.Choose("svc", 3) {
	case 0:
		id := ""
		if v.Choose("over", 2) == 1 {
			id = "x"
		}
		routes(NewSRPCZetaHandler(zeta{r}, id), reset, orDefault(id, "zz.gen.Zeta"), []string{"Unary", "client_stream", "ServerStream", "bidi", "Another", "Unary2", "Imported"})
	case 1:
		routes(NewSRPCZeta_2Handler(zeta2{r}, ""), reset, "zz.gen.Zeta_2", []string{"Stream_It", "Unary"})
	case 2:
		routes(NewSRPCNopkgHandler(nopkg{r}, ""), reset, "nopkg", []string{"collect"})
	}
}

// H_gen_misc: registration helpers and a service without methods.
//
// sym: delays=0
func H_gen_misc() {
	h := NewSRPCNothingHandler(nothing{}, "")
	v.Assert(h.GetServiceID() == "zz.gen.Nothing" && len(h.GetMethodIDs()) == 0, "a service without methods has methods")
	found, err := h.InvokeMethod("zz.gen.Nothing", v.StringUpTo("m", 2), &hx.Strm{})
	v.Assert(!found && err == nil, "a service without methods dispatches one")
	mux := srpc.NewMux()
	r := &rec{}
	v.Assert(SRPCRegisterZeta(mux, zeta{r}) == nil, "registering fails")
	v.Assert(SRPCRegisterNopkg(mux, nopkg{r}) == nil, "registering fails")
	v.Assert(mux.HasServiceMethod("zz.gen.Zeta", "bidi") && mux.HasServiceMethod("nopkg", "collect"), "a registered service is missing")
	v.Assert(SRPCZetaServiceID == "zz.gen.Zeta" && SRPCZeta_2ServiceID == "zz.gen.Zeta_2" && SRPCNopkgServiceID == "nopkg", "a service id is wrong")
	in, out := v.Bytes("in", 1), v.Bytes("out", 1)
	serve(h2{mux}, r, "zz.gen.Zeta", "Unary", unary, [][]byte{in}, [][]byte{out})
	v.Reach("registered")
}

// h2 makes a handler of an invoker.
type h2 struct{ srpc.Invoker }

func (h2) GetServiceID() string   { return "" }
func (h2) GetMethodIDs() []string { return nil }
