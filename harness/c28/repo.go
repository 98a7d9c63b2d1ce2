package c28

import (
	"context"

	"github.com/aperturerobotics/protobuf-go-lite/types/known/emptypb"
	"github.com/aperturerobotics/starpc/echo"
	mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

type echoer struct{ *rec }

func (z echoer) Echo(ctx context.Context, in *echo.EchoMsg) (*echo.EchoMsg, error) {
	z.got("Echo", ctx, in)
	return result[echo.EchoMsg](z.rec)
}

func (z echoer) EchoServerStream(in *echo.EchoMsg, s echo.SRPCEchoer_EchoServerStreamStream) error {
	z.got("EchoServerStream", s.Context(), in)
	push(z.rec, s.Send, s.SendAndClose)
	return z.err
}

func (z echoer) EchoClientStream(s echo.SRPCEchoer_EchoClientStreamStream) (*echo.EchoMsg, error) {
	z.got("EchoClientStream", s.Context(), nil)
	pull(z.rec, s.Recv, s.RecvTo)
	return result[echo.EchoMsg](z.rec)
}

func (z echoer) EchoBidiStream(s echo.SRPCEchoer_EchoBidiStreamStream) error {
	z.got("EchoBidiStream", s.Context(), nil)
	pull(z.rec, s.Recv, s.RecvTo)
	push(z.rec, s.Send, s.SendAndClose)
	return z.err
}

func (z echoer) RpcStream(s echo.SRPCEchoer_RpcStreamStream) error {
	z.got("RpcStream", s.Context(), nil)
	pull(z.rec, s.Recv, s.RecvTo)
	push(z.rec, s.Send, s.SendAndClose)
	return z.err
}

func (z echoer) DoNothing(ctx context.Context, in *emptypb.Empty) (*emptypb.Empty, error) {
	z.got("DoNothing", ctx, in)
	return result[emptypb.Empty](z.rec)
}

type mocker struct{ *rec }

func (z mocker) MockRequest(ctx context.Context, in *mock.MockMsg) (*mock.MockMsg, error) {
	z.got("MockRequest", ctx, in)
	return result[mock.MockMsg](z.rec)
}

// bodies are encoded messages of the kind used by a method.
func bodies(label string) [][]byte {
	return [][]byte{
		enc(&echo.EchoMsg{Body: v.StringUpTo(label, 2)}),
		enc(&echo.EchoMsg{Body: v.String(label, 1)}),
	}
}

// H_repo_client: the generated clients of the repository.
//
// sym: delays=0 paths=3000000 budget=300
func H_repo_client() {
	in, out := bodies("in"), bodies("out")
	id := svcID()
	c, s := client()
	ctx := newCtx()
	z := echo.NewSRPCEchoerClientWithServiceID(c, id)
	if v.Choose("default", 2) == 1 {
		z, id = echo.NewSRPCEchoerClient(c), ""
	}
	v.Assert(z.SRPCClient() == srpc.Client(c), "the underlying client is another one")
	svc := orDefault(id, "echo.Echoer")
	half := v.Choose("halffails", 2) == 1
	switch v.Choose("meth", 7) {
	case 0:
		unaryCall(c, svc, "Echo", in[0], out[0], z.Echo)
		v.Reach("echo")
	case 1:
		if half {
			s.CloseSendErr = hx.AnErr("close", "close")
		}
		req := dec[echo.EchoMsg](in[0])
		r, err := z.EchoServerStream(ctx, req)
		called(c, ctx, svc, "EchoServerStream", false, req)
		if opened(c, s, r, r == nil, err, true) {
			recvs(s, out[0], out[1], r.Recv, r.RecvTo)
			v.Reach("server stream")
		}
	case 2:
		r, err := z.EchoClientStream(ctx)
		called(c, ctx, svc, "EchoClientStream", false, nil)
		if opened(c, s, r, r == nil, err, false) {
			sends(s, in[0], r.Send)
			closeRecvs(s, out[0], r.CloseAndRecv, r)
			v.Reach("client stream")
		}
	case 3:
		r, err := z.EchoBidiStream(ctx)
		called(c, ctx, svc, "EchoBidiStream", false, nil)
		if opened(c, s, r, r == nil, err, false) {
			sends(s, in[0], r.Send)
			recvs(s, out[0], out[1], r.Recv, r.RecvTo)
			v.Reach("bidi")
		}
	case 4:
		a, b := hx.RData(v.Bytes("p", 1)), hx.RAck(v.String("p", 1))
		r, err := z.RpcStream(ctx)
		called(c, ctx, svc, "RpcStream", false, nil)
		if opened(c, s, r, r == nil, err, false) {
			sends(s, a, r.Send)
			recvs(s, b, a, r.Recv, r.RecvTo)
			v.Reach("rpc stream")
		}
	case 5:
		unaryCall(c, svc, "DoNothing", nil, nil, z.DoNothing)
	case 6:
		svc = orDefault(id, "e2e.mock.Mock")
		m := mock.NewSRPCMockClientWithServiceID(c, id)
		unaryCall(c, svc, "MockRequest", enc(&mock.MockMsg{Body: v.String("b", 1)}), enc(&mock.MockMsg{Body: v.StringUpTo("b", 2)}), m.MockRequest)
		v.Reach("mock")
	}
}

// H_repo_server: the generated handlers of the repository.
//
// sym: delays=0 paths=3000000 budget=300
func H_repo_server() {
	in, out := bodies("in"), bodies("out")
	r := &rec{}
	id := svcID()
	h := echo.NewSRPCEchoerHandler(echoer{r}, id)
	svc := orDefault(id, "echo.Echoer")
	m := v.Choose("meth", 7)
	if m == 6 {
		h = mock.NewSRPCMockHandler(mocker{r}, id)
		svc = orDefault(id, "e2e.mock.Mock")
	}
	v.Assert(h.GetServiceID() == svc, "the handler has another service id")
	switch m {
	case 0:
		serve(h, r, svc, "Echo", unary, in, out)
	case 1:
		serve(h, r, svc, "EchoServerStream", serverStream, in, out)
	case 2:
		serve(h, r, svc, "EchoClientStream", clientStream, in, out)
	case 3:
		serve(h, r, svc, "EchoBidiStream", bidi, in, out)
	case 4:
		a := [][]byte{hx.RInit("c"), hx.RData(v.Bytes("p", 1))}
		serve(h, r, svc, "RpcStream", bidi, a, a)
	case 5:
		serve(h, r, svc, "DoNothing", unary, [][]byte{nil}, [][]byte{nil})
	case 6:
		b := [][]byte{enc(&mock.MockMsg{Body: v.String("b", 1)})}
		serve(h, r, svc, "MockRequest", unary, b, b)
	}
	v.Reach("served")
}

// H_repo_routes: exactly the methods of the services of the repository are dispatched.
//
// sym: delays=0 paths=3000000 budget=300
func H_repo_routes() {
	r := &rec{}
	reset := func() *rec { return r }
	if v.Choose("svc", 2) == 0 {
		routes(echo.NewSRPCEchoerHandler(echoer{r}, ""), reset, "echo.Echoer", []string{"Echo", "EchoServerStream", "EchoClientStream", "EchoBidiStream", "RpcStream", "DoNothing"})
	} else {
		routes(mock.NewSRPCMockHandler(mocker{r}, ""), reset, "e2e.mock.Mock", []string{"MockRequest"})
	}
	mux := srpc.NewMux()
	v.Assert(echo.SRPCRegisterEchoer(mux, echoer{r}) == nil && mock.SRPCRegisterMock(mux, mocker{r}) == nil, "registering fails")
	v.Assert(mux.HasServiceMethod("echo.Echoer", "EchoBidiStream") && mux.HasServiceMethod("e2e.mock.Mock", "MockRequest"), "a registered service is missing")
}

var _ rpcstream.RpcStream = (echo.SRPCEchoer_RpcStreamStream)(nil)
