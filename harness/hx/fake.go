package hx

import (
	"context"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// Hnd is a handler of one service.
type Hnd struct {
	ID    int
	Svc   string
	Meths []string
	N     int
	Fn    func(svc, meth string, strm srpc.Stream) (bool, error)
}

func (h *Hnd) GetServiceID() string   { return h.Svc }
func (h *Hnd) GetMethodIDs() []string { return h.Meths }
func (h *Hnd) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	h.N++
	if h.Fn != nil {
		return h.Fn(svc, meth, strm)
	}
	return true, nil
}

// Client is a client that records its calls.
type Client struct {
	N         int
	Ctx       context.Context
	Svc, Meth string
	In, Out   srpc.Message
	Exec      bool
	Err       error
	Strm      srpc.Stream
	Fn        func() error
}

func (c *Client) rec(ctx context.Context, svc, meth string, in, out srpc.Message, exec bool) error {
	c.N++
	c.Ctx, c.Svc, c.Meth, c.In, c.Out, c.Exec = ctx, svc, meth, in, out, exec
	if c.Fn != nil {
		return c.Fn()
	}
	return c.Err
}

// ExecCall records the call.
func (c *Client) ExecCall(ctx context.Context, svc, meth string, in, out srpc.Message) error {
	return c.rec(ctx, svc, meth, in, out, true)
}

// NewStream records the call.
func (c *Client) NewStream(ctx context.Context, svc, meth string, first srpc.Message) (srpc.Stream, error) {
	if err := c.rec(ctx, svc, meth, first, nil, false); err != nil {
		return nil, err
	}
	return c.Strm, nil
}

// Strm is a stream that records what is done with it.
type Strm struct {
	Ctx                                  context.Context
	Sent                                 [][]byte
	In                                   [][]byte
	InErr                                error
	NSend, NRecv, NCloseSend, NClose     int
	SendErr, CloseSendErr, CloseErr      error
	OnClose                              func()
	LastMsg                              srpc.Message
	SentAfterCloseSend, CallsAfterClosed int
}

// Context returns the context.
func (s *Strm) Context() context.Context {
	if s.Ctx == nil {
		return context.Background()
	}
	return s.Ctx
}

// MsgSend records the message.
func (s *Strm) MsgSend(m srpc.Message) error {
	s.NSend++
	s.LastMsg = m
	if s.NCloseSend > 0 {
		s.SentAfterCloseSend++
	}
	if s.NClose > 0 {
		s.CallsAfterClosed++
	}
	if s.SendErr != nil {
		return s.SendErr
	}
	b, err := m.MarshalVT()
	if err != nil {
		return err
	}
	s.Sent = append(s.Sent, b)
	return nil
}

// MsgRecv returns the next scripted message.
func (s *Strm) MsgRecv(m srpc.Message) error {
	s.NRecv++
	s.LastMsg = m
	if len(s.In) == 0 {
		if s.InErr == nil {
			v.Fail("a read beyond the script")
		}
		return s.InErr
	}
	b := s.In[0]
	s.In = s.In[1:]
	return m.UnmarshalVT(b)
}

// CloseSend records the half close.
func (s *Strm) CloseSend() error { s.NCloseSend++; return s.CloseSendErr }

// Close records the close.
func (s *Strm) Close() error {
	s.NClose++
	if s.OnClose != nil {
		s.OnClose()
	}
	return s.CloseErr
}

var _ srpc.Stream = (*Strm)(nil)
