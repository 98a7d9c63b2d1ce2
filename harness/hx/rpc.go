package hx

import (
	"context"
	"io"
	"sync"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// RS is a scripted rpc stream which records what is done with it.
type RS struct {
	ctx    context.Context
	cancel context.CancelFunc
	in     chan []byte
	end    error
	done   chan struct{}
	once   sync.Once

	mu                 sync.Mutex
	sent               [][]byte
	nclose, nclosesend int
	failed             bool
	n                  int
	// Fail decides whether the i-th send fails.
	Fail func(i int) error
	// OnSend is called with each packet sent.
	OnSend func(i int, b []byte)
	// Block: sends block until the stream is closed.
	Block bool
}

// NewRS constructs a stream delivering the packets and then end (blocking until closed if nil).
func NewRS(ctx context.Context, end error, pkts ...[]byte) *RS {
	r := &RS{in: make(chan []byte, len(pkts)+4), end: end, done: make(chan struct{})}
	r.ctx, r.cancel = context.WithCancel(ctx)
	for _, p := range pkts {
		r.in <- p
	}
	if end != nil {
		close(r.in)
	}
	return r
}

// Push delivers one more packet (only if end is nil).
func (r *RS) Push(b []byte) { r.in <- b }

// Context returns the context.
func (r *RS) Context() context.Context { return r.ctx }

// Drop ends the stream as the transport would.
func (r *RS) Drop() { r.once.Do(func() { close(r.done) }) }

// MsgSend records the message.
func (r *RS) MsgSend(m srpc.Message) error {
	b, err := m.MarshalVT()
	if err != nil {
		return err
	}
	b = append([]byte(nil), b...)
	select {
	case <-r.done:
		return io.ErrClosedPipe
	default:
	}
	if r.Block {
		<-r.done
		return io.ErrClosedPipe
	}
	r.mu.Lock()
	i := r.n
	r.n++
	if r.Fail != nil {
		if err := r.Fail(i); err != nil {
			r.mu.Unlock()
			return err
		}
	}
	r.sent = append(r.sent, b)
	r.mu.Unlock()
	if r.OnSend != nil {
		r.OnSend(i, b)
	}
	return nil
}

// MsgRecv receives the next message.
func (r *RS) MsgRecv(m srpc.Message) error {
	select {
	case b, ok := <-r.in:
		return r.got(m, b, ok)
	default:
	}
	select {
	case <-r.done:
		return context.Canceled
	case <-r.ctx.Done():
		return context.Canceled
	case b, ok := <-r.in:
		return r.got(m, b, ok)
	}
}

func (r *RS) got(m srpc.Message, b []byte, ok bool) error {
	if !ok {
		r.mu.Lock()
		r.failed = r.failed || r.nclose == 0 && r.end != io.EOF
		r.mu.Unlock()
		return r.end
	}
	buf := append([]byte(nil), b...)
	err := m.UnmarshalVT(buf)
	// the transport reuses its buffer
	if _, raw := m.(*srpc.RawMessage); raw {
		for i := range buf {
			buf[i] ^= 0xff
		}
	}
	return err
}

// Send sends a packet.
func (r *RS) Send(p *rpcstream.RpcStreamPacket) error { return r.MsgSend(p) }

// Recv receives a packet.
func (r *RS) Recv() (*rpcstream.RpcStreamPacket, error) {
	p := &rpcstream.RpcStreamPacket{}
	if err := r.MsgRecv(p); err != nil {
		return nil, err
	}
	return p, nil
}

// CloseSend records the half close.
func (r *RS) CloseSend() error {
	r.mu.Lock()
	r.nclosesend++
	r.mu.Unlock()
	return nil
}

// Close closes the stream.
func (r *RS) Close() error {
	r.mu.Lock()
	r.nclose++
	r.mu.Unlock()
	r.Drop()
	r.cancel()
	return nil
}

// Sent is the list of packets sent so far.
func (r *RS) Sent() [][]byte {
	r.mu.Lock()
	defer r.mu.Unlock()
	return append([][]byte(nil), r.sent...)
}

// Failed: a receive failed, other than with the end of the stream, before the first close.
func (r *RS) Failed() bool {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.failed
}

// Closed is the number of closes and half closes.
func (r *RS) Closed() (int, int) {
	r.mu.Lock()
	defer r.mu.Unlock()
	return r.nclose, r.nclosesend
}

var _ rpcstream.RpcStream = (*RS)(nil)

func encR(p *rpcstream.RpcStreamPacket) []byte {
	b, err := p.MarshalVT()
	if err != nil {
		v.Fail("encoding a packet failed: " + err.Error())
	}
	return b
}

// RInit is an encoded init packet.
func RInit(id string) []byte {
	return encR(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: id}}})
}

// RAck is an encoded ack packet.
func RAck(e string) []byte {
	return encR(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: e}}})
}

// RData is an encoded data packet.
func RData(b []byte) []byte {
	return encR(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: b}})
}

// RDec decodes an rpcstream packet.
func RDec(b []byte) *rpcstream.RpcStreamPacket {
	p := &rpcstream.RpcStreamPacket{}
	if err := p.UnmarshalVT(b); err != nil {
		v.Fail("an undecodable rpcstream packet was sent: " + err.Error())
	}
	return p
}
