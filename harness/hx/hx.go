// Package hx holds the fakes shared by the harnesses: scripted transports, recording
// packet writers, messages and streams. It uses only exported API of the code under test.
package hx

import (
	"context"
	"errors"
	"io"
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// Err is an error value with a text.
type Err struct{ S string }

func (e *Err) Error() string { return e.S }

// WErr wraps an error.
type WErr struct{ E error }

func (e *WErr) Error() string { return "wrapped: " + e.E.Error() }
func (e *WErr) Unwrap() error { return e.E }

// NErr is the number of errors AnErr chooses among.
const NErr = 9

// AnErr is any of: an error of its own, and the sentinel errors code might single out,
// bare or wrapped.
func AnErr(label, s string) error {
	switch v.Choose(label, NErr) {
	case 1:
		return io.EOF
	case 2:
		return context.Canceled
	case 3:
		return context.DeadlineExceeded
	case 4:
		return srpc.ErrUnimplemented
	case 5:
		return srpc.ErrCompleted
	case 6:
		return io.ErrClosedPipe
	case 7:
		return &WErr{E: context.Canceled}
	case 8:
		return &WErr{E: io.EOF}
	}
	return &Err{S: s}
}

// AFailure is an error other than end-of-stream.
func AFailure(label, s string) error {
	if e := AnErr(label, s); !errors.Is(e, io.EOF) {
		return e
	}
	v.Assume(false)
	return nil
}

// Ctx is a context whose end the harness decides.
type Ctx struct {
	context.Context
	mu   sync.Mutex
	done chan struct{}
	err  error
}

// NewCtx constructs a context which is not done.
func NewCtx() *Ctx { return &Ctx{Context: context.Background(), done: make(chan struct{})} }

// Done and Err are those of context.Context.
func (c *Ctx) Done() <-chan struct{} { return c.done }
func (c *Ctx) Err() error {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.err
}

// End ends the context with an error.
func (c *Ctx) End(err error) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.err == nil {
		c.err = err
		close(c.done)
	}
}

// Eq compares contents.
func Eq(a, b []byte) bool { return string(a) == string(b) }

// Msg is an application message of arbitrary bytes.
type Msg struct {
	B            []byte
	MErr, UErr   error
	NMar, NUnmar int
}

// M is a message with content b.
func M(b []byte) *Msg { return &Msg{B: b} }

// Reset clears the content.
func (m *Msg) Reset() { m.B = nil }

func (m *Msg) SizeVT() int { return len(m.B) }
func (m *Msg) MarshalToSizedBufferVT(d []byte) (int, error) {
	if m.MErr != nil {
		return 0, m.MErr
	}
	if len(d) < len(m.B) {
		return 0, io.ErrShortBuffer
	}
	copy(d[len(d)-len(m.B):], m.B)
	return len(m.B), nil
}
func (m *Msg) MarshalVT() ([]byte, error) {
	m.NMar++
	if m.MErr != nil {
		return nil, m.MErr
	}
	return append([]byte(nil), m.B...), nil
}
func (m *Msg) UnmarshalVT(d []byte) error {
	m.NUnmar++
	if m.UErr != nil {
		return m.UErr
	}
	m.B = append([]byte(nil), d...)
	return nil
}

// Kinds of packets.
const (
	None = iota
	Start
	Data
	Cancel
)

// Pkt is the content of a packet.
type Pkt struct {
	Kind            int
	Service, Method string
	Data            []byte
	Zero            bool
	Complete        bool
	Err             string
	Flag            bool
}

// Copy copies the content of a packet.
func Copy(p *srpc.Packet) *Pkt {
	switch b := p.GetBody().(type) {
	case *srpc.Packet_CallStart:
		c := b.CallStart
		return &Pkt{Kind: Start, Service: c.GetRpcService(), Method: c.GetRpcMethod(), Data: append([]byte(nil), c.GetData()...), Zero: c.GetDataIsZero()}
	case *srpc.Packet_CallData:
		c := b.CallData
		return &Pkt{Kind: Data, Data: append([]byte(nil), c.GetData()...), Zero: c.GetDataIsZero(), Complete: c.GetComplete(), Err: c.GetError()}
	case *srpc.Packet_CallCancel:
		return &Pkt{Kind: Cancel, Flag: b.CallCancel}
	}
	return &Pkt{}
}

// HasMsg: the packet carries a message.
func (p *Pkt) HasMsg() bool {
	return (p.Kind == Start || p.Kind == Data) && (len(p.Data) != 0 || p.Zero)
}

// PW is a packet writer that records what is written.
type PW struct {
	mu         sync.Mutex
	Pkts       []*Pkt
	NClose     int
	AfterClose int
	Fail       func(i int) error
	OnWrite    func(p *Pkt)
	OnClose    func()
	CloseErr   error
	n          int
}

func (w *PW) WritePacket(p *srpc.Packet) error {
	c := Copy(p)
	w.mu.Lock()
	i := w.n
	w.n++
	if w.NClose != 0 {
		w.AfterClose++
	}
	var err error
	if w.Fail != nil {
		err = w.Fail(i)
	}
	if err == nil {
		w.Pkts = append(w.Pkts, c)
	}
	w.mu.Unlock()
	if err == nil && w.OnWrite != nil {
		w.OnWrite(c)
	}
	return err
}

func (w *PW) Close() error {
	w.mu.Lock()
	w.NClose++
	first := w.NClose == 1
	w.mu.Unlock()
	if first && w.OnClose != nil {
		w.OnClose()
	}
	return w.CloseErr
}

// Closed is the number of Close calls.
func (w *PW) Closed() int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.NClose
}

// Snapshot is the list of packets written so far.
func (w *PW) Snapshot() []*Pkt {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*Pkt(nil), w.Pkts...)
}

// Chunk is the outcome of one or more reads.
type Chunk struct {
	B   []byte
	Err error
}

// RW is a scripted byte stream.
type RW struct {
	In      []Chunk
	Out     []byte
	NRead   int
	NWrite  int
	NClose  int
	WriteFn func(i int, p []byte) (int, error)
	// BlockAtEnd: reads block (until Close) when the script is exhausted.
	BlockAtEnd bool
	mu         sync.Mutex
	once       sync.Once
	done       chan struct{}
}

// NewRW builds a scripted stream.
func NewRW(in ...Chunk) *RW { return &RW{In: in, done: make(chan struct{})} }

// ErrClosed is returned by reads of a closed stream.
var ErrClosed = errors.New("stream closed")

func (r *RW) Read(p []byte) (int, error) {
	r.NRead++
	if len(r.In) == 0 {
		if r.BlockAtEnd {
			<-r.done
			return 0, ErrClosed
		}
		return 0, io.EOF
	}
	c := &r.In[0]
	n := copy(p, c.B)
	c.B = c.B[n:]
	if len(c.B) == 0 {
		err := c.Err
		r.In = r.In[1:]
		return n, err
	}
	return n, nil
}

func (r *RW) Write(p []byte) (int, error) {
	i := r.NWrite
	r.NWrite++
	if r.WriteFn != nil {
		n, err := r.WriteFn(i, p)
		r.Out = append(r.Out, p[:n]...)
		return n, err
	}
	r.Out = append(r.Out, p...)
	return len(p), nil
}

func (r *RW) Close() error {
	r.mu.Lock()
	r.NClose++
	r.mu.Unlock()
	r.once.Do(func() { close(r.done) })
	return nil
}

// Frame is the length-prefixed encoding of b.
func Frame(b []byte) []byte {
	n := len(b)
	o := []byte{byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}
	return append(o, b...)
}

// Enc encodes a packet.
func Enc(p *srpc.Packet) []byte {
	b, err := p.MarshalVT()
	if err != nil {
		v.Fail("encoding a packet failed: " + err.Error())
	}
	return b
}

// Pipe is a pair of connected byte streams with a buffer of n writes per direction.
func Pipe(n int) (*End, *End) {
	ab, ba := make(chan []byte, n), make(chan []byte, n)
	da, db := make(chan struct{}), make(chan struct{})
	return &End{in: ba, out: ab, done: da, peer: db}, &End{in: ab, out: ba, done: db, peer: da}
}

// End is one end of a pipe.
type End struct {
	in, out    chan []byte
	done, peer chan struct{}
	once       sync.Once
	rest       []byte
	// NClose counts Close calls (valid once the stream is quiescent).
	mu     sync.Mutex
	nclose int
}

func (e *End) Read(p []byte) (int, error) {
	if len(e.rest) == 0 {
		select {
		case <-e.done:
			return 0, io.ErrClosedPipe
		case b := <-e.in:
			e.rest = b
		case <-e.peer:
			// data written before the close comes first
			select {
			case b := <-e.in:
				e.rest = b
			default:
				return 0, io.EOF
			}
		}
	}
	n := copy(p, e.rest)
	e.rest = e.rest[n:]
	return n, nil
}

func (e *End) Write(p []byte) (int, error) {
	select {
	case <-e.done:
		return 0, io.ErrClosedPipe
	default:
	}
	select {
	case e.out <- append([]byte(nil), p...):
		return len(p), nil
	case <-e.done:
		return 0, io.ErrClosedPipe
	case <-e.peer:
		return 0, io.ErrClosedPipe
	}
}

func (e *End) Close() error {
	e.mu.Lock()
	e.nclose++
	e.mu.Unlock()
	e.once.Do(func() { close(e.done) })
	return nil
}

// Drop ends this side as the transport would.
func (e *End) Drop() { e.once.Do(func() { close(e.done) }) }

// Closed is the number of Close calls.
func (e *End) Closed() int {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.nclose
}

// Inv is an invoker that records calls.
type Inv struct {
	mu    sync.Mutex
	N     int
	Svc   string
	Meth  string
	Strm  srpc.Stream
	Fn    func(svc, meth string, strm srpc.Stream) (bool, error)
	Found bool
	Err   error
}

func (i *Inv) InvokeMethod(svc, meth string, strm srpc.Stream) (bool, error) {
	i.mu.Lock()
	i.N++
	i.Svc, i.Meth, i.Strm = svc, meth, strm
	i.mu.Unlock()
	if i.Fn != nil {
		return i.Fn(svc, meth, strm)
	}
	return i.Found, i.Err
}

// Count is the number of invocations so far.
func (i *Inv) Count() int {
	i.mu.Lock()
	defer i.mu.Unlock()
	return i.N
}

// NullStream is a stream on which nothing may be called.
type NullStream struct{ ID int }

func (s *NullStream) Context() context.Context     { return context.Background() }
func (s *NullStream) MsgSend(m srpc.Message) error { v.Fail("unexpected MsgSend"); return nil }
func (s *NullStream) MsgRecv(m srpc.Message) error { v.Fail("unexpected MsgRecv"); return nil }
func (s *NullStream) CloseSend() error             { v.Fail("unexpected CloseSend"); return nil }
func (s *NullStream) Close() error                 { v.Fail("unexpected Close"); return nil }

var _ srpc.Stream = (*NullStream)(nil)

// Conn is a client connected to a server by one pipe per call.
type Conn struct {
	Srv    *srpc.Server
	Client srpc.Client
	// SrvCtx is the context of the server if it is not the one of the client's call.
	SrvCtx context.Context
	mu     sync.Mutex
	cl, sv []*End
	buf    int
}

// NewConn connects a client to a server invoking inv.
func NewConn(inv srpc.Invoker, buf int) *Conn {
	c := &Conn{Srv: srpc.NewServer(inv), buf: buf}
	c.Client = srpc.NewClient(c.Open)
	return c
}

// Open opens the stream of one call.
func (c *Conn) Open(ctx context.Context, h srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
	a, b := Pipe(c.buf)
	c.mu.Lock()
	c.cl, c.sv = append(c.cl, a), append(c.sv, b)
	c.mu.Unlock()
	if c.SrvCtx != nil {
		ctx = c.SrvCtx
	}
	go c.Srv.HandleStream(ctx, b)
	prw := srpc.NewPacketReadWriter(a)
	go prw.ReadPump(h, ch)
	return prw, nil
}

// Streams is the client and server ends of the calls opened so far.
func (c *Conn) Streams() ([]*End, []*End) {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]*End(nil), c.cl...), append([]*End(nil), c.sv...)
}

// NopPW is a packet writer without state (and without synchronisation).
type NopPW struct{}

func (NopPW) WritePacket(p *srpc.Packet) error { return nil }
func (NopPW) Close() error                     { return nil }
