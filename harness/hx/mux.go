package hx

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"

	"github.com/libp2p/go-libp2p/core/network"
)

// ErrMuxClosed is the error of operations of a closed connection.
var ErrMuxClosed = errors.New("session closed")

// MStrm is a stream of a multiplexed connection.
type MStrm struct {
	*End
	nreset int
}

func (s *MStrm) CloseWrite() error                { return nil }
func (s *MStrm) CloseRead() error                 { return nil }
func (s *MStrm) Reset() error                     { s.End.Drop(); return nil }
func (s *MStrm) SetDeadline(time.Time) error      { return nil }
func (s *MStrm) SetReadDeadline(time.Time) error  { return nil }
func (s *MStrm) SetWriteDeadline(time.Time) error { return nil }

// Mux is one side of a multiplexed connection.
type Mux struct {
	in    chan *MStrm
	done  chan struct{}
	once  sync.Once
	peer  *Mux
	buf   int
	mu    sync.Mutex
	strms []*MStrm
	nopen int
	ncl   int
	aerr  error
	ctxs  []context.Context
	// OpenErr is returned by OpenStream.
	OpenErr error
}

// MuxPair is a multiplexed connection; stream buffers are buf writes.
func MuxPair(buf int) (*Mux, *Mux) {
	a := &Mux{in: make(chan *MStrm, 4), done: make(chan struct{}), buf: buf}
	b := &Mux{in: make(chan *MStrm, 4), done: make(chan struct{}), buf: buf}
	a.peer, b.peer = b, a
	return a, b
}

// OpenStream opens a stream to the peer.
func (m *Mux) OpenStream(ctx context.Context) (network.MuxedStream, error) {
	m.mu.Lock()
	m.nopen++
	m.ctxs = append(m.ctxs, ctx)
	m.mu.Unlock()
	if m.OpenErr != nil {
		return nil, m.OpenErr
	}
	if m.IsClosed() {
		return nil, ErrMuxClosed
	}
	a, b := Pipe(m.buf)
	as, bs := &MStrm{End: a}, &MStrm{End: b}
	m.add(as)
	m.peer.add(bs)
	select {
	case m.peer.in <- bs:
		return as, nil
	case <-m.done:
		return nil, ErrMuxClosed
	}
}

func (m *Mux) add(s *MStrm) {
	m.mu.Lock()
	m.strms = append(m.strms, s)
	m.mu.Unlock()
}

// AcceptStream accepts a stream of the peer.
func (m *Mux) AcceptStream() (network.MuxedStream, error) {
	select {
	case s := <-m.in:
		return s, nil
	case <-m.done:
		m.mu.Lock()
		err := m.aerr
		m.mu.Unlock()
		if err == nil {
			err = ErrMuxClosed
		}
		return nil, err
	}
}

// IsClosed: the connection is closed.
func (m *Mux) IsClosed() bool {
	select {
	case <-m.done:
		return true
	default:
		return false
	}
}

// Break ends the connection on both sides; pending accepts of this side fail with err.
func (m *Mux) Break(err error) {
	m.mu.Lock()
	m.aerr = err
	m.mu.Unlock()
	m.drop()
	m.peer.drop()
}

func (m *Mux) drop() {
	m.once.Do(func() { close(m.done) })
	for _, s := range m.Streams() {
		s.Drop()
	}
}

// Close closes the connection.
func (m *Mux) Close() error {
	m.mu.Lock()
	m.ncl++
	m.mu.Unlock()
	m.drop()
	m.peer.drop()
	return nil
}

// Closed is the number of Close calls.
func (m *Mux) Closed() int {
	m.mu.Lock()
	defer m.mu.Unlock()
	return m.ncl
}

// Opened is the number of OpenStream calls and the context of the last one.
func (m *Mux) Opened() (int, context.Context) {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.nopen == 0 {
		return 0, nil
	}
	return m.nopen, m.ctxs[m.nopen-1]
}

// Streams is the streams of this side.
func (m *Mux) Streams() []*MStrm {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]*MStrm(nil), m.strms...)
}

var _ network.MuxedConn = (*Mux)(nil)
var _ network.MuxedStream = (*MStrm)(nil)

// ReadFrame reads one length-prefixed message from r.
func ReadFrame(r io.Reader) ([]byte, error) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	b := make([]byte, int(h[0])|int(h[1])<<8|int(h[2])<<16|int(h[3])<<24)
	_, err := io.ReadFull(r, b)
	return b, err
}
