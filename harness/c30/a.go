// Package c30: connections are set up with opposite roles, independently, and torn down.
//
// bound: up to 3 connections per listener, each failing to be set up, breaking at once, staying open with a running call, or ending, in every order; the listener failing, the error channel firing or the context cancelled before, between and after them, delay bound 1 (thorough 2); HTTP request and configured paths of up to 2 symbolic bytes.
// assume: TCP, yamux and WebSocket are stand-ins which record the roles and connections they are given (net.Dial, net.Listen, yamux.Client, yamux.Server, websocket.Accept, websocket.NetConn): a yamux session calls and accepts only if its two sides have opposite roles, its accept returns after its close, and a listener's accept returns after its close. Replayed in the executor only.
package c30

import (
	"context"
	"errors"
	"io"
	"net"
	"net/http"
	"net/url"
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
	"github.com/coder/websocket"
	"github.com/libp2p/go-libp2p/core/network"
	"github.com/libp2p/go-yamux/v4"
)

// nconn is a connection.
type nconn struct {
	net.Conn
	mu   sync.Mutex
	ncl  int
	fail bool // no session can be set up
	ws   *websocket.Conn
	ctx  context.Context
}

func (c *nconn) Close() error {
	c.mu.Lock()
	c.ncl++
	c.mu.Unlock()
	return nil
}
func (c *nconn) closed() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.ncl
}

// session is a multiplexer session set up.
type session struct {
	conn   net.Conn
	client bool
	conf   *yamux.Config
	s      *yamux.Session
	mine   *hx.Mux
	peer   *hx.Mux
}

// world is what the code under test set up.
type world struct {
	mu    sync.Mutex
	sess  []*session
	ws    []*websocket.Conn
	wsCl  map[*websocket.Conn]int
	nacc  int
	accOK bool
}

var errSetup = errors.New("set up failed")

func newWorld() *world {
	w := &world{accOK: true, wsCl: map[*websocket.Conn]int{}}
	setup := func(c net.Conn, conf *yamux.Config, client bool) (*yamux.Session, error) {
		if n, ok := c.(*nconn); ok && n.fail {
			return nil, errSetup
		}
		s := &session{conn: c, client: client, conf: conf, s: &yamux.Session{}}
		s.mine, s.peer = hx.MuxPair(3)
		w.mu.Lock()
		w.sess = append(w.sess, s)
		w.mu.Unlock()
		return s.s, nil
	}
	v.Stub("github.com/libp2p/go-yamux/v4.Client", func(c net.Conn, conf *yamux.Config, mm func() (yamux.MemoryManager, error)) (*yamux.Session, error) {
		return setup(c, conf, true)
	})
	v.Stub("github.com/libp2p/go-yamux/v4.Server", func(c net.Conn, conf *yamux.Config, mm func() (yamux.MemoryManager, error)) (*yamux.Session, error) {
		return setup(c, conf, false)
	})
	v.Stub("github.com/libp2p/go-libp2p/p2p/muxer/yamux.NewMuxedConn", func(s *yamux.Session) network.MuxedConn {
		for _, e := range w.sessions() {
			if e.s == s {
				return e.mine
			}
		}
		v.Fail("a session which was not set up is used")
		return nil
	})
	v.Stub("github.com/coder/websocket.Accept", func(rw http.ResponseWriter, r *http.Request, o *websocket.AcceptOptions) (*websocket.Conn, error) {
		w.mu.Lock()
		defer w.mu.Unlock()
		w.nacc++
		if !w.accOK {
			return nil, errSetup
		}
		c := &websocket.Conn{}
		w.ws = append(w.ws, c)
		return c, nil
	})
	v.Stub("github.com/coder/websocket.NetConn", func(ctx context.Context, c *websocket.Conn, t websocket.MessageType) net.Conn {
		v.Assert(t == websocket.MessageBinary, "packets are sent as text")
		return &nconn{ws: c, ctx: ctx}
	})
	v.Stub("(*github.com/coder/websocket.Conn).Close", func(c *websocket.Conn, code websocket.StatusCode, reason string) error { return w.wsClose(c) })
	v.Stub("(*github.com/coder/websocket.Conn).CloseNow", func(c *websocket.Conn) error { return w.wsClose(c) })
	return w
}

func (w *world) wsClose(c *websocket.Conn) error {
	w.mu.Lock()
	w.wsCl[c]++
	w.mu.Unlock()
	return nil
}

func (w *world) sessions() []*session {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]*session(nil), w.sess...)
}

func (w *world) of(c net.Conn) *session {
	for _, s := range w.sessions() {
		if s.conn == c {
			return s
		}
	}
	return nil
}

// only is the only session.
func (w *world) only() *session {
	l := w.sessions()
	v.Assert(len(l) == 1, "not exactly one session is set up")
	return l[0]
}

// lis is a listener.
type lis struct {
	in   chan net.Conn
	done chan struct{}
	once sync.Once
	mu   sync.Mutex
	err  error
	ncl  int
}

func newLis() *lis { return &lis{in: make(chan net.Conn, 4), done: make(chan struct{})} }

var errLisClosed = errors.New("listener closed")

func (l *lis) Accept() (net.Conn, error) {
	select {
	case c := <-l.in:
		return c, nil
	default:
	}
	select {
	case c := <-l.in:
		return c, nil
	case <-l.done:
		l.mu.Lock()
		defer l.mu.Unlock()
		if l.err != nil {
			return nil, l.err
		}
		return nil, errLisClosed
	}
}
func (l *lis) Close() error {
	l.mu.Lock()
	l.ncl++
	l.mu.Unlock()
	l.once.Do(func() { close(l.done) })
	return nil
}
func (l *lis) breaks(err error) {
	l.mu.Lock()
	l.err = err
	l.mu.Unlock()
	l.once.Do(func() { close(l.done) })
}
func (l *lis) closed() int {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.ncl
}
func (l *lis) Addr() net.Addr { return &net.TCPAddr{} }

// echo answers every call with its request; calls to "hold" run until they are cancelled.
func echo() *hx.Inv {
	return &hx.Inv{Fn: func(svc, meth string, strm srpc.Stream) (bool, error) {
		m := hx.M(nil)
		if err := strm.MsgRecv(m); err != nil {
			return true, err
		}
		if svc == "hold" {
			<-strm.Context().Done()
			return true, context.Canceled
		}
		return true, strm.MsgSend(m)
	}}
}

// call makes a call from the other side of a served connection.
func call(s *session, svc string) io.ReadWriteCloser {
	st, err := s.peer.OpenStream(context.Background())
	if err != nil {
		v.Fail("a served connection is closed")
		return nil
	}
	_, _ = st.Write(hx.Frame(hx.Enc(srpc.NewCallStartPacket(svc, "m", []byte{7}, false))))
	return st
}

// served checks that the other side of s gets its calls answered.
func served(s *session) {
	st := call(s, "svc")
	b, err := hx.ReadFrame(st)
	p := &srpc.Packet{}
	v.Assert(err == nil && p.UnmarshalVT(b) == nil && hx.Eq(hx.Copy(p).Data, []byte{7}), "an accepted connection is not served")
	for err == nil { // (until the call has ended)
		_, err = hx.ReadFrame(st)
	}
	_ = st.Close()
}

// H_dial: the dialing side.
//
// sym: delays=2 delays@thorough=3 native=0 selcost=1
func H_dial() {
	w := newWorld()
	addr := v.StringUpTo("addr", 1)
	var derr error
	if v.Bool("fails") {
		derr = errSetup
	}
	c := &nconn{}
	n := 0
	v.Stub("net.Dial", func(network, a string) (net.Conn, error) {
		n++
		v.Assert(network == "tcp" && a == addr, "another address is dialed")
		if derr != nil {
			return nil, derr
		}
		return c, nil
	})
	cl, err := srpc.Dial(addr)
	v.Assert(n == 1, "the address is not dialed exactly once")
	if derr != nil {
		v.Assert(err == derr && cl == nil, "a failure to dial is not returned")
		v.Assert(len(w.sessions()) == 0, "a session is set up without connection")
		v.Reach("failed")
		return
	}
	v.Assert(err == nil && cl != nil, "dialing fails")
	s := w.only()
	v.Assert(s.conn == net.Conn(c), "the session uses another connection")
	v.Assert(s.client, "the dialing side is not the outbound side of the session")
	v.Assert(c.closed() == 0 && s.mine.Closed() == 0, "the connection is closed at once")
	// calls of the client are opened on the session
	srv := srpc.NewServer(echo())
	go func() { _ = srv.AcceptMuxedConn(context.Background(), s.peer) }()
	out := hx.M(nil)
	v.Assert(cl.ExecCall(context.Background(), "s", "m", hx.M([]byte{3}), out) == nil && hx.Eq(out.B, []byte{3}), "a dialed client cannot call")
	v.NoDelays()
	_ = s.peer.Close()
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
	v.Reach("dialed")
}

// H_roles: the other ways to set up a session.
//
// sym: delays=2 delays@thorough=3 native=0 selcost=1
func H_roles() {
	w := newWorld()
	outbound := v.Bool("outbound")
	conf := &yamux.Config{}
	given := v.Bool("given")
	if !given {
		conf = nil
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	c := &nconn{fail: v.Bool("fail")}
	var err error
	var mc network.MuxedConn
	ok := true
	var conn net.Conn = c
	switch v.Choose("how", 4) {
	case 0:
		mc, err = srpc.NewMuxedConn(c, outbound, conf)
		ok = mc != nil
	case 1:
		cl, e := srpc.NewClientWithConn(c, outbound, conf)
		err, ok = e, cl != nil
	case 2:
		ws := &websocket.Conn{}
		mc, err = srpc.NewWebSocketConn(ctx, ws, !outbound, conf)
		ok = mc != nil
		conn = nil
		v.Assert(err == nil, "a session is not set up")
		n := w.only().conn.(*nconn)
		v.Assert(n.ws == ws && n.ctx == ctx, "the session uses another connection")
		c = n
	case 3:
		rw := hx.NewRW()
		rw.BlockAtEnd = true
		mc, err = srpc.NewMuxedConnWithRwc(ctx, rw, outbound, conf)
		ok = mc != nil
		conn = nil
		v.Assert(err == nil, "a session is not set up")
		s := w.only()
		_, _ = s.conn.Write([]byte{1, 2})
		v.Assert(hx.Eq(rw.Out, []byte{1, 2}), "the session uses another connection")
		_ = s.conn.Close()
		v.Assert(rw.NClose > 0, "the session uses another connection")
		c = &nconn{}
	}
	if c.fail {
		v.Assert(err != nil && !ok, "a failure to set up a session is not returned")
		v.Reach("failed")
		return
	}
	v.Assert(err == nil && ok, "a session is not set up")
	s := w.only()
	v.Assert(conn == nil || s.conn == conn, "the session uses another connection")
	v.Assert(s.client == outbound, "the session has the wrong role")
	if given {
		v.Assert(s.conf == conf, "the configuration given is not used")
	} else {
		v.Assert(s.conf != nil, "no configuration is used")
	}
	v.Assert(mc == nil || mc == network.MuxedConn(s.mine), "another session is returned")
	v.Quiesce()
	v.NoOthers("a goroutine is left behind")
	v.Reach("set up")
}

// H_conf: sessions of both roles use the same usable configuration.
//
// sym: native=0 selcost=1 race=0
func H_conf() {
	newWorld()
	a, b := srpc.NewYamuxConfig(), srpc.NewYamuxConfig()
	v.Assert(a != b, "sessions share one configuration")
	v.Assert(yamux.VerifyConfig(a) == nil, "the default configuration is not valid")
	a.AcceptBacklog = 1
	c := srpc.NewYamuxConfig()
	v.Assert(c.AcceptBacklog == b.AcceptBacklog, "changing a configuration changes the default")
	v.Reach("conf")
}

// scene is a listener with its connections.
type scene struct {
	w     *world
	l     *lis
	conns []*nconn
	kinds []int
	inv   *hx.Inv
}

// add lets one more connection arrive.
func (s *scene) add(kind int) {
	c := &nconn{fail: kind == 0}
	s.conns, s.kinds = append(s.conns, c), append(s.kinds, kind)
	s.l.in <- c
	v.Quiesce()
	e := s.w.of(c)
	if kind == 0 {
		v.Assert(e == nil && c.closed() > 0, "a connection which cannot be set up is not closed")
		v.Reach("broken")
		return
	}
	v.Assert(e != nil, "a further connection is not accepted")
	v.Assert(!e.client, "the accepting side is not the inbound side of the session")
	switch kind {
	case 1: // the connection ends at once
		e.mine.Break(io.EOF)
		v.Quiesce()
	case 2: // a call is running
		call(e, "hold")
	case 3: // answered
		served(e)
	}
}

// check checks that every open connection is still served.
func (s *scene) check() {
	for i, c := range s.conns {
		if s.kinds[i] >= 2 {
			e := s.w.of(c)
			v.Assert(!e.mine.IsClosed() && e.mine.Closed() == 0, "an open connection is closed")
			served(e)
		}
	}
}

func (s *scene) torn() {
	for i, c := range s.conns {
		if s.kinds[i] >= 2 {
			v.Assert(s.w.of(c).mine.IsClosed(), "an accepted connection outlives the context")
		}
	}
}

func newScene() *scene { return &scene{w: newWorld(), l: newLis(), inv: echo()} }

func (s *scene) run(max int) {
	n := v.Choose("conns", max+1)
	for i := 0; i < n; i++ {
		s.add(v.Choose("kind", 4))
	}
	s.check()
}

// H_accept: connections of a listener are accepted and served.
//
// sym: delays=0 delays@thorough=1 native=0 selcost=1 paths=4000000 budget=500
func H_accept() {
	s := newScene()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	conf := &yamux.Config{}
	ret := make(chan error, 1)
	go func() { ret <- srpc.AcceptMuxedListener(ctx, s.l, srpc.NewServer(s.inv), conf) }()
	s.run(3)
	for _, e := range s.w.sessions() {
		v.Assert(e.conf == conf, "the configuration given is not used")
	}
	v.Assert(len(ret) == 0, "accepting ends although the listener is open")
	if v.Bool("fatal") {
		s.l.breaks(errSetup)
		v.Assert(<-ret == errSetup, "a fatal listener error is not returned")
		s.check()
		v.Reach("fatal")
	}
	cancel()
	v.Quiesce()
	s.torn()
	_ = s.l.Close()
	v.Quiesce()
	v.NoOthers("something is still served after the context was cancelled")
	v.Reach("end")
}

// H_accept_one: the same with fewer connections and more schedules.
//
// sym: delays=1 delays@thorough=2 native=0 selcost=1 paths=4000000 budget=500
func H_accept_one() {
	s := newScene()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	conf := &yamux.Config{}
	ret := make(chan error, 1)
	go func() { ret <- srpc.AcceptMuxedListener(ctx, s.l, srpc.NewServer(s.inv), conf) }()
	s.run(1)
	for _, e := range s.w.sessions() {
		v.Assert(e.conf == conf, "the configuration given is not used")
	}
	v.Assert(len(ret) == 0, "accepting ends although the listener is open")
	if v.Bool("fatal") {
		s.l.breaks(errSetup)
		v.Assert(<-ret == errSetup, "a fatal listener error is not returned")
		s.check()
		v.Reach("fatal")
	}
	cancel()
	v.Quiesce()
	s.torn()
	_ = s.l.Close()
	v.Quiesce()
	v.NoOthers("something is still served after the context was cancelled")
	v.Reach("end")
}

// H_listen: listening ends with its context, its error channel or its listener.
//
// sym: delays=1 delays@thorough=2 native=0 selcost=1 paths=4000000 budget=500
func H_listen() {
	s := newScene()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	addr := v.StringUpTo("addr", 1)
	n := 0
	var lerr error
	v.Stub("net.Listen", func(network, a string) (net.Listener, error) {
		n++
		v.Assert(network == "tcp" && a == addr, "another address is listened on")
		if lerr != nil {
			return nil, lerr
		}
		return s.l, nil
	})
	var errCh chan error
	if v.Bool("errCh") {
		errCh = make(chan error, 1)
	}
	how := v.Choose("how", 4)
	if how == 3 {
		if v.Bool("cancelled") {
			cancel()
		}
		lerr = errSetup
	}
	ret := make(chan error, 1)
	go func() { ret <- srpc.Listen(ctx, addr, srpc.NewServer(s.inv), errCh) }()
	if how == 3 {
		err := <-ret
		v.Assert(err == errSetup || err == context.Canceled && ctx.Err() != nil, "a failure to listen is not returned")
		v.NoOthers("a goroutine is left behind")
		v.Reach("cannot listen")
		return
	}
	s.run(v.Bound(1, 2))
	v.Assert(len(ret) == 0, "listening ends although nothing ended it")
	switch how {
	case 0:
		cancel()
		v.Assert(<-ret == context.Canceled, "a cancelled context is not reported as cancelled")
		v.Quiesce()
		s.torn()
		v.Reach("cancelled")
	case 1:
		s.l.breaks(errLisClosed)
		v.Assert(<-ret == errLisClosed, "a fatal listener error is not returned")
		v.Reach("fatal")
	case 2:
		if errCh != nil {
			e := error(&hx.Err{S: "external"})
			errCh <- e
			v.Assert(<-ret == e, "the external error is not returned")
			v.Reach("external")
		} else {
			cancel()
			<-ret
		}
	}
	v.Assert(s.l.closed() > 0, "the listener is not released")
	v.Assert(n == 1, "the address is not listened on exactly once")
	cancel()
	v.Quiesce()
	s.torn()
	v.NoOthers("something is still served after the context was cancelled")
	v.Reach("end")
}

// H_listen_early: the context is cancelled at any point of the set up.
//
// sym: delays=2 delays@thorough=3 native=0 selcost=1
func H_listen_early() {
	s := newScene()
	ctx, cancel := context.WithCancel(context.Background())
	v.Stub("net.Listen", func(network, a string) (net.Listener, error) { return s.l, nil })
	if v.Bool("before") {
		cancel()
	}
	if v.Bool("conn") {
		s.l.in <- &nconn{}
	}
	ret := make(chan error, 1)
	go func() { ret <- srpc.Listen(ctx, "a", srpc.NewServer(s.inv), nil) }()
	v.Yield()
	cancel()
	v.Assert(<-ret == context.Canceled, "a cancelled context is not reported as cancelled")
	v.Assert(s.l.closed() > 0, "the listener is not released")
	v.Quiesce()
	for _, e := range s.w.sessions() {
		v.Assert(e.mine.IsClosed(), "an accepted connection outlives the context")
	}
	v.NoOthers("something is still served after the context was cancelled")
	v.Reach("early")
}

// rw is a response writer.
type rw struct{ h http.Header }

func (w *rw) Header() http.Header         { return w.h }
func (w *rw) Write(b []byte) (int, error) { return len(b), nil }
func (w *rw) WriteHeader(int)             {}

// H_http: requests are upgraded and served.
//
// sym: delays=2 delays@thorough=3 native=0 selcost=1
func H_http() {
	w := newWorld()
	conf, path := v.StringUpTo("conf", 2), v.StringUpTo("path", 2)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	mux := srpc.NewMux(echo())
	hs, err := srpc.NewHTTPServer(mux, conf, nil)
	v.Assert(err == nil && hs != nil, "no server is built")
	w.accOK = v.Bool("upgrade")
	r := (&http.Request{URL: &url.URL{Path: path}}).WithContext(ctx)
	ret := make(chan struct{})
	go func() { hs.ServeHTTP(&rw{h: http.Header{}}, r); close(ret) }()
	if conf != "" && conf != path {
		<-ret
		v.Assert(w.nacc == 0, "a request for another path is upgraded")
		v.NoOthers("a goroutine is left behind")
		v.Reach("other path")
		return
	}
	if !w.accOK {
		<-ret
		v.Assert(w.nacc == 1, "a request is not upgraded")
		v.Assert(len(w.sessions()) == 0, "a request that cannot be upgraded is served")
		v.NoOthers("a goroutine is left behind")
		v.Reach("not upgraded")
		return
	}
	v.Quiesce()
	w.mu.Lock()
	v.Assert(w.nacc == 1, "a request is not upgraded exactly once")
	ws := w.ws[0]
	v.Assert(w.wsCl[ws] == 0, "the connection is closed at once")
	w.mu.Unlock()
	s := w.only()
	v.Assert(!s.client, "the accepting side is not the inbound side of the session")
	v.Assert(s.conn.(*nconn).ws == ws, "the session uses another connection")
	if v.Bool("held") {
		call(s, "hold")
	}
	served(s)
	served(s)
	v.NoDelays()
	switch v.Choose("end", 3) {
	case 0:
		s.mine.Break(io.EOF)
	case 1:
		s.mine.Break(errSetup)
	case 2: // the websocket notices the cancellation
		cancel()
		s.mine.Break(context.Canceled)
	}
	<-ret
	w.mu.Lock()
	v.Assert(w.wsCl[ws] > 0, "the connection is not closed")
	w.mu.Unlock()
	cancel()
	v.Quiesce()
	v.NoOthers("something is still served after the connection has ended")
	v.Reach("served")
}
