"""Further planted bugs (see mkseeds.py)."""
import importlib.util, os
_d = os.path.dirname(os.path.abspath(__file__))
def _load(n):
    s = importlib.util.spec_from_file_location(n, f'{_d}/{n}.py')
    m = importlib.util.module_from_spec(s); s.loader.exec_module(m)
    return m
_a, _b = _load('seeds_a'), _load('seeds_b')
hdr, REC, SR, RSTRM = _b.hdr, _a.REC, _b.SR, _b.RSTRM
SEEDS = [
dict(id='C05-b', property='C05', pkg='srpc',
  needs='a transport which takes part of a frame and fails in the same call',
  breaks='A write that fails after part of the frame was taken is tried again, so bytes of the frame follow the error and the error is lost.',
  edits=[('srpc/packet-rw.go', '''		n, err = r.rw.Write(data[written:])
		if err != nil {
			return err
		}
		written += n
''', '''		n, err = r.rw.Write(data[written:])
		written += n
		if err != nil && n == 0 {
			return err
		}
''')],
  demo=hdr('errors', 'testing') + '''
type failConn struct{ n int }

func (c *failConn) Read(p []byte) (int, error) { select {} }
func (c *failConn) Write(p []byte) (int, error) {
	c.n++
	if c.n == 1 {
		return 2, errors.New("broken")
	}
	return len(p), nil
}
func (c *failConn) Close() error { return nil }

func TestDemo(t *testing.T) {
	c := &failConn{}
	err := NewPacketReadWriter(c).WritePacket(NewCallDataPacket([]byte("hello"), false, false, nil))
	if err == nil || c.n != 1 {
		t.Fatal(err, c.n)
	}
}
'''),
dict(id='C09-b', property='C09', pkg='srpc',
  needs='the transport fails after the call completed while messages are still unread',
  breaks='A transport error after the completion becomes the outcome of the call if the reader has not caught up.',
  edits=[('srpc/client-rpc.go', '''		if closeErr != nil && r.remoteErr == nil && !r.dataClosed {
''', '''		if closeErr != nil && r.remoteErr == nil && (!r.dataClosed || len(r.dataQueue) != 0) {
''')],
  demo=hdr('context', 'errors', 'io', 'testing') + '''
func TestDemo(t *testing.T) {
	r := NewClientRPC(context.Background(), "s", "m")
	_ = r.HandlePacket(NewCallDataPacket([]byte("one"), false, false, nil))
	_ = r.HandlePacket(NewCallDataPacket(nil, false, true, nil))
	r.HandleStreamClose(errors.New("connection reset"))
	if d, err := r.ReadOne(); err != nil || string(d) != "one" {
		t.Fatalf("%q %v", d, err)
	}
	if _, err := r.ReadOne(); err != io.EOF {
		t.Fatal(err)
	}
}
'''),
dict(id='C14-b', property='C14', pkg='srpc',
  needs='an empty message as the last one before the half close, not yet read when the half close arrives',
  breaks='An empty message directly before the half close is taken for a part of it and dropped.',
  edits=[('srpc/common-rpc.go', '''		if complete {
			c.dataClosed = true
		}
''', '''		if complete {
			c.dataClosed = true
			// the completion may come with an empty message
			if n := len(c.dataQueue); n != 0 && len(c.dataQueue[n-1]) == 0 {
				c.dataQueue = c.dataQueue[:n-1]
			}
		}
''')],
  demo=hdr('context', 'io', 'testing') + '''
func TestDemo(t *testing.T) {
	r := NewClientRPC(context.Background(), "s", "m")
	_ = r.HandlePacket(NewCallDataPacket(nil, true, false, nil))
	_ = r.HandlePacket(NewCallDataPacket(nil, false, true, nil))
	if d, err := r.ReadOne(); err != nil || len(d) != 0 {
		t.Fatalf("%q %v", d, err)
	}
	if _, err := r.ReadOne(); err != io.EOF {
		t.Fatal(err)
	}
}
'''),
dict(id='C27-b', property='C27', pkg='rpcstream',
  needs='a nested call with a message of more than 32 KiB',
  breaks='Packets of more than 32 KiB are cut into several messages, which the other side takes for several packets.',
  edits=[('rpcstream/writer.go', '''	err = r.Send(&RpcStreamPacket{
		Body: &RpcStreamPacket_Data{
			Data: p,
		},
	})
	if err != nil {
		return 0, err
	}
	return len(p), nil
''', '''	for n < len(p) {
		end := min(n+32*1024, len(p))
		err = r.Send(&RpcStreamPacket{
			Body: &RpcStreamPacket_Data{
				Data: p[n:end],
			},
		})
		if err != nil {
			return n, err
		}
		n = end
	}
	return n, nil
''')],
  demo=hdr('context', 'io', SR, 'testing', pkg='rpcstream') + RSTRM + '''
func TestDemo(t *testing.T) {
	s := &rs{ctx: context.Background(), inErr: io.EOF}
	pkt := srpc.NewCallDataPacket(make([]byte, 100000), false, false, nil)
	if err := NewRpcStreamWriter(s).WritePacket(pkt); err != nil {
		t.Fatal(err)
	}
	if len(s.out) != 1 {
		t.Fatal("one packet is sent as", len(s.out))
	}
	got := &srpc.Packet{}
	if err := got.UnmarshalVT(s.out[0].GetData()); err != nil || !got.EqualVT(pkt) {
		t.Fatal("another packet", err)
	}
}
'''),
dict(id='C30-b', property='C30', pkg='srpc',
  needs='six connections in a row that cannot be set up, then a good one',
  breaks='The listener gives up after six failed connections in a row.',
  edits=[('srpc/accept.go', '''	for {
		nc, err := lis.Accept()
		if err != nil {
			return err
		}

		mc, err := NewMuxedConn(nc, false, yamuxConf)
		if err != nil {
			_ = nc.Close()
			continue
		}
''', '''	var failed int
	for {
		nc, err := lis.Accept()
		if err != nil {
			return err
		}

		mc, err := NewMuxedConn(nc, false, yamuxConf)
		if err != nil {
			_ = nc.Close()
			if failed++; failed > 5 {
				return err
			}
			continue
		}
		failed = 0
''')],
  demo=hdr('context', 'errors', 'net', 'testing') + '''
type listener struct {
	n    int
	next func(n int) net.Conn
}

func (l *listener) Addr() net.Addr { return &net.TCPAddr{} }
func (l *listener) Close() error   { return nil }
func (l *listener) Accept() (net.Conn, error) {
	l.n++
	if c := l.next(l.n); c != nil {
		return c, nil
	}
	return nil, errors.New("closed")
}

func TestDemo(t *testing.T) {
	conf := NewYamuxConfig()
	ok := conf.AcceptBacklog
	conf.AcceptBacklog = 0 // no session can be set up
	l := &listener{next: func(n int) net.Conn {
		if n > 8 {
			return nil
		}
		if n == 8 {
			conf.AcceptBacklog = ok
		}
		a, _ := net.Pipe()
		return a
	}}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	err := AcceptMuxedListener(ctx, l, NewServer(NewMux()), conf)
	if err == nil || err.Error() != "closed" || l.n != 9 {
		t.Fatal("accepting ends early: ", l.n, err)
	}
}
'''),
dict(id='C31-c', property='C31', pkg='srpc',
  needs='more than ten streams of one connection running at a time',
  breaks='Streams of one connection beyond the tenth are not accepted before an earlier one ends.',
  edits=[('srpc/server.go', '''	for {
		if err := ctx.Err(); err != nil {
			return context.Canceled
		}

		if mc.IsClosed() {
''', '''	slots := make(chan struct{}, 10)
	for {
		select {
		case <-ctx.Done():
			return context.Canceled
		case slots <- struct{}{}:
		}

		if mc.IsClosed() {
'''), ('srpc/server.go', '''		go s.HandleStream(ctx, muxedStream)
''', '''		go func() {
			defer func() { <-slots }()
			s.HandleStream(ctx, muxedStream)
		}()
''')],
  demo=hdr('context', 'net', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	sv, err := NewMuxedConn(b, false, nil)
	if err != nil {
		t.Fatal(err)
	}
	srv := NewServer(InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		if m == "held" {
			<-strm.Context().Done()
			return true, nil
		}
		return true, strm.MsgSend(NewRawMessage([]byte("x"), true))
	}))
	go func() { _ = srv.AcceptMuxedConn(ctx, sv) }()
	c, err := NewClientWithConn(a, true, nil)
	if err != nil {
		t.Fatal(err)
	}
	for i := 0; i < 12; i++ {
		if _, err := c.NewStream(ctx, "s", "held", nil); err != nil {
			t.Fatal(err)
		}
	}
	cctx, ccancel := context.WithTimeout(ctx, 5*time.Second)
	defer ccancel()
	if err := c.ExecCall(cctx, "s", "m", NewRawMessage(nil, true), NewRawMessage(nil, true)); err != nil {
		t.Fatal("a call is not answered while others run: ", err)
	}
}
'''),
]
