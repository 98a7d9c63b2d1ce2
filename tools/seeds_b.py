# Planted bugs C15..C34 (see mkseeds.py).
def hdr(*imports, pkg='srpc'):
    return f'package {pkg}\n\nimport (\n' + ''.join(f'\t{i}\n' if '"' in i else f'\t"{i}"\n' for i in imports) + ')\n\n'
SR = 'srpc "github.com/aperturerobotics/starpc/srpc"'

HND = '''
type demoHnd struct {
	id      string
	methods []string
	fn      InvokerFunc
}

func (h *demoHnd) GetServiceID() string    { return h.id }
func (h *demoHnd) GetMethodIDs() []string  { return h.methods }
func (h *demoHnd) InvokeMethod(s, m string, strm Stream) (bool, error) { return h.fn(s, m, strm) }
'''
# in-memory rpcstream with scripted packets
RSTRM = '''
type rs struct {
	srpc.Stream
	ctx    context.Context
	in     []*RpcStreamPacket
	inErr  error
	out    []*RpcStreamPacket
	outErr error
	closed int
	half   int
}

func (s *rs) Context() context.Context { return s.ctx }
func (s *rs) Recv() (*RpcStreamPacket, error) {
	if len(s.in) == 0 {
		if s.inErr != nil {
			return nil, s.inErr
		}
		<-s.ctx.Done()
		return nil, context.Canceled
	}
	p := s.in[0]
	s.in = s.in[1:]
	return p, nil
}
func (s *rs) MsgRecv(m srpc.Message) error {
	p, err := s.Recv()
	if err != nil {
		return err
	}
	d, err := p.MarshalVT()
	if err != nil {
		return err
	}
	return m.UnmarshalVT(d)
}
func (s *rs) Send(p *RpcStreamPacket) error {
	if s.outErr != nil {
		return s.outErr
	}
	s.out = append(s.out, p.CloneVT())
	return nil
}
func (s *rs) MsgSend(m srpc.Message) error {
	d, err := m.MarshalVT()
	if err != nil {
		return err
	}
	p := &RpcStreamPacket{}
	if err := p.UnmarshalVT(d); err != nil {
		return err
	}
	return s.Send(p)
}
func (s *rs) CloseSend() error { s.half++; return nil }
func (s *rs) Close() error     { s.closed++; return nil }

func initPkt(id string) *RpcStreamPacket {
	return &RpcStreamPacket{Body: &RpcStreamPacket_Init{Init: &RpcStreamInit{ComponentId: id}}}
}
func ackPkt(e string) *RpcStreamPacket {
	return &RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: &RpcAck{Error: e}}}
}
func dataPkt(d string) *RpcStreamPacket {
	return &RpcStreamPacket{Body: &RpcStreamPacket_Data{Data: []byte(d)}}
}
'''
SEEDS = [
dict(id='C15-a', property='C15', pkg='srpc',
  needs='a registered handler that reports not found for the call, on a mux with fallback invokers',
  breaks='A call that a registered handler answered with not found is invoked again on the fallback invokers.',
  edits=[('srpc/mux.go', '''		return handler.InvokeMethod(serviceID, methodID, strm)
''', '''		handled, err := handler.InvokeMethod(serviceID, methodID, strm)
		if handled || err != nil {
			return handled, err
		}
''')],
  demo=hdr('testing') + HND + '''
func TestDemo(t *testing.T) {
	n := 0
	m := NewMux(InvokerFunc(func(s, m string, strm Stream) (bool, error) { n++; return true, nil }))
	_ = m.Register(&demoHnd{"s", []string{"m"}, func(s, m string, strm Stream) (bool, error) { return false, nil }})
	if ok, err := m.InvokeMethod("s", "m", nil); ok || err != nil || n != 0 {
		t.Fatal(ok, err, n)
	}
}
'''),
dict(id='C15-b', property='C15', pkg='srpc',
  needs='two handlers registered one after the other for the same service and method',
  breaks='The first registration of a service and method wins instead of the most recent one.',
  edits=[('srpc/mux.go', '''		if methodID != "" {
			serviceMethods[methodID] = handler
		}
''', '''		if methodID == "" {
			continue
		}
		if _, ok := serviceMethods[methodID]; !ok {
			serviceMethods[methodID] = handler
		}
''')],
  demo=hdr('testing') + HND + '''
func TestDemo(t *testing.T) {
	m := NewMux()
	got := 0
	for i := 1; i <= 2; i++ {
		_ = m.Register(&demoHnd{"s", []string{"m"}, func(s, m string, strm Stream) (bool, error) { got = i; return true, nil }})
	}
	if ok, err := m.InvokeMethod("s", "m", nil); !ok || err != nil || got != 2 {
		t.Fatal(ok, err, got)
	}
}
'''),
dict(id='C15-c', property='C15', pkg='srpc',
  needs='an empty service id with several services of which only some have the method',
  breaks='A call without a service id looks only at one arbitrary service of the mux.',
  edits=[('srpc/mux.go', '''			if handler = svc[methodID]; handler != nil {
				break
			}
''', '''			handler = svc[methodID]
			break
''')],
  demo=hdr('testing', 'fmt') + HND + '''
func TestDemo(t *testing.T) {
	m := NewMux()
	for i := 0; i < 20; i++ {
		_ = m.Register(&demoHnd{fmt.Sprint("s", i), []string{fmt.Sprint("m", i)}, func(s, m string, strm Stream) (bool, error) { return true, nil }})
	}
	for i := 0; i < 20; i++ {
		if ok, err := m.InvokeMethod("", fmt.Sprint("m", i), nil); !ok || err != nil {
			t.Fatal(i, ok, err)
		}
	}
}
'''),
dict(id='C16-a', property='C16', pkg='srpc',
  needs='a service that was registered without any method',
  breaks='The mux reports having a service that has no methods at all.',
  edits=[('srpc/mux.go', '	return len(m.services[serviceID]) != 0\n', '	_, ok := m.services[serviceID]\n	return ok\n')],
  demo=hdr('testing') + HND + '''
func TestDemo(t *testing.T) {
	m := NewMux()
	_ = m.Register(&demoHnd{"s", nil, nil})
	if m.HasService("s") {
		t.Fatal("has a service without methods")
	}
}
'''),
dict(id='C16-b', property='C16', pkg='srpc',
  needs='a handler that registers another service on the mux while it is running',
  breaks='The lock of the mux is held while the handler runs, so a handler registering a service deadlocks.',
  edits=[('srpc/mux.go', '''	var handler Handler
	m.rmtx.RLock()
''', '''	var handler Handler
	m.rmtx.RLock()
	defer m.rmtx.RUnlock()
'''), ('srpc/mux.go', '''	m.rmtx.RUnlock()

	if handler != nil {''', '''
	if handler != nil {''')],
  demo=hdr('testing', 'time') + HND + '''
func TestDemo(t *testing.T) {
	m := NewMux()
	_ = m.Register(&demoHnd{"s", []string{"m"}, func(s, meth string, strm Stream) (bool, error) {
		return true, m.Register(&demoHnd{"s2", []string{"m"}, nil})
	}})
	done := make(chan struct{})
	go func() { _, _ = m.InvokeMethod("s", "m", nil); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("deadlock")
	}
}
'''),
dict(id='C16-c', property='C16', pkg='srpc',
  needs='a mux query running concurrently with a registration',
  breaks='The service query reads the table before taking the lock, which races with registrations.',
  edits=[('srpc/mux.go', '''	m.rmtx.Lock()
	defer m.rmtx.Unlock()

	return len(m.services[serviceID]) != 0''', '''	methods := m.services[serviceID]

	m.rmtx.Lock()
	defer m.rmtx.Unlock()

	return len(methods) != 0''')],
  flags='-race ',
  demo=hdr('testing', 'fmt') + HND + '''
func TestDemo(t *testing.T) {
	m := NewMux()
	done := make(chan struct{})
	go func() {
		defer close(done)
		for i := 0; i < 2000; i++ {
			_ = m.Register(&demoHnd{fmt.Sprint("s", i), []string{"m"}, nil})
		}
	}()
	for i := 0; i < 2000; i++ {
		_ = m.HasService("s1")
	}
	<-done
}
'''),
dict(id='C17-a', property='C17', pkg='srpc',
  needs='two prefixes of the list matching the same service id, the longer one later in the list',
  breaks='The longest matching prefix is stripped instead of the first matching one.',
  edits=[('srpc/strip-prefix.go', '''	var matched bool
	for _, prefix := range matchPrefixes {
		matched = strings.HasPrefix(id, prefix)
		if matched {
			matchedPrefix = prefix
			break
		}
	}
''', '''	var matched bool
	for _, prefix := range matchPrefixes {
		if strings.HasPrefix(id, prefix) && len(prefix) >= len(matchedPrefix) {
			matched = true
			matchedPrefix = prefix
		}
	}
''')],
  demo=hdr('testing') + '''
func TestDemo(t *testing.T) {
	if s, p := CheckStripPrefix("abc", []string{"a", "ab"}); s != "bc" || p != "a" {
		t.Fatal(s, p)
	}
}
'''),
dict(id='C17-b', property='C17', pkg='srpc',
  needs='a streaming call through a prefixed client whose service id matches no prefix',
  breaks='A streaming call that matches no prefix reaches the underlying client instead of being refused.',
  edits=[('srpc/client-prefix.go', '''	service, err := i.stripCheckServiceIDPrefix(service)
	if err != nil {
		return nil, err
	}
	return''', '''	if stripped, err := i.stripCheckServiceIDPrefix(service); err == nil {
		service = stripped
	}
	return''')],
  demo=hdr('context', 'testing') + '''
type cl struct{ n int }

func (c *cl) ExecCall(ctx context.Context, service, method string, in, out Message) error { c.n++; return nil }
func (c *cl) NewStream(ctx context.Context, service, method string, m Message) (Stream, error) { c.n++; return nil, nil }

func TestDemo(t *testing.T) {
	c := &cl{}
	if _, err := NewPrefixClient(c, []string{"p/"}).NewStream(context.Background(), "q/s", "m", nil); err != ErrUnimplemented || c.n != 0 {
		t.Fatal(err, c.n)
	}
}
'''),
dict(id='C18-a', property='C18', pkg='srpc',
  needs='an invoker of the list failing with the unimplemented error, followed by another invoker',
  breaks='An invoker list goes on to the next invoker if one failed with the unimplemented error.',
  edits=[('srpc/invoker.go', '''		if found || err != nil {
			return true, err
		}
''', '''		if err == ErrUnimplemented {
			continue
		}
		if found || err != nil {
			return true, err
		}
''')],
  demo=hdr('testing') + '''
func TestDemo(t *testing.T) {
	n := 0
	s := InvokerSlice{
		InvokerFunc(func(s, m string, strm Stream) (bool, error) { return true, ErrUnimplemented }),
		InvokerFunc(func(s, m string, strm Stream) (bool, error) { n++; return true, nil }),
	}
	if _, err := s.InvokeMethod("s", "m", nil); err != ErrUnimplemented || n != 0 {
		t.Fatal(err, n)
	}
}
'''),
dict(id='C18-b', property='C18', pkg='srpc',
  needs='a nil invoker in the list before the one that handles the call',
  breaks='A nil member ends the list, so the invokers after it are never asked.',
  edits=[('srpc/invoker.go', '''		if invoker == nil {
			continue
		}
''', '''		if invoker == nil {
			break
		}
''')],
  demo=hdr('testing') + '''
func TestDemo(t *testing.T) {
	s := InvokerSlice{nil, InvokerFunc(func(s, m string, strm Stream) (bool, error) { return true, nil })}
	if ok, err := s.InvokeMethod("s", "m", nil); !ok || err != nil {
		t.Fatal(ok, err)
	}
}
'''),
dict(id='C19-a', property='C19', pkg='srpc',
  needs='a member failing with an error whose text merely contains the text of the unimplemented error',
  breaks='A call that failed on one client with an error mentioning the unimplemented text is executed again on the next.',
  edits=[('srpc/client-set.go', 'if err.Error() == ErrUnimplemented.Error() {', 'if strings.Contains(err.Error(), ErrUnimplemented.Error()) {'),
    ('srpc/client-set.go', '''	"context"
)''', '''	"context"
	"strings"
)''')],
  demo=hdr('context', '"github.com/pkg/errors"', 'testing') + '''
type cl struct {
	n   int
	err error
}

func (c *cl) ExecCall(ctx context.Context, service, method string, in, out Message) error { c.n++; return c.err }
func (c *cl) NewStream(ctx context.Context, service, method string, m Message) (Stream, error) {
	c.n++
	return nil, c.err
}

func TestDemo(t *testing.T) {
	a, b := &cl{err: errors.Wrap(ErrUnimplemented, "nested call")}, &cl{}
	if err := NewClientSet([]Client{a, b}).ExecCall(context.Background(), "s", "m", nil, nil); err != a.err || b.n != 0 {
		t.Fatal(err, b.n)
	}
}
'''),
dict(id='C19-b', property='C19', pkg='srpc',
  needs='the caller\'s context expires by its deadline while the first member reports a cancelled call',
  breaks='After the caller\'s deadline expired the set goes on to the next client instead of returning a cancelled error.',
  edits=[('srpc/client-set.go', '''			select {
			case <-ctx.Done():
				return context.Canceled
			default:
				continue
			}
''', '''			if ctx.Err() == context.Canceled {
				return context.Canceled
			}
			continue
''')],
  demo=hdr('context', 'testing', 'time') + '''
type cl struct {
	n   int
	err error
}

func (c *cl) ExecCall(ctx context.Context, service, method string, in, out Message) error {
	c.n++
	<-ctx.Done()
	return c.err
}
func (c *cl) NewStream(ctx context.Context, service, method string, m Message) (Stream, error) {
	return nil, c.ExecCall(ctx, service, method, nil, nil)
}

func TestDemo(t *testing.T) {
	a, b := &cl{err: context.Canceled}, &cl{}
	ctx, cancel := context.WithTimeout(context.Background(), 50*time.Millisecond)
	defer cancel()
	if err := NewClientSet([]Client{a, b}).ExecCall(ctx, "s", "m", nil, nil); err != context.Canceled || b.n != 0 {
		t.Fatal(err, b.n)
	}
}
'''),
dict(id='C20-a', property='C20', pkg='srpc',
  needs='a message in copy mode that is given an empty slice of a larger buffer and then reused for data',
  breaks='In copy mode an empty slice is retained, so later data is written into the buffer the slice came from.',
  edits=[('srpc/message.go', '''	if m.copy {
		if cap''', '''	if m.copy && len(data) != 0 {
		if cap''')],
  demo=hdr('testing') + '''
func TestDemo(t *testing.T) {
	buf := []byte("hello")
	m := NewRawMessage(nil, true)
	m.SetData(buf[:0])
	m.SetData([]byte("xyz"))
	if string(buf) != "hello" {
		t.Fatalf("%q", buf)
	}
}
'''),
dict(id='C20-b', property='C20', pkg='srpc',
  needs='a message in copy mode that is marshaled and then reused for data that fits its buffer',
  breaks='Marshaling returns the internal buffer if it is filled exactly, so reusing the message changes the bytes returned.',
  edits=[('srpc/message.go', '''	if !m.copy {
		return m.data, nil
	}
''', '''	if !m.copy || len(m.data) == cap(m.data) {
		// cannot be appended to in place
		return m.data, nil
	}
''')],
  demo=hdr('testing') + '''
func TestDemo(t *testing.T) {
	m := NewRawMessage(nil, true)
	m.SetData([]byte("12345678"))
	d, _ := m.MarshalVT()
	m.SetData([]byte("abc"))
	if string(d) != "12345678" {
		t.Fatalf("%q", d)
	}
}
'''),
dict(id='C21-a', property='C21', pkg='srpc',
  needs='an empty message in the middle of the byte stream',
  breaks='An empty message makes a read return zero bytes without an error.',
  edits=[('srpc/stream-rwc.go', '''			if len(data) == 0 {
				continue
			}
''', '''			if len(data) == 0 {
				break
			}
''')],
  demo=hdr('context', 'testing') + '''
func TestDemo(t *testing.T) {
	a, b := NewPipeStream(context.Background())
	for _, s := range []string{"", "x"} {
		_ = a.MsgSend(NewRawMessage([]byte(s), true))
	}
	buf := make([]byte, 4)
	if n, err := NewStreamRwc(b).Read(buf); n != 1 || err != nil {
		t.Fatal(n, err)
	}
}
'''),
dict(id='C21-b', property='C21', pkg='rpcstream',
  needs='a message larger than the reader\'s buffer, read while the caller reuses its buffer, followed by the end of the stream',
  breaks='Bytes of a message left over by a small read are lost if more than one further read is needed for them.',
  edits=[('rpcstream/read-writer.go', '''			rn, err = r.buf.Read(readBuf)
''', '''			rn, err = r.buf.Read(readBuf)
			r.buf.Reset()
''')],
  demo=hdr('context', 'io', SR, 'testing', pkg='rpcstream') + RSTRM + '''
func TestDemo(t *testing.T) {
	s := &rs{ctx: context.Background(), in: []*RpcStreamPacket{dataPkt("abcdef")}, inErr: io.EOF}
	rw := NewRpcStreamReadWriter(s)
	var got []byte
	buf := make([]byte, 2)
	for {
		n, err := rw.Read(buf)
		got = append(got, buf[:n]...)
		if err != nil {
			break
		}
	}
	if string(got) != "abcdef" {
		t.Fatalf("%q", got)
	}
}
'''),
dict(id='C22-a', property='C22', pkg='srpc',
  needs='an underlying connection returning the last bytes together with end-of-stream',
  breaks='Bytes read together with an error are dropped by the connection wrapper.',
  edits=[('srpc/rwc-conn.go', '''		n, err := p.rwc.Read(pktBuf)
		if n == 0 {''', '''		n, err := p.rwc.Read(pktBuf)
		if err != nil {
			p.ar.Put(&pktBuf)
			return err
		}
		if n == 0 {'''), ('srpc/rwc-conn.go', '''			case p.packetCh <- pktBuf[:n]:
			}
		}
		if err != nil {
			return err
		}
''', '''			case p.packetCh <- pktBuf[:n]:
			}
		}
''')],
  demo=hdr('context', 'io', 'testing') + '''
type one struct{ done bool }

func (o *one) Read(p []byte) (int, error) {
	if o.done {
		return 0, io.EOF
	}
	o.done = true
	return copy(p, "abc"), io.EOF
}
func (o *one) Write(p []byte) (int, error) { return len(p), nil }
func (o *one) Close() error                { return nil }

func TestDemo(t *testing.T) {
	c := NewRwcConn(context.Background(), &one{}, nil, nil, 2)
	b := make([]byte, 100)
	if n, err := c.Read(b); n != 3 || err != nil {
		t.Fatal(n, err)
	}
}
'''),
dict(id='C22-b', property='C22', pkg='srpc',
  needs='a write the underlying connection accepts only partly before it fails',
  breaks='The count of bytes written before a failure is reported without those accepted by the failing write.',
  edits=[('srpc/rwc-conn.go', '''		written += n
		if err != nil {
			return written, err
		}
''', '''		if err != nil {
			return written, err
		}
		written += n
''')],
  demo=hdr('context', 'errors', 'testing') + '''
type part struct{ n int }

func (o *part) Read(p []byte) (int, error) { select {} }
func (o *part) Write(p []byte) (int, error) {
	o.n++
	if o.n == 1 {
		return 2, nil
	}
	return 1, errors.New("broken")
}
func (o *part) Close() error { return nil }

func TestDemo(t *testing.T) {
	c := NewRwcConn(context.Background(), &part{}, nil, nil, 2)
	if n, err := c.Write([]byte("abcdef")); n != 3 || err == nil {
		t.Fatal(n, err)
	}
}
'''),
dict(id='C22-c', property='C22', pkg='srpc',
  needs='a read buffer smaller than the chunk received',
  breaks='A read into a buffer that is too small reports bytes that were not copied.',
  edits=[('srpc/rwc-conn.go', '''	pl := len(pkt)
	copy(b, pkt)
	p.ar.Put(&pkt)
	if len(b) < pl {
		return len(b), io.ErrShortBuffer
	}
	return pl, nil
''', '''	pl := len(pkt)
	if len(b) < pl {
		p.ar.Put(&pkt)
		return len(b), io.ErrShortBuffer
	}
	copy(b, pkt)
	p.ar.Put(&pkt)
	return pl, nil
''')],
  demo=hdr('context', 'io', 'testing') + '''
type one struct{ done bool }

func (o *one) Read(p []byte) (int, error) {
	if o.done {
		return 0, io.EOF
	}
	o.done = true
	return copy(p, "abc"), nil
}
func (o *one) Write(p []byte) (int, error) { return len(p), nil }
func (o *one) Close() error                { return nil }

func TestDemo(t *testing.T) {
	c := NewRwcConn(context.Background(), &one{}, nil, nil, 2)
	b := []byte("--")
	if n, err := c.Read(b); n != 2 || err != io.ErrShortBuffer || string(b) != "ab" {
		t.Fatal(n, err, string(b))
	}
}
'''),
dict(id='C23-a', property='C23', pkg='srpc',
  needs='a sender blocked on a full stream when its own end is closed',
  breaks='Closing an end does not unblock a send that is blocked on that end.',
  edits=[('srpc/stream-pipe.go', '''	case <-p.ctx.Done():
		return context.Canceled
	case p.other.dataCh <- data:''', '''	case <-p.other.ctx.Done():
		return context.Canceled
	case p.other.dataCh <- data:''')],
  demo=hdr('context', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	a, _ := NewPipeStream(context.Background())
	done := make(chan error, 1)
	go func() {
		for {
			if err := a.MsgSend(NewRawMessage([]byte("x"), true)); err != nil {
				done <- err
				return
			}
		}
	}()
	time.Sleep(50 * time.Millisecond)
	_ = a.Close()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("stuck")
	}
}
'''),
dict(id='C23-b', property='C23', pkg='srpc',
  needs='an empty message sent on the stream pair',
  breaks='Receiving an empty message is reported as end-of-stream.',
  edits=[('srpc/stream-pipe.go', '		if !ok {\n			return io.EOF', '		if !ok || data == nil {\n			return io.EOF')],
  demo=hdr('context', 'testing') + '''
func TestDemo(t *testing.T) {
	a, b := NewPipeStream(context.Background())
	_ = a.MsgSend(NewRawMessage(nil, false))
	if err := b.MsgRecv(NewRawMessage(nil, true)); err != nil {
		t.Fatal(err)
	}
}
'''),
dict(id='C24-a', property='C24', pkg='rpcstream',
  needs='opening with ack where the remote answers with an error',
  breaks='If the remote refuses the component the underlying stream is left open.',
  edits=[('rpcstream/rpcstream.go', '''				if errStr := b.Ack.GetError(); errStr != "" {
					err = errors.Errorf("remote: %s", errStr)
				}
''', '''				if errStr := b.Ack.GetError(); errStr != "" {
					return nil, errors.Errorf("remote: %s", errStr)
				}
''')],
  demo=hdr('context', SR, 'testing', pkg='rpcstream') + RSTRM + '''
func TestDemo(t *testing.T) {
	s := &rs{ctx: context.Background(), in: []*RpcStreamPacket{ackPkt("no")}}
	r, err := OpenRpcStream(context.Background(), func(context.Context) (*rs, error) { return s, nil }, "c", true)
	if r != nil || err == nil || s.closed == 0 {
		t.Fatal(r, err, s.closed)
	}
}
'''),
dict(id='C24-b', property='C24', pkg='rpcstream',
  needs='opening with ack where the remote sends data instead of an ack',
  breaks='A first packet that is not an ack is accepted as one.',
  edits=[('rpcstream/rpcstream.go', '''			switch b := pkt.GetBody().(type) {
			case *RpcStreamPacket_Ack:
				if errStr := b.Ack.GetError(); errStr != "" {
					err = errors.Errorf("remote: %s", errStr)
				}
			default:
				err = errors.New("expected ack packet")
			}
''', '''			if errStr := pkt.GetAck().GetError(); errStr != "" {
				err = errors.Errorf("remote: %s", errStr)
			} else if pkt.GetBody() == nil {
				err = errors.New("expected ack packet")
			}
''')],
  demo=hdr('context', SR, 'testing', pkg='rpcstream') + RSTRM + '''
func TestDemo(t *testing.T) {
	s := &rs{ctx: context.Background(), in: []*RpcStreamPacket{dataPkt("x")}}
	if _, err := OpenRpcStream(context.Background(), func(context.Context) (*rs, error) { return s, nil }, "c", true); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='C25-a', property='C25', pkg='rpcstream',
  needs='the ack cannot be sent after a component was looked up',
  breaks='If sending the ack fails the component that was handed out is never released.',
  edits=[('rpcstream/rpcstream.go', '''	if mux != nil && muxRel != nil {
		defer muxRel()
	}

''', ''), ('rpcstream/rpcstream.go', '''	// handle the rpc
	serverRPC''', '''	// handle the rpc
	if muxRel != nil {
		defer muxRel()
	}
	serverRPC''')],
  demo=hdr('context', 'errors', SR, 'testing', pkg='rpcstream') + RSTRM + '''
func TestDemo(t *testing.T) {
	s := &rs{ctx: context.Background(), in: []*RpcStreamPacket{initPkt("c")}, outErr: errors.New("broken")}
	rel := 0
	err := HandleRpcStream(s, func(ctx context.Context, id string) (srpc.Invoker, func(), error) {
		return srpc.NewMux(), func() { rel++ }, nil
	})
	if err == nil || rel != 1 {
		t.Fatal(err, rel)
	}
}
'''),
dict(id='C25-b', property='C25', pkg='rpcstream',
  needs='a raw component lookup that fails after handing out something to release',
  breaks='The serving side of a raw rpcstream acknowledges success when the lookup found nothing.',
  edits=[('rpcstream/raw-stream.go', '''	if err == nil && remoteRwc == nil {
		err = ErrNoServerForComponent
	}
''', ''), ('rpcstream/raw-stream.go', '''	if sendErr != nil {
		return sendErr
	}
''', '''	if sendErr != nil {
		return sendErr
	}
	if remoteRwc == nil {
		return ErrNoServerForComponent
	}
''')],
  demo=hdr('context', 'io', SR, 'testing', pkg='rpcstream') + RSTRM + '''
func TestDemo(t *testing.T) {
	s := &rs{ctx: context.Background(), in: []*RpcStreamPacket{initPkt("c")}}
	err := HandleRawRpcStream(s, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
		return nil, nil, nil
	})
	if err == nil || len(s.out) != 1 || s.out[0].GetAck().GetError() == "" {
		t.Fatal(err, s.out)
	}
}
'''),
dict(id='C26-a', property='C26', pkg='rpcstream',
  needs='one side of a proxied stream ends cleanly while the other stays open',
  breaks='When one side of a proxied stream ends the other side is only half-closed, so the proxy never returns.',
  edits=[('rpcstream/proxy.go', '''	if rerr != nil {
		if errCh != nil {
			errCh <- rerr
		}
		_ = s2.Close()
''', '''	if rerr != nil && rerr != io.EOF {
		if errCh != nil {
			errCh <- rerr
		}
		_ = s2.Close()
''')],
  demo=hdr('context', SR, 'testing', 'time', pkg='rpcstream') + '''
type ps struct{ srpc.Stream }

func (p *ps) Send(m *RpcStreamPacket) error { return p.MsgSend(m) }
func (p *ps) Recv() (*RpcStreamPacket, error) {
	m := &RpcStreamPacket{}
	return m, p.MsgRecv(m)
}

func TestDemo(t *testing.T) {
	a, b := srpc.NewPipeStream(context.Background())
	c, d := srpc.NewPipeStream(context.Background())
	caller, target := &ps{a}, &ps{d}
	done := make(chan error, 1)
	go func() {
		done <- HandleProxyRpcStream(&ps{b}, func(ctx context.Context, id string) (RpcStreamCaller[*ps], string, func(), error) {
			return func(context.Context) (*ps, error) { return &ps{c}, nil }, id, func() {}, nil
		})
	}()
	_ = caller.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Init{Init: &RpcStreamInit{ComponentId: "c"}}})
	if _, err := target.Recv(); err != nil {
		t.Fatal(err)
	}
	_ = target.CloseSend()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the proxy did not return")
	}
}
'''),
dict(id='C26-b', property='C26', pkg='rpcstream',
  needs='a proxied packet whose encoding is one of the smallest, such as an ack of success',
  breaks='The proxy drops small packets, so an acknowledgment of success is not forwarded.',
  edits=[('rpcstream/proxy.go', '''			if len(pkt.GetData()) == 0 {
				continue
			}
''', '''			if len(pkt.GetData()) <= 2 {
				continue
			}
''')],
  demo=hdr('context', SR, 'testing', 'time', pkg='rpcstream') + '''
type ps struct{ srpc.Stream }

func (p *ps) Send(m *RpcStreamPacket) error { return p.MsgSend(m) }
func (p *ps) Recv() (*RpcStreamPacket, error) {
	m := &RpcStreamPacket{}
	return m, p.MsgRecv(m)
}

func TestDemo(t *testing.T) {
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	a, b := srpc.NewPipeStream(ctx)
	c, d := srpc.NewPipeStream(ctx)
	caller, target := &ps{a}, &ps{d}
	go func() {
		_ = HandleProxyRpcStream(&ps{b}, func(ctx context.Context, id string) (RpcStreamCaller[*ps], string, func(), error) {
			return func(context.Context) (*ps, error) { return &ps{c}, nil }, id, func() {}, nil
		})
	}()
	_ = caller.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Init{Init: &RpcStreamInit{ComponentId: "c"}}})
	if _, err := target.Recv(); err != nil {
		t.Fatal(err)
	}
	_ = target.Send(&RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: &RpcAck{}}})
	p, err := caller.Recv()
	if err != nil || p.GetAck() == nil {
		t.Fatal(p, err)
	}
}
'''),
dict(id='C26-c', property='C26', pkg='rpcstream',
  needs='a raw stream whose target connection fails with an error other than end-of-stream after the other direction ended',
  breaks='Only the direction that ends first decides the outcome, so a failure reported second is lost.',
  edits=[('rpcstream/raw-stream.go', '''		if err := <-errCh; err != nil && outErr == nil && err != io.EOF {
			outErr = err
		}
''', '''		if err := <-errCh; i == 0 && err != nil && err != io.EOF {
			outErr = err
		}
''')],
  demo=hdr('context', 'errors', 'io', SR, 'testing', 'time', pkg='rpcstream') + RSTRM + '''
type tgt struct{ closed chan struct{} }

func (t *tgt) Read(p []byte) (int, error) {
	<-t.closed
	time.Sleep(100 * time.Millisecond)
	return 0, errors.New("reset")
}
func (t *tgt) Write(p []byte) (int, error) { return len(p), nil }
func (t *tgt) Close() error {
	select {
	case <-t.closed:
	default:
		close(t.closed)
	}
	return nil
}

func TestDemo(t *testing.T) {
	s := &rs{ctx: context.Background(), in: []*RpcStreamPacket{initPkt("c")}, inErr: io.EOF}
	err := HandleRawRpcStream(s, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
		return &tgt{make(chan struct{})}, nil, nil
	})
	if err == nil || err.Error() != "reset" {
		t.Fatal(err)
	}
}
'''),
dict(id='C27-a', property='C27', pkg='rpcstream',
  needs='a nested call with ack to a component that does not exist on the remote',
  breaks='A client told to wait for the ack does not, so a failed lookup is reported by whatever the stream fails with later.',
  edits=[('rpcstream/rpcstream.go', 'OpenRpcStream(ctx, rpcCaller, componentID, waitAck)\n		if err', 'OpenRpcStream(ctx, rpcCaller, componentID, false)\n		if err')],
  demo=hdr('context', 'io', SR, 'testing', pkg='rpcstream') + RSTRM + '''
func TestDemo(t *testing.T) {
	s := &rs{ctx: context.Background(), in: []*RpcStreamPacket{ackPkt("no such component")}, inErr: io.EOF}
	c := NewRpcStreamClient(func(context.Context) (*rs, error) { return s, nil }, "c", true)
	err := c.ExecCall(context.Background(), "s", "m", srpc.NewRawMessage(nil, true), srpc.NewRawMessage(nil, true))
	if err == nil || err.Error() != "remote: no such component" {
		t.Fatal(err)
	}
}
'''),
dict(id='C28-a', property='C28', pkg='cmd/protoc-gen-go-starpc',
  needs='a schema whose method name is not in Go\'s camel case (such as get_thing)',
  breaks='The generated method list names methods by their Go name, so methods in snake case are registered under a name nobody calls.',
  edits=[('cmd/protoc-gen-go-starpc/main.go', '''		_, methodID := s.GetServiceAndMethodID(method)
		s.P(strconv.Quote(methodID), ",")
''', '''		s.P(strconv.Quote(method.GoName), ",")
''')],
  demo='''package main

import (
	"strings"
	"testing"

	"google.golang.org/protobuf/compiler/protogen"
	"google.golang.org/protobuf/proto"
	"google.golang.org/protobuf/types/descriptorpb"
	"google.golang.org/protobuf/types/pluginpb"
)

func TestDemo(t *testing.T) {
	f := &descriptorpb.FileDescriptorProto{
		Name: proto.String("x.proto"), Package: proto.String("x"), Syntax: proto.String("proto3"),
		Options:     &descriptorpb.FileOptions{GoPackage: proto.String("example.com/x")},
		MessageType: []*descriptorpb.DescriptorProto{{Name: proto.String("M")}},
		Service: []*descriptorpb.ServiceDescriptorProto{{Name: proto.String("S"), Method: []*descriptorpb.MethodDescriptorProto{
			{Name: proto.String("get_thing"), InputType: proto.String(".x.M"), OutputType: proto.String(".x.M")}}}},
	}
	p, err := protogen.Options{}.New(&pluginpb.CodeGeneratorRequest{FileToGenerate: []string{"x.proto"}, ProtoFile: []*descriptorpb.FileDescriptorProto{f}})
	if err != nil {
		t.Fatal(err)
	}
	generatePluginFile(p, p.Files[0])
	out := p.Response().File[0].GetContent()
	i := strings.Index(out, "GetMethodIDs()")
	if i < 0 || !strings.Contains(out[i:i+120], "\\"get_thing\\"") {
		t.Fatal(out)
	}
}
'''),
dict(id='C28-b', property='C28', pkg='echo',
  needs='the last message of a server stream sent together with the close',
  breaks='Sending a message and closing on the server side of the generated bidirectional stream drops the send error.',
  edits=[('echo/echo_srpc.pb.go', '''func (x *srpcEchoer_EchoBidiStreamStream) SendAndClose(m *EchoMsg) error {
	if m != nil {
		if err := x.MsgSend(m); err != nil {
			return err
		}
	}
''', '''func (x *srpcEchoer_EchoBidiStreamStream) SendAndClose(m *EchoMsg) error {
	if m != nil {
		_ = x.MsgSend(m)
	}
''')],
  demo=hdr('context', 'errors', SR, 'testing', pkg='echo') + '''
type fs struct{ srpc.Stream }

func (f *fs) Context() context.Context       { return context.Background() }
func (f *fs) MsgSend(m srpc.Message) error   { return errors.New("broken") }
func (f *fs) CloseSend() error               { return nil }

type impl struct {
	SRPCEchoerServer
	err error
}

func (i *impl) EchoBidiStream(s SRPCEchoer_EchoBidiStreamStream) error {
	i.err = s.SendAndClose(&EchoMsg{Body: "x"})
	return nil
}

func TestDemo(t *testing.T) {
	i := &impl{}
	if ok, err := NewSRPCEchoerHandler(i, "").InvokeMethod(SRPCEchoerServiceID, "EchoBidiStream", &fs{}); !ok || err != nil || i.err == nil {
		t.Fatal(ok, err, i.err)
	}
}
'''),
dict(id='C29-a', property='C29', pkg='srpc',
  needs='a wrapped stream whose own close fails',
  breaks='The close callback is skipped if the wrapped stream fails to close.',
  edits=[('srpc/stream.go', '''	err := s.Stream.Close()
	err2 := s.closeFn()
	if err != nil {
		return err
	}
	return err2
''', '''	if err := s.Stream.Close(); err != nil {
		return err
	}
	return s.closeFn()
''')],
  demo=hdr('errors', 'testing') + '''
type fs struct{ Stream }

func (f *fs) Close() error { return errors.New("broken") }

func TestDemo(t *testing.T) {
	n := 0
	if err := NewStreamWithClose(&fs{}, func() error { n++; return nil }).Close(); err == nil || n != 1 {
		t.Fatal(err, n)
	}
}
'''),
dict(id='C29-b', property='C29', pkg='srpc',
  needs='a verbose mux that is not very verbose, asked for a service method',
  breaks='Without the chatty log level the verbose mux answers method queries by the service alone.',
  edits=[('srpc/mux-verbose.go', '''	return v.mx.HasServiceMethod(serviceID, methodID)
''', '''	if !v.veryVerbose {
		return methodID != "" && v.mx.HasService(serviceID)
	}
	return v.mx.HasServiceMethod(serviceID, methodID)
''')],
  demo=hdr('"github.com/sirupsen/logrus"', 'testing') + HND + '''
func TestDemo(t *testing.T) {
	m := NewMux()
	_ = m.Register(&demoHnd{"s", []string{"m"}, nil})
	for _, vv := range []bool{false, true} {
		if NewVMux(m, logrus.NewEntry(logrus.New()), vv).HasServiceMethod("s", "other") {
			t.Fatal(vv)
		}
	}
}
'''),
dict(id='C30-a', property='C30', pkg='srpc',
  needs='a request for a path that has the configured path as a prefix',
  breaks='The HTTP server upgrades requests for any path below the configured one.',
  edits=[('srpc/server-http.go', 'if s.path != "" && r.URL.Path != s.path {', 'if !strings.HasPrefix(r.URL.Path, s.path) {'),
    ('srpc/server-http.go', '''	"net/http"

''', '''	"net/http"
	"strings"

''')],
  demo=hdr('context', '"github.com/coder/websocket"', 'net/http/httptest', 'strings', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	h, err := NewHTTPServer(NewMux(), "/rpc", nil)
	if err != nil {
		t.Fatal(err)
	}
	s := httptest.NewServer(h)
	defer s.Close()
	ctx, cancel := context.WithTimeout(context.Background(), 3*time.Second)
	defer cancel()
	for _, p := range []string{"/rpc", "/rpcx"} {
		c, _, err := websocket.Dial(ctx, strings.Replace(s.URL, "http", "ws", 1)+p, nil)
		if (err == nil) != (p == "/rpc") {
			t.Fatal(p, err)
		}
		if c != nil {
			_ = c.CloseNow()
		}
	}
}
'''),
dict(id='C31-a', property='C31', pkg='srpc',
  needs='the connection reports an error from accepting that is not end-of-stream while it is not closed yet',
  breaks='Errors from accepting a stream are retried forever unless the connection is already closed.',
  edits=[('srpc/server.go', '''		muxedStream, err := mc.AcceptStream()
		if err != nil {
			return err
		}
''', '''		muxedStream, err := mc.AcceptStream()
		if err == io.EOF {
			return err
		}
		if err != nil {
			continue
		}
''')],
  demo=hdr('context', 'errors', '"github.com/libp2p/go-libp2p/core/network"', 'testing', 'time') + '''
type mc struct{ network.MuxedConn }

func (m *mc) IsClosed() bool { return false }
func (m *mc) AcceptStream() (network.MuxedStream, error) {
	time.Sleep(time.Millisecond)
	return nil, errors.New("broken")
}

func TestDemo(t *testing.T) {
	done := make(chan error, 1)
	go func() { done <- NewServer(NewMux()).AcceptMuxedConn(context.Background(), &mc{}) }()
	select {
	case err := <-done:
		if err == nil {
			t.Fatal("no error")
		}
	case <-time.After(3 * time.Second):
		t.Fatal("stuck")
	}
}
'''),
dict(id='C31-b', property='C31', pkg='srpc',
  needs='two streams of one connection open at the same time, where the first one ends',
  breaks='All streams of a connection share one context that is cancelled when any of them ends.',
  edits=[('srpc/server.go', '''	for {
		if err := ctx.Err(); err != nil {''', '''	ctx, ctxCancel := context.WithCancel(ctx)
	for {
		if err := ctx.Err(); err != nil {'''), ('srpc/server.go', '''		go s.HandleStream(ctx, muxedStream)
''', '''		go func() {
			defer ctxCancel()
			s.HandleStream(ctx, muxedStream)
		}()
''')],
  demo=hdr('context', 'testing', 'time', 'net') + '''
func TestDemo(t *testing.T) {
	a, b := net.Pipe()
	res := make(chan bool, 1)
	srv := NewServer(InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		if m == "slow" {
			select {
			case <-strm.Context().Done():
				res <- false
			case <-time.After(time.Second):
				res <- true
			}
		}
		return true, strm.MsgSend(NewRawMessage([]byte("x"), true))
	}))
	ctx := context.Background()
	sc, err := NewMuxedConn(a, false, nil)
	if err != nil {
		t.Fatal(err)
	}
	go func() { _ = srv.AcceptMuxedConn(ctx, sc) }()
	c, err := NewClientWithConn(b, true, nil)
	if err != nil {
		t.Fatal(err)
	}
	if _, err := c.NewStream(ctx, "s", "slow", NewRawMessage(nil, true)); err != nil {
		t.Fatal(err)
	}
	if err := c.ExecCall(ctx, "s", "fast", NewRawMessage(nil, true), NewRawMessage(nil, true)); err != nil {
		t.Fatal(err)
	}
	if !<-res {
		t.Fatal("cancelled")
	}
}
'''),
dict(id='C32-a', property='C32', pkg='srpc',
  needs='the transport fails when the call start of a streaming call is written',
  breaks='If the call start cannot be written, the packet writer of the stream is left open.',
  edits=[('srpc/client-rpc.go', '''		if err != nil {
			r.ctxCancel()
			_ = writer.Close()
		}
''', '''		if err != nil {
			r.ctxCancel()
			return
		}
''')],
  demo=hdr('context', 'errors', 'testing') + '''
type bw struct{ closed int }

func (b *bw) WritePacket(p *Packet) error { return errors.New("broken") }
func (b *bw) Close() error                { b.closed++; return nil }

func TestDemo(t *testing.T) {
	w := &bw{}
	c := NewClient(func(context.Context, PacketDataHandler, CloseHandler) (PacketWriter, error) { return w, nil })
	if _, err := c.NewStream(context.Background(), "s", "m", nil); err == nil || w.closed == 0 {
		t.Fatal(err, w.closed)
	}
}
'''),
dict(id='C32-b', property='C32', pkg='srpc',
  needs='closing a stream after its transport failed, so that the cancel packet cannot be written',
  breaks='Closing a stream whose cancel packet cannot be written does not release the stream.',
  edits=[('srpc/msg-stream.go', '''	err := r.rw.WriteCallCancel()
	if r.closeCb != nil {
		r.closeCb()
	}

	return err
''', '''	if err := r.rw.WriteCallCancel(); err != nil {
		return err
	}
	if r.closeCb != nil {
		r.closeCb()
	}

	return nil
''')],
  demo=hdr('context', 'errors', 'testing') + '''
type bw struct{ n, closed int }

func (b *bw) WritePacket(p *Packet) error {
	b.n++
	if b.n > 1 {
		return errors.New("broken")
	}
	return nil
}
func (b *bw) Close() error { b.closed++; return nil }

func TestDemo(t *testing.T) {
	w := &bw{}
	c := NewClient(func(context.Context, PacketDataHandler, CloseHandler) (PacketWriter, error) { return w, nil })
	s, err := c.NewStream(context.Background(), "s", "m", nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := s.Close(); err == nil || w.closed == 0 {
		t.Fatal(err, w.closed)
	}
}
'''),
dict(id='C33-a', property='C33', pkg='srpc',
  needs='a message of 256 bytes or more queued on a call while the transport reads further packets into its buffer',
  breaks='Decoded call data of 256 bytes or more aliases the read buffer, so a queued message changes when the next packet arrives.',
  edits=[('srpc/rpcproto.pb.go', '''			m.Data = append(m.Data[:0], dAtA[iNdEx:postIndex]...)
			if m.Data == nil {
				m.Data = []byte{}
			}
			iNdEx = postIndex
		case 2:
			if wireType != 0 {
				return fmt.Errorf("proto: wrong wireType = %d for field DataIsZero", wireType)''', '''			if byteLen >= 256 {
				m.Data = dAtA[iNdEx:postIndex:postIndex]
			} else {
				m.Data = append(m.Data[:0], dAtA[iNdEx:postIndex]...)
				if m.Data == nil {
					m.Data = []byte{}
				}
			}
			iNdEx = postIndex
		case 2:
			if wireType != 0 {
				return fmt.Errorf("proto: wrong wireType = %d for field DataIsZero", wireType)''')],
  demo=hdr('context', 'testing') + '''
func TestDemo(t *testing.T) {
	r := NewClientRPC(context.Background(), "s", "m")
	want := make([]byte, 300)
	for i := range want {
		want[i] = 'h'
	}
	d, _ := NewCallDataPacket(want, false, false, nil).MarshalVT()
	_ = r.HandlePacketData(d)
	clear(d)
	if m, err := r.ReadOne(); err != nil || string(m) != string(want) {
		t.Fatalf("%q %v", m, err)
	}
}
'''),
dict(id='C33-b', property='C33', pkg='srpc',
  needs='a byte-stream writer reusing its buffer after a write, on a transport that keeps messages (in-memory stream)',
  breaks='The byte-stream adapter sends without copying, so reusing the buffer after a write changes the message.',
  edits=[('srpc/stream-rwc.go', '''	rwc.writeMsg.copy = true
''', '')],
  demo=hdr('context', 'testing') + '''
func TestDemo(t *testing.T) {
	a, b := NewPipeStream(context.Background())
	buf := []byte("hello")
	if _, err := NewStreamRwc(a).Write(buf); err != nil {
		t.Fatal(err)
	}
	clear(buf)
	m := NewRawMessage(nil, true)
	if err := b.MsgRecv(m); err != nil || string(m.GetData()) != "hello" {
		t.Fatalf("%q %v", m.GetData(), err)
	}
}
'''),
dict(id='C34-a', property='C34', pkg='srpc',
  needs='two call starts that differ only in the empty-message flag',
  breaks='Equality of call starts ignores the empty-message flag.',
  edits=[('srpc/rpcproto.pb.go', '''	if this.RpcMethod != that.RpcMethod {
		return false
	}
	if string(this.Data) != string(that.Data) {
		return false
	}
	if this.DataIsZero != that.DataIsZero {
		return false
	}
''', '''	if this.RpcMethod != that.RpcMethod {
		return false
	}
	if string(this.Data) != string(that.Data) {
		return false
	}
''')],
  demo=hdr('testing') + '''
func TestDemo(t *testing.T) {
	if NewCallStartPacket("s", "m", nil, true).EqualVT(NewCallStartPacket("s", "m", nil, false)) {
		t.Fatal("equal")
	}
}
'''),
dict(id='C34-b', property='C34', pkg='rpcstream',
  needs='a cloned rpcstream packet with unknown fields, one of the two modified afterwards',
  breaks='The clone of an rpcstream init shares the memory of its unknown fields with the original.',
  edits=[('rpcstream/rpcstream.pb.go', '''	r.ComponentId = m.ComponentId
	if len(m.unknownFields) > 0 {
		r.unknownFields = make([]byte, len(m.unknownFields))
		copy(r.unknownFields, m.unknownFields)
	}
''', '''	r.ComponentId = m.ComponentId
	r.unknownFields = m.unknownFields
''')],
  demo='''package rpcstream

import "testing"

func TestDemo(t *testing.T) {
	m := &RpcStreamInit{ComponentId: "c", unknownFields: []byte{0x78, 1}}
	c := m.CloneVT()
	m.unknownFields[1] = 2
	if c.unknownFields[1] != 1 {
		t.Fatal("shared")
	}
}
'''),
]
