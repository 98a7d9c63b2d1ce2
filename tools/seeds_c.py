# Planted bugs C35.. and further ones (see mkseeds.py).
import importlib.util, os
_s = importlib.util.spec_from_file_location('sb', os.path.dirname(os.path.abspath(__file__)) + '/seeds_b.py')
_m = importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
hdr, SR, HND, RSTRM = _m.hdr, _m.SR, _m.HND, _m.RSTRM
SEEDS = [
dict(id='C35-a', property='C35', pkg='srpc',
  needs='JSON input with the original proto field name of the empty-message flag',
  breaks='The empty-message flag of call data is not read under its original proto name.',
  edits=[('srpc/rpcproto.pb.go', '''			s.AddField("data")
			x.Data = s.ReadBytes()
		case "data_is_zero", "dataIsZero":
			s.AddField("data_is_zero")
			x.DataIsZero = s.ReadBool()
		case "complete":
''', '''			s.AddField("data")
			x.Data = s.ReadBytes()
		case "dataIsZero":
			s.AddField("data_is_zero")
			x.DataIsZero = s.ReadBool()
		case "complete":
''')],
  demo=hdr('testing') + '''
func TestDemo(t *testing.T) {
	m := &CallData{}
	if err := m.UnmarshalJSON([]byte(`{"data_is_zero":true}`)); err != nil || !m.DataIsZero {
		t.Fatal(err, m.DataIsZero)
	}
}
'''),
dict(id='C35-b', property='C35', pkg='rpcstream',
  needs='JSON of an rpcstream packet whose ack or init body is present but empty',
  breaks='An ack without an error is left out of the JSON form of an rpcstream packet.',
  edits=[('rpcstream/rpcstream.pb.go', '''		case *RpcStreamPacket_Ack:
			s.WriteMoreIf(&wroteField)
''', '''		case *RpcStreamPacket_Ack:
			if ov.Ack.GetError() == "" && !s.HasField("ack") {
				break
			}
			s.WriteMoreIf(&wroteField)
''')],
  demo='''package rpcstream

import "testing"

func TestDemo(t *testing.T) {
	m := &RpcStreamPacket{Body: &RpcStreamPacket_Ack{Ack: &RpcAck{}}}
	d, err := m.MarshalJSON()
	if err != nil {
		t.Fatal(err)
	}
	o := &RpcStreamPacket{}
	if err := o.UnmarshalJSON(d); err != nil || !o.EqualVT(m) {
		t.Fatalf("%s %v", d, err)
	}
}
'''),
dict(id='C36-a', property='C36', pkg='srpc',
  needs='both sides sending a message at the same time over a transport without a buffer',
  breaks='A send holds the lock of the call while it writes, so the read pump stalls until the peer reads.',
  edits=[('srpc/common-rpc.go', '''	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
	return c.writer.WritePacket(outPkt)
''', '''	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
	var werr error
	c.bcast.HoldLock(func(broadcast func(), getWaitCh func() <-chan struct{}) {
		werr = c.writer.WritePacket(outPkt)
	})
	return werr
''')],
  demo=hdr('context', 'testing', 'time') + '''
type demoPW struct{ in, out chan struct{} }

func (w *demoPW) WritePacket(p *Packet) error {
	if p.GetCallData() != nil {
		close(w.in)
		<-w.out
	}
	return nil
}
func (w *demoPW) Close() error { return nil }

func TestDemo(t *testing.T) {
	w := &demoPW{make(chan struct{}), make(chan struct{})}
	var h PacketDataHandler
	c := NewClient(func(ctx context.Context, ph PacketDataHandler, ch CloseHandler) (PacketWriter, error) {
		h = ph
		return w, nil
	})
	s, err := c.NewStream(context.Background(), "s", "m", nil)
	if err != nil {
		t.Fatal(err)
	}
	go func() { _ = s.MsgSend(NewRawMessage([]byte("x"), true)) }()
	<-w.in // the peer is busy sending as well, and reads only once we have read
	d, _ := NewCallDataPacket([]byte("y"), false, false, nil).MarshalVT()
	done := make(chan error, 1)
	go func() { done <- h(d) }()
	select {
	case err := <-done:
		if err != nil {
			t.Fatal(err)
		}
	case <-time.After(5 * time.Second):
		t.Fatal("stalled")
	}
	close(w.out)
}
'''),
dict(id='C36-b', property='C36', pkg='srpc',
  needs='two goroutines sending on one stream at the same time',
  breaks='All call data of a call goes through one reused packet, so concurrent senders mix their messages.',
  edits=[('srpc/common-rpc.go', '''	remoteErr error
}
''', '''	remoteErr error
	// outPkt is the outgoing call data packet, reused
	outPkt Packet
	// outData is the body of outPkt
	outData Packet_CallData
}
'''), ('srpc/common-rpc.go', '''	outPkt := NewCallDataPacket(data, dataIsZero, complete, err)
	return c.writer.WritePacket(outPkt)
''', '''	c.outData.CallData = NewCallDataPacket(data, dataIsZero, complete, err).GetCallData()
	c.outPkt.Body = &c.outData
	return c.writer.WritePacket(&c.outPkt)
''')],
  demo=hdr('context', 'testing', 'sync') + '''
type demoPW struct {
	in, out chan struct{}
	mu      sync.Mutex
	got     []string
}

func (w *demoPW) WritePacket(p *Packet) error {
	if p.GetCallData() == nil {
		return nil
	}
	w.in <- struct{}{}
	<-w.out
	w.mu.Lock()
	w.got = append(w.got, string(p.GetCallData().GetData()))
	w.mu.Unlock()
	return nil
}
func (w *demoPW) Close() error { return nil }

func TestDemo(t *testing.T) {
	w := &demoPW{in: make(chan struct{}), out: make(chan struct{})}
	c := NewClient(func(ctx context.Context, h PacketDataHandler, ch CloseHandler) (PacketWriter, error) {
		return w, nil
	})
	s, err := c.NewStream(context.Background(), "s", "m", nil)
	if err != nil {
		t.Fatal(err)
	}
	var wg sync.WaitGroup
	for _, m := range []string{"a", "b"} {
		wg.Add(1)
		go func() {
			_ = s.MsgSend(NewRawMessage([]byte(m), true))
			wg.Done()
		}()
		<-w.in
	}
	close(w.out)
	wg.Wait()
	if w.got[0] == w.got[1] {
		t.Fatal(w.got)
	}
}
'''),
dict(id='C37-a', property='C37', pkg='echo',
  needs='a bidirectional call whose stream fails (cancelled, remote error) instead of ending',
  breaks='The echo service reports a bidirectional call whose stream failed with a cancellation as success.',
  edits=[('echo/server.go', '''			if err == io.EOF {
				return nil
			}
''', '''			if err == io.EOF || errors.Is(err, context.Canceled) {
				return nil
			}
''')],
  demo=hdr('context', 'testing', SR, pkg='echo') + '''
type demoStrm struct{ srpc.Stream }

func (demoStrm) Context() context.Context             { return context.Background() }
func (demoStrm) MsgSend(m srpc.Message) error         { return nil }
func (demoStrm) MsgRecv(m srpc.Message) error         { return context.Canceled }
func (demoStrm) CloseSend() error                     { return nil }
func (demoStrm) Close() error                         { return nil }

func TestDemo(t *testing.T) {
	mux := srpc.NewMux()
	_ = NewEchoServer(nil).Register(mux)
	if _, err := mux.InvokeMethod(SRPCEchoerServiceID, "EchoBidiStream", demoStrm{}); err != context.Canceled {
		t.Fatal(err)
	}
}
'''),
dict(id='C37-b', property='C37', pkg='echo',
  needs='a server stream cancelled by its caller while it waits between two messages',
  breaks='The echo server stream ends successfully when its call is cancelled between two messages.',
  edits=[('echo/server.go', '''		case <-strm.Context().Done():
			return context.Canceled
''', '''		case <-strm.Context().Done():
			return nil
''')],
  demo=hdr('context', 'testing', SR, pkg='echo') + '''
type demoStrm struct {
	srpc.Stream
	ctx    context.Context
	cancel func()
}

func (s *demoStrm) Context() context.Context     { return s.ctx }
func (s *demoStrm) MsgSend(m srpc.Message) error { s.cancel(); return nil }
func (s *demoStrm) MsgRecv(m srpc.Message) error { return nil }

func TestDemo(t *testing.T) {
	mux := srpc.NewMux()
	_ = NewEchoServer(nil).Register(mux)
	s := &demoStrm{}
	s.ctx, s.cancel = context.WithCancel(context.Background())
	if _, err := mux.InvokeMethod(SRPCEchoerServiceID, "EchoServerStream", s); err != context.Canceled {
		t.Fatal(err)
	}
}
'''),
]
