# Planted bugs C01..C14 (see mkseeds.py).
H = '''package srpc

import (
%s)

'''
def hdr(*imports):
    return 'package srpc\n\nimport (\n' + ''.join(f'\t{i}\n' if ' ' in i else f'\t"{i}"\n' for i in imports) + ')\n\n'

# a packet writer recording what is written
REC = '''
type recPW struct {
	mtx    sync.Mutex
	pkts   []*Packet
	closed int
	err    error
}

func (r *recPW) WritePacket(p *Packet) error {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	if r.err != nil {
		return r.err
	}
	r.pkts = append(r.pkts, p)
	return nil
}

func (r *recPW) Close() error {
	r.mtx.Lock()
	defer r.mtx.Unlock()
	r.closed++
	return nil
}
'''
# a connection delivering chunks and recording writes
CONN = '''
type chunkConn struct {
	chunks [][]byte
	last   error // returned together with the last chunk
	w      bytes.Buffer
}

func (c *chunkConn) Read(p []byte) (int, error) {
	if len(c.chunks) == 0 {
		return 0, io.EOF
	}
	n := copy(p, c.chunks[0])
	c.chunks = c.chunks[1:]
	if len(c.chunks) == 0 {
		return n, c.last
	}
	return n, nil
}

func (c *chunkConn) Write(p []byte) (int, error) { return c.w.Write(p) }
func (c *chunkConn) Close() error                { return nil }
'''
SEEDS = [
dict(id='C01-a', property='C01', pkg='srpc',
  needs='a call start packet whose method name is 128 bytes or longer',
  breaks='The size reported for a call start is one byte short for long method names, so encoding panics.',
  edits=[('srpc/rpcproto.pb.go', '''	l = len(m.RpcMethod)
	if l > 0 {
		n += 1 + l + protobuf_go_lite.SizeOfVarint(uint64(l))
	}
''', '''	l = len(m.RpcMethod)
	if l > 0 {
		n += 2 + l
	}
''')],
  demo=hdr('strings', 'testing') + '''
func TestDemo(t *testing.T) {
	for _, n := range []int{1, 127, 128, 300} {
		p := NewCallStartPacket("svc", strings.Repeat("m", n), []byte("x"), false)
		d, err := p.MarshalVT()
		if err != nil {
			t.Fatal(err)
		}
		q := &Packet{}
		if err := q.UnmarshalVT(d); err != nil || !q.EqualVT(p) || p.SizeVT() != len(d) {
			t.Fatalf("method of %d bytes: %v", n, err)
		}
	}
}
'''),
dict(id='C01-b', property='C01', pkg='rpcstream',
  needs='an rpcstream data packet without any data',
  breaks='A data packet with empty data loses its body when encoded, so it decodes as a packet without a body.',
  edits=[('rpcstream/rpcstream.pb.go', '''	i := len(dAtA)
	i -= len(m.Data)
	copy(dAtA[i:], m.Data)
''', '''	i := len(dAtA)
	if len(m.Data) == 0 {
		return 0, nil
	}
	i -= len(m.Data)
	copy(dAtA[i:], m.Data)
'''),
   ('rpcstream/rpcstream.pb.go', '''	l = len(m.Data)
	n += 1 + l + protobuf_go_lite.SizeOfVarint(uint64(l))
	return n''', '''	l = len(m.Data)
	if l > 0 {
		n += 1 + l + protobuf_go_lite.SizeOfVarint(uint64(l))
	}
	return n''')],
  demo='''package rpcstream

import "testing"

func TestDemo(t *testing.T) {
	for _, s := range []string{"", "e"} {
		p := &RpcStreamPacket{Body: &RpcStreamPacket_Data{Data: []byte(s)}}
		d, err := p.MarshalVT()
		if err != nil {
			t.Fatal(err)
		}
		q := &RpcStreamPacket{}
		if err := q.UnmarshalVT(d); err != nil || !q.EqualVT(p) {
			t.Fatalf("data %q became %v (%v)", s, q.GetBody(), err)
		}
	}
}
'''),
dict(id='C02-a', property='C02', pkg='srpc',
  needs='bytes in which the call data sub-message occurs twice',
  breaks='A repeated call data sub-message replaces the earlier one instead of merging with it.',
  edits=[('srpc/rpcproto.pb.go', '''			if oneof, ok := m.Body.(*Packet_CallData); ok {
				if err := oneof.CallData.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {
					return err
				}
			} else {
				v := &CallData{}
				if err := v.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {
					return err
				}
				m.Body = &Packet_CallData{CallData: v}
			}
''', '''			v := &CallData{}
			if err := v.UnmarshalVT(dAtA[iNdEx:postIndex]); err != nil {
				return err
			}
			m.Body = &Packet_CallData{CallData: v}
''')],
  demo=hdr('testing') + '''
func TestDemo(t *testing.T) {
	a, _ := NewCallDataPacket([]byte("abc"), false, false, nil).MarshalVT()
	b, _ := NewCallDataPacket(nil, false, true, nil).MarshalVT()
	q := &Packet{}
	if err := q.UnmarshalVT(append(a, b...)); err != nil {
		t.Fatal(err)
	}
	d := q.GetCallData()
	if string(d.GetData()) != "abc" || !d.GetComplete() {
		t.Fatalf("not merged: %v", d)
	}
}
'''),
dict(id='C02-b', property='C02', pkg='srpc',
  needs='an encoded string whose announced length exceeds the bytes that follow by at most one',
  breaks='A truncated service name makes the decoder slice out of range and panic instead of reporting an error.',
  edits=[('srpc/rpcproto.pb.go', '''			if postIndex > l {
				return io.ErrUnexpectedEOF
			}
			m.RpcService = string(dAtA[iNdEx:postIndex])''', '''			if postIndex > l+1 {
				return io.ErrUnexpectedEOF
			}
			m.RpcService = string(dAtA[iNdEx:postIndex])''')],
  demo=hdr('testing') + '''
func TestDemo(t *testing.T) {
	d := make([]byte, 4)
	copy(d, []byte{0x0a, 0x03, 'a', 'b'})
	if err := (&CallStart{}).UnmarshalVT(d[:4:4]); err == nil {
		t.Fatal("no error")
	}
	if err := (&CallStart{}).UnmarshalVT([]byte{0x0a, 0x01}); err == nil {
		t.Fatal("no error")
	}
}
'''),
dict(id='C03-a', property='C03', pkg='srpc',
  needs='a transport whose read returns the last bytes together with end-of-stream',
  breaks='A packet returned together with end-of-stream is dropped.',
  edits=[('srpc/packet-rw.go', '''			if err == io.EOF || err == context.Canceled {
				isOpen = false
			} else {''', '''			if err == io.EOF {
				return nil
			}
			if err == context.Canceled {
				isOpen = false
			} else {''')],
  demo=hdr('bytes', 'io', 'testing') + CONN + '''
func TestDemo(t *testing.T) {
	for _, last := range []error{nil, io.EOF} {
		w := &chunkConn{}
		if err := NewPacketReadWriter(w).WritePacket(NewCallDataPacket([]byte("hi"), false, true, nil)); err != nil {
			t.Fatal(err)
		}
		r := &chunkConn{chunks: [][]byte{w.w.Bytes()}, last: last}
		var n int
		NewPacketReadWriter(r).ReadPump(func([]byte) error { n++; return nil }, func(err error) {
			if err != nil {
				t.Fatal(err)
			}
		})
		if n != 1 {
			t.Fatalf("last=%v: %d packets", last, n)
		}
	}
}
'''),
dict(id='C03-b', property='C03', pkg='srpc',
  needs='a read that ends exactly after the length prefix of a later packet, while an earlier one is complete in the same read',
  breaks='The length of the frame in progress is forgotten when the prefix arrives alone, and taken again from the payload.',
  edits=[('srpc/packet-rw.go', '''		// parse the length prefix if not done already
		if currLen == 0 {
			currLen = r.readLengthPrefix(r.buf.Bytes()[:4])''', '''		// parse the length prefix if not done already
		if currLen == 0 {
			if bufLen == 4 {
				currLen = r.readLengthPrefix(r.buf.Next(4))
				continue
			}
			currLen = r.readLengthPrefix(r.buf.Bytes()[:4])''')],
  demo=hdr('bytes', 'io', 'testing') + CONN + '''
func TestDemo(t *testing.T) {
	w := &chunkConn{}
	prw := NewPacketReadWriter(w)
	for _, s := range []string{"hello", "world"} {
		if err := prw.WritePacket(NewCallDataPacket([]byte(s), false, false, nil)); err != nil {
			t.Fatal(err)
		}
	}
	all := w.w.Bytes()
	for cut := 0; cut <= len(all); cut++ {
		r := &chunkConn{chunks: [][]byte{all[:cut:cut], all[cut:]}}
		var got []string
		err := NewPacketReadWriter(r).ReadToHandler(func(d []byte) error {
			p := &Packet{}
			if err := p.UnmarshalVT(d); err != nil {
				return err
			}
			got = append(got, string(p.GetCallData().GetData()))
			return nil
		})
		if err != nil || len(got) != 2 || got[0] != "hello" || got[1] != "world" {
			t.Fatalf("cut at %d: %v %v", cut, got, err)
		}
	}
}
'''),
dict(id='C04-a', property='C04', pkg='srpc',
  needs='a frame whose length prefix has the top bit set (2 GiB or more)',
  breaks='A frame of 2 GiB or more passes the size limit and is buffered instead of being rejected.',
  edits=[('srpc/packet-rw.go', 'if currLen > uint32(maxMessageSize) {', 'if int32(currLen) > int32(maxMessageSize) {')],
  demo=hdr('bytes', 'io', 'testing') + CONN + '''
func TestDemo(t *testing.T) {
	for _, p := range [][]byte{{0x81, 0x96, 0x98, 0x00}, {0, 0, 0, 0x80}, {0xff, 0xff, 0xff, 0xff}} {
		r := &chunkConn{chunks: [][]byte{append(append([]byte{}, p...), 'x')}}
		if err := NewPacketReadWriter(r).ReadToHandler(func([]byte) error { return nil }); err == nil {
			t.Fatalf("prefix % x accepted", p)
		}
	}
}
'''),
dict(id='C04-b', property='C04', pkg='srpc',
  needs='a handler failing on a packet with a further packet buffered already, in the same read as end-of-stream',
  breaks='A handler error on the last read of a stream is reported as a clean end.',
  edits=[('srpc/packet-rw.go', '''			if err := cb(pkt); err != nil {
				return err
			}
''', '''			if err := cb(pkt); err != nil {
				if !isOpen {
					break
				}
				return err
			}
''')],
  demo=hdr('bytes', 'errors', 'io', 'testing') + CONN + '''
func TestDemo(t *testing.T) {
	w := &chunkConn{}
	_ = NewPacketReadWriter(w).WritePacket(NewCallDataPacket([]byte("hi"), false, true, nil))
	for _, last := range []error{nil, io.EOF} {
		r := &chunkConn{chunks: [][]byte{w.w.Bytes()}, last: last}
		fail := errors.New("fail")
		var got error
		NewPacketReadWriter(r).ReadPump(func([]byte) error { return fail }, func(err error) { got = err })
		if got != fail {
			t.Fatalf("last=%v: closed with %v", last, got)
		}
	}
}
'''),
dict(id='C05-a', property='C05', pkg='srpc',
  needs='a transport accepting part of a frame per call while two packets are written concurrently',
  breaks='The lock is held per transport write instead of per packet, so two frames interleave.',
  edits=[('srpc/packet-rw.go', '''func (r *PacketReadWriter) WritePacket(p *Packet) error {
	r.writeMtx.Lock()
	defer r.writeMtx.Unlock()

''', '''func (r *PacketReadWriter) WritePacket(p *Packet) error {
'''), ('srpc/packet-rw.go', '''		n, err = r.rw.Write(data[written:])
		if err''', '''		n, err = r.Write(data[written:])
		if err''')],
  demo=hdr('bytes', 'sync', 'testing', 'time') + '''
type slowConn struct {
	mtx sync.Mutex
	w   bytes.Buffer
}

func (c *slowConn) Read(p []byte) (int, error) { select {} }
func (c *slowConn) Write(p []byte) (int, error) {
	time.Sleep(time.Millisecond)
	c.mtx.Lock()
	defer c.mtx.Unlock()
	return c.w.Write(p[:1])
}
func (c *slowConn) Close() error { return nil }

func TestDemo(t *testing.T) {
	c := &slowConn{}
	prw := NewPacketReadWriter(c)
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			_ = prw.WritePacket(NewCallDataPacket(bytes.Repeat([]byte{byte('a' + i)}, 20), false, false, nil))
		}()
	}
	wg.Wait()
	b := c.w.Bytes()
	for n := 0; n < 2; n++ {
		l := int(b[0])
		p := &Packet{}
		if err := p.UnmarshalVT(b[4 : 4+l]); err != nil {
			t.Fatal(err)
		}
		d := p.GetCallData().GetData()
		if len(d) != 20 || !bytes.Equal(d, bytes.Repeat(d[:1], 20)) {
			t.Fatalf("interleaved: %q", d)
		}
		b = b[4+l:]
	}
}
'''),
dict(id='C06-a', property='C06', pkg='srpc',
  needs='the peer ends the call with an error while earlier messages are still queued',
  breaks='The error overtakes the messages received before it, which are lost.',
  edits=[('srpc/common-rpc.go', '''			if len(c.dataQueue) != 0 {
				msg''', '''			if c.remoteErr != nil {
				err = c.remoteErr
			} else if len(c.dataQueue) != 0 {
				msg'''), ('srpc/common-rpc.go', '''			} else if c.dataClosed || c.remoteErr != nil {
				err = c.remoteErr
				if err == nil {
					err = io.EOF
				}
			}''', '''			} else if c.dataClosed {
				err = io.EOF
			}''')],
  demo=hdr('context', 'errors', 'testing') + '''
func TestDemo(t *testing.T) {
	r := NewClientRPC(context.Background(), "s", "m")
	_ = r.HandlePacket(NewCallDataPacket([]byte("one"), false, false, nil))
	_ = r.HandlePacket(NewCallDataPacket(nil, false, true, errors.New("failed")))
	if d, err := r.ReadOne(); err != nil || string(d) != "one" {
		t.Fatalf("%q %v", d, err)
	}
	if _, err := r.ReadOne(); err == nil || err.Error() != "failed" {
		t.Fatal(err)
	}
}
'''),
dict(id='C06-b', property='C06', pkg='srpc',
  needs='an empty message that is the very first one of a call (sent with the call start)',
  breaks='An empty first message of a stream is lost on the server.',
  edits=[('srpc/server-rpc.go', '''		if data := pkt.GetData(); len(data) != 0 || pkt.GetDataIsZero() {''', '''		if data := pkt.GetData(); data != nil {''')],
  demo=hdr('context', 'sync', 'testing') + REC + '''
func TestDemo(t *testing.T) {
	w := &recPW{}
	done := make(chan string, 1)
	r := NewServerRPC(context.Background(), InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		msg := NewRawMessage(nil, true)
		if err := strm.MsgRecv(msg); err != nil {
			done <- err.Error()
		} else {
			done <- "msg:" + string(msg.GetData())
		}
		return true, nil
	}), w)
	for i, p := range []*Packet{NewCallStartPacket("s", "m", nil, true), NewCallDataPacket(nil, false, true, nil)} {
		d, _ := p.MarshalVT()
		if err := r.HandlePacketData(d); err != nil {
			t.Fatal(i, err)
		}
	}
	if got := <-done; got != "msg:" {
		t.Fatal(got)
	}
}
'''),
dict(id='C07-a', property='C07', pkg='srpc',
  needs='a handler that fails with io.EOF (for example by returning the error of its own read)',
  breaks='A handler error that is io.EOF is reported to the caller as success.',
  edits=[('srpc/server-rpc.go', '''	if err == nil && !ok {
		err = ErrUnimplemented
	}
	outPkt''', '''	if err == nil && !ok {
		err = ErrUnimplemented
	}
	if err == io.EOF {
		err = nil
	}
	outPkt'''), ('srpc/server-rpc.go', '''	"context"

''', '''	"context"
	"io"

''')],
  demo=hdr('context', 'io', 'sync', 'testing', 'time') + REC + '''
func TestDemo(t *testing.T) {
	w := &recPW{}
	r := NewServerRPC(context.Background(), InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		return true, io.EOF
	}), w)
	if err := r.HandlePacket(NewCallStartPacket("s", "m", nil, true)); err != nil {
		t.Fatal(err)
	}
	select {
	case <-r.Context().Done():
	case <-time.After(10 * time.Second):
		t.Fatal("timeout")
	}
	w.mtx.Lock()
	defer w.mtx.Unlock()
	if len(w.pkts) != 1 || w.pkts[0].GetCallData().GetError() != "EOF" {
		t.Fatal(w.pkts)
	}
}
'''),
dict(id='C07-b', property='C07', pkg='srpc',
  needs='an invoker that reports an error together with not found (for example a failed lookup)',
  breaks='The error of an invoker that did not find the method is replaced by the unimplemented error.',
  edits=[('srpc/server-rpc.go', '	if err == nil && !ok {\n', '	if !ok {\n')],
  demo=hdr('context', 'errors', 'sync', 'testing', 'time') + REC + '''
func TestDemo(t *testing.T) {
	w := &recPW{}
	r := NewServerRPC(context.Background(), InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		return false, errors.New("lookup failed")
	}), w)
	if err := r.HandlePacket(NewCallStartPacket("s", "m", nil, true)); err != nil {
		t.Fatal(err)
	}
	select {
	case <-r.Context().Done():
	case <-time.After(10 * time.Second):
		t.Fatal("timeout")
	}
	w.mtx.Lock()
	defer w.mtx.Unlock()
	if len(w.pkts) != 1 || w.pkts[0].GetCallData().GetError() != "lookup failed" {
		t.Fatal(w.pkts)
	}
}
'''),
dict(id='C08-a', property='C08', pkg='srpc',
  needs='a unary call whose request encodes to zero bytes',
  breaks='An empty request is not sent with the call start, so the handler waits for it and the call never returns.',
  edits=[('srpc/client.go', 'clientRPC.Start(writer, true, firstMsg)', 'clientRPC.Start(writer, len(firstMsg) != 0, firstMsg)')],
  demo=hdr('context', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	srv := NewServer(InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		msg := NewRawMessage(nil, true)
		if err := strm.MsgRecv(msg); err != nil {
			return true, err
		}
		return true, strm.MsgSend(msg)
	}))
	c := NewClient(NewServerPipe(srv))
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	for _, s := range []string{"x", ""} {
		out := NewRawMessage(nil, true)
		if err := c.ExecCall(ctx, "s", "m", NewRawMessage([]byte(s), true), out); err != nil || string(out.GetData()) != s {
			t.Fatalf("%q: %v", s, err)
		}
	}
}
'''),
dict(id='C08-b', property='C08', pkg='srpc',
  needs='a unary call that succeeds, observed on the transport after it returned',
  breaks='A unary call that succeeded leaves its transport stream open until the caller\'s context ends.',
  edits=[('srpc/client.go', '	defer clientRPC.Close()\n', '''	var done bool
	defer func() {
		if !done {
			clientRPC.Close()
		}
	}()
'''), ('srpc/client.go', '''		return errors.Wrap(ErrInvalidMessage, err.Error())
	}

	return nil''', '''		return errors.Wrap(ErrInvalidMessage, err.Error())
	}

	// the remote ends the stream when the call is complete.
	done = true
	return nil''')],
  demo=hdr('context', 'sync', 'testing') + REC + '''
func TestDemo(t *testing.T) {
	w := &recPW{}
	c := NewClient(func(ctx context.Context, h PacketDataHandler, cl CloseHandler) (PacketWriter, error) {
		for _, p := range []*Packet{NewCallDataPacket([]byte("x"), false, false, nil), NewCallDataPacket(nil, false, true, nil)} {
			d, _ := p.MarshalVT()
			if err := h(d); err != nil {
				t.Fatal(err)
			}
		}
		return w, nil
	})
	if err := c.ExecCall(context.Background(), "s", "m", NewRawMessage(nil, true), NewRawMessage(nil, true)); err != nil {
		t.Fatal(err)
	}
	if w.closed == 0 {
		t.Fatal("the stream was left open")
	}
}
'''),
dict(id='C09-a', property='C09', pkg='srpc',
  needs='a surplus completion with an error arriving after the call completed',
  breaks='A completion with an error that arrives after the call completed replaces the outcome.',
  edits=[('srpc/common-rpc.go', '		if c.dataClosed {\n			err = ErrCompleted', '		if c.dataClosed && len(pkt.GetError()) == 0 {\n			err = ErrCompleted')],
  demo=hdr('context', 'errors', 'io', 'testing') + '''
func TestDemo(t *testing.T) {
	r := NewClientRPC(context.Background(), "s", "m")
	_ = r.HandlePacket(NewCallDataPacket([]byte("one"), false, true, nil))
	_ = r.HandlePacket(NewCallDataPacket(nil, false, true, errors.New("late")))
	if d, err := r.ReadOne(); err != nil || string(d) != "one" {
		t.Fatalf("%q %v", d, err)
	}
	if _, err := r.ReadOne(); err != io.EOF {
		t.Fatal(err)
	}
}
'''),
dict(id='C10-a', property='C10', pkg='srpc',
  needs='the transport stream of a running call ends without an error (clean close by the peer)',
  breaks='A clean close of the stream does not cancel the context of the running handler.',
  edits=[('srpc/common-rpc.go', '''		c.dataClosed = true
		c.ctxCancel()
''', '''		c.dataClosed = true
		if closeErr != nil {
			c.ctxCancel()
		}
''')],
  demo=hdr('context', 'sync', 'testing', 'time') + REC + '''
func TestDemo(t *testing.T) {
	w := &recPW{}
	res := make(chan bool, 1)
	r := NewServerRPC(context.Background(), InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		select {
		case <-strm.Context().Done():
			res <- true
		case <-time.After(3 * time.Second):
			res <- false
		}
		return true, nil
	}), w)
	if err := r.HandlePacket(NewCallStartPacket("s", "m", nil, true)); err != nil {
		t.Fatal(err)
	}
	r.HandleStreamClose(nil)
	if !<-res {
		t.Fatal("the context was not cancelled")
	}
}
'''),
dict(id='C10-b', property='C10', pkg='srpc',
  needs='the caller\'s context is cancelled while the transport is opening the stream',
  breaks='A call whose context was cancelled before it was started is sent to the server anyway.',
  edits=[('srpc/client-rpc.go', '''	if err := r.ctx.Err(); err != nil {
		r.ctxCancel()
		_ = writer.Close()
		return context.Canceled
	}

''', '')],
  demo=hdr('context', 'sync', 'testing') + REC + '''
func TestDemo(t *testing.T) {
	w := &recPW{}
	ctx, cancel := context.WithCancel(context.Background())
	c := NewClient(func(context.Context, PacketDataHandler, CloseHandler) (PacketWriter, error) {
		cancel()
		return w, nil
	})
	if _, err := c.NewStream(ctx, "s", "m", nil); err != context.Canceled {
		t.Fatal(err)
	}
	if len(w.pkts) != 0 {
		t.Fatal("sent")
	}
}
'''),
dict(id='C11-a', property='C11', pkg='srpc',
  needs='a packet arriving between the reader\'s check of the queue and its wait',
  breaks='The reader takes its wait channel after releasing the lock it checked the state under, so a wakeup can be lost.',
  edits=[('srpc/common-rpc.go', '''					err = io.EOF
				}
			}

			waitCh = getWaitCh()
		})
''', '''					err = io.EOF
				}
			}
		})
'''), ('srpc/common-rpc.go', '''		if hasMsg {
			return msg, nil
		}

		if err != nil {
			return nil, err
		}

''', '''		if hasMsg {
			return msg, nil
		}

		if err != nil {
			return nil, err
		}

		c.bcast.HoldLock(func(_ func(), getWaitCh func() <-chan struct{}) {
			waitCh = getWaitCh()
		})

''')],
  demo=hdr('context', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	stop := time.Now().Add(20 * time.Second)
	for i := 0; i < 400000 && time.Now().Before(stop); i++ {
		r := NewClientRPC(context.Background(), "s", "m")
		done := make(chan struct{})
		go func() {
			_, _ = r.ReadOne()
			close(done)
		}()
		for j := 0; j < i%60; j++ {
			_ = r.Context().Err()
		}
		_ = r.HandlePacket(NewCallDataPacket([]byte("x"), false, true, nil))
		select {
		case <-done:
			continue
		default:
		}
		select {
		case <-done:
		case <-time.After(3 * time.Second):
			t.Fatalf("the reader is stuck (iteration %d)", i)
		}
	}
}
'''),
dict(id='C11-b', property='C11', pkg='srpc',
  needs='a waiter that is blocked when the call ends by a clean end of the connection',
  breaks='Closing the stream of a client call changes its state without waking the blocked reader when there was no error.',
  edits=[('srpc/client-rpc.go', '''		r.dataClosed = true
		r.ctxCancel()
		broadcast()
''', '''		r.dataClosed = true
		if closeErr != nil {
			r.ctxCancel()
			broadcast()
		}
''')],
  demo=hdr('context', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	r := NewClientRPC(context.Background(), "s", "m")
	done := make(chan error, 1)
	go func() {
		_, err := r.ReadOne()
		done <- err
	}()
	time.Sleep(100 * time.Millisecond)
	r.HandleStreamClose(nil)
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("the reader is stuck")
	}
}
'''),
dict(id='C12-a', property='C12', pkg='srpc',
  needs='the transport fails when the completion is written',
  breaks='If the completion cannot be written, the packet writer stays open and the context of the call alive.',
  edits=[('srpc/server-rpc.go', '''	_ = r.writer.WritePacket(outPkt)
	_ = r.writer.Close()
	r.ctxCancel()
''', '''	if err := r.writer.WritePacket(outPkt); err != nil {
		return
	}
	_ = r.writer.Close()
	r.ctxCancel()
''')],
  demo=hdr('context', 'errors', 'sync', 'testing', 'time') + REC + '''
func TestDemo(t *testing.T) {
	w := &recPW{err: errors.New("broken")}
	r := NewServerRPC(context.Background(), InvokerFunc(func(s, m string, strm Stream) (bool, error) { return true, nil }), w)
	if err := r.HandlePacket(NewCallStartPacket("s", "m", nil, true)); err != nil {
		t.Fatal(err)
	}
	select {
	case <-r.Context().Done():
	case <-time.After(2 * time.Second):
		t.Fatal("the context is still alive")
	}
}
'''),
dict(id='C12-b', property='C12', pkg='srpc',
  needs='a second call start with the same service but another method, or the reverse',
  breaks='A second call start on the same stream is refused only if it repeats the first, otherwise a second method runs.',
  edits=[('srpc/server-rpc.go', '''		if r.method != "" || r.service != "" {
''', '''		if r.method == pkt.GetRpcMethod() && r.service == pkt.GetRpcService() {
''')],
  demo=hdr('context', 'sync', 'testing', 'time') + REC + '''
func TestDemo(t *testing.T) {
	w := &recPW{}
	calls := make(chan string, 4)
	rel := make(chan struct{})
	r := NewServerRPC(context.Background(), InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		calls <- s + "/" + m
		<-rel
		return true, nil
	}), w)
	defer close(rel)
	_ = r.HandlePacket(NewCallStartPacket("s", "m", nil, true))
	if err := r.HandlePacket(NewCallStartPacket("s", "m2", nil, true)); err == nil {
		t.Fatal("second call start accepted")
	}
	time.Sleep(50 * time.Millisecond)
	if len(calls) != 1 {
		t.Fatal(len(calls))
	}
}
'''),
dict(id='C13-a', property='C13', pkg='srpc',
  needs='a cancel packet on the wire whose flag is false',
  breaks='A cancel packet with a false flag cancels the call on the server.',
  edits=[('srpc/server-rpc.go', '''		if b.CallCancel {
			return r.HandleCallCancel()
		}
		return nil
''', '''		return r.HandleCallCancel()
''')],
  demo=hdr('context', 'sync', 'testing') + REC + '''
func TestDemo(t *testing.T) {
	w := &recPW{}
	rel := make(chan struct{})
	r := NewServerRPC(context.Background(), InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		<-rel
		return true, nil
	}), w)
	defer close(rel)
	_ = r.HandlePacket(NewCallStartPacket("s", "m", nil, true))
	if err := r.HandlePacketData([]byte{0x18, 0x00}); err != nil {
		t.Fatal(err)
	}
	if r.Context().Err() != nil {
		t.Fatal("cancelled")
	}
}
'''),
dict(id='C13-b', property='C13', pkg='srpc',
  needs='a parsed packet whose call data body is present but nil',
  breaks='A call data body without content is dereferenced during validation and panics.',
  edits=[('srpc/packet.go', 'if len(p.GetData()) == 0 && !p.GetComplete()', 'if len(p.Data) == 0 && !p.GetComplete()')],
  demo=hdr('context', 'testing') + '''
func TestDemo(t *testing.T) {
	r := NewClientRPC(context.Background(), "s", "m")
	if err := r.HandlePacket(&Packet{Body: &Packet_CallData{}}); err == nil {
		t.Fatal("accepted")
	}
}
'''),
dict(id='C14-a', property='C14', pkg='srpc',
  needs='one side reads the end of the other direction before it sends its own messages',
  breaks='Reading the end-of-stream of a half-closed stream also closes the own send direction.',
  edits=[('srpc/msg-stream.go', '''	data, err := r.rw.ReadOne()
	if err != nil {
		return err
	}
''', '''	data, err := r.rw.ReadOne()
	if err != nil {
		// no more data: release the stream
		if r.closeCb != nil {
			r.closeCb()
		}
		return err
	}
''')],
  demo=hdr('context', 'io', 'testing', 'time') + '''
func TestDemo(t *testing.T) {
	srv := NewServer(InvokerFunc(func(s, m string, strm Stream) (bool, error) {
		msg := NewRawMessage(nil, true)
		if err := strm.MsgRecv(msg); err != io.EOF {
			return true, err
		}
		return true, strm.MsgSend(NewRawMessage([]byte("x"), true))
	}))
	c := NewClient(NewServerPipe(srv))
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	strm, err := c.NewStream(ctx, "s", "m", nil)
	if err != nil {
		t.Fatal(err)
	}
	if err := strm.CloseSend(); err != nil {
		t.Fatal(err)
	}
	msg := NewRawMessage(nil, true)
	if err := strm.MsgRecv(msg); err != nil || string(msg.GetData()) != "x" {
		t.Fatalf("%q %v", msg.GetData(), err)
	}
}
'''),
]
