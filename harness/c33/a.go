// Package c33: received messages never change after delivery, sent ones may be reused.
//
// bound: up to 3 (thorough 4) packets or messages of 1 or 2 symbolic bytes per stream, also preceded by 30 to 70000 fixed bytes (messages below and above every buffer size); frames split into reads at every point; every message received at any point between the packets, buffers overwritten with other values as soon as their owner may reuse them; delay bound 1 (thorough 2).
// assume: a Message's own UnmarshalVT and MarshalVT decide whether they retain the slice they are given (raw messages are checked in both modes).
package c33

import (
	"bytes"
	"context"
	"errors"
	"io"
	"net"

	"github.com/aperturerobotics/starpc/echo"
	e2e_mock "github.com/aperturerobotics/starpc/mock"
	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// scribble overwrites a buffer.
func scribble(b []byte) {
	b = b[:cap(b)]
	if pad != 0 {
		clear(b)
		return
	}
	for i := range b {
		b[i] ^= 0x55
	}
}

// pad is the number of bytes which precede the symbolic ones of each message.
var pad int

// large makes the messages of a harness large.
func large() { pad = []int{30, 250, 1100, 5000, 70000}[v.Choose("large", 5)] }

// msg is n bytes of a message (and the padding) and a copy of them.
func msg(label string, n int) ([]byte, string) {
	b := append(bytes.Repeat([]byte{'x'}, pad), v.Bytes(label, n)...)
	return b, string(b)
}

func same(b []byte, want string, what string) { v.Assert(string(b) == want, what) }

// count is the number of messages.
func count() int {
	if pad != 0 {
		return 2
	}
	return v.Bound(3, 4)
}

// recv receives a message without copying it.
func recv(s srpc.Stream) *srpc.RawMessage {
	m := srpc.NewRawMessage(nil, v.Bool("copy"))
	if err := s.MsgRecv(m); err != nil {
		v.Fail("a message is lost: " + err.Error())
	}
	return m
}

// feed hands packets over in one buffer which is overwritten afterwards.
type feed struct{ buf []byte }

func (f *feed) give(h srpc.PacketDataHandler, p *srpc.Packet) {
	b := hx.Enc(p)
	if f.buf == nil {
		f.buf = make([]byte, pad+32)
	}
	n := copy(f.buf, b)
	if err := h(f.buf[:n]); err != nil {
		v.Fail("a packet is refused: " + err.Error())
	}
	scribble(f.buf)
}

// H_client: messages queued for a client outlive the transport's buffer.
//
// sym: race=0
func H_client() {
	var h srpc.PacketDataHandler
	c := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		h = mh
		return &hx.PW{}, nil
	})
	s, err := c.NewStream(context.Background(), "s", "m", nil)
	if err != nil {
		v.Fail("the stream is not started")
		return
	}
	f := &feed{}
	var want []string
	var got []*srpc.RawMessage
	for i := 0; i < count(); i++ {
		b, w := msg("in", 1+v.Choose("n", 2))
		want = append(want, w)
		f.give(h, srpc.NewCallDataPacket(b, false, false, nil))
		for len(got) < len(want) && v.Bool("now") {
			got = append(got, recv(s))
		}
	}
	txt := v.String("txt", 2)
	f.give(h, srpc.NewCallDataPacket(nil, false, true, errors.New("x"+txt)))
	for len(got) < len(want) {
		got = append(got, recv(s))
	}
	for i, g := range got {
		same(g.GetData(), want[i], "a message changes after it was delivered")
	}
	err = s.MsgRecv(hx.M(nil))
	v.Assert(err != nil && err.Error() == "x"+txt, "the error text changes after it was delivered")
	v.Reach("client")
}

// H_server: what a server call was given outlives the transport's buffer.
//
// sym: delays=1 delays@thorough=2
func H_server() {
	svc, meth := "s"+v.String("svc", 1), "m"+v.String("meth", 1)
	first, w0 := msg("in", 1)
	second, w1 := msg("in", 2)
	when := v.Choose("when", 3)
	fed := make(chan struct{})
	done := make(chan struct{})
	inv := &hx.Inv{Fn: func(gs, gm string, strm srpc.Stream) (bool, error) {
		var a *srpc.RawMessage
		if when == 0 {
			a = recv(strm)
		}
		<-fed
		v.Assert(gs == svc && gm == meth, "the ids of a call change after it was started")
		if when != 0 {
			a = recv(strm)
		}
		b := recv(strm)
		same(a.GetData(), w0, "a message changes after it was delivered")
		same(b.GetData(), w1, "a message changes after it was delivered")
		v.Reach("server")
		close(done)
		return true, nil
	}}
	s := srpc.NewServerRPC(context.Background(), inv, hx.NopPW{})
	f := &feed{}
	f.give(s.HandlePacketData, srpc.NewCallStartPacket(svc, meth, first, false))
	if when != 1 {
		v.Yield()
	}
	f.give(s.HandlePacketData, srpc.NewCallDataPacket(second, false, false, nil))
	close(fed)
	<-done
}

// H_frames: messages outlive the frame reader's buffer.
//
// sym: delays=1 delays@thorough=2
func H_frames() {
	a, b := hx.Pipe(4)
	var ends = make(chan error, 1)
	c := srpc.NewClient(func(ctx context.Context, mh srpc.PacketDataHandler, ch srpc.CloseHandler) (srpc.PacketWriter, error) {
		prw := srpc.NewPacketReadWriter(a)
		go prw.ReadPump(mh, func(err error) { ch(err); ends <- err })
		return &hx.PW{}, nil
	})
	s, err := c.NewStream(context.Background(), "s", "m", nil)
	if err != nil {
		v.Fail("the stream is not started")
		return
	}
	var all []byte
	var want []string
	n := count()
	for i := 0; i < n; i++ {
		d, w := msg("in", 2)
		want = append(want, w)
		all = append(all, hx.Frame(hx.Enc(srpc.NewCallDataPacket(d, false, false, nil)))...)
	}
	// the bytes arrive in two reads
	var cut int
	if pad == 0 {
		cut = v.Choose("cut", len(all))
	} else {
		cut = []int{0, 4, len(all) / 4, len(all) / 2, len(all) * 3 / 4, len(all) - 1}[v.Choose("cut", 6)]
	}
	var got []*srpc.RawMessage
	if cut > 0 {
		_, _ = b.Write(all[:cut])
	}
	if k := cut * n / len(all); k > 0 && v.Bool("early") {
		got = append(got, recv(s))
		v.Reach("early")
	}
	_, _ = b.Write(all[cut:])
	for len(got) < n {
		got = append(got, recv(s))
	}
	extra, _ := msg("in", 2)
	_, _ = b.Write(hx.Frame(hx.Enc(srpc.NewCallDataPacket(extra, false, false, nil))))
	_ = recv(s)
	for i, g := range got {
		same(g.GetData(), want[i], "a message changes after it was delivered")
	}
	_ = b.Close()
	<-ends
	v.Reach("frames")
}

// stream is one way to send messages to a peer.
func sender(kind int) (srpc.Stream, func() (*srpc.RawMessage, bool)) {
	switch kind {
	case 0: // in-memory stream
		a, b := srpc.NewPipeStream(context.Background())
		return a, func() (*srpc.RawMessage, bool) { return recv(b), true }
	case 1: // client call
		w := &hx.PW{}
		c := srpc.NewClient(func(context.Context, srpc.PacketDataHandler, srpc.CloseHandler) (srpc.PacketWriter, error) {
			return w, nil
		})
		s, err := c.NewStream(context.Background(), "s", "m", nil)
		if err != nil {
			v.Fail("the stream is not started")
		}
		i := 1
		return s, func() (*srpc.RawMessage, bool) {
			l := w.Snapshot()
			if i >= len(l) {
				return nil, false
			}
			i++
			return srpc.NewRawMessage(l[i-1].Data, false), true
		}
	default: // frames
		x, y := hx.Pipe(4)
		c := srpc.NewClient(func(context.Context, srpc.PacketDataHandler, srpc.CloseHandler) (srpc.PacketWriter, error) {
			return srpc.NewPacketReadWriter(x), nil
		})
		s, err := c.NewStream(context.Background(), "s", "m", nil)
		if err != nil {
			v.Fail("the stream is not started")
		}
		_, _ = hx.ReadFrame(y)
		return s, func() (*srpc.RawMessage, bool) {
			b, err := hx.ReadFrame(y)
			p := &srpc.Packet{}
			if err != nil || p.UnmarshalVT(b) != nil {
				return nil, false
			}
			return srpc.NewRawMessage(hx.Copy(p).Data, false), true
		}
	}
}

// H_send: a message may be reused as soon as it was sent.
//
// sym: race=0
func H_send() {
	kind := v.Choose("kind", 3)
	s, next := sender(kind)
	buf := make([]byte, pad+2)
	m := srpc.NewRawMessage(buf, kind == 0 || v.Bool("mcopy"))
	var want []string
	n := count()
	for i := 0; i < n; i++ {
		b, w := msg("out", 2)
		copy(buf, b)
		want = append(want, w)
		if err := s.MsgSend(m); err != nil {
			v.Fail("a message is not sent: " + err.Error())
		}
		scribble(buf)
	}
	for _, w := range want {
		g, ok := next()
		v.Assert(ok, "a message is lost")
		same(g.GetData(), w, "changing a message after it was sent changes what the peer receives")
	}
	v.Reach("send")
}

// H_first: the first message of a call may be reused as soon as the call was started.
//
// sym: race=0
func H_first() {
	x, y := hx.Pipe(4)
	c := srpc.NewClient(func(context.Context, srpc.PacketDataHandler, srpc.CloseHandler) (srpc.PacketWriter, error) {
		return srpc.NewPacketReadWriter(x), nil
	})
	b, w := msg("out", 2)
	_, err := c.NewStream(context.Background(), "s", "m", srpc.NewRawMessage(b, v.Bool("mcopy")))
	v.Assert(err == nil, "the stream is not started")
	scribble(b)
	f, err := hx.ReadFrame(y)
	p := &srpc.Packet{}
	v.Assert(err == nil && p.UnmarshalVT(f) == nil, "the start packet is lost")
	same(hx.Copy(p).Data, w, "changing a message after it was sent changes what the peer receives")
	v.Reach("first")
}

// H_raw: raw messages which copy never share memory.
//
// sym: race=0
func H_raw() {
	b, w := msg("in", 2)
	m := srpc.NewRawMessage(nil, true)
	if v.Bool("old") {
		m = srpc.NewRawMessage(make([]byte, pad+3), true)
	}
	if v.Bool("set") {
		m.SetData(b)
	} else {
		_ = m.UnmarshalVT(b)
	}
	scribble(b)
	same(m.GetData(), w, "a copying raw message retains the buffer it is given")
	o, err := m.MarshalVT()
	v.Assert(err == nil, "a raw message is not encoded")
	same(o, w, "a raw message is encoded as something else")
	d := make([]byte, pad+2)
	k, err := m.MarshalToSizedBufferVT(d)
	v.Assert(err == nil && k == pad+2, "a raw message is not encoded")
	scribble(m.GetData())
	same(o, w, "a copying raw message hands out its buffer")
	same(d, w, "a raw message hands out its buffer")
	v.Reach("raw")
}

// H_decode: decoded messages do not share memory with the bytes they were decoded from.
//
// sym: race=0
func H_decode() {
	data, wd := msg("data", 2)
	svc, txt := v.String("svc", 1), v.String("txt", 1)
	ws, wt := string([]byte(svc)), string([]byte(txt))
	flag := v.Bool("flag")
	var buf []byte
	enc := func(b []byte, err error) {
		if err != nil {
			v.Fail("a message is not encoded")
		}
		buf = append([]byte(nil), b...)
	}
	ok := func(err error) {
		v.Assert(err == nil, "a message is not decoded")
		scribble(buf)
	}
	switch v.Choose("type", 8) {
	case 0:
		enc((&srpc.Packet{Body: &srpc.Packet_CallStart{CallStart: &srpc.CallStart{RpcService: svc, RpcMethod: txt, Data: data, DataIsZero: flag}}}).MarshalVT())
		m := &srpc.Packet{}
		ok(m.UnmarshalVT(buf))
		c := m.GetCallStart()
		v.Assert(c.GetRpcService() == ws && c.GetRpcMethod() == wt && string(c.GetData()) == wd, "a decoded packet shares memory with its bytes")
	case 1:
		enc((&srpc.Packet{Body: &srpc.Packet_CallData{CallData: &srpc.CallData{Data: data, Error: txt, Complete: flag}}}).MarshalVT())
		m := &srpc.Packet{}
		ok(m.UnmarshalVT(buf))
		c := m.GetCallData()
		v.Assert(c.GetError() == wt && string(c.GetData()) == wd, "a decoded packet shares memory with its bytes")
	case 2:
		enc((&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: data}}).MarshalVT())
		m := &rpcstream.RpcStreamPacket{}
		ok(m.UnmarshalVT(buf))
		v.Assert(string(m.GetData()) == wd, "a decoded packet shares memory with its bytes")
	case 3:
		enc((&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: svc}}}).MarshalVT())
		m := &rpcstream.RpcStreamPacket{}
		ok(m.UnmarshalVT(buf))
		v.Assert(m.GetInit().GetComponentId() == ws, "a decoded packet shares memory with its bytes")
	case 4:
		enc((&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Ack{Ack: &rpcstream.RpcAck{Error: txt}}}).MarshalVT())
		m := &rpcstream.RpcStreamPacket{}
		ok(m.UnmarshalVT(buf))
		v.Assert(m.GetAck().GetError() == wt, "a decoded packet shares memory with its bytes")
	case 5:
		enc((&echo.EchoMsg{Body: svc}).MarshalVT())
		m := &echo.EchoMsg{}
		ok(m.UnmarshalVT(buf))
		v.Assert(m.GetBody() == ws, "a decoded message shares memory with its bytes")
	case 6:
		enc((&e2e_mock.MockMsg{Body: svc}).MarshalVT())
		m := &e2e_mock.MockMsg{}
		ok(m.UnmarshalVT(buf))
		v.Assert(m.GetBody() == ws, "a decoded message shares memory with its bytes")
	case 7: // unknown fields are kept
		u := v.Byte("unknown")
		buf = []byte{15<<3 | 2, 2, u, u}
		m := &srpc.CallData{}
		ok(m.UnmarshalVT(buf))
		o, err := m.MarshalVT()
		v.Assert(err == nil && string(o) == string([]byte{15<<3 | 2, 2, u, u}), "unknown fields share memory with their bytes")
	}
	v.Reach("decoded")
}

// H_encode: encoded bytes do not share memory with the message.
//
// sym: race=0
func H_encode() {
	data, wd := msg("data", 2)
	var o []byte
	var err error
	switch v.Choose("type", 3) {
	case 0:
		o, err = srpc.NewCallDataPacket(data, false, false, nil).MarshalVT()
	case 1:
		o, err = srpc.NewCallStartPacket("s", "m", data, false).MarshalVT()
	case 2:
		o, err = (&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: data}}).MarshalVT()
	}
	before := string(o)
	scribble(data)
	v.Assert(err == nil && string(o) == before && len(before) > len(wd), "encoded bytes share memory with the message")
	v.Reach("encoded")
}

// H_rwc: the byte stream over a stream.
//
// sym: race=0
func H_rwc() {
	a, b := srpc.NewPipeStream(context.Background())
	x, y := srpc.NewStreamRwc(a), srpc.NewStreamRwc(b)
	buf := make([]byte, pad+2)
	var want string
	for i := 0; i < count(); i++ {
		d, w := msg("out", 2)
		copy(buf, d)
		want += w
		k, err := x.Write(buf)
		v.Assert(err == nil && k == pad+2, "bytes are not written")
		scribble(buf)
	}
	var got [][]byte
	n := 0
	for n < len(want) {
		p := make([]byte, pad+1+v.Choose("size", 3))
		k, err := y.Read(p)
		if err != nil {
			v.Fail("bytes are lost")
		}
		got = append(got, p[:k])
		n += k
	}
	var all string
	for _, g := range got {
		all += string(g)
	}
	v.Assert(all == want, "bytes change after they were written or read")
	v.Reach("rwc")
}

// reuse is a byte stream whose reads leave nothing of the buffer's rest, and whose writes
// copy.
type reuse struct{ *hx.RW }

// Read fills the whole buffer, as it is allowed to.
func (r *reuse) Read(p []byte) (int, error) {
	n, err := r.RW.Read(p)
	for i := n; i < len(p) && i < n+4; i++ {
		p[i] = 0xaa
	}
	return n, err
}

// H_conn: the connection wrapper.
//
// sym: delays=1 delays@thorough=2
func H_conn() {
	n := count()
	var in []hx.Chunk
	var want string
	for i := 0; i < n; i++ {
		b, w := msg("in", 1+v.Choose("n", 2))
		want += w
		in = append(in, hx.Chunk{B: b})
	}
	c := srpc.NewRwcConn(context.Background(), &reuse{hx.NewRW(in...)}, &net.TCPAddr{}, &net.TCPAddr{}, 2)
	var got [][]byte
	if v.Bool("late") {
		v.Quiesce()
	}
	for {
		p := make([]byte, pad+2)
		k, err := c.Read(p)
		got = append(got, p[:k])
		if err != nil {
			v.Assert(err == io.EOF, "bytes are lost")
			break
		}
	}
	var all string
	for _, g := range got {
		all += string(g)
	}
	v.Assert(all == want, "bytes change after they were read")
	_ = c.Close()
	v.Reach("conn")
}

// rs is an rpc stream over a stream.
type rs struct{ srpc.Stream }

func (r *rs) Send(p *rpcstream.RpcStreamPacket) error { return r.MsgSend(p) }
func (r *rs) Recv() (*rpcstream.RpcStreamPacket, error) {
	p := &rpcstream.RpcStreamPacket{}
	if err := r.MsgRecv(p); err != nil {
		return nil, err
	}
	return p, nil
}

// H_rpcstream: writing to and reading from an rpc stream.
//
// sym: race=0
func H_rpcstream() {
	a, b := srpc.NewPipeStream(context.Background())
	var w io.Writer
	if v.Bool("rw") {
		w = rpcstream.NewRpcStreamReadWriter(&rs{a})
	} else {
		w = rpcstream.NewRpcStreamWriter(&rs{a})
	}
	buf := make([]byte, pad+2)
	var want string
	for i := 0; i < 2; i++ {
		d, s := msg("out", 2)
		copy(buf, d)
		want += s
		k, err := w.Write(buf)
		v.Assert(err == nil && k == pad+2, "bytes are not written")
		scribble(buf)
	}
	var all string
	if v.Bool("pump") {
		var got [][]byte
		_ = rpcstream.ReadToHandler(&rs{b}, func(p []byte) error {
			got = append(got, p)
			if len(got) == 2 {
				return io.EOF
			}
			return nil
		})
		for _, g := range got {
			all += string(g)
		}
		v.Reach("pump")
	} else {
		r := rpcstream.NewRpcStreamReadWriter(&rs{b})
		var got [][]byte
		for n := 0; n < len(want); {
			p := make([]byte, pad+1+v.Choose("size", 3))
			k, err := r.Read(p)
			if err != nil {
				v.Fail("bytes are lost")
			}
			n += k
			got = append(got, p[:k])
		}
		for _, g := range got {
			all += string(g)
		}
		v.Reach("read")
	}
	v.Assert(all == want, "bytes change after they were written or read")
}

// H_proxy: packets forwarded and queued on the other side.
//
// sym: delays=1 delays@thorough=2 selcost=1
func H_proxy() {
	a, b := srpc.NewPipeStream(context.Background())
	x, y := srpc.NewPipeStream(context.Background())
	_ = (&rs{a}).Send(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Init{Init: &rpcstream.RpcStreamInit{ComponentId: "i"}}})
	var want []string
	raw := v.Bool("raw")
	n := count()
	for i := 0; i < n; i++ {
		d, s := msg("out", 1+v.Choose("n", 2))
		want = append(want, s)
		_ = (&rs{a}).Send(&rpcstream.RpcStreamPacket{Body: &rpcstream.RpcStreamPacket_Data{Data: d}})
	}
	ret := make(chan struct{})
	go func() {
		if raw {
			_ = rpcstream.HandleRawRpcStream(&rs{b}, func(ctx context.Context, id string) (io.ReadWriteCloser, func(), error) {
				return srpc.NewStreamRwc(x), nil, nil
			})
		} else {
			_ = rpcstream.HandleProxyRpcStream(&rs{b}, func(ctx context.Context, id string) (rpcstream.RpcStreamCaller[*rs], string, func(), error) {
				return func(context.Context) (*rs, error) { return &rs{x}, nil }, "j", nil, nil
			})
		}
		close(ret)
	}()
	v.Quiesce() // everything is queued on the other side
	if !raw {
		m := hx.M(nil)
		v.Assert(y.MsgRecv(m) == nil, "the init packet is lost")
	}
	var got []*srpc.RawMessage
	if raw && pad != 0 {
		// a byte stream may be cut anywhere
		var all string
		for n := 0; n < len(want[0])+len(want[1]); n += len(got[len(got)-1].GetData()) {
			got = append(got, recv(y))
		}
		for _, g := range got {
			all += string(g.GetData())
		}
		v.Assert(all == want[0]+want[1], "a message changes after it was forwarded")
		got = nil
	} else {
		for range want {
			got = append(got, recv(y))
		}
	}
	for i, g := range got {
		d := g.GetData()
		if !raw {
			p := &rpcstream.RpcStreamPacket{}
			v.Assert(p.UnmarshalVT(d) == nil, "a forwarded packet changes")
			d = p.GetData()
		}
		same(d, want[i], "a message changes after it was forwarded")
	}
	v.NoDelays()
	_ = a.Close()
	_ = y.Close()
	_ = b.Close()
	_ = x.Close()
	<-ret
	v.Reach("proxy")
}

// H_large: the same with messages below and above the sizes of the buffers involved.
//
// sym: race=0 delays=0
func H_large() {
	large()
	switch v.Choose("what", 10) {
	case 0:
		H_client()
	case 1:
		H_server()
	case 2:
		H_frames()
	case 3:
		H_send()
	case 4:
		H_first()
	case 5:
		H_raw()
	case 6:
		H_decode()
	case 7:
		H_encode()
	case 8:
		H_rwc()
	case 9:
		H_rpcstream()
	}
}

// H_large_conn: the connection wrapper with large writes and small reads.
//
// sym: race=0 delays=0
func H_large_conn() {
	pad = []int{30, 2100, 5000}[v.Choose("large", 3)]
	H_conn()
}

// H_large_proxy: forwarding large packets.
//
// sym: race=0 delays=0
func H_large_proxy() {
	pad = []int{30, 5000, 9000}[v.Choose("large", 3)]
	H_proxy()
}
