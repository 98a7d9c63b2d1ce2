// Package c21: byte-stream adapters preserve the byte sequence.
//
// bound: every sequence of 3 (thorough 4) messages of 0 to 2 (thorough 3) symbolic bytes, and 1 (thorough 2) messages starting with one of 3 or 4 bytes, read with every choice of buffer sizes 0 to 3, followed by end-of-stream or an error; writes of 0 to 3 bytes; a concurrent reader and writer, delay bound 2 (thorough 3).
// assume: one reader and one writer at a time.
package c21

import (
	"context"
	"io"

	"github.com/aperturerobotics/starpc/rpcstream"
	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// drain reads everything with arbitrary buffer sizes.
func drain(r io.Reader, want []byte, limit int) error {
	var got []byte
	zero := 0
	for i := 0; ; i++ {
		v.Assert(i <= limit, "reading does not end")
		k := v.Choose("k", 4)
		if k == 0 {
			if zero++; zero > 1 {
				k = 3
			}
		}
		p := make([]byte, k)
		n, err := r.Read(p)
		v.Assert(n >= 0 && n <= k, "a read returns more than fits")
		v.Assert(n > 0 || err != nil || k == 0, "a read returns nothing and no error")
		got = append(got, p[:n]...)
		v.Assert(len(got) <= len(want) && hx.Eq(got, want[:len(got)]), "the bytes read are not the bytes received")
		if err != nil {
			v.Assert(len(got) == len(want), "an error overtakes bytes")
			v.Reach("end")
			return err
		}
	}
}

func msgs() (l [][]byte, all []byte) {
	n := v.Bound(3, 4)
	long := v.Choose("long", 2) == 1
	if long {
		n = v.Bound(1, 2)
	}
	for i := 0; i < n; i++ {
		b := v.BytesUpTo("m", v.Bound(2, 3))
		if long && i == 0 {
			b = v.Bytes("long", 3+v.Choose("long len", 2))
		}
		l = append(l, b)
		all = append(all, b...)
	}
	return
}

func ending() error {
	if v.Choose("end", 2) == 1 {
		return &hx.Err{S: "remote"}
	}
	return io.EOF
}

// scribbled is a stream whose receive buffers are reused.
type scribbled struct{ *hx.Strm }

func (s *scribbled) MsgRecv(m srpc.Message) error {
	if len(s.In) == 0 {
		return s.InErr
	}
	b := s.In[0]
	err := s.Strm.MsgRecv(m)
	for i := range b {
		b[i] ^= 0xff
	}
	return err
}

// H_read: the srpc adapter.
//
// sym: paths=6000000 budget=400
func H_read() {
	l, all := msgs()
	e := ending()
	for i := range l {
		l[i] = append([]byte(nil), l[i]...)
	}
	r := srpc.NewStreamRwc(&scribbled{&hx.Strm{In: l, InErr: e}})
	v.Assert(drain(r, all, len(all)+4) == e, "the stream's error is not returned")
	_, err := r.Read(make([]byte, 1))
	v.Assert(err == e, "a later read forgets the end")
}

// H_errors: every error which can end the stream.
func H_errors() {
	e := hx.AnErr("remote", "remote")
	b := v.Bytes("m", 2)
	var r io.Reader
	if v.Choose("kind", 2) == 0 {
		r = srpc.NewStreamRwc(&scribbled{&hx.Strm{In: [][]byte{append([]byte(nil), b...)}, InErr: e}})
	} else {
		r = rpcstream.NewRpcStreamReadWriter(hx.NewRS(context.Background(), e, hx.RData(b)))
	}
	v.Assert(drain(r, b, 6) == e, "the stream's error is not returned")
	_, err := r.Read(make([]byte, 1))
	v.Assert(err == e, "a later read forgets the end")
}

// H_rpc_read: the rpcstream adapter.
//
// sym: paths=6000000 budget=400
func H_rpc_read() {
	l, all := msgs()
	e := ending()
	var pkts [][]byte
	at := v.Choose("ack", len(l)+1)
	for i, b := range l {
		if i == at {
			pkts = append(pkts, hx.RAck(""))
		}
		pkts = append(pkts, hx.RData(b))
	}
	rs := hx.NewRS(context.Background(), e, pkts...)
	r := rpcstream.NewRpcStreamReadWriter(rs)
	v.Assert(drain(r, all, len(all)+4) == e, "the stream's error is not returned")
	_, err := r.Read(make([]byte, 1))
	v.Assert(err == e, "a later read forgets the end")
	v.Assert(r.Close() == nil, "close fails")
	nc, _ := rs.Closed()
	v.Assert(nc == 1, "closing the adapter does not close the stream")
}

// H_rpc_ack: a remote error in an ack is surfaced after the bytes before it.
//
// sym: paths=6000000 budget=400
func H_rpc_ack() {
	l, all := msgs()
	txt := v.String("txt", v.Choose("len", 3)+1)
	var pkts [][]byte
	at := v.Choose("ack", len(l)+1)
	var before []byte
	for i, b := range l {
		if i == at {
			pkts = append(pkts, hx.RAck(txt))
			before = append([]byte(nil), before...)
		}
		if i < at {
			before = append(before, b...)
		}
		pkts = append(pkts, hx.RData(b))
	}
	if at == len(l) {
		pkts = append(pkts, hx.RAck(txt))
		before = all
	}
	r := rpcstream.NewRpcStreamReadWriter(hx.NewRS(context.Background(), io.EOF, pkts...))
	err := drain(r, before, len(before)+4)
	v.Assert(err.Error() == txt, "the remote error is not surfaced")
}

// H_write: writes of the srpc adapter.
//
// sym: paths=3000000 budget=400
func H_write() {
	s := &hx.Strm{}
	r := srpc.NewStreamRwc(s)
	n := 0
	for i := 0; i < 3; i++ {
		b := v.Bytes("w", v.Choose("wl", 3)+1)
		keep := append([]byte(nil), b...)
		s.SendErr = nil
		if v.Choose("fail", 2) == 1 {
			s.SendErr = &hx.Err{S: "send"}
		}
		k, err := r.Write(b)
		v.Assert(hx.Eq(b, keep), "a write changes the caller's buffer")
		if s.SendErr != nil {
			v.Assert(err == s.SendErr && k == 0, "the error of a write is not reported")
			v.Reach("write error")
			continue
		}
		v.Assert(err == nil && k == len(b), "a successful write does not report the full length")
		n++
		v.Assert(len(s.Sent) == n, "a write is not one message")
		for i := range b {
			b[i] ^= 0xff
		}
		v.Assert(hx.Eq(s.Sent[n-1], keep), "the message is not the bytes written")
	}
	v.Assert(s.NSend == 3, "a write is not one message")
	v.Assert(r.Close() == nil && s.NClose == 1 && s.NCloseSend == 0, "closing the adapter does not close the stream")
}

// H_write_alias: the caller may reuse its buffer after a write.
//
// sym: paths=3000000 budget=400
func H_write_alias() {
	a, b := srpc.NewPipeStream(context.Background())
	w, r := srpc.NewStreamRwc(a), srpc.NewStreamRwc(b)
	var all []byte
	buf := make([]byte, 3)
	n := v.Bound(2, 3)
	for i := 0; i < n; i++ {
		p := buf[:v.Choose("wl", 3)+1]
		copy(p, v.Bytes("w", len(p)))
		all = append(all, p...)
		k, err := w.Write(p)
		v.Assert(err == nil && k == len(p), "a write fails")
		for i := range p {
			p[i] ^= 0xff
		}
	}
	v.Assert(a.CloseSend() == nil, "half close fails")
	v.Assert(drain(r, all, len(all)+4) == io.EOF, "no end of stream after the half close")
}

// H_rpc_write: writes of the rpcstream adapters.
//
// sym: paths=3000000 budget=400
func H_rpc_write() {
	rs := hx.NewRS(context.Background(), io.EOF)
	var w io.Writer = rpcstream.NewRpcStreamReadWriter(rs)
	if v.Choose("writer", 2) == 1 {
		w = rpcstream.NewRpcStreamWriter(rs)
	}
	fail := -1
	rs.Fail = func(i int) error {
		if i == fail {
			return &hx.Err{S: "send"}
		}
		return nil
	}
	n := 0
	for i := 0; i < 3; i++ {
		b := v.Bytes("w", v.Choose("wl", 3)+1)
		keep := append([]byte(nil), b...)
		fail = -1
		if v.Choose("fail", 2) == 1 {
			fail = i
		}
		k, err := w.Write(b)
		v.Assert(hx.Eq(b, keep), "a write changes the caller's buffer")
		if fail >= 0 {
			v.Assert(err != nil && err.Error() == "send" && k == 0, "the error of a write is not reported")
			v.Reach("write error")
			continue
		}
		v.Assert(err == nil && k == len(b), "a successful write does not report the full length")
		n++
		sent := rs.Sent()
		v.Assert(len(sent) == n, "a write is not one message")
		p := hx.RDec(sent[n-1])
		_, isData := p.GetBody().(*rpcstream.RpcStreamPacket_Data)
		v.Assert(isData && hx.Eq(p.GetData(), keep), "the message is not the bytes written")
	}
}

// H_duplex: one reader and one writer use an adapter at the same time.
//
// sym: delays=2 delays@thorough=3 race=1 paths=3000000 budget=400
func H_duplex() {
	a, b := srpc.NewPipeStream(context.Background())
	x, y := srpc.NewStreamRwc(a), srpc.NewStreamRwc(b)
	m1, m2 := v.Bytes("x", 3), v.Bytes("y", 3)
	for _, s := range []struct {
		w *srpc.StreamRwc
		m []byte
	}{{x, m1}, {y, m2}} {
		go func() {
			_, e1 := s.w.Write(s.m[:1])
			_, e2 := s.w.Write(s.m[1:])
			v.Assert(e1 == nil && e2 == nil && s.w.CloseSend() == nil, "a write fails")
		}()
	}
	for _, s := range []struct {
		r *srpc.StreamRwc
		m []byte
	}{{x, m2}, {y, m1}} {
		var got []byte
		for {
			p := make([]byte, 2)
			n, err := s.r.Read(p)
			got = append(got, p[:n]...)
			if err != nil {
				v.Assert(err == io.EOF, "a read fails")
				break
			}
		}
		v.Assert(hx.Eq(got, s.m), "the bytes read are not the bytes written")
	}
	v.Reach("done")
}
