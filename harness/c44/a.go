// Package c44: packets written to a JavaScript pushable arrive whole, in order and once.
//
// bound: up to 2 (thorough 3) packets of every kind with bodies of 0 to 3 symbolic bytes (and one of 300), 1 to 3 calls of Close, sequentially; two concurrent writers and two concurrent closers with 2 (thorough 3) preemptions; a client call of up to 2 messages over the writer.
// assume: the JavaScript runtime behind syscall/js is a model (harness/js): a Uint8Array is a reference, calls do not block, no other platform-specific behaviour is modelled.
package c44

import (
	"context"
	"errors"
	"io"
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/js"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// sink is the pushable as JavaScript sees it.
type sink struct {
	mu     sync.Mutex
	got    []js.Value
	ends   int
	ended  bool
	after  int
	badEnd bool
}

func (s *sink) value() js.Value {
	return js.Object(map[string]func(args []js.Value) js.Value{
		"push": func(args []js.Value) js.Value {
			s.mu.Lock()
			defer s.mu.Unlock()
			if s.ended {
				s.after++
			}
			if len(args) == 0 {
				s.got = append(s.got, js.Undefined())
			} else {
				s.got = append(s.got, args[0])
			}
			return js.Undefined()
		},
		"end": func(args []js.Value) js.Value {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.ends++
			s.ended = true
			if len(args) != 0 && !args[0].IsUndefined() && !args[0].IsNull() {
				s.badEnd = true
			}
			return js.Undefined()
		},
	})
}

// bytes are the contents of the arrays pushed, as they are now.
func (s *sink) bytes() [][]byte {
	var out [][]byte
	for _, a := range s.got {
		v.Assert(a.InstanceOf(js.Global().Get("Uint8Array")), "something other than a Uint8Array is pushed")
		b := make([]byte, a.Length())
		js.CopyBytesToGo(b, a)
		out = append(out, b)
	}
	return out
}

// packet is a packet of any kind, with the buffer that holds its body.
func packet() (*srpc.Packet, []byte) {
	switch v.Choose("kind", 5) {
	case 0:
		d := v.BytesUpTo("data", 3)
		return srpc.NewCallStartPacket(v.StringUpTo("svc", 1), "m", d, len(d) == 0), d
	case 1:
		d := v.BytesUpTo("data", 3)
		return srpc.NewCallDataPacket(d, len(d) == 0, v.Bool("complete"), nil), d
	case 2:
		return srpc.NewCallDataPacket(nil, false, true, &hx.Err{S: "e" + v.String("err", 1)}), nil
	case 3:
		d := make([]byte, 300)
		copy(d[298:], v.Bytes("tail", 2))
		return srpc.NewCallDataPacket(d, false, false, nil), d
	}
	return srpc.NewCallCancelPacket(), nil
}

// H_sequence: every packet is pushed whole, in order and once, then the end, once.
func H_sequence() {
	s := &sink{}
	w := srpc.NewPushablePacketWriter(s.value())
	n := v.Choose("n", v.Bound(3, 4))
	var want [][]byte
	for i := 0; i < n; i++ {
		p, buf := packet()
		want = append(want, hx.Enc(p))
		v.Assert(w.WritePacket(p) == nil, "writing a packet fails")
		v.Assert(len(s.got) == i+1, "a packet is not pushed when it is written")
		// the buffer is the caller's again
		for j := range buf {
			buf[j] ^= 0x55
		}
	}
	v.Assert(s.ends == 0, "the pushable is ended before the writer is closed")
	k := 1 + v.Choose("closes", 3)
	for i := 0; i < k; i++ {
		v.Assert(w.Close() == nil, "closing the writer fails")
		v.Assert(s.ends == 1, "the pushable is not ended exactly once")
	}
	v.Assert(!s.badEnd, "a close ends the pushable with an error")
	var p *srpc.Packet
	switch v.Choose("late", 3) {
	case 0:
		p = srpc.NewCallStartPacket("s", "m", v.Bytes("late", 1), false)
	case 1:
		p = srpc.NewCallDataPacket(v.Bytes("late", 1), false, v.Bool("complete"), nil)
	case 2:
		p = srpc.NewCallCancelPacket()
	}
	err := w.WritePacket(p)
	v.Assert(err != nil, "a write after the close is accepted")
	v.Assert(errors.Is(err, io.ErrClosedPipe), "a write after the close does not say that the writer is closed")
	got := s.bytes()
	v.Assert(len(got) == n, "the number of packets pushed differs")
	for i := range want {
		v.Assert(hx.Eq(got[i], want[i]), "a packet pushed is not the packet written")
	}
	v.Reach("closed")
}

// H_concurrent: whole packets in every schedule, the end once.
//
// sym: delays=2 delays@thorough=3
func H_concurrent() {
	s := &sink{}
	w := srpc.NewPushablePacketWriter(s.value())
	var wg sync.WaitGroup
	var want [2][]byte
	for i := 0; i < 2; i++ {
		p := srpc.NewCallDataPacket(append([]byte{byte(i)}, v.Bytes("data", 1+i)...), false, false, nil)
		want[i] = hx.Enc(p)
		wg.Add(1)
		go func() {
			defer wg.Done()
			v.Assert(w.WritePacket(p) == nil, "writing a packet fails")
		}()
	}
	wg.Wait()
	got := s.bytes()
	v.Assert(len(got) == 2, "the number of packets pushed differs")
	v.Assert(hx.Eq(got[0], want[0]) && hx.Eq(got[1], want[1]) || hx.Eq(got[0], want[1]) && hx.Eq(got[1], want[0]), "a packet pushed is not a packet written")
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			v.Assert(w.Close() == nil, "closing the writer fails")
		}()
	}
	wg.Wait()
	v.Assert(s.ends == 1, "the pushable is not ended exactly once")
	v.Reach("done")
}

// H_call: a call over the writer reaches the other side as the calls of the protocol.
func H_call() {
	s := &sink{}
	w := srpc.NewPushablePacketWriter(s.value())
	c := srpc.NewClientRPC(context.Background(), "svc", "meth")
	first := v.Bool("first")
	var d []byte
	if first {
		d = v.BytesUpTo("data", 2)
	}
	v.Assert(c.Start(w, first, d) == nil, "the call cannot be started")
	e := v.BytesUpTo("more", 2)
	v.Assert(c.WriteCallData(e, false, nil) == nil, "a message cannot be sent")
	v.Assert(c.WriteCallData(nil, true, nil) == nil, "the call cannot be completed")
	var pk []*hx.Pkt
	for _, b := range s.bytes() {
		p := &srpc.Packet{}
		v.Assert(p.UnmarshalVT(b) == nil, "an array pushed is not a packet")
		pk = append(pk, hx.Copy(p))
	}
	v.Assert(len(pk) == 3, "a call with one message does not take three packets")
	v.Assert(pk[0].Kind == hx.Start && pk[0].Service == "svc" && pk[0].Method == "meth", "the call does not start with its names")
	v.Assert(pk[0].HasMsg() == first && hx.Eq(pk[0].Data, d), "the first message differs")
	v.Assert(pk[1].Kind == hx.Data && pk[1].HasMsg() && hx.Eq(pk[1].Data, e) && !pk[1].Complete, "the second message differs")
	v.Assert(pk[2].Kind == hx.Data && !pk[2].HasMsg() && pk[2].Complete && pk[2].Err == "", "the half close differs")
	v.Reach("called")
}
