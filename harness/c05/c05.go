// Package c05: concurrent and partial writes never corrupt the frame sequence.
//
// bound: two (thorough three) concurrent writers of one packet each and of two packets on one side; every short-write pattern of up to 3 partial writes per frame with sizes 1, 2, 4, 5 or all but one; errors at every transport call; delay bound 2 (thorough 3).
// assume: a transport write without error accepts at least one byte.
package c05

import (
	"sync"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

type rw struct {
	mu    sync.Mutex
	out   []byte
	calls int
	// ongoing counts writers inside the transport
	ongoing int
	fn      func(i int, p []byte) (int, error)
}

func (r *rw) Read(p []byte) (int, error) { v.Fail("unexpected read"); return 0, nil }
func (r *rw) Close() error               { return nil }
func (r *rw) Write(p []byte) (int, error) {
	r.mu.Lock()
	i := r.calls
	r.calls++
	r.ongoing++
	v.Assert(r.ongoing == 1, "two writes to the transport at the same time")
	r.mu.Unlock()
	v.Yield()
	n, err := len(p), error(nil)
	if r.fn != nil {
		n, err = r.fn(i, p)
	}
	r.mu.Lock()
	r.out = append(r.out, p[:n]...)
	r.ongoing--
	r.mu.Unlock()
	return n, err
}

func pkt(tag byte, k int) (*srpc.Packet, []byte) {
	p := srpc.NewCallDataPacket(append([]byte{tag}, v.Bytes("data", k)...), false, false, nil)
	return p, hx.Frame(hx.Enc(p))
}

// orders checks that out is a concatenation of the frames of the writers, each in its order.
func orders(out []byte, w [][][]byte) bool {
	done := true
	for i := range w {
		if len(w[i]) == 0 {
			continue
		}
		done = false
		f := w[i][0]
		if len(out) >= len(f) && hx.Eq(out[:len(f)], f) {
			rest := append([][][]byte{}, w...)
			rest[i] = w[i][1:]
			if orders(out[len(f):], rest) {
				return true
			}
		}
	}
	return done && len(out) == 0
}

// H_concurrent: whole frames in every schedule.
//
// sym: delays=2 delays@thorough=3
func H_concurrent() {
	r := &rw{}
	prw := srpc.NewPacketReadWriter(r)
	var ws [][][]byte
	var wg sync.WaitGroup
	n := v.Bound(2, 3)
	for i := 0; i < n; i++ {
		var ps []*srpc.Packet
		var fs [][]byte
		for j := 0; j < 1+(i+1)%2; j++ {
			p, f := pkt(byte(10*i+j), 2)
			ps, fs = append(ps, p), append(fs, f)
		}
		ws = append(ws, fs)
		wg.Add(1)
		go func() {
			for _, p := range ps {
				v.Assert(prw.WritePacket(p) == nil, "writing to a healthy transport fails")
			}
			wg.Done()
		}()
	}
	wg.Wait()
	v.Assert(orders(r.out, ws), "frames interleaved, lost or duplicated")
}

// H_concurrent_short: whole frames even when the transport accepts only part of a frame per call.
//
// sym: delays=2
func H_concurrent_short() {
	part := 1 + v.Choose("part", 5)
	r := &rw{fn: func(i int, p []byte) (int, error) { return min(len(p), part+2*(i%2)), nil }}
	prw := srpc.NewPacketReadWriter(r)
	p1, f1 := pkt(1, 1)
	p2, f2 := pkt(2, 2)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		v.Assert(prw.WritePacket(p1) == nil, "short writes reported as an error")
		wg.Done()
	}()
	v.Assert(prw.WritePacket(p2) == nil, "short writes reported as an error")
	wg.Wait()
	v.Assert(orders(r.out, [][][]byte{{f1}, {f2}}), "frames interleaved, lost or duplicated")
}

// H_raw: raw writes and packets do not interleave either.
//
// sym: delays=2
func H_raw() {
	r := &rw{}
	prw := srpc.NewPacketReadWriter(r)
	p1, f1 := pkt(1, 1)
	_, f2 := pkt(2, 2)
	var wg sync.WaitGroup
	wg.Add(1)
	go func() {
		n, err := prw.Write(f2)
		v.Assert(n == len(f2) && err == nil, "raw write fails")
		wg.Done()
	}()
	v.Assert(prw.WritePacket(p1) == nil, "write fails")
	wg.Wait()
	v.Assert(orders(r.out, [][][]byte{{f1}, {f2}}), "frames interleaved, lost or duplicated")
}

// H_short: every pattern of short writes of one frame.
//
// sym: paths=100000
func H_short() {
	p, f := pkt(7, 1)
	r := &rw{}
	k := 0
	r.fn = func(i int, p []byte) (int, error) {
		if k++; k > v.Bound(3, 4) {
			return len(p), nil
		}
		return 1 + v.Choose("n", len(p)), nil
	}
	prw := srpc.NewPacketReadWriter(r)
	v.Assert(prw.WritePacket(p) == nil, "short writes reported as an error")
	v.Assert(hx.Eq(r.out, f), "short writes corrupt the frame")
	q, g := pkt(8, 2)
	r.fn = nil
	v.Assert(prw.WritePacket(q) == nil && hx.Eq(r.out[len(f):], g), "frame after short writes")
	if r.calls > 3 {
		v.Reach("short")
	}
}

// H_error: an error ends the write.
//
// sym: paths=100000
func H_error() {
	p, f := pkt(7, 1)
	bad := &hx.Err{S: "broken"}
	at := v.Choose("at", 3)
	r := &rw{}
	r.fn = func(i int, p []byte) (int, error) {
		if i == at {
			return v.Choose("n", len(p)+1), bad
		}
		if i > at {
			v.Fail("writing goes on after a transport error")
		}
		return 1 + v.Choose("n", len(p)), nil
	}
	err := srpc.NewPacketReadWriter(r).WritePacket(p)
	if r.calls > at {
		v.Assert(err == error(bad), "transport error not returned")
		v.Reach("error")
	} else {
		v.Assert(err == nil, "error without a transport error")
	}
	v.Assert(len(r.out) <= len(f) && hx.Eq(r.out, f[:len(r.out)]), "bytes written are not a prefix of the frame")
}

// H_error_concurrent: the failure of one writer is not reported to the other, whose frame is whole.
//
// sym: delays=2
func H_error_concurrent() {
	bad := &hx.Err{S: "broken"}
	r := &rw{}
	at := v.Choose("at", 2)
	r.fn = func(i int, p []byte) (int, error) {
		if i == at {
			return 0, bad
		}
		return len(p), nil
	}
	prw := srpc.NewPacketReadWriter(r)
	p1, f1 := pkt(1, 1)
	p2, f2 := pkt(2, 2)
	var e1 error
	var wg sync.WaitGroup
	wg.Add(1)
	go func() { e1 = prw.WritePacket(p1); wg.Done() }()
	e2 := prw.WritePacket(p2)
	wg.Wait()
	v.Assert((e1 == nil) != (e2 == nil), "exactly one writer fails")
	if e1 == nil {
		v.Assert(hx.Eq(r.out, f1), "frame of the successful writer")
		v.Assert(e2 == error(bad), "transport error not returned")
		v.Reach("second fails")
	} else {
		v.Assert(hx.Eq(r.out, f2), "frame of the successful writer")
		v.Reach("first fails")
	}
}
