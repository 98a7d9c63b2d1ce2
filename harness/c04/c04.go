// Package c04: malformed or truncated frames are never delivered.
//
// bound: every 32-bit length prefix after 0..1 valid frames with up to 4 (thorough 8) bytes following; transport and handler errors at every position of streams of up to three frames; frames at the size limit are decided symbolically on the prefix alone.
package c04

import (
	"io"

	"github.com/aperturerobotics/starpc/srpc"
	"github.com/aperturerobotics/starpc/zz_verif/hx"
	"github.com/aperturerobotics/starpc/zz_verif/v"
)

const maxFrame = 10000000

// pump runs the read pump and checks the close notification.
func pump(rw io.ReadWriteCloser, cb func(d []byte) error) error {
	n := 0
	var cerr error
	srpc.NewPacketReadWriter(rw).ReadPump(func(d []byte) error {
		v.Assert(n == 0, "delivery after the close handler")
		return cb(d)
	}, func(err error) { n++; cerr = err })
	v.Assert(n == 1, "close handler not called exactly once")
	return cerr
}

// H_prefix: an arbitrary prefix, arbitrarily segmented, followed by a few bytes.
//
// sym: paths=200000 budget=400
func H_prefix() {
	var stream []byte
	pre := v.Choose("pre", 2)
	first := v.Bytes("f", 2)
	if pre == 1 {
		stream = hx.Frame(first)
	}
	l := v.Uint32("len")
	stream = append(stream, byte(l), byte(l>>8), byte(l>>16), byte(l>>24))
	k := v.Choose("k", v.Bound(5, 9))
	body := v.Bytes("body", k)
	stream = append(stream, body...)
	cut := v.Choose("cut", len(stream)) + 1
	ch := []hx.Chunk{{B: stream[:cut]}, {B: stream[cut:]}}
	if cut == len(stream) {
		ch = ch[:1]
	}
	ch[len(ch)-1].Err = io.EOF
	rw := hx.NewRW(ch...)
	got := 0
	err := pump(rw, func(d []byte) error {
		got++
		if got <= pre {
			v.Assert(hx.Eq(d, first), "wrong first frame")
			return nil
		}
		if got == pre+1 {
			v.Assert(l != 0 && l <= maxFrame, "frame with an invalid prefix delivered")
			v.Assert(uint64(len(d)) == uint64(l), "delivered frame has the wrong length")
			v.Assert(len(d) <= k && hx.Eq(d, body[:len(d)]), "delivered frame has the wrong content")
			v.Reach("delivered")
		}
		return nil
	})
	if l == 0 || l > maxFrame {
		v.Assert(err != nil, "invalid prefix not reported")
		v.Assert(got == pre, "something delivered from an invalid frame")
		v.Reach("rejected")
	} else if uint64(l) > uint64(k) {
		v.Assert(got == pre, "frame delivered before all its bytes arrived")
		v.Assert(err == nil, "clean end of stream reported as an error")
		v.Reach("truncated")
	} else {
		v.Assert(got >= pre+1, "complete frame not delivered")
	}
}

// H_limit: a frame is rejected as soon as its prefix is known to be too large, and a frame of
// exactly the maximum is not rejected.
func H_limit() {
	d := v.Int("d", -3, 3)
	l := uint32(maxFrame + d)
	b := []byte{byte(l), byte(l >> 8), byte(l >> 16), byte(l >> 24), 1}
	rw := hx.NewRW(hx.Chunk{B: b[:4]}, hx.Chunk{B: b[4:]})
	err := pump(rw, func([]byte) error { v.Fail("frame delivered before all its bytes arrived"); return nil })
	if d > 0 {
		v.Assert(err != nil, "frame above the maximum accepted")
		v.Assert(rw.NRead == 1, "reading goes on after an invalid prefix")
		v.Reach("above")
	} else {
		v.Assert(err == nil, "frame of at most the maximum size rejected")
		v.Reach("allowed")
	}
}

// H_error: transport errors and handler errors at every position.
//
// sym: paths=200000
func H_error() {
	n := v.Bound(2, 3)
	var frames [][]byte
	var stream []byte
	for i := 0; i < n; i++ {
		f := v.Bytes("f", 1+i)
		frames = append(frames, f)
		stream = append(stream, hx.Frame(f)...)
	}
	bad := &hx.Err{S: "handler"}
	// the failure of the transport, or a clean end
	var broken, wantErr error = &hx.Err{S: "transport"}, nil
	if v.Choose("clean", 2) == 1 {
		broken = io.EOF
	} else {
		wantErr = broken
	}
	failAt := v.Choose("handler", n+1)              // the handler call that fails (n: none)
	brk := v.Choose("break", len(stream)+1)         // bytes delivered before the transport fails
	withData := brk > 0 && v.Choose("with", 2) == 1 // the error comes together with the last bytes
	one := v.Choose("bytewise", 2) == 1
	var ch []hx.Chunk
	for i := 0; i < brk; i++ {
		if one {
			ch = append(ch, hx.Chunk{B: stream[i : i+1]})
		}
	}
	if !one && brk > 0 {
		ch = append(ch, hx.Chunk{B: stream[:brk]})
	}
	if withData {
		ch[len(ch)-1].Err = broken
	} else {
		ch = append(ch, hx.Chunk{Err: broken})
	}
	// what follows must never be looked at
	ch = append(ch, hx.Chunk{B: stream})
	rw := hx.NewRW(ch...)
	got := 0
	err := pump(rw, func(d []byte) error {
		v.Assert(got <= failAt, "delivery after the handler failed")
		v.Assert(got < n && hx.Eq(d, frames[got]), "delivered frame differs")
		got++
		if got-1 == failAt {
			return bad
		}
		return nil
	})
	// frames complete before the failure
	full, at := 0, 0
	for i := range frames {
		at += 4 + len(frames[i])
		if at <= brk {
			full++
		}
	}
	v.Assert(got <= full, "frame delivered before all its bytes arrived")
	if got > failAt {
		v.Assert(err == error(bad), "the handler's error is not passed to the close handler")
		v.Reach("handler error")
	} else {
		v.Assert(err == wantErr, "the transport's error is not passed to the close handler, or a clean end is reported as an error")
		v.Reach("transport error")
		if !withData || wantErr == nil {
			v.Assert(got == full, "complete frame not delivered before the failure")
		}
	}
	v.Assert(len(rw.In) > 0 && hx.Eq(rw.In[len(rw.In)-1].B, stream), "reading goes on after an error")
}
