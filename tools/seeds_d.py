"""Planted bugs in the code for GOOS=js (C44)."""
MAIN = """
package main

import (
	"bytes"
	"fmt"
	"io"
	"os"
	"syscall/js"

	"github.com/aperturerobotics/starpc/srpc"
)

func fail(a ...any) {
	fmt.Println(a...)
	os.Exit(1)
}

// pushable makes a pushable and returns it with the array it fills.
func pushable() (js.Value, js.Value) {
	got := js.Global().Get("Array").New()
	p := js.Global().Get("Object").New()
	p.Set("push", js.FuncOf(func(_ js.Value, a []js.Value) any { got.Call("push", a[0]); return nil }))
	p.Set("end", js.FuncOf(func(_ js.Value, a []js.Value) any { got.Call("push", "end"); return nil }))
	return p, got
}

func check(got js.Value, i int, p *srpc.Packet) {
	want, _ := p.MarshalVT()
	a := got.Index(i)
	b := make([]byte, a.Length())
	js.CopyBytesToGo(b, a)
	if !bytes.Equal(b, want) {
		fail("packet", i, b, want)
	}
}

func data(b []byte) *srpc.Packet { return srpc.NewCallDataPacket(b, false, false, nil) }

var _ = io.EOF

func main() {
	p, got := pushable()
	w := srpc.NewPushablePacketWriter(p)
"""
SEEDS = [
dict(id='C44-a', property='C44', pkg='srpc',
  needs='two consecutive packets of the same encoded size, read by the JavaScript side after the second was written',
  breaks='A packet pushed is overwritten by the next one of the same size.',
  edits=[('srpc/pushable_js.go', """	pushable js.Value
}""", """	pushable js.Value
	buf      js.Value
}"""), ('srpc/pushable_js.go', """	a := js.Global().Get("Uint8Array").New(len(data))
	js.CopyBytesToJS(a, data)
	w.pushable.Call("push", a)
""", """	if w.buf.IsUndefined() || w.buf.Length() != len(data) {
		w.buf = js.Global().Get("Uint8Array").New(len(data))
	}
	js.CopyBytesToJS(w.buf, data)
	w.pushable.Call("push", w.buf)
""")],
  js=MAIN + """
	a, b := data([]byte("one")), data([]byte("two"))
	if w.WritePacket(a) != nil || w.WritePacket(b) != nil {
		fail("write")
	}
	check(got, 0, a)
	check(got, 1, b)
}
"""),
dict(id='C44-b', property='C44', pkg='srpc',
  needs='a cancel packet written after the writer was closed',
  breaks='A cancel written after the close is pushed onto the ended pushable instead of failing.',
  edits=[('srpc/pushable_js.go', """	if w.closed.Load() {
""", """	if w.closed.Load() && !pkt.GetCallCancel() {
""")],
  js=MAIN + """
	if w.Close() != nil {
		fail("close")
	}
	if err := w.WritePacket(srpc.NewCallCancelPacket()); err != io.ErrClosedPipe {
		fail("late write", err)
	}
	if got.Length() != 1 {
		fail("pushed after the end")
	}
}
"""),
dict(id='C44-c', property='C44', pkg='srpc',
  needs='a packet whose encoding is longer than 256 bytes',
  breaks='A long packet is pushed in several pieces, each of which the receiver takes for a packet.',
  edits=[('srpc/pushable_js.go', """	a := js.Global().Get("Uint8Array").New(len(data))
	js.CopyBytesToJS(a, data)
	w.pushable.Call("push", a)
""", """	for {
		n := min(len(data), 256)
		a := js.Global().Get("Uint8Array").New(n)
		js.CopyBytesToJS(a, data)
		w.pushable.Call("push", a)
		if data = data[n:]; len(data) == 0 {
			break
		}
	}
""")],
  js=MAIN + """
	a, b := data(make([]byte, 1000)), data([]byte("x"))
	if w.WritePacket(a) != nil || w.WritePacket(b) != nil {
		fail("write")
	}
	check(got, 0, a)
	check(got, 1, b)
}
"""),
dict(id='C44-d', property='C44', pkg='srpc',
  needs='closing the writer a second time',
  breaks='Closing the writer again ends the pushable again.',
  edits=[('srpc/pushable_js.go', """	if !w.closed.Swap(true) {
		w.pushable.Call("end")
	}
""", """	w.closed.Store(true)
	w.pushable.Call("end")
""")],
  js=MAIN + """
	if w.Close() != nil || w.Close() != nil {
		fail("close")
	}
	if got.Length() != 1 {
		fail("ended more than once")
	}
}
"""),
]
