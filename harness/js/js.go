// Package js is a model of the part of syscall/js that a writer of packets can use.
//
// It keeps what the JavaScript side can see: values handed over are references, so that an array that is changed
// after it was handed over has changed for the receiver as well.
package js

import "github.com/aperturerobotics/starpc/zz_verif/v"

type kind int

const (
	undefined kind = iota
	null
	boolean
	number
	str
	object
	array
	function
)

// Value is a JavaScript value.
type Value struct{ r *ref }

type ref struct {
	k     kind
	b     bool
	n     int
	s     string
	props map[string]Value
	bytes []byte
	fn    func(args []Value) Value
	ctor  func(args []Value) Value
}

// Type is the kind of a value.
type Type int

// The kinds of syscall/js.
const (
	TypeUndefined Type = iota
	TypeNull
	TypeBoolean
	TypeNumber
	TypeString
	TypeSymbol
	TypeObject
	TypeFunction
)

// Error is a JavaScript exception.
type Error struct{ Msg string }

func (e Error) Error() string { return "JavaScript error: " + e.Msg }

// Undefined returns undefined.
func Undefined() Value { return Value{} }

// Null returns null.
func Null() Value { return Value{&ref{k: null}} }

// Object makes an object with methods.
func Object(methods map[string]func(args []Value) Value) Value {
	r := &ref{k: object, props: map[string]Value{}}
	for n, f := range methods {
		r.props[n] = Value{&ref{k: function, fn: f}}
	}
	return Value{r}
}

// Array makes a Uint8Array.
func Array(b []byte) Value { return Value{&ref{k: array, bytes: b}} }

var global = Value{&ref{k: object, props: map[string]Value{"Uint8Array": {&ref{k: function, ctor: newArray}}}}}

func newArray(args []Value) Value {
	if len(args) == 0 {
		return Array(nil)
	}
	switch a := args[0]; a.kind() {
	case number:
		if a.r.n < 0 {
			panic(Error{"RangeError: invalid typed array length"})
		}
		return Array(make([]byte, a.r.n))
	case array:
		return Array(append([]byte(nil), a.r.bytes...))
	}
	v.Fail("the model does not know this use of Uint8Array")
	return Value{}
}

// Global returns the global object.
func Global() Value { return global }

func (x Value) kind() kind {
	if x.r == nil {
		return undefined
	}
	return x.r.k
}

// ValueOf converts a Go value.
func ValueOf(x any) Value {
	switch x := x.(type) {
	case Value:
		return x
	case nil:
		return Null()
	case bool:
		return Value{&ref{k: boolean, b: x}}
	case int:
		return Value{&ref{k: number, n: x}}
	case int32:
		return Value{&ref{k: number, n: int(x)}}
	case int64:
		return Value{&ref{k: number, n: int(x)}}
	case uint32:
		return Value{&ref{k: number, n: int(x)}}
	case uint64:
		return Value{&ref{k: number, n: int(x)}}
	case byte:
		return Value{&ref{k: number, n: int(x)}}
	case string:
		return Value{&ref{k: str, s: x}}
	}
	panic("ValueOf: invalid value")
}

func values(args []any) []Value {
	var out []Value
	for _, a := range args {
		out = append(out, ValueOf(a))
	}
	return out
}

// Type returns the kind of a value.
func (x Value) Type() Type {
	switch x.kind() {
	case null:
		return TypeNull
	case boolean:
		return TypeBoolean
	case number:
		return TypeNumber
	case str:
		return TypeString
	case object, array:
		return TypeObject
	case function:
		return TypeFunction
	}
	return TypeUndefined
}

// IsUndefined reports whether the value is undefined.
func (x Value) IsUndefined() bool { return x.kind() == undefined }

// IsNull reports whether the value is null.
func (x Value) IsNull() bool { return x.kind() == null }

// Truthy reports whether the value counts as true.
func (x Value) Truthy() bool {
	switch x.kind() {
	case undefined, null:
		return false
	case boolean:
		return x.r.b
	case number:
		return x.r.n != 0
	case str:
		return x.r.s != ""
	}
	return true
}

// Equal reports strict equality.
func (x Value) Equal(y Value) bool {
	if x.kind() != y.kind() {
		return false
	}
	switch x.kind() {
	case undefined, null:
		return true
	case boolean:
		return x.r.b == y.r.b
	case number:
		return x.r.n == y.r.n
	case str:
		return x.r.s == y.r.s
	}
	return x.r == y.r
}

// Get returns a property.
func (x Value) Get(p string) Value {
	switch x.kind() {
	case object, function:
		return x.r.props[p]
	case array:
		if p == "length" || p == "byteLength" {
			return ValueOf(len(x.r.bytes))
		}
		if p == "subarray" || p == "slice" {
			return Value{&ref{k: function, fn: func(args []Value) Value { return x.Call(p, anys(args)...) }}}
		}
		return Value{}
	}
	panic(&ValueError{"Value.Get"})
}

func anys(args []Value) []any {
	var out []any
	for _, a := range args {
		out = append(out, a)
	}
	return out
}

// ValueError is a call on a value that does not support it.
type ValueError struct{ Method string }

func (e *ValueError) Error() string { return "syscall/js: call of " + e.Method + " on the wrong type" }

// Set sets a property.
func (x Value) Set(p string, val any) {
	if k := x.kind(); k != object && k != function && k != array {
		panic(&ValueError{"Value.Set"})
	}
	if x.r.props == nil {
		x.r.props = map[string]Value{}
	}
	x.r.props[p] = ValueOf(val)
}

// Index returns an element.
func (x Value) Index(i int) Value {
	if x.kind() != array {
		panic(&ValueError{"Value.Index"})
	}
	if i < 0 || i >= len(x.r.bytes) {
		return Value{}
	}
	return ValueOf(int(x.r.bytes[i]))
}

// SetIndex sets an element.
func (x Value) SetIndex(i int, val any) {
	if x.kind() != array {
		panic(&ValueError{"Value.SetIndex"})
	}
	if i < 0 || i >= len(x.r.bytes) {
		return
	}
	switch n := val.(type) {
	case byte:
		x.r.bytes[i] = n
	case int:
		x.r.bytes[i] = byte(n)
	default:
		x.r.bytes[i] = byte(ValueOf(val).Int())
	}
}

// Length returns the number of elements.
func (x Value) Length() int {
	if x.kind() != array {
		panic(&ValueError{"Value.Length"})
	}
	return len(x.r.bytes)
}

// Int returns the number.
func (x Value) Int() int {
	if x.kind() != number {
		panic(&ValueError{"Value.Int"})
	}
	return x.r.n
}

// Bool returns the truth value.
func (x Value) Bool() bool {
	if x.kind() != boolean {
		panic(&ValueError{"Value.Bool"})
	}
	return x.r.b
}

// String returns the string.
func (x Value) String() string {
	if x.kind() == str {
		return x.r.s
	}
	return "<value>"
}

// New calls a constructor.
func (x Value) New(args ...any) Value {
	if x.kind() != function || x.r.ctor == nil {
		panic(&ValueError{"Value.New"})
	}
	return x.r.ctor(values(args))
}

// Invoke calls a function.
func (x Value) Invoke(args ...any) Value {
	if x.kind() != function || x.r.fn == nil {
		panic(&ValueError{"Value.Invoke"})
	}
	return x.r.fn(values(args))
}

// Call calls a method.
func (x Value) Call(m string, args ...any) Value {
	vs := values(args)
	if x.kind() == array && (m == "subarray" || m == "slice") {
		from, to := 0, len(x.r.bytes)
		if len(vs) > 0 {
			from = vs[0].Int()
		}
		if len(vs) > 1 {
			to = vs[1].Int()
		}
		if from < 0 || to < from || to > len(x.r.bytes) {
			v.Fail("the model does not know this use of " + m)
		}
		if m == "subarray" {
			return Array(x.r.bytes[from:to])
		}
		return Array(append([]byte(nil), x.r.bytes[from:to]...))
	}
	if k := x.kind(); k != object && k != function && k != array {
		panic(&ValueError{"Value.Call"})
	}
	f := x.r.props[m]
	if f.kind() != function {
		panic(&ValueError{"Value.Call"})
	}
	return f.Invoke(anys(vs)...)
}

// InstanceOf reports whether the value was made by the constructor.
func (x Value) InstanceOf(t Value) bool {
	return x.kind() == array && t.Equal(global.r.props["Uint8Array"])
}

// CopyBytesToJS copies bytes into a Uint8Array.
func CopyBytesToJS(dst Value, src []byte) int {
	if dst.kind() != array {
		panic("syscall/js: CopyBytesToJS: expected dst to be a Uint8Array or Uint8ClampedArray")
	}
	return copy(dst.r.bytes, src)
}

// CopyBytesToGo copies bytes out of a Uint8Array.
func CopyBytesToGo(dst []byte, src Value) int {
	if src.kind() != array {
		panic("syscall/js: CopyBytesToGo: expected src to be a Uint8Array or Uint8ClampedArray")
	}
	return copy(dst, src.r.bytes)
}
