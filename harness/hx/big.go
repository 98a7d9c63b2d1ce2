package hx

import (
	"bytes"
	"strings"

	"github.com/aperturerobotics/starpc/zz_verif/v"
)

// Sizes are message sizes below and above the buffers the code uses.
var Sizes = []int{100, 1500, 2100, 5000, 9000, 33000, 70000}

// Size is one of the first n sizes (all of them if n is 0).
func Size(label string, n int) int {
	if n == 0 {
		n = len(Sizes)
	}
	return Sizes[v.Choose(label, n)]
}

// fill has a prime length, so that swapped or repeated blocks show.
var fill = []byte(strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyz", 7)[:251])

// Blob is n bytes: symbolic ones at the start, in the middle and at the end.
func Blob(label string, n int) []byte {
	b := bytes.Repeat(fill, n/len(fill)+1)[:n:n]
	for _, i := range []int{0, n / 2, n - 1} {
		b[i] = v.Byte(label)
	}
	return b
}
