package kit

import (
	"math/big"

	"pgregory.net/rapid"
)

// Bytes draws a byte string with length in [lo,hi], biased to sparse/structured contents.
func Bytes(t *rapid.T, lo, hi int, label string) []byte {
	n := rapid.IntRange(lo, hi).Draw(t, label+".len")
	return BytesN(t, n, label)
}

// BytesN draws n bytes: random, constant, zero-led or mostly one value.
func BytesN(t *rapid.T, n int, label string) []byte {
	switch rapid.IntRange(0, 5).Draw(t, label+".kind") {
	case 0:
		b := make([]byte, n)
		v := rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff}).Draw(t, label+".fill")
		for i := range b {
			b[i] = v
		}
		return b
	case 1:
		b := rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
		if n > 0 {
			k := rapid.IntRange(0, n).Draw(t, label+".zeros")
			for i := 0; i < k; i++ {
				b[i] = 0
			}
		}
		return b
	case 2:
		b := make([]byte, n)
		if n > 0 {
			b[rapid.IntRange(0, n-1).Draw(t, label+".pos")] = rapid.Byte().Draw(t, label+".val")
		}
		return b
	}
	// rapid shrinks and biases each byte; Rand gives uniform bytes cheaply
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
}

// Uniform draws n uniform bytes from a drawn 64-bit seed (cheap for long data).
func Uniform(t *rapid.T, n int, label string) []byte {
	x := rapid.Uint64().Draw(t, label)
	return Expand(x, n)
}

// Expand derives n bytes from a seed by splitmix64 (a pure function of the seed).
func Expand(x uint64, n int) []byte {
	b := make([]byte, 0, n+8)
	for len(b) < n {
		x += 0x9e3779b97f4a7c15
		z := x
		z = (z ^ z>>30) * 0xbf58476d1ce4e5b9
		z = (z ^ z>>27) * 0x94d049bb133111eb
		z ^= z >> 31
		for i := 0; i < 8; i++ {
			b = append(b, byte(z>>(8*i)))
		}
	}
	return b[:n]
}

// Spare returns b with spare capacity filled with a sentinel behind it, and a function telling whether
// the sentinel and contents are untouched.
func Spare(b []byte) ([]byte, func() bool) {
	full := make([]byte, len(b)+64)
	copy(full, b)
	for i := len(b); i < len(full); i++ {
		full[i] = 0xA5
	}
	orig := append([]byte{}, b...)
	s := full[:len(b):len(full)]
	return s, func() bool {
		if string(full[:len(b)]) != string(orig) {
			return false
		}
		for i := len(b); i < len(full); i++ {
			if full[i] != 0xA5 {
				return false
			}
		}
		return true
	}
}

// Mutate alters b (copied): bit flip, byte set, truncate, extend, delete, duplicate, swap.
func Mutate(t *rapid.T, b []byte, label string) []byte {
	c := append([]byte{}, b...)
	n := rapid.IntRange(1, 3).Draw(t, label+".n")
	for i := 0; i < n; i++ {
		op := rapid.IntRange(0, 6).Draw(t, label+".op")
		if len(c) == 0 {
			op = 3
		}
		pos := 0
		if len(c) > 0 {
			pos = rapid.IntRange(0, len(c)-1).Draw(t, label+".pos")
		}
		switch op {
		case 0:
			c[pos] ^= 1 << rapid.IntRange(0, 7).Draw(t, label+".bit")
		case 1:
			c[pos] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xfd, 0xfe, 0xff}).Draw(t, label+".set")
		case 2:
			c = c[:pos]
		case 3:
			c = append(c, rapid.SliceOfN(rapid.Byte(), 1, 9).Draw(t, label+".ext")...)
		case 4:
			c = append(c[:pos], c[pos+1:]...)
		case 5:
			c = append(c[:pos:pos], append([]byte{c[pos]}, c[pos:]...)...)
		case 6:
			q := rapid.IntRange(0, len(c)-1).Draw(t, label+".pos2")
			c[pos], c[q] = c[q], c[pos]
		}
	}
	return c
}

var curveN, _ = new(big.Int).SetString("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141", 16)

// Scalar draws a private-key scalar in [1, N-1]: uniform, tiny, near N, short or sparse.
func Scalar(t *rapid.T, label string) *big.Int {
	var v *big.Int
	switch rapid.IntRange(0, 7).Draw(t, label+".kind") {
	case 0:
		v = big.NewInt(int64(rapid.IntRange(1, 300).Draw(t, label+".small")))
	case 1:
		v = new(big.Int).Sub(curveN, big.NewInt(int64(rapid.IntRange(1, 300).Draw(t, label+".near"))))
	case 2:
		v = new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(0, 255).Draw(t, label+".pow")))
	case 3: // leading zero bytes
		v = new(big.Int).SetBytes(Uniform(t, rapid.IntRange(1, 31).Draw(t, label+".len"), label))
	default:
		v = new(big.Int).SetBytes(Uniform(t, 32, label))
	}
	m := new(big.Int).Sub(curveN, big.NewInt(1))
	v = new(big.Int).Mod(v, m)
	return v.Add(v, big.NewInt(1))
}

// B32 gives the 32-byte big-endian form.
func B32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

// BytesNCheap draws n bytes without a draw per byte: uniform from a seed, constant, or a drawn short string.
func BytesNCheap(t *rapid.T, n int, label string) []byte {
	if n <= 4 {
		return rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, label)
	}
	return Uniform(t, n, label)
}

// Surplus draws how far something is too long: a little, around powers of two, and by multiples of 256 and 65536 (a length kept in a byte or two would not notice).
func Surplus(t *rapid.T, label string) int {
	switch Uniform(t, 1, label+".how")[0] % 4 {
	case 0:
		return rapid.IntRange(1, 40).Draw(t, label)
	case 1:
		return 1<<rapid.IntRange(0, 12).Draw(t, label) + rapid.IntRange(0, 1).Draw(t, label+".one")
	case 2:
		return 256 * rapid.IntRange(1, 4).Draw(t, label)
	}
	return rapid.SampledFrom([]int{128, 256, 512, 1024, 65536}).Draw(t, label)
}

// Overlong returns b with surplus bytes behind it, in front of it or within.
func Overlong(t *rapid.T, b []byte, label string) []byte {
	more := make([]byte, Surplus(t, label))
	switch rapid.IntRange(0, 2).Draw(t, label+".fill") {
	case 0:
		more = Uniform(t, len(more), label+".bytes")
	case 1:
		for i := range more {
			more[i] = 0xff
		}
	}
	at := len(b)
	switch Uniform(t, 1, label+".at")[0] % 6 {
	case 0:
		at = 0
	case 1:
		at = min(1, len(b))
	case 2:
		at = min(33, len(b))
	case 3:
		at = rapid.IntRange(0, len(b)).Draw(t, label+".pos")
	}
	return append(append(append([]byte{}, b[:at]...), more...), b[at:]...)
}
