package ref

import (
	"crypto/sha256"
	"encoding/binary"
	"math/bits"
)

var (
	rho  = [16]int{7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8}
	rmdS = [5][16]int{
		{11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8},
		{12, 13, 11, 15, 6, 9, 9, 7, 12, 15, 11, 13, 7, 8, 7, 7},
		{13, 15, 14, 11, 7, 7, 6, 8, 13, 14, 13, 12, 5, 5, 6, 9},
		{14, 11, 12, 14, 8, 6, 5, 5, 15, 12, 15, 14, 9, 9, 8, 6},
		{15, 12, 13, 13, 9, 5, 8, 6, 14, 11, 12, 11, 8, 6, 5, 5},
	}
	kl = [5]uint32{0, 0x5a827999, 0x6ed9eba1, 0x8f1bbcdc, 0xa953fd4e}
	kr = [5]uint32{0x50a28be6, 0x5c4dd124, 0x6d703ef3, 0x7a6d76e9, 0}
)

func rmdF(i int, x, y, z uint32) uint32 {
	switch i {
	case 0:
		return x ^ y ^ z
	case 1:
		return x&y | ^x&z
	case 2:
		return (x | ^y) ^ z
	case 3:
		return x&z | y&^z
	}
	return x ^ (y | ^z)
}

// Ripemd160 from the specification's permutations (message order and shifts computed from rho and pi,
// shifts taken as those of the permuted word).
func Ripemd160(msg []byte) []byte {
	h := [5]uint32{0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476, 0xc3d2e1f0}
	p := append(append([]byte{}, msg...), 0x80)
	for len(p)%64 != 56 {
		p = append(p, 0)
	}
	p = binary.LittleEndian.AppendUint64(p, uint64(len(msg))*8)
	var ol, or [5][16]int
	for j := 0; j < 16; j++ {
		ol[0][j] = j
		or[0][j] = (9*j + 5) % 16
	}
	for r := 1; r < 5; r++ {
		for j := 0; j < 16; j++ {
			ol[r][j] = rho[ol[r-1][j]]
			or[r][j] = rho[or[r-1][j]]
		}
	}
	for len(p) > 0 {
		var x [16]uint32
		for i := range x {
			x[i] = binary.LittleEndian.Uint32(p[4*i:])
		}
		line := func(o [5][16]int, k [5]uint32, rev bool) [5]uint32 {
			a, b, c, d, e := h[0], h[1], h[2], h[3], h[4]
			for r := 0; r < 5; r++ {
				fi := r
				if rev {
					fi = 4 - r
				}
				for j := 0; j < 16; j++ {
					w := o[r][j]
					t := bits.RotateLeft32(a+rmdF(fi, b, c, d)+x[w]+k[r], rmdS[r][w]) + e
					a, e, d, c, b = e, d, bits.RotateLeft32(c, 10), b, t
				}
			}
			return [5]uint32{a, b, c, d, e}
		}
		l, q := line(ol, kl, false), line(or, kr, true)
		h = [5]uint32{h[1] + l[2] + q[3], h[2] + l[3] + q[4], h[3] + l[4] + q[0], h[4] + l[0] + q[1], h[0] + l[1] + q[2]}
		p = p[64:]
	}
	var out []byte
	for _, v := range h {
		out = binary.LittleEndian.AppendUint32(out, v)
	}
	return out
}

func Hash160(b []byte) []byte {
	x := sha256.Sum256(b)
	return Ripemd160(x[:])
}

// Sha is SHA-256.
func Sha(b []byte) []byte {
	x := sha256.Sum256(b)
	return x[:]
}
