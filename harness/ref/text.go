// Package ref holds slow, independent implementations used as oracles. Nothing here imports the code under test.
package ref

import (
	"crypto/sha256"
	"errors"
	"strings"
)

const B58 = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"

// Base58Enc encodes by repeated byte-wise long division.
func Base58Enc(in []byte) string {
	zeros := 0
	for zeros < len(in) && in[zeros] == 0 {
		zeros++
	}
	num := append([]byte{}, in[zeros:]...)
	var digits []byte
	for len(num) > 0 {
		rem := 0
		var q []byte
		for _, d := range num {
			cur := rem*256 + int(d)
			if len(q) > 0 || cur/58 > 0 {
				q = append(q, byte(cur/58))
			}
			rem = cur % 58
		}
		digits = append(digits, B58[rem])
		num = q
	}
	out := strings.Repeat("1", zeros)
	for i := len(digits) - 1; i >= 0; i-- {
		out += string(digits[i])
	}
	return out
}

// Base58Dec decodes; ok is false when a character is outside the alphabet.
func Base58Dec(s string) (out []byte, ok bool) {
	zeros := 0
	for zeros < len(s) && s[zeros] == '1' {
		zeros++
	}
	var num []byte // big-endian base 256
	for i := zeros; i < len(s); i++ {
		v := strings.IndexByte(B58, s[i])
		if v < 0 {
			return nil, false
		}
		carry := v
		for j := len(num) - 1; j >= 0; j-- {
			carry += int(num[j]) * 58
			num[j] = byte(carry)
			carry >>= 8
		}
		for carry > 0 {
			num = append([]byte{byte(carry)}, num...)
			carry >>= 8
		}
	}
	return append(make([]byte, zeros), num...), true
}

func DSha256(b []byte) []byte {
	x := sha256.Sum256(b)
	y := sha256.Sum256(x[:])
	return y[:]
}

// Base58CheckEnc / Dec.
func Base58CheckEnc(payload []byte, version byte) string {
	b := append([]byte{version}, payload...)
	return Base58Enc(append(b, DSha256(b)[:4]...))
}

func Base58CheckDec(s string) (payload []byte, version byte, ok bool) {
	d, ok := Base58Dec(s)
	if !ok || len(d) < 5 {
		return nil, 0, false
	}
	n := len(d) - 4
	if string(DSha256(d[:n])[:4]) != string(d[n:]) {
		return nil, 0, false
	}
	return d[1:n], d[0], true
}

// ---- bech32 (BIP173) by polynomial arithmetic over GF(32), independent of the bit-trick polymod ----

const Charset32 = "qpzry9x8gf2tvdw0s3jn54khce6mua7l"

// gf32 multiplication, field generated by a^5 = a^3 + 1.
func gfmul(a, b int) int {
	r := 0
	for i := 0; i < 5; i++ {
		if b>>i&1 == 1 {
			r ^= a << i
		}
	}
	for i := 8; i >= 5; i-- {
		if r>>i&1 == 1 {
			r ^= 0x29 << (i - 5)
		}
	}
	return r
}

// The BIP173 generator: x^6 + 29x^5 + 22x^4 + 20x^3 + 21x^2 + 29x + 18.
var bgen = []int{29, 22, 20, 21, 29, 18}

func polyRem(vals []int) [6]int {
	// remainder of (1 || vals) as polynomial mod generator, constants as in BIP173 (initial value 1)
	st := [6]int{0, 0, 0, 0, 0, 1}
	for _, v := range vals {
		c := st[0]
		st = [6]int{st[1], st[2], st[3], st[4], st[5], v}
		for i := range st {
			st[i] ^= gfmul(c, bgen[i])
		}
	}
	return st
}

func hrpExpand(hrp string) []int {
	var v []int
	for _, c := range []byte(hrp) {
		v = append(v, int(c)>>5)
	}
	v = append(v, 0)
	for _, c := range []byte(hrp) {
		v = append(v, int(c)&31)
	}
	return v
}

// Bech32Enc encodes lower-case hrp and 5-bit data.
func Bech32Enc(hrp string, data []byte) string {
	vals := hrpExpand(hrp)
	for _, d := range data {
		vals = append(vals, int(d))
	}
	r := polyRem(append(vals, 0, 0, 0, 0, 0, 0))
	r[5] ^= 1
	out := hrp + "1"
	for _, d := range data {
		out += string(Charset32[d])
	}
	for _, c := range r {
		out += string(Charset32[c])
	}
	return out
}

// Bech32Dec applies every BIP173 rule.
func Bech32Dec(s string) (string, []byte, error) {
	if len(s) > 90 {
		return "", nil, errors.New("length")
	}
	lo, up := false, false
	for _, c := range []byte(s) {
		if c < 33 || c > 126 {
			return "", nil, errors.New("char")
		}
		if c >= 'a' && c <= 'z' {
			lo = true
		}
		if c >= 'A' && c <= 'Z' {
			up = true
		}
	}
	if lo && up {
		return "", nil, errors.New("mixed case")
	}
	b := []byte(s)
	for i := range b {
		if b[i] >= 'A' && b[i] <= 'Z' {
			b[i] += 32
		}
	}
	s = string(b)
	p := -1
	for i := range b {
		if b[i] == '1' {
			p = i
		}
	}
	if p < 1 || len(s)-p-1 < 6 {
		return "", nil, errors.New("separator")
	}
	vals := hrpExpand(s[:p])
	var data []byte
	for _, c := range b[p+1:] {
		i := strings.IndexByte(Charset32, c)
		if i < 0 {
			return "", nil, errors.New("charset")
		}
		data = append(data, byte(i))
		vals = append(vals, i)
	}
	if polyRem(vals) != [6]int{0, 0, 0, 0, 0, 1} {
		return "", nil, errors.New("checksum")
	}
	return s[:p], data[:len(data)-6], nil
}

// SegwitEnc encodes a witness program.
func SegwitEnc(hrp string, ver byte, prog []byte) string {
	return Bech32Enc(hrp, append([]byte{ver}, To5(prog)...))
}

// To5 regroups bytes into 5-bit groups via a bit string.
func To5(b []byte) []byte {
	var bits []byte
	for _, x := range b {
		for i := 7; i >= 0; i-- {
			bits = append(bits, x>>uint(i)&1)
		}
	}
	for len(bits)%5 != 0 {
		bits = append(bits, 0)
	}
	var out []byte
	for i := 0; i < len(bits); i += 5 {
		v := byte(0)
		for j := 0; j < 5; j++ {
			v = v<<1 | bits[i+j]
		}
		out = append(out, v)
	}
	return out
}

// From5 undoes To5; ok is false for illegal padding.
func From5(d []byte) (out []byte, ok bool) {
	var bits []byte
	for _, x := range d {
		for i := 4; i >= 0; i-- {
			bits = append(bits, x>>uint(i)&1)
		}
	}
	n := len(bits) / 8
	for _, b := range bits[n*8:] {
		if b != 0 {
			return nil, false
		}
	}
	if len(bits)-n*8 >= 5 {
		return nil, false
	}
	out = []byte{}
	for i := 0; i < n; i++ {
		v := byte(0)
		for j := 0; j < 8; j++ {
			v = v<<1 | bits[i*8+j]
		}
		out = append(out, v)
	}
	return out, true
}

// SegwitDec applies the BIP173 segwit address rules (any hrp).
func SegwitDec(s string) (hrp string, ver byte, prog []byte, err error) {
	hrp, d, err := Bech32Dec(s)
	if err != nil {
		return "", 0, nil, err
	}
	if len(d) < 1 || d[0] > 16 {
		return "", 0, nil, errors.New("version")
	}
	prog, ok := From5(d[1:])
	if !ok || len(prog) < 2 || len(prog) > 40 {
		return "", 0, nil, errors.New("program")
	}
	if d[0] == 0 && len(prog) != 20 && len(prog) != 32 {
		return "", 0, nil, errors.New("v0 program")
	}
	return hrp, d[0], prog, nil
}
