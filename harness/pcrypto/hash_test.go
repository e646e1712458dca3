package pcrypto

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"hash"
	"testing"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

func sum(h hash.Hash, parts ...[]byte) []byte {
	for _, p := range parts {
		h.Write(p)
	}
	return h.Sum(nil)
}

// hmacOf is HMAC from its definition.
func hmacOf(h func() hash.Hash, key []byte, parts ...[]byte) []byte {
	n := h().BlockSize()
	if len(key) > n {
		key = sum(h(), key)
	}
	k := make([]byte, n)
	copy(k, key)
	in, out := make([]byte, n), make([]byte, n)
	for i := range k {
		in[i], out[i] = k[i]^0x36, k[i]^0x5c
	}
	return sum(h(), out, sum(h(), append([][]byte{in}, parts...)...))
}

// kdf is PBKDF2 from its definition.
func kdf(h func() hash.Hash, pw, salt []byte, iter, n int) []byte {
	var out []byte
	for i := 1; len(out) < n; i++ {
		u := hmacOf(h, pw, salt, []byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
		f := append([]byte{}, u...)
		for j := 1; j < iter; j++ {
			u = hmacOf(h, pw, u)
			for k := range f {
				f[k] ^= u[k]
			}
		}
		out = append(out, f...)
	}
	return out[:n]
}

// message draws a message, often around block borders.
func message(t *rapid.T, label string, max int) []byte {
	n := rapid.IntRange(0, max).Draw(t, label+".n")
	if rapid.Bool().Draw(t, label+".border") {
		n = rapid.IntRange(0, max/64).Draw(t, label+".blocks")*64 + rapid.SampledFrom([]int{0, 1, 54, 55, 56, 57, 63}).Draw(t, label+".rest")
	}
	switch rapid.IntRange(0, 4).Draw(t, label+".fill") {
	case 0:
		return make([]byte, n)
	case 1:
		return bytes.Repeat([]byte{0xff}, n)
	}
	return kit.Uniform(t, n, label)
}

func TestP11(t *testing.T) {
	r := kit.New(t, "P11", "SHA-1, SHA-256 and SHA-512 of the Go standard library are taken as correct")
	r.Run(t, "digests", 30000, 20, "messages of 0..1100 (sometimes 70000) bytes, half of them around block borders; non-trivial: at least one block",
		func(t *rapid.T, c *kit.Case) {
			max := 1024
			if rapid.IntRange(0, 99).Draw(t, "large") == 0 {
				max = 70000
			}
			m := message(t, "m", max)
			if len(m) >= 55 {
				c.Nontrivial(m)
			}
			c.Sample("%d bytes %x", len(m), m)
			in, intact := kit.Spare(m)
			s := sha256.Sum256(m)
			ss := sha256.Sum256(s[:])
			for i := 0; i < 2; i++ {
				for _, e := range []struct {
					n         string
					got, want []byte
				}{
					{"Sha256", xcrypto.Sha256(in), s[:]},
					{"DoubleSha256", xcrypto.DoubleSha256(in), ss[:]},
					{"Ripemd160", xcrypto.Ripemd160(in), ref.Ripemd160(m)},
					{"Hash160", xcrypto.Hash160(in), ref.Ripemd160(s[:])},
				} {
					if !bytes.Equal(e.got, e.want) {
						t.Fatalf("%s(%x) = %x want %x", e.n, m, e.got, e.want)
					}
				}
			}
			if !intact() {
				t.Fatalf("hashing changed its input")
			}
			if xcrypto.Ripemd160Size() != 20 {
				t.Fatalf("Ripemd160Size %d", xcrypto.Ripemd160Size())
			}
		})
	r.Run(t, "incremental", 20000, 20, "histories of writes of any size, reads of the digest with any prefix, resets, on two states at once; non-trivial: at least two writes and one read between them",
		func(t *rapid.T, c *kit.Case) {
			type state struct {
				h hash.Hash
				m []byte
			}
			st := []*state{{h: ripemd160.New()}, {h: ripemd160.New()}}
			var log []byte
			writes, between := 0, false
			for n := rapid.IntRange(1, 14).Draw(t, "ops"); n > 0; n-- {
				s := st[rapid.IntRange(0, 1).Draw(t, "which")]
				switch rapid.IntRange(0, 6).Draw(t, "op") {
				case 0:
					s.h.Reset()
					s.m = nil
					log = append(log, 'r')
				case 1, 2:
					pre, intact := kit.Spare(kit.Bytes(t, 0, 5, "prefix"))
					if rapid.Bool().Draw(t, "nil") {
						pre, intact = nil, func() bool { return true }
					}
					p := append([]byte{}, pre...)
					got := s.h.Sum(pre[:len(pre):len(pre)])
					if want := append(p, ref.Ripemd160(s.m)...); !bytes.Equal(got, want) {
						t.Fatalf("Sum(%x) after %d bytes %x: %x want %x", p, len(s.m), s.m, got, want)
					}
					if !intact() {
						t.Fatalf("Sum wrote beyond its argument's capacity")
					}
					if writes > 0 {
						between = true
					}
					log = append(log, 's')
				default:
					max := 200
					if rapid.IntRange(0, 49).Draw(t, "large") == 0 {
						max = 10000
					}
					b := message(t, "w", max)
					in, intact := kit.Spare(b)
					k, err := s.h.Write(in)
					if k != len(b) || err != nil || !intact() {
						t.Fatalf("Write of %d bytes: %d %v", len(b), k, err)
					}
					s.m = append(s.m, b...)
					writes++
					log = append(log, 'w', byte(len(b)), byte(len(b)>>8))
				}
				if s.h.Size() != 20 || s.h.BlockSize() != 64 {
					t.Fatalf("Size %d BlockSize %d", s.h.Size(), s.h.BlockSize())
				}
			}
			for _, s := range st {
				if got, want := s.h.Sum(nil), ref.Ripemd160(s.m); !bytes.Equal(got, want) {
					t.Fatalf("digest of %d bytes %x: %x want %x", len(s.m), s.m, got, want)
				}
			}
			if writes > 1 && between {
				c.Nontrivial(log, st[0].m, st[1].m)
			}
			c.Sample("%q", log)
		})
	big := 1
	if kit.Thorough() {
		big = 2
	}
	r.Run(t, "long", big, 1, "a message of more than 2^29 (thorough: also 2^32) bytes, so that the bit length needs more than 32 bits; expected digests by OpenSSL",
		func(t *rapid.T, c *kit.Case) {
			i := 0
			if kit.Thorough() {
				i = rapid.IntRange(0, 1).Draw(t, "which")
			}
			n := []int{1<<29 + 77, 1<<32 + 130}[i]
			want := []string{"407ddd7d5ed81f845679e3d44071bd523cf37788", "7670487a044dc23e0963597ed056a56001f968fc"}[i]
			c.Nontrivial(n)
			c.Sample("%d bytes", n)
			h := ripemd160.New()
			b := bytes.Repeat([]byte{'a'}, 1<<20)
			for left := n; left > 0; {
				k := min(left, len(b))
				h.Write(b[:k])
				left -= k
			}
			if got := hex.EncodeToString(h.Sum(nil)); got != want {
				t.Fatalf("digest of %d times 'a': %s want %s", n, got, want)
			}
		})
	r.Run(t, "pbkdf2", 20000, 20, "passwords and salts of 0..300 bytes, 1..8 (sometimes 0) iterations, 0..200 output bytes, over four hash functions; non-trivial: more than one block and one iteration",
		func(t *rapid.T, c *kit.Case) {
			hs := []func() hash.Hash{sha512.New, sha256.New, sha1.New, ripemd160.New}
			k := rapid.IntRange(0, 3).Draw(t, "hash")
			h := hs[k]
			pwMax, saltMax := 256, 256
			switch rapid.IntRange(0, 59).Draw(t, "large") {
			case 0:
				pwMax = 9000
			case 1:
				saltMax = 9000
			}
			pw, salt := message(t, "pw", pwMax), message(t, "salt", saltMax)
			iter := rapid.IntRange(0, 8).Draw(t, "iter")
			n := rapid.IntRange(0, 200).Draw(t, "len")
			size := h().Size()
			if rapid.Bool().Draw(t, "exact") {
				n = rapid.IntRange(0, 4).Draw(t, "blocks") * size
			}
			if n > size && iter > 1 {
				c.Nontrivial(k, pw, salt, iter, n)
			}
			c.Sample("hash %d password %x salt %x iterations %d length %d", k, pw, salt, iter, n)
			a, aok := kit.Spare(pw)
			b, bok := kit.Spare(salt)
			want := kdf(h, pw, salt, iter, n)
			got := pbkdf2.Key(a, b, iter, n, h)
			if !bytes.Equal(got, want) {
				t.Fatalf("pbkdf2 hash %d password %x salt %x iterations %d length %d: %x want %x", k, pw, salt, iter, n, got, want)
			}
			if again := pbkdf2.Key(a, b, iter, n, h); !bytes.Equal(again, want) || !bytes.Equal(got, want) {
				t.Fatalf("second derivation %x want %x", again, want)
			}
			if !aok() || !bok() {
				t.Fatalf("pbkdf2 changed its inputs")
			}
		})
	r.Run(t, "many", 12, 20, "thousands of iterations or more than 255 blocks of output, against the standard library's HMAC; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			iter, n := rapid.IntRange(1000, 5000).Draw(t, "iter"), 64
			if rapid.Bool().Draw(t, "long") {
				iter, n = rapid.IntRange(1, 2).Draw(t, "iter2"), rapid.IntRange(255*64, 260*64).Draw(t, "len")
			}
			pw, salt := message(t, "pw", 200), message(t, "salt", 200)
			c.Nontrivial(iter, n, pw, salt)
			c.Sample("iterations %d length %d", iter, n)
			var want []byte
			m := hmac.New(sha512.New, pw)
			for i := 1; len(want) < n; i++ {
				m.Reset()
				m.Write(salt)
				m.Write([]byte{byte(i >> 24), byte(i >> 16), byte(i >> 8), byte(i)})
				u := m.Sum(nil)
				f := append([]byte{}, u...)
				for j := 1; j < iter; j++ {
					m.Reset()
					m.Write(u)
					u = m.Sum(u[:0])
					for x := range f {
						f[x] ^= u[x]
					}
				}
				want = append(want, f...)
			}
			if got := pbkdf2.Key(pw, salt, iter, n, sha512.New); !bytes.Equal(got, want[:n]) {
				t.Fatalf("pbkdf2 password %x salt %x iterations %d length %d differs", pw, salt, iter, n)
			}
		})
}
