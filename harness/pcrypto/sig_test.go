package pcrypto

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/hmac"
	"crypto/sha256"
	"math/big"
	"testing"

	"github.com/keyfuse/tokucore/xcrypto"
	xecdsa "github.com/keyfuse/tokucore/xcrypto/ecdsa"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

// nonce6979 is RFC 6979 with HMAC-SHA256 for any order of 256 bits (harness's own, general q).
func nonce6979(q, x *big.Int, hash []byte) (*big.Int, int) {
	mac := func(k []byte, parts ...[]byte) []byte {
		h := hmac.New(sha256.New, k)
		for _, p := range parts {
			h.Write(p)
		}
		return h.Sum(nil)
	}
	z := ref.HashInt(hash)
	if z.Cmp(q) >= 0 {
		z = new(big.Int).Sub(z, q)
	}
	xb, hb := kit.B32(x), kit.B32(z)
	v, k := bytes.Repeat([]byte{1}, 32), make([]byte, 32)
	k = mac(k, v, []byte{0}, xb, hb)
	v = mac(k, v)
	k = mac(k, v, []byte{1}, xb, hb)
	v = mac(k, v)
	for n := 0; ; n++ {
		v = mac(k, v)
		s := new(big.Int).SetBytes(v)
		if s.Sign() > 0 && s.Cmp(q) < 0 {
			return s, n
		}
		k = mac(k, v, []byte{0})
		v = mac(k, v)
	}
}

// sigNum draws a number for r or s around the interesting borders.
func sigNum(t *rapid.T, label string) *big.Int {
	half := new(big.Int).Rsh(ref.N, 1)
	o := bi(int64(rapid.IntRange(-2, 2).Draw(t, label+".o")))
	switch rapid.IntRange(0, 7).Draw(t, label+".k") {
	case 0:
		return o
	case 1:
		return o.Add(o, ref.N)
	case 2:
		return o.Add(o, half)
	case 3:
		return o.Add(o, ref.P)
	case 4:
		return o.Add(o, new(big.Int).Lsh(bi(1), uint(rapid.IntRange(0, 600).Draw(t, label+".sh"))))
	}
	return kit.Scalar(t, label)
}

func TestP07(t *testing.T) {
	r := kit.New(t, "P07", "digests of other lengths than 32 bytes are taken as ECDSA defines (leftmost 256 bits)", "a signature with s above half the order verifies, as textbook ECDSA does (pinned by existing tests)")
	r.Run(t, "sign", 450, 20, "keys and digests (uniform, extreme, near the order; sometimes other lengths); all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			d, k := key(t, "d")
			h := digest(t, "h")
			if rapid.IntRange(0, 7).Draw(t, "len") == 0 {
				h = kit.Bytes(t, 1, 70, "hx") // the standard library refuses an empty digest
			}
			switch rapid.IntRange(0, 29).Draw(t, "hunt") {
			case 0:
				c.Class("short r")
				h = hunt(h, func(h []byte) bool { return short(ref.MulG(ref.Nonce6979(d, h)).X) })
			case 1:
				c.Class("short s")
				h = hunt(h, func(h []byte) bool { _, s := ref.EcdsaSign(d, h); return short(s) })
			}
			c.Nontrivial(d, h)
			c.Sample("key %x digest %x", d, h)
			wr, ws := ref.EcdsaSign(d, h)
			want := ref.DER(wr, ws)
			in, intact := kit.Spare(h)
			sig, err := xcrypto.EcdsaSign(k, in)
			if err != nil || !bytes.Equal(sig, want) {
				t.Fatalf("key %x digest %x: signature %x (%v) want %x", d, h, sig, err, want)
			}
			sin, sok := kit.Spare(sig)
			if err := xcrypto.EcdsaVerify(k.PubKey(), in, sin); err != nil {
				t.Fatalf("key %x digest %x: own signature %x: %v", d, h, sig, err)
			}
			sig2, err := xcrypto.EcdsaSign(k, h)
			if err != nil || !bytes.Equal(sig2, want) {
				t.Fatalf("key %x digest %x: second signature %x (%v) want %x", d, h, sig2, err, want)
			}
			if !intact() || !sok() || k.D.Cmp(d) != 0 {
				t.Fatalf("signing or verifying changed its inputs")
			}
			if n := xecdsa.NonceRFC6979(ref.N, d, h); n.Cmp(ref.Nonce6979(d, h)) != 0 {
				t.Fatalf("key %x digest %x: nonce %x", d, h, n)
			}
			constants(t)
		})
	r.Run(t, "nonce", 4000, 20, "RFC 6979 nonces for arbitrary 256-bit orders, most needing retries; non-trivial: at least one retry",
		func(t *rapid.T, c *kit.Case) {
			qb := kit.Uniform(t, 32, "q")
			qb[0] = 0x80
			if rapid.Bool().Draw(t, "high") {
				qb[0] |= byte(rapid.IntRange(0, 127).Draw(t, "top"))
			}
			q := new(big.Int).SetBytes(qb)
			x := new(big.Int).Mod(kit.Scalar(t, "x"), q)
			h := digest(t, "h")
			want, n := nonce6979(q, x, h)
			if n > 0 {
				c.Nontrivial(q, x, h)
			}
			q0, x0 := new(big.Int).Set(q), new(big.Int).Set(x)
			in, intact := kit.Spare(h)
			if got := xecdsa.NonceRFC6979(q, x, in); got.Cmp(want) != 0 {
				t.Fatalf("nonce(q=%x x=%x h=%x): %x want %x (after %d retries)", q, x, h, got, want, n)
			}
			if q.Cmp(q0) != 0 || x.Cmp(x0) != 0 || !intact() {
				t.Fatalf("nonce derivation changed its inputs")
			}
			c.Sample("q %x x %x h %x retries %d", q, x, h, n)
		})
	r.Run(t, "verify", 700, 20, "valid signatures with one thing altered (key, digest, r, s, sign of s), border values of r and s, constructed cases (equal addends, r wrapped at the order, infinity); non-trivial: r and s in range",
		func(t *rapid.T, c *kit.Case) {
			d := kit.Scalar(t, "d")
			q := ref.MulG(d)
			h := digest(t, "h")
			rr, ss := ref.EcdsaSign(d, h)
			valid := func(when string) { // the valid triple stays valid, and vouches for no other
				if rapid.Bool().Draw(t, when) {
					if err := xcrypto.EcdsaVerify(pubOf(ref.MulG(d)), h, ref.DER(rr, ss)); err != nil {
						t.Fatalf("%s: key of %x digest %x r %x s %x: %v", when, d, h, rr, ss, err)
					}
				}
			}
			valid("before")
			kind := rapid.IntRange(0, 9).Draw(t, "kind")
			switch kind {
			case 0:
			case 1:
				if h = kit.Mutate(t, h, "hm"); len(h) == 0 {
					h = []byte{1} // the standard library refuses an empty digest
				}
			case 2:
				q = rapid.SampledFrom([]ref.Pt{q.Neg(), q.Add(ref.G), q.Add(q), ref.G}).Draw(t, "q2")
				if q.Inf() {
					q = ref.G
				}
			case 3:
				rr = sigNum(t, "r")
			case 4:
				ss = sigNum(t, "s")
			case 5:
				ss = new(big.Int).Sub(ref.N, ss)
			case 6:
				rr, ss = new(big.Int).Add(rr, new(big.Int).Mul(ref.N, bi(int64(rapid.IntRange(-1, 1).Draw(t, "rn"))))), new(big.Int).Add(ss, new(big.Int).Mul(ref.N, bi(int64(rapid.IntRange(-1, 1).Draw(t, "sn")))))
			case 7: // both addends equal: z = r*d
				k := kit.Scalar(t, "k")
				rr = mod(ref.MulG(k).X)
				h = kit.B32(mul(rr, d))
				ss = mul(mul(bi(2), mul(rr, d)), inv(k))
			case 8: // the sum is infinity: z = -r*d
				rr = kit.Scalar(t, "rr")
				h = kit.B32(mod(new(big.Int).Neg(mul(rr, d))))
				ss = kit.Scalar(t, "ss")
			case 9: // the nonce point's x is not below the order
				j := bi(int64(rapid.IntRange(1, 1000).Draw(t, "j")))
				var R ref.Pt
				for {
					if p, ok := ref.LiftX(new(big.Int).Add(ref.N, j), false); ok {
						R = p
						break
					}
					j.Add(j, bi(1))
				}
				u1, u2 := kit.Scalar(t, "u1"), kit.Scalar(t, "u2")
				q = ref.Mul(inv(u2), R.Add(ref.MulG(u1).Neg()))
				rr = j
				ss = mul(rr, inv(u2))
				h = kit.B32(mul(u1, ss))
				if rapid.IntRange(0, 2).Draw(t, "unreduced") == 0 {
					rr = new(big.Int).Add(ref.N, j)
				}
			}
			want := ref.EcdsaVerify(q, h, rr, ss)
			if rr.Sign() > 0 && ss.Sign() > 0 && rr.Cmp(ref.N) < 0 && ss.Cmp(ref.N) < 0 {
				c.Nontrivial(q.Comp(), h, rr, ss)
			}
			c.Class(map[bool]string{true: "accept", false: "reject"}[want])
			c.Sample("kind %d key %x digest %x r %x s %x accept=%v", kind, q.Comp(), h, rr, ss, want)
			pub := pubOf(q)
			r0, s0 := new(big.Int).Set(rr), new(big.Int).Set(ss)
			var got bool
			kit.NoPanic(t, "ecdsa.Verify", func() { got = xecdsa.Verify((*ecdsa.PublicKey)(pub), h, rr, ss) })
			if got != want {
				t.Fatalf("kind %d: verify key %x digest %x r %x s %x = %v, want %v", kind, q.Comp(), h, rr, ss, got, want)
			}
			if rr.Cmp(r0) != 0 || ss.Cmp(s0) != 0 || !xy(pub.X, pub.Y, q) {
				t.Fatalf("verification changed its inputs")
			}
			if rr.Sign() >= 0 && ss.Sign() >= 0 && rr.BitLen() <= 300 && ss.BitLen() <= 300 {
				der := ref.DER(rr, ss)
				sig := &xcrypto.SignatureEcdsa{R: rr, S: ss}
				if b, err := sig.Serialize(); err != nil || !bytes.Equal(b, der) {
					t.Fatalf("serialising r %x s %x: %x %v", rr, ss, b, err)
				}
				var err error
				kit.NoPanic(t, "EcdsaVerify", func() { err = xcrypto.EcdsaVerify(pub, h, der) })
				if (err == nil) != want {
					t.Fatalf("kind %d: verify key %x digest %x signature %x: %v, want %v", kind, q.Comp(), h, der, err, want)
				}
			}
		})
	r.Run(t, "der", 15000, 20, "DER candidates: strict encodings, mutated, padded integers, long-form lengths, surplus bytes and elements, random; non-trivial: starts as a sequence",
		func(t *rapid.T, c *kit.Case) {
			d := kit.Scalar(t, "d")
			_ = d
			a, b := sigNum(t, "r"), sigNum(t, "s")
			a.Abs(a)
			b.Abs(b)
			der := ref.DER(a, b)
			if len(der) > 127+2 {
				a, b = bi(1), bi(2)
				der = ref.DER(a, b)
			}
			integer := func(v []byte) []byte { return append([]byte{2, byte(len(v))}, v...) }
			switch rapid.IntRange(0, 8).Draw(t, "kind") {
			case 0:
			case 1, 2:
				der = kit.Mutate(t, der, "m")
			case 3:
				der = append(der, kit.Bytes(t, 1, 5, "tail")...)
			case 4: // extra element inside
				body := append(append([]byte{}, der[2:]...), rapid.SampledFrom([][]byte{{2, 1, 1}, {5, 0}, {4, 1, 7}, {2, 0}, {0}}).Draw(t, "extra")...)
				der = append([]byte{0x30, byte(len(body))}, body...)
			case 5: // padded integer
				v := append([]byte{0}, a.Bytes()...)
				v = append(make([]byte, rapid.IntRange(0, 2).Draw(t, "pad")), v...)
				body := append(integer(v), integer(append([]byte{0}, b.Bytes()...))...)
				der = append([]byte{0x30, byte(len(body))}, body...)
			case 6: // long-form lengths
				body := der[2:]
				der = append([]byte{0x30, 0x81, byte(len(body))}, body...)
				if rapid.Bool().Draw(t, "two") {
					der = append([]byte{0x30, 0x82, 0, byte(len(body))}, body...)
				}
			case 7: // indefinite, wrong tags, negative integers
				der = append([]byte{}, der...)
				i := rapid.SampledFrom([]int{0, 1, 2, 3, 4}).Draw(t, "at")
				der[i] = rapid.SampledFrom([]byte{0, 0x80, 0xff, 0x30, 0x31, 0x10, 0x22, 0x82, 0x02, 0x03}).Draw(t, "to")
			default:
				der = append([]byte{0x30}, kit.Bytes(t, 0, 80, "raw")...)
			}
			if kit.Uniform(t, 1, "toolong")[0] < 20 {
				der = kit.Overlong(t, ref.DER(bi(5), kit.Scalar(t, "s2")), "over")
				c.Class("much-too-long")
			}
			if len(der) > 0 && der[0] == 0x30 {
				c.Nontrivial(der)
			}
			c.Sample("%.80x", der)
			wr, ws, ok := ref.ParseDER(der)
			if ok {
				c.Class("valid")
			}
			in, intact := kit.Spare(der)
			sig := xcrypto.NewSignatureEcdsa()
			var err error
			kit.NoPanic(t, "Deserialize", func() { err = sig.Deserialize(in) })
			if !intact() {
				t.Fatalf("decoding changed its input")
			}
			if ok {
				if err != nil || sig.R.Cmp(wr) != 0 || sig.S.Cmp(ws) != 0 {
					t.Fatalf("decode %x: %v (%v,%v) want (%x,%x)", der, err, sig.R, sig.S, wr, ws)
				}
				if b, err := sig.Serialize(); err != nil || !bytes.Equal(b, der) {
					t.Fatalf("decode and encode %x: %x %v", der, b, err)
				}
				return
			}
			// refused, or (negative numbers) decoded to exactly these bytes; never verified
			if err == nil {
				b, err := sig.Serialize()
				if err != nil || !bytes.Equal(b, der) {
					t.Fatalf("decode %x accepted: (%v,%v), which encodes to %x", der, sig.R, sig.S, b)
				}
				if sig.R.Sign() >= 0 && sig.S.Sign() >= 0 && len(der) < 128 {
					t.Fatalf("decode %x accepted: (%v,%v)", der, sig.R, sig.S)
				}
				c.Class("negative")
			}
			if xcrypto.EcdsaVerify(pubOf(ref.G), make([]byte, 32), in) == nil {
				t.Fatalf("malformed %x verifies", der)
			}
		})
	r.Run(t, "tamper", 400, 20, "a real signature under its key, then one altered byte of signature or digest, or a foreign key; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			d, k := key(t, "d")
			h := kit.Uniform(t, 32, "h")
			sig, err := xcrypto.EcdsaSign(k, h)
			if err != nil {
				t.Fatalf("sign: %v", err)
			}
			pub := k.PubKey()
			sig2, h2 := append([]byte{}, sig...), append([]byte{}, h...)
			valid := func(when string) { // what was altered stays valid, and vouches for nothing else
				if err := xcrypto.EcdsaVerify(k.PubKey(), h, sig); err != nil {
					t.Fatalf("%s: key of %x sig %x digest %x: %v", when, d, sig, h, err)
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "seen") > 0 {
				valid("before")
			}
			kind := rapid.IntRange(0, 2).Draw(t, "kind")
			switch kind {
			case 0:
				sig2 = kit.Mutate(t, sig, "m")
			case 1:
				h2[rapid.IntRange(0, 31).Draw(t, "pos")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			default:
				d2 := kit.Scalar(t, "d2")
				if d2.Cmp(d) == 0 {
					return
				}
				pub = xcrypto.PrvKeyFromBytes(kit.B32(d2)).PubKey()
			}
			if bytes.Equal(sig2, sig) && kind == 0 {
				return
			}
			c.Nontrivial(sig2, h2, d)
			c.Sample("kind %d sig %x digest %x", kind, sig2, h2)
			want := false
			if wr, ws, ok := ref.ParseDER(sig2); ok {
				want = ref.EcdsaVerify(ptOf(pub), h2, wr, ws)
			}
			var verr error
			kit.NoPanic(t, "EcdsaVerify", func() { verr = xcrypto.EcdsaVerify(pub, h2, sig2) })
			if (verr == nil) != want {
				t.Fatalf("kind %d: key %x sig %x digest %x: %v", kind, pub.Serialize(), sig2, h2, verr)
			}
			if rapid.IntRange(0, 3).Draw(t, "after") == 0 {
				valid("after")
			}
		})
}

func TestP08(t *testing.T) {
	r := kit.New(t, "P08", "the scheme is the 2018 bip-schnorr draft the package documents, with sha256 challenges over 33-byte keys")
	r.Run(t, "sign", 700, 20, "keys and messages (32 bytes, sometimes other lengths); all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			d, k := key(t, "d")
			m := digest(t, "m")
			if rapid.IntRange(0, 7).Draw(t, "len") == 0 {
				m = kit.Bytes(t, 0, 70, "mx")
			}
			switch rapid.IntRange(0, 29).Draw(t, "hunt") {
			case 0:
				c.Class("short r")
				m = hunt(m, func(m []byte) bool { return short(ref.MulG(kOf(d, m)).X) })
			case 1:
				c.Class("short s")
				m = hunt(m, func(m []byte) bool { return ref.SchnorrSign(d, m)[32] == 0 })
			}
			c.Nontrivial(d, m)
			c.Sample("key %x message %x", d, m)
			want := ref.SchnorrSign(d, m)
			in, intact := kit.Spare(m)
			for i := 0; i < 2; i++ {
				sig, err := xcrypto.SchnorrSign(k, in)
				if err != nil || !bytes.Equal(sig, want) {
					t.Fatalf("key %x message %x: signature %d: %x (%v) want %x", d, m, i, sig, err, want)
				}
			}
			sin, sok := kit.Spare(want)
			if err := xcrypto.SchnorrVerify(k.PubKey(), in, sin); err != nil {
				t.Fatalf("key %x message %x: own signature: %v", d, m, err)
			}
			sig := xcrypto.NewSignatureSchnorr()
			if err := sig.Deserialize(sin); err != nil {
				t.Fatalf("decode: %v", err)
			}
			if b, err := sig.Serialize(); err != nil || !bytes.Equal(b, want) {
				t.Fatalf("signature %x encodes to %x", want, b)
			}
			if !intact() || !sok() || k.D.Cmp(d) != 0 || !xy(k.X, k.Y, ref.MulG(d)) {
				t.Fatalf("signing or verifying changed its inputs")
			}
			constants(t)
		})
	r.Run(t, "verify", 800, 20, "valid signatures with one thing altered (key, message, r, s), border values of r and s, nonce points that are not quadratic residues, points at infinity; non-trivial: 64 bytes with r and s in range",
		func(t *rapid.T, c *kit.Case) {
			d := scalar(t, "d")
			q := ref.MulG(d)
			m := digest(t, "m")
			switch rapid.IntRange(0, 39).Draw(t, "hunt") {
			case 0:
				m = hunt(m, func(m []byte) bool { return short(ref.MulG(kOf(d, m)).X) })
			case 1:
				m = hunt(m, func(m []byte) bool { return ref.SchnorrSign(d, m)[32] == 0 })
			case 20, 21, 22, 23:
				m = kit.Uniform(t, rapid.SampledFrom([]int{1, 31, 33, 64, 65, 127, 129, 256, 300, 2000, 70000}).Draw(t, "msize"), "long")
			}
			sig := ref.SchnorrSign(d, m)
			sig0, m0, q0 := append([]byte{}, sig...), append([]byte{}, m...), q
			valid := func(when string) { // the valid triple stays valid, and vouches for no other
				if rapid.Bool().Draw(t, when) {
					if err := xcrypto.SchnorrVerify(pubOf(q0), m0, sig0); err != nil {
						t.Fatalf("%s: key %x message %x sig %x: %v", when, q0.Comp(), m0, sig0, err)
					}
				}
			}
			valid("before")
			rr, ss := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
			kind := rapid.IntRange(0, 9).Draw(t, "kind")
			set := func(r, s *big.Int) { sig = append(kit.B32(r), kit.B32(s)...) }
			switch kind {
			case 0:
			case 1:
				m = kit.Mutate(t, m, "mm")
				if len(m) == len(m0) && rapid.Bool().Draw(t, "late") { // the change is at the end
					m = append([]byte{}, m0...)
					if len(m) > 0 {
						m[len(m)-1] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
					}
				}
			case 2:
				q = rapid.SampledFrom([]ref.Pt{q.Neg(), q.Add(ref.G), q.Add(q), ref.G}).Draw(t, "q2")
				if q.Inf() {
					q = ref.G
				}
			case 3:
				sig = kit.Mutate(t, sig, "sm")
			case 4:
				v := new(big.Int).Add(ref.N, bi(int64(rapid.IntRange(-2, 2).Draw(t, "o"))))
				set(rr, v)
			case 5:
				v := new(big.Int).Add(ref.P, bi(int64(rapid.IntRange(-2, 2).Draw(t, "o"))))
				set(v, ss)
			case 6: // nonce point of the wrong sign, or of any sign
				k := kit.Scalar(t, "k")
				R := ref.MulG(k)
				e := ref.SchnorrE(R.X, q, m)
				set(R.X, mod(new(big.Int).Add(k, mul(e, d))))
			case 7: // infinity: s = e*d
				x := new(big.Int).SetBytes(digest(t, "rx"))
				if rapid.Bool().Draw(t, "zero") {
					x.SetInt64(0)
				}
				e := ref.SchnorrE(x, q, m)
				set(x, mul(e, d))
			case 8:
				set(rr, new(big.Int).Sub(ref.N, ss))
			case 9:
				switch rapid.IntRange(0, 3).Draw(t, "z") {
				case 0:
					set(bi(0), bi(0))
				case 1:
					set(rr, bi(0))
				case 2:
					set(bi(0), ss)
				default:
					set(ss, rr)
				}
			}
			want := ref.SchnorrVerify(q, m, sig)
			if len(sig) == 64 {
				rr.SetBytes(sig[:32])
				ss.SetBytes(sig[32:])
				if rr.Cmp(ref.P) < 0 && ss.Cmp(ref.N) < 0 {
					c.Nontrivial(q.Comp(), m, sig)
				}
			}
			c.Class(map[bool]string{true: "accept", false: "reject"}[want])
			c.Sample("kind %d key %x message %x sig %x accept=%v", kind, q.Comp(), m, sig, want)
			pub := pubOf(q)
			var err error
			in, intact := kit.Spare(sig)
			kit.NoPanic(t, "SchnorrVerify", func() { err = xcrypto.SchnorrVerify(pub, m, in) })
			if (err == nil) != want {
				t.Fatalf("kind %d: key %x message %x sig %x: %v, want accept=%v", kind, q.Comp(), m, sig, err, want)
			}
			valid("after")
			if !intact() || !xy(pub.X, pub.Y, q) {
				t.Fatalf("verification changed its inputs")
			}
		})
	r.Run(t, "ranges", 400, 20, "r and s given as numbers outside their range (negative, equal to the bounds, above 256 bits); non-trivial: at least one out of range",
		func(t *rapid.T, c *kit.Case) {
			d := kit.Scalar(t, "d")
			q := ref.MulG(d)
			m := digest(t, "m")
			sig := ref.SchnorrSign(d, m)
			rr, ss := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
			o := int64(rapid.IntRange(-1, 1).Draw(t, "o"))
			switch rapid.IntRange(0, 4).Draw(t, "kind") {
			case 0:
				rr = new(big.Int).Add(rr, new(big.Int).Mul(ref.P, bi(o)))
			case 1:
				ss = new(big.Int).Add(ss, new(big.Int).Mul(ref.N, bi(o)))
			case 2:
				rr = sigNum(t, "r")
			case 3:
				ss = sigNum(t, "s")
			}
			inRange := rr.Sign() >= 0 && rr.Cmp(ref.P) < 0 && ss.Sign() >= 0 && ss.Cmp(ref.N) < 0
			want := inRange && ref.SchnorrVerify(q, m, append(kit.B32(rr), kit.B32(ss)...))
			if !inRange {
				c.Nontrivial(q.Comp(), m, rr, ss)
			}
			r0, s0 := new(big.Int).Set(rr), new(big.Int).Set(ss)
			var got bool
			kit.NoPanic(t, "schnorr.Verify", func() { got = schnorr.Verify((*ecdsa.PublicKey)(pubOf(q)), m, rr, ss) })
			if got != want {
				t.Fatalf("verify key %x message %x r %x s %x: %v want %v", q.Comp(), m, rr, ss, got, want)
			}
			if rr.Cmp(r0) != 0 || ss.Cmp(s0) != 0 {
				t.Fatalf("verification changed r or s")
			}
		})
	r.Run(t, "encoding", 4000, 20, "byte strings of 0..130 bytes as signatures; non-trivial: 64 bytes",
		func(t *rapid.T, c *kit.Case) {
			n := rapid.SampledFrom([]int{64, 64, 64, 0, 1, 31, 32, 33, 63, 65, 96, 128, 130}).Draw(t, "n")
			b := kit.BytesNCheap(t, n, "b")
			if kit.Uniform(t, 1, "toolong")[0] < 25 {
				b = kit.Overlong(t, kit.BytesNCheap(t, 64, "b2"), "over")
				n = len(b)
				c.Class("much-too-long")
			}
			if n > 10 && rapid.Bool().Draw(t, "zeros") {
				for i := 0; i < rapid.IntRange(0, n).Draw(t, "z"); i++ {
					b[i] = 0
				}
			}
			if n == 64 {
				c.Nontrivial(b)
			}
			in, intact := kit.Spare(b)
			sig := xcrypto.NewSignatureSchnorr()
			var err error
			kit.NoPanic(t, "Deserialize", func() { err = sig.Deserialize(in) })
			if (err == nil) != (n == 64) {
				t.Fatalf("decoding %d bytes: %v", n, err)
			}
			if err == nil {
				if out, err := sig.Serialize(); err != nil || !bytes.Equal(out, b) {
					t.Fatalf("decode and encode %x: %x", b, out)
				}
			}
			kit.NoPanic(t, "SchnorrVerify", func() { err = xcrypto.SchnorrVerify(pubOf(ref.G), make([]byte, 32), in) })
			if n != 64 && err == nil {
				t.Fatalf("signature of %d bytes accepted", n)
			}
			if !intact() {
				t.Fatalf("decoding changed its input")
			}
		})
	r.Run(t, "helpers", 1500, 20, "nonce, challenge and padding helpers called with spare capacity behind their inputs; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			d := kit.Scalar(t, "d")
			m := digest(t, "m")
			c.Nontrivial(d, m)
			din, dok := kit.Spare(kit.B32(d))
			min, mok := kit.Spare(m)
			hh := sha256.Sum256(append(kit.B32(d), m...))
			want := mod(new(big.Int).SetBytes(hh[:]))
			N := new(big.Int).Set(ref.N)
			k0, err := schnorr.GetK0(min, din, N)
			if err != nil || k0.Cmp(want) != 0 {
				t.Fatalf("nonce of key %x message %x: %v %v", d, m, k0, err)
			}
			R := finite(t, "R")
			ry := new(big.Int).Set(R.Y)
			k := schnorr.GetK(curve, ry, k0)
			wk := want
			if !ref.IsSquare(R.Y) {
				wk = new(big.Int).Sub(ref.N, want)
			}
			if k.Cmp(wk) != 0 || k0.Cmp(want) != 0 || ry.Cmp(R.Y) != 0 {
				t.Fatalf("GetK: got %x want %x, k0 now %x", k, wk, k0)
			}
			q := finite(t, "q")
			px, py := coords(q)
			rin, rok := kit.Spare(kit.B32(R.X))
			e := schnorr.GetE(curve, min, px, py, rin)
			if e.Cmp(ref.SchnorrE(R.X, q, m)) != 0 {
				t.Fatalf("challenge for R %x key %x message %x: %x", R.X, q.Comp(), m, e)
			}
			if !dok() || !mok() || !rok() || !xy(px, py, q) || N.Cmp(ref.N) != 0 {
				t.Fatalf("a helper changed its inputs")
			}
			if !bytes.Equal(schnorr.IntToByte(d), kit.B32(d)) {
				t.Fatalf("IntToByte(%x)", d)
			}
		})
}
