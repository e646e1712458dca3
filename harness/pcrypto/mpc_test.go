package pcrypto

import (
	"bytes"
	"encoding/json"
	"math/big"
	"sync"
	"testing"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

func scl(p ref.Pt) *secp256k1.Scalar {
	x, y := coords(p)
	return secp256k1.NewScalar(x, y)
}

// sent gives the message as the other side has it after a trip through JSON, whose fields are the named numbers.
func sent[T any](t *rapid.T, m *T, want map[string]*big.Int) *T {
	b, err := json.Marshal(m)
	if err != nil {
		t.Fatalf("%T as JSON: %v", m, err)
	}
	got := map[string]*big.Int{}
	if err := json.Unmarshal(b, &got); err != nil || len(got) != len(want) {
		t.Fatalf("%T as JSON is %s (%v)", m, b, err)
	}
	for k, v := range want {
		if got[k] == nil || got[k].Cmp(v) != 0 {
			t.Fatalf("%T as JSON is %s: %s is not %v", m, b, k, v)
		}
	}
	o := new(T)
	if err := json.Unmarshal(b, o); err != nil {
		t.Fatalf("%T does not read its JSON %s: %v", m, b, err)
	}
	return o
}

func sentPoint(t *rapid.T, s *secp256k1.Scalar) *secp256k1.Scalar {
	return sent(t, s, map[string]*big.Int{"X": s.X, "Y": s.Y})
}

func sentKey(t *rapid.T, k *paillier.PubKey) *paillier.PubKey {
	return sent(t, k, map[string]*big.Int{"G": k.G, "N": k.N, "NN": k.NN})
}

func mpcDigest(t *rapid.T, label string) []byte {
	h := digest(t, label)
	if rapid.IntRange(0, 9).Draw(t, label+".len") == 0 {
		h = kit.Bytes(t, 1, 64, label+".x")
	}
	return h
}

// phases is what the plain and the scriptless parties have in common.
type phases struct {
	one   func(*xcrypto.PubKey) *xcrypto.PubKey
	two   func([]byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar)
	three func(*secp256k1.Scalar) *secp256k1.Scalar
	four  func(*big.Int, *paillier.PubKey, *secp256k1.Scalar) (*big.Int, error)
}

// session is one honest run up to the fourth phase.
type session struct {
	d   [2]*big.Int
	k   [2]*big.Int
	ph  [2]phases
	h   []byte
	Q   ref.Pt
	R   ref.Pt
	r   *big.Int
	enc [2]*big.Int
	pk  [2]*paillier.PubKey
	rs  [2]*secp256k1.Scalar
	R12 [2]*secp256k1.Scalar
	ct  [2]*big.Int
}

// keys draws the private keys, sometimes equal, or such that the joint key has a short coordinate.
func (s *session) keys(t *rapid.T) {
	s.d = [2]*big.Int{scalar(t, "d1"), scalar(t, "d2")}
	switch k := rapid.IntRange(0, 7).Draw(t, "joint"); k {
	case 0, 1:
		q := ref.MulG(s.d[0])
		s.d[1] = steps(s.d[1], ref.Mul(s.d[1], q), q, func(p ref.Pt) bool { return short(coord(p, k)) })
	case 2:
		s.d[1].Set(s.d[0])
	}
}

// hunt counts the digest up until the run has a value with leading zeros: the joint r, the incomplete or the complete s.
func (s *session) hunt(t *rapid.T, c *kit.Case, tt *big.Int) {
	k := rapid.IntRange(0, 5).Draw(t, "hunt")
	if k > 2 {
		return
	}
	c.Class([]string{"short r", "short incomplete s", "short s"}[k])
	s.h = hunt(s.h, func(h []byte) bool {
		o := &session{d: s.d, h: h}
		for i := range s.d {
			o.k[i] = ref.Nonce6979(s.d[i], h)
		}
		o.R = ref.MulG(mul(mul(o.k[0], o.k[1]), tt))
		o.r = mod(o.R.X)
		switch k {
		case 0:
			return short(o.r)
		case 1:
			return short(o.raw())
		}
		return short(lowS(mul(o.raw(), inv(tt))))
	})
}

// run executes the four phases and compares every value that can be known; tt is the adaptor secret (1 without one).
func (s *session) run(t *rapid.T, tt *big.Int) {
	for i := range s.d {
		s.k[i] = ref.Nonce6979(s.d[i], s.h)
	}
	s.Q = ref.MulG(mul(s.d[0], s.d[1]))
	s.R = ref.MulG(mul(mul(s.k[0], s.k[1]), tt))
	s.r = mod(s.R.X)
	for i := range s.ph {
		pub := pubOf(ref.MulG(s.d[1-i]))
		for n := 0; n < 2; n++ {
			q := s.ph[i].one(pub)
			if !xy(q.X, q.Y, s.Q) || !xy(pub.X, pub.Y, ref.MulG(s.d[1-i])) {
				t.Fatalf("keys %x %x: joint key (%x,%x) want (%x,%x)", s.d[0], s.d[1], q.X, q.Y, s.Q.X, s.Q.Y)
			}
		}
	}
	var wg sync.WaitGroup
	hs := [2][]byte{append([]byte{}, s.h...), append([]byte{}, s.h...)}
	for i := range s.ph {
		wg.Add(1)
		go func() {
			defer wg.Done()
			s.enc[i], s.pk[i], s.rs[i] = s.ph[i].two(hs[i])
		}()
	}
	wg.Wait()
	for i := range s.ph {
		want := ref.MulG(s.k[i])
		if i == 1 {
			want = ref.Mul(tt, want)
		}
		if s.enc[i] == nil || s.pk[i] == nil || s.rs[i] == nil || !xy(s.rs[i].X, s.rs[i].Y, want) {
			t.Fatalf("keys %x %x digest %x: nonce point of party %d is %v", s.d[0], s.d[1], s.h, i, s.rs[i])
		}
	}
	if rapid.Bool().Draw(t, "sent") {
		for i := range s.ph {
			s.pk[i], s.rs[i] = sentKey(t, s.pk[i]), sentPoint(t, s.rs[i])
		}
	}
	for i := range s.ph {
		for n := 0; n < 2; n++ {
			s.R12[i] = s.ph[i].three(scl(toPt(s.rs[1-i].X, s.rs[1-i].Y)))
			if !xy(s.R12[i].X, s.R12[i].Y, s.R) {
				t.Fatalf("keys %x %x digest %x: shared nonce point (%x,%x) want (%x,%x)", s.d[0], s.d[1], s.h, s.R12[i].X, s.R12[i].Y, s.R.X, s.R.Y)
			}
		}
		e0 := new(big.Int).Set(s.enc[1-i])
		var err error
		s.ct[i], err = s.ph[i].four(s.enc[1-i], s.pk[1-i], s.R12[i])
		if err != nil {
			t.Fatalf("keys %x %x digest %x: fourth phase: %v", s.d[0], s.d[1], s.h, err)
		}
		again, err := s.ph[i].four(s.enc[1-i], s.pk[1-i], s.R12[i])
		if err != nil {
			t.Fatalf("fourth phase repeated: %v", err)
		}
		s.ct[i] = again
		if e0.Cmp(s.enc[1-i]) != 0 || !xy(s.R12[i].X, s.R12[i].Y, s.R) {
			t.Fatalf("the fourth phase changed its inputs")
		}
		if !bytes.Equal(hs[i], s.h) {
			t.Fatalf("the digest was changed")
		}
	}
}

// raw is (z + r d1 d2) / (k1 k2), not folded.
func (s *session) raw() *big.Int {
	v := mul(mul(s.r, s.d[0]), s.d[1])
	v = mod(v.Add(v, ref.HashInt(s.h)))
	return mul(v, inv(mul(s.k[0], s.k[1])))
}

// badPoint draws another point than p: the generator, negative, shifted, doubled, random, off the curve, infinity.
func badPoint(t *rapid.T, p ref.Pt, label string) (*secp256k1.Scalar, string) {
	k := rapid.IntRange(0, 6).Draw(t, label)
	switch k {
	case 0:
		return scl(p.Neg()), "negated"
	case 1:
		return scl(p.Add(ref.G)), "shifted"
	case 2:
		return scl(p.Add(p)), "doubled"
	case 3:
		return scl(ref.MulG(kit.Scalar(t, label+".k"))), "random"
	case 4:
		x, y := coords(p)
		return secp256k1.NewScalar(x, y.Xor(y, bi(2))), "off the curve"
	case 5:
		return scl(ref.Pt{}), "infinity"
	}
	return scl(ref.G), "generator"
}

// badCt draws another ciphertext than c.
func badCt(t *rapid.T, c *big.Int, pk *paillier.PubKey, label string) (*big.Int, string) {
	k := rapid.IntRange(0, 7).Draw(t, label)
	v := new(big.Int)
	switch k {
	case 0:
		return v.Add(c, bi(1)), "+1"
	case 1:
		return v.Mod(v.Mul(c, pk.G), pk.NN), "plaintext +1"
	case 2:
		return v.Mod(v.Mul(c, c), pk.NN), "plaintext doubled"
	case 3:
		return v.ModInverse(c, pk.NN), "plaintext negated"
	case 4:
		return v, "zero"
	case 5:
		return v.SetInt64(1), "one"
	case 6:
		return v.Neg(c), "negative"
	}
	return v.Add(c, pk.NN), "unreduced"
}

// badKey draws another encryption key than pk.
func badKey(t *rapid.T, pk *paillier.PubKey, label string) (*paillier.PubKey, string) {
	c := &paillier.PubKey{G: new(big.Int).Set(pk.G), N: new(big.Int).Set(pk.N), NN: new(big.Int).Set(pk.NN)}
	switch rapid.IntRange(0, 6).Draw(t, label) {
	case 6:
		c.N.SetInt64(0)
		c.NN.SetInt64(0)
		return c, "N=NN=0"
	case 0:
		c.G.Add(c.G, bi(1))
		return c, "G+1"
	case 1:
		c.G.SetInt64(1)
		return c, "G=1"
	case 2:
		c.NN.Sub(c.NN, bi(2))
		return c, "NN-2"
	case 3:
		c.NN.SetInt64(0)
		return c, "NN=0"
	case 4:
		c.N.SetInt64(0)
		return c, "N=0"
	}
	c.NN.Set(c.N)
	return c, "NN=N"
}

func otherDigest(t *rapid.T, h []byte, label string) []byte {
	for {
		g := mpcDigest(t, label)
		if mod(ref.HashInt(g)).Cmp(mod(ref.HashInt(h))) != 0 {
			return g
		}
		g = kit.Uniform(t, 32, label+".u")
		if mod(ref.HashInt(g)).Cmp(mod(ref.HashInt(h))) != 0 {
			return g
		}
	}
}

func TestP14(t *testing.T) {
	r := kit.New(t, "P14", "nil messages are taken as programming errors", "a tampered message that leads to the very signature of the honest run (a negated nonce point) is harmless")
	r.Run(t, "run", 24, 25, "key pairs and digests (edge scalars, equal keys, joint keys with a short coordinate, values with leading zeros included); one honest run checked value by value against the formulas, then 12 runs with one tampered message, digest or key each; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			s := &session{}
			s.keys(t)
			s.h = mpcDigest(t, "h")
			s.hunt(t, c, bi(1))
			c.Nontrivial(s.d[0], s.d[1], s.h)
			c.Sample("keys %x %x digest %x", s.d[0], s.d[1], s.h)
			var p [2]*xcrypto.EcdsaParty
			for i := range p {
				p[i] = xcrypto.NewEcdsaParty(xcrypto.PrvKeyFromBytes(kit.B32(s.d[i])))
				s.ph[i] = phases{p[i].Phase1, p[i].Phase2, p[i].Phase3, p[i].Phase4}
			}
			if rapid.IntRange(0, 3).Draw(t, "earlier") == 0 { // an earlier run by the same parties
				h := s.h
				s.h = otherDigest(t, h, "h0")
				s.run(t, bi(1))
				s.h = h
			}
			s.run(t, bi(1))
			want := ref.DER(s.r, lowS(s.raw()))
			for i := range p {
				for n := 0; n < 2; n++ {
					ct := new(big.Int).Set(s.ct[1-i])
					sig, err := p[i].Phase5(s.R12[i], s.ct[1-i])
					if err != nil || !bytes.Equal(sig, want) {
						t.Fatalf("keys %x %x digest %x: party %d's signature %x (%v), want %x", s.d[0], s.d[1], s.h, i, sig, err, want)
					}
					if ct.Cmp(s.ct[1-i]) != 0 || !xy(s.R12[i].X, s.R12[i].Y, s.R) {
						t.Fatalf("the last phase changed its inputs")
					}
				}
			}
			Q := pubOf(s.Q)
			if err := xcrypto.EcdsaVerify(Q, s.h, want); err != nil {
				t.Fatalf("keys %x %x digest %x: the joint signature %x does not verify: %v", s.d[0], s.d[1], s.h, want, err)
			}
			judge := func(what string, sig []byte, err error) {
				c.Class(what)
				if err != nil || bytes.Equal(sig, want) {
					return
				}
				if xcrypto.EcdsaVerify(Q, s.h, sig) == nil {
					t.Fatalf("keys %x %x digest %x: after tampering (%s) signature %x verifies", s.d[0], s.d[1], s.h, what, sig)
				}
			}
			for n := 0; n < 12; n++ {
				i := rapid.IntRange(0, 1).Draw(t, "victim")
				j := 1 - i
				var sig, sig2 []byte
				var err, err2 error
				what, how := "", ""
				kind := rapid.IntRange(0, 6).Draw(t, "kind")
				step := func() { // draws happen here, outside NoPanic
					switch kind {
					case 0:
						what = "nonce point"
						var b *secp256k1.Scalar
						b, how = badPoint(t, toPt(s.rs[j].X, s.rs[j].Y), "bp")
						kit.NoPanic(t, what+" "+how, func() {
							R := p[i].Phase3(b)
							var ct *big.Int
							if ct, err = p[i].Phase4(s.enc[j], s.pk[j], R); err == nil {
								sig, err = p[j].Phase5(s.R12[j], ct)
							}
							sig2, err2 = p[i].Phase5(R, s.ct[j])
						})
					case 1:
						what = "encrypted key"
						var e *big.Int
						e, how = badCt(t, s.enc[j], s.pk[j], "bc")
						kit.NoPanic(t, what+" "+how, func() {
							var ct *big.Int
							if ct, err = p[i].Phase4(e, s.pk[j], s.R12[i]); err == nil {
								sig, err = p[j].Phase5(s.R12[j], ct)
							}
						})
					case 2:
						what = "encryption key"
						var k *paillier.PubKey
						k, how = badKey(t, s.pk[j], "bk")
						kit.NoPanic(t, what+" "+how, func() {
							var ct *big.Int
							if ct, err = p[i].Phase4(s.enc[j], k, s.R12[i]); err == nil {
								sig, err = p[j].Phase5(s.R12[j], ct)
							}
						})
					case 3:
						what = "signature share"
						var ct *big.Int
						ct, how = badCt(t, s.ct[j], s.pk[i], "bs")
						kit.NoPanic(t, what+" "+how, func() { sig, err = p[i].Phase5(s.R12[i], ct) })
					case 4:
						what = "shared point"
						var R *secp256k1.Scalar
						R, how = badPoint(t, s.R, "br")
						kit.NoPanic(t, what+" "+how, func() {
							sig, err = p[i].Phase5(R, s.ct[j])
							var ct *big.Int
							if ct, err2 = p[i].Phase4(s.enc[j], s.pk[j], R); err2 == nil {
								sig2, err2 = p[j].Phase5(s.R12[j], ct)
							}
						})
					case 5:
						what = "own share"
						how = "returned"
						kit.NoPanic(t, what, func() { sig, err = p[i].Phase5(s.R12[i], s.ct[i]) })
					case 6: // the joint signature under other keys and digests
						what = "other key or digest"
						h2 := otherDigest(t, s.h, "h2")
						if xcrypto.EcdsaVerify(Q, h2, want) == nil {
							t.Fatalf("the joint signature verifies for another digest %x", h2)
						}
						for _, k := range []ref.Pt{ref.MulG(s.d[0]), ref.MulG(s.d[1]), s.Q.Neg()} {
							if k.Eq(s.Q) {
								continue
							}
							got := xcrypto.EcdsaVerify(pubOf(k), s.h, want) == nil
							if got != ref.EcdsaVerify(k, s.h, s.r, lowS(s.raw())) {
								t.Fatalf("keys %x %x digest %x: the joint signature verifies under key %x: %v", s.d[0], s.d[1], s.h, k.Comp(), got)
							}
						}
						sig, sig2 = want, want
					}
				}
				step()
				judge(what, sig, err)
				if sig2 != nil {
					judge(what, sig2, err2)
				}
			}
		})
	r.Run(t, "disagree", 5, 25, "the parties sign different digests, or one uses another key than it announced; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			d := [3]*big.Int{kit.Scalar(t, "d1"), kit.Scalar(t, "d2"), kit.Scalar(t, "d3")}
			h := [2][]byte{mpcDigest(t, "h"), nil}
			h[1] = h[0]
			byKey := rapid.Bool().Draw(t, "key") && d[1].Cmp(d[2]) != 0
			d2 := d[1]
			if byKey {
				d2 = d[2]
			} else {
				h[1] = otherDigest(t, h[0], "h2")
			}
			c.Nontrivial(d[0], d[1], d[2], h[0], h[1])
			c.Sample("keys %x %x, signs with %x, digests %x %x", d[0], d[1], d2, h[0], h[1])
			p := [2]*xcrypto.EcdsaParty{xcrypto.NewEcdsaParty(xcrypto.PrvKeyFromBytes(kit.B32(d[0]))), xcrypto.NewEcdsaParty(xcrypto.PrvKeyFromBytes(kit.B32(d2)))}
			Q := p[0].Phase1(pubOf(ref.MulG(d[1])))
			var enc [2]*big.Int
			var pk [2]*paillier.PubKey
			var rs [2]*secp256k1.Scalar
			for i := range p {
				enc[i], pk[i], rs[i] = p[i].Phase2(h[i])
			}
			for i := range p {
				R := p[i].Phase3(rs[1-i])
				ct, err := p[1-i].Phase4(enc[i], pk[i], p[1-i].Phase3(rs[i]))
				if err != nil {
					continue
				}
				sig, err := p[i].Phase5(R, ct)
				if err != nil {
					continue
				}
				// each party judges what it got for the digest it meant to sign
				if xcrypto.EcdsaVerify(Q, h[i], sig) == nil {
					t.Fatalf("keys %x %x/%x digests %x %x: party %d gets the accepted signature %x", d[0], d[1], d2, h[0], h[1], i, sig)
				}
			}
		})
}

func TestP16(t *testing.T) {
	r := kit.New(t, "P16", "nil messages are taken as programming errors", "ECDSA signatures are published in low-S form, so that the secret is recovered from the published form up to its sign")
	r.Run(t, "run", 24, 25, "key pairs, digests and secrets (edge scalars, equal keys, joint keys with a short coordinate, values with leading zeros included); one honest run checked value by value against the formulas, recovery of the secret, then 12 tampered completions; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			s := &session{}
			s.keys(t)
			s.h = mpcDigest(t, "h")
			tt := kit.Scalar(t, "t")
			s.hunt(t, c, tt)
			given := new(big.Int).Set(tt)
			if rapid.IntRange(0, 7).Draw(t, "big") == 0 {
				given.Add(given, ref.N) // the same residue
			}
			c.Nontrivial(s.d[0], s.d[1], s.h, tt)
			c.Sample("keys %x %x digest %x secret %x", s.d[0], s.d[1], s.h, given)
			secret := new(big.Int).Set(given)
			alice := xcrypto.NewEcdsaAlice(xcrypto.PrvKeyFromBytes(kit.B32(s.d[0])))
			bob := xcrypto.NewEcdsaBob(xcrypto.PrvKeyFromBytes(kit.B32(s.d[1])), secret)
			s.ph[0] = phases{alice.ScriptlessPhase1, alice.ScriptlessPhase2, alice.ScriptlessPhase3, alice.ScriptlessPhase4}
			s.ph[1] = phases{bob.ScriptlessPhase1, bob.ScriptlessPhase2, bob.ScriptlessPhase3, bob.ScriptlessPhase4}
			s.run(t, tt)
			raw := s.raw()
			full := mul(raw, inv(tt))
			want := ref.DER(s.r, lowS(full))
			Q := pubOf(s.Q)
			var fs1, fs2 *big.Int
			var err error
			for n := 0; n < 2; n++ {
				if fs1, err = alice.ScriptlessPhase5(s.R12[0], s.ct[1]); err != nil || fs1.Cmp(raw) != 0 {
					t.Fatalf("keys %x %x digest %x secret %x: incomplete signature %x (%v) want %x", s.d[0], s.d[1], s.h, given, fs1, err, raw)
				}
				if fs2, err = bob.ScriptlessPhase5(s.R12[1], s.ct[0]); err != nil || fs2.Cmp(full) != 0 {
					t.Fatalf("keys %x %x digest %x secret %x: complete signature %x (%v) want %x", s.d[0], s.d[1], s.h, given, fs2, err, full)
				}
				if sig, err := bob.ScriptlessPhase6(s.R12[1], fs2); err != nil || !bytes.Equal(sig, want) {
					t.Fatalf("keys %x %x digest %x secret %x: signature %x (%v) want %x", s.d[0], s.d[1], s.h, given, sig, err, want)
				}
				if got := alice.ScriptlessPhase6(fs1, fs2); got == nil || got.Cmp(tt) != 0 {
					t.Fatalf("keys %x %x digest %x secret %x: recovered %x", s.d[0], s.d[1], s.h, tt, got)
				}
				if fs1.Cmp(raw) != 0 || fs2.Cmp(full) != 0 || secret.Cmp(given) != 0 || !xy(s.R12[1].X, s.R12[1].Y, s.R) {
					t.Fatalf("keys %x %x digest %x secret %x: a phase changed its inputs", s.d[0], s.d[1], s.h, tt)
				}
			}
			if err := xcrypto.EcdsaVerify(Q, s.h, want); err != nil {
				t.Fatalf("keys %x %x digest %x secret %x: completed signature %x does not verify: %v", s.d[0], s.d[1], s.h, tt, want, err)
			}
			// from the published low-S form
			pub := xcrypto.NewSignatureEcdsa()
			if err := pub.Deserialize(want); err != nil {
				t.Fatalf("%v", err)
			}
			neg := new(big.Int).Sub(ref.N, tt)
			if got := alice.ScriptlessPhase6(fs1, pub.S); got == nil || got.Cmp(tt) != 0 && got.Cmp(neg) != 0 {
				t.Fatalf("keys %x %x digest %x secret %x: recovered %x from the published signature", s.d[0], s.d[1], s.h, tt, got)
			}
			trivial := tt.Cmp(bi(1)) == 0 || neg.Cmp(bi(1)) == 0
			reject := func(what string, sv *big.Int) {
				c.Class(what)
				if sv == nil || sv.Sign() <= 0 || mod(sv).Cmp(full) == 0 || mod(new(big.Int).Neg(sv)).Cmp(full) == 0 {
					return
				}
				var sig []byte
				var err error
				kit.NoPanic(t, what, func() { sig, err = bob.ScriptlessPhase6(s.R12[1], sv) })
				if err == nil && xcrypto.EcdsaVerify(Q, s.h, sig) == nil {
					t.Fatalf("keys %x %x digest %x secret %x: %s gives the accepted signature %x", s.d[0], s.d[1], s.h, tt, what, sig)
				}
				if sv.Cmp(ref.N) < 0 && xcrypto.EcdsaVerify(Q, s.h, ref.DER(s.r, sv)) == nil {
					t.Fatalf("keys %x %x digest %x secret %x: %s gives the accepted signature %x", s.d[0], s.d[1], s.h, tt, what, sv)
				}
			}
			if !trivial {
				reject("the incomplete signature", fs1)
			}
			for n := 0; n < 12; n++ {
				switch rapid.IntRange(0, 4).Draw(t, "kind") {
				case 0:
					reject("a wrong secret", mul(fs1, inv(kit.Scalar(t, "t2"))))
				case 1:
					ct, _ := badCt(t, s.ct[1], s.pk[0], "bc")
					var v *big.Int
					kit.NoPanic(t, "tampered share for alice", func() { v, err = alice.ScriptlessPhase5(s.R12[0], ct) })
					if err == nil {
						reject("alice's signature from a tampered share", v)
						if w := mul(v, inv(tt)); v.Cmp(raw) != 0 {
							reject("alice's signature from a tampered share, completed", w)
						}
					}
				case 2:
					ct, _ := badCt(t, s.ct[0], s.pk[1], "bc")
					var v *big.Int
					kit.NoPanic(t, "tampered share for bob", func() { v, err = bob.ScriptlessPhase5(s.R12[1], ct) })
					if err == nil {
						reject("bob's signature from a tampered share", v)
					}
				case 3:
					b, how := badPoint(t, toPt(s.rs[0].X, s.rs[0].Y), "bp")
					kit.NoPanic(t, "nonce point "+how, func() {
						R := bob.ScriptlessPhase3(b)
						var ct *big.Int
						if ct, err = bob.ScriptlessPhase4(s.enc[0], s.pk[0], R); err != nil {
							return
						}
						var v *big.Int
						if v, err = alice.ScriptlessPhase5(s.R12[0], ct); err == nil {
							reject("alice's signature after a tampered nonce", mul(v, inv(tt)))
						}
					})
				case 4:
					bob2 := xcrypto.NewEcdsaBob(xcrypto.PrvKeyFromBytes(kit.B32(s.d[1])), rapid.SampledFrom([]*big.Int{bi(0), new(big.Int).Set(ref.N)}).Draw(t, "zero"))
					kit.NoPanic(t, "zero secret", func() {
						// no inverse: an error, not a signature
						bob2.EcdsaParty = bob.EcdsaParty
						if v, err := bob2.ScriptlessPhase5(s.R12[1], s.ct[0]); err == nil {
							t.Fatalf("completing with the secret zero gives %x", v)
						}
						if v := alice.ScriptlessPhase6(fs1, bi(0)); v != nil {
							t.Fatalf("the secret of the zero signature is %x", v)
						}
					})
				}
			}
		})
}

func TestP15(t *testing.T) {
	r := kit.New(t, "P15", "keys and nonces that add to infinity are left out", "more than two parties pass the sum of the others' keys and nonces to the phases")
	r.Run(t, "run", 160, 20, "2..4 parties, messages of 32 (sometimes other) bytes: every value against the formulas, both orders of shares, repetition, an earlier run by the same parties, then tampered runs; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			n := rapid.IntRange(2, 4).Draw(t, "n")
			same, joint := rapid.IntRange(0, 9).Draw(t, "same") == 0, rapid.IntRange(0, 9).Draw(t, "joint")
			d := make([]*big.Int, n)
			p := make([]*xcrypto.SchnorrParty, n)
			for i := range d {
				d[i] = scalar(t, "d")
				if i > 0 && same {
					d[i].Set(d[0])
				}
				if i == n-1 && joint < 2 {
					p, q := ref.MulG(d[i]), ref.G
					for j := 0; j < i; j++ {
						p = p.Add(ref.MulG(d[j]))
					}
					d[i] = steps(d[i], p, q, func(p ref.Pt) bool { return short(coord(p, joint)) })
				}
				var err error
				if p[i], err = xcrypto.NewSchnorrParty(xcrypto.PrvKeyFromBytes(kit.B32(d[i]))); err != nil {
					t.Fatalf("%v", err)
				}
			}
			m := mpcDigest(t, "m")
			if k := rapid.IntRange(0, 19).Draw(t, "hunt"); k < 2 {
				c.Class([]string{"short r", "short s"}[k])
				m = hunt(m, func(m []byte) bool {
					ks, kt, dt, P := new(big.Int), new(big.Int), new(big.Int), ref.Pt{}
					for i := range d {
						kt.Add(kt, kOf(d[i], m))
						dt.Add(dt, d[i])
					}
					R := ref.MulG(mod(kt))
					if k == 0 {
						return R.Inf() || short(R.X)
					}
					if P = ref.MulG(mod(dt)); P.Inf() || R.Inf() {
						return true
					}
					if ks.Set(kt); !ref.IsSquare(R.Y) {
						ks.Neg(kt)
					}
					return short(mod(ks.Add(ks, mul(ref.SchnorrE(R.X, P, m), mod(dt)))))
				})
			}
			if rapid.IntRange(0, 3).Draw(t, "earlier") == 0 {
				for i := range p {
					p[i].Phase2(otherDigest(t, m, "m0"))
				}
			}
			k, P, R := make([]*big.Int, n), ref.Pt{}, ref.Pt{}
			pubs, rs := make([]ref.Pt, n), make([]ref.Pt, n)
			for i := range d {
				k[i] = kOf(d[i], m)
				pubs[i], rs[i] = ref.MulG(d[i]), ref.MulG(k[i])
				P, R = P.Add(pubs[i]), R.Add(rs[i])
			}
			if P.Inf() || R.Inf() {
				return
			}
			for i := range d {
				if P.Add(pubs[i].Neg()).Inf() || R.Add(rs[i].Neg()).Inf() {
					return
				}
			}
			if same {
				c.Class("the same key")
			}
			c.Nontrivial(n, m, d[0], d[1], P.Comp())
			c.Sample("%d parties, message %x, keys %x", n, m, d)
			square := ref.IsSquare(R.Y)
			e := ref.SchnorrE(R.X, P, m)
			total := new(big.Int)
			shares := make([][]byte, n)
			for i := range d {
				ki := new(big.Int).Set(k[i])
				if !square {
					ki.Sub(ref.N, ki)
				}
				v := mod(ki.Add(ki, mul(e, d[i])))
				shares[i] = kit.B32(v)
				total.Add(total, v)
			}
			want := append(kit.B32(R.X), kit.B32(mod(total))...)
			got := make([]*secp256k1.Scalar, n)
			shared := make([]*secp256k1.Scalar, n)
			agg := make([]*xcrypto.PubKey, n)
			for rep := 0; rep < 2; rep++ {
				for i := range p {
					o := pubOf(P.Add(pubs[i].Neg()))
					agg[i] = p[i].Phase1(o)
					if !xy(agg[i].X, agg[i].Y, P) || !xy(o.X, o.Y, P.Add(pubs[i].Neg())) {
						t.Fatalf("keys %x: aggregate key (%x,%x) want (%x,%x)", d, agg[i].X, agg[i].Y, P.X, P.Y)
					}
					in, ok := kit.Spare(m)
					got[i] = p[i].Phase2(in)
					if got[i] == nil || !xy(got[i].X, got[i].Y, rs[i]) || !ok() {
						t.Fatalf("key %x message %x: nonce point %v want (%x,%x)", d[i], m, got[i], rs[i].X, rs[i].Y)
					}
				}
			}
			if rapid.Bool().Draw(t, "sent") {
				for i := range got {
					got[i] = sentPoint(t, got[i])
				}
			}
			// the others' nonce points, added up by the package from what they sent
			sums := make([]*secp256k1.Scalar, n)
			for i := range p {
				var sum *secp256k1.Scalar
				part := ref.Pt{}
				for j := range got {
					if j == i {
						continue
					}
					if part = part.Add(rs[j]); part.X == nil {
						sum = nil
						break
					}
					if sum == nil {
						sum = got[j]
					} else {
						sum = sum.Add(curve, got[j])
					}
				}
				if sums[i] = sum; sum == nil {
					sums[i] = scl(R.Add(rs[i].Neg()))
				}
				if o := R.Add(rs[i].Neg()); !xy(sums[i].X, sums[i].Y, o) {
					t.Fatalf("keys %x message %x: the nonce points of the others of %d add up to (%x,%x) want (%x,%x)", d, m, i, sums[i].X, sums[i].Y, o.X, o.Y)
				}
			}
			for rep := 0; rep < 2; rep++ {
				for i := range p {
					shared[i] = p[i].Phase3(sums[i])
					if !xy(shared[i].X, shared[i].Y, R) || !xy(got[i].X, got[i].Y, rs[i]) {
						t.Fatalf("keys %x message %x: shared nonce point (%x,%x) want (%x,%x)", d, m, shared[i].X, shared[i].Y, R.X, R.Y)
					}
				}
				for i := range p {
					sh, err := p[i].Phase4(agg[i], shared[i])
					if err != nil || !bytes.Equal(sh, shares[i]) {
						t.Fatalf("keys %x message %x: share %d %x (%v) want %x", d, m, i, sh, err, shares[i])
					}
					if !xy(agg[i].X, agg[i].Y, P) || !xy(shared[i].X, shared[i].Y, R) {
						t.Fatalf("the fourth phase changed its inputs")
					}
				}
				for i := range p {
					in := make([][]byte, n)
					var oks []func() bool
					for j := range in {
						b, ok := kit.Spare(shares[(i+j)%n])
						in[j], oks = b, append(oks, ok)
					}
					sig, err := p[i].Phase5(shared[i], in...)
					if err != nil || !bytes.Equal(sig, want) {
						t.Fatalf("keys %x message %x: signature %x (%v) want %x", d, m, sig, err, want)
					}
					for _, ok := range oks {
						if !ok() {
							t.Fatalf("the last phase changed its inputs")
						}
					}
				}
			}
			if err := xcrypto.SchnorrVerify(agg[0], m, want); err != nil {
				t.Fatalf("keys %x message %x: aggregate signature %x does not verify: %v", d, m, want, err)
			}
			// tampering
			for k := 0; k < 6; k++ {
				v := rapid.IntRange(0, n-1).Draw(t, "victim")
				set := append([][]byte{}, shares...)
				pub, msg, Rf := agg[v], m, shared[v]
				what := ""
				switch rapid.IntRange(0, 6).Draw(t, "kind") {
				case 0:
					what = "share altered"
					set[v] = kit.Mutate(t, set[v], "s")
				case 1:
					what = "share left out"
					set = append(set[:v:v], set[v+1:]...)
				case 2:
					what = "share repeated"
					set = append(set, set[v])
				case 3:
					what = "nonce altered before sharing"
					b, how := badPoint(t, R.Add(rs[v].Neg()), "b")
					what += " " + how
					kit.NoPanic(t, what, func() {
						R2 := p[v].Phase3(b)
						set[v], _ = p[v].Phase4(agg[v], R2)
						Rf = R2
					})
				case 4:
					what = "shared nonce altered"
					b, how := badPoint(t, R, "b")
					what += " " + how
					kit.NoPanic(t, what, func() { set[v], _ = p[v].Phase4(agg[v], b) })
				case 5:
					what = "aggregate key altered"
					b, _ := badPoint(t, P, "b")
					if b.X.Sign() == 0 && b.Y.Sign() == 0 || !ref.OnCurve(b.X, b.Y) {
						continue
					}
					set[v], _ = p[v].Phase4(pubOf(toPt(b.X, b.Y)), shared[v])
				case 6:
					what = "other message"
					o, _ := xcrypto.NewSchnorrParty(xcrypto.PrvKeyFromBytes(kit.B32(d[v])))
					o.Phase2(otherDigest(t, m, "m2"))
					set[v], _ = o.Phase4(agg[v], shared[v])
				}
				c.Class(what)
				var sig []byte
				var err error
				kit.NoPanic(t, what, func() { sig, err = p[v].Phase5(Rf, set...) })
				if err != nil || bytes.Equal(sig, want) {
					continue
				}
				if xcrypto.SchnorrVerify(pub, msg, sig) == nil {
					t.Fatalf("keys %x message %x: after tampering (%s) signature %x verifies", d, m, what, sig)
				}
			}
			if xcrypto.SchnorrVerify(agg[0], otherDigest(t, m, "m3"), want) == nil {
				t.Fatalf("keys %x: the aggregate signature of %x verifies for another message", d, m)
			}
			if n == 2 && !pubs[0].Eq(P) && xcrypto.SchnorrVerify(pubOf(pubs[0]), m, want) == nil {
				t.Fatalf("keys %x: the aggregate signature of %x verifies under one party's key", d, m)
			}
		})
	r.Run(t, "many", 25, 20, "5..40 (rarely 260) parties: every party's aggregate key, nonce point and signature, in rotated orders of the shares, then a share left out, doubled or altered; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			n := rapid.IntRange(5, 40).Draw(t, "n")
			if kit.Uniform(t, 1, "crowd")[0] < 40 {
				n = rapid.IntRange(41, 260).Draw(t, "crowd.n")
			}
			m := mpcDigest(t, "m")
			fill := rapid.Uint64().Draw(t, "fill")
			d, k := make([]*big.Int, n), make([]*big.Int, n)
			p := make([]*xcrypto.SchnorrParty, n)
			P, R, dt, kt := ref.Pt{}, ref.Pt{}, new(big.Int), new(big.Int)
			pubs, rs := make([]ref.Pt, n), make([]ref.Pt, n)
			for i := range d {
				d[i] = mod(new(big.Int).SetBytes(kit.Expand(fill+uint64(i), 32)))
				if d[i].Sign() == 0 {
					d[i].SetInt64(1)
				}
				k[i] = kOf(d[i], m)
				pubs[i], rs[i] = ref.MulG(d[i]), ref.MulG(k[i])
				P, R = P.Add(pubs[i]), R.Add(rs[i])
				dt.Add(dt, d[i])
				kt.Add(kt, k[i])
				var err error
				if p[i], err = xcrypto.NewSchnorrParty(xcrypto.PrvKeyFromBytes(kit.B32(d[i]))); err != nil {
					t.Fatalf("%v", err)
				}
			}
			if P.Inf() || R.Inf() {
				return
			}
			c.Nontrivial(n, m, fill)
			c.Sample("%d parties, message %x", n, m)
			if !ref.IsSquare(R.Y) {
				kt.Neg(kt)
			}
			want := append(kit.B32(R.X), kit.B32(mod(kt.Add(kt, mul(ref.SchnorrE(R.X, P, m), mod(dt)))))...)
			shares := make([][]byte, n)
			for i := range p {
				// the others' keys and nonce points are added one by one
				var po *xcrypto.PubKey
				var ro ref.Pt
				if n > 40 { // a crowd: the sum without one's own
					ro, po = R.Add(rs[i].Neg()), pubOf(P.Add(pubs[i].Neg()))
				}
				for j := range p {
					q := (i + 1 + j) % n
					if q == i || n > 40 {
						continue
					}
					ro = ro.Add(rs[q])
					if po == nil {
						po = pubOf(pubs[q])
					} else {
						po = po.Add(pubOf(pubs[q]))
					}
				}
				if ro.Inf() || P.Add(pubs[i].Neg()).Inf() {
					return
				}
				agg := p[i].Phase1(po)
				if !xy(agg.X, agg.Y, P) {
					t.Fatalf("%d parties: aggregate key of party %d (%x,%x) want (%x,%x)", n, i, agg.X, agg.Y, P.X, P.Y)
				}
				if got := p[i].Phase2(m); got == nil || !xy(got.X, got.Y, rs[i]) {
					t.Fatalf("%d parties: nonce point of party %d", n, i)
				}
				sh := p[i].Phase3(scl(ro))
				if !xy(sh.X, sh.Y, R) {
					t.Fatalf("%d parties: nonce point for party %d (%x,%x) want (%x,%x)", n, i, sh.X, sh.Y, R.X, R.Y)
				}
				var err error
				if shares[i], err = p[i].Phase4(agg, sh); err != nil {
					t.Fatalf("%d parties: share of party %d: %v", n, i, err)
				}
			}
			v := rapid.IntRange(0, n-1).Draw(t, "v")
			for _, i := range []int{0, v, n - 1} {
				sig, err := p[i].Phase5(scl(R), append(append([][]byte{}, shares[i:]...), shares[:i]...)...)
				if err != nil || !bytes.Equal(sig, want) {
					t.Fatalf("%d parties: signature of party %d %x (%v) want %x", n, i, sig, err, want)
				}
			}
			if err := xcrypto.SchnorrVerify(pubOf(P), m, want); err != nil {
				t.Fatalf("%d parties: %x does not verify: %v", n, want, err)
			}
			bad := append([][]byte{}, shares...)
			what := rapid.SampledFrom([]string{"left out", "doubled", "altered"}).Draw(t, "what")
			switch what {
			case "left out":
				bad = append(bad[:v], bad[v+1:]...)
			case "doubled":
				bad = append(bad, bad[v])
			case "altered":
				bad[v] = append([]byte{}, bad[v]...)
				bad[v][rapid.IntRange(16, 31).Draw(t, "b")] ^= 1
			}
			c.Class(what)
			if sig, err := p[0].Phase5(scl(R), bad...); err == nil && new(big.Int).SetBytes(shares[v]).Sign() != 0 && xcrypto.SchnorrVerify(pubOf(P), m, sig) == nil {
				t.Fatalf("%d parties: the signature with share %d %s verifies", n, v, what)
			}
		})
}

// kOf is the draft's nonce before its sign is fixed.
func kOf(d *big.Int, m []byte) *big.Int {
	return mod(new(big.Int).SetBytes(xcryptoSha(append(kit.B32(d), m...))))
}
