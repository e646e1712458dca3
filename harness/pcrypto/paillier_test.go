package pcrypto

import (
	"math/big"
	"testing"

	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"pgregory.net/rapid"

	"verif/kit"
)

// factor splits a product of two small primes by trial division.
func factor(n *big.Int) (p, q *big.Int) {
	v := n.Uint64()
	for d := uint64(3); d*d <= v; d += 2 {
		if v%d == 0 {
			return new(big.Int).SetUint64(d), new(big.Int).SetUint64(v / d)
		}
	}
	return nil, nil
}

// paillierDec decrypts with the factors: L(c^phi mod n^2) / phi mod n.
func paillierDec(n, p, q, c *big.Int) *big.Int {
	phi := new(big.Int).Mul(new(big.Int).Sub(p, bi(1)), new(big.Int).Sub(q, bi(1)))
	nn := new(big.Int).Mul(n, n)
	u := new(big.Int).Exp(c, phi, nn)
	u.Sub(u, bi(1)).Div(u, n)
	return u.Mul(u, new(big.Int).ModInverse(phi, n)).Mod(u, n)
}

// residue draws a number below n, biased to the ends.
func residue(t *rapid.T, n *big.Int, label string) *big.Int {
	switch rapid.IntRange(0, 5).Draw(t, label+".k") {
	case 0:
		return new(big.Int).Mod(bi(int64(rapid.IntRange(0, 3).Draw(t, label))), n)
	case 1:
		return new(big.Int).Sub(n, bi(int64(rapid.IntRange(1, 3).Draw(t, label))))
	case 2:
		return new(big.Int).Mod(new(big.Int).Lsh(bi(1), uint(rapid.IntRange(0, n.BitLen()).Draw(t, label))), n)
	}
	v := new(big.Int).SetBytes(kit.Uniform(t, n.BitLen()/8+9, label))
	return v.Mod(v, n)
}

func TestP13(t *testing.T) {
	r := kit.New(t, "P13", "plaintext operands outside [0,N) may be refused or taken modulo N", "ciphertexts above N^2 may be refused or taken modulo N^2")
	history := func(bits func(t *rapid.T) int, small bool) func(t *rapid.T, c *kit.Case) {
		return func(t *rapid.T, c *kit.Case) {
			n0 := bits(t)
			pk, sk, err := paillier.GenerateKeyPair(n0)
			if n0 < 10 {
				if err == nil {
					// a smaller modulus may be supported if it is a proper one
					if p, q := factor(pk.N); p == nil || p.Cmp(q) == 0 {
						t.Fatalf("GenerateKeyPair(%d): modulus %v", n0, pk.N)
					}
				} else {
					return
				}
			}
			if err != nil {
				t.Fatalf("GenerateKeyPair(%d): %v", n0, err)
			}
			N := new(big.Int).Set(pk.N)
			NN := new(big.Int).Mul(N, N)
			if N.BitLen() != n0/2*2 || pk.G.Cmp(new(big.Int).Add(N, bi(1))) != 0 || pk.NN.Cmp(NN) != 0 {
				t.Fatalf("GenerateKeyPair(%d): N %v (%d bits) G %v NN %v", n0, N, N.BitLen(), pk.G, pk.NN)
			}
			if s := new(big.Int).Sqrt(N); new(big.Int).Mul(s, s).Cmp(N) == 0 {
				t.Fatalf("modulus %v is a square", N)
			}
			if N.ProbablyPrime(8) || N.Bit(0) == 0 {
				t.Fatalf("modulus %v is not a product of two odd primes", N)
			}
			var p, q *big.Int
			if small {
				p, q = factor(N)
				if p == nil || !p.ProbablyPrime(20) || !q.ProbablyPrime(20) || p.BitLen() != n0/2 || q.BitLen() != n0/2 {
					t.Fatalf("GenerateKeyPair(%d): %v = %v * %v", n0, N, p, q)
				}
			}
			if rapid.IntRange(0, 2).Draw(t, "sent") == 1 {
				pk = sentKey(t, pk)
			}
			mod := func(v *big.Int) *big.Int { return new(big.Int).Mod(v, N) }
			type item struct{ ct, cc, m *big.Int }
			var items []item
			check := func(what string, ct, want *big.Int) {
				if ct == nil || ct.Sign() <= 0 || ct.Cmp(NN) >= 0 {
					t.Fatalf("N=%v: %s gives ciphertext %v outside (0,N^2)", N, what, ct)
				}
				if small {
					if got := paillierDec(N, p, q, ct); got.Cmp(want) != 0 {
						t.Fatalf("N=%v: %s: ciphertext %v means %v, want %v", N, what, ct, got, want)
					}
				}
				c0 := new(big.Int).Set(ct)
				got, err := sk.Decrypt(ct)
				if err != nil || got.Cmp(want) != 0 {
					t.Fatalf("N=%v: %s: decrypts to %v (%v), want %v", N, what, got, err, want)
				}
				if ct.Cmp(c0) != 0 {
					t.Fatalf("N=%v: decryption changed the ciphertext", N)
				}
				items = append(items, item{ct, c0, want})
			}
			enc := func(m *big.Int) {
				m0 := new(big.Int).Set(m)
				ct, err := pk.Encrypt(m)
				if err != nil {
					t.Fatalf("N=%v: Encrypt(%v): %v", N, m, err)
				}
				if m.Cmp(m0) != 0 {
					t.Fatalf("encryption changed the plaintext")
				}
				check("Encrypt("+m.String()+")", ct, m0)
			}
			enc(residue(t, N, "m0"))
			ops := rapid.IntRange(2, 9).Draw(t, "ops")
			trace := ""
			for ; ops > 0; ops-- {
				a := items[rapid.IntRange(0, len(items)-1).Draw(t, "a")]
				b := items[rapid.IntRange(0, len(items)-1).Draw(t, "b")]
				s := residue(t, N, "s")
				outside := false
				if rapid.IntRange(0, 7).Draw(t, "out") == 0 {
					outside = true
					s = rapid.SampledFrom([]*big.Int{bi(-1), bi(-7), new(big.Int).Neg(N), N, new(big.Int).Add(N, bi(5)), NN, new(big.Int).Neg(s)}).Draw(t, "so")
				}
				s0 := new(big.Int).Set(s)
				var ct *big.Int
				var err error
				var want *big.Int
				op := rapid.IntRange(0, 6).Draw(t, "op")
				what := []string{"encrypt", "add", "sub", "addplain", "mult", "div", "encrypt"}[op]
				trace += what + " "
				switch op {
				case 0, 6:
					enc(residue(t, N, "m"))
					continue
				case 1:
					want = mod(new(big.Int).Add(a.m, b.m))
					outside = false
					kit.NoPanic(t, what, func() { ct, err = pk.Add(a.ct, b.ct) })
				case 2:
					want = mod(new(big.Int).Sub(a.m, b.m))
					outside = false
					kit.NoPanic(t, what, func() { ct = pk.Sub(a.ct, b.ct) })
				case 3:
					want = mod(new(big.Int).Add(a.m, s))
					kit.NoPanic(t, what, func() { ct, err = pk.AddPlaintext(a.ct, s) })
				case 4:
					want = mod(new(big.Int).Mul(a.m, s))
					kit.NoPanic(t, what, func() { ct, err = pk.MultPlaintext(a.ct, s) })
				case 5:
					inv := new(big.Int).ModInverse(mod(s), N)
					kit.NoPanic(t, what, func() { ct, err = pk.DivPlaintext(a.ct, s) })
					if inv == nil {
						if err == nil {
							t.Fatalf("N=%v: division by %v, which is not invertible: no error", N, s)
						}
						continue
					}
					want = mod(new(big.Int).Mul(a.m, inv))
				}
				if s.Cmp(s0) != 0 {
					t.Fatalf("N=%v: %s changed its operand %v to %v", N, what, s0, s)
				}
				if err != nil && outside {
					continue
				}
				if err != nil {
					t.Fatalf("N=%v: %s of %v and %v (operand %v): %v", N, what, a.m, b.m, s, err)
				}
				check(what+" of "+a.m.String()+" with "+b.m.String()+"/"+s.String(), ct, want)
			}
			for _, it := range items {
				if it.ct.Cmp(it.cc) != 0 {
					t.Fatalf("N=%v: a ciphertext given to an operation was changed", N)
				}
				if got, err := sk.Decrypt(it.ct); err != nil || got.Cmp(it.m) != 0 {
					t.Fatalf("N=%v: ciphertext of %v now decrypts to %v (%v)", N, it.m, got, err)
				}
			}
			if pk.N.Cmp(N) != 0 || pk.NN.Cmp(NN) != 0 || pk.G.Cmp(new(big.Int).Add(N, bi(1))) != 0 {
				t.Fatalf("the public key was changed")
			}
			if len(items) >= 3 {
				c.Nontrivial(N, trace)
			}
			c.Sample("%d bits: %s", n0, trace)
		}
	}
	r.Run(t, "small", 8000, 20, "fresh keys of 0..40 bits (factored by trial division, ciphertexts decrypted independently), histories of 2..9 operations on earlier results; non-trivial: at least 3 ciphertexts",
		history(func(t *rapid.T) int { return rapid.IntRange(0, 40).Draw(t, "bits") }, true))
	r.Run(t, "large", 150, 20, "fresh keys of 41..512 bits, histories of operations; non-trivial: at least 3 ciphertexts",
		history(func(t *rapid.T) int { return rapid.IntRange(41, 512).Draw(t, "bits") }, false))
	r.Run(t, "refuse", 1500, 20, "plaintexts and ciphertexts that are nil, negative, zero, at or above their modulus, or share a factor with it, as either operand of every operation; non-trivial: not nil",
		func(t *rapid.T, c *kit.Case) {
			bits := rapid.IntRange(10, 40).Draw(t, "bits")
			pk, sk, err := paillier.GenerateKeyPair(bits)
			if err != nil {
				t.Fatalf("GenerateKeyPair(%d): %v", bits, err)
			}
			p, _ := factor(pk.N)
			good, err := pk.Encrypt(residue(t, pk.N, "m"))
			if err != nil {
				t.Fatalf("%v", err)
			}
			o := bi(int64(rapid.IntRange(0, 5).Draw(t, "o")))
			k := rapid.IntRange(0, 6).Draw(t, "k")
			var bad *big.Int
			switch k {
			case 0:
			case 1:
				bad = new(big.Int).Neg(new(big.Int).Add(o, bi(1)))
			case 2:
				bad = bi(0)
			case 3:
				bad = new(big.Int).Add(pk.NN, o)
			case 4: // a multiple of one factor
				bad = new(big.Int).Mul(p, new(big.Int).Add(o, bi(1)))
			case 5: // good plus the modulus
				bad = new(big.Int).Add(pk.NN, good)
			case 6:
				bad = new(big.Int).Neg(good)
			}
			if bad != nil {
				c.Nontrivial(pk.N, bad)
			}
			c.Sample("N %v ciphertext %v", pk.N, bad)
			var e [7]error
			ops := func(ct *big.Int) (out [8]*big.Int) {
				kit.NoPanic(t, "refuse", func() {
					out[0], e[0] = sk.Decrypt(ct)
					out[1], e[1] = pk.Add(ct, good)
					out[2], e[2] = pk.Add(good, ct)
					out[3], e[3] = pk.AddPlaintext(ct, bi(1))
					out[4], e[4] = pk.MultPlaintext(ct, bi(2))
					out[5], e[5] = pk.DivPlaintext(ct, bi(1))
					out[6] = pk.Sub(ct, good)
					out[7] = pk.Sub(good, ct)
				})
				for i := range out {
					if i < 6 && e[i] != nil {
						out[i] = nil
					}
				}
				return out
			}
			got := ops(bad)
			if bad != nil && bad.Sign() > 0 && new(big.Int).GCD(nil, nil, bad, pk.N).Cmp(bi(1)) == 0 {
				// not reduced, but stands for a ciphertext
				want := ops(new(big.Int).Mod(bad, pk.NN))
				for i, g := range got {
					if want[i] == nil {
						t.Fatalf("N=%v: operation %d refuses the ciphertext %v mod N^2", pk.N, i, bad)
					}
					if g != nil && new(big.Int).Mod(new(big.Int).Sub(g, want[i]), pk.NN).Sign() != 0 {
						t.Fatalf("N=%v: operation %d on the ciphertext %v is %v, on its residue %v", pk.N, i, bad, g, want[i])
					}
				}
			} else {
				for i, g := range got {
					if g != nil || (i < 6 && e[i] == nil) {
						t.Fatalf("N=%v: operation %d accepts the ciphertext %v", pk.N, i, bad)
					}
				}
			}
			// keys with missing parts
			part := [3]*big.Int{pk.G, pk.N, pk.NN}
			part[rapid.IntRange(0, 2).Draw(t, "part")] = nil
			broken := &paillier.PubKey{G: part[0], N: part[1], NN: part[2]}
			kit.NoPanic(t, "key with missing parts", func() {
				_, e[0] = broken.Add(good, good)
				_, e[1] = broken.AddPlaintext(good, bi(1))
				_, e[2] = broken.MultPlaintext(good, bi(2))
				_, e[3] = broken.DivPlaintext(good, bi(1))
			})
			for i := 0; i < 4; i++ {
				if e[i] == nil {
					t.Fatalf("operation %d works with the key %v %v %v", i, part[0], part[1], part[2])
				}
			}
			// plaintexts
			var m *big.Int
			switch k {
			case 0:
			case 1, 2:
				m = new(big.Int).Neg(new(big.Int).Add(o, bi(1)))
			default:
				m = new(big.Int).Add(pk.N, o)
			}
			var perr [4]error
			kit.NoPanic(t, "refuse plaintext", func() {
				_, perr[0] = pk.Encrypt(m)
				_, perr[1] = pk.AddPlaintext(good, nil)
				_, perr[2] = pk.MultPlaintext(good, nil)
				_, perr[3] = pk.DivPlaintext(good, nil)
			})
			for i, err := range perr {
				if err == nil {
					t.Fatalf("N=%v: operation %d accepts the plaintext %v (or nil)", pk.N, i, m)
				}
			}
		})
	r.Run(t, "fresh", 40, 20, "the same plaintext encrypted 4 times under a fresh 128-bit key: ciphertexts all different, with different random parts; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			pk, _, err := paillier.GenerateKeyPair(128)
			if err != nil {
				t.Fatalf("%v", err)
			}
			m := residue(t, pk.N, "m")
			c.Nontrivial(pk.N, m)
			c.Sample("N %v m %v", pk.N, m)
			var cs []*big.Int
			plain := new(big.Int).Exp(pk.G, m, pk.NN)
			for i := 0; i < 4; i++ {
				ct, err := pk.Encrypt(m)
				if err != nil {
					t.Fatalf("%v", err)
				}
				if ct.Cmp(plain) == 0 {
					t.Fatalf("N=%v m=%v: encryption without randomness", pk.N, m)
				}
				for _, o := range cs {
					if o.Cmp(ct) == 0 {
						t.Fatalf("N=%v m=%v: two equal encryptions", pk.N, m)
					}
				}
				cs = append(cs, ct)
			}
		})
}
