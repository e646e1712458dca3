package pcore

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

// pair is what both protocols have in common.
type party interface {
	one(*xcrypto.PubKey) *xcrypto.PubKey
	two([]byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar)
	three(*secp256k1.Scalar) *secp256k1.Scalar
	four(*big.Int, *paillier.PubKey, *secp256k1.Scalar) (*big.Int, error)
}

type plainParty struct{ *xcrypto.EcdsaParty }

func (p plainParty) one(q *xcrypto.PubKey) *xcrypto.PubKey { return p.Phase1(q) }
func (p plainParty) two(h []byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar) {
	return p.Phase2(h)
}
func (p plainParty) three(r *secp256k1.Scalar) *secp256k1.Scalar { return p.Phase3(r) }
func (p plainParty) four(e *big.Int, k *paillier.PubKey, r *secp256k1.Scalar) (*big.Int, error) {
	return p.Phase4(e, k, r)
}

type aliceParty struct{ *xcrypto.EcdsaAlice }

func (p aliceParty) one(q *xcrypto.PubKey) *xcrypto.PubKey { return p.ScriptlessPhase1(q) }
func (p aliceParty) two(h []byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar) {
	return p.ScriptlessPhase2(h)
}
func (p aliceParty) three(r *secp256k1.Scalar) *secp256k1.Scalar { return p.ScriptlessPhase3(r) }
func (p aliceParty) four(e *big.Int, k *paillier.PubKey, r *secp256k1.Scalar) (*big.Int, error) {
	return p.ScriptlessPhase4(e, k, r)
}

type bobParty struct{ *xcrypto.EcdsaBob }

func (p bobParty) one(q *xcrypto.PubKey) *xcrypto.PubKey { return p.ScriptlessPhase1(q) }
func (p bobParty) two(h []byte) (*big.Int, *paillier.PubKey, *secp256k1.Scalar) {
	return p.ScriptlessPhase2(h)
}
func (p bobParty) three(r *secp256k1.Scalar) *secp256k1.Scalar { return p.ScriptlessPhase3(r) }
func (p bobParty) four(e *big.Int, k *paillier.PubKey, r *secp256k1.Scalar) (*big.Int, error) {
	return p.ScriptlessPhase4(e, k, r)
}

// exchange runs the four phases both protocols share and gives the shared nonce point of either party and its share.
func exchange(t *rapid.T, p [2]party, h []byte) (R [2]*secp256k1.Scalar, ct [2]*big.Int) {
	var enc [2]*big.Int
	var pk [2]*paillier.PubKey
	var rs [2]*secp256k1.Scalar
	for i := range p {
		enc[i], pk[i], rs[i] = p[i].two(append([]byte{}, h...))
	}
	for i := range p {
		R[i] = p[i].three(rs[1-i])
	}
	for i := range p {
		var err error
		if ct[i], err = p[i].four(enc[1-i], pk[1-i], R[i]); err != nil {
			t.Fatalf("fourth phase on digest %x: %v", h, err)
		}
	}
	return
}

func TestP39(t *testing.T) {
	r := kit.New(t, "P39", "the joint key is used in its compressed form, as the signature is embedded with it", "a key pair whose product is the key of another coin is not generated")
	r.Run(t, "spend", 16, 25, "1..3 inputs of which some are coins of a joint key (plain and witness form), the rest coins of single keys or policies; every joint input is signed by a protocol run over its own digest and hash type, by the plain or the adaptor protocol, in any order among the others; then the transaction is verified, sent and verified again, and altered; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			d := distinct(t, 2, "d")
			dj := new(big.Int).Mul(d[0], d[1])
			dj.Mod(dj, ref.N)
			adaptor := rapid.Bool().Draw(t, "adaptor")
			secret := kit.Scalar(t, "secret")
			var p [2]party
			var alice *xcrypto.EcdsaAlice
			var bob *xcrypto.EcdsaBob
			var plain [2]*xcrypto.EcdsaParty
			if adaptor {
				alice, bob = xcrypto.NewEcdsaAlice(prv(d[0])), xcrypto.NewEcdsaBob(prv(d[1]), new(big.Int).Set(secret))
				p = [2]party{aliceParty{alice}, bobParty{bob}}
			} else {
				plain = [2]*xcrypto.EcdsaParty{xcrypto.NewEcdsaParty(prv(d[0])), xcrypto.NewEcdsaParty(prv(d[1]))}
				p = [2]party{plainParty{plain[0]}, plainParty{plain[1]}}
			}
			var joint [2]*xcrypto.PubKey
			for i := range p {
				joint[i] = p[i].one(prv(d[1-i]).PubKey())
				if !bytes.Equal(joint[i].SerializeCompressed(), pub(dj, true)) {
					t.Fatalf("keys %x %x: party %d computes joint key %x, want %x", d[0], d[1], i, joint[i].SerializeCompressed(), pub(dj, true))
				}
			}
			// the transaction
			x := &ref.Tx{Version: uint32(rapid.IntRange(1, 2).Draw(t, "ver")), LockTime: word(t, "lock")}
			var cs []*coin
			isJoint := map[int]bool{}
			n := rapid.IntRange(1, 3).Draw(t, "ins")
			must := rapid.IntRange(0, n-1).Draw(t, "joint")
			for i := 0; i < n; i++ {
				var co *coin
				if i == must || rapid.IntRange(0, 3).Draw(t, "another") == 0 {
					co = newCoin(t, rapid.SampledFrom([]int{ref.PKH, ref.WPKH}).Draw(t, "jkind"), 1, "coin")
					co.d, co.compressed = []*big.Int{dj}, true
					// the address of the joint key
					if co.kind == ref.PKH {
						co.lock = lockOf(t, xcore.NewPayToPubKeyHashAddress(joint[i%2].Hash160()))
					} else {
						co.lock = lockOf(t, xcore.NewPayToWitnessV0PubKeyHashAddress(joint[i%2].Hash160()))
					}
					if want := ref.Lock(co.kind, ref.Hash160(pub(dj, true))); !bytes.Equal(co.lock, want) {
						t.Fatalf("keys %x %x: the joint address locks with %x want %x", d[0], d[1], co.lock, want)
					}
					isJoint[i] = true
				} else {
					co = newCoin(t, rapid.IntRange(1, 4).Draw(t, "kind"), 3, "coin")
				}
				cs, x.Ins = append(cs, co), append(x.Ins, co.in())
			}
			for k := rapid.IntRange(1, 3).Draw(t, "outs"); k > 0; k-- {
				x.Outs = append(x.Outs, &ref.TxOut{Value: amount(t, "v"), Script: locking(t, "o")})
			}
			tx := direct(t, x)
			c.Nontrivial(x.Bytes(false), d[0], d[1])
			c.Sample("keys %x %x adaptor=%v %x", d[0], d[1], adaptor, x.Bytes(false))
			what := fmt.Sprintf("keys %x %x adaptor=%v secret %x transaction %x", d[0], d[1], adaptor, secret, x.Bytes(false))
			for _, i := range rapid.Permutation(seq(n)).Draw(t, "order") {
				co := cs[i]
				ht := co.hashType
				if !isJoint[i] {
					idx := co.signers(t, "s")
					if err := tx.SignIndex(i, co.compressed, xcore.SigHashType(ht), co.keys(idx)...); err != nil {
						t.Fatalf("%s: signing input %d: %v", what, i, err)
					}
					co.sign(x, i, co.scalars(idx), ht)
					continue
				}
				c.Class(fmt.Sprintf("kind %d type %02x adaptor %v", co.kind, ht, adaptor))
				h := tx.RawSignatureHash(i, xcore.SigHashType(ht))
				if co.kind == ref.WPKH {
					h = tx.WitnessV0SignatureHash(i, xcore.SigHashType(ht))
				}
				if !bytes.Equal(h, x.SigHash(i, uint32(ht))) {
					t.Fatalf("%s: digest of input %d type %02x is %x, want %x", what, i, ht, h, x.SigHash(i, uint32(ht)))
				}
				R, ct := exchange(t, p, h)
				var sigs [][]byte
				if adaptor {
					fs1, err := alice.ScriptlessPhase5(R[0], ct[1])
					if err != nil {
						t.Fatalf("%s: %v", what, err)
					}
					// what alice holds does not spend the coin, unless the secret is trivial
					if secret.Cmp(big.NewInt(1)) != 0 && new(big.Int).Add(secret, big.NewInt(1)).Cmp(ref.N) != 0 {
						rr := new(big.Int).Mod(R[0].X, ref.N)
						early := direct(t, x)
						if err := early.EmbedIdxEcdsaSignature(i, joint[0], ref.DER(rr, fs1), xcore.SigHashType(ht)); err == nil {
							y := x.Clone()
							co.unlock(y.Ins[i], [][]byte{append(ref.DER(rr, fs1), ht)})
							if y.VerifyIn(i) {
								t.Fatalf("%s: the incomplete signature for input %d is accepted by the reference", what, i)
							}
							if n == 1 && early.Verify() == nil {
								t.Fatalf("%s: the incomplete signature spends input %d", what, i)
							}
						}
					}
					fs2, err := bob.ScriptlessPhase5(R[1], ct[0])
					if err != nil {
						t.Fatalf("%s: %v", what, err)
					}
					sig, err := bob.ScriptlessPhase6(R[1], fs2)
					if err != nil {
						t.Fatalf("%s: %v", what, err)
					}
					sigs = append(sigs, sig)
					// the published signature tells alice the secret, up to its sign
					_, s, ok := ref.ParseDER(sig)
					if !ok {
						t.Fatalf("%s: signature %x", what, sig)
					}
					got := alice.ScriptlessPhase6(fs1, s)
					if got == nil || got.Cmp(secret) != 0 && new(big.Int).Add(got, secret).Cmp(ref.N) != 0 {
						t.Fatalf("%s: the signature published for input %d reveals %x", what, i, got)
					}
				} else {
					for k := range plain {
						sig, err := plain[k].Phase5(R[k], ct[1-k])
						if err != nil {
							t.Fatalf("%s: %v", what, err)
						}
						sigs = append(sigs, sig)
					}
					if !bytes.Equal(sigs[0], sigs[1]) {
						t.Fatalf("%s: the parties end with signatures %x and %x", what, sigs[0], sigs[1])
					}
				}
				if err := tx.EmbedIdxEcdsaSignature(i, joint[rapid.IntRange(0, 1).Draw(t, "whose")], sigs[len(sigs)-1], xcore.SigHashType(ht)); err != nil {
					t.Fatalf("%s: embedding into input %d: %v", what, i, err)
				}
				co.unlock(x.Ins[i], [][]byte{append(append([]byte{}, sigs[0]...), ht)})
			}
			if err := same(tx, x); err != nil {
				t.Fatalf("%s: signed: %v", what, err)
			}
			if !x.Verify() {
				t.Fatalf("%s: the reference refuses %x", what, x.Bytes(true))
			}
			if err := tx.Verify(); err != nil {
				t.Fatalf("%s: signed transaction refused: %v", what, err)
			}
			if !verdict(t, x) {
				t.Fatalf("%s: refused after decoding: %x", what, x.Bytes(true))
			}
			// alterations: committed data, the shares' owners alone, swapped inputs
			for k := 0; k < 6; k++ {
				y := x.Clone()
				i := rapid.IntRange(0, n-1).Draw(t, "at")
				for j := 0; j < n && !isJoint[i]; j++ {
					i = (i + 1) % n
				}
				how := rapid.IntRange(0, 6).Draw(t, "alter")
				switch how {
				case 0:
					y.Outs[rapid.IntRange(0, len(y.Outs)-1).Draw(t, "out")].Value ^= 1
				case 1:
					y.LockTime ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
				case 2:
					y.Ins[rapid.IntRange(0, n-1).Draw(t, "in")].Seq ^= 1
				case 3:
					y.Ins[i].Value ^= 1
				case 4, 5: // one party alone
					z := cs[i]
					one := &coin{kind: z.kind, d: []*big.Int{dj}, compressed: true, lock: z.lock}
					rr, ss := ref.EcdsaSign(d[how-4], y.SigHash(i, uint32(z.hashType)))
					one.unlock(y.Ins[i], [][]byte{append(ref.DER(rr, ss), z.hashType)})
				case 6:
					y.Ins[i].Script, y.Ins[i].Witness = nil, nil
				}
				want := y.Verify()
				c.Class(fmt.Sprintf("altered %d accepted=%v", how, want))
				if got := verdict(t, y); got != want {
					t.Fatalf("%s: altered (%d, input %d) %x: accepted=%v want %v", what, how, i, y.Bytes(true), got, want)
				}
			}
		})
}

func lockOf(t *rapid.T, a xcore.Address) []byte {
	s, err := a.LockingScript()
	if err != nil {
		t.Fatalf("locking script of an address: %v", err)
	}
	return s
}
