package pcrypto

import (
	"crypto/sha256"
	"math/big"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"

	"verif/kit"
	"verif/ref"
)

var curve = secp256k1.SECP256K1()

func bi(v int64) *big.Int { return big.NewInt(v) }

// coords gives the affine coordinates with (0,0) for infinity.
func coords(p ref.Pt) (*big.Int, *big.Int) {
	if p.Inf() {
		return bi(0), bi(0)
	}
	return new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
}

func toPt(x, y *big.Int) ref.Pt {
	if x.Sign() == 0 && y.Sign() == 0 {
		return ref.Pt{}
	}
	return ref.Pt{X: x, Y: y}
}

// xy compares coordinates with the reference point.
func xy(x, y *big.Int, p ref.Pt) bool {
	a, b := coords(p)
	return x != nil && y != nil && x.Cmp(a) == 0 && y.Cmp(b) == 0
}

// point draws a point: infinity, multiple of the generator, or one with a chosen x or y.
func point(t *rapid.T, label string) ref.Pt {
	switch rapid.IntRange(0, 9).Draw(t, label+".pt") {
	case 0:
		return ref.Pt{}
	case 3: // a y of few bytes, of a few bytes with zeros behind, or just below the prime
		return ref.EdgeY(rapid.Uint64().Draw(t, label+".y"), rapid.OneOf(rapid.IntRange(-1, 24), rapid.SampledFrom([]int{21, 22, 23})).Draw(t, label+".ysize"))
	case 1, 2:
		x := new(big.Int)
		switch rapid.IntRange(0, 3).Draw(t, label+".xk") {
		case 0:
			x.SetInt64(int64(rapid.IntRange(1, 200).Draw(t, label+".x")))
		case 1:
			x.Sub(ref.P, bi(int64(rapid.IntRange(1, 200).Draw(t, label+".x"))))
		case 2:
			x.Lsh(bi(1), uint(rapid.IntRange(0, 255).Draw(t, label+".x")))
		default:
			x.SetBytes(kit.Uniform(t, rapid.IntRange(20, 32).Draw(t, label+".xl"), label+".x"))
			x.Mod(x, ref.P)
		}
		odd := rapid.Bool().Draw(t, label+".odd")
		for {
			if p, ok := ref.LiftX(x, odd); ok {
				return p
			}
			x.Add(x, bi(1)).Mod(x, ref.P)
		}
	}
	return ref.MulG(kit.Scalar(t, label))
}

// finite draws a point that is not infinity.
func finite(t *rapid.T, label string) ref.Pt {
	if p := point(t, label); !p.Inf() {
		return p
	}
	return ref.G
}

// scalar draws a private key, sometimes one whose point has a short coordinate.
func scalar(t *rapid.T, label string) *big.Int {
	d := kit.Scalar(t, label)
	k := rapid.IntRange(0, 9).Draw(t, label+".shape")
	if k > 1 {
		return d
	}
	return steps(d, ref.MulG(d), ref.G, func(p ref.Pt) bool { return short(coord(p, k)) })
}

// steps increases d, and p by q with it, until p is as wanted.
func steps(d *big.Int, p, q ref.Pt, ok func(ref.Pt) bool) *big.Int {
	d = new(big.Int).Set(d)
	for i := 0; i < 4000 && (d.Sign() == 0 || p.Inf() || !ok(p)); i++ {
		d.Add(d, bi(1))
		d.Mod(d, ref.N)
		p = p.Add(q)
	}
	return d
}

func short(v *big.Int) bool { return v.BitLen() <= 248 }

func coord(p ref.Pt, k int) *big.Int {
	x, y := coords(p)
	if k == 0 {
		return x
	}
	return y
}

// hunt counts the message up until it is as wanted (values with a leading zero byte are one in 256).
func hunt(m []byte, ok func([]byte) bool) []byte {
	m = append([]byte{}, m...)
	for i := 0; i < 4000 && !ok(m); i++ {
		for j := len(m) - 1; j >= 0; j-- {
			if m[j]++; m[j] != 0 {
				break
			}
		}
	}
	return m
}

func key(t *rapid.T, label string) (*big.Int, *xcrypto.PrvKey) {
	d := scalar(t, label)
	return d, xcrypto.PrvKeyFromBytes(kit.B32(d))
}

func pubOf(p ref.Pt) *xcrypto.PubKey {
	return &xcrypto.PubKey{X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y), Curve: curve}
}

func ptOf(p *xcrypto.PubKey) ref.Pt { return toPt(p.X, p.Y) }

// digest draws a 32-byte digest, sometimes extreme.
func digest(t *rapid.T, label string) []byte {
	switch rapid.IntRange(0, 7).Draw(t, label+".kind") {
	case 0:
		return make([]byte, 32)
	case 1:
		v := new(big.Int).Add(ref.N, bi(int64(rapid.IntRange(-3, 3).Draw(t, label))))
		return kit.B32(v)
	case 2:
		b := make([]byte, 32)
		for i := range b {
			b[i] = 0xff
		}
		return b
	}
	return kit.Uniform(t, 32, label)
}

func mod(v *big.Int) *big.Int { return new(big.Int).Mod(v, ref.N) }

func mul(a, b *big.Int) *big.Int { return mod(new(big.Int).Mul(a, b)) }

func inv(a *big.Int) *big.Int { return new(big.Int).ModInverse(a, ref.N) }

// lowS folds s to the low half.
func lowS(s *big.Int) *big.Int {
	if s.Cmp(new(big.Int).Rsh(ref.N, 1)) > 0 {
		return new(big.Int).Sub(ref.N, s)
	}
	return s
}

// constants checks that the curve parameters are still those of secp256k1.
func constants(t *rapid.T) {
	p := curve.Params()
	if p.P.Cmp(ref.P) != 0 || p.N.Cmp(ref.N) != 0 || p.B.Cmp(bi(7)) != 0 || p.Gx.Cmp(ref.G.X) != 0 || p.Gy.Cmp(ref.G.Y) != 0 || p.BitSize != 256 {
		t.Fatalf("the curve parameters have changed: %+v", p)
	}
}

func xcryptoSha(b []byte) []byte { s := sha256.Sum256(b); return s[:] }
