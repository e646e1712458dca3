package pcrypto

import (
	"bytes"
	"math/big"
	"testing"

	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

func TestP05(t *testing.T) {
	r := kit.New(t, "P05", "the reference group (harness/ref/secp.go: affine addition, separate field implementation) is itself tested against published vectors")
	r.Run(t, "add", 12000, 20, "pairs of points: infinity, generator multiples, chosen x, equal, opposite, related by doubling; non-trivial: both finite",
		func(t *rapid.T, c *kit.Case) {
			a := point(t, "a")
			var b ref.Pt
			switch rapid.IntRange(0, 6).Draw(t, "rel") {
			case 0:
				b = a
			case 1:
				if !a.Inf() {
					b = a.Neg()
				}
			case 2:
				b = a.Add(a)
			case 3: // same x or y class: beta*x shares y
				if !a.Inf() {
					beta, _ := new(big.Int).SetString("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee", 16)
					x := new(big.Int).Mul(a.X, beta)
					b = ref.Pt{X: x.Mod(x, ref.P), Y: a.Y}
				}
			default:
				b = point(t, "b")
			}
			if !a.Inf() && !b.Inf() {
				c.Nontrivial(a.Comp(), b.Comp())
			} else {
				c.Class("infinity")
			}
			ax, ay := coords(a)
			bx, by := coords(b)
			c.Sample("(%x,%x)+(%x,%x)", ax, ay, bx, by)
			want := a.Add(b)
			x, y := curve.Add(ax, ay, bx, by)
			if !xy(x, y, want) {
				t.Fatalf("add (%x,%x)+(%x,%x): got (%x,%x) want %v", ax, ay, bx, by, x, y, want)
			}
			if x2, y2 := curve.Add(bx, by, ax, ay); !xy(x2, y2, want) {
				t.Fatalf("add (%x,%x)+(%x,%x) does not commute", ax, ay, bx, by)
			}
			s := secp256k1.NewScalar(ax, ay).Add(curve, secp256k1.NewScalar(bx, by))
			if !xy(s.X, s.Y, want) {
				t.Fatalf("Scalar.Add (%x,%x)+(%x,%x): got (%x,%x)", ax, ay, bx, by, s.X, s.Y)
			}
			dx, dy := curve.Double(ax, ay)
			if !xy(dx, dy, a.Add(a)) {
				t.Fatalf("double (%x,%x): got (%x,%x)", ax, ay, dx, dy)
			}
			if ex, ey := curve.Add(ax, ay, ax, ay); !xy(ex, ey, a.Add(a)) {
				t.Fatalf("add of aliased operands (%x,%x): got (%x,%x)", ax, ay, ex, ey)
			}
			// results do not alias the operands
			for _, v := range []*big.Int{x, y, s.X, s.Y, dx, dy} {
				v.SetInt64(12345)
			}
			if !xy(ax, ay, a) || !xy(bx, by, b) {
				t.Fatalf("the operands (%v)+(%v) changed", a, b)
			}
			constants(t)
		})
	r.Run(t, "mult", 2500, 20, "points times multipliers of 0..40 bytes (leading zeros, 0, near N, multiples of N, sparse); non-trivial: finite point, multiplier > 1",
		func(t *rapid.T, c *kit.Case) {
			p := point(t, "p")
			var k []byte
			switch rapid.IntRange(0, 5).Draw(t, "kk") {
			case 0:
				k = new(big.Int).Add(new(big.Int).Mul(ref.N, bi(int64(rapid.IntRange(1, 3).Draw(t, "m")))), bi(int64(rapid.IntRange(-3, 3).Draw(t, "o")))).Bytes()
			case 1:
				k = kit.Bytes(t, 0, 3, "k")
			case 2:
				k = kit.Bytes(t, 0, 40, "k")
			case 3:
				k = append(make([]byte, rapid.IntRange(0, 3).Draw(t, "lz")), kit.Scalar(t, "k").Bytes()...)
			default:
				k = kit.B32(kit.Scalar(t, "k"))
			}
			kv := mod(new(big.Int).SetBytes(k))
			if !p.Inf() && kv.Cmp(bi(1)) > 0 {
				c.Nontrivial(p.Comp(), k)
			}
			px, py := coords(p)
			c.Sample("%x * (%x,%x)", k, px, py)
			want := ref.Pt{}
			if !p.Inf() && kv.Sign() > 0 {
				want = ref.Mul(kv, p)
			}
			kin, kok := kit.Spare(k)
			x, y := curve.ScalarMult(px, py, kin)
			if !xy(x, y, want) {
				t.Fatalf("%x * (%x,%x): got (%x,%x) want %v", k, px, py, x, y, want)
			}
			wantG := ref.Pt{}
			if kv.Sign() > 0 {
				wantG = ref.MulG(kv)
			}
			gx, gy := curve.ScalarBaseMult(kin)
			if !xy(gx, gy, wantG) {
				t.Fatalf("%x * G: got (%x,%x)", k, gx, gy)
			}
			for _, v := range []*big.Int{x, y, gx, gy} {
				v.SetInt64(12345)
			}
			if !kok() || !xy(px, py, p) {
				t.Fatalf("%x * %v changed its operands", k, p)
			}
			constants(t)
		})
	r.Run(t, "encoding", 12000, 20, "point encodings: of points, with altered prefix or x (non-residues, >= P), other lengths, random; non-trivial: 33 bytes",
		func(t *rapid.T, c *kit.Case) {
			var b []byte
			switch rapid.IntRange(0, 6).Draw(t, "kind") {
			case 0, 1:
				p := finite(t, "p")
				if got := secp256k1.SecMarshal(curve, p.X, p.Y); !bytes.Equal(got, p.Comp()) {
					t.Fatalf("marshal %v: %x", p, got)
				}
				b = p.Comp()
			case 2:
				b = append([]byte{rapid.SampledFrom([]byte{2, 3, 0, 1, 4, 5, 6, 7, 0x82}).Draw(t, "pre")}, kit.Uniform(t, 32, "x")...)
			case 3:
				x := new(big.Int).Add(ref.P, bi(int64(rapid.IntRange(-4, 20).Draw(t, "o"))))
				b = append([]byte{rapid.SampledFrom([]byte{2, 3}).Draw(t, "pre")}, kit.B32(x)...)
			case 4:
				b = kit.Mutate(t, finite(t, "p").Comp(), "m")
			case 5:
				b = append([]byte{2}, kit.B32(bi(int64(rapid.IntRange(0, 300).Draw(t, "small"))))...)
			default:
				b = kit.Bytes(t, 0, 70, "b")
			}
			if kit.Uniform(t, 1, "toolong")[0] < 20 {
				b = kit.Overlong(t, finite(t, "p").Comp(), "over")
				c.Class("much-too-long")
			}
			if len(b) == 33 {
				c.Nontrivial(b)
			}
			c.Sample("%.80x", b)
			want, ok := ref.Pt{}, false
			if len(b) == 33 {
				want, ok = ref.ParsePub(b)
			}
			in, intact := kit.Spare(b)
			var x, y *big.Int
			kit.NoPanic(t, "SecUnmarshal", func() { x, y = secp256k1.SecUnmarshal(curve, in) })
			if ok {
				c.Class("valid")
				if x == nil || !xy(x, y, want) {
					t.Fatalf("unmarshal %x: got %v %v", b, x, y)
				}
				if !bytes.Equal(secp256k1.SecMarshal(curve, x, y), b) {
					t.Fatalf("marshal of %x", b)
				}
			} else if x != nil {
				t.Fatalf("unmarshal %x: got (%x,%x) for no point", b, x, y)
			}
			if !intact() {
				t.Fatalf("unmarshal changed its input")
			}
		})
	r.Run(t, "membership", 12000, 20, "coordinate pairs: on the curve, altered by small amounts, shifted by the field prime, negated, sampled; non-trivial: at least one coordinate of 128 bits",
		func(t *rapid.T, c *kit.Case) {
			p := finite(t, "p")
			x, y := coords(p)
			d := bi(int64(rapid.IntRange(-2, 2).Draw(t, "d")))
			switch rapid.IntRange(0, 6).Draw(t, "kind") {
			case 1:
				x.Add(x, d)
			case 2:
				y.Add(y, d)
			case 3:
				x.Add(x, new(big.Int).Mul(d, ref.P))
			case 4:
				y.Add(y, new(big.Int).Mul(d, ref.P))
			case 5:
				x, y = y, x
			case 6:
				x, y = bi(int64(rapid.IntRange(-3, 20).Draw(t, "x"))), bi(int64(rapid.IntRange(-3, 20).Draw(t, "y")))
			}
			if x.BitLen() > 128 || y.BitLen() > 128 {
				c.Nontrivial(x, y)
			}
			want := ref.OnCurve(x, y)
			if want {
				c.Class("on")
			}
			x0, y0 := new(big.Int).Set(x), new(big.Int).Set(y)
			if got := curve.IsOnCurve(x, y); got != want {
				t.Fatalf("IsOnCurve(%x,%x)=%v want %v", x, y, got, want)
			}
			if x.Cmp(x0) != 0 || y.Cmp(y0) != 0 {
				t.Fatalf("membership test changed its arguments")
			}
		})
}

func pubBytes(t *rapid.T) []byte {
	p := finite(t, "p")
	switch rapid.IntRange(0, 10).Draw(t, "kind") {
	case 0:
		return p.Comp()
	case 1:
		return p.Uncomp()
	case 2:
		return p.Hybrid()
	case 3:
		b := p.Uncomp()
		b[0] = rapid.Byte().Draw(t, "prefix")
		return b
	case 4:
		b := p.Comp()
		b[0] = rapid.Byte().Draw(t, "prefix")
		return b
	case 5:
		return kit.Mutate(t, p.Comp(), "m")
	case 6:
		return kit.Mutate(t, p.Hybrid(), "m")
	case 7: // coordinates not reduced
		x := new(big.Int).Add(ref.P, bi(int64(rapid.IntRange(-5, 30).Draw(t, "o"))))
		if rapid.Bool().Draw(t, "comp") {
			return append([]byte{rapid.SampledFrom([]byte{2, 3}).Draw(t, "pre")}, kit.B32(x)...)
		}
		q, ok := ref.LiftX(new(big.Int).Mod(x, ref.P), rapid.Bool().Draw(t, "odd"))
		if !ok {
			q = p
		}
		return append(append([]byte{rapid.SampledFrom([]byte{4, 4, 6, 7}).Draw(t, "pre")}, kit.B32(x)...), kit.B32(q.Y)...)
	case 8: // x and y of different points, all zero, negated y
		q := p.Neg()
		switch rapid.IntRange(0, 3).Draw(t, "mix") {
		case 0:
			return append(append([]byte{6 + byte(p.Y.Bit(0))}, kit.B32(q.X)...), kit.B32(q.Y)...)
		case 1:
			return append([]byte{4}, make([]byte, 64)...)
		case 2:
			return append(append([]byte{4}, kit.B32(p.Y)...), kit.B32(p.X)...)
		}
		return append(append([]byte{4}, kit.B32(p.X)...), kit.B32(finite(t, "q").Y)...)
	case 9:
		return append([]byte{rapid.SampledFrom([]byte{2, 3}).Draw(t, "pre")}, kit.Uniform(t, 32, "x")...)
	}
	n := rapid.SampledFrom([]int{0, 1, 32, 33, 34, 64, 65, 66, 130}).Draw(t, "n")
	b := kit.BytesNCheap(t, n, "raw")
	if n > 0 {
		b[0] = byte(rapid.IntRange(0, 8).Draw(t, "pre"))
	}
	return b
}

func TestP06(t *testing.T) {
	r := kit.New(t, "P06", "private keys are taken from 1..N-1; PrvKeyFromBytes has no error to report others")
	r.Run(t, "keys", 1500, 20, "private keys (uniform, small, near N, with leading zero bytes) in full and shortened byte form; all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			d := kit.Scalar(t, "d")
			c.Nontrivial(d)
			want := ref.MulG(d)
			b := kit.B32(d)
			if rapid.Bool().Draw(t, "short") {
				b = d.Bytes()
			}
			in, intact := kit.Spare(b)
			k := xcrypto.PrvKeyFromBytes(in)
			pub := k.PubKey()
			c.Sample("key %x", d)
			if k.D.Cmp(d) != 0 || !xy(pub.X, pub.Y, want) {
				t.Fatalf("key %x: public key (%x,%x) want %v", d, pub.X, pub.Y, want)
			}
			if !bytes.Equal(k.Serialize(), kit.B32(d)) {
				t.Fatalf("key %x serialises to %x", d, k.Serialize())
			}
			forms := []struct {
				name string
				got  []byte
				want []byte
			}{
				{"default", pub.Serialize(), want.Comp()},
				{"compressed", pub.SerializeCompressed(), want.Comp()},
				{"uncompressed", pub.SerializeUncompressed(), want.Uncomp()},
				{"hybrid", pub.SerializeHybrid(), want.Hybrid()},
				{"hash160", pub.Hash160(), ref.Hash160(want.Comp())},
			}
			for _, f := range forms {
				if !bytes.Equal(f.got, f.want) {
					t.Fatalf("key %x: %s form %x want %x", d, f.name, f.got, f.want)
				}
			}
			for _, f := range forms[:4] {
				p, err := xcrypto.PubKeyFromBytes(f.got)
				if err != nil || !xy(p.X, p.Y, want) {
					t.Fatalf("key %x: parsing the %s form: %v %v", d, f.name, p, err)
				}
				if !bytes.Equal(p.Hash160(), pub.Hash160()) || p.Curve != pub.Curve {
					t.Fatalf("parsed key differs")
				}
			}
			if !intact() || !bytes.Equal(k.Serialize(), kit.B32(d)) {
				t.Fatalf("key bytes changed")
			}
		})
	r.Run(t, "adding", 1200, 20, "pairs of keys (random, equal, opposite) and tweaks of 0..40 bytes; non-trivial: sum not zero",
		func(t *rapid.T, c *kit.Case) {
			d, k := key(t, "d")
			var n2 []byte
			switch rapid.IntRange(0, 4).Draw(t, "kind") {
			case 0:
				n2 = kit.Bytes(t, 0, 40, "n2")
			case 1:
				n2 = kit.B32(d)
			case 2:
				n2 = kit.B32(new(big.Int).Sub(ref.N, d))
			default:
				n2 = kit.B32(kit.Scalar(t, "n2"))
			}
			v := new(big.Int).SetBytes(n2)
			sum := mod(new(big.Int).Add(d, v))
			in, intact := kit.Spare(n2)
			c.Sample("%x + %x", d, n2)
			got := k.Add(in)
			if !intact() || k.D.Cmp(d) != 0 {
				t.Fatalf("adding changed its operands")
			}
			if got.D.Cmp(sum) != 0 {
				t.Fatalf("%x + %x: got %x want %x", d, n2, got.D, sum)
			}
			vm := mod(v)
			wantPt := ref.Pt{}
			if sum.Sign() > 0 {
				wantPt = ref.MulG(sum)
				c.Nontrivial(d, n2)
			}
			if !xy(got.PubKey().X, got.PubKey().Y, wantPt) {
				t.Fatalf("%x + %x: public key is not that of the sum", d, n2)
			}
			if !bytes.Equal(got.Serialize(), kit.B32(sum)) {
				t.Fatalf("serialised sum")
			}
			if vm.Sign() > 0 {
				p1, p2 := k.PubKey(), xcrypto.PrvKeyFromBytes(kit.B32(vm)).PubKey()
				q := p1.Add(p2)
				if !xy(q.X, q.Y, wantPt) {
					t.Fatalf("adding public keys of %x and %x: got (%x,%x)", d, vm, q.X, q.Y)
				}
				if !xy(p1.X, p1.Y, ref.MulG(d)) || !xy(p2.X, p2.Y, ref.MulG(vm)) {
					t.Fatalf("adding public keys changed them")
				}
			}
		})
	r.Run(t, "sums", 12000, 20, "pairs of public keys at any points of the curve (short and extreme coordinates, equal, opposite); all non-trivial",
		func(t *rapid.T, c *kit.Case) {
			a := finite(t, "a")
			b := a
			switch rapid.IntRange(0, 5).Draw(t, "kind") {
			case 0:
			case 1:
				b = a.Neg()
			default:
				b = finite(t, "b")
			}
			p, q := pubOf(a), pubOf(b)
			c.Nontrivial(a.Comp(), b.Comp())
			c.Sample("%x + %x", a.Comp(), b.Comp())
			for _, s := range []*xcrypto.PubKey{p.Add(q), q.Add(p)} {
				if !xy(s.X, s.Y, a.Add(b)) {
					t.Fatalf("the sum of the keys %x and %x is (%x,%x)", a.Comp(), b.Comp(), s.X, s.Y)
				}
			}
			if !bytes.Equal(p.SerializeCompressed(), a.Comp()) || !bytes.Equal(p.SerializeUncompressed(), a.Uncomp()) || !bytes.Equal(q.SerializeHybrid(), b.Hybrid()) {
				t.Fatalf("keys %x and %x serialise otherwise", a.Comp(), b.Comp())
			}
		})
	r.Run(t, "parse", 40000, 20, "candidate public keys: the three forms, wrong prefix, mutated, unreduced or mixed coordinates, wrong lengths; non-trivial: 33 or 65 bytes",
		func(t *rapid.T, c *kit.Case) {
			b := pubBytes(t)
			if kit.Uniform(t, 1, "toolong")[0] < 20 {
				p := finite(t, "p")
				b = kit.Overlong(t, rapid.SampledFrom([][]byte{p.Comp(), p.Uncomp(), p.Hybrid()}).Draw(t, "form"), "over")
				c.Class("much-too-long")
			}
			if len(b) == 33 || len(b) == 65 {
				c.Nontrivial(b)
			}
			want, ok := ref.ParsePub(b)
			if ok {
				c.Class("valid")
			}
			c.Sample("%.80x valid=%v", b, ok)
			in, intact := kit.Spare(b)
			var p *xcrypto.PubKey
			var err error
			kit.NoPanic(t, "PubKeyFromBytes", func() { p, err = xcrypto.PubKeyFromBytes(in) })
			if !intact() {
				t.Fatalf("parsing changed its input")
			}
			if ok != (err == nil) {
				t.Fatalf("parse %x: err %v, want valid=%v", b, err, ok)
			}
			if !ok {
				if p != nil {
					t.Fatalf("parse %x: error %v and a key", b, err)
				}
				return
			}
			if !xy(p.X, p.Y, want) {
				t.Fatalf("parse %x: (%x,%x)", b, p.X, p.Y)
			}
			if !bytes.Equal(p.SerializeCompressed(), want.Comp()) || !bytes.Equal(p.SerializeUncompressed(), want.Uncomp()) || !bytes.Equal(p.SerializeHybrid(), want.Hybrid()) {
				t.Fatalf("parse %x: serialises otherwise", b)
			}
		})
}
