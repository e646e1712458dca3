package ref

import (
	"crypto/hmac"
	"crypto/sha256"
	"encoding/binary"
	"math/big"
	"math/bits"
)

func hexInt(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

// Curve constants of secp256k1 (SEC 2).
var (
	P  = hexInt("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f")
	N  = hexInt("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141")
	Gx = hexInt("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798")
	Gy = hexInt("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8")
)

// Pt is a point; the zero value is the point at infinity.
type Pt struct{ X, Y *big.Int }

// Inf tells whether p is the point at infinity.
func (p Pt) Inf() bool { return p.X == nil }

// G is the generator.
var G = Pt{Gx, Gy}

// Eq compares points.
func (p Pt) Eq(q Pt) bool {
	if p.Inf() || q.Inf() {
		return p.Inf() == q.Inf()
	}
	return p.X.Cmp(q.X) == 0 && p.Y.Cmp(q.Y) == 0
}

// Neg gives -p.
func (p Pt) Neg() Pt {
	if p.Inf() {
		return p
	}
	return Pt{p.X, new(big.Int).Mod(new(big.Int).Neg(p.Y), P)}
}

// OnCurve is the curve equation with coordinates in range.
func OnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	r := new(big.Int).Exp(x, big.NewInt(3), P)
	r.Add(r, big.NewInt(7))
	return l.Sub(l, r).Mod(l, P).Sign() == 0
}

// Add is the textbook chord-and-tangent law in affine coordinates.
func (p Pt) Add(q Pt) Pt {
	if p.Inf() {
		return q
	}
	if q.Inf() {
		return p
	}
	var l *big.Int
	if p.X.Cmp(q.X) == 0 {
		if s := new(big.Int).Add(p.Y, q.Y); s.Mod(s, P).Sign() == 0 {
			return Pt{}
		}
		l = new(big.Int).Mul(p.X, p.X)
		l.Mul(l, big.NewInt(3))
		d := new(big.Int).Lsh(p.Y, 1)
		l.Mul(l, d.ModInverse(d, P))
	} else {
		l = new(big.Int).Sub(q.Y, p.Y)
		d := new(big.Int).Sub(q.X, p.X)
		d.Mod(d, P)
		l.Mul(l, d.ModInverse(d, P))
	}
	l.Mod(l, P)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X).Sub(x, q.X).Mod(x, P)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l).Sub(y, p.Y).Mod(y, P)
	return Pt{x, y}
}

// fe is a field element below P, little-endian limbs.
type fe [4]uint64

const pLow = 0x1000003d1 // 2^256 - P

func feOf(v *big.Int) (f fe) {
	b := new(big.Int).Mod(v, P).FillBytes(make([]byte, 32))
	for i := 0; i < 4; i++ {
		f[i] = binary.BigEndian.Uint64(b[24-8*i:])
	}
	return
}

func (f fe) big() *big.Int {
	b := make([]byte, 32)
	for i := 0; i < 4; i++ {
		binary.BigEndian.PutUint64(b[24-8*i:], f[i])
	}
	return new(big.Int).SetBytes(b)
}

// red subtracts P when the value (with carry bit c worth 2^256) is not below it: adding 2^256-P carries exactly then.
func red(f fe, c uint64) fe {
	var t fe
	var k uint64
	t[0], k = bits.Add64(f[0], pLow, 0)
	t[1], k = bits.Add64(f[1], 0, k)
	t[2], k = bits.Add64(f[2], 0, k)
	t[3], k = bits.Add64(f[3], 0, k)
	if k+c != 0 {
		return t
	}
	return f
}

func ad(a, b fe) (r fe) {
	var k uint64
	r[0], k = bits.Add64(a[0], b[0], 0)
	r[1], k = bits.Add64(a[1], b[1], k)
	r[2], k = bits.Add64(a[2], b[2], k)
	r[3], k = bits.Add64(a[3], b[3], k)
	return red(r, k)
}

func sb(a, b fe) (r fe) {
	var k uint64
	r[0], k = bits.Sub64(a[0], b[0], 0)
	r[1], k = bits.Sub64(a[1], b[1], k)
	r[2], k = bits.Sub64(a[2], b[2], k)
	r[3], k = bits.Sub64(a[3], b[3], k)
	if k != 0 { // add P = subtract 2^256-P modulo 2^256
		r[0], k = bits.Sub64(r[0], pLow, 0)
		r[1], k = bits.Sub64(r[1], 0, k)
		r[2], k = bits.Sub64(r[2], 0, k)
		r[3], _ = bits.Sub64(r[3], 0, k)
	}
	return
}

// m multiplies and folds the high half back twice, as 2^256 = pLow modulo P.
func m(a, b fe) fe {
	var w [8]uint64
	for i := 0; i < 4; i++ {
		var c uint64
		for j := 0; j < 4; j++ {
			hi, lo := bits.Mul64(a[i], b[j])
			var k uint64
			lo, k = bits.Add64(lo, w[i+j], 0)
			hi += k
			lo, k = bits.Add64(lo, c, 0)
			hi += k
			w[i+j], c = lo, hi
		}
		w[i+4] = c
	}
	var r fe
	var c uint64
	for i := 0; i < 4; i++ {
		hi, lo := bits.Mul64(w[4+i], pLow)
		var k uint64
		lo, k = bits.Add64(lo, w[i], 0)
		hi += k
		lo, k = bits.Add64(lo, c, 0)
		hi += k
		r[i], c = lo, hi
	}
	// c < 2^34: fold once more
	hi, lo := bits.Mul64(c, pLow)
	var k uint64
	r[0], k = bits.Add64(r[0], lo, 0)
	r[1], k = bits.Add64(r[1], hi, k)
	r[2], k = bits.Add64(r[2], 0, k)
	r[3], k = bits.Add64(r[3], 0, k)
	return red(r, k)
}

// proj is a homogeneous projective point (X:Y:Z), infinity (0:1:0).
type proj struct{ x, y, z fe }

var b3 = fe{21}

// padd is the complete addition law for a=0 (Renes, Costello, Batina 2015, algorithm 7): no special cases.
func padd(p, q proj) proj {
	t0 := m(p.x, q.x)
	t1 := m(p.y, q.y)
	t2 := m(p.z, q.z)
	t3 := sb(m(ad(p.x, p.y), ad(q.x, q.y)), ad(t0, t1))
	t4 := sb(m(ad(p.y, p.z), ad(q.y, q.z)), ad(t1, t2))
	y3 := sb(m(ad(p.x, p.z), ad(q.x, q.z)), ad(t0, t2))
	x3 := ad(t0, t0)
	t0 = ad(x3, t0)
	t2 = m(b3, t2)
	z3 := ad(t1, t2)
	t1 = sb(t1, t2)
	y3 = m(b3, y3)
	x3 = m(t4, y3)
	t2 = m(t3, t1)
	x3 = sb(t2, x3)
	y3 = m(y3, t0)
	t1 = m(t1, z3)
	y3 = ad(t1, y3)
	t0 = m(t0, t3)
	z3 = m(z3, t4)
	z3 = ad(z3, t0)
	return proj{x3, y3, z3}
}

func toProj(p Pt) proj {
	if p.Inf() {
		return proj{fe{}, fe{1}, fe{}}
	}
	return proj{feOf(p.X), feOf(p.Y), fe{1}}
}

func (p proj) affine() Pt {
	if p.z == (fe{}) {
		return Pt{}
	}
	i := feOf(new(big.Int).ModInverse(p.z.big(), P))
	return Pt{m(p.x, i).big(), m(p.y, i).big()}
}

var gTab [64][16]proj

func init() {
	base := toProj(G)
	for i := range gTab {
		gTab[i][0] = toProj(Pt{})
		for j := 1; j < 16; j++ {
			gTab[i][j] = padd(gTab[i][j-1], base)
		}
		base = padd(gTab[i][15], base)
	}
}

// Mul gives k*p for any integer k (reduced modulo N, the order of every point).
func Mul(k *big.Int, p Pt) Pt { return pmul(k, p).affine() }

func pmul(k *big.Int, p Pt) proj {
	e := new(big.Int).Mod(k, N)
	r := toProj(Pt{})
	if p.Inf() {
		return r
	}
	if p.X == Gx && p.Y == Gy {
		b := e.FillBytes(make([]byte, 32))
		for i := 0; i < 64; i++ {
			v := b[31-i/2]
			if i%2 == 1 {
				v >>= 4
			}
			if v&15 != 0 {
				r = padd(r, gTab[i][v&15])
			}
		}
		return r
	}
	q := toProj(p)
	for i := e.BitLen() - 1; i >= 0; i-- {
		r = padd(r, r)
		if e.Bit(i) == 1 {
			r = padd(r, q)
		}
	}
	return r
}

// MulG gives k*G.
func MulG(k *big.Int) Pt { return Mul(k, G) }

// MulAdd gives a*G + b*p.
func MulAdd(a, b *big.Int, p Pt) Pt { return padd(pmul(a, G), pmul(b, p)).affine() }

// B32 is the 32-byte big-endian form.
func B32(v *big.Int) []byte { return v.FillBytes(make([]byte, 32)) }

// Sqrt gives a square root modulo P (P = 3 mod 4), if there is one.
func Sqrt(v *big.Int) (*big.Int, bool) {
	e := new(big.Int).Add(P, big.NewInt(1))
	e.Rsh(e, 2)
	r := new(big.Int).Exp(v, e, P)
	return r, new(big.Int).Exp(r, big.NewInt(2), P).Cmp(new(big.Int).Mod(v, P)) == 0
}

// IsSquare is Euler's criterion (0 is not counted as a square).
func IsSquare(v *big.Int) bool {
	e := new(big.Int).Sub(P, big.NewInt(1))
	e.Rsh(e, 1)
	return new(big.Int).Exp(v, e, P).Cmp(big.NewInt(1)) == 0
}

// LiftY gives a point with this y coordinate: the which-th of the three.
func LiftY(y *big.Int, which int) (Pt, bool) {
	c := new(big.Int).Mul(y, y)
	c.Sub(c, big.NewInt(7)).Mod(c, P)
	e := new(big.Int).Add(P, big.NewInt(2)) // P is 7 modulo 9
	x := new(big.Int).Exp(c, e.Div(e, big.NewInt(9)), P)
	if x.Sign() == 0 || new(big.Int).Exp(x, big.NewInt(3), P).Cmp(c) != 0 {
		return Pt{}, false
	}
	for ; which > 0; which-- {
		x.Mul(x, beta).Mod(x, P)
	}
	return Pt{x, new(big.Int).Set(y)}, true
}

// beta is a cube root of one.
var beta = hexInt("7ae96a2b657c07106e64479eac3434e99cf0497512f58995c1396c28719501ee")

// EdgeY makes, of any seed, a point whose y is short (few bytes), all but P, or has a short square root.
func EdgeY(seed uint64, size int) Pt {
	y := new(big.Int).SetUint64(seed)
	if size > 0 {
		y.Lsh(y, uint(8*size))
	}
	if size < 0 {
		y.Sub(P, y)
	}
	y.Mod(y, P)
	for {
		if p, ok := LiftY(y, int(seed%3)); ok {
			return p
		}
		y.Add(y, big.NewInt(1)).Mod(y, P)
	}
}

// LiftX gives the point with this x and parity.
func LiftX(x *big.Int, odd bool) (Pt, bool) {
	if x.Sign() < 0 || x.Cmp(P) >= 0 {
		return Pt{}, false
	}
	c := new(big.Int).Exp(x, big.NewInt(3), P)
	y, ok := Sqrt(c.Add(c, big.NewInt(7)).Mod(c, P))
	if !ok {
		return Pt{}, false
	}
	if (y.Bit(0) == 1) != odd {
		y.Sub(P, y)
	}
	return Pt{new(big.Int).Set(x), y}, true
}

// Comp and Uncomp are the SEC1 encodings of a finite point; Hybrid is the obsolete third form.
func (p Pt) Comp() []byte { return append([]byte{2 + byte(p.Y.Bit(0))}, B32(p.X)...) }

// Uncomp is the uncompressed form.
func (p Pt) Uncomp() []byte { return append(append([]byte{4}, B32(p.X)...), B32(p.Y)...) }

// Hybrid is the hybrid form.
func (p Pt) Hybrid() []byte {
	return append(append([]byte{6 + byte(p.Y.Bit(0))}, B32(p.X)...), B32(p.Y)...)
}

// ParsePub parses any of the three forms.
func ParsePub(b []byte) (Pt, bool) {
	switch {
	case len(b) == 33 && (b[0] == 2 || b[0] == 3):
		return LiftX(new(big.Int).SetBytes(b[1:]), b[0] == 3)
	case len(b) == 65 && (b[0] == 4 || b[0] == 6 || b[0] == 7):
		x, y := new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])
		if !OnCurve(x, y) || b[0] != 4 && byte(y.Bit(0)) != b[0]&1 {
			return Pt{}, false
		}
		return Pt{x, y}, true
	}
	return Pt{}, false
}

// Nonce6979 is the RFC 6979 nonce for HMAC-SHA256 over secp256k1.
func Nonce6979(d *big.Int, hash []byte) *big.Int {
	mac := func(k []byte, parts ...[]byte) []byte {
		h := hmac.New(sha256.New, k)
		for _, p := range parts {
			h.Write(p)
		}
		return h.Sum(nil)
	}
	z := HashInt(hash)
	h := B32(new(big.Int).Mod(z, N))
	x := B32(d)
	v := make([]byte, 32)
	for i := range v {
		v[i] = 1
	}
	k := make([]byte, 32)
	k = mac(k, v, []byte{0}, x, h)
	v = mac(k, v)
	k = mac(k, v, []byte{1}, x, h)
	v = mac(k, v)
	for {
		v = mac(k, v)
		t := new(big.Int).SetBytes(v)
		if t.Sign() > 0 && t.Cmp(N) < 0 {
			return t
		}
		k = mac(k, v, []byte{0})
		v = mac(k, v)
	}
}

// HashInt is the leftmost 256 bits of the digest as a number.
func HashInt(hash []byte) *big.Int {
	if len(hash) > 32 {
		hash = hash[:32]
	}
	return new(big.Int).SetBytes(hash)
}

// EcdsaSign is the deterministic low-S signature.
func EcdsaSign(d *big.Int, hash []byte) (r, s *big.Int) {
	k := Nonce6979(d, hash)
	return ecdsaWith(d, k, hash)
}

func ecdsaWith(d, k *big.Int, hash []byte) (r, s *big.Int) {
	r = new(big.Int).Mod(MulG(k).X, N)
	s = new(big.Int).Mul(r, d)
	s.Add(s, HashInt(hash))
	s.Mul(s, new(big.Int).ModInverse(k, N)).Mod(s, N)
	if s.Cmp(new(big.Int).Rsh(N, 1)) > 0 {
		s.Sub(N, s)
	}
	return
}

// EcdsaVerify is the textbook verification.
func EcdsaVerify(q Pt, hash []byte, r, s *big.Int) bool {
	if q.Inf() || r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, N)
	u1 := new(big.Int).Mul(HashInt(hash), w)
	u2 := new(big.Int).Mul(r, w)
	x := MulAdd(u1, u2, q)
	return !x.Inf() && new(big.Int).Mod(x.X, N).Cmp(r) == 0
}

func derInt(v *big.Int) []byte {
	b := v.Bytes()
	if len(b) == 0 || b[0] >= 0x80 {
		b = append([]byte{0}, b...)
	}
	return append([]byte{2, byte(len(b))}, b...)
}

// DER is the strict encoding of two non-negative numbers (total below 128 bytes).
func DER(r, s *big.Int) []byte {
	b := append(derInt(r), derInt(s)...)
	return append([]byte{0x30, byte(len(b))}, b...)
}

// ParseDER accepts exactly the strict encodings of two non-negative numbers with short lengths.
func ParseDER(b []byte) (r, s *big.Int, ok bool) {
	if len(b) < 8 || len(b) > 127 || b[0] != 0x30 || int(b[1]) != len(b)-2 {
		return nil, nil, false
	}
	rest := b[2:]
	next := func() *big.Int {
		if len(rest) < 3 || rest[0] != 2 || rest[1] == 0 || int(rest[1]) > len(rest)-2 {
			return nil
		}
		v := rest[2 : 2+int(rest[1])]
		if v[0] >= 0x80 || len(v) > 1 && v[0] == 0 && v[1] < 0x80 {
			return nil
		}
		rest = rest[2+int(rest[1]):]
		return new(big.Int).SetBytes(v)
	}
	r = next()
	if r == nil {
		return nil, nil, false
	}
	s = next()
	return r, s, s != nil && len(rest) == 0
}

// SchnorrSign follows the bip-schnorr draft (sipa, 2018): 64 bytes.
func SchnorrSign(d *big.Int, msg []byte) []byte {
	h := sha256.Sum256(append(B32(d), msg...))
	k := new(big.Int).SetBytes(h[:])
	k.Mod(k, N)
	r := MulG(k)
	if !IsSquare(r.Y) {
		k.Sub(N, k)
	}
	e := SchnorrE(r.X, MulG(d), msg)
	s := e.Mul(e, d)
	s.Add(s, k).Mod(s, N)
	return append(B32(r.X), B32(s)...)
}

// SchnorrE is the challenge.
func SchnorrE(rx *big.Int, p Pt, msg []byte) *big.Int {
	h := sha256.Sum256(append(append(B32(rx), p.Comp()...), msg...))
	e := new(big.Int).SetBytes(h[:])
	return e.Mod(e, N)
}

// SchnorrVerify follows the draft.
func SchnorrVerify(p Pt, msg, sig []byte) bool {
	if len(sig) != 64 || p.Inf() {
		return false
	}
	r, s := new(big.Int).SetBytes(sig[:32]), new(big.Int).SetBytes(sig[32:])
	if r.Cmp(P) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	e := SchnorrE(r, p, msg)
	q := MulAdd(s, e.Neg(e), p)
	return !q.Inf() && IsSquare(q.Y) && q.X.Cmp(r) == 0
}
