package ref

import (
	"crypto/sha256"
	"encoding/hex"
	"math/big"
	"testing"
)

func TestSecp(t *testing.T) {
	// affine and projective agree; order; known vectors
	acc := Pt{}
	for i := int64(0); i < 200; i++ {
		if !acc.Eq(MulG(big.NewInt(i))) {
			t.Fatal(i)
		}
		if !acc.Inf() && !Mul(big.NewInt(7), acc).Eq(MulG(big.NewInt(7*i))) {
			t.Fatal(i)
		}
		acc = acc.Add(G)
	}
	if !MulG(N).Inf() || !Mul(N, MulG(big.NewInt(5))).Inf() {
		t.Fatal("order")
	}
	q := Pt{new(big.Int).Set(Gx), new(big.Int).Set(Gy)} // avoids the table
	k := hexInt("AA5E28D6A97A2479A65527F7290311A3624D4CC0FA1578598EE3C2613BF99522")
	if !Mul(k, q).Eq(MulG(k)) || MulG(k).X.Cmp(hexInt("34F9460F0E4F08393D192B3C5133A6BA099AA0AD9FD54EBCCFACDFA239FF49C6")) != 0 {
		t.Fatal("mul")
	}
	edge := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(pLow), new(big.Int).Sub(P, big.NewInt(1)), new(big.Int).Sub(P, big.NewInt(2)),
		new(big.Int).Sub(P, big.NewInt(pLow)), new(big.Int).Lsh(big.NewInt(1), 255), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 192), big.NewInt(1))}
	seed := sha256.Sum256(nil)
	for i := 0; i < 3000; i++ {
		edge = append(edge[:8], new(big.Int).Mod(new(big.Int).SetBytes(seed[:]), P))
		seed = sha256.Sum256(seed[:])
		for _, a := range edge {
			for _, b := range edge {
				x, y := feOf(a), feOf(b)
				mod := func(v *big.Int) *big.Int { return v.Mod(v, P) }
				if m(x, y).big().Cmp(mod(new(big.Int).Mul(a, b))) != 0 || ad(x, y).big().Cmp(mod(new(big.Int).Add(a, b))) != 0 || sb(x, y).big().Cmp(mod(new(big.Int).Sub(a, b))) != 0 {
					t.Fatal("field", a, b)
				}
			}
		}
	}
	// RFC6979 secp256k1 vector (well known: key 1, "Satoshi Nakamoto")
	h := sha256.Sum256([]byte("Satoshi Nakamoto"))
	if Nonce6979(big.NewInt(1), h[:]).Cmp(hexInt("8F8A276C19F4149656B280621E358CCE24F5F52542772691EE69063B74F15D15")) != 0 {
		t.Fatal("nonce")
	}
	r, s := EcdsaSign(big.NewInt(1), h[:])
	if hex.EncodeToString(B32(r)) != "934b1ea10a4b3c1757e2b0c017d0b6143ce3c9a7e6a4a49860d7a6ab210ee3d8" ||
		hex.EncodeToString(B32(s)) != "2442ce9d2b916064108014783e923ec36b49743e2ffa1c4496f01a512aafd9e5" {
		t.Fatal("sig")
	}
	if !EcdsaVerify(G, h[:], r, s) {
		t.Fatal("verify")
	}
	// bip-schnorr draft vectors 1, 2
	if hex.EncodeToString(SchnorrSign(big.NewInt(1), make([]byte, 32))) != "787a848e71043d280c50470e8e1532b2dd5d20ee912a45dbdd2bd1dfbf187ef67031a98831859dc34dffeedda86831842ccd0079e1f92af177f7f22cc1dced05" {
		t.Fatal("schnorr")
	}
	d := hexInt("B7E151628AED2A6ABF7158809CF4F3C762E7160F38B4DA56A784D9045190CFEF")
	msg, _ := hex.DecodeString("243F6A8885A308D313198A2E03707344A4093822299F31D0082EFA98EC4E6C89")
	sig := SchnorrSign(d, msg)
	if hex.EncodeToString(sig) != "2a298dacae57395a15d0795ddbfd1dcb564da82b0f269bc70a74f8220429ba1d1e51a22ccec35599b8f266912281f8365ffc2d035a230434a1a64dc59f7013fd" || !SchnorrVerify(MulG(d), msg, sig) {
		t.Fatal("schnorr2")
	}
}

func BenchmarkMul(b *testing.B) {
	q := MulG(big.NewInt(12345))
	k := new(big.Int).Sub(N, big.NewInt(1234567))
	for i := 0; i < b.N; i++ {
		Mul(k, q)
	}
}
func BenchmarkMulG(b *testing.B) {
	k := new(big.Int).Sub(N, big.NewInt(1234567))
	for i := 0; i < b.N; i++ {
		MulG(k)
	}
}

func TestLiftY(t *testing.T) {
	n := 0
	for i := int64(0); i < 60; i++ {
		for w := 0; w < 3; w++ {
			if p, ok := LiftY(big.NewInt(i), w); ok {
				n++
				if !OnCurve(p.X, p.Y) || p.Y.Int64() != i {
					t.Fatal(i, w)
				}
			}
		}
	}
	if n < 30 {
		t.Fatal(n)
	}
}
