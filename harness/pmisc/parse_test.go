package pmisc

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"
	"unicode"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xvm"

	"verif/kit"
	"verif/ref"
)

// maxParse is far above what any of these inputs takes and far below a hang.
const maxParse = 40 * time.Second

// bounded runs a parser: no panic, no hang, at most fixed+per*size bytes allocated.
func bounded(t *rapid.T, what string, size int, fixed, per uint64, f func()) {
	if len(what) > 3000 {
		what = what[:3000] + fmt.Sprintf("...(%d)", len(what))
	}
	start := time.Now()
	var n uint64
	kit.NoPanic(t, what, func() { n = kit.AllocBytes(f) })
	if d := time.Since(start); d > maxParse {
		t.Fatalf("%s took %v", what, d)
	}
	if limit := fixed + per*uint64(size); n > limit {
		t.Fatalf("%s allocated %d bytes for %d bytes of input (limit %d)", what, n, size, limit)
	}
}

const mib = 1 << 20

// hostile draws bytes near the valid ones, or none of them: how tells which.
func hostile(t *rapid.T, valid []byte) (b []byte, how string) {
	switch rapid.IntRange(0, 9).Draw(t, "how") {
	case 0:
		return kit.Bytes(t, 0, 80, "random"), "random"
	case 1:
		n := rapid.SampledFrom([]int{0, 1, 2, 31, 32, 33, 34, 63, 64, 65, 66, 69, 70, 71, 72, 73, 127, 128, 129, 255, 256, 4096}).Draw(t, "n")
		return kit.Uniform(t, n, "uniform"), "random"
	case 2:
		return append([]byte{}, valid...), "valid"
	case 3:
		return append([]byte{}, valid[:rapid.IntRange(0, len(valid)).Draw(t, "cut")]...), "mutated"
	case 4: // the prefix of a valid one before something else
		n := rapid.IntRange(0, len(valid)).Draw(t, "keep")
		return append(append([]byte{}, valid[:n]...), kit.Uniform(t, len(valid)-n, "rest")...), "mutated"
	}
	return kit.Mutate(t, valid, "mut"), "mutated"
}

// hostileText draws a text near the valid one, or none of it.
func hostileText(t *rapid.T, valid, alphabet string) (string, string) {
	switch rapid.IntRange(0, 12).Draw(t, "how") {
	case 0:
		return rapid.String().Draw(t, "text"), "random"
	case 1:
		return rapid.StringOfN(rapid.SampledFrom([]rune(alphabet)), 0, 130, -1).Draw(t, "letters"), "random"
	case 2:
		return valid, "valid"
	case 3:
		return string(kit.Mutate(t, []byte(valid), "mut")), "mutated"
	case 4:
		return strings.ToUpper(valid), "case"
	case 5:
		return strings.TrimSpace(valid) + rapid.SampledFrom([]string{" ", "\n", "\x00", "1", "\u00a0", "\u0130", "\xff", "ſ"}).Draw(t, "tail"), "mutated"
	case 6:
		return rapid.SampledFrom([]string{" ", "\n", "1", "bc1", "tb1", "m/", "0x", "\ufeff", "'"}).Draw(t, "head") + valid, "mutated"
	case 7:
		return valid[:rapid.IntRange(0, len(valid)).Draw(t, "cut")], "mutated"
	case 8:
		return strings.Repeat(valid, rapid.IntRange(2, 4).Draw(t, "rep")), "mutated"
	}
	r := []rune(valid)
	for i := rapid.IntRange(1, 3).Draw(t, "n"); i > 0 && len(r) > 0; i-- {
		at := rapid.IntRange(0, len(r)-1).Draw(t, "at")
		switch rapid.IntRange(0, 3).Draw(t, "op") {
		case 0:
			r[at] = rapid.SampledFrom([]rune(alphabet)).Draw(t, "put")
		case 1:
			r = append(r[:at], r[at+1:]...)
		case 2:
			r = append(r[:at:at], append([]rune{rapid.SampledFrom([]rune(alphabet)).Draw(t, "add")}, r[at:]...)...)
		case 3:
			if unicode.IsUpper(r[at]) {
				r[at] = unicode.ToLower(r[at])
			} else {
				r[at] = unicode.ToUpper(r[at])
			}
		}
	}
	return string(r), "mutated"
}

const b58letters = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz"
const anyLetters = b58letters + "0OIl qpzry9x8gf2tvdw0s3jn54khce6mua7l/'\"-+_#,.\n\tABCxÿ一ǅ"

func note(c *kit.Case, how string, ok bool, key any) {
	switch {
	case ok:
		c.Class("accepted " + how)
		c.Nontrivial(key)
	default:
		c.Class("refused " + how)
		if how != "random" {
			c.Nontrivial(key)
		}
	}
}

func curvePt(t *rapid.T) ref.Pt {
	if rapid.IntRange(0, 5).Draw(t, "edgey") == 0 {
		return ref.EdgeY(rapid.Uint64().Draw(t, "y"), rapid.OneOf(rapid.IntRange(-1, 24), rapid.SampledFrom([]int{21, 22, 23})).Draw(t, "ysize"))
	}
	return ref.MulG(kit.Scalar(t, "d"))
}

func TestP32(t *testing.T) {
	r := kit.New(t, "P32",
		"limits: 40 s per input, and per kind of text a fixed allowance plus a multiple of the input length in bytes allocated (not only held), both far above what the code needs",
		"transactions and messages as inputs belong to P18 and P28, scripts as bytes to P24")
	secp := secp256k1.SECP256K1()
	r.Run(t, "pubkey", 12000, 20, "byte strings: random, valid keys of all four forms, mutated, cut, half valid; non-trivial: accepted, or made from a valid one", func(t *rapid.T, c *kit.Case) {
		p := curvePt(t)
		valid := rapid.SampledFrom([][]byte{p.Comp(), p.Uncomp(), p.Hybrid(), append([]byte{5}, p.Uncomp()[1:]...), append([]byte{2}, ref.B32(ref.P)...)}).Draw(t, "form")
		b, how := hostile(t, valid)
		c.Sample("%x", b)
		what := fmt.Sprintf("public key %x", b)
		in, intact := kit.Spare(b)
		var k *xcrypto.PubKey
		var err error
		bounded(t, what, len(b), mib, 64, func() { k, err = xcrypto.PubKeyFromBytes(in) })
		if !intact() {
			t.Fatalf("%s: input changed", what)
		}
		note(c, how, err == nil, b)
		if (k == nil) == (err == nil) {
			t.Fatalf("%s: %v and error %v", what, k, err)
		}
		if err != nil {
			return
		}
		kit.NoPanic(t, what, func() {
			for i, s := range [][]byte{k.Serialize(), k.SerializeCompressed(), k.SerializeUncompressed(), k.SerializeHybrid()} {
				k2, err := xcrypto.PubKeyFromBytes(s)
				if err != nil || k2.X.Cmp(k.X) != 0 || k2.Y.Cmp(k.Y) != 0 {
					t.Fatalf("%s: serialised (%d) as %x, read as %v %v", what, i, s, k2, err)
				}
			}
		})
	})
	r.Run(t, "point", 8000, 20, "compressed points in the same ways; non-trivial: accepted, or made from a valid one", func(t *rapid.T, c *kit.Case) {
		b, how := hostile(t, curvePt(t).Comp())
		c.Sample("%x", b)
		what := fmt.Sprintf("point %x", b)
		var x, y *big.Int
		bounded(t, what, len(b), mib, 64, func() { x, y = secp256k1.SecUnmarshal(secp, b) })
		note(c, how, x != nil, b)
		if (x == nil) != (y == nil) {
			t.Fatalf("%s: %v %v", what, x, y)
		}
		if x == nil {
			return
		}
		kit.NoPanic(t, what, func() {
			s := secp256k1.SecMarshal(secp, x, y)
			x2, y2 := secp256k1.SecUnmarshal(secp, s)
			if x2 == nil || x2.Cmp(x) != 0 || y2.Cmp(y) != 0 {
				t.Fatalf("%s: serialised as %x, read as %v %v", what, s, x2, y2)
			}
		})
	})
	r.Run(t, "signature", 20000, 20, "DER and 64-byte signatures, with integers of any sign and length; read into new and used objects; non-trivial: accepted, or made from a valid one", func(t *rapid.T, c *kit.Case) {
		num := func(l string) *big.Int {
			v := new(big.Int).SetBytes(kit.Bytes(t, 0, rapid.SampledFrom([]int{1, 32, 33, 64, 300}).Draw(t, l+".max"), l))
			return v
		}
		rr, ss := num("r"), num("s")
		der := ref.DER(rr, ss)
		if rapid.IntRange(0, 4).Draw(t, "lengths") == 0 { // claimed lengths without the bytes
			der = append([]byte{0x30}, rapid.SampledFrom([]string{"\x80", "\x81\xff", "\x84\x7f\xff\xff\xff", "\x84\xff\xff\xff\xff", "\x88\xff\xff\xff\xff\xff\xff\xff\xff", "\x02\x02\x00", "\x06\x02\x84\x7f\xff\xff\xff"}).Draw(t, "len")...)
			der = append(der, kit.Bytes(t, 0, 12, "body")...)
		}
		ecdsa := rapid.Bool().Draw(t, "ecdsa")
		valid := der
		if !ecdsa {
			valid = append(kit.B32(new(big.Int).Mod(rr, ref.P)), kit.B32(new(big.Int).Mod(ss, ref.N))...)
		}
		b, how := hostile(t, valid)
		c.Sample("ecdsa=%v %x", ecdsa, b)
		what := fmt.Sprintf("signature (ecdsa %v) %x", ecdsa, b)
		in, intact := kit.Spare(b)
		var err error
		var again func() ([]byte, error)
		var eq func(s []byte) bool
		bounded(t, what, len(b), mib, 256, func() {
			if ecdsa {
				sig := xcrypto.NewSignatureEcdsa()
				err = sig.Deserialize(in)
				again = sig.Serialize
				eq = func(s []byte) bool {
					o := xcrypto.NewSignatureEcdsa()
					o.R, o.S = big.NewInt(77), big.NewInt(78) // used before
					return o.Deserialize(s) == nil && o.R.Cmp(sig.R) == 0 && o.S.Cmp(sig.S) == 0
				}
			} else {
				sig := xcrypto.NewSignatureSchnorr()
				err = sig.Deserialize(in)
				again = sig.Serialize
				eq = func(s []byte) bool {
					o := xcrypto.NewSignatureSchnorr()
					o.R, o.S = big.NewInt(77), big.NewInt(78)
					return o.Deserialize(s) == nil && o.R.Cmp(sig.R) == 0 && o.S.Cmp(sig.S) == 0
				}
			}
		})
		if !intact() {
			t.Fatalf("%s: input changed", what)
		}
		note(c, how, err == nil, b)
		if err != nil {
			return
		}
		kit.NoPanic(t, what, func() {
			s, err := again()
			if err != nil || !eq(s) {
				t.Fatalf("%s: serialised as %x (%v), which reads as another value", what, s, err)
			}
		})
	})
	r.Run(t, "base58", 10000, 20, "Base58 and Base58Check texts; non-trivial: accepted, or made from a valid one", func(t *rapid.T, c *kit.Case) {
		data := kit.Bytes(t, 0, 90, "data")
		valid := ref.Base58Enc(data)
		if rapid.Bool().Draw(t, "check") {
			valid = ref.Base58CheckEnc(data, rapid.Byte().Draw(t, "version"))
		}
		s, how := hostileText(t, valid, anyLetters)
		c.Sample("%q", s)
		what := fmt.Sprintf("base58 text %q", s)
		var d, payload []byte
		var version byte
		var err error
		bounded(t, what, len(s), mib, 2000, func() {
			d = xbase.Base58Decode(s)
			payload, version, err = xbase.Base58CheckDecode(s)
		})
		note(c, how, len(d) > 0, s)
		kit.NoPanic(t, what, func() {
			if len(d) > 0 {
				if e := xbase.Base58Encode(d); !bytes.Equal(xbase.Base58Decode(e), d) {
					t.Fatalf("%s: read as %x, written as %q", what, d, e)
				}
			}
			if err == nil {
				c.Class("checked")
				e := xbase.Base58CheckEncode(payload, version)
				p2, v2, err := xbase.Base58CheckDecode(e)
				if err != nil || v2 != version || !bytes.Equal(p2, payload) {
					t.Fatalf("%s: read as %x %d, written as %q, read as %x %d %v", what, payload, version, e, p2, v2, err)
				}
			}
		})
	})
	r.Run(t, "bech32", 15000, 20, "Bech32 and segwit texts, with upper case, odd prefixes and any program; non-trivial: accepted, or made from a valid one", func(t *rapid.T, c *kit.Case) {
		hrp := rapid.SampledFrom([]string{"bc", "tb", "a", "1", "a1b", "~", "!", "split", strings.Repeat("x", 70)}).Draw(t, "hrp")
		var data []byte
		if rapid.Bool().Draw(t, "segwit") {
			data = append([]byte{rapid.Byte().Draw(t, "ver") & 31}, ref.To5(kit.Bytes(t, 0, 42, "prog"))...)
		} else {
			data = kit.Bytes(t, 0, 82, "data")
			for i := range data {
				data[i] &= 31
			}
		}
		valid := ref.Bech32Enc(hrp, data)
		s, how := hostileText(t, valid, anyLetters)
		c.Sample("%q", s)
		what := fmt.Sprintf("bech32 text %q", s)
		var h, wh string
		var d, prog []byte
		var ver byte
		var err, werr error
		bounded(t, what, len(s), mib, 2000, func() {
			h, d, err = xbase.Bech32Decode(s)
			wh, ver, prog, werr = xbase.WitnessDecode(s)
		})
		note(c, how, err == nil, s)
		kit.NoPanic(t, what, func() {
			if err == nil {
				e, err2 := xbase.Bech32Encode(h, append([]byte{}, d...))
				h2, d2, err3 := xbase.Bech32Decode(e)
				if err2 != nil || err3 != nil || h2 != h || !bytes.Equal(d2, d) {
					t.Fatalf("%s: read as %q %x, written as %q (%v), read as %q %x (%v)", what, h, d, e, err2, h2, d2, err3)
				}
			}
			if werr == nil {
				c.Class("segwit")
				e, err2 := xbase.WitnessEncode(wh, ver, prog)
				h2, v2, p2, err3 := xbase.WitnessDecode(e)
				if err2 != nil || err3 != nil || h2 != wh || v2 != ver || !bytes.Equal(p2, prog) {
					t.Fatalf("%s: read as %q %d %x, written as %q (%v), read as %q %d %x (%v)", what, wh, ver, prog, e, err2, h2, v2, p2, err3)
				}
			}
		})
	})
	r.Run(t, "address", 15000, 20, "address texts of both networks, with hashes of any length and any version; non-trivial: accepted, or made from a valid one", func(t *rapid.T, c *kit.Case) {
		n := rapid.SampledFrom([]int{20, 20, 20, 32, 32, 0, 1, 19, 21, 31, 33, 40}).Draw(t, "n")
		hash := kit.BytesN(t, n, "hash")
		var valid string
		if rapid.Bool().Draw(t, "segwit") {
			valid = ref.Bech32Enc(rapid.SampledFrom([]string{"bc", "tb", "bcrt", "ltc"}).Draw(t, "hrp"),
				append([]byte{byte(rapid.SampledFrom([]int{0, 0, 0, 1, 2, 16, 17, 31}).Draw(t, "ver"))}, ref.To5(hash)...))
		} else {
			valid = ref.Base58CheckEnc(hash, rapid.SampledFrom([]byte{0, 5, 0x6f, 0xc4, 1, 0x80, 0xff}).Draw(t, "version"))
		}
		s, how := hostileText(t, valid, anyLetters)
		c.Sample("%q", s)
		for _, net := range []*network.Network{network.MainNet, network.TestNet} {
			what := fmt.Sprintf("address %q", s)
			var a xcore.Address
			var err error
			bounded(t, what, len(s), mib, 2000, func() { a, err = xcore.DecodeAddress(s, net) })
			if err != nil {
				note(c, how, false, s)
				continue
			}
			note(c, how, true, s)
			kit.NoPanic(t, what, func() {
				e := a.ToString(net)
				a2, err := xcore.DecodeAddress(e, net)
				if err != nil || fmt.Sprintf("%T", a2) != fmt.Sprintf("%T", a) || !bytes.Equal(a.Hash160(), a2.Hash160()) || a2.ToString(net) != e {
					t.Fatalf("%s: read as %T %x, written as %q, read as %T (%v)", what, a, a.Hash160(), e, a2, err)
				}
				l, err := a.LockingScript()
				l2, err2 := a2.LockingScript()
				if err != nil || err2 != nil || !bytes.Equal(l, l2) {
					t.Fatalf("%s: locking scripts %x (%v) and %x (%v)", what, l, err, l2, err2)
				}
			})
		}
	})
	r.Run(t, "hdkey", 5000, 20, "extended key texts: any 78-byte contents with a correct checksum, mutated texts; non-trivial: accepted, or made from a valid one", func(t *rapid.T, c *kit.Case) {
		version := rapid.SampledFrom([]string{"0488b21e", "0488ade4", "043587cf", "04358394", "049d7cb2", "00000000", "ffffffff"}).Draw(t, "version")
		data, _ := hex.DecodeString(version)
		data = append(data, rapid.SampledFrom([]byte{0, 1, 2, 254, 255}).Draw(t, "depth"))
		if data[4] == 0 && rapid.Bool().Draw(t, "root") {
			data = append(data, make([]byte, 8)...)
		} else {
			data = append(data, kit.Uniform(t, 8, "place")...)
		}
		data = append(data, kit.Uniform(t, 32, "chain")...)
		if rapid.Bool().Draw(t, "private") {
			data = append(append(data, 0), kit.B32(kit.Scalar(t, "key"))...)
		} else {
			data = append(data, curvePt(t).Comp()...)
		}
		if rapid.IntRange(0, 2).Draw(t, "spoil") == 0 { // wrong contents under a right checksum
			data = kit.Mutate(t, data, "contents")
		}
		valid := ref.Base58Enc(append(append([]byte{}, data...), ref.DSha256(data)[:4]...))
		s, how := hostileText(t, valid, anyLetters)
		c.Sample("%q", s)
		what := fmt.Sprintf("extended key %q", s)
		var k *bip32.HDKey
		var err error
		bounded(t, what, len(s), 2*mib, 2000, func() { k, err = bip32.NewHDKeyFromString(s) })
		note(c, how, err == nil, s)
		if err != nil {
			return
		}
		kit.NoPanic(t, what, func() {
			for _, net := range []*network.Network{network.MainNet, network.TestNet} {
				e := k.ToString(net)
				k2, err := bip32.NewHDKeyFromString(e)
				if err != nil || k2.ToString(net) != e || !bytes.Equal(k2.PublicKey().Serialize(), k.PublicKey().Serialize()) || (k.PrivateKey() == nil) != (k2.PrivateKey() == nil) {
					t.Fatalf("%s: written as %q, read as %+v (%v)", what, e, k2, err)
				}
				if p := k.HDPublicKey().ToString(net); k2.HDPublicKey().ToString(net) != p {
					t.Fatalf("%s: its public key is %q, after rereading %q", what, p, k2.HDPublicKey().ToString(net))
				}
			}
			_, _ = k.Derive(0)
			_, _ = k.Derive(1 << 31)
		})
	})
	r.Run(t, "path", 250, 20, "derivation paths of 0..8 steps (rarely 300) with numbers of any size, marks and junk, on private and public keys; non-trivial: two or more steps", func(t *rapid.T, c *kit.Case) {
		root := bip32.NewHDKey(kit.Uniform(t, 32, "seed"))
		public := rapid.Bool().Draw(t, "public")
		if public {
			root = root.HDPublicKey()
		}
		steps := []string{rapid.SampledFrom([]string{"m", "m", "m", "m", "m", "m", "M", "", "x", "0", "/"}).Draw(t, "root")}
		n := rapid.IntRange(0, 8).Draw(t, "n")
		if rapid.IntRange(0, 120).Draw(t, "deep") == 0 {
			n = rapid.IntRange(250, 300).Draw(t, "depth")
		}
		for i := 0; i < n; i++ {
			s := rapid.SampledFrom([]string{"0", "0", "1", "44", "2147483647", "2147483648", "4294967295", "4294967296", "18446744073709551616", "-1", "+1", "", " ", "1 ", "0x1", "01", "1e3", "1_0", "''", "'", "h", "a", "١", "\x00"}).Draw(t, "step")
			if n > 8 {
				s = "0"
			}
			s += rapid.SampledFrom([]string{"", "", "'", "''", "h", "H"}).Draw(t, "mark")
			if n > 8 {
				s = "0"
			}
			steps = append(steps, s)
		}
		path := strings.Join(steps, "/")
		if rapid.IntRange(0, 8).Draw(t, "junk") == 0 {
			path, _ = hostileText(t, path, "m/0123456789'hH- ")
		}
		if n > 1 {
			c.Nontrivial(path, public)
		}
		c.Sample("%q public=%v", path, public)
		what := fmt.Sprintf("path %q (public %v)", path, public)
		before := root.ToString(network.MainNet)
		var k *bip32.HDKey
		var err error
		bounded(t, what, len(path), 4*mib, 4*mib, func() { k, err = root.DeriveByPath(path) })
		if err != nil {
			c.Class("refused")
			return
		}
		c.Class("accepted")
		kit.NoPanic(t, what, func() {
			e := k.ToString(network.MainNet)
			k2, err := bip32.NewHDKeyFromString(e)
			if err != nil || k2.ToString(network.MainNet) != e {
				t.Fatalf("%s: leads to %q, read as %+v (%v)", what, e, k2, err)
			}
			if k3, err := root.DeriveByPath(path); err != nil || k3.ToString(network.MainNet) != e {
				t.Fatalf("%s: leads elsewhere the second time (%v)", what, err)
			}
			if root.ToString(network.MainNet) != before {
				t.Fatalf("%s: changed the key it started from", what)
			}
		})
	})
	r.Run(t, "mnemonic", 1500, 10, "sentences of all three lists: valid, words changed, dropped or added, other spacing, foreign words, any text; non-trivial: at least 12 words", func(t *rapid.T, c *kit.Case) {
		list := rapid.SampledFrom([][]string{words.English, words.Chinese, words.Japanese}).Draw(t, "list")
		bip39.SetWordList(list)
		defer bip39.SetWordList(words.English)
		e := kit.BytesN(t, rapid.SampledFrom([]int{16, 20, 24, 28, 32}).Draw(t, "size"), "entropy")
		var s, how string
		valid, err := bip39.NewMnemonic(e)
		if err != nil {
			t.Fatalf("no mnemonic for %x: %v", e, err)
		}
		w := strings.Fields(valid)
		switch rapid.IntRange(0, 6).Draw(t, "kind") {
		case 0:
			s, how = valid, "valid"
		case 1:
			s, how = hostileText(t, valid, "abcdefghij 的 あ\u3000")
		case 2:
			w[rapid.IntRange(0, len(w)-1).Draw(t, "at")] = list[rapid.IntRange(0, 2047).Draw(t, "word")]
			s, how = strings.Join(w, " "), "words"
		case 3:
			w = w[:rapid.IntRange(0, len(w)).Draw(t, "cut")]
			s, how = strings.Join(w, " "), "words"
		case 4:
			for i := rapid.IntRange(1, 30).Draw(t, "more"); i > 0; i-- {
				w = append(w, list[rapid.IntRange(0, 2047).Draw(t, "word")])
			}
			s, how = strings.Join(w, " "), "words"
		case 5:
			for i := range w {
				w[i] = list[rapid.SampledFrom([]int{0, 1, 2046, 2047, 1024}).Draw(t, "word")]
			}
			s, how = strings.Join(w, " "), "words"
		case 6:
			s, how = strings.Join(w, rapid.SampledFrom([]string{"  ", "\n", "\u3000", "\u00a0", ",", "", "\u200b"}).Draw(t, "sep")), "spacing"
		}
		if len(strings.Fields(s)) >= 12 {
			c.Nontrivial(s)
		}
		c.Sample("%q", s)
		what := fmt.Sprintf("sentence %q", s)
		var ent, raw, sum, seed []byte
		var err1, err2, err3, err4 error
		var ok bool
		bounded(t, what, len(s), 8*mib, 2000, func() {
			ent, err1 = bip39.EntropyFromMnemonic(s)
			raw, err2 = bip39.MnemonicToByteArray(s, true)
			sum, err3 = bip39.MnemonicToByteArray(s)
			ok = bip39.IsMnemonicValid(s)
			seed, err4 = bip39.NewSeedWithErrorChecking(s, "x")
			_ = bip39.NewSeed(s, "")
		})
		if ok != (err1 == nil) || ok != (err2 == nil) || ok != (err3 == nil) || ok != (err4 == nil) {
			t.Fatalf("%s: %v, errors %v %v %v %v", what, ok, err1, err2, err3, err4)
		}
		if !ok {
			c.Class("refused " + how)
			return
		}
		c.Class("accepted " + how)
		kit.NoPanic(t, what, func() {
			m, err := bip39.NewMnemonic(ent)
			if err != nil {
				t.Fatalf("%s: entropy %x has no mnemonic: %v", what, ent, err)
			}
			e2, err := bip39.EntropyFromMnemonic(m)
			r2, err2 := bip39.MnemonicToByteArray(m, true)
			s2, err3 := bip39.MnemonicToByteArray(m)
			d2, err4 := bip39.NewSeedWithErrorChecking(m, "x")
			if err != nil || err2 != nil || err3 != nil || err4 != nil || !bytes.Equal(e2, ent) || !bytes.Equal(r2, raw) || !bytes.Equal(s2, sum) || !bytes.Equal(d2, seed) {
				t.Fatalf("%s: read as %x %x %x, written as %q, read as %x %x %x (%v %v %v %v)", what, ent, raw, sum, m, e2, r2, s2, err, err2, err3, err4)
			}
		})
	})
	r.Run(t, "scripttext", 10000, 20, "script texts: names, numbers of any size, hex, quotes, junk, other white space; loading it in parts gives the same script; non-trivial: two or more words", func(t *rapid.T, c *kit.Case) {
		word := rapid.OneOf(
			rapid.SampledFrom([]string{"OP_DUP", "OP_0", "OP_16", "OP_1NEGATE", "OP_CHECKSIG", "OP_DATA_75", "OP_PUSHDATA4", "OP_FOO", "op_dup", "0x", "0xg", "0xabc", "0x00", "0X00", "''", "'", "'ab'", "'abc'", "'zz'", "-0", "+5", "007", "1e9", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "99999999999999999999999999", "1_000", "", "\n", "\t", "\r", "\u00a0"}),
			rapid.Map(rapid.Int64(), func(v int64) string { return fmt.Sprint(v) }),
			rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 90), func(b []byte) string { return fmt.Sprintf("0x%x", b) }),
			rapid.Map(rapid.SliceOfN(rapid.Byte(), 0, 90), func(b []byte) string { return fmt.Sprintf("'%x'", b) }),
			rapid.String())
		w := rapid.SliceOfN(word, 0, 10).Draw(t, "words")
		text := strings.Join(w, " ")
		if len(w) > 1 {
			c.Nontrivial(text)
		}
		c.Sample("%q", text)
		what := fmt.Sprintf("script text %q", text)
		var b []byte
		var err error
		bounded(t, what, len(text), mib, 300, func() { b, err = xvm.NewScriptBuilder().Load(text).Script() })
		kit.NoPanic(t, what, func() {
			b2, err2 := xvm.NewScriptBuilder().Load(text).Script()
			if !bytes.Equal(b, b2) || (err == nil) != (err2 == nil) {
				t.Fatalf("%s: loaded as %x (%v), then %x (%v)", what, b, err, b2, err2)
			}
			if err != nil {
				c.Class("refused")
				return
			}
			c.Class("accepted")
			// the bytes, written as a text, load as the same bytes
			b3, err := xvm.NewScriptBuilder().Load(fmt.Sprintf("0x%x", b)).Script()
			if err != nil || !bytes.Equal(b3, b) {
				t.Fatalf("%s: %x written in hex loads as %x (%v)", what, b, b3, err)
			}
			part := xvm.NewScriptBuilder()
			for _, x := range w {
				part.Load(x)
			}
			b4, err := part.Script()
			if err != nil || !bytes.Equal(b4, b) {
				t.Fatalf("%s: %x, but loaded word by word %x (%v)", what, b, b4, err)
			}
		})
	})
	r.Run(t, "identifier", 10000, 20, "identifier texts: 64 hex digits, other lengths, other characters; non-trivial: accepted, or made from a valid one", func(t *rapid.T, c *kit.Case) {
		valid := fmt.Sprintf("%x", kit.BytesN(t, rapid.SampledFrom([]int{32, 32, 32, 0, 1, 31, 33, 64}).Draw(t, "n"), "id"))
		s, how := hostileText(t, valid, "0123456789abcdefABCDEFg x")
		c.Sample("%q", s)
		what := fmt.Sprintf("identifier %q", s)
		var id []byte
		var err error
		bounded(t, what, len(s), mib, 100, func() { id, err = xbase.NewIDFromString(s) })
		note(c, how, err == nil, s)
		if err != nil {
			return
		}
		kit.NoPanic(t, what, func() {
			e := xbase.NewIDToString(id)
			id2, err := xbase.NewIDFromString(e)
			if err != nil || !bytes.Equal(id, id2) {
				t.Fatalf("%s: read as %x, written as %q, read as %x (%v)", what, id, e, id2, err)
			}
			if len(s) == 64 && len(id) == 32 && !strings.EqualFold(e, s) {
				t.Fatalf("%s: read as %x, which is %q", what, id, e)
			}
		})
	})
	r.Run(t, "locking", 10000, 20, "byte strings as locking scripts: the four kinds, mutated; non-trivial: accepted, or made from a valid one", func(t *rapid.T, c *kit.Case) {
		kind := rapid.SampledFrom([]int{ref.PKH, ref.SH, ref.WPKH, ref.WSH}).Draw(t, "kind")
		n := 20
		if kind == ref.WSH {
			n = 32
		}
		b, how := hostile(t, ref.Lock(kind, kit.BytesN(t, n, "hash")))
		c.Sample("%x", b)
		what := fmt.Sprintf("locking script %x", b)
		in, intact := kit.Spare(b)
		var s xcore.Script
		var err error
		bounded(t, what, len(b), mib, 256, func() { s, err = xcore.ParseLockingScript(in) })
		if !intact() {
			t.Fatalf("%s: input changed", what)
		}
		note(c, how, err == nil, b)
		if err != nil {
			return
		}
		kit.NoPanic(t, what, func() {
			l, err := s.GetRawLockingScriptBytes()
			if err != nil || !bytes.Equal(l, b) {
				t.Fatalf("%s: read as %T, written as %x (%v)", what, s, l, err)
			}
			for _, net := range []*network.Network{network.MainNet, network.TestNet} {
				text := s.GetAddress().ToString(net)
				a, err := xcore.DecodeAddress(text, net)
				if err != nil {
					t.Fatalf("%s: its address %q is refused: %v", what, text, err)
				}
				if l, err := a.LockingScript(); err != nil || !bytes.Equal(l, b) {
					t.Fatalf("%s: its address %q leads to %x (%v)", what, text, l, err)
				}
			}
		})
	})
	r.Run(t, "long", 100, 20, "every parser with 5 kB to 60 kB of data or text, repeated, random or zero; non-trivial: all", func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(5000, 60000).Draw(t, "n")
		pat := rapid.SampledFrom([]string{"1", "z", "q", "0", "m/", "/0", "/", "'", "bc1", "abandon ", "OP_DUP ", "0x00", " ", "\x00", "\xff", "一", "9", "-"}).Draw(t, "pattern")
		s := strings.Repeat(pat, n/len(pat)+1)[:n]
		if rapid.Bool().Draw(t, "random") {
			u := kit.Uniform(t, n, "u")
			for i := range u {
				u[i] = anyLetters[int(u[i])%58]
			}
			s = string(u)
		}
		s = rapid.SampledFrom([]string{"", "bc1", "m/0/", "0x", "1", "\x30\x84\x00\x00\xff\xff\x02\x84"}).Draw(t, "head") + s
		c.Nontrivial(s)
		c.Sample("%q...(%d)", s[:30], len(s))
		b := []byte(s)
		root := bip32.NewHDKey(b)
		for name, f := range map[string]func(){
			"PubKeyFromBytes":   func() { _, _ = xcrypto.PubKeyFromBytes(b) },
			"SecUnmarshal":      func() { secp256k1.SecUnmarshal(secp, b) },
			"SignatureEcdsa":    func() { _ = xcrypto.NewSignatureEcdsa().Deserialize(b) },
			"SignatureSchnorr":  func() { _ = xcrypto.NewSignatureSchnorr().Deserialize(b) },
			"Bech32Decode":      func() { _, _, _ = xbase.Bech32Decode(s) },
			"WitnessDecode":     func() { _, _, _, _ = xbase.WitnessDecode(s) },
			"NewIDFromString":   func() { _, _ = xbase.NewIDFromString(s) },
			"Load":              func() { _, _ = xvm.NewScriptBuilder().Load(s).Script() },
			"ParseLocking":      func() { _, _ = xcore.ParseLockingScript(b) },
			"Mnemonic":          func() { _, _ = bip39.EntropyFromMnemonic(s) },
			"MnemonicToBytes":   func() { _, _ = bip39.MnemonicToByteArray(s) },
			"IsMnemonicValid":   func() { _ = bip39.IsMnemonicValid(s) },
			"MnemonicWithCheck": func() { _, _ = bip39.NewSeedWithErrorChecking(s, s) },
		} {
			bounded(t, fmt.Sprintf("%s of %q", name, s), len(s), 2*mib, 400, f)
		}
		// these take time and garbage quadratic in the length
		short := s[:min(len(s), 8000)]
		for name, f := range map[string]func(){
			"Base58Decode":      func() { _ = xbase.Base58Decode(short) },
			"Base58CheckDecode": func() { _, _, _ = xbase.Base58CheckDecode(short) },
			"DecodeAddress":     func() { _, _ = xcore.DecodeAddress(short, network.MainNet) },
			"NewHDKeyFromText":  func() { _, _ = bip32.NewHDKeyFromString(short) },
			"DeriveByPath":      func() { _, _ = root.DeriveByPath(short) },
		} {
			bounded(t, fmt.Sprintf("%s of %q", name, short), len(short), 4*mib, 1<<20, f)
		}
	})
}
