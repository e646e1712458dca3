package pwallet

import (
	"bytes"
	"crypto/hmac"
	"crypto/sha512"
	"encoding/binary"
	"fmt"
	"math/big"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"

	"verif/kit"
	"verif/ref"
)

// xkey is the reference extended key of BIP32.
type xkey struct {
	d     *big.Int // nil: public
	p     ref.Pt
	chain []byte
	depth byte
	fp    []byte
	num   uint32
}

// the published versions: private, public
var vers = map[string][2][]byte{
	"main": {{0x04, 0x88, 0xad, 0xe4}, {0x04, 0x88, 0xb2, 0x1e}},
	"test": {{0x04, 0x35, 0x83, 0x94}, {0x04, 0x35, 0x87, 0xcf}},
}

type netw struct {
	name string
	n    *network.Network
}

var nets = []netw{{"main", network.MainNet}, {"test", network.TestNet}}

func mac512(key, data []byte) []byte {
	h := hmac.New(sha512.New, key)
	h.Write(data)
	return h.Sum(nil)
}

func master(seed []byte) *xkey {
	i := mac512([]byte("Bitcoin seed"), seed)
	d := new(big.Int).SetBytes(i[:32])
	return &xkey{d: d, p: ref.MulG(d), chain: i[32:], fp: make([]byte, 4)}
}

func (k *xkey) hmacFor(num uint32) []byte {
	var data []byte
	if num >= 1<<31 {
		data = append([]byte{0}, ref.B32(k.d)...)
	} else {
		data = k.p.Comp()
	}
	return mac512(k.chain, binary.BigEndian.AppendUint32(data, num))
}

// child derives; nil when BIP32 has no such child.
func (k *xkey) child(num uint32) *xkey {
	if k.depth == 255 || (k.d == nil && num >= 1<<31) {
		return nil
	}
	i := k.hmacFor(num)
	il := new(big.Int).SetBytes(i[:32])
	c := &xkey{chain: i[32:], depth: k.depth + 1, fp: ref.Hash160(k.p.Comp())[:4], num: num}
	if k.d != nil {
		c.d = il.Add(il, k.d)
		c.d.Mod(c.d, ref.N)
		c.p = ref.MulG(c.d)
	} else {
		c.p = ref.MulG(il).Add(k.p)
	}
	return c
}

func (k *xkey) pub() *xkey { c := *k; c.d = nil; return &c }

func (k *xkey) payload(net string) []byte {
	v := vers[net][1]
	data := k.p.Comp()
	if k.d != nil {
		v = vers[net][0]
		data = append([]byte{0}, ref.B32(k.d)...)
	}
	b := append(append([]byte{}, v...), k.depth)
	b = append(b, k.fp...)
	b = binary.BigEndian.AppendUint32(b, k.num)
	b = append(b, k.chain...)
	return append(b, data...)
}

func seal(payload []byte) string {
	return ref.Base58Enc(append(append([]byte{}, payload...), ref.DSha256(payload)[:4]...))
}

func (k *xkey) text(net string) string { return seal(k.payload(net)) }

// parse reads an extended key text; known tells whether its version is one of the published ones.
func parse(s string) (k *xkey, known bool) {
	b, ok := ref.Base58Dec(s)
	if !ok || len(b) != 82 || !bytes.Equal(ref.DSha256(b[:78])[:4], b[78:]) {
		return nil, true
	}
	priv := -1
	for _, v := range vers {
		for i := range v {
			if bytes.Equal(v[i], b[:4]) {
				priv = 1 - i
			}
		}
	}
	k = &xkey{depth: b[4], fp: b[5:9], num: binary.BigEndian.Uint32(b[9:13]), chain: b[13:45]}
	if priv == -1 {
		return nil, false
	}
	if k.depth == 0 && !bytes.Equal(b[5:13], make([]byte, 8)) {
		return nil, true
	}
	if priv == 1 {
		d := new(big.Int).SetBytes(b[46:78])
		if b[45] != 0 || d.Sign() == 0 || d.Cmp(ref.N) >= 0 {
			return nil, true
		}
		k.d, k.p = d, ref.MulG(d)
		return k, true
	}
	if b[45] != 2 && b[45] != 3 {
		return nil, true
	}
	p, ok := ref.ParsePub(b[45:78])
	if !ok {
		return nil, true
	}
	k.p = p
	return k, true
}

// same tells how the real key differs from the reference, "" when it does not.
func same(hd *bip32.HDKey, k *xkey) string {
	if hd == nil {
		return "no key"
	}
	for _, n := range nets {
		if g, w := hd.ToString(n.n), k.text(n.name); g != w {
			return fmt.Sprintf("text on %s is %s, want %s", n.name, g, w)
		}
		if g, w := hd.HDPublicKey().ToString(n.n), k.pub().text(n.name); g != w {
			return fmt.Sprintf("public text on %s is %s, want %s", n.name, g, w)
		}
	}
	custom := *network.TestNet // a network the user describes
	custom.HDPrivateKeyID, custom.HDPublicKeyID = []byte{0x01, 0x9d, 0x9c, 0xfe}, []byte{0x01, 0x9d, 0xa4, 0x62}
	id := custom.HDPublicKeyID
	if k.d != nil {
		id = custom.HDPrivateKeyID
	}
	if g, w := hd.ToString(&custom), seal(append(append([]byte{}, id...), k.payload("main")[4:]...)); g != w {
		return fmt.Sprintf("text with version %x is %s, want %s", id, g, w)
	}
	if g, w := hd.PublicKey().Serialize(), k.p.Comp(); !bytes.Equal(g, w) {
		return fmt.Sprintf("public key %x, want %x", g, w)
	}
	if k.d == nil {
		if hd.PrivateKey() != nil {
			return "a public key has a private key"
		}
		return ""
	}
	if hd.PrivateKey() == nil {
		return "no private key"
	}
	if g, w := hd.PrivateKey().Serialize(), ref.B32(k.d); !bytes.Equal(g, w) {
		return fmt.Sprintf("private key %x, want %x", g, w)
	}
	if hd.HDPublicKey().PrivateKey() != nil {
		return "the public form has a private key"
	}
	return ""
}

func index(t *rapid.T, label string) uint32 {
	switch rapid.IntRange(0, 4).Draw(t, label+".k") {
	case 0:
		return rapid.SampledFrom([]uint32{0, 1, 255, 256, 65535, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1}).Draw(t, label)
	case 1:
		return rapid.Uint32Range(1<<31, 1<<32-1).Draw(t, label)
	}
	return rapid.Uint32Range(0, 1<<31-1).Draw(t, label)
}

// start draws an extended key: a master from a seed, or any private key, chain code, depth and parent.
func start(t *rapid.T) *xkey {
	if rapid.IntRange(0, 2).Draw(t, "start") == 0 {
		return master(kit.Bytes(t, 0, 140, "seed"))
	}
	k := &xkey{d: kit.Scalar(t, "d"), chain: kit.BytesN(t, 32, "chain"), fp: make([]byte, 4)}
	if rapid.IntRange(0, 3).Draw(t, "deep") > 0 {
		k.depth = byte(rapid.IntRange(1, 255).Draw(t, "depth"))
		if rapid.IntRange(0, 3).Draw(t, "deepest") == 0 {
			k.depth = byte(rapid.IntRange(250, 255).Draw(t, "depth"))
		}
		k.fp, k.num = kit.BytesN(t, 4, "fp"), index(t, "num")
	}
	k.p = ref.MulG(k.d)
	return k
}

// special looks for an index whose child key, or its tweak, or chain code begins with a zero byte.
func special(k *xkey, what int, hard bool) (uint32, bool) {
	for i := uint32(0); i < 1500; i++ {
		num := i
		if hard {
			num |= 1 << 31
		}
		m := k.hmacFor(num)
		var b []byte
		switch what {
		case 0:
			v := new(big.Int).SetBytes(m[:32])
			b = ref.B32(v.Add(v, k.d).Mod(v, ref.N))
		case 1:
			b = m[:32]
		case 2:
			b = m[32:]
		}
		if b[0] == 0 {
			return num, true
		}
	}
	return 0, false
}

func load(t *rapid.T, k *xkey) *bip32.HDKey {
	n := rapid.SampledFrom(nets).Draw(t, "net")
	s := k.text(n.name)
	hd, err := bip32.NewHDKeyFromString(s)
	if err != nil {
		t.Fatalf("NewHDKeyFromString(%s): %v", s, err)
	}
	if d := same(hd, k); d != "" {
		t.Fatalf("NewHDKeyFromString(%s): %s", s, d)
	}
	return hd
}

func TestP09(t *testing.T) {
	r := kit.New(t, "P09", "extended keys of unpublished versions (other networks) may be read or refused", "an unmarked path index of 2^31 or more may be refused or read as that hardened index")

	r.Run(t, "histories", 900, 20, "derivation histories from seeds and imported keys, switching to public keys, re-importing texts, with indexes chosen so that keys, tweaks and chain codes begin with zero bytes; non-trivial: at least one child derived", func(t *rapid.T, c *kit.Case) {
		var hd *bip32.HDKey
		var k *xkey
		if rapid.Bool().Draw(t, "fromseed") {
			seed := kit.Bytes(t, 0, 140, "seed")
			if kit.Uniform(t, 1, "longseed")[0] < 10 {
				seed = kit.Uniform(t, rapid.SampledFrom([]int{255, 256, 257, 512, 1000, 5000}).Draw(t, "seedsize"), "seed")
			}
			k = master(seed)
			sp, clean := kit.Spare(seed)
			hd = bip32.NewHDKey(sp)
			if d := same(hd, k); d != "" {
				t.Fatalf("NewHDKey(%x): %s", seed, d)
			}
			if !clean() {
				t.Fatalf("NewHDKey changed its seed")
			}
		} else {
			k = start(t)
			hd = load(t, k)
		}
		desc, steps := "", 0
		type pair struct {
			hd *bip32.HDKey
			k  *xkey
		}
		all := []pair{{hd, k}}
		n := rapid.IntRange(1, 5).Draw(t, "n")
		for i := 0; i < n; i++ {
			switch op := rapid.IntRange(0, 9).Draw(t, "op"); {
			case op < 6:
				num := index(t, "num")
				if k.d != nil && rapid.IntRange(0, 2).Draw(t, "special") == 0 {
					if v, ok := special(k, rapid.IntRange(0, 2).Draw(t, "what"), rapid.Bool().Draw(t, "hard")); ok {
						num = v
						c.Class("zero byte")
					}
				}
				w := k.child(num)
				got, err := hd.Derive(num)
				desc += fmt.Sprintf(" /%d", num)
				if w == nil {
					if err == nil {
						t.Fatalf("%s%s: underivable child derived: %s", all[0].k.text("main"), desc, got.ToString(network.MainNet))
					}
					c.Class("refused")
					break
				}
				if err != nil {
					t.Fatalf("%s%s: %v", all[0].k.text("main"), desc, err)
				}
				if d := same(got, w); d != "" {
					t.Fatalf("%s%s: %s", all[0].k.text("main"), desc, d)
				}
				if k.d != nil && num < 1<<31 {
					gp, err := hd.HDPublicKey().Derive(num)
					if err != nil {
						t.Fatalf("%s%s: public: %v", all[0].k.text("main"), desc, err)
					}
					if d := same(gp, w.pub()); d != "" {
						t.Fatalf("%s%s: public: %s", all[0].k.text("main"), desc, d)
					}
					c.Class("both ways")
				}
				for _, n2 := range []uint32{num ^ 1<<31, num, num + 1} { // siblings, and the same again
					if rapid.IntRange(0, 3).Draw(t, "sibling") > 0 {
						continue
					}
					w2 := k.child(n2)
					g2, err := hd.Derive(n2)
					if (err == nil) != (w2 != nil) {
						t.Fatalf("%s%s, then /%d of the parent: %v", all[0].k.text("main"), desc, n2, err)
					}
					if w2 == nil {
						continue
					}
					if d := same(g2, w2); d != "" {
						t.Fatalf("%s%s, then /%d of the parent: %s", all[0].k.text("main"), desc, n2, d)
					}
					c.Class("sibling")
				}
				steps++
				hd, k = got, w
				all = append(all, pair{hd, k})
			case op < 7:
				if k.d != nil {
					hd, k = hd.HDPublicKey(), k.pub()
					desc += " public"
					all = append(all, pair{hd, k})
				}
			default:
				hd = load(t, k)
				desc += " import"
			}
		}
		for i, p := range all {
			if d := same(p.hd, p.k); d != "" {
				t.Fatalf("%s%s: afterwards key %d: %s", all[0].k.text("main"), desc, i, d)
			}
		}
		if steps > 0 {
			c.Nontrivial(all[0].k.text("main"), desc)
		}
		c.Sample("%s%s -> %s", all[0].k.text("main"), desc, k.text("main"))
	})

	r.Run(t, "paths", 900, 20, "paths of well-formed steps and paths with one malformed, out-of-range or overlong part; non-trivial: a non-empty path", func(t *rapid.T, c *kit.Case) {
		k := start(t)
		hd := load(t, k)
		if rapid.IntRange(0, 4).Draw(t, "public") == 0 {
			hd, k = hd.HDPublicKey(), k.pub()
		}
		path := "m"
		want, vague := k, false
		n := rapid.IntRange(0, 4).Draw(t, "n")
		for i := 0; i < n; i++ {
			num := index(t, "num")
			s := fmt.Sprint(num)
			if num >= 1<<31 && rapid.IntRange(0, 5).Draw(t, "mark") > 0 {
				s = fmt.Sprint(num-1<<31) + "'"
			} else if num >= 1<<31 {
				vague = true
			}
			if rapid.IntRange(0, 15).Draw(t, "zeros") == 0 {
				s = "00" + s
				vague = true
			}
			path += "/" + s
			if want != nil {
				want = want.child(num)
			}
		}
		switch rapid.IntRange(0, 7).Draw(t, "shape") {
		case 0:
			if rapid.Bool().Draw(t, "none") {
				path, want, vague = "", k, false
			}
		case 1, 2: // one malformed part
			bad := rapid.SampledFrom([]string{"", "'", "''", "1''", "'1", " ", "1 ", " 1", "+1", "-1", "0x1", "1h", "1H", "1p", "1.", "1_0", "x", "*", "m", "1'2", "４", "4294967296", "4294967296'", "2147483648'", "4294967295'", "18446744073709551616", "99999999999999999999999'", "-0", "1e1", "\x00", "1\n"}).Draw(t, "bad")
			parts := strings.Split(path, "/")
			at := rapid.IntRange(1, len(parts)).Draw(t, "at")
			parts = append(parts[:at:at], append([]string{bad}, parts[at:]...)...)
			path, want, vague = strings.Join(parts, "/"), nil, false
			c.Class("malformed")
		case 3: // malformed start
			path = rapid.SampledFrom([]string{"M", "/", "", "m ", " m", "mm", "n", "0", "m'", "m0", "xpub"}).Draw(t, "root") + "/" + strings.TrimPrefix(strings.TrimPrefix(path, "m"), "/")
			want, vague = nil, false
			c.Class("malformed")
		}
		var got *bip32.HDKey
		var err error
		kit.NoPanic(t, fmt.Sprintf("DeriveByPath(%q) of %s", path, k.text("main")), func() { got, err = hd.DeriveByPath(path) })
		switch {
		case want == nil:
			if err == nil {
				t.Fatalf("DeriveByPath(%q) of %s gave %s, no error", path, k.text("main"), got.ToString(network.MainNet))
			}
			c.Class("refused")
		case err != nil && vague:
			c.Class("vague refused")
		case err != nil:
			t.Fatalf("DeriveByPath(%q) of %s: %v", path, k.text("main"), err)
		default:
			if d := same(got, want); d != "" {
				t.Fatalf("DeriveByPath(%q) of %s: %s", path, k.text("main"), d)
			}
		}
		if want != nil && err == nil && !vague && path != "" && path != "m" && rapid.Bool().Draw(t, "again") { // a near path from the same key
			parts := strings.Split(path, "/")
			at := rapid.IntRange(1, len(parts)-1).Draw(t, "near")
			if p, hard := strings.CutSuffix(parts[at], "'"); hard {
				parts[at] = p
			} else {
				parts[at] += "'"
			}
			near := k
			for _, p := range parts[1:] {
				p, hard := strings.CutSuffix(p, "'")
				v, err := strconv.ParseUint(p, 10, 31)
				if err != nil {
					t.Fatalf("step %q: %v", p, err)
				}
				if hard {
					v += 1 << 31
				}
				if near != nil {
					near = near.child(uint32(v))
				}
			}
			p2 := strings.Join(parts, "/")
			g2, err := hd.DeriveByPath(p2)
			if (err == nil) != (near != nil) {
				t.Fatalf("DeriveByPath(%q) of %s, after %q: %v", p2, k.text("main"), path, err)
			}
			if near != nil {
				if d := same(g2, near); d != "" {
					t.Fatalf("DeriveByPath(%q) of %s, after %q: %s", p2, k.text("main"), path, d)
				}
				c.Class("near path")
			}
		}
		if d := same(hd, k); d != "" {
			t.Fatalf("after DeriveByPath(%q): %s", path, d)
		}
		if path != "" {
			c.Nontrivial(k.text("main"), path)
		}
		c.Sample("%q of %s: refused=%v", path, k.text("main"), want == nil)
	})

	r.Run(t, "texts", 3000, 40, "extended-key texts with fields altered and resealed (version, depth, parent, key out of range, off the curve, wrong kind), truncated, extended, or with characters changed; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		k := start(t)
		if rapid.Bool().Draw(t, "public") {
			k = k.pub()
		}
		net := rapid.SampledFrom(nets).Draw(t, "net").name
		b := k.payload(net)
		var s string
		reseal := true
		kind := rapid.IntRange(0, 9).Draw(t, "kind")
		switch kind {
		case 0: // another published version
			v := vers[rapid.SampledFrom(nets).Draw(t, "net2").name]
			copy(b, v[rapid.IntRange(0, 1).Draw(t, "ver")])
		case 1: // another version
			b[rapid.IntRange(0, 3).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		case 2: // master with a parent
			b[4] = 0
			b[5+rapid.IntRange(0, 7).Draw(t, "at")] ^= byte(rapid.IntRange(0, 255).Draw(t, "x"))
		case 3: // key data prefix
			b[45] = rapid.SampledFrom([]byte{0, 1, 2, 3, 4, 5, 6, 7, 0x82, 255}).Draw(t, "prefix")
		case 4: // scalar or coordinate at the borders
			v := rapid.SampledFrom([]*big.Int{big.NewInt(0), big.NewInt(1), ref.N, new(big.Int).Sub(ref.N, big.NewInt(1)), new(big.Int).Add(ref.N, big.NewInt(1)), ref.P, new(big.Int).Sub(ref.P, big.NewInt(1)), new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))}).Draw(t, "v")
			copy(b[46:], ref.B32(v))
			if k.d == nil && rapid.Bool().Draw(t, "near") {
				v := new(big.Int).Add(ref.P, big.NewInt(int64(rapid.IntRange(0, 8).Draw(t, "off"))))
				copy(b[46:], ref.B32(v))
			}
		case 5: // random key data
			copy(b[46:], kit.Uniform(t, 32, "key"))
		case 6: // length
			if rapid.Bool().Draw(t, "long") {
				if kit.Uniform(t, 1, "much")[0] < 128 {
					b = append(b, make([]byte, rapid.SampledFrom([]int{1, 64, 78, 128, 256, 512}).Draw(t, "surplus"))...)
				} else {
					b = append(b, kit.Bytes(t, 1, 34, "more")...)
				}
			} else {
				b = b[:rapid.IntRange(0, 77).Draw(t, "len")]
			}
		case 7: // checksum
			reseal = false
			raw := append(b, ref.DSha256(b)[:4]...)
			raw[rapid.IntRange(0, 81).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			s = ref.Base58Enc(raw)
		case 8: // characters
			reseal = false
			s = string(kit.Mutate(t, []byte(seal(b)), "chars"))
		}
		if reseal {
			s = seal(b)
		}
		want, known := parse(s)
		var hd *bip32.HDKey
		var err error
		kit.NoPanic(t, fmt.Sprintf("NewHDKeyFromString(%q)", s), func() { hd, err = bip32.NewHDKeyFromString(s) })
		switch {
		case !known:
			c.Class("unpublished version")
		case want == nil:
			if err == nil {
				t.Fatalf("NewHDKeyFromString(%q) (kind %d, from %s) accepted as %s", s, kind, k.text(net), hd.ToString(network.MainNet))
			}
			c.Class("refused")
		default:
			if err != nil {
				t.Fatalf("NewHDKeyFromString(%q): %v", s, err)
			}
			if d := same(hd, want); d != "" {
				t.Fatalf("NewHDKeyFromString(%q): %s", s, d)
			}
			c.Class("accepted")
		}
		c.Nontrivial(s)
		c.Sample("kind %d %q accepted=%v", kind, s, want != nil)
	})

	r.Run(t, "chain", 2, 10, "one derivation from depth 0 to the limit of 255 and beyond; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		k := master(kit.Bytes(t, 16, 64, "seed"))
		hd := bip32.NewHDKey(nil)
		hd = load(t, k)
		if rapid.Bool().Draw(t, "public") {
			hd, k = hd.HDPublicKey(), k.pub()
		}
		path, top := "m", hd
		for i := 0; i < 255; i++ {
			num := uint32(i % 3)
			w := k.child(num)
			got, err := hd.Derive(num)
			if err != nil {
				t.Fatalf("depth %d: %v", i+1, err)
			}
			if g, w := got.ToString(network.TestNet), w.text("test"); g != w {
				t.Fatalf("depth %d: %s, want %s", i+1, g, w)
			}
			hd, k = got, w
			path += fmt.Sprintf("/%d", num)
		}
		if got, err := top.DeriveByPath(path); err != nil || got.ToString(network.TestNet) != k.text("test") {
			t.Fatalf("path of 255 steps: %v %v, want %s", got, err, k.text("test"))
		}
		if got, err := top.DeriveByPath(path + "/1"); err == nil {
			t.Fatalf("path of 256 steps: %s", got.ToString(network.TestNet))
		}
		if got, err := hd.Derive(index(t, "last")); err == nil {
			t.Fatalf("derived below depth 255: %s", got.ToString(network.TestNet))
		}
		c.Nontrivial(k.text("main"))
		c.Sample("to %s", k.text("main"))
	})
}
