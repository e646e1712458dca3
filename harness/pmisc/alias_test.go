package pmisc

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/hex"
	"fmt"
	"hash"
	"math/big"
	"reflect"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xbase"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"
	"github.com/keyfuse/tokucore/xcrypto/pbkdf2"
	"github.com/keyfuse/tokucore/xcrypto/ripemd160"
	"github.com/keyfuse/tokucore/xcrypto/schnorr"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xprotocol"
	"github.com/keyfuse/tokucore/xvm"

	"verif/kit"
	"verif/ref"
)

// world is what a caller holds: storage behind the slices passed, numbers, keys and values returned earlier.
type world struct {
	t      *rapid.T
	mu     sync.Mutex // vals, when operations run at the same time
	blocks []*storage
	vals   []*val
	log    []string
}

type storage struct{ full, was []byte }

// val is a value the caller holds, and how it was when it came into being.
type val struct {
	name string
	show func() string
	was  string
}

// bytes puts b into storage shared with other arguments or of its own, with room around it.
func (w *world) bytes(b []byte) []byte {
	if len(b) > 0 {
		for _, k := range w.blocks { // equal bytes somewhere else: pass the same storage
			if i := bytes.Index(k.full, b); i >= 0 && rapid.Bool().Draw(w.t, "shared") {
				return k.full[i : i+len(b)]
			}
		}
	}
	at, room := rapid.IntRange(0, 3).Draw(w.t, "before"), rapid.SampledFrom([]int{0, 1, 4, 5, 33, 80}).Draw(w.t, "room")
	k := &storage{full: make([]byte, at+len(b)+room)}
	for i := range k.full {
		k.full[i] = 0xA5
	}
	copy(k.full[at:], b)
	k.was = append([]byte{}, k.full...)
	w.blocks = append(w.blocks, k)
	return k.full[at : at+len(b)]
}

// some draws n bytes: a window into storage already passed, or new.
func (w *world) some(n int) []byte {
	if len(w.blocks) > 0 && rapid.Bool().Draw(w.t, "window") {
		k := w.blocks[rapid.IntRange(0, len(w.blocks)-1).Draw(w.t, "block")]
		if len(k.full) >= n {
			i := rapid.IntRange(0, len(k.full)-n).Draw(w.t, "offset")
			return k.full[i : i+n]
		}
	}
	return w.bytes(kit.BytesN(w.t, n, "bytes"))
}

func (w *world) upto(lo, hi int) []byte { return w.some(rapid.IntRange(lo, hi).Draw(w.t, "len")) }

// list copies items into a slice with room behind it and watches the slice itself.
func (w *world) list(items ...[]byte) [][]byte {
	full := make([][]byte, len(items), len(items)+3)
	copy(full, items)
	for i := len(items); i < cap(full); i++ {
		full[:cap(full)][i] = []byte("room")
	}
	all := full[:cap(full)]
	w.hold("list of slices", func() string { return show(all) })
	return full
}

func (w *world) hold(name string, f func() string) {
	v := &val{name, f, f()}
	w.mu.Lock()
	defer w.mu.Unlock()
	w.vals = append(w.vals, v)
}

func (w *world) num(v *big.Int) *big.Int {
	w.hold("number argument", func() string { return v.String() })
	return v
}

func (w *world) prv() *xcrypto.PrvKey {
	k := xcrypto.PrvKeyFromBytes(w.bytes(kit.B32(kit.Scalar(w.t, "key"))))
	w.hold("private key", func() string { return show(k) })
	return k
}

func (w *world) pub() *xcrypto.PubKey {
	p := ref.MulG(kit.Scalar(w.t, "pubkey"))
	k := &xcrypto.PubKey{Curve: secp256k1.SECP256K1(), X: p.X, Y: p.Y}
	w.hold("public key", func() string { return show(k) })
	return k
}

func (w *world) point() (*big.Int, *big.Int) {
	p := ref.MulG(kit.Scalar(w.t, "point"))
	return w.num(new(big.Int).Set(p.X)), w.num(new(big.Int).Set(p.Y))
}

// verify finds what has changed.
func (w *world) verify() string {
	for i, k := range w.blocks {
		if !bytes.Equal(k.full, k.was) {
			return fmt.Sprintf("storage %d passed earlier changed from %x to %x", i, k.was, k.full)
		}
	}
	for _, v := range w.vals {
		if now := v.show(); now != v.was {
			return fmt.Sprintf("%s changed from %s to %s", v.name, v.was, now)
		}
	}
	return ""
}

// show writes out a value through what a caller can see of it.
func show(v any) string {
	switch x := v.(type) {
	case nil:
		return "nil"
	case error:
		return "error"
	case []byte:
		return fmt.Sprintf("%x", x)
	case [][]byte:
		s := fmt.Sprintf("[%d", len(x))
		for _, b := range x {
			s += fmt.Sprintf(" %x", b)
		}
		return s + "]"
	case *big.Int:
		return fmt.Sprintf("%v", x)
	case *xcrypto.PrvKey:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("prv %v %v %v", x.D, x.X, x.Y)
	case *xcrypto.PubKey:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("pub %v %v", x.X, x.Y)
	case *secp256k1.Scalar:
		if x == nil {
			return "nil"
		}
		return fmt.Sprintf("scalar %v %v", x.X, x.Y)
	case *paillier.PubKey:
		return fmt.Sprintf("paillier %v %v %v", x.G, x.N, x.NN)
	case *xcrypto.SignatureEcdsa:
		return fmt.Sprintf("sig %v %v", x.R, x.S)
	case *xcrypto.SignatureSchnorr:
		return fmt.Sprintf("sig %v %v", x.R, x.S)
	case *bip32.HDKey:
		if x == nil {
			return "nil"
		}
		return x.ToString(network.MainNet)
	case []xcrypto.Node:
		s := "path"
		for _, n := range x {
			s += fmt.Sprintf(" %x %x %s", n.Hash, n.Parent, n.Position)
		}
		return s
	case []xvm.Instruction:
		s := "instructions"
		for i := range x {
			s += fmt.Sprintf(" %02x %x", x[i].OpCode(), x[i].Data())
		}
		return s
	case []xvm.Trace:
		return fmt.Sprintf("%+v", x)
	case xcore.Address:
		l, err := x.LockingScript()
		return fmt.Sprintf("%T %s %s %x %x %v", x, x.ToString(network.MainNet), x.ToString(network.TestNet), x.Hash160(), l, err)
	case *xcore.Transaction:
		return txShow(x)
	case string, bool, byte, int, int64, uint64, uint32, xvm.ScriptNum:
		return fmt.Sprintf("%v", x)
	}
	return fmt.Sprintf("%+v", v)
}

func txShow(tx *xcore.Transaction) string {
	return fmt.Sprintf("%x %x %s %s %d %d %d %d %d %d", tx.Serialize(), tx.SerializeNoWitness(), tx.ID(), tx.WitnessID(), tx.BaseSize(), tx.WitnessSize(), tx.Size(), tx.Vsize(), tx.Weight(), tx.Fees())
}

// op makes arguments and gives a function calling the library with them. A query gives the same results again.
type op struct {
	name string
	make func(w *world) (run func() []any, query bool)
}

func q(f func() []any) (func() []any, bool) { return f, true }

// call runs one operation and looks at everything the caller holds.
func (w *world) call(name string, run func() []any, query bool) []any {
	t := w.t
	w.log = append(w.log, name)
	// the arguments were made by test code: nothing may have changed while making them
	if s := w.verify(); s != "" {
		t.Fatalf("after %v: making arguments: %s", w.log, s)
	}
	var out []any
	kit.NoPanic(t, name, func() { out = run() })
	if s := w.verify(); s != "" {
		t.Fatalf("after %v: %s", w.log, s)
	}
	for i, v := range out {
		v := v
		w.hold(fmt.Sprintf("result %d of %s", i, name), func() string { return show(v) })
	}
	if query {
		var again []any
		kit.NoPanic(t, name, func() { again = run() })
		for i := range out {
			if a, b := show(out[i]), show(again[i]); a != b {
				t.Fatalf("after %v: repeated, result %d is %s instead of %s", w.log, i, b, a)
			}
		}
		if s := w.verify(); s != "" {
			t.Fatalf("after %v, repeated: %s", w.log, s)
		}
	}
	return out
}

func machine(ops []op, lo, hi int) func(t *rapid.T, c *kit.Case) {
	return func(t *rapid.T, c *kit.Case) {
		w := &world{t: t}
		n := rapid.IntRange(lo, hi).Draw(t, "ops")
		for i := 0; i < n; i++ {
			o := ops[rapid.IntRange(0, len(ops)-1).Draw(t, "op")]
			c.Class(o.name)
			run, query := o.make(w)
			w.call(o.name, run, query)
		}
		c.Sample("%v", w.log)
		c.Nontrivial(w.log, len(w.blocks), len(w.vals), w.summary())
	}
}

func (w *world) summary() string {
	s := ""
	for _, v := range w.vals {
		s += v.was
	}
	return s
}

var nets = []*network.Network{network.MainNet, network.TestNet}

func (w *world) net() *network.Network { return rapid.SampledFrom(nets).Draw(w.t, "net") }

func encodeOps() []op {
	return []op{
		{"Base58", func(w *world) (func() []any, bool) {
			b := w.upto(0, 60)
			return q(func() []any {
				s := xbase.Base58Encode(b)
				return []any{s, xbase.Base58Decode(s)}
			})
		}},
		{"Base58Check", func(w *world) (func() []any, bool) {
			b := w.upto(0, 60)
			return q(func() []any {
				s := xbase.Base58CheckEncode(b, 5)
				d, v, err := xbase.Base58CheckDecode(s)
				return []any{s, d, v, err}
			})
		}},
		{"Bech32", func(w *world) (func() []any, bool) {
			b := kit.Bytes(w.t, 0, 60, "data5")
			for i := range b {
				b[i] &= 31
			}
			b = w.bytes(b)
			return q(func() []any {
				s, err := xbase.Bech32Encode("bc", b)
				h, d, err2 := xbase.Bech32Decode(s)
				return []any{s, err, h, d, err2}
			})
		}},
		{"Witness", func(w *world) (func() []any, bool) {
			b := w.some(rapid.SampledFrom([]int{20, 32}).Draw(w.t, "n"))
			return q(func() []any {
				s, err := xbase.WitnessEncode("tb", 0, b)
				h, v, p, err2 := xbase.WitnessDecode(s)
				return []any{s, err, h, v, p, err2}
			})
		}},
		{"ID", func(w *world) (func() []any, bool) {
			b := w.some(rapid.SampledFrom([]int{32, 32, 0, 7}).Draw(w.t, "n"))
			return q(func() []any {
				s := xbase.NewIDToString(b)
				d, err := xbase.NewIDFromString(s)
				return []any{s, d, err}
			})
		}},
		{"BufferReader", func(w *world) (func() []any, bool) {
			b := w.upto(0, 60)
			n := rapid.IntRange(0, 20).Draw(w.t, "n")
			more := w.upto(0, 9)
			after := rapid.IntRange(0, 2).Draw(w.t, "after")
			return q(func() []any {
				r := xbase.NewBufferReader(b)
				x1, e1 := r.ReadBytes(n)
				x2, e2 := r.ReadVarBytes()
				x3 := r.Remaining()
				x4, e4 := r.ReadVarString()
				x5, e5 := r.ReadU32()
				pos := r.Seek()
				switch after { // a reader is a buffer: it can be written to
				case 1:
					r.WriteBytes(more)
					r.WriteU64(1)
				case 2:
					r.Reset()
					r.WriteU8(1)
					r.WriteVarBytes(more)
				}
				return []any{x1, e1, x2, e2, x3, x4, e4, x5, e5, pos, r.Bytes()}
			})
		}},
		{"BufferWriter", func(w *world) (func() []any, bool) {
			a, b, c := w.upto(0, 40), w.upto(0, 300), w.upto(0, 9)
			first := rapid.IntRange(0, 2).Draw(w.t, "first")
			return q(func() []any {
				r := xbase.NewBuffer()
				switch first {
				case 0:
					r.WriteU8(3)
				case 1:
					r.WriteBytes(b)
				}
				r.WriteBytes(a)
				one := r.Bytes()
				was := show(one)
				r.WriteVarBytes(b)
				r.WriteVarString(string(c))
				two := r.Bytes()
				was2 := show(two)
				r.Reset()
				if first == 1 {
					r.WriteBytes(b)
				}
				r.WriteVarBytes(c)
				r.WriteU64(1 << 60)
				if show(one) != was || show(two) != was2 {
					w.t.Fatalf("bytes taken from a buffer changed from %s, %s to %x, %x when it was used again", was, was2, one, two)
				}
				return []any{one, two, r.Bytes()}
			})
		}},
		{"Hashes", func(w *world) (func() []any, bool) {
			b := w.upto(0, 100)
			return q(func() []any {
				return []any{xcrypto.Sha256(b), xcrypto.DoubleSha256(b), xcrypto.Hash160(b), xcrypto.Ripemd160(b), xcrypto.BytesToBigInt(b)}
			})
		}},
		{"Ripemd160", func(w *world) (func() []any, bool) {
			a, b := w.upto(0, 100), w.upto(0, 100)
			return q(func() []any {
				h := ripemd160.New()
				_, _ = h.Write(a)
				s1 := h.Sum(nil)
				_, _ = h.Write(b)
				s2 := h.Sum(nil)
				s3 := h.Sum(s1[:len(s1):len(s1)])
				h.Reset()
				return []any{s1, s2, s3, h.Sum(nil)}
			})
		}},
		{"Pbkdf2", func(w *world) (func() []any, bool) {
			p, s := w.upto(0, 80), w.upto(0, 80)
			n, l := rapid.IntRange(1, 3).Draw(w.t, "iter"), rapid.IntRange(1, 70).Draw(w.t, "keylen")
			h := rapid.SampledFrom([]func() hash.Hash{sha1.New, sha256.New, sha512.New, ripemd160.New}).Draw(w.t, "hash")
			return q(func() []any { return []any{pbkdf2.Key(p, s, n, l, h)} })
		}},
		{"Address", func(w *world) (func() []any, bool) {
			n := 20
			kind := rapid.IntRange(0, 3).Draw(w.t, "kind")
			if kind == 3 {
				n = 32
			}
			b := w.some(n)
			a := []func([]byte) xcore.Address{xcore.NewPayToPubKeyHashAddress, xcore.NewPayToScriptHashAddress, xcore.NewPayToWitnessV0PubKeyHashAddress, xcore.NewPayToWitnessV0ScriptHashAddress}[kind](b)
			net := w.net()
			return q(func() []any {
				s := a.ToString(net)
				d, err := xcore.DecodeAddress(s, net)
				l, err2 := a.LockingScript()
				return []any{a, s, d, err, l, err2, a.Hash160()}
			})
		}},
		{"Merkle", func(w *world) (func() []any, bool) {
			var leaves [][]byte
			for i := rapid.IntRange(0, 9).Draw(w.t, "leaves"); i > 0; i-- {
				leaves = append(leaves, w.some(32))
			}
			in := w.list(leaves...)
			m := xcrypto.NewMerkle(in)
			leaf := w.some(32)
			if len(in) > 0 && rapid.Bool().Draw(w.t, "member") {
				leaf = in[rapid.IntRange(0, len(in)-1).Draw(w.t, "at")]
			}
			return q(func() []any {
				root, path := m.Root(), m.Proofs(leaf)
				ok := m.Verify(leaf, root, path)
				return []any{root, path, ok, m.Root(), xcrypto.NewMerkle(in).Root()}
			})
		}},
		{"Mnemonic", func(w *world) (func() []any, bool) {
			e := w.some(rapid.SampledFrom([]int{16, 20, 24, 28, 32, 17}).Draw(w.t, "n"))
			return q(func() []any {
				m, err := bip39.NewMnemonic(e)
				x, err2 := bip39.EntropyFromMnemonic(m)
				y, err3 := bip39.MnemonicToByteArray(m)
				z, err4 := bip39.MnemonicToByteArray(m, true)
				return []any{m, err, x, err2, y, err3, z, err4, bip39.IsMnemonicValid(m)}
			})
		}},
		{"HDKey", func(w *world) (func() []any, bool) {
			seed := w.upto(16, 64)
			k := bip32.NewHDKey(seed)
			i := rapid.Uint32().Draw(w.t, "child")
			path := fmt.Sprintf("m/%d/%d'", i>>1, i>>3)
			return q(func() []any {
				c, err := k.Derive(i)
				p, err2 := k.DeriveByPath(path)
				pub := k.HDPublicKey()
				pc, err3 := pub.Derive(i &^ (1 << 31))
				s := c.ToString(network.TestNet)
				r, err4 := bip32.NewHDKeyFromString(s)
				return []any{k, c, err, p, err2, pub, pc, err3, s, r, err4, k.PublicKey(), k.PrivateKey(), k.PublicKey().Serialize()}
			})
		}},
		{"Message", func(w *world) (func() []any, bool) {
			payload := w.upto(0, 120)
			kind := rapid.IntRange(0, 6).Draw(w.t, "message")
			return q(func() []any {
				m := []func() xprotocol.Message{
					func() xprotocol.Message { return &xprotocol.MsgPing{} }, func() xprotocol.Message { return &xprotocol.MsgInv{} },
					func() xprotocol.Message { return &xprotocol.MsgGetData{} }, func() xprotocol.Message { return &xprotocol.MsgHeaders{} },
					func() xprotocol.Message { return &xprotocol.MsgGetHeaders{} }, func() xprotocol.Message { return &xprotocol.MsgVersion{} },
					func() xprotocol.Message { return &xprotocol.MsgReject{} }}[kind]()
				if err := m.Decode(payload); err != nil {
					return []any{err}
				}
				one := m.Encode()
				was := show(one)
				size := m.Size()
				two := m.Encode()
				_ = m.Decode(one)
				if show(one) != was || !bytes.Equal(one, two) {
					w.t.Fatalf("message encoded as %s, then as %x; the first is now %x", was, two, one)
				}
				return []any{one, two, size}
			})
		}},
		{"BuiltMessage", func(w *world) (func() []any, bool) {
			h := &xprotocol.BlockHeader{Version: 1, PrevBlock: w.some(32), MerkleRoot: w.some(32), Timestamp: 5, Bits: 6, Nonce: 7}
			iv := xprotocol.NewInvVect(xprotocol.InvTypeTx, w.some(32))
			loc := w.some(32)
			v := xprotocol.NewMsgVersion(w.net())
			v.AddressYou, v.AddressMe, v.Timestamp = w.some(16), w.some(16), 1234567890
			j := xprotocol.NewMsgReject(rapid.SampledFrom([]string{"tx", "block", "inv"}).Draw(w.t, "cmd"), xprotocol.RejectCode(rapid.SampledFrom([]byte{1, 0x10, 0x11, 0x12, 0x40, 0x41, 0x42, 0x43, 0}).Draw(w.t, "code")), "why")
			j.Hash = w.some(32)
			data := w.upto(0, 90)
			n := rapid.IntRange(1, 3).Draw(w.t, "times")
			hs, inv, get, loca, tx := xprotocol.NewMsgHeaders(), xprotocol.NewMsgInv(), xprotocol.NewMsgGetData(), xprotocol.NewMsgGetHeaders(w.net()), xprotocol.NewMsgTx(data)
			for ; n > 0; n-- {
				_ = hs.AddBlockHeader(h)
				_ = inv.AddInvVect(iv)
				_ = get.AddInvVect(iv, iv)
				_ = loca.AddBlockLocatorHash(loc)
			}
			for _, x := range []any{h, iv, v, j, hs, inv, get, loca, tx} {
				w.hold("message", func() string { return show(x) })
			}
			return q(func() []any {
				out := []any{h.BlockHash(), h.Size(), iv.Size()}
				for _, m := range []xprotocol.Message{v, j, hs, inv, get, loca, tx} {
					e := m.Encode()
					out = append(out, e, m.Size(), m.Command(), m.Encode())
					into := reflect.New(reflect.TypeOf(m).Elem()).Interface().(xprotocol.Message)
					err := into.Decode(e)
					out = append(out, err, into.Encode())
					// What was taken from a message stays when the message is used for another.
					kept := reflect.New(reflect.TypeOf(m).Elem())
					kept.Elem().Set(reflect.ValueOf(into).Elem())
					was := show(kept.Interface())
					if other := append([]byte(nil), e...); len(other) > 0 {
						other[len(other)/2] ^= 1
						_ = into.Decode(other)
					}
					if is := show(kept.Interface()); is != was {
						w.t.Fatalf("the contents of a %s were %s, and are %s after it was used for another message", m.Command(), was, is)
					}
				}
				return out
			})
		}},
	}
}

func cryptoOps() []op {
	secp := secp256k1.SECP256K1 // called only within the operations, which may be the first to use it
	return []op{
		{"PrvKey", func(w *world) (func() []any, bool) {
			raw := w.bytes(kit.B32(kit.Scalar(w.t, "raw")))
			k := w.prv()
			n2 := w.bytes(kit.B32(kit.Scalar(w.t, "add")))
			if rapid.IntRange(0, 2).Draw(w.t, "length") == 0 {
				n2 = w.upto(0, 70)
				raw = w.upto(0, 70)
			}
			return q(func() []any {
				a := xcrypto.PrvKeyFromBytes(raw)
				return []any{a, a.Serialize(), a.PubKey(), k.Add(n2), k.Serialize(), k.PubKey()}
			})
		}},
		{"PubKey", func(w *world) (func() []any, bool) {
			a, b := w.pub(), w.pub()
			raw := w.bytes(rapid.SampledFrom([][]byte{a.SerializeCompressed(), a.SerializeUncompressed(), a.SerializeHybrid()}).Draw(w.t, "form"))
			return q(func() []any {
				k, err := xcrypto.PubKeyFromBytes(raw)
				return []any{k, err, a.Add(b), a.Serialize(), a.SerializeCompressed(), a.SerializeUncompressed(), a.SerializeHybrid(), a.Hash160(), a.XBytes(), a.YBytes(), a.Add(a)}
			})
		}},
		{"Ecdsa", func(w *world) (func() []any, bool) {
			k, h, h2 := w.prv(), w.some(32), w.some(32)
			sig0, err := xcrypto.EcdsaSign(k, h)
			if err != nil {
				w.t.Fatalf("signing: %v", err)
			}
			sig := w.bytes(sig0)
			pub := k.PubKey()
			w.hold("public key", func() string { return show(pub) })
			return q(func() []any {
				s, err := xcrypto.EcdsaSign(k, h)
				d := xcrypto.NewSignatureEcdsa()
				err2 := d.Deserialize(sig)
				e, err3 := d.Serialize()
				return []any{s, err, d, err2, e, err3, xcrypto.EcdsaVerify(pub, h, sig) == nil, xcrypto.EcdsaVerify(pub, h2, sig) == nil}
			})
		}},
		{"Schnorr", func(w *world) (func() []any, bool) {
			k, h, h2 := w.prv(), w.some(32), w.some(32)
			sig0, err := xcrypto.SchnorrSign(k, h)
			if err != nil {
				w.t.Fatalf("signing: %v", err)
			}
			sig := w.bytes(sig0)
			pub := k.PubKey()
			w.hold("public key", func() string { return show(pub) })
			return q(func() []any {
				s, err := xcrypto.SchnorrSign(k, h)
				d := xcrypto.NewSignatureSchnorr()
				err2 := d.Deserialize(sig)
				e, err3 := d.Serialize()
				return []any{s, err, d, err2, e, err3, xcrypto.SchnorrVerify(pub, h, sig) == nil, xcrypto.SchnorrVerify(pub, h2, sig) == nil}
			})
		}},
		{"SchnorrParts", func(w *world) (func() []any, bool) {
			m, d, rx := w.some(32), w.some(32), w.some(32)
			x, y := w.point()
			k0 := w.num(kit.Scalar(w.t, "k0"))
			s := w.num(kit.Scalar(w.t, "s"))
			k := w.prv()
			return q(func() []any {
				e := schnorr.GetE(secp(), m, x, y, rx)
				n, err := schnorr.GetK0(m, d, secp().Params().N)
				kk := schnorr.GetK(secp(), y, k0)
				sr, ss, err2 := schnorr.Sign((*ecdsa.PrivateKey)(k), m)
				return []any{e, n, err, kk, schnorr.IntToByte(k0), sr, ss, err2, schnorr.Verify((*ecdsa.PublicKey)(k.PubKey()), m, sr, ss), schnorr.Verify((*ecdsa.PublicKey)(k.PubKey()), m, x, s)}
			})
		}},
		{"Curve", func(w *world) (func() []any, bool) {
			x1, y1 := w.point()
			x2, y2 := w.point()
			if rapid.IntRange(0, 3).Draw(w.t, "same") == 0 {
				x2, y2 = x1, y1
			}
			k := w.upto(0, 33)
			sx := secp256k1.NewScalar(x1, y1)
			w.hold("scalar", func() string { return show(sx) })
			return q(func() []any {
				ax, ay := secp().Add(x1, y1, x2, y2)
				dx, dy := secp().Double(x1, y1)
				mx, my := secp().ScalarMult(x1, y1, k)
				bx, by := secp().ScalarBaseMult(k)
				enc := secp256k1.SecMarshal(secp(), x1, y1)
				ux, uy := secp256k1.SecUnmarshal(secp(), enc)
				p := secp().Params()
				return []any{ax, ay, dx, dy, mx, my, bx, by, secp().IsOnCurve(x1, y1), secp().IsOnCurve(x1, x2), enc, ux, uy,
					fmt.Sprint(p.P, p.N, p.B, p.Gx, p.Gy, p.BitSize)}
			})
		}},
		{"Scalar", func(w *world) (func() []any, bool) {
			x1, y1 := w.point()
			x2, y2 := w.point()
			b := secp256k1.NewScalar(x2, y2)
			w.hold("scalar", func() string { return show(b) })
			return q(func() []any {
				return []any{secp256k1.NewScalar(x1, y1).Add(secp(), b)}
			})
		}},
		{"SchnorrParties", func(w *world) (func() []any, bool) {
			h := w.some(32)
			n := rapid.IntRange(2, 3).Draw(w.t, "parties")
			var ps []*xcrypto.SchnorrParty
			var pubs []*xcrypto.PubKey
			for i := 0; i < n; i++ {
				k := w.prv()
				p, err := xcrypto.NewSchnorrParty(k)
				if err != nil {
					w.t.Fatal(err)
				}
				ps, pubs = append(ps, p), append(pubs, k.PubKey())
			}
			return q(func() []any {
				var out []any
				var rs []*secp256k1.Scalar
				for _, p := range ps {
					rs = append(rs, p.Phase2(h))
				}
				var sigs [][]byte
				for i, p := range ps {
					agg := p.Phase1(pubs[(i+1)%n])
					r := p.Phase3(rs[(i+1)%n])
					if n == 3 {
						agg = agg.Add(pubs[(i+2)%n])
						r = r.Add(secp(), rs[(i+2)%n])
					}
					s, err := p.Phase4(agg, r)
					sigs = append(sigs, s)
					out = append(out, agg, r, s, err)
				}
				f, err := ps[0].Phase5(rs[0], w.list(sigs...)...)
				for _, r := range rs {
					out = append(out, r)
				}
				return append(out, f, err)
			})
		}},
		{"Closing", func(w *world) (func() []any, bool) {
			h := w.some(32)
			k := w.prv()
			other := w.pub()
			return q(func() []any {
				s, err := xcrypto.NewSchnorrParty(k)
				if err != nil {
					return []any{err}
				}
				agg, r := s.Phase1(other), s.Phase2(h)
				sig, err := s.Phase4(agg, r)
				was := show(agg) + show(r) + show(sig)
				e := xcrypto.NewEcdsaParty(k)
				share := e.Phase1(other)
				was2 := show(share)
				s.Close()
				e.Close()
				if now, now2 := show(agg)+show(r)+show(sig), show(share); now != was || now2 != was2 {
					w.t.Fatalf("closing a party changed what it had returned from %s, %s to %s, %s", was, was2, now, now2)
				}
				return []any{agg, r, sig, err, share}
			})
		}},
		{"Paillier", func(w *world) (func() []any, bool) {
			pub, prv := keys()
			w.hold("paillier key", func() string { return show(pub) })
			m1 := w.num(new(big.Int).SetBytes(kit.Bytes(w.t, 1, 20, "m1")))
			m2 := w.num(new(big.Int).Add(bi(1), new(big.Int).SetBytes(kit.Bytes(w.t, 1, 20, "m2"))))
			c1, err := pub.Encrypt(m1)
			c2, err2 := pub.Encrypt(m2)
			if err != nil || err2 != nil {
				w.t.Fatalf("%v %v", err, err2)
			}
			w.num(c1)
			w.num(c2)
			return q(func() []any {
				a, e1 := pub.Add(c1, c2)
				b, e2 := pub.AddPlaintext(c1, m2)
				c, e3 := pub.MultPlaintext(c1, m2)
				d, e4 := pub.DivPlaintext(c1, m2)
				s := pub.Sub(c1, c2)
				x, e5 := prv.Decrypt(c1)
				y, e6 := prv.Decrypt(a)
				return []any{a, e1, b, e2, c, e3, d, e4, s, x, e5, y, e6}
			})
		}},
		{"Random", func(w *world) (func() []any, bool) {
			size := rapid.SampledFrom([]int{128, 256}).Draw(w.t, "bits")
			w.bytes(nil)
			return func() []any {
				e, err := bip39.NewEntropy(size)
				k, err2 := bip32.NewHDKeyRand()
				return []any{e, err, k, err2}
			}, false
		}},
	}
}

func bi(v int64) *big.Int { return big.NewInt(v) }

var pk struct {
	once sync.Once
	pub  *paillier.PubKey
	prv  *paillier.PrvKey
}

func keys() (*paillier.PubKey, *paillier.PrvKey) {
	pk.once.Do(func() {
		var err error
		if pk.pub, pk.prv, err = paillier.GenerateKeyPair(512); err != nil {
			panic(err)
		}
	})
	return pk.pub, pk.prv
}

// anyScript draws script bytes, mostly parsable.
func anyScript(t *rapid.T) []byte {
	var s []byte
	for i := rapid.IntRange(0, 8).Draw(t, "instrs"); i > 0; i-- {
		switch rapid.IntRange(0, 2).Draw(t, "kind") {
		case 0:
			s = append(s, ref.PushData(kit.Bytes(t, 0, 90, "push"))...)
		case 1:
			s = append(s, rapid.SampledFrom([]byte{0x51, 0x52, 0x60, 0x76, 0x87, 0x75, 0x93, 0x7c, 0x6e, 0xa9, 0xa8, 0xaa, 0xac, 0xae, 0x63, 0x67, 0x68, 0x82, 0x8b, 0x8f, 0x90, 0x92, 0x6b, 0x6c, 0x78, 0x79, 0x7b}).Draw(t, "op"))
		case 2:
			s = append(s, ref.Push(ref.NumEnc(int64(rapid.IntRange(-5, 300).Draw(t, "num"))))...)
		}
	}
	if rapid.IntRange(0, 9).Draw(t, "spoil") == 0 {
		s = kit.Mutate(t, s, "mut")
	}
	return s
}

func scriptOps() []op {
	return []op{
		{"Builder", func(w *world) (func() []any, bool) {
			a, b, c := w.upto(0, 100), w.upto(0, 300), w.upto(0, 20)
			n := rapid.Int64().Draw(w.t, "n")
			return q(func() []any {
				x := xvm.NewScriptBuilder()
				x.AddData(a).AddOp(0x76)
				one, e1 := x.Script()
				was := show(one)
				h1, e2 := x.Hash160()
				x.AddData(b).AddInt64(n).Load("OP_DUP 'abcd' 7")
				two, e3 := x.Script()
				was2 := show(two)
				x.Reset().AddData(c).AddOp(0x87).AddData(a)
				three, e4 := x.Script()
				if show(one) != was || show(two) != was2 {
					w.t.Fatalf("scripts taken from a builder changed from %s, %s to %x, %x when it was used again", was, was2, one, two)
				}
				return []any{one, e1, h1, e2, two, e3, three, e4}
			})
		}},
		{"Reader", func(w *world) (func() []any, bool) {
			s := w.bytes(anyScript(w.t))
			rm := rapid.SampledFrom([]byte{0xab, 0x76, 0x51, 0, 2}).Draw(w.t, "remove")
			return q(func() []any {
				all, err := xvm.NewScriptReader(s).AllInstructions()
				r := xvm.NewScriptReader(s)
				in, err2 := r.NextInstruction()
				var data []byte
				if err2 == nil && in != nil {
					data = in.Data()
				}
				return []any{all, err, data, err2, r.DisasmRemaining(), xvm.DisasmString(s), xvm.RemoveOpcode(s, rm)}
			})
		}},
		{"Number", func(w *world) (func() []any, bool) {
			b := w.upto(0, 9)
			v := rapid.Int64().Draw(w.t, "v")
			return q(func() []any {
				n, err := xvm.MakeScriptNum(b, 5)
				return []any{n, err, xvm.ScriptNum(v).Bytes(), xvm.BoolBytes(true), xvm.BoolBytes(false)}
			})
		}},
		{"Stack", func(w *world) (func() []any, bool) {
			items := [][]byte{w.upto(0, 5), w.upto(0, 40), w.upto(0, 4), w.upto(0, 4)}
			return q(func() []any {
				s := xvm.NewStack()
				for _, b := range items {
					s.PushByteArray(b)
				}
				c := s.Copy()
				was := c.String()
				n, e1 := s.PopInt()
				v, e2 := s.PopBool()
				p, e3 := s.PeekByteArray(0)
				e4 := s.DupN(2)
				e5 := s.SwapN(1)
				s.PushInt(n)
				s.PushBool(v)
				e6 := s.DropN(1)
				x, e7 := s.PopByteArray()
				str := s.String()
				s.Clean()
				s.PushByteArray(items[1])
				if c.String() != was {
					w.t.Fatalf("copy of a stack changed from %q to %q", was, c.String())
				}
				return []any{n, e1, v, e2, p, e3, e4, e5, e6, x, e7, str, was, c.Depth()}
			})
		}},
		{"Engine", func(w *world) (func() []any, bool) {
			un, lock := w.bytes(anyScript(w.t)), w.bytes(anyScript(w.t))
			debug := rapid.Bool().Draw(w.t, "debug")
			used := rapid.Bool().Draw(w.t, "used")
			digest := w.some(32)
			vm := xvm.NewEngine()
			return q(func() []any {
				var seen []any
				vm := vm
				if !used {
					vm = xvm.NewEngine()
				}
				vm.SetSigHashFn(func(byte) ([]byte, error) { return digest, nil })
				vm.SetSigVerifyFn(func(pub, h, sig []byte) error {
					seen = append(seen, pub, h, sig)
					if len(sig)%2 == 0 {
						return fmt.Errorf("no")
					}
					return nil
				})
				if debug {
					vm.EnableDebug()
				}
				err := vm.Verify(un, lock)
				var out []any
				out = append(out, err == nil)
				if !used {
					out = append(out, vm.Traces())
				}
				return append(out, seen...)
			})
		}},
		{"Script", func(w *world) (func() []any, bool) {
			kind := rapid.SampledFrom([]int{ref.PKH, ref.SH, ref.WPKH, ref.WSH}).Draw(w.t, "kind")
			n := 20
			if kind == ref.WSH {
				n = 32
			}
			lock := w.bytes(ref.Lock(kind, w.some(n)))
			s, err := xcore.ParseLockingScript(lock)
			if err != nil {
				w.t.Fatalf("parsing %x: %v", lock, err)
			}
			redeem := w.bytes(ref.MultiSig(1, ref.MulG(kit.Scalar(w.t, "d")).Comp()))
			sign := []xcore.PubKeySign{{PubKey: w.bytes(ref.MulG(kit.Scalar(w.t, "d2")).Comp()), Signature: w.upto(1, 73)}}
			w.hold("signatures", func() string { return fmt.Sprintf("%x", sign) })
			wit := w.list(w.upto(0, 73), w.upto(0, 33))
			if rapid.Bool().Draw(w.t, "three") {
				wit = w.list(w.some(0), w.upto(1, 73), redeem)
			}
			return q(func() []any {
				a, e1 := s.GetRawLockingScriptBytes()
				b, e2 := s.GetFinalLockingScriptBytes(redeem)
				c, e3 := s.GetRawUnlockingScriptBytes(sign, redeem)
				d, e4 := s.GetWitnessUnlockingScriptBytes(sign, redeem)
				e, e5 := s.GetWitnessScriptCode(redeem)
				f, e6 := s.WitnessToUnlockingScriptBytes(wit)
				return []any{a, e1, b, e2, c, e3, d, e4, e, e5, f, e6, s.GetAddress(), int(s.GetScriptVersion())}
			})
		}},
		{"MultiSig", func(w *world) (func() []any, bool) {
			var pubs [][]byte
			for i := rapid.IntRange(1, 4).Draw(w.t, "keys"); i > 0; i-- {
				pubs = append(pubs, w.bytes(ref.MulG(kit.Scalar(w.t, "d")).Comp()))
			}
			in := w.list(pubs...)
			m := rapid.IntRange(1, len(in)).Draw(w.t, "m")
			p := xcore.NewPayToMultiSigScript(m, in...)
			return q(func() []any {
				g, e1 := xcore.GenMultiSigScript(m, in...)
				l, e2 := p.GetLockingScriptBytes()
				h, e3 := p.Hash160()
				s, e4 := p.Sha256()
				return []any{g, e1, l, e2, h, e3, s, e4}
			})
		}},
	}
}

// wallet is a transaction in the caller's hands, with what is needed to sign it.
type wallet struct {
	tx     *xcore.Transaction
	ds     []*big.Int
	keys   []*xcrypto.PrvKey
	pubs   []*xcrypto.PubKey
	redeem []byte
	locks  [][]byte
	values []uint64
}

// input makes the arguments of a new input.
func (a *wallet) input(w *world) *xcore.TxIn {
	kind := rapid.SampledFrom([]int{ref.PKH, ref.SH, ref.WPKH, ref.WSH}).Draw(w.t, "kind")
	var lock []byte
	var redeem []byte
	switch kind {
	case ref.PKH, ref.WPKH:
		lock = ref.Lock(kind, ref.Hash160(a.pubs[0].SerializeCompressed()))
	case ref.SH:
		lock, redeem = ref.Lock(kind, ref.Hash160(a.redeem)), a.redeem
	case ref.WSH:
		lock, redeem = ref.Lock(kind, ref.Sha(a.redeem)), a.redeem
	}
	lock = w.bytes(lock)
	v := rapid.Uint64Range(0, 1<<40).Draw(w.t, "value")
	in, err := xcore.NewTxIn(w.some(32), rapid.Uint32().Draw(w.t, "n"), v, lock, redeem)
	if err != nil {
		w.t.Fatalf("input: %v", err)
	}
	a.locks, a.values = append(a.locks, lock), append(a.values, v)
	return in
}

func (a *wallet) output(w *world) *xcore.TxOut {
	return xcore.NewTxOut(rapid.Uint64Range(0, 1<<40).Draw(w.t, "value"), w.bytes(anyScript(w.t)))
}

func (a *wallet) sign(idx int, ht xcore.SigHashType) error {
	k := a.keys[:1]
	if kd, _ := ref.Kind(a.locks[idx]); kd == ref.SH || kd == ref.WSH {
		k = a.keys
	}
	return a.tx.SignIndex(idx, true, ht, k...)
}

// fields writes out what the caller can see of an input or output he holds (its own storage is the library's to change
// only in the operations that say so).
func txArgs(in *xcore.TxIn) string {
	return fmt.Sprintf("%x %d %d %d %x %x", in.Hash, in.Index, in.Value, in.Sequence, in.RedeemScript, in.RawLockingScript)
}

// history runs a random history of one transaction: queries between changes.
func history(t *rapid.T, c *kit.Case) {
	w := &world{t: t}
	a := &wallet{tx: xcore.NewTransaction()}
	for i := 0; i < 2; i++ {
		k := w.prv()
		a.keys, a.pubs = append(a.keys, k), append(a.pubs, k.PubKey())
	}
	a.redeem = w.bytes(ref.MultiSig(2, a.pubs[0].SerializeCompressed(), a.pubs[1].SerializeCompressed()))
	for i := rapid.IntRange(1, 3).Draw(t, "ins"); i > 0; i-- {
		in := a.input(w)
		a.tx.AddInput(in)
		w.hold("input", func() string { return txArgs(in) })
	}
	for i := rapid.IntRange(1, 3).Draw(t, "outs"); i > 0; i-- {
		out := a.output(w)
		a.tx.AddOutput(out)
		w.hold("output", func() string { return fmt.Sprintf("%d %x", out.Value, out.Script) })
	}
	n := rapid.IntRange(2, 9).Draw(t, "steps")
	for i := 0; i < n; i++ {
		tx := a.tx
		idx := rapid.IntRange(0, len(a.locks)-1).Draw(t, "idx")
		ht := xcore.SigHashType(rapid.SampledFrom([]byte{1, 1, 2, 3, 0x81, 0x82, 0x83}).Draw(t, "hashtype"))
		query := func(name string, f func() []any) {
			c.Class(name)
			before := txShow(tx)
			w.call(name, f, true)
			if now := txShow(tx); now != before {
				t.Fatalf("after %v: the query changed the transaction from %s to %s", w.log, before, now)
			}
		}
		change := func(name string, f func() []any) {
			c.Class(name)
			w.call(name, f, false)
		}
		switch rapid.IntRange(0, 14).Draw(t, "step") {
		case 0:
			query("Serialize", func() []any { return []any{tx.Serialize(), tx.SerializeNoWitness(), tx.ToString()} })
		case 1:
			query("ID", func() []any { return []any{tx.ID(), tx.Hash(), tx.WitnessID(), tx.WitnessHash()} })
		case 2:
			query("Sizes", func() []any {
				return []any{tx.Size(), tx.BaseSize(), tx.WitnessSize(), tx.Vsize(), tx.Weight(), tx.Fees(), tx.HasWitness()}
			})
		case 3:
			query("Digests", func() []any {
				return []any{tx.RawSignatureHash(idx, ht), tx.WitnessV0SignatureHash(idx, ht), tx.RawSignatureHash(idx, 1), tx.WitnessV0SignatureHash(idx, 1)}
			})
		case 4:
			query("Signatures", func() []any {
				r, e1 := tx.RawSignature(idx, ht, a.keys[0])
				s, e2 := tx.WitnessSignature(idx, ht, a.keys[1])
				return []any{r, e1, s, e2}
			})
		case 5, 6:
			query("Verify", func() []any { return []any{tx.Verify() == nil} })
		case 7:
			in := a.input(w)
			w.hold("input", func() string { return txArgs(in) })
			change("AddInput", func() []any { tx.AddInput(in); return nil })
		case 8:
			out := a.output(w)
			w.hold("output", func() string { return fmt.Sprintf("%d %x", out.Value, out.Script) })
			change("AddOutput", func() []any { tx.AddOutput(out); return nil })
		case 9, 10:
			change("SignIndex", func() []any { return []any{a.sign(idx, ht)} })
		case 11:
			if kd, _ := ref.Kind(a.locks[idx]); kd == ref.SH || kd == ref.WSH {
				signs := []xcore.PubKeySign{}
				for j, k := range a.keys {
					sig := tx.WitnessV0SignatureHash(idx, ht)
					if kd == ref.SH {
						sig = tx.RawSignatureHash(idx, ht)
					}
					s, err := xcrypto.EcdsaSign(k, sig)
					if err != nil {
						t.Fatal(err)
					}
					signs = append(signs, xcore.PubKeySign{PubKey: w.bytes(a.pubs[j].SerializeCompressed()), Signature: w.bytes(append(s, byte(ht)))})
				}
				w.hold("signatures", func() string { return fmt.Sprintf("%x", signs) })
				change("EmbedIdxSignature", func() []any { return []any{tx.EmbedIdxSignature(idx, signs)} })
			} else {
				sig := w.upto(1, 72)
				change("EmbedIdxEcdsaSignature", func() []any { return []any{tx.EmbedIdxEcdsaSignature(idx, a.pubs[0], sig, ht)} })
			}
		case 12:
			redeem := a.redeem
			if kd, _ := ref.Kind(a.locks[idx]); kd == ref.PKH || kd == ref.WPKH {
				redeem = nil
			}
			query("SetTxIn", func() []any { return []any{tx.SetTxIn(idx, a.values[idx], a.locks[idx], redeem)} })
		case 13:
			change("SetLockTime", func() []any { tx.SetLockTime(rapid.Uint32().Draw(t, "lock")); tx.SetVersion(2); return nil })
		case 14:
			// decode it twice from the same bytes; what happens to one must not show in the other
			witness := tx.HasWitness()
			data := tx.SerializeNoWitness()
			if witness {
				data = tx.Serialize()
			}
			data = w.bytes(data)
			dec := func() *xcore.Transaction {
				d := xcore.NewTransaction()
				var err error
				kit.NoPanic(t, "Deserialize", func() {
					if witness {
						err = d.Deserialize(data)
					} else {
						err = d.DeserializeNoWitness(data)
					}
				})
				if err != nil {
					t.Fatalf("decoding %x: %v", data, err)
				}
				return d
			}
			one, two := dec(), dec()
			old := tx
			w.hold("transaction before", func() string { return txShow(old) })
			w.hold("transaction decoded from the same bytes", func() string { return fmt.Sprintf("%x", two.Serialize()) })
			for j := range a.locks {
				redeem := a.redeem
				if kd, _ := ref.Kind(a.locks[j]); kd == ref.PKH || kd == ref.WPKH {
					redeem = nil
				}
				kit.NoPanic(t, "SetTxIn", func() { _ = one.SetTxIn(j, a.values[j], a.locks[j], redeem) })
			}
			a.tx = one
			w.log = append(w.log, "Deserialize")
			c.Class("Deserialize")
			if s := w.verify(); s != "" {
				t.Fatalf("after %v: %s", w.log, s)
			}
		}
	}
	c.Sample("%v", w.log)
	c.Nontrivial(w.log, w.blocks[0].was)
}

// building runs the wallet's builder; the caller's keys, coins and data are watched and built transactions kept.
func building(t *rapid.T, c *kit.Case) {
	w := &world{t: t}
	k1, k2 := w.prv(), w.prv()
	redeem := w.bytes(ref.MultiSig(2, k1.PubKey().SerializeCompressed(), k2.PubKey().SerializeCompressed()))
	var kinds []string
	b := xcore.NewTransactionBuilder()
	cb := xcore.NewCoinBuilder()
	n := rapid.IntRange(1, 3).Draw(t, "coins")
	var total uint64
	for i := 0; i < n; i++ {
		kind := rapid.SampledFrom([]int{ref.PKH, ref.SH, ref.WPKH, ref.WSH}).Draw(t, "kind")
		h := ref.Hash160(k1.PubKey().SerializeCompressed())
		if kind == ref.SH {
			h = ref.Hash160(redeem)
		} else if kind == ref.WSH {
			h = ref.Sha(redeem)
		}
		v := rapid.Uint64Range(20000, 1<<40).Draw(t, "value")
		total += v
		coin := cb.AddOutput(hex.EncodeToString(kit.Uniform(t, 32, "txid")), uint32(i), v, hex.EncodeToString(ref.Lock(kind, h))).ToCoins()
		c0 := coin[len(coin)-1]
		w.hold("coin", func() string { return fmt.Sprintf("%+v", *c0) })
		b.AddCoin(c0)
		if kind == ref.SH || kind == ref.WSH {
			b.AddKeys(k1, k2).SetRedeemScript(redeem)
		} else {
			b.AddKeys(k1)
		}
		kinds = append(kinds, fmt.Sprint(kind))
		if i < n-1 {
			b.Then()
		}
	}
	to := xcore.NewPayToPubKeyHashAddress(w.some(20))
	change := xcore.NewPayToScriptHashAddress(w.some(20))
	w.hold("address", func() string { return show(to) })
	w.hold("address", func() string { return show(change) })
	b.To(to, total/2).SetChange(change).SendFees(5000).Then().Sign()
	if rapid.Bool().Draw(t, "data") {
		b.AddPushData(w.upto(1, 40))
	}
	build := func() []any {
		tx, err := b.BuildTransaction()
		if err != nil {
			return []any{nil, err}
		}
		return []any{tx, nil, tx.Serialize(), tx.Verify() == nil}
	}
	out := w.call("BuildTransaction "+strings.Join(kinds, ","), build, false)
	if out[0] != nil {
		c.Class("built")
	} else {
		c.Class("refused")
	}
	w.call("BuildTransaction again", build, false)
	b.To(to, 1)
	w.call("BuildTransaction with one more payment", build, false)
	c.Sample("%v", w.log)
	c.Nontrivial(w.log, total)
}

// parties runs two-party signing with the messages held by the caller.
func parties(t *rapid.T, c *kit.Case) {
	w := &world{t: t}
	k1, k2 := w.prv(), w.prv()
	p1, p2 := k1.PubKey(), k2.PubKey()
	w.hold("public key", func() string { return show(p1) + show(p2) })
	h := w.some(32)
	scriptless := rapid.Bool().Draw(t, "scriptless")
	c.Class(fmt.Sprintf("scriptless %v", scriptless))
	c.Nontrivial(h, show(k1), scriptless)
	secret := w.num(kit.Scalar(t, "secret"))
	if rapid.Bool().Draw(t, "above N") {
		secret = w.num(new(big.Int).Add(secret, ref.N))
	}
	if scriptless {
		a, b := xcrypto.NewEcdsaAlice(k1), xcrypto.NewEcdsaBob(k2, secret)
		w.call("Phase1", func() []any { return []any{a.ScriptlessPhase1(p2), b.ScriptlessPhase1(p1)} }, true)
		o := w.call("Phase2", func() []any {
			e1, n1, r1 := a.ScriptlessPhase2(h)
			e2, n2, r2 := b.ScriptlessPhase2(h)
			return []any{e1, n1, r1, e2, n2, r2}
		}, false)
		e1, n1, r1 := o[0].(*big.Int), o[1].(*paillier.PubKey), o[2].(*secp256k1.Scalar)
		e2, n2, r2 := o[3].(*big.Int), o[4].(*paillier.PubKey), o[5].(*secp256k1.Scalar)
		o = w.call("Phase3", func() []any { return []any{a.ScriptlessPhase3(r2), b.ScriptlessPhase3(r1)} }, true)
		s1, s2 := o[0].(*secp256k1.Scalar), o[1].(*secp256k1.Scalar)
		o = w.call("Phase4", func() []any {
			x, err := a.ScriptlessPhase4(e2, n2, s1)
			y, err2 := b.ScriptlessPhase4(e1, n1, s2)
			return []any{x, err, y, err2}
		}, true)
		m1, m2 := o[0].(*big.Int), o[2].(*big.Int)
		o = w.call("Phase5", func() []any {
			x, err := a.ScriptlessPhase5(s1, m2)
			y, err2 := b.ScriptlessPhase5(s2, m1)
			return []any{x, err, y, err2}
		}, true)
		g1, g2 := o[0].(*big.Int), o[2].(*big.Int)
		w.call("Phase6", func() []any {
			f, err := b.ScriptlessPhase6(s2, g1)
			return []any{f, err, a.ScriptlessPhase6(g1, g2)}
		}, true)
		a.Close()
		b.Close()
	} else {
		a, b := xcrypto.NewEcdsaParty(k1), xcrypto.NewEcdsaParty(k2)
		w.call("Phase1", func() []any { return []any{a.Phase1(p2), b.Phase1(p1)} }, true)
		o := w.call("Phase2", func() []any {
			e1, n1, r1 := a.Phase2(h)
			e2, n2, r2 := b.Phase2(h)
			return []any{e1, n1, r1, e2, n2, r2}
		}, false)
		e1, n1, r1 := o[0].(*big.Int), o[1].(*paillier.PubKey), o[2].(*secp256k1.Scalar)
		e2, n2, r2 := o[3].(*big.Int), o[4].(*paillier.PubKey), o[5].(*secp256k1.Scalar)
		o = w.call("Phase3", func() []any { return []any{a.Phase3(r2), b.Phase3(r1)} }, true)
		s1, s2 := o[0].(*secp256k1.Scalar), o[1].(*secp256k1.Scalar)
		o = w.call("Phase4", func() []any {
			x, err := a.Phase4(e2, n2, s1)
			y, err2 := b.Phase4(e1, n1, s2)
			return []any{x, err, y, err2}
		}, true)
		m1, m2 := o[0].(*big.Int), o[2].(*big.Int)
		w.call("Phase5", func() []any {
			x, err := a.Phase5(s1, m2)
			y, err2 := b.Phase5(s2, m1)
			return []any{x, err, y, err2}
		}, true)
		a.Close()
		b.Close()
	}
	if s := w.verify(); s != "" {
		t.Fatalf("after closing: %s", s)
	}
	c.Sample("digest %x scriptless %v", h, scriptless)
}

func TestP31(t *testing.T) {
	r := kit.New(t, "P31",
		"values are compared through what a caller can see of them (fields, serialisations, public methods), so internal caches are free",
		"hash.Hash.Sum appends to its argument by contract and gets one without room",
		"changes the caller makes to a slice after passing it, and what he appends to a returned slice, are outside the property")
	const rule = "; arguments lie in shared storage with room around them, queries run twice, and all storage, numbers, keys and earlier results are compared after each call; non-trivial: all"
	r.Run(t, "encodings", 1500, 15, "histories of 2..8 calls of encoders, decoders, hashes, address, merkle, mnemonic, extended-key and message operations"+rule, machine(encodeOps(), 2, 8))
	r.Run(t, "crypto", 400, 20, "histories of 2..6 calls of key, signature, curve, multi-party schnorr and paillier operations"+rule, machine(cryptoOps(), 2, 6))
	r.Run(t, "scripts", 6000, 15, "histories of 2..8 calls of builder, reader, number, stack, engine, standard script and multisig operations"+rule, machine(scriptOps(), 2, 8))
	r.Run(t, "transactions", 900, 15, "histories of 2..9 queries, changes, signings and decodings of one transaction; queries leave it as it is"+rule, history)
	r.Run(t, "building", 130, 20, "1..3 coins of any kind built, built again, and built with one more payment"+rule, building)
	r.Run(t, "parties", 4, 10, "two-party and scriptless signing, every phase but the random second run twice"+rule, parties)
}
