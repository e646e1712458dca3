package pcore

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/xcore"

	"verif/kit"
	"verif/ref"
)

// wallet is an unsigned spend of some coins.
func wallet(t *rapid.T, maxIns, maxKeys int) (*ref.Tx, []*coin) {
	x := &ref.Tx{Version: 1, LockTime: word(t, "lock")}
	var cs []*coin
	for k := rapid.IntRange(1, maxIns).Draw(t, "ins"); k > 0; k-- {
		co := newCoin(t, rapid.IntRange(1, 4).Draw(t, "kind"), maxKeys, "coin")
		cs = append(cs, co)
		x.Ins = append(x.Ins, co.in())
	}
	for k := rapid.IntRange(0, 3).Draw(t, "outs"); k > 0; k-- {
		x.Outs = append(x.Outs, &ref.TxOut{Value: amount(t, "v"), Script: locking(t, "o")})
	}
	return x, cs
}

// direct builds the unsigned transaction through NewTxIn/AddInput.
func direct(t *rapid.T, x *ref.Tx) *xcore.Transaction {
	tx := xcore.NewTransaction()
	tx.SetVersion(x.Version)
	tx.SetLockTime(x.LockTime)
	c := x.Clone()
	for _, in := range c.Ins {
		v, err := xcore.NewTxIn(in.Hash, in.Index, in.Value, in.Locking, in.Redeem)
		if err != nil {
			t.Fatalf("input: %v", err)
		}
		v.Sequence = in.Seq
		tx.AddInput(v)
	}
	for _, o := range c.Outs {
		tx.AddOutput(xcore.NewTxOut(o.Value, o.Script))
	}
	return tx
}

func TestP21(t *testing.T) {
	r := kit.New(t, "P21", "RFC 6979 nonces make the expected signatures computable by the reference", "keys are given in policy order")
	r.Run(t, "build-sign", 160, 20, "1..3 coins of any kind, key encoding, hash type and m-of-n policy (n up to 5, rarely 20) built and signed by the builder; non-trivial: two kinds or a policy of at least two keys", func(t *rapid.T, c *kit.Case) {
		maxKeys := 4
		if rapid.IntRange(0, 25).Draw(t, "wide") == 0 {
			maxKeys = 20
		}
		var cs []*coin
		b := xcore.NewTransactionBuilder()
		x := &ref.Tx{Version: 1}
		var total uint64
		var signers [][]int
		n := rapid.IntRange(1, 3).Draw(t, "ins")
		if maxKeys == 20 {
			n = 1
		}
		kinds := map[int]bool{}
		for i := 0; i < n; i++ {
			co := newCoin(t, rapid.IntRange(1, 4).Draw(t, "kind"), maxKeys, "coin")
			kinds[co.kind] = true
			total += co.value
			cs, x.Ins = append(cs, co), append(x.Ins, co.in())
			idx := co.signers(t, "s")
			signers = append(signers, idx)
			b.AddCoin(co.coin()).AddKeys(co.keys(idx)...).SetSigHashType(xcore.SigHashType(co.hashType))
			if co.redeem != nil {
				b.SetRedeemScript(append([]byte{}, co.redeem...))
			}
			if !co.compressed {
				b.SetPubKeyUncompressed()
			}
			b.Then()
			c.Class(fmt.Sprintf("kind %d type %02x", co.kind, co.hashType))
		}
		if len(kinds) > 1 || len(cs[0].d) > 1 {
			c.Nontrivial(x.Bytes(false), fmt.Sprint(signers))
		}
		if rapid.IntRange(0, 2).Draw(t, "haslock") == 0 {
			x.LockTime = word(t, "lock")
		}
		// payments, change, data
		left := total
		for k := rapid.IntRange(1, 3).Draw(t, "pays"); k > 0; k-- {
			kind := rapid.IntRange(1, 4).Draw(t, "okind")
			h := kit.Uniform(t, hashLen(kind), "oh")
			v := rapid.Uint64Range(0, left).Draw(t, "ov")
			left -= v
			b.To(newAddr(kind, h), v).Then()
			x.Outs = append(x.Outs, &ref.TxOut{Value: v, Script: ref.Lock(kind, h)})
		}
		fee := rapid.Uint64Range(0, min(left, 100000000)).Draw(t, "fee")
		left -= fee
		h := kit.Uniform(t, 20, "ch")
		b.SendFees(fee).SetChange(newAddr(ref.PKH, h)).SetLockTime(x.LockTime)
		if left > 0 {
			x.Outs = append(x.Outs, &ref.TxOut{Value: left, Script: ref.Lock(ref.PKH, h)})
		}
		if rapid.IntRange(0, 3).Draw(t, "hasdata") == 0 {
			d := kit.Bytes(t, 2, 80, "data")
			b.AddPushData(d)
			x.Outs = append(x.Outs, &ref.TxOut{Script: append([]byte{0x6a}, ref.PushData(d)...)})
		}
		var tx *xcore.Transaction
		var err error
		kit.NoPanic(t, "BuildTransaction", func() { tx, err = b.Sign().BuildTransaction() })
		if err != nil {
			t.Fatalf("building: %v", err)
		}
		for i, co := range cs {
			co.sign(x, i, co.scalars(signers[i]), co.hashType)
		}
		c.Sample("%x", x.Bytes(true))
		if err := same(tx, x); err != nil {
			t.Fatalf("signed transaction: %v", err)
		}
		if err := tx.Verify(); err != nil {
			t.Fatalf("the signed transaction %x does not verify: %v", x.Bytes(true), err)
		}
		if !verdict(t, x) {
			t.Fatalf("the reloaded transaction %x does not verify", x.Bytes(true))
		}
		// building again gives the same transaction
		if tx2, err := b.BuildTransaction(); err != nil || !bytes.Equal(tx2.Serialize(), tx.Serialize()) {
			t.Fatalf("building again differs: %v", err)
		}
	})
	r.Run(t, "wide", 10, 8, "up to 270 key-hash coins of three owners in one transaction, built, signed, verified, and again after its bytes; non-trivial: always", wideBuild(true))
	r.Run(t, "sign-index", 160, 20, "inputs signed one by one in any order, re-signed, with SignIndex or separately made signatures embedded; other transactions versions and sequences; non-trivial: two inputs", func(t *rapid.T, c *kit.Case) {
		x, cs := wallet(t, 3, 3)
		x.Version = word(t, "ver")
		for _, in := range x.Ins {
			in.Seq = word(t, "seq")
		}
		tx := direct(t, x)
		if len(cs) > 1 {
			c.Nontrivial(x.Bytes(false))
		}
		c.Sample("%x", x.Bytes(false))
		order := rapid.Permutation(seq(len(cs))).Draw(t, "order")
		if rapid.IntRange(0, 3).Draw(t, "again") == 0 {
			order = append([]int{order[len(order)-1]}, order...)
			c.Class("re-signed")
		}
		passed := rapid.IntRange(0, 2).Draw(t, "passed") // never, at some steps, or at each, to the next signer as bytes
		for _, i := range order {
			co := cs[i]
			if passed == 2 || passed == 1 && rapid.Bool().Draw(t, "pass") {
				c.Class("passed on as bytes")
				var err error
				if tx, err = load(x); err != nil {
					t.Fatalf("passing on %x: %v", x.Bytes(true), err)
				}
			}
			if rapid.IntRange(0, 3).Draw(t, "mistake") == 0 { // first taken for another coin, signed as that, and put right
				w := newCoin(t, rapid.SampledFrom([]int{ref.PKH, ref.WPKH, ref.SH, ref.WSH}).Draw(t, "as"), 2, "wrong")
				if w.witness() || !co.witness() { // a scriptSig is not taken back for a witness program
					werr := tx.SetTxIn(i, w.value, w.lock, w.redeem)
					if werr == nil && rapid.IntRange(0, 3).Draw(t, "signed") > 0 {
						werr = tx.SignIndex(i, w.compressed, xcore.SigHashType(w.hashType), w.keys(w.signers(t, "ws"))...)
					}
					if werr != nil && len(x.Ins[i].Script)+len(x.Ins[i].Witness) == 0 { // else what is there need not fit
						t.Fatalf("as a coin of kind %d: %v", w.kind, werr)
					}
					if err := tx.SetTxIn(i, co.value, co.lock, co.redeem); err == nil {
						c.Class("put right")
					} else if !w.witness() || !co.witness() {
						t.Fatalf("from kind %d to kind %d: %v", w.kind, co.kind, err)
					} else if tx, err = load(x); err != nil { // the witness does not fit, and is not taken back
						t.Fatalf("loading %x: %v", x.Bytes(true), err)
					}
				}
			}
			idx := co.signers(t, "s")
			ht := rapid.SampledFrom(hashTypes).Draw(t, "ht")
			co.sign(x, i, co.scalars(idx), ht)
			var err error
			switch rapid.IntRange(0, 2).Draw(t, "how") {
			case 0:
				err = tx.SignIndex(i, co.compressed, xcore.SigHashType(ht), co.keys(idx)...)
			case 1:
				c.Class("embedded signatures")
				var signs []xcore.PubKeySign
				for _, k := range idx {
					var s []byte
					if co.witness() {
						s, err = tx.WitnessSignature(i, xcore.SigHashType(ht), prv(co.d[k]))
					} else {
						s, err = tx.RawSignature(i, xcore.SigHashType(ht), prv(co.d[k]))
					}
					if err != nil {
						t.Fatalf("signing: %v", err)
					}
					signs = append(signs, xcore.PubKeySign{PubKey: pub(co.d[k], co.compressed), Signature: s})
				}
				err = tx.EmbedIdxSignature(i, signs)
			case 2:
				if co.redeem != nil || !co.compressed {
					err = tx.SignIndex(i, co.compressed, xcore.SigHashType(ht), co.keys(idx)...)
					break
				}
				c.Class("embedded DER signature")
				rr, ss := ref.EcdsaSign(co.d[0], x.SigHash(i, uint32(ht)))
				err = tx.EmbedIdxEcdsaSignature(i, prv(co.d[0]).PubKey(), ref.DER(rr, ss), xcore.SigHashType(ht))
			}
			if err != nil {
				t.Fatalf("input %d: %v", i, err)
			}
			if err := same(tx, x); err != nil {
				t.Fatalf("after input %d: %v", i, err)
			}
		}
		if err := tx.Verify(); err != nil {
			t.Fatalf("the signed transaction %x does not verify: %v", x.Bytes(true), err)
		}
		if !verdict(t, x) {
			t.Fatalf("the reloaded transaction %x does not verify", x.Bytes(true))
		}
	})
	r.Run(t, "bad-calls", 500, 10, "signing without keys, of inputs that do not exist, several keys without a script: errors, and nothing changes; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		x, cs := wallet(t, 2, 3)
		tx := direct(t, x)
		c.Nontrivial(x.Bytes(false))
		i := rapid.IntRange(0, len(cs)-1).Draw(t, "i")
		co := cs[i]
		var err error
		if rapid.Bool().Draw(t, "signed") {
			c.Class("signed before")
			for j, cj := range cs {
				cj.sign(x, j, cj.scalars(cj.signers(t, "s")), cj.hashType)
			}
			if tx, err = load(x); err != nil {
				t.Fatalf("loading %x: %v", x.Bytes(true), err)
			}
		}
		bad := rapid.SampledFrom([]int{-1, len(cs), len(cs) + 7, 256, 257, 65536, 1 << 32, 1<<32 + 1, -256, -1 << 32, -1 << 63, 1<<63 - 1}).Draw(t, "bad")
		how := rapid.IntRange(0, 5).Draw(t, "how")
		c.Class(fmt.Sprint("call ", how))
		kit.NoPanic(t, fmt.Sprintf("call %d", how), func() {
			switch how {
			case 0:
				err = tx.SignIndex(bad, true, xcore.SigHashAll, co.keys([]int{0})...)
			case 1:
				err = tx.EmbedIdxSignature(bad, nil)
			case 2:
				err = tx.SetTxIn(bad, 1, co.lock, co.redeem)
			case 3:
				_, err = tx.RawSignature(bad, xcore.SigHashAll, prv(co.d[0]))
			case 4:
				_, err = tx.WitnessSignature(bad, xcore.SigHashAll, prv(co.d[0]))
			case 5:
				if co.redeem == nil && rapid.Bool().Draw(t, "embed") {
					err = tx.EmbedIdxSignature(i, nil)
				} else if co.redeem == nil {
					err = tx.SignIndex(i, true, xcore.SigHashAll)
				} else {
					err = tx.EmbedIdxEcdsaSignature(bad, prv(co.d[0]).PubKey(), []byte{1}, xcore.SigHashAll)
				}
			}
		})
		if err == nil {
			t.Fatalf("call %d succeeds", how)
		}
		if e := same(tx, x); e != nil {
			t.Fatalf("call %d (%v) changed the transaction: %v", how, err, e)
		}
	})
}

// crafted draws unlocking data not made of the required signatures: soup of pushes, flow control and real pieces.
func crafted(t *rapid.T, pieces [][]byte) []byte {
	var s []byte
	for k := rapid.IntRange(0, 7).Draw(t, "soup"); k > 0; k-- {
		switch rapid.IntRange(0, 4).Draw(t, "sk") {
		case 0, 1:
			s = append(s, ref.PushData(pieces[rapid.IntRange(0, len(pieces)-1).Draw(t, "piece")])...)
		case 2:
			s = append(s, rapid.SampledFrom([]byte{0, 0x51, 0x52, 0x53, 0x60, 0x4f}).Draw(t, "num"))
		case 3:
			s = append(s, rapid.SampledFrom([]byte{0x63, 0x64, 0x67, 0x68, 0x6a, 0x69}).Draw(t, "flow"))
		case 4:
			s = append(s, rapid.SampledFrom([]byte{0x75, 0x76, 0x7c, 0x6e, 0x6f, 0x82, 0x87, 0x88, 0x91, 0x93, 0xa9, 0xac, 0xad, 0xae, 0xaf}).Draw(t, "op"))
		}
	}
	return s
}

// among puts, now and then, inputs of other coins around the only one of x. It tells where that one is now and what signs the others.
func among(t *rapid.T, x *ref.Tx) (int, func()) {
	var cs []*coin
	at := 0
	if rapid.IntRange(0, 2).Draw(t, "among") == 0 {
		for k := rapid.IntRange(1, 2).Draw(t, "others"); k > 0; k-- {
			co := newCoin(t, rapid.SampledFrom([]int{ref.WPKH, ref.PKH}).Draw(t, "otherkind"), 1, "other")
			co.hashType = 1
			if rapid.IntRange(0, 2).Draw(t, "before") > 0 {
				x.Ins, cs = append([]*ref.TxIn{co.in()}, x.Ins...), append([]*coin{co}, cs...)
				at++
			} else {
				x.Ins, cs = append(x.Ins, co.in()), append(cs, co)
			}
		}
	}
	return at, func() {
		for i, co := range cs {
			if i >= at {
				i++
			}
			co.sign(x, i, co.scalars([]int{0}), 1)
		}
	}
}

func TestP22(t *testing.T) {
	r := kit.New(t, "P22", "the reference verifier (harness/ref: script engine, digests, curve) decides; for edits that the signatures cover the answer must be no",
		"witness programs run with the redeem script the caller registered, which must hash to the program")
	r.Run(t, "covered", 500, 20, "a fully signed spend (all hash types ALL), one covered field changed afterwards; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		x, cs := wallet(t, 2, 3)
		for i, co := range cs {
			co.sign(x, i, co.scalars(co.signers(t, "s")), 1)
		}
		y := x.Clone()
		name := ""
		switch rapid.IntRange(0, 9).Draw(t, "what") {
		case 0: // the amount of a witness coin
			i := rapid.IntRange(0, len(cs)-1).Draw(t, "i")
			if cs[i].witness() {
				y.Ins[i].Value ^= 1 << rapid.IntRange(0, 62).Draw(t, "bit")
				name = "amount"
			}
		case 1: // the spent output is another one
			i := rapid.IntRange(0, len(cs)-1).Draw(t, "i")
			l := y.Ins[i].Locking
			l[4+rapid.IntRange(0, 14).Draw(t, "b")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			name = "spent script"
		case 2: // the registered redeem script is another one
			i := rapid.IntRange(0, len(cs)-1).Draw(t, "i")
			if co := cs[i]; co.kind == ref.WSH || co.kind == ref.SH {
				rd := rapid.SampledFrom([][]byte{{0x51}, {}, append([]byte{0x61}, co.redeem...), ref.MultiSig(1, pub(big.NewInt(7), true))}).Draw(t, "rd")
				y.Ins[i].Redeem = rd
				name = "registered redeem script"
			}
		}
		if name == "" {
			name = edit(t, y)
			if name == "addin" { // the added input is unauthorised as well; spend an own coin there
				co := newCoin(t, ref.PKH, 1, "extra")
				k := len(y.Ins) - 1
				y.Ins[k] = co.in()
				co.sign(y, k, co.d, 1)
			}
			if name == "swapins" || name == "dropin" {
				c.Class("order of inputs")
			}
		}
		c.Class(name)
		c.Nontrivial(y.Bytes(true), name)
		c.Sample("%s: %x", name, y.Bytes(true))
		if y.Verify() {
			panic("reference accepts a covered change: " + name)
		}
		if rapid.IntRange(0, 2).Draw(t, "seen") > 0 && !verdict(t, x) { // the valid one was seen before
			t.Fatalf("does not verify: %x", x.Bytes(true))
		}
		if verdict(t, y) {
			t.Fatalf("verifies after %s was changed: %x (signed as %x)", name, y.Bytes(true), x.Bytes(true))
		}
	})
	r.Run(t, "live", 300, 25, "one transaction object, decoded or with its inputs and outputs at hand: signed, changed, put back, extended, its spent outputs registered anew (rightly or not), signed again, the reference's verdict after each of 3..9 steps; non-trivial: the verdict changed twice", live)
	r.Run(t, "wide", 120, 20, "one guarded coin anywhere among up to 620 that need no signature, rightly signed, by other keys, by too few, not at all, or changed afterwards: the reference's verdict; non-trivial: always", wideVerdict(false))
	r.Run(t, "types", 400, 20, "spends signed with any hash types, then edited: the reference's verdict, which may be yes; non-trivial: a type other than ALL", func(t *rapid.T, c *kit.Case) {
		x, cs := wallet(t, 2, 2)
		other := false
		for i, co := range cs {
			co.sign(x, i, co.scalars(co.signers(t, "s")), co.hashType)
			other = other || co.hashType != 1
		}
		y := x.Clone()
		name := edit(t, y)
		if name == "addin" {
			co := newCoin(t, ref.PKH, 1, "extra")
			k := len(y.Ins) - 1
			y.Ins[k] = co.in()
			co.sign(y, k, co.d, 1)
		}
		if other {
			c.Nontrivial(y.Bytes(true), name)
		}
		want := y.Verify()
		c.Class(fmt.Sprintf("%s %v", name, want))
		c.Sample("%s: %x", name, y.Bytes(true))
		if got := verdict(t, y); got != want {
			t.Fatalf("%s after signing: verifies=%v want %v: %x", name, got, want, y.Bytes(true))
		}
	})
	r.Run(t, "unlocking", 1500, 25, "one input, by itself or among valid ones, whose unlocking data is altered, truncated, reordered, of other keys or coins, doubled, moved between scriptSig and witness, or crafted without signatures; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		co := newCoin(t, rapid.IntRange(1, 4).Draw(t, "kind"), 3, "coin")
		if rapid.IntRange(0, 4).Draw(t, "worthless") == 0 {
			co.value = 0
		}
		x := &ref.Tx{Version: 1, Ins: []*ref.TxIn{co.in()}, Outs: []*ref.TxOut{{Value: 5, Script: locking(t, "o")}}}
		if rapid.IntRange(0, 3).Draw(t, "odd") == 0 {
			x.Version, x.LockTime, x.Ins[0].Seq = word(t, "ver"), word(t, "lock"), word(t, "seq")
		}
		at, finish := among(t, x)
		idx := co.signers(t, "s")
		in := x.Ins[at]
		sig := func(d *big.Int, ht byte) []byte {
			rr, ss := ref.EcdsaSign(d, x.SigHash(at, uint32(ht)))
			return append(ref.DER(rr, ss), ht)
		}
		var sigs [][]byte
		for _, k := range idx {
			sigs = append(sigs, sig(co.d[k], co.hashType))
		}
		if rapid.IntRange(0, 2).Draw(t, "seen") == 0 { // the right one was seen before
			co.unlock(in, sigs)
			if got, want := verdict(t, x), x.Verify(); got != want {
				t.Fatalf("verifies=%v want %v: %x", got, want, x.Bytes(true))
			}
			in.Script, in.Witness = nil, nil
		}
		name := ""
		sure := false // certainly unauthorised, whatever the reference thinks
		how := rapid.IntRange(0, 9).Draw(t, "how")
		if kit.Uniform(t, 1, "stack")[0] < 16 {
			how = 5
		}
		switch how {
		case 0:
			name, sure = "none", true
		case 1: // foreign keys
			name, sure = "foreign key", true
			f := distinct(t, 1, "foreign")[0]
			for _, d := range co.d {
				sure = sure && f.Cmp(d) != 0
			}
			sigs[rapid.IntRange(0, len(sigs)-1).Draw(t, "i")] = sig(f, co.hashType)
			co.unlock(in, sigs)
			if co.redeem == nil && rapid.Bool().Draw(t, "ownpub") { // with the foreign public key beside it
				p := pub(f, co.compressed)
				if co.kind == ref.PKH {
					in.Script = append(ref.PushData(sigs[0]), ref.PushData(p)...)
				} else {
					in.Witness[1] = p
				}
			}
		case 2: // a signature of another transaction or another input amount
			name, sure = "signature of another transaction", true
			y := x.Clone()
			y.Outs[0].Value ^= 1 << rapid.IntRange(0, 40).Draw(t, "bit")
			rr, ss := ref.EcdsaSign(co.d[idx[0]], y.SigHash(at, 1))
			sigs[0] = append(ref.DER(rr, ss), 1)
			co.unlock(in, sigs)
		case 3: // too few
			name, sure = "too few signatures", true
			sigs = sigs[:len(sigs)-1]
			if len(sigs) == 0 && co.redeem == nil {
				sigs = [][]byte{{}}
			}
			co.unlock(in, sigs)
		case 4: // the hash type byte, or an element, altered
			name = "edited element"
			i := rapid.IntRange(0, len(sigs)-1).Draw(t, "i")
			sigs[i] = kit.Mutate(t, sigs[i], "m")
			co.unlock(in, sigs)
		case 5: // structural edits of the stack
			name = "edited stack"
			co.unlock(in, sigs)
			items := in.Witness
			if !co.witness() {
				ins, _ := ref.ParseAll(in.Script)
				items = nil
				for _, v := range ins {
					items = append(items, v.Data)
				}
			}
			i, j := rapid.IntRange(0, len(items)-1).Draw(t, "i"), rapid.IntRange(0, len(items)-1).Draw(t, "j")
			switch rapid.IntRange(0, 6).Draw(t, "edit") {
			case 5, 6: // very many more
				extra := make([][]byte, rapid.SampledFrom([]int{1, 128, 254, 255, 256, 256, 257, 512}).Draw(t, "extra"))
				for k := range extra {
					extra[k] = items[j]
				}
				if rapid.Bool().Draw(t, "below") {
					items = append(extra, items...)
				} else {
					items = append(items, extra...)
				}
				c.Class("many-more-items")
			case 0:
				items = append(items[:i:i], items[i+1:]...)
			case 1:
				items = append(items[:i:i], append([][]byte{items[j]}, items[i:]...)...)
			case 2:
				items[i], items[j] = items[j], items[i]
			case 3:
				items[i] = rapid.SampledFrom([][]byte{{}, {1}, {0}, {0x80}, {0x51}, items[j]}).Draw(t, "with")
			case 4:
				items = append(items, rapid.SampledFrom([][]byte{{}, {1}, {0x51}}).Draw(t, "top"))
			}
			if co.witness() {
				in.Witness = items
			} else {
				in.Script = nil
				for _, v := range items {
					in.Script = append(in.Script, ref.PushData(v)...)
				}
			}
		case 6: // bytes of the unlocking script edited
			name = "edited bytes"
			co.unlock(in, sigs)
			if co.witness() {
				i := rapid.IntRange(0, len(in.Witness)-1).Draw(t, "i")
				in.Witness[i] = kit.Mutate(t, in.Witness[i], "m")
			} else {
				in.Script = kit.Mutate(t, in.Script, "m")
			}
		case 7: // on the other side
			name = "witness and scriptSig"
			co.unlock(in, sigs)
			if co.witness() {
				var s []byte
				for _, w := range in.Witness {
					s = append(s, ref.PushData(w)...)
				}
				in.Script = s
				if rapid.Bool().Draw(t, "both") {
					in.Witness = nil
				}
				sure = true
			} else {
				ins, _ := ref.ParseAll(in.Script)
				for _, v := range ins {
					in.Witness = append(in.Witness, v.Data)
				}
				if rapid.Bool().Draw(t, "both") {
					in.Script = nil
					sure = true
				}
			}
		default: // crafted, no valid signature within
			name, sure = "crafted", true
			pieces := [][]byte{{}, {1}, {0x51}, pub(co.d[0], co.compressed), pub(co.d[0], !co.compressed), co.lock, {0x30, 6, 2, 1, 1, 2, 1, 1, 1}, {1}}
			if co.redeem != nil {
				pieces = append(pieces, co.redeem, co.redeem)
			}
			if co.witness() {
				for k := rapid.IntRange(0, 6).Draw(t, "items"); k > 0; k-- {
					in.Witness = append(in.Witness, pieces[rapid.IntRange(0, len(pieces)-1).Draw(t, "p")])
				}
				if co.kind == ref.WSH && rapid.Bool().Draw(t, "end") {
					in.Witness = append(in.Witness, co.redeem)
				}
			} else {
				in.Script = crafted(t, pieces)
				if co.kind == ref.SH && rapid.Bool().Draw(t, "end") {
					in.Script = append(in.Script, ref.PushData(co.redeem)...)
				}
			}
		}
		finish()
		c.Nontrivial(x.Bytes(true), name)
		want := x.Verify()
		c.Class(fmt.Sprintf("%s %v", name, want))
		c.Sample("%s kind %d: %x", name, co.kind, x.Bytes(true))
		if sure && want {
			panic("reference accepts unauthorised: " + name)
		}
		if got := verdict(t, x); got != want {
			t.Fatalf("%s, kind %d, spent %x: verifies=%v want %v: %x", name, co.kind, co.lock, got, want, x.Bytes(true))
		}
	})
	r.Run(t, "scripts", 2000, 25, "script-hash coins over arbitrary small scripts with right, wrong or missing scripts and stack items; non-trivial: the committed script is presented", func(t *rapid.T, c *kit.Case) {
		d := distinct(t, 2, "d")
		body := rapid.SampledFrom([][]byte{{0x51}, {0}, {0x75, 0x51}, {0x87}, {0x76, 0x87}, {0x51, 0x51, 0x75}, {0x63, 0x51, 0x67, 0, 0x68}, {0x63, 0x51, 0x68}, {0x6a}, {0x75}, {0x93, 0x53, 0x87}, {0x88, 0x51}, {0x82, 0x51, 0x88, 0x75, 0x51}, {0x82, 0, 0x88, 0x75, 0x51}, {0x82, 0x87}, {1, 0, 0x87}, {1, 0x80, 0x87}, append(append([]byte{0xa9}, ref.PushData(ref.Hash160([]byte{0}))...), 0x87),
			append(ref.PushData(pub(d[0], true)), 0xac), append(ref.PushData(pub(d[0], true)), 0xad), append(append([]byte{0x76, 0xa9}, ref.PushData(ref.Hash160(pub(d[0], true)))...), 0x88, 0xac),
			ref.MultiSig(1, pub(d[0], true), pub(d[1], false)), append(ref.MultiSig(2, pub(d[0], true), pub(d[1], false)), 0x69)}).Draw(t, "body")
		if rapid.IntRange(0, 5).Draw(t, "soup") == 0 {
			body = crafted(t, [][]byte{{1}, {}, pub(d[0], true)})
		}
		kind := rapid.SampledFrom([]int{ref.SH, ref.WSH}).Draw(t, "kind")
		co := &coin{kind: kind, txid: kit.Uniform(t, 32, "txid"), value: 9, redeem: body}
		if kind == ref.SH {
			co.lock = ref.Lock(kind, ref.Hash160(body))
		} else {
			co.lock = ref.Lock(kind, ref.Sha(body))
		}
		x := &ref.Tx{Version: 1, Ins: []*ref.TxIn{co.in()}, Outs: []*ref.TxOut{{Value: 5, Script: locking(t, "o")}}}
		at, finish := among(t, x)
		in := x.Ins[at]
		if len(body) == 0 {
			in.Redeem = []byte{}
		}
		var items [][]byte
		for k := rapid.IntRange(0, 4).Draw(t, "items"); k > 0; k-- {
			switch rapid.IntRange(0, 3).Draw(t, "ik") {
			case 0:
				items = append(items, rapid.SampledFrom([][]byte{{}, {0}, {1}, {2}, {0x80}, {3}, {0x81}, {0, 0}}).Draw(t, "num"))
			case 1:
				items = append(items, pub(d[rapid.IntRange(0, 1).Draw(t, "who")], true))
			default:
				rr, ss := ref.EcdsaSign(d[rapid.IntRange(0, 1).Draw(t, "who")], x.SigHash(at, 1))
				items = append(items, append(ref.DER(rr, ss), 1))
			}
		}
		shown := body
		switch rapid.IntRange(0, 5).Draw(t, "shown") {
		case 0:
			shown = rapid.SampledFrom([][]byte{{0x51}, {}, {1}, append([]byte{0x51}, body...)}).Draw(t, "other")
		case 1:
			shown = nil
		}
		if shown != nil {
			items = append(items, shown)
		}
		registered := true
		switch rapid.IntRange(0, 5).Draw(t, "registered") {
		case 0: // by someone who takes the script from the spend, or does not know one
			in.Redeem = rapid.SampledFrom([][]byte{nil, {}, shown, {0x51}}).Draw(t, "redeem")
			registered = bytes.Equal(in.Redeem, body)
			c.Class("another script registered")
		}
		if kind == ref.WSH {
			in.Witness = items
		} else {
			for _, v := range items {
				in.Script = append(in.Script, ref.PushData(v)...)
			}
		}
		finish()
		if bytes.Equal(shown, body) {
			c.Nontrivial(x.Bytes(true), body)
		}
		want := x.Verify()
		c.Class(fmt.Sprintf("committed script shown=%v verdict=%v", bytes.Equal(shown, body), want))
		c.Sample("body %x items %x", body, items)
		if (!bytes.Equal(shown, body) || kind == ref.WSH && !registered) && want {
			panic("reference accepts another script")
		}
		if got := verdict(t, x); got != want {
			t.Fatalf("kind %d script %x items %x: verifies=%v want %v: %x", kind, body, items, got, want, x.Bytes(true))
		}
	})
	r.Run(t, "elements", 1200, 15, "script-hash coins whose script compares its element with another one, its length or its hash; the element shown is that one, or a near one of the same number value; all one-byte elements, lengths up to 600; non-trivial: the required element is presented", func(t *rapid.T, c *kit.Case) {
		var want []byte
		switch rapid.IntRange(0, 3).Draw(t, "len") {
		case 0:
			want = rapid.SampledFrom([][]byte{{}, {0}, {0x80}, {1}, {16}, {17}, {0x81}, {0, 0}, {0, 0x80}, {1, 0}, {0x4f}, {0x51}}).Draw(t, "edge")
		case 1:
			want = []byte{rapid.Byte().Draw(t, "b")}
		case 2:
			want = kit.Uniform(t, rapid.SampledFrom([]int{2, 74, 75, 76, 77, 80, 127, 128, 252, 253, 254, 255, 256, 257, 519, 520}).Draw(t, "n"), "w")
		case 3:
			want = kit.Bytes(t, 0, 520, "w")
		}
		shown := want
		switch rapid.IntRange(0, 5).Draw(t, "near") {
		case 0:
			shown = append(append([]byte{}, want...), 0)
		case 1:
			shown = want[:max(len(want)-1, 0)]
		case 2:
			shown = rapid.SampledFrom([][]byte{{}, {0}, {0x80}, {1}, {0x51}, {1, 0}}).Draw(t, "small")
		}
		var body []byte
		how := rapid.IntRange(0, 3).Draw(t, "how")
		switch how {
		case 0:
			body = append(append([]byte{0xa9}, ref.PushData(ref.Hash160(want))...), 0x87)
		case 1:
			body = append(append([]byte{0xa9}, ref.PushData(ref.Hash160(want))...), 0x88, 0x51)
		case 2:
			body = append(ref.PushData(want), 0x87)
		case 3:
			body = append(append([]byte{0x82}, ref.PushData(ref.NumEnc(int64(len(want))))...), 0x88, 0x75, 0x51)
		}
		co := &coin{kind: rapid.SampledFrom([]int{ref.SH, ref.WSH}).Draw(t, "kind"), txid: kit.Uniform(t, 32, "txid"), value: 9, redeem: body}
		if co.kind == ref.SH {
			co.lock = ref.Lock(co.kind, ref.Hash160(body))
		} else {
			co.lock = ref.Lock(co.kind, ref.Sha(body))
		}
		x := &ref.Tx{Version: 1, Ins: []*ref.TxIn{co.in()}, Outs: []*ref.TxOut{{Value: 5, Script: locking(t, "o")}}}
		at, finish := among(t, x)
		in := x.Ins[at]
		if co.kind == ref.WSH {
			in.Witness = [][]byte{shown, body}
		} else {
			in.Script = append(ref.PushData(shown), ref.PushData(body)...)
		}
		finish()
		right := bytes.Equal(shown, want) || how == 3 && len(shown) == len(want)
		if right {
			c.Nontrivial(x.Bytes(true), body)
		}
		c.Class(fmt.Sprintf("kind %d comparison %d right=%v", co.kind, how, right))
		c.Sample("body %x element %x", body, shown)
		if x.Verify() != right {
			panic("reference verdict")
		}
		if got := verdict(t, x); got != right {
			t.Fatalf("kind %d script %x element %x: verifies=%v want %v: %x", co.kind, body, shown, got, right, x.Bytes(true))
		}
	})
	r.Run(t, "copied", 400, 25, "2..4 inputs of which several spend coins of the same owner; some are signed, with any hash types, the others carry the unlocking data of a signed one; the reference's verdict; non-trivial: a copy to a coin of the same owner", func(t *rapid.T, c *kit.Case) {
		owner := newCoin(t, rapid.IntRange(1, 4).Draw(t, "kind"), 2, "owner")
		x := &ref.Tx{Version: 1}
		var cs []*coin
		for k := rapid.IntRange(2, 4).Draw(t, "n"); k > 0; k-- {
			co := *owner
			co.txid, co.n = kit.Uniform(t, 32, "txid"), uint32(rapid.IntRange(0, 2).Draw(t, "ix"))
			if len(cs) > 0 && rapid.IntRange(0, 2).Draw(t, "sametx") == 0 {
				co.txid = cs[0].txid
			}
			if rapid.Bool().Draw(t, "value") {
				co.value = rapid.Uint64Range(0, 1000).Draw(t, "v")
			}
			if rapid.IntRange(0, 5).Draw(t, "another") == 0 {
				co = *newCoin(t, owner.kind, 2, "another")
			}
			cs, x.Ins = append(cs, &co), append(x.Ins, co.in())
		}
		for k := rapid.IntRange(0, 3).Draw(t, "outs"); k > 0; k-- {
			x.Outs = append(x.Outs, &ref.TxOut{Value: amount(t, "v"), Script: locking(t, "o")})
		}
		ht := rapid.SampledFrom([]byte{1, 1, 2, 3, 0x81, 0x82, 0x83}).Draw(t, "ht")
		from := rapid.IntRange(0, len(cs)-1).Draw(t, "from")
		copies, own := 0, false
		for i, co := range cs {
			if i == from || i > 0 && rapid.IntRange(0, 2).Draw(t, "signed") == 0 {
				co.sign(x, i, co.scalars(co.signers(t, "s")), ht)
			} else {
				copies++
			}
		}
		for i, co := range cs {
			if in := x.Ins[i]; len(in.Script)+len(in.Witness) == 0 {
				in.Script, in.Witness = x.Ins[from].Script, x.Ins[from].Witness
				own = own || bytes.Equal(co.lock, cs[from].lock)
			}
		}
		if own {
			c.Nontrivial(x.Bytes(true))
		}
		want := x.Verify()
		c.Class(fmt.Sprintf("type %02x verdict %v", ht, want))
		c.Sample("%d copies, type %02x: %x", copies, ht, x.Bytes(true))
		if copies > 0 && want && (ht == 1 || owner.witness()) {
			dup := false // the same output spent twice, under a type that does not sign the others, signs the same
			for i := range cs {
				for j := range cs[:i] {
					dup = dup || bytes.Equal(cs[i].txid, cs[j].txid) && cs[i].n == cs[j].n
				}
			}
			if !dup {
				panic("reference accepts a copied authorisation")
			}
		}
		if got := verdict(t, x); got != want {
			t.Fatalf("%d copies of the unlocking data of input %d (kind %d, type %02x): verifies=%v want %v: %x", copies, from, owner.kind, ht, got, want, x.Bytes(true))
		}
	})
	r.Run(t, "scalarless", 60, 10, "decoded transactions whose spent outputs were not registered, or registered with scripts of no known kind, never verify; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		x, cs := wallet(t, 2, 2)
		for i, co := range cs {
			co.sign(x, i, co.scalars(co.signers(t, "s")), 1)
		}
		c.Nontrivial(x.Bytes(true))
		i := rapid.IntRange(0, len(cs)-1).Draw(t, "i")
		how := rapid.IntRange(0, 1).Draw(t, "how")
		ok := true
		kit.NoPanic(t, "Verify", func() {
			tx := xcore.NewTransaction()
			var err error
			if x.HasWitness() {
				err = tx.Deserialize(x.Bytes(true))
			} else {
				err = tx.DeserializeNoWitness(x.Bytes(false))
			}
			if err != nil {
				panic(err)
			}
			for j, in := range x.Ins {
				l := in.Locking
				if j == i {
					if how == 0 {
						continue
					}
					l = []byte{0x51}
				}
				if err := tx.SetTxIn(j, in.Value, l, in.Redeem); err != nil && j != i {
					panic(err)
				}
			}
			ok = tx.Verify() == nil
		})
		if ok {
			t.Fatalf("%x verifies although input %d has no spent output", x.Bytes(true), i)
		}
	})
}

func TestP33(t *testing.T) {
	r := kit.New(t, "P33", "policies up to 4 keys exhaustively over short signature lists, up to 20 keys at random")
	spend := func(t *rapid.T, c *kit.Case, co *coin, list []int) {
		types := hashTypes
		if rapid.Bool().Draw(t, "onetype") {
			types = types[:1]
		}
		x := &ref.Tx{Version: 1, Ins: []*ref.TxIn{co.in()}, Outs: []*ref.TxOut{{Value: 5, Script: locking(t, "o")}, {Value: 6, Script: locking(t, "o2")}}}
		var sigs [][]byte
		foreign := big.NewInt(0xf0f0f0f0f1)
		for _, k := range list {
			ht := rapid.SampledFrom(types).Draw(t, "ht")
			d, y := foreign, x
			switch {
			case k >= 0:
				d = co.d[k]
			case k == -2:
				d = co.d[rapid.IntRange(0, len(co.d)-1).Draw(t, "who")]
				y = x.Clone()
				y.Version ^= 0x10000
			case k == -3:
				sigs = append(sigs, []byte{})
				continue
			case k == -4:
				junk := kit.Bytes(t, 1, 75, "junk")
				if rapid.IntRange(0, 2).Draw(t, "small") == 0 { // well-formed, of small numbers
					junk = append(ref.DER(big.NewInt(int64(rapid.IntRange(1, 300).Draw(t, "r"))), big.NewInt(int64(rapid.IntRange(1, 300).Draw(t, "s")))), ht)
				}
				sigs = append(sigs, junk)
				continue
			}
			rr, ss := ref.EcdsaSign(d, y.SigHash(0, uint32(ht)))
			sigs = append(sigs, append(ref.DER(rr, ss), ht))
		}
		co.unlock(x.Ins[0], sigs)
		// exactly m different policy keys in policy order
		want := len(list) == co.m
		last := -1
		for _, k := range list {
			want = want && k > last
			last = k
		}
		c.Nontrivial(x.Bytes(true), fmt.Sprint(list))
		c.Class(fmt.Sprintf("kind %d accepted=%v", co.kind, want))
		c.Sample("%d of %d kind %d list %v", co.m, len(co.d), co.kind, list)
		if len(list) <= co.m {
			if x.Verify() != want {
				panic(fmt.Sprintf("reference disagrees with the threshold rule: %d of %d list %v", co.m, len(co.d), list))
			}
		} else {
			want = x.Verify() // surplus elements: the engine's stack rule decides
			c.Class("surplus")
		}
		if got := verdict(t, x); got != want {
			t.Fatalf("%d of %d kind %d signatures of %v: verifies=%v want %v: %x", co.m, len(co.d), co.kind, list, got, want, x.Bytes(true))
		}
		// the same list embedded by the library
		tx := direct(t, &ref.Tx{Version: x.Version, LockTime: x.LockTime, Outs: x.Outs, Ins: []*ref.TxIn{co.in()}})
		var signs []xcore.PubKeySign
		for _, s := range sigs {
			signs = append(signs, xcore.PubKeySign{PubKey: pub(co.d[0], true), Signature: s})
		}
		var err error
		kit.NoPanic(t, "embedding", func() {
			if err = tx.EmbedIdxSignature(0, signs); err == nil {
				err = tx.Verify()
			}
		})
		if (err == nil) != want {
			t.Fatalf("%d of %d kind %d embedded signatures of %v: %v, want accepted=%v", co.m, len(co.d), co.kind, list, err, want)
		}
		if !want || err != nil {
			return
		}
		// they authorise nothing else, neither here nor in a transaction decoded anew
		y := x.Clone()
		switch rapid.IntRange(0, 2).Draw(t, "elsewhere") {
		case 0:
			y.LockTime ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
			tx.SetLockTime(y.LockTime)
		case 1:
			y.Version ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
			tx.SetVersion(y.Version)
		case 2:
			y.Outs = append(y.Outs, &ref.TxOut{Value: 7, Script: []byte{0x51}})
			tx.AddOutput(xcore.NewTxOut(7, []byte{0x51}))
		}
		want = y.Verify() // some types leave outputs open
		if got := tx.Verify() == nil; got != want {
			t.Fatalf("%d of %d kind %d, then changed: verifies=%v want %v: %x, signed as %x", co.m, len(co.d), co.kind, got, want, y.Bytes(true), x.Bytes(true))
		}
		if got := verdict(t, y); got != want {
			t.Fatalf("%d of %d kind %d, decoded after the change: verifies=%v want %v: %x, signed as %x", co.m, len(co.d), co.kind, got, want, y.Bytes(true), x.Bytes(true))
		}
	}
	r.Run(t, "lists", 500, 25, "m-of-n with n up to 4, signature lists of up to m+1 elements by policy keys (repeated, out of order), foreign keys, over other data, empty or junk; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		co := newCoin(t, rapid.SampledFrom([]int{ref.SH, ref.WSH}).Draw(t, "kind"), 4, "coin")
		var list []int
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			list = co.signers(t, "s")
		case 1: // a right list with one element wrong
			list = co.signers(t, "s")
			list[rapid.IntRange(0, len(list)-1).Draw(t, "i")] = rapid.SampledFrom([]int{-1, -2, -3, -4, 0, len(co.d) - 1}).Draw(t, "w")
		case 2: // permuted
			list = rapid.Permutation(co.signers(t, "s")).Draw(t, "p")
		default:
			for k := rapid.IntRange(0, co.m+1).Draw(t, "n"); k > 0; k-- {
				list = append(list, rapid.OneOf(rapid.IntRange(0, len(co.d)-1), rapid.IntRange(-4, len(co.d)-1)).Draw(t, "k"))
			}
		}
		spend(t, c, co, list)
	})
	r.Run(t, "among", 80, 20, "one policy coin anywhere among up to 620 inputs that need no signature, rightly signed, by other keys, by too few, not at all, or changed afterwards: the reference's verdict; non-trivial: always", wideVerdict(true))
	r.Run(t, "wide", 60, 20, "policies up to 20 keys: a right list, or one with a neighbouring fault; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		co := newCoin(t, rapid.SampledFrom([]int{ref.SH, ref.WSH}).Draw(t, "kind"), 20, "coin")
		list := co.signers(t, "s")
		i := rapid.IntRange(0, len(list)-1).Draw(t, "i")
		j := rapid.IntRange(0, len(list)-1).Draw(t, "j")
		switch rapid.IntRange(0, 5).Draw(t, "how") {
		case 0:
			list[i], list[j] = list[j], list[i]
		case 1, 2: // one key twice
			if i > 0 {
				list[i] = list[i-1]
			} else if len(list) > 1 {
				list[0] = list[1]
			}
		case 3:
			list = list[:len(list)-1]
		case 4: // one not by a policy key
			list[i] = rapid.SampledFrom([]int{-1, -2, -3, -4}).Draw(t, "w")
		}
		spend(t, c, co, list)
	})
	r.Run(t, "all", 40, 20, "n-of-n policies, n up to 20: all signatures, or one of them wrong or missing, mostly at an end; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		co := newCoin(t, rapid.SampledFrom([]int{ref.SH, ref.WSH}).Draw(t, "kind"), 1, "coin")
		n := rapid.OneOf(rapid.IntRange(2, 20), rapid.IntRange(15, 20)).Draw(t, "n")
		co.d, co.comp, co.m = distinct(t, n, "d"), make([]bool, n), n
		if rapid.IntRange(0, 2).Draw(t, "oneless") == 0 {
			co.m = n - 1
		}
		var pubs [][]byte
		for i := range co.d {
			co.comp[i] = true
			pubs = append(pubs, pub(co.d[i], true))
		}
		if co.kind == ref.SH && n > 15 { // beyond the size of a pushed element elsewhere, not here
			c.Class("long redeem script")
		}
		co.setPolicy(pubs)
		list := co.signers(t, "s")
		i := rapid.SampledFrom([]int{0, co.m - 1, co.m / 2}).Draw(t, "i")
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0, 1:
			list[i] = rapid.SampledFrom([]int{-1, -2, -3, -4}).Draw(t, "w")
		case 2:
			list = append(list[:i:i], list[i+1:]...)
		case 3:
			list[i] = list[rapid.IntRange(0, co.m-1).Draw(t, "j")]
		}
		spend(t, c, co, list)
	})
	r.Run(t, "repeated-keys", 150, 20, "policies naming a key several times (adjacent or apart), spent with that many signatures by it; the reference's verdict; the policy script is the one the policy says; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		co := newCoin(t, rapid.SampledFrom([]int{ref.SH, ref.WSH}).Draw(t, "kind"), 1, "coin")
		n := rapid.IntRange(2, 6).Draw(t, "n")
		ks := distinct(t, rapid.IntRange(1, n-1).Draw(t, "different"), "d")
		var pubs [][]byte
		co.d, co.comp = nil, nil
		for k := 0; k < n; k++ {
			co.d, co.comp = append(co.d, ks[rapid.IntRange(0, len(ks)-1).Draw(t, "which")]), append(co.comp, rapid.IntRange(0, 3).Draw(t, "penc") > 0)
			pubs = append(pubs, pub(co.d[k], co.comp[k]))
		}
		co.m = rapid.IntRange(1, n).Draw(t, "m")
		co.setPolicy(pubs)
		if got, err := xcore.NewPayToMultiSigScript(co.m, pubs...).GetLockingScriptBytes(); err != nil || !bytes.Equal(got, co.redeem) {
			t.Fatalf("%d of %d keys, %d different: script %x (%v) want %x", co.m, n, len(ks), got, err, co.redeem)
		}
		// the policy of the same keys in another order or with another threshold is another one
		pubs2 := append([][]byte{}, pubs...)
		for k := range pubs2 {
			j := rapid.IntRange(k, n-1).Draw(t, "to")
			pubs2[k], pubs2[j] = pubs2[j], pubs2[k]
		}
		m2 := co.m
		if rapid.Bool().Draw(t, "otherm") {
			m2 = rapid.IntRange(1, n).Draw(t, "m2")
		}
		if got, err := xcore.GenMultiSigScript(m2, pubs2...); err != nil || !bytes.Equal(got, ref.MultiSig(m2, pubs2...)) {
			t.Fatalf("%d of %x, after %d of %x: script %x (%v)", m2, pubs2, co.m, pubs, got, err)
		}
		x := &ref.Tx{Version: 1, Ins: []*ref.TxIn{co.in()}, Outs: []*ref.TxOut{{Value: 5, Script: locking(t, "o")}}}
		var sigs [][]byte
		var list []*big.Int
		if rapid.Bool().Draw(t, "right") {
			list = co.scalars(co.signers(t, "s"))
		} else {
			for k := 0; k < co.m; k++ {
				list = append(list, ks[rapid.IntRange(0, len(ks)-1).Draw(t, "k")])
			}
		}
		for _, d := range list {
			rr, ss := ref.EcdsaSign(d, x.SigHash(0, 1))
			sigs = append(sigs, append(ref.DER(rr, ss), 1))
		}
		co.unlock(x.Ins[0], sigs)
		// the list must be found in the policy in order
		at := 0
		for _, d := range list {
			for at < n && co.d[at].Cmp(d) != 0 {
				at++
			}
			at++
		}
		want := at <= n
		c.Nontrivial(x.Bytes(true))
		c.Class(fmt.Sprint("accepted ", want))
		c.Sample("%d of %d, %d different: %v", co.m, n, len(ks), want)
		if x.Verify() != want {
			panic("reference disagrees with the order rule")
		}
		if got := verdict(t, x); got != want {
			t.Fatalf("%d of %d keys, %d different, kind %d: verifies=%v want %v: %x", co.m, n, len(ks), co.kind, got, want, x.Bytes(true))
		}
	})
	r.Run(t, "limits", 200, 10, "policy scripts at and beyond the limits (m from -1 to n+1, n from 0 to 23): made exactly when 1 <= m <= n <= 20, and then as the policy says; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		n := rapid.OneOf(rapid.IntRange(0, 23), rapid.IntRange(19, 22)).Draw(t, "n")
		m := rapid.OneOf(rapid.IntRange(-1, n+1), rapid.IntRange(max(n-2, 0), n+1), rapid.SampledFrom([]int{-1 << 40, 1 << 40, 16, 17, 20, 21})).Draw(t, "m")
		var pubs [][]byte
		for k := 0; k < n; k++ {
			pubs = append(pubs, kit.Uniform(t, 33, "key"))
		}
		ok := m >= 1 && m <= n && n <= 20
		c.Nontrivial(m, n, fmt.Sprintf("%x", pubs))
		c.Class(fmt.Sprint("made ", ok))
		c.Sample("%d of %d", m, n)
		var got, got2, h, h2 []byte
		var err, err2, err3, err4 error
		kit.NoPanic(t, fmt.Sprintf("policy %d of %d", m, n), func() {
			s := xcore.NewPayToMultiSigScript(m, pubs...)
			got, err = s.GetLockingScriptBytes()
			got2, err2 = xcore.GenMultiSigScript(m, pubs...)
			h, err3 = s.Hash160()
			h2, err4 = s.Sha256()
		})
		for _, e := range []error{err, err2, err3, err4} {
			if (e == nil) != ok {
				t.Fatalf("policy %d of %d: %v", m, n, e)
			}
		}
		if !ok {
			return
		}
		want := ref.MultiSig(m, pubs...)
		if !bytes.Equal(got, want) || !bytes.Equal(got2, want) || !bytes.Equal(h, ref.Hash160(want)) || !bytes.Equal(h2, ref.Sha(want)) {
			t.Fatalf("policy %d of %d: script %x %x hashes %x %x, want %x", m, n, got, got2, h, h2, want)
		}
	})
}

func TestP26(t *testing.T) {
	r := kit.New(t, "P26", "totals are limited to 63 bits", "a group's later coin or payment replaces its earlier one",
		"with a relay rate the fee is floor(rate * estimate / 1000), the estimate being EstimateSize of the inputs and payments plus the data lengths")
	r.Run(t, "build", 150000, 30, "coins, payments, change, data outputs, fee settings and omissions against a model of the amounts; non-trivial: a transaction results, or is refused for its amounts", func(t *rapid.T, c *kit.Case) {
		b := xcore.NewTransactionBuilder()
		x := &ref.Tx{Version: 1}
		in, out := new(big.Int), new(big.Int)
		fail := "" // why an error is due
		maxI := big.NewInt(math.MaxInt64)
		value := func(l string) uint64 {
			switch rapid.IntRange(0, 14).Draw(t, l+".k") {
			case 0:
				return rapid.SampledFrom([]uint64{0, 1, 1 << 32, 1<<62 + 5, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(t, l)
			case 1:
				return rapid.Uint64Range(0, 3000).Draw(t, l)
			}
			return rapid.Uint64Range(0, 300000000).Draw(t, l)
		}
		var txins []*xcore.TxIn
		var txouts []*xcore.TxOut
		first, kc := true, 0 // kc: coins that have keys
		then := func() {
			if !first {
				b.Then()
			}
			first = false
		}
		addCoin := func() {
			kind := rapid.IntRange(1, 4).Draw(t, "kind")
			co := &coin{kind: kind, txid: kit.Uniform(t, 32, "txid"), n: word(t, "n"), value: value("cv"), lock: ref.Lock(kind, kit.Uniform(t, hashLen(kind), "ch"))}
			if rapid.IntRange(0, 80).Draw(t, "badid") == 0 {
				co.txid = co.txid[:rapid.IntRange(0, 31).Draw(t, "idl")]
				fail = "transaction id"
			}
			if rapid.IntRange(0, 15).Draw(t, "replaced") == 0 { // by the coin below
				b.AddCoin((&coin{txid: kit.Uniform(t, 32, "rid"), value: value("rv"), lock: ref.Lock(ref.PKH, kit.Uniform(t, 20, "rh"))}).coin()).AddKeys(prv(big.NewInt(5)))
				c.Class("replaced coin")
				if rapid.Bool().Draw(t, "unkeyed") {
					b.AddKeys()
				} else {
					kc++
				}
			} else if rapid.IntRange(0, 3).Draw(t, "key") == 0 {
				b.AddKeys(prv(big.NewInt(5)))
				kc++
			} else if rapid.IntRange(0, 2).Draw(t, "emptykeys") == 0 {
				b.AddKeys(co.keys(nil)...)
			}
			b.AddCoin(co.coin())
			if kind == ref.WSH || kind == ref.SH {
				b.SetRedeemScript([]byte{0x51})
			}
			if in.Add(in, new(big.Int).SetUint64(co.value)); in.Cmp(maxI) > 0 {
				fail = "overflow"
			}
			x.Ins = append(x.Ins, co.in())
			if v, err := xcore.NewTxIn(co.txid, co.n, co.value, co.lock, []byte{0x51}); err == nil {
				txins = append(txins, v)
			} else {
				t.Fatalf("input: %v", err)
			}
		}
		pay := func(v uint64) {
			kind := rapid.IntRange(1, 4).Draw(t, "okind")
			h := kit.Uniform(t, hashLen(kind), "oh")
			if rapid.IntRange(0, 15).Draw(t, "replacedpay") == 0 {
				b.To(newAddr(ref.PKH, kit.Uniform(t, 20, "rp")), value("rpv"))
			}
			if rapid.IntRange(0, 80).Draw(t, "nil") == 0 {
				b.To(nil, v)
				fail = "no destination"
			} else {
				b.To(newAddr(kind, h), v)
			}
			if out.Add(out, new(big.Int).SetUint64(v)); out.Cmp(maxI) > 0 {
				fail = "overflow"
			}
			x.Outs = append(x.Outs, &ref.TxOut{Value: v, Script: ref.Lock(kind, h)})
			txouts = append(txouts, xcore.NewTxOut(v, ref.Lock(kind, h)))
		}
		// groups hold a coin, a payment, both or nothing
		nc, np := rapid.IntRange(0, 4).Draw(t, "coins"), rapid.IntRange(0, 4).Draw(t, "pays")
		if rapid.IntRange(0, 3).Draw(t, "some") > 0 {
			nc, np = max(nc, 1), max(np, 1)
		}
		paid := func() uint64 {
			// mostly within what is there
			rest := new(big.Int).Sub(in, out)
			if rapid.IntRange(0, 3).Draw(t, "fit") > 0 && rest.Sign() > 0 && rest.IsUint64() {
				m := rest.Uint64()
				if rapid.IntRange(0, 3).Draw(t, "edge") == 0 {
					return m - min(m, rapid.SampledFrom([]uint64{0, 1, 999, 1000, 1001, 2000}).Draw(t, "below"))
				}
				return rapid.Uint64Range(0, m).Draw(t, "pv")
			}
			return value("pv")
		}
		for i := 0; i < nc; i++ {
			then()
			addCoin()
			if np > 0 && rapid.IntRange(0, 2).Draw(t, "same") == 0 {
				pay(paid())
				np--
			}
		}
		for i := 0; i < np; i++ {
			then()
			pay(paid())
		}
		if rapid.IntRange(0, 5).Draw(t, "trailing") == 0 {
			b.Then()
		}
		if len(x.Ins) == 0 {
			fail = "no coins"
		} else if len(x.Outs) == 0 {
			fail = "no payments"
		}
		base := fail // of the coins and payments
		pays := x.Outs
		sendFee, maxFee, rate := big.NewInt(1000), big.NewInt(100000000), int64(0)
		var datas [][]byte
		hasChange, changeKind, ch := false, 0, []byte(nil)
		setFee := func() {
			f := rapid.OneOf(rapid.Uint64Range(0, 5000), rapid.SampledFrom([]uint64{0, 99999999, 100000000, 100000001, 1<<63 - 1, 1 << 63, 1<<64 - 1})).Draw(t, "fee")
			if rest := new(big.Int).Sub(in, out); rapid.IntRange(0, 3).Draw(t, "feeedge") == 0 && rest.Sign() > 0 && rest.IsUint64() {
				f = rest.Uint64() + uint64(rapid.IntRange(0, 2).Draw(t, "d")) - 1
			}
			b.SendFees(f)
			sendFee.SetUint64(f)
		}
		setMax := func() {
			m := rapid.OneOf(rapid.Int64Range(0, 10000), rapid.SampledFrom([]int64{0, 1, 1<<63 - 1, -1, 999, 1000, 1001})).Draw(t, "max")
			if rapid.Bool().Draw(t, "atfee") && sendFee.IsInt64() {
				m = sendFee.Int64() + int64(rapid.IntRange(-1, 1).Draw(t, "md"))
			}
			b.SetMaxFees(m)
			maxFee.SetInt64(m)
		}
		setRate := func() {
			rate = rapid.OneOf(rapid.Int64Range(1, 100000), rapid.SampledFrom([]int64{0, -5, 1, 1<<63 - 1, 1 << 40})).Draw(t, "rate")
			b.SetRelayFeePerKb(rate)
		}
		setChange := func() {
			changeKind = rapid.IntRange(1, 4).Draw(t, "ckind")
			ch = kit.Uniform(t, hashLen(changeKind), "chh")
			hasChange = rapid.IntRange(0, 5).Draw(t, "change") > 0
			if hasChange {
				b.SetChange(newAddr(changeKind, ch))
			} else if rapid.Bool().Draw(t, "nilchange") {
				b.SetChange(nil)
			}
		}
		addData := func() {
			d := kit.Bytes(t, 2, 90, "data")
			if kit.Uniform(t, 1, "longdata")[0] < 3 {
				d = kit.Uniform(t, rapid.SampledFrom([]int{255, 256, 520, 521, 1000, 1001, 5000, 65535, 65536, 70000}).Draw(t, "datasize"), "data")
			}
			b.AddPushData(d)
			datas = append(datas, d)
		}
		setLock := func() {
			x.LockTime = word(t, "lock")
			b.SetLockTime(x.LockTime)
		}
		if rapid.IntRange(0, 3).Draw(t, "decoys") == 0 { // settings that later ones replace
			b.SendFees(word64(t, "dfee")).SetMaxFees(int64(word64(t, "dmax"))).SetRelayFeePerKb(int64(word64(t, "drate"))).SetLockTime(word(t, "dlock"))
			b.SetRelayFeePerKb(0)
			setFee()
			setMax()
			c.Class("replaced settings")
		} else {
			if rapid.IntRange(0, 2).Draw(t, "setfee") > 0 {
				setFee()
			}
			if rapid.IntRange(0, 3).Draw(t, "setmax") == 0 {
				setMax()
			}
		}
		for k := rapid.IntRange(0, 4).Draw(t, "datas") * rapid.IntRange(0, 1).Draw(t, "hasdata"); k > 0; k-- {
			addData()
		}
		if rapid.IntRange(0, 2).Draw(t, "relay") == 0 {
			setRate()
		}
		setLock()
		setChange()
		check := func(when string) {
			fail, fee := base, new(big.Int).Set(sendFee)
			feeFail := fee.Cmp(maxI) > 0
			if rate > 0 && !feeFail && fail == "" {
				size := xcore.EstimateSize(txins, txouts)
				for _, d := range datas {
					size += int64(len(d))
				}
				fee.SetInt64(bigFee(size, rate))
				c.Class("relay rate")
			}
			rest := new(big.Int).Sub(in, out)
			rest.Sub(rest, fee)
			switch {
			case fail != "":
			case feeFail || fee.Cmp(maxFee) > 0:
				fail = "fee too high"
			case rest.Sign() < 0:
				fail = "not enough"
			case rest.Sign() > 0 && !hasChange:
				fail = "no change address"
			}
			x.Outs = append([]*ref.TxOut{}, pays...)
			if rest.Sign() > 0 {
				x.Outs = append(x.Outs, &ref.TxOut{Value: rest.Uint64(), Script: ref.Lock(changeKind, ch)})
			}
			for _, d := range datas {
				x.Outs = append(x.Outs, &ref.TxOut{Script: append([]byte{0x6a}, ref.PushData(d)...)})
			}
			if fail == "" || fail == "not enough" || fail == "overflow" || fail == "fee too high" {
				c.Nontrivial(in, out, fee, maxFee, x.Bytes(false))
			}
			c.Class("outcome: " + fail)
			c.Sample("in %v out %v fee %v max %v change %v: %q", in, out, fee, maxFee, hasChange, fail)
			var tx *xcore.Transaction
			var err error
			kit.NoPanic(t, "BuildTransaction", func() { tx, err = b.BuildTransaction() })
			if fail != "" {
				if err == nil || tx != nil {
					t.Fatalf("%sin %v out %v fee %v max %v: built %v (%v), must be refused: %s", when, in, out, fee, maxFee, tx != nil, err, fail)
				}
				return
			}
			if err != nil {
				t.Fatalf("%sin %v out %v fee %v max %v change %v: %v", when, in, out, fee, maxFee, hasChange, err)
			}
			if e := same(tx, x); e != nil {
				t.Fatalf("%sin %v out %v fee %v: %v", when, in, out, fee, e)
			}
			if int64(tx.Fees()) != fee.Int64() {
				t.Fatalf("%sfees %d want %v", when, tx.Fees(), fee)
			}
		}
		check("")
		// the same builder with other settings
		for k := rapid.IntRange(0, 2).Draw(t, "again"); k > 0; k-- {
			c.Class("built again")
			switch rapid.IntRange(0, 7).Draw(t, "then") {
			case 0:
				setFee()
			case 1:
				setMax()
			case 2:
				setRate()
			case 3:
				setChange()
				if !hasChange {
					b.SetChange(nil)
				}
			case 4:
				addData()
			case 5:
				setLock()
			case 6:
				if base == "" {
					x.Outs = append([]*ref.TxOut{}, pays...)
					b.Then()
					pay(paid())
					base, pays = fail, x.Outs
				}
			case 7:
				b.SetRelayFeePerKb(0)
				rate = 0
			}
			check("built again: ")
		}
		if rapid.IntRange(0, 15).Draw(t, "sign") == 0 && base == "" && kc < len(x.Ins) {
			b.Sign()
			base = "no keys"
			check("signing without keys: ")
		}
	})
	r.Run(t, "wide", 150, 20, "up to 620 coins, payments and data outputs in one transaction, not signed; non-trivial: always", wideBuild(false))
	r.Run(t, "malformed", 8000, 10, "one coin of an otherwise valid payment has a malformed id, script text or an unsupported locking script; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		build := func(damage bool) (*xcore.Transaction, error, string) {
			b := xcore.NewTransactionBuilder()
			n := rapid.IntRange(1, 3).Draw(t, "coins")
			at := rapid.IntRange(0, n-1).Draw(t, "at")
			what := ""
			for i := 0; i < n; i++ {
				id, script := rev(kit.Uniform(t, 32, "id")), fmt.Sprintf("%x", ref.Lock(ref.PKH, kit.Uniform(t, 20, "h")))
				if damage && i == at {
					switch rapid.IntRange(0, 5).Draw(t, "damage") {
					case 5:
						id += strings.Repeat(rapid.SampledFrom([]string{"0", "00", "f1"}).Draw(t, "c"), rapid.SampledFrom([]int{1, 2, 16, 32, 96, 128, 224, 256, 512}).Draw(t, "surplus"))
						what = "id " + id
					case 0:
						k := rapid.IntRange(0, 63).Draw(t, "k")
						id = id[:k] + rapid.SampledFrom([]string{"g", " ", "", "-", "0x"}).Draw(t, "c") + id[k+1:]
						what = "id " + id
					case 1:
						k := rapid.IntRange(0, 49).Draw(t, "k")
						script = script[:k] + rapid.SampledFrom([]string{"g", " ", "", "-", "x"}).Draw(t, "c") + script[k+1:]
						what = "script " + script
					case 2:
						raw := ref.Lock(rapid.IntRange(1, 4).Draw(t, "k"), kit.Uniform(t, 32, "h2"))
						raw = kit.Mutate(t, raw, "mut")
						if k, _ := ref.Kind(raw); k != 0 {
							raw = append(raw, 0x75)
						}
						script = fmt.Sprintf("%x", raw)
						what = "locking script " + script
					case 3:
						script = ""
						what = "no script"
					case 4:
						id = id[:2*rapid.IntRange(0, 31).Draw(t, "idl")]
						what = "id " + id
					}
				}
				coin := xcore.NewCoinBuilder().AddOutput(id, uint32(i), 10000, script).ToCoins()[0]
				b.AddCoin(coin).Then()
			}
			b.To(newAddr(ref.PKH, kit.Uniform(t, 20, "to")), 5000).SetChange(newAddr(ref.PKH, kit.Uniform(t, 20, "ch")))
			var tx *xcore.Transaction
			var err error
			kit.NoPanic(t, "BuildTransaction with "+what, func() { tx, err = b.BuildTransaction() })
			return tx, err, what
		}
		if tx, err, _ := build(false); err != nil || tx == nil {
			t.Fatalf("payment: %v", err)
		}
		tx, err, what := build(true)
		c.Nontrivial(what)
		c.Sample("%s: %v", what, err)
		if err == nil || tx != nil {
			t.Fatalf("coin with %s is built into %v (%v)", what, tx != nil, err)
		}
	})
}

// live follows one transaction object: signed, changed, put back, registered anew, signed again, with the verdict after every step.
func live(t *rapid.T, c *kit.Case) {
	dup := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	x, cs := wallet(t, 2, 2)
	x.Version = word(t, "version")
	var tx *xcore.Transaction
	var ins []*xcore.TxIn
	var outs []*xcore.TxOut
	addIn := func(in *ref.TxIn) {
		v, err := xcore.NewTxIn(dup(in.Hash), in.Index, in.Value, dup(in.Locking), dup(in.Redeem))
		if err != nil {
			t.Fatalf("input: %v", err)
		}
		v.Sequence = in.Seq
		tx.AddInput(v)
		ins = append(ins, v)
	}
	addOut := func(o *ref.TxOut) {
		v := xcore.NewTxOut(o.Value, dup(o.Script))
		tx.AddOutput(v)
		outs = append(outs, v)
	}
	var log []string
	say := func(f string, a ...any) { log = append(log, fmt.Sprintf(f, a...)) }
	handles := rapid.IntRange(0, 3).Draw(t, "decoded") > 0 // the inputs and outputs are at hand
	if handles {
		tx = xcore.NewTransaction()
		tx.SetVersion(x.Version)
		tx.SetLockTime(x.LockTime)
		for _, in := range x.Ins {
			addIn(in)
		}
		for _, o := range x.Outs {
			addOut(o)
		}
	} else {
		for i, co := range cs {
			co.sign(x, i, co.scalars(co.signers(t, "s")), co.hashType)
		}
		var err error
		if tx, err = load(x); err != nil {
			t.Fatalf("%v: %x", err, x.Bytes(true))
		}
		say("decoded %x", x.Bytes(true))
	}
	seen := map[bool]int{}
	turns, last := 0, false
	check := func() {
		want := x.Verify()
		for round := 0; round < 2; round++ {
			var err error
			kit.NoPanic(t, "Verify", func() { err = tx.Verify() })
			if (err == nil) != want {
				t.Fatalf("after %v: %v, want verifies=%v: %x", log, err, want, x.Bytes(true))
			}
			if rapid.IntRange(0, 3).Draw(t, "again") > 0 {
				break
			}
		}
		seen[want]++
		if want != last {
			turns++
		}
		last = want
	}
	right := func(i int) bool {
		return bytes.Equal(x.Ins[i].Locking, cs[i].lock) && bytes.Equal(x.Ins[i].Redeem, cs[i].redeem)
	}
	sign := func(i int) {
		co := cs[i]
		if !right(i) {
			return
		}
		idx, ht := co.signers(t, "s"), byte(1)
		if rapid.IntRange(0, 2).Draw(t, "type") == 0 {
			ht = rapid.SampledFrom(hashTypes).Draw(t, "ht")
		}
		if err := tx.SignIndex(i, co.compressed, xcore.SigHashType(ht), co.keys(idx)...); err != nil {
			t.Fatalf("after %v: signing input %d: %v", log, i, err)
		}
		co.sign(x, i, co.scalars(idx), ht)
		say("sign %d type %02x", i, ht)
	}
	register := func(i int, v uint64, lock, redeem []byte) {
		var err error
		kit.NoPanic(t, "SetTxIn", func() { err = tx.SetTxIn(i, v, dup(lock), dup(redeem)) })
		if err == nil {
			x.Ins[i].Value, x.Ins[i].Locking, x.Ins[i].Redeem = v, lock, redeem
		} else if k, _ := ref.Kind(lock); bytes.Equal(lock, cs[i].lock) && bytes.Equal(redeem, cs[i].redeem) && (k == ref.PKH || k == ref.SH || len(x.Ins[i].Script) == 0) {
			t.Fatalf("after %v: registering input %d: %v", log, i, err)
		}
		say("SetTxIn %d value %d script %x redeem script %x %v", i, v, lock, redeem, err)
	}
	any := func() int { return rapid.IntRange(0, len(x.Ins)-1).Draw(t, "i") }
	check()
	for k := rapid.IntRange(3, 9).Draw(t, "steps"); k > 0; k-- {
		var undo func()
		op := rapid.IntRange(0, 11).Draw(t, "op")
		if len(x.Ins) > 3 && op == 7 {
			op = 8
		}
		switch op {
		case 0:
			v, l := x.Version, x.LockTime
			x.Version ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
			if rapid.Bool().Draw(t, "both") {
				x.LockTime ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit2")
			}
			tx.SetVersion(x.Version)
			tx.SetLockTime(x.LockTime)
			say("version %x lock time %x", x.Version, x.LockTime)
			undo = func() {
				x.Version, x.LockTime = v, l
				tx.SetVersion(v)
				tx.SetLockTime(l)
			}
		case 1:
			if !handles {
				continue
			}
			i := any()
			in, save := x.Ins[i], *x.Ins[i]
			put := func() {
				ins[i].Hash, ins[i].Index, ins[i].Sequence, ins[i].Value = dup(in.Hash), in.Index, in.Seq, in.Value
			}
			switch rapid.IntRange(0, 3).Draw(t, "field") {
			case 0:
				in.Hash = dup(in.Hash)
				in.Hash[rapid.IntRange(0, 31).Draw(t, "b")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
			case 1:
				in.Index ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
			case 2:
				in.Seq ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
			case 3:
				in.Value ^= 1 << rapid.IntRange(0, 62).Draw(t, "bit")
			}
			put()
			say("input %d %x:%x sequence %x value %d", i, in.Hash, in.Index, in.Seq, in.Value)
			undo = func() {
				in.Hash, in.Index, in.Seq, in.Value = save.Hash, save.Index, save.Seq, save.Value
				put()
			}
		case 2:
			if !handles || len(x.Outs) == 0 {
				continue
			}
			j := rapid.IntRange(0, len(x.Outs)-1).Draw(t, "j")
			o, save := x.Outs[j], *x.Outs[j]
			put := func() { outs[j].Value, outs[j].Script = o.Value, dup(o.Script) }
			if rapid.Bool().Draw(t, "amount") {
				o.Value ^= 1 << rapid.IntRange(0, 62).Draw(t, "bit")
			} else {
				o.Script = append(dup(o.Script), 0x61)
			}
			put()
			say("output %d %d %x", j, o.Value, o.Script)
			undo = func() {
				*o = save
				put()
			}
		case 3, 4: // the spent output is said to be another one
			i := any()
			save := *x.Ins[i]
			in := x.Ins[i]
			var adopt *coin
			v, lock, redeem := in.Value, dup(in.Locking), dup(in.Redeem)
			switch rapid.IntRange(0, 7).Draw(t, "other") {
			case 0, 1:
				v = rapid.SampledFrom([]uint64{0, v + 1, v ^ 1<<32}).Draw(t, "v")
			case 2:
				lock[4+rapid.IntRange(0, 14).Draw(t, "b")] ^= 1
			case 3:
				redeem = rapid.SampledFrom([][]byte{nil, {}, {0x51}, append([]byte{0x61}, redeem...)}).Draw(t, "redeem")
			case 4, 7: // another coin altogether
				co := newCoin(t, rapid.IntRange(1, 4).Draw(t, "kind"), 2, "other")
				v, lock, redeem, adopt = co.value, co.lock, co.redeem, co
			case 5: // the coin of another input
				co := cs[any()]
				lock, redeem = co.lock, co.redeem
			case 6:
				lock = append(lock, 0x61)
			}
			register(i, v, lock, redeem)
			if adopt != nil && bytes.Equal(in.Locking, lock) && rapid.Bool().Draw(t, "adopt") {
				cs[i] = adopt // from now on this coin is spent there
				say("adopted")
				break
			}
			undo = func() { register(i, save.Value, save.Locking, save.Redeem) }
		case 5:
			if !handles { // a decoded transaction grows as well
				continue
			}
			i, j := any(), any()
			if cs[i].witness() || cs[j].witness() || i == j && rapid.Bool().Draw(t, "other") {
				continue
			}
			a, b := x.Ins[i].Script, x.Ins[j].Script
			set := func(a, b []byte) {
				x.Ins[i].Script, x.Ins[j].Script = a, b
				ins[i].RawUnlockingScript, ins[j].RawUnlockingScript = dup(a), dup(b)
			}
			if k, _ := ref.Kind(x.Ins[i].Locking); k != ref.PKH && k != ref.SH {
				continue
			}
			if k, _ := ref.Kind(x.Ins[j].Locking); k != ref.PKH && k != ref.SH {
				continue
			}
			if i == j {
				set(nil, nil)
			} else {
				set(b, a)
			}
			say("scriptSigs of %d and %d exchanged", i, j)
			undo = func() { set(a, b) }
		case 6:
			o := &ref.TxOut{Value: amount(t, "v"), Script: locking(t, "o")}
			x.Outs = append(x.Outs, o)
			addOut(o)
			say("another output %d %x", o.Value, o.Script)
			if !handles {
				outs = nil
			}
		case 7:
			co := newCoin(t, rapid.IntRange(1, 4).Draw(t, "kind"), 2, "more")
			cs, x.Ins = append(cs, co), append(x.Ins, co.in())
			addIn(co.in())
			say("another input of kind %d", co.kind)
			if !handles {
				ins = nil
			}
		case 8:
			sign(any())
		default: // everything put right
			for i, co := range cs {
				if !right(i) {
					if co.witness() && len(x.Ins[i].Script) > 0 {
						if !handles {
							continue
						}
						x.Ins[i].Script, ins[i].RawUnlockingScript = nil, nil
					}
					register(i, x.Ins[i].Value, co.lock, co.redeem)
				}
			}
			for i := range cs {
				sign(i)
			}
		}
		check()
		if undo != nil && rapid.IntRange(0, 3).Draw(t, "undo") > 0 {
			undo()
			say("put back")
			check()
		}
	}
	if turns > 1 {
		c.Nontrivial(x.Bytes(true), fmt.Sprint(log))
	}
	c.Class(fmt.Sprintf("handles %v, %d turns", handles, min(turns, 6)))
	c.Sample("%v", log)
}
