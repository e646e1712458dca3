package pcore

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcrypto"

	"verif/kit"
	"verif/ref"
)

// ---- plain transactions (P17..P20, P27) ----

// amount draws an output value, sometimes extreme.
func amount(t *rapid.T, label string) uint64 {
	switch rapid.IntRange(0, 5).Draw(t, label+".k") {
	case 0:
		return rapid.SampledFrom([]uint64{0, 1, 1<<32 - 1, 1 << 32, 2100000000000000, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(t, label)
	}
	return rapid.Uint64Range(0, 3000000000).Draw(t, label)
}

func word(t *rapid.T, label string) uint32 {
	switch rapid.IntRange(0, 3).Draw(t, label+".k") {
	case 0:
		return rapid.SampledFrom([]uint32{0, 1, 2, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff, 500000000}).Draw(t, label)
	}
	return rapid.Uint32().Draw(t, label)
}

func word64(t *rapid.T, label string) uint64 {
	return rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 1000, 1<<63 - 1, 1 << 63, 1<<64 - 1})).Draw(t, label)
}

// blob draws an opaque byte string; lengths around the length-prefix borders occur.
func blob(t *rapid.T, label string) []byte {
	var n int
	switch rapid.IntRange(0, 11).Draw(t, label+".k") {
	case 0:
		n = 0
	case 1:
		n = rapid.IntRange(250, 256).Draw(t, label+".n")
	case 2:
		n = rapid.SampledFrom([]int{520, 1000, 0xfffe, 0xffff, 0x10000, 0x10001}).Draw(t, label+".n")
	default:
		n = rapid.IntRange(0, 90).Draw(t, label+".n")
	}
	return kit.BytesNCheap(t, n, label)
}

// locking draws a locking script of a known kind.
func locking(t *rapid.T, label string) []byte {
	k := rapid.IntRange(1, 4).Draw(t, label+".kind")
	n := 20
	if k == ref.WSH {
		n = 32
	}
	return ref.Lock(k, kit.Uniform(t, n, label))
}

// counts draws how many inputs or outputs; now and then beyond one length byte.
func counts(t *rapid.T, label string, lo, hi int) int {
	if rapid.IntRange(0, 60).Draw(t, label+".many") == 0 {
		return rapid.IntRange(252, 255).Draw(t, label)
	}
	return rapid.IntRange(lo, hi).Draw(t, label)
}

// plainTx draws a transaction of arbitrary contents; no spent outputs are known.
func plainTx(t *rapid.T, witness bool) *ref.Tx {
	x := &ref.Tx{Version: word(t, "ver"), LockTime: word(t, "lock")}
	nin := counts(t, "nin", 0, 5)
	if witness {
		nin = max(nin, 1)
	}
	for i := 0; i < nin; i++ {
		in := &ref.TxIn{Hash: kit.Uniform(t, 32, "h"), Index: word(t, "ix"), Seq: word(t, "seq")}
		if nin < 100 {
			in.Script = blob(t, "sig")
		}
		if witness && rapid.IntRange(0, 2).Draw(t, "w") > 0 {
			for k := rapid.IntRange(0, 4).Draw(t, "items"); k > 0; k-- {
				in.Witness = append(in.Witness, blob(t, "wit"))
			}
			if rapid.IntRange(0, 80).Draw(t, "wmany") == 0 {
				for k := rapid.IntRange(250, 256).Draw(t, "wn"); k > 0; k-- {
					in.Witness = append(in.Witness, []byte{byte(k)})
				}
			}
		}
		x.Ins = append(x.Ins, in)
	}
	if witness && !x.HasWitness() {
		x.Ins[0].Witness = [][]byte{blob(t, "w0")}
	}
	for k := counts(t, "nout", 0, 5); k > 0; k-- {
		o := &ref.TxOut{Value: amount(t, "val")}
		if len(x.Outs) < 6 {
			o.Script = blob(t, "out")
		}
		x.Outs = append(x.Outs, o)
	}
	return x
}

// toRepo builds the library's transaction from public parts.
func toRepo(x *ref.Tx) (*xcore.Transaction, []*xcore.TxIn, []*xcore.TxOut) {
	tx := xcore.NewTransaction()
	tx.SetVersion(x.Version)
	tx.SetLockTime(x.LockTime)
	var ins []*xcore.TxIn
	var outs []*xcore.TxOut
	c := x.Clone()
	for _, in := range c.Ins {
		v := &xcore.TxIn{Hash: in.Hash, Index: in.Index, Value: in.Value, Sequence: in.Seq, RawUnlockingScript: in.Script, Witness: in.Witness}
		ins = append(ins, v)
		tx.AddInput(v)
	}
	for _, o := range c.Outs {
		v := xcore.NewTxOut(o.Value, o.Script)
		outs = append(outs, v)
		tx.AddOutput(v)
	}
	return tx, ins, outs
}

func rev(b []byte) string {
	r := make([]byte, len(b))
	for i := range b {
		r[len(b)-1-i] = b[i]
	}
	return hex.EncodeToString(r)
}

// ---- spendable coins (P21, P22, P26, P27, P33) ----

// coin is a spendable output with the secrets that spend it.
type coin struct {
	kind       int
	d          []*big.Int // policy keys in order
	comp       []bool     // encodings inside a multi-signature script
	m          int
	compressed bool // encoding of the key in the unlocking data
	txid       []byte
	n          uint32
	value      uint64
	lock       []byte
	redeem     []byte
	hashType   byte
}

func pub(d *big.Int, compressed bool) []byte {
	p := ref.MulG(d)
	if compressed {
		return p.Comp()
	}
	return p.Uncomp()
}

func prv(d *big.Int) *xcrypto.PrvKey { return xcrypto.PrvKeyFromBytes(kit.B32(d)) }

// distinct draws n different scalars.
func distinct(t *rapid.T, n int, label string) []*big.Int {
	var out []*big.Int
	for len(out) < n {
		d := kit.Scalar(t, label)
		dup := false
		for _, e := range out {
			dup = dup || e.Cmp(d) == 0
		}
		if dup {
			d = new(big.Int).SetBytes(kit.Uniform(t, 31, label+".u"))
			d.Add(d, big.NewInt(1))
		}
		out = append(out, d)
	}
	return out
}

var hashTypes = []byte{1, 1, 1, 2, 3, 0x81, 0x82, 0x83}

func newCoin(t *rapid.T, kind int, maxKeys int, label string) *coin {
	c := &coin{kind: kind, compressed: rapid.IntRange(0, 3).Draw(t, label+".enc") > 0, m: 1}
	c.txid = kit.Uniform(t, 32, label+".txid")
	c.n = uint32(rapid.SampledFrom([]int{0, 1, 2, 255, 256, 1 << 31}).Draw(t, label+".n"))
	c.value = rapid.Uint64Range(0, 100000000).Draw(t, label+".value")
	if rapid.IntRange(0, 9).Draw(t, label+".bigv") == 0 {
		c.value = rapid.Uint64Range(1<<32, 2100000000000000).Draw(t, label+".value")
	}
	c.hashType = rapid.SampledFrom(hashTypes).Draw(t, label+".ht")
	switch kind {
	case ref.PKH, ref.WPKH:
		c.d = distinct(t, 1, label+".d")
		c.lock = ref.Lock(kind, ref.Hash160(pub(c.d[0], c.compressed)))
	default:
		n := rapid.IntRange(1, maxKeys).Draw(t, label+".keys")
		c.m = rapid.IntRange(1, n).Draw(t, label+".m")
		if maxKeys > 15 && rapid.Bool().Draw(t, label+".full") {
			n = rapid.SampledFrom([]int{15, 16, 17, 20}).Draw(t, label+".keys2")
			c.m = rapid.OneOf(rapid.IntRange(1, 4), rapid.IntRange(1, n)).Draw(t, label+".m2")
		}
		c.d = distinct(t, n, label+".d")
		var pubs [][]byte
		for i := range c.d {
			c.comp = append(c.comp, rapid.IntRange(0, 3).Draw(t, label+".penc") > 0)
			pubs = append(pubs, pub(c.d[i], c.comp[i]))
		}
		c.setPolicy(pubs)
	}
	return c
}

func (c *coin) setPolicy(pubs [][]byte) {
	c.redeem = ref.MultiSig(c.m, pubs...)
	if c.kind == ref.SH {
		c.lock = ref.Lock(ref.SH, ref.Hash160(c.redeem))
	} else {
		c.lock = ref.Lock(ref.WSH, ref.Sha(c.redeem))
	}
}

func (c *coin) in() *ref.TxIn {
	return &ref.TxIn{Hash: c.txid, Index: c.n, Seq: 0xffffffff, Value: c.value, Locking: c.lock, Redeem: c.redeem}
}

func (c *coin) coin() *xcore.Coin {
	return xcore.NewCoinBuilder().AddOutput(rev(c.txid), c.n, c.value, hex.EncodeToString(c.lock)).ToCoins()[0]
}

func (c *coin) witness() bool { return c.kind == ref.WPKH || c.kind == ref.WSH }

func (c *coin) keys(idx []int) []*xcrypto.PrvKey {
	out := []*xcrypto.PrvKey{}
	for _, i := range idx {
		out = append(out, prv(c.d[i]))
	}
	return out
}

// sign fills in the standard unlocking data of input i with the given signers.
func (c *coin) sign(x *ref.Tx, i int, signers []*big.Int, hashType byte) {
	var sigs [][]byte
	for _, d := range signers {
		r, s := ref.EcdsaSign(d, x.SigHash(i, uint32(hashType)))
		sigs = append(sigs, append(ref.DER(r, s), hashType))
	}
	c.unlock(x.Ins[i], sigs)
}

// unlock puts signatures into the standard unlocking data.
func (c *coin) unlock(in *ref.TxIn, sigs [][]byte) {
	in.Script, in.Witness = nil, nil
	switch c.kind {
	case ref.PKH:
		in.Script = append(ref.PushData(sigs[0]), ref.PushData(pub(c.d[0], c.compressed))...)
	case ref.WPKH:
		in.Witness = [][]byte{sigs[0], pub(c.d[0], c.compressed)}
	case ref.SH:
		if len(sigs) > 0 {
			in.Script = []byte{0}
		}
		for _, s := range sigs {
			in.Script = append(in.Script, ref.PushData(s)...)
		}
		in.Script = append(in.Script, ref.PushData(c.redeem)...)
	case ref.WSH:
		if len(sigs) > 0 {
			in.Witness = [][]byte{{}}
		}
		in.Witness = append(append(in.Witness, sigs...), c.redeem)
	}
}

// signers draws the m signing positions in policy order.
func (c *coin) signers(t *rapid.T, label string) []int {
	idx := rapid.Permutation(seq(len(c.d))).Draw(t, label)[:c.m]
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			if idx[j] < idx[i] {
				idx[i], idx[j] = idx[j], idx[i]
			}
		}
	}
	return idx
}

func seq(n int) []int {
	s := make([]int, n)
	for i := range s {
		s[i] = i
	}
	return s
}

func (c *coin) scalars(idx []int) (out []*big.Int) {
	for _, i := range idx {
		out = append(out, c.d[i])
	}
	return
}

// load decodes the reference transaction with the library and gives it its spent outputs.
func load(x *ref.Tx) (*xcore.Transaction, error) {
	tx := xcore.NewTransaction()
	var err error
	if x.HasWitness() {
		err = tx.Deserialize(x.Bytes(true))
	} else {
		err = tx.DeserializeNoWitness(x.Bytes(false))
	}
	if err != nil {
		return nil, fmt.Errorf("decode: %w", err)
	}
	for i, in := range x.Ins {
		if err := tx.SetTxIn(i, in.Value, in.Locking, in.Redeem); err != nil {
			return nil, fmt.Errorf("input %d: %w", i, err)
		}
	}
	return tx, nil
}

// verdict is the library's answer on the reference transaction, through its public decoding and verification.
func verdict(t *rapid.T, x *ref.Tx) (ok bool) {
	kit.NoPanic(t, "Verify", func() {
		tx, err := load(x)
		ok = err == nil && tx.Verify() == nil
	})
	return
}

// same compares the library's transaction with the reference one byte by byte.
func same(tx *xcore.Transaction, x *ref.Tx) error {
	if got, want := tx.Serialize(), x.Bytes(true); !bytes.Equal(got, want) {
		return fmt.Errorf("serialises to %x want %x", got, want)
	}
	if got, want := tx.SerializeNoWitness(), x.Bytes(false); !bytes.Equal(got, want) {
		return fmt.Errorf("serialises without witness to %x want %x", got, want)
	}
	id, wid := ref.DSha256(x.Bytes(false)), ref.DSha256(x.Bytes(true))
	if !bytes.Equal(tx.Hash(), id) || tx.ID() != rev(id) {
		return fmt.Errorf("identifier %x %s want %x", tx.Hash(), tx.ID(), id)
	}
	if !bytes.Equal(tx.WitnessHash(), wid) || tx.WitnessID() != rev(wid) {
		return fmt.Errorf("witness identifier %x %s want %x", tx.WitnessHash(), tx.WitnessID(), wid)
	}
	return nil
}

// bigFee is floor(size*rate/1000), at most the largest 64-bit value.
func bigFee(size, rate int64) int64 {
	v := new(big.Int).Mul(big.NewInt(size), big.NewInt(rate))
	v.Div(v, big.NewInt(1000))
	if !v.IsInt64() {
		return 1<<63 - 1
	}
	return v.Int64()
}
