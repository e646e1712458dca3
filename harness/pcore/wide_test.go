package pcore

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"

	"github.com/keyfuse/tokucore/xcore"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

// Transactions of many inputs and outputs. Their contents come from one drawn number, so that a case is few draws.

// many draws a count: some, or around the borders of one and two bytes.
func many(t *rapid.T, label string) int {
	switch rapid.IntRange(0, 5).Draw(t, label+".size") {
	case 0:
		return rapid.IntRange(1, 8).Draw(t, label)
	case 1:
		return rapid.IntRange(9, 140).Draw(t, label)
	case 2:
		return rapid.SampledFrom([]int{15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 252, 253, 254, 255, 256, 257, 258}).Draw(t, label)
	}
	return rapid.IntRange(259, 620).Draw(t, label)
}

// place draws an index, the last ones and those beyond one byte included.
func place(t *rapid.T, n int, label string) int {
	switch rapid.IntRange(0, 3).Draw(t, label+".at") {
	case 0:
		return n - 1
	case 1:
		return min(n-1, rapid.SampledFrom([]int{0, 7, 8, 15, 16, 63, 64, 127, 128, 252, 253, 254, 255, 256, 257}).Draw(t, label))
	}
	return rapid.IntRange(0, n-1).Draw(t, label)
}

func wideTx(t *rapid.T, nin, nout int, witness bool) *ref.Tx {
	rng := rand.New(rand.NewSource(int64(rapid.Uint64().Draw(t, "fill"))))
	some := func(n int) []byte {
		b := make([]byte, n)
		rng.Read(b)
		return b
	}
	x := &ref.Tx{Version: word(t, "ver"), LockTime: word(t, "lock")}
	for i := 0; i < nin; i++ {
		in := &ref.TxIn{Hash: some(32), Index: rng.Uint32(), Seq: rng.Uint32(), Value: uint64(rng.Int63n(1 << 45)), Script: some(rng.Intn(4))}
		if witness && rng.Intn(2) == 0 {
			for k := rng.Intn(3); k > 0; k-- {
				in.Witness = append(in.Witness, some(rng.Intn(5)))
			}
		}
		x.Ins = append(x.Ins, in)
	}
	if witness && nin > 0 { // certainly somewhere, often only there
		at := place(t, nin, "wit")
		if rapid.Bool().Draw(t, "only") {
			for _, in := range x.Ins {
				in.Witness = nil
			}
		}
		x.Ins[at].Witness = append(x.Ins[at].Witness, some(3))
	}
	for i := 0; i < nout; i++ {
		x.Outs = append(x.Outs, &ref.TxOut{Value: uint64(rng.Int63n(1 << 45)), Script: some(rng.Intn(6))})
	}
	return x
}

// wideDigests compares digests of a long transaction.
func wideDigests(legacy bool) func(t *rapid.T, c *kit.Case) {
	return func(t *rapid.T, c *kit.Case) {
		nin, nout := many(t, "nin"), many(t, "nout")
		huge := rapid.IntRange(0, 20).Draw(t, "huge") == 13
		if huge {
			nin, nout = rapid.IntRange(1, 3000).Draw(t, "hin"), rapid.IntRange(1, 5000).Draw(t, "hout")
			c.Class("thousands")
		}
		x := wideTx(t, nin, nout, rapid.IntRange(0, 3).Draw(t, "w") == 0)
		if huge {
			o := x.Outs[place(t, nout, "long")]
			o.Script = kit.Expand(uint64(nin), rapid.IntRange(200, 120000).Draw(t, "longscript"))
		}
		tx, ins, outs := toRepo(x)
		if nin > 256 || nout > 256 {
			c.Nontrivial(x.Bytes(true))
			c.Class("count above one byte")
		}
		c.Sample("%d inputs, %d outputs: %.80x", nin, nout, x.Bytes(true))
		for k := 0; k < 4; k++ {
			idx := place(t, nin, "idx")
			ht := uint32(rapid.SampledFrom([]byte{1, 1, 2, 3, 0x81, 0x82, 0x83}).Draw(t, "ht"))
			code := kit.Expand(uint64(k)+uint64(idx)<<8, rapid.SampledFrom([]int{1, 25, 25, 300, 520, 10001, 70000}).Draw(t, "code"))
			for i := range code {
				if code[i] == 0xab {
					code[i] = 0x51
				}
			}
			if legacy && rapid.Bool().Draw(t, "separators") { // separators all over a script that parses, some bytes only look like one
				code = bytes.Repeat([]byte{3, 0xab, byte(idx), 0xab, 0x76, 0xab, 0x51, 0xab, 0xab}, 1+len(code)/9)
				code = append(code, rapid.SampledFrom([][]byte{nil, {0xac}, {0xab, 0xac}}).Draw(t, "last")...)
			}
			var got, want []byte
			if legacy {
				ins[idx].RawLockingScript, ins[idx].FinalLockingScript = code, code
				got, want = tx.RawSignatureHash(idx, xcore.SigHashType(ht)), ref.SigHashLegacy(x, idx, code, ht)
			} else {
				ins[idx].WitnessScriptCode = code
				got, want = tx.WitnessV0SignatureHash(idx, xcore.SigHashType(ht)), ref.SigHashV0(x, idx, code, x.Ins[idx].Value, ht)
			}
			if !bytes.Equal(got, want) {
				t.Fatalf("digest of input %d of %d (%d outputs), type %02x: %x want %x", idx, nin, nout, ht, got, want)
			}
			switch rapid.IntRange(0, 4).Draw(t, "change") { // somewhere, before the next digest
			case 0:
				i := place(t, nin, "ci")
				ins[i].Sequence++
				x.Ins[i].Seq++
			case 1:
				i := place(t, nin, "ci")
				ins[i].Index++
				x.Ins[i].Index++
			case 2:
				i := place(t, nout, "co")
				outs[i].Value++
				x.Outs[i].Value++
			case 3:
				v := append([]byte{7}, x.Outs[nout-1].Script...)
				outs[nout-1].Script = append([]byte{}, v...)
				x.Outs[nout-1].Script = v
			}
		}
	}
}

// wideCodec: encodings, identifiers and sizes of a long transaction.
func wideCodec(t *rapid.T, c *kit.Case) {
	nin, nout := many(t, "nin"), many(t, "nout")
	if k := rapid.IntRange(0, 120).Draw(t, "huge"); k == 77 {
		nin = rapid.IntRange(65534, 65538).Draw(t, "hin")
	} else if k == 99 {
		nout = rapid.IntRange(65534, 65538).Draw(t, "hout")
	}
	w := rapid.Bool().Draw(t, "w")
	x := wideTx(t, nin, nout, w)
	if rapid.IntRange(0, 5).Draw(t, "long") == 4 {
		long := kit.Expand(uint64(nout), rapid.SampledFrom([]int{521, 4097, 10001, 65535, 65536, 65537, 100000, 200001}).Draw(t, "bytes"))
		i := place(t, nin, "lin")
		switch rapid.IntRange(0, 2).Draw(t, "where") {
		case 0:
			x.Ins[i].Script = long
		case 1:
			x.Outs[place(t, nout, "lout")].Script = long
		case 2:
			if w {
				x.Ins[i].Witness = append(x.Ins[i].Witness, long)
			}
		}
		c.Class("long contents")
	}
	if nin > 256 || nout > 256 {
		c.Nontrivial(x.Bytes(true))
	}
	if nin > 65535 || nout > 65535 {
		c.Class("count above two bytes")
	}
	c.Sample("%d inputs, %d outputs: %.80x", nin, nout, x.Bytes(true))
	check := func(tx *xcore.Transaction, what string) {
		if a, b := tx.Serialize(), x.Bytes(true); !bytes.Equal(a, b) {
			t.Fatalf("%s: %d inputs, %d outputs serialise to %d bytes %.100x want %d bytes %.100x", what, nin, nout, len(a), a, len(b), b)
		}
		if a, b := tx.SerializeNoWitness(), x.Bytes(false); !bytes.Equal(a, b) {
			t.Fatalf("%s: %d inputs, %d outputs serialise without witness to %d bytes %.100x want %d bytes %.100x", what, nin, nout, len(a), a, len(b), b)
		}
		if !bytes.Equal(tx.Hash(), ref.DSha256(x.Bytes(false))) || !bytes.Equal(tx.WitnessHash(), ref.DSha256(x.Bytes(true))) {
			t.Fatalf("%s: identifiers %x %x", what, tx.Hash(), tx.WitnessHash())
		}
		if tx.HasWitness() != x.HasWitness() {
			t.Fatalf("%s: HasWitness %v", what, tx.HasWitness())
		}
	}
	tx, ins, outs := toRepo(x)
	check(tx, "assembled")
	back := xcore.NewTransaction()
	if err := decode(back, x.Bytes(true), x.HasWitness()); err != nil {
		t.Fatalf("decoding %d inputs, %d outputs: %v", nin, nout, err)
	}
	check(back, "decoded")
	// one change somewhere
	was, wid := tx.Hash(), tx.WitnessHash()
	i := place(t, nin, "i")
	o := place(t, nout, "o")
	what := rapid.SampledFrom([]string{"sequence", "value", "script", "output script", "previous output", "witness"}).Draw(t, "what")
	switch what {
	case "sequence":
		ins[i].Sequence ^= 1
		x.Ins[i].Seq ^= 1
	case "value":
		outs[o].Value ^= 1
		x.Outs[o].Value ^= 1
	case "script":
		ins[i].RawUnlockingScript = []byte{1, 2, 3, 4, 5}
		x.Ins[i].Script = []byte{1, 2, 3, 4, 5}
	case "output script":
		outs[o].Script = []byte{1, 2, 3, 4, 5, 6, 7}
		x.Outs[o].Script = []byte{1, 2, 3, 4, 5, 6, 7}
	case "previous output":
		ins[i].Hash[31] ^= 1
		x.Ins[i].Hash[31] ^= 1
	case "witness":
		ins[i].Witness = [][]byte{{9, 9}, {}, {8}}
		x.Ins[i].Witness = [][]byte{{9, 9}, {}, {8}}
	}
	check(tx, what+" changed")
	if (what == "witness") != bytes.Equal(was, tx.Hash()) || bytes.Equal(wid, tx.WitnessHash()) {
		t.Fatalf("%s of input %d/output %d of %d/%d changed: identifiers %x %x, were %x %x", what, i, o, nin, nout, tx.Hash(), tx.WitnessHash(), was, wid)
	}
}

// wideSizes: sizes, weight and fee of a long transaction.
func wideSizes(t *rapid.T, c *kit.Case) {
	nin, nout := many(t, "nin"), many(t, "nout")
	x := wideTx(t, nin, nout, rapid.Bool().Draw(t, "w"))
	tx, _, _ := toRepo(x)
	if nin > 256 || nout > 256 {
		c.Nontrivial(x.Bytes(true))
	}
	c.Sample("%d inputs, %d outputs: %.80x", nin, nout, x.Bytes(true))
	base, total := len(x.Bytes(false)), len(x.Bytes(true))
	weight := base*3 + total
	if tx.BaseSize() != base || tx.Size() != total || tx.WitnessSize() != total-base || tx.Weight() != weight || tx.Vsize() != (weight+3)/4 {
		t.Fatalf("base %d size %d witness %d weight %d vsize %d of %d/%d bytes", tx.BaseSize(), tx.Size(), tx.WitnessSize(), tx.Weight(), tx.Vsize(), base, total)
	}
	var in, out uint64
	for _, i := range x.Ins {
		in += i.Value
	}
	for _, o := range x.Outs {
		out += o.Value
	}
	if tx.Fees() != int(in)-int(out) {
		t.Fatalf("fees %d want %d-%d", tx.Fees(), in, out)
	}
	// estimates from transaction parts and counts grow
	var txins []*xcore.TxIn
	var txouts []*xcore.TxOut
	for range x.Ins {
		in, err := xcore.NewTxIn(make([]byte, 32), 0, 1, ref.Lock(ref.PKH, make([]byte, 20)), nil)
		if err != nil {
			t.Fatalf("input: %v", err)
		}
		txins = append(txins, in)
	}
	for range x.Outs {
		txouts = append(txouts, xcore.NewTxOut(1, ref.Lock(ref.PKH, make([]byte, 20))))
	}
	real := int64(10 + len(ref.VarInt(uint64(nin))) + len(ref.VarInt(uint64(nout))) - 2 + nin*148 + nout*34)
	if got := xcore.EstimateNormalSize(nin, nout); got < real || got <= xcore.EstimateNormalSize(nin-1, nout) || got <= xcore.EstimateNormalSize(nin, nout-1) {
		t.Fatalf("EstimateNormalSize of %d inputs and %d outputs is %d, such a spend may take %d, one input less %d, one output less %d", nin, nout, got, real, xcore.EstimateNormalSize(nin-1, nout), xcore.EstimateNormalSize(nin, nout-1))
	}
	got := xcore.EstimateSize(txins, txouts)
	if less := xcore.EstimateSize(txins[:nin-1], txouts); got <= less {
		t.Fatalf("EstimateSize of %d inputs is %d, of one less %d", nin, got, less)
	}
	if less := xcore.EstimateSize(txins, txouts[:nout-1]); got <= less {
		t.Fatalf("EstimateSize of %d outputs is %d, of one less %d", nout, got, less)
	}
	if nout <= nin && got < real {
		t.Fatalf("EstimateSize of %d inputs and %d outputs is %d, such a spend may take %d", nin, nout, got, real)
	}
}

// trivial makes a coin anyone can spend, and its unlocking data.
func trivial(kind int, n uint64) *ref.TxIn {
	in := &ref.TxIn{Hash: kit.Expand(n, 32), Index: uint32(n), Seq: 0xffffffff, Value: 10, Redeem: []byte{0x51}}
	if kind == ref.SH {
		in.Locking = ref.Lock(ref.SH, ref.Hash160(in.Redeem))
		in.Script = []byte{1, 0x51}
	} else {
		in.Locking = ref.Lock(ref.WSH, ref.Sha(in.Redeem))
		in.Witness = [][]byte{{0x51}}
	}
	return in
}

// wideVerdict: one guarded coin somewhere among many that need no signature.
func wideVerdict(policy bool) func(t *rapid.T, c *kit.Case) {
	return func(t *rapid.T, c *kit.Case) {
		n := many(t, "n")
		if kit.Uniform(t, 1, "thousands")[0] < 20 {
			n = rapid.IntRange(621, 2100).Draw(t, "thousand")
			c.Class("more than 620 inputs")
		}
		at := place(t, n, "at")
		kind := rapid.IntRange(1, 4).Draw(t, "kind")
		if policy {
			kind = rapid.SampledFrom([]int{ref.SH, ref.WSH}).Draw(t, "policy")
		}
		co := newCoin(t, kind, 3, "coin")
		x := &ref.Tx{Version: 1, LockTime: word(t, "lock"), Outs: []*ref.TxOut{{Value: 5, Script: locking(t, "o")}}}
		fill := rapid.SampledFrom([]int{ref.SH, ref.WSH}).Draw(t, "fill")
		for i := 0; i < n; i++ {
			if i == at {
				x.Ins = append(x.Ins, co.in())
			} else {
				x.Ins = append(x.Ins, trivial(fill, uint64(i)))
			}
		}
		idx := co.signers(t, "s")
		co.sign(x, at, co.scalars(idx), co.hashType)
		how := rapid.IntRange(0, 4).Draw(t, "how")
		in := x.Ins[at]
		switch how {
		case 0: // as it is
		case 1: // by other keys
			ds := co.scalars(idx)
			ds[len(ds)-1] = distinct(t, 1, "foreign")[0]
			co.sign(x, at, ds, co.hashType)
		case 2: // nothing
			in.Script, in.Witness = nil, nil
		case 3: // one too few
			if len(idx) > 1 {
				co.sign(x, at, co.scalars(idx[1:]), co.hashType)
			} else {
				in.Script, in.Witness = nil, [][]byte{{}}
			}
		case 4: // the outputs changed afterwards
			x.Outs[0].Value++
		}
		want := x.Verify()
		c.Nontrivial(n, at, how, x.Bytes(true))
		c.Class(fmt.Sprintf("way %d %v", how, want))
		c.Sample("%d inputs, the guarded one at %d, way %d: %v", n, at, how, want)
		if got := verdict(t, x); got != want {
			t.Fatalf("%d inputs, input %d of kind %d, way %d (type %02x): verifies=%v want %v: %.300x", n, at, kind, how, co.hashType, got, want, x.Bytes(true))
		}
	}
}

// widePrint: the text of a long transaction.
func widePrint(t *rapid.T, c *kit.Case) {
	nin, nout := many(t, "nin"), many(t, "nout")
	if nin > 258 {
		nin = 257 + nin%40
	}
	if nout > 258 {
		nout = 257 + nout%40
	}
	x := wideTx(t, nin, nout, rapid.Bool().Draw(t, "w"))
	for _, in := range x.Ins { // values of spent outputs are unknown here
		in.Value = 0
	}
	c.Nontrivial(x.Bytes(true))
	c.Sample("%d inputs, %d outputs: %.80x", nin, nout, x.Bytes(true))
	tx, _, _ := toRepo(x)
	printed(t, tx, x, false, "assembled")
}

// wideBuild: many coins, payments and data outputs in one transaction, signed or not.
func wideBuild(sign bool) func(t *rapid.T, c *kit.Case) {
	return func(t *rapid.T, c *kit.Case) {
		nc, np, nd := many(t, "coins"), many(t, "pays"), 0
		if rapid.Bool().Draw(t, "hasdata") {
			nd = many(t, "datas")
		}
		if sign {
			nc, np, nd = min(nc, 270), min(np, 20), min(nd, 20)
		}
		fill := rapid.Uint64().Draw(t, "fill")
		rng := rand.New(rand.NewSource(int64(fill)))
		owners := distinct(t, 3, "owner")
		x := &ref.Tx{Version: 1, LockTime: word(t, "lock")}
		b := xcore.NewTransactionBuilder()
		var cs []*coin
		total := uint64(0)
		hash := func() []byte { h := make([]byte, 20); rng.Read(h); return h }
		for i := 0; i < nc; i++ {
			co := &coin{kind: []int{ref.PKH, ref.WPKH}[rng.Intn(2)], compressed: true, m: 1, hashType: 1, txid: append(hash(), kit.Expand(uint64(i), 12)...), n: uint32(rng.Intn(400)), value: uint64(rng.Int63n(1 << 40))}
			co.d = owners[rng.Intn(3):][:1]
			co.lock = ref.Lock(co.kind, ref.Hash160(pub(co.d[0], true)))
			cs, x.Ins = append(cs, co), append(x.Ins, co.in())
			total += co.value
			b.AddCoin(co.coin())
			if sign {
				b.AddKeys(co.keys([]int{0})...)
			}
			b.Then()
		}
		left := total
		for i := 0; i < np; i++ {
			v := uint64(rng.Int63n(int64(left/uint64(np)) + 1))
			kind := []int{ref.PKH, ref.WPKH, ref.SH}[rng.Intn(3)]
			h := hash()
			b.To(newAddr(kind, h), v).Then()
			x.Outs = append(x.Outs, &ref.TxOut{Value: v, Script: ref.Lock(kind, h)})
			left -= v
		}
		fee := min(left, uint64(rng.Intn(50000)))
		left -= fee
		h := hash()
		b.SendFees(fee).SetChange(newAddr(ref.PKH, h)).SetLockTime(x.LockTime)
		if left > 0 {
			x.Outs = append(x.Outs, &ref.TxOut{Value: left, Script: ref.Lock(ref.PKH, h)})
		}
		for i := 0; i < nd; i++ {
			d := binary.BigEndian.AppendUint32(nil, rng.Uint32())
			if rng.Intn(300) == 0 {
				d = kit.Expand(fill+uint64(i), 65000+rng.Intn(6000))
			}
			b.AddPushData(d)
			x.Outs = append(x.Outs, &ref.TxOut{Script: append([]byte{0x6a}, ref.PushData(d)...)})
		}
		if sign {
			b.Sign()
		}
		c.Nontrivial(x.Bytes(false), nd)
		c.Sample("%d coins, %d payments, %d data outputs", nc, np, nd)
		var tx *xcore.Transaction
		var err error
		kit.NoPanic(t, "BuildTransaction", func() { tx, err = b.BuildTransaction() })
		if err != nil {
			t.Fatalf("%d coins, %d payments, %d data outputs: %v", nc, np, nd, err)
		}
		if !sign {
			if a, w := tx.Serialize(), x.Bytes(true); !bytes.Equal(a, w) {
				t.Fatalf("%d coins, %d payments, %d data outputs: built %.200x want %.200x", nc, np, nd, a, w)
			}
			if int64(tx.Fees()) != int64(fee) {
				t.Fatalf("fees %d want %d", tx.Fees(), fee)
			}
			return
		}
		if err := tx.Verify(); err != nil {
			t.Fatalf("%d coins, %d payments, %d data outputs: %v", nc, np, nd, err)
		}
		got, _, ok := ref.ParseTx(tx.Serialize(), tx.HasWitness())
		if !ok || len(got.Ins) != nc {
			t.Fatalf("%d coins: serialised to %d inputs", nc, len(got.Ins))
		}
		for k := 0; k < 5; k++ { // exact unlocking data in places
			i := place(t, nc, "check")
			cs[i].sign(x, i, cs[i].d, 1)
			if !bytes.Equal(got.Ins[i].Script, x.Ins[i].Script) || fmt.Sprint(got.Ins[i].Witness) != fmt.Sprint(x.Ins[i].Witness) {
				t.Fatalf("input %d of %d is unlocked by %x %x want %x %x", i, nc, got.Ins[i].Script, got.Ins[i].Witness, x.Ins[i].Script, x.Ins[i].Witness)
			}
		}
		if err := verifyReloaded(tx, x); err != nil {
			t.Fatalf("%d coins: reloaded: %v", nc, err)
		}
	}
}

// verifyReloaded verifies the transaction after it went through its bytes.
func verifyReloaded(tx *xcore.Transaction, x *ref.Tx) error {
	back := xcore.NewTransaction()
	if err := decode(back, tx.Serialize(), tx.HasWitness()); err != nil {
		return err
	}
	for i, in := range x.Ins {
		if err := back.SetTxIn(i, in.Value, in.Locking, in.Redeem); err != nil {
			return err
		}
	}
	return back.Verify()
}
