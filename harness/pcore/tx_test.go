package pcore

import (
	"bytes"
	"fmt"
	"testing"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/xcore"

	"verif/kit"
	"verif/ref"
)

// decode reads b with the library, in the witness or plain form.
func decode(tx *xcore.Transaction, b []byte, witness bool) error {
	if witness {
		return tx.Deserialize(b)
	}
	return tx.DeserializeNoWitness(b)
}

// edits are the changes to single fields of a transaction.
var edits = []struct {
	name string
	f    func(t *rapid.T, x *ref.Tx) bool
}{
	{"version", func(t *rapid.T, x *ref.Tx) bool { x.Version ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit"); return true }},
	{"locktime", func(t *rapid.T, x *ref.Tx) bool {
		x.LockTime ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
		return true
	}},
	{"prevhash", func(t *rapid.T, x *ref.Tx) bool {
		if len(x.Ins) == 0 {
			return false
		}
		x.Ins[rapid.IntRange(0, len(x.Ins)-1).Draw(t, "i")].Hash[rapid.IntRange(0, 31).Draw(t, "b")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		return true
	}},
	{"previndex", func(t *rapid.T, x *ref.Tx) bool {
		if len(x.Ins) == 0 {
			return false
		}
		x.Ins[rapid.IntRange(0, len(x.Ins)-1).Draw(t, "i")].Index ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
		return true
	}},
	{"sequence", func(t *rapid.T, x *ref.Tx) bool {
		if len(x.Ins) == 0 {
			return false
		}
		x.Ins[rapid.IntRange(0, len(x.Ins)-1).Draw(t, "i")].Seq ^= 1 << rapid.IntRange(0, 31).Draw(t, "bit")
		return true
	}},
	{"value", func(t *rapid.T, x *ref.Tx) bool {
		if len(x.Outs) == 0 {
			return false
		}
		x.Outs[rapid.IntRange(0, len(x.Outs)-1).Draw(t, "i")].Value ^= 1 << rapid.IntRange(0, 63).Draw(t, "bit")
		return true
	}},
	{"script", func(t *rapid.T, x *ref.Tx) bool {
		if len(x.Outs) == 0 {
			return false
		}
		o := x.Outs[rapid.IntRange(0, len(x.Outs)-1).Draw(t, "i")]
		if len(o.Script) == 0 || rapid.IntRange(0, 3).Draw(t, "grow") == 0 {
			o.Script = append(o.Script, rapid.Byte().Draw(t, "byte"))
		} else {
			o.Script[rapid.IntRange(0, len(o.Script)-1).Draw(t, "b")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		}
		return true
	}},
	{"dropout", func(t *rapid.T, x *ref.Tx) bool {
		if len(x.Outs) == 0 {
			return false
		}
		i := rapid.IntRange(0, len(x.Outs)-1).Draw(t, "i")
		x.Outs = append(x.Outs[:i:i], x.Outs[i+1:]...)
		return true
	}},
	{"addout", func(t *rapid.T, x *ref.Tx) bool {
		x.Outs = append(x.Outs, &ref.TxOut{Value: amount(t, "v"), Script: locking(t, "s")})
		return true
	}},
	{"addin", func(t *rapid.T, x *ref.Tx) bool {
		x.Ins = append(x.Ins, &ref.TxIn{Hash: kit.Uniform(t, 32, "h"), Seq: word(t, "seq")})
		return true
	}},
	{"swapouts", func(t *rapid.T, x *ref.Tx) bool {
		n := len(x.Outs)
		if n < 2 {
			return false
		}
		i := rapid.IntRange(0, n-2).Draw(t, "i")
		a, b := x.Outs[i], x.Outs[n-1]
		if a.Value == b.Value && bytes.Equal(a.Script, b.Script) {
			return false
		}
		x.Outs[i], x.Outs[n-1] = b, a
		return true
	}},
	{"swapins", func(t *rapid.T, x *ref.Tx) bool {
		n := len(x.Ins)
		if n < 2 {
			return false
		}
		i := rapid.IntRange(0, n-2).Draw(t, "i")
		if bytes.Equal(x.Ins[i].Hash, x.Ins[n-1].Hash) && x.Ins[i].Index == x.Ins[n-1].Index && x.Ins[i].Seq == x.Ins[n-1].Seq {
			return false
		}
		x.Ins[i], x.Ins[n-1] = x.Ins[n-1], x.Ins[i]
		return true
	}},
	{"dropin", func(t *rapid.T, x *ref.Tx) bool {
		if len(x.Ins) < 2 {
			return false
		}
		i := rapid.IntRange(0, len(x.Ins)-1).Draw(t, "i")
		x.Ins = append(x.Ins[:i:i], x.Ins[i+1:]...)
		return true
	}},
}

// edit applies one applicable edit and names it.
func edit(t *rapid.T, x *ref.Tx) string {
	for {
		e := edits[rapid.IntRange(0, len(edits)-1).Draw(t, "edit")]
		if e.f(t, x) {
			return e.name
		}
	}
}

// registered decodes a transaction and gives its inputs spent outputs, with check after every call.
func registered(t *rapid.T, c *kit.Case, check func(*xcore.Transaction, *ref.Tx) error) {
	x := plainTx(t, rapid.IntRange(0, 2).Draw(t, "w") > 0)
	if len(x.Ins) > 6 {
		x.Ins = x.Ins[:6]
	}
	for _, in := range x.Ins {
		if rapid.Bool().Draw(t, "bare") {
			in.Script = nil
		}
	}
	if len(x.Ins) == 0 {
		return
	}
	tx := xcore.NewTransaction()
	if err := decode(tx, x.Bytes(true), x.HasWitness()); err != nil {
		t.Fatalf("decoding %x: %v", x.Bytes(true), err)
	}
	c.Sample("%x", x.Bytes(true))
	for _, in := range x.Ins { // not known yet
		in.Value = 0
	}
	var log []string
	for k := rapid.IntRange(1, 6).Draw(t, "steps"); k > 0; k-- {
		i := rapid.IntRange(-1, len(x.Ins)).Draw(t, "i")
		redeem := rapid.SampledFrom([][]byte{nil, {}, {0x51}, {0x51, 0xae}}).Draw(t, "redeem")
		lock := locking(t, "lock")
		switch rapid.IntRange(0, 3).Draw(t, "fit") {
		case 0:
			lock = ref.Lock(ref.WSH, ref.Sha(redeem))
		case 1:
			lock = ref.Lock(rapid.SampledFrom([]int{ref.WPKH, ref.PKH, ref.SH}).Draw(t, "kind"), ref.Hash160(redeem))
		}
		var err error
		v := amount(t, "v")
		kit.NoPanic(t, "SetTxIn", func() { err = tx.SetTxIn(i, v, append([]byte{}, lock...), redeem) })
		if err == nil {
			x.Ins[i].Value, x.Ins[i].Locking, x.Ins[i].Redeem = v, lock, redeem
		}
		log = append(log, fmt.Sprintf("SetTxIn(%d, %x, %x) %v", i, lock, redeem, err))
		if k, _ := ref.Kind(lock); (k == ref.WSH || k == ref.WPKH) && err == nil && len(x.Ins[i].Witness) > 0 {
			c.Nontrivial(x.Bytes(true), fmt.Sprint(log))
			c.Class(fmt.Sprintf("witness program, redeem script nil=%v", redeem == nil))
		}
		if rapid.IntRange(0, 3).Draw(t, "verify") == 0 {
			kit.NoPanic(t, "Verify", func() { _ = tx.Verify() })
			log = append(log, "Verify")
		}
		if err := check(tx, x); err != nil {
			t.Fatalf("after %v: %v", log, err)
		}
	}
}

func TestP17(t *testing.T) {
	r := kit.New(t, "P17", "a transaction without any witness item is read with DeserializeNoWitness, one with some with Deserialize")
	r.Run(t, "roundtrip", 3000, 20, "transactions of 0..5 (rarely ~253) inputs and outputs, opaque scripts and witness items up to 64 KiB; non-trivial: at least one input and one output", func(t *rapid.T, c *kit.Case) {
		w := rapid.Bool().Draw(t, "witness")
		x := plainTx(t, w)
		if len(x.Ins) > 0 && len(x.Outs) > 0 {
			c.Nontrivial(x.Bytes(true))
		}
		if x.HasWitness() {
			c.Class("witness")
		}
		if len(x.Ins) > 252 || len(x.Outs) > 252 {
			c.Class("long count")
		}
		c.Sample("%x", x.Bytes(true))
		if w && rapid.IntRange(0, 7).Draw(t, "empty") == 0 { // all witnesses empty: the plain form
			for _, in := range x.Ins {
				in.Witness = rapid.SampledFrom([][][]byte{nil, {}}).Draw(t, "none")
			}
			c.Class("witness lists all empty")
		}
		tx, _, _ := toRepo(x)
		if err := same(tx, x); err != nil {
			t.Fatalf("built transaction: %v", err)
		}
		if tx.HasWitness() != x.HasWitness() {
			t.Fatalf("HasWitness %v", tx.HasWitness())
		}
		w = x.HasWitness()
		used := xcore.NewTransaction()
		if rapid.Bool().Draw(t, "used") {
			y := plainTx(t, rapid.Bool().Draw(t, "w2"))
			used, _, _ = toRepo(y)
			c.Class("into a used object")
		}
		in, ok := kit.Spare(x.Bytes(true))
		if err := decode(used, in, w); err != nil {
			t.Fatalf("decoding %x: %v", in, err)
		}
		if err := same(used, x); err != nil || !ok() {
			t.Fatalf("decoded transaction: %v (input intact %v)", err, ok())
		}
		// what was decoded does not depend on the input buffer afterwards
		for i := range in {
			in[i] = ^in[i]
		}
		if err := same(used, x); err != nil {
			t.Fatalf("after the input buffer was reused: %v", err)
		}
		if w {
			// the plain form of a witness transaction is its identifier's preimage and decodes by itself
			plain := xcore.NewTransaction()
			if err := plain.DeserializeNoWitness(x.Bytes(false)); err != nil {
				t.Fatalf("plain form: %v", err)
			}
			y := x.Clone()
			for _, in := range y.Ins {
				in.Witness = nil
			}
			if err := same(plain, y); err != nil {
				t.Fatalf("plain form: %v", err)
			}
		}
	})
	r.Run(t, "wide", 250, 12, "transactions of up to 620, rarely 65538, inputs and outputs: encodings, identifiers, decoding and one change anywhere; non-trivial: more than 256 inputs or outputs", wideCodec)
	r.Run(t, "identity", 2500, 20, "one field changed, or witness data changed; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		x := plainTx(t, rapid.Bool().Draw(t, "w"))
		a, _, _ := toRepo(x)
		y := x.Clone()
		name := edit(t, y)
		b, _, _ := toRepo(y)
		c.Nontrivial(x.Bytes(true), y.Bytes(true))
		c.Class(name)
		c.Sample("%s of %x", name, x.Bytes(true))
		if a.ID() == b.ID() || a.WitnessID() == b.WitnessID() {
			t.Fatalf("changing %s of %x leaves an identifier", name, x.Bytes(true))
		}
		if len(x.Ins) == 0 {
			return
		}
		z := x.Clone()
		in := z.Ins[rapid.IntRange(0, len(z.Ins)-1).Draw(t, "i")]
		in.Witness = append(in.Witness, blob(t, "item"))
		d, _, _ := toRepo(z)
		if d.ID() != a.ID() || d.WitnessID() == a.WitnessID() || d.WitnessID() == d.ID() {
			t.Fatalf("witness item added to %x: %s %s, before %s %s", x.Bytes(true), d.ID(), d.WitnessID(), a.ID(), a.WitnessID())
		}
		in.Script = append(in.Script, 1)
		e, _, _ := toRepo(z)
		if e.ID() == d.ID() {
			t.Fatalf("changing the unlocking script leaves the identifier")
		}
	})
	r.Run(t, "registered", 2500, 20, "decoded transactions whose inputs are given spent outputs of any kind, fitting or not, with or without a redeem script, one after another and again, and verified: neither bytes nor identifiers change; non-trivial: a witness program was registered for an input with witness data", func(t *rapid.T, c *kit.Case) {
		registered(t, c, same)
	})
	r.Run(t, "wallet", 60, 15, "transactions of spendable coins of mixed kinds signed by the library, against the reference bytes; non-trivial: a witness and a plain input", func(t *rapid.T, c *kit.Case) {
		x := &ref.Tx{Version: word(t, "ver"), LockTime: word(t, "lock")}
		n := rapid.IntRange(1, 3).Draw(t, "n")
		var cs []*coin
		wit, plain := false, false
		for i := 0; i < n; i++ {
			co := newCoin(t, rapid.IntRange(1, 4).Draw(t, "kind"), 3, "coin")
			cs = append(cs, co)
			x.Ins = append(x.Ins, co.in())
			wit, plain = wit || co.witness(), plain || !co.witness()
		}
		for k := rapid.IntRange(1, 3).Draw(t, "outs"); k > 0; k-- {
			x.Outs = append(x.Outs, &ref.TxOut{Value: amount(t, "v"), Script: locking(t, "o")})
		}
		if wit && plain {
			c.Nontrivial(x.Bytes(false))
		}
		tx := xcore.NewTransaction()
		tx.SetVersion(x.Version)
		tx.SetLockTime(x.LockTime)
		for _, in := range x.Ins {
			v, err := xcore.NewTxIn(in.Hash, in.Index, in.Value, in.Locking, in.Redeem)
			if err != nil {
				t.Fatalf("input: %v", err)
			}
			tx.AddInput(v)
		}
		for _, o := range x.Outs {
			tx.AddOutput(xcore.NewTxOut(o.Value, o.Script))
		}
		if err := same(tx, x); err != nil {
			t.Fatalf("unsigned: %v", err)
		}
		for i, co := range cs {
			idx := co.signers(t, "s")
			co.sign(x, i, co.scalars(idx), co.hashType)
			if err := tx.SignIndex(i, co.compressed, xcore.SigHashType(co.hashType), co.keys(idx)...); err != nil {
				t.Fatalf("signing input %d: %v", i, err)
			}
			if err := same(tx, x); err != nil {
				t.Fatalf("after signing input %d: %v", i, err)
			}
		}
		d, err := load(x)
		if err != nil {
			t.Fatalf("reloading: %v", err)
		}
		if err := same(d, x); err != nil {
			t.Fatalf("reloaded with its spent outputs: %v", err)
		}
	})
}

// allocBound is what decoding n bytes may allocate: structures and their growth are a constant factor of the input.
func allocBound(n int) uint64 { return 400*uint64(n) + 64<<10 }

func TestP18(t *testing.T) {
	r := kit.New(t, "P18", "an encoding may be followed by further bytes: only the consumed prefix is compared", "allocation bound 400 bytes per input byte + 64 KiB")
	check := func(t *rapid.T, c *kit.Case, b []byte) {
		for _, w := range []bool{true, false} {
			x, n, okRef := ref.ParseTx(b, w)
			in, intact := kit.Spare(b)
			tx := xcore.NewTransaction()
			var err error
			var used uint64
			kit.NoPanic(t, fmt.Sprintf("decoding %x (witness %v)", b, w), func() {
				used = kit.AllocBytes(func() { err = decode(tx, in, w) })
			})
			if !intact() {
				t.Fatalf("decoding altered its input %x", b)
			}
			if used > allocBound(len(b)) {
				// other goroutines of the runtime may allocate too: measure again before judging
				if again := kit.AllocBytes(func() { _ = decode(xcore.NewTransaction(), in, w) }); again > allocBound(len(b)) {
					t.Fatalf("decoding %d bytes %x allocates %d bytes", len(b), b, again)
				}
			}
			if (err == nil) != okRef {
				t.Fatalf("decoding %x (witness %v): %v, reference accepts=%v", b, w, err, okRef)
			}
			if okRef {
				c.Class(fmt.Sprintf("accepted witness=%v", w))
				if err := same(tx, x); err != nil {
					t.Fatalf("decoded %x: %v", b, err)
				}
				if !bytes.Equal(tx.Serialize(), b[:n]) {
					t.Fatalf("re-encoding %x gives %x", b[:n], tx.Serialize())
				}
			} else {
				c.Class("refused")
			}
		}
		kit.NoPanic(t, fmt.Sprintf("printing what was read of %x", b), func() {
			for _, w := range []bool{true, false} {
				tx := xcore.NewTransaction()
				_ = decode(tx, b, w)
				_ = tx.ToString()
			}
		})
	}
	small := func(t *rapid.T, w bool) *ref.Tx {
		x := &ref.Tx{Version: word(t, "ver"), LockTime: word(t, "lock")}
		for k := rapid.IntRange(0, 2).Draw(t, "nin"); k >= 0; k-- {
			in := &ref.TxIn{Hash: kit.BytesN(t, 32, "h"), Index: word(t, "ix"), Seq: word(t, "seq"), Script: kit.Bytes(t, 0, 6, "sig")}
			if w {
				for j := rapid.IntRange(0, 2).Draw(t, "items"); j > 0; j-- {
					in.Witness = append(in.Witness, kit.Bytes(t, 0, 5, "wit"))
				}
			}
			x.Ins = append(x.Ins, in)
		}
		for k := rapid.IntRange(0, 2).Draw(t, "nout"); k > 0; k-- {
			x.Outs = append(x.Outs, &ref.TxOut{Value: amount(t, "val"), Script: kit.Bytes(t, 0, 6, "out")})
		}
		return x
	}
	r.Run(t, "mutated", 20000, 30, "valid encodings with 1..3 byte edits or a count replaced by a huge or non-minimal one; non-trivial: the bytes differ from the valid encoding", func(t *rapid.T, c *kit.Case) {
		x := small(t, rapid.Bool().Draw(t, "w"))
		b := x.Bytes(true)
		m := b
		if rapid.IntRange(0, 2).Draw(t, "count") == 0 {
			// a length prefix somewhere becomes another one
			i := rapid.IntRange(4, min(len(b)-1, 120)).Draw(t, "at")
			p := rapid.SampledFrom([][]byte{{0xfd, 0, 0}, {0xfd, 1, 0}, {0xfd, 0xfd, 0}, {0xfd, 0xff, 0xff}, {0xfe, 1, 0, 0, 0}, {0xfe, 0, 0, 1, 0}, {0xfe, 0xff, 0xff, 0xff, 0x7f}, {0xfe, 0xff, 0xff, 0xff, 0xff},
				{0xff, 1, 0, 0, 0, 0, 0, 0, 0}, {0xff, 0, 0, 0, 0, 1, 0, 0, 0}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0x7f}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}, {0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}}).Draw(t, "p")
			m = bytes.Join([][]byte{b[:i], p, b[i+1:]}, nil)
			if rapid.Bool().Draw(t, "tail") {
				m = append(m, kit.Uniform(t, rapid.IntRange(0, 3000).Draw(t, "tn"), "tb")...)
			}
		} else {
			m = kit.Mutate(t, b, "m")
		}
		if !bytes.Equal(m, b) {
			c.Nontrivial(m)
		}
		c.Sample("%x", m)
		check(t, c, m)
	})
	r.Run(t, "lengths", 400, 20, "encodings with one count or length at the edge of a size class (252, 253, 254, 65534, 65535, 65536), written in each form that holds it: only the shortest is accepted; non-trivial: not the shortest form", func(t *rapid.T, c *kit.Case) {
		edge := rapid.SampledFrom([]int{0, 1, 252, 253, 254, 255, 256, 65534, 65535, 65536, 65537, 100000, 200001}).Draw(t, "edge")
		where := rapid.IntRange(0, 5).Draw(t, "where")
		if where > 2 && edge > 256 {
			edge = rapid.SampledFrom([]int{252, 253, 254}).Draw(t, "edge2")
		}
		w := rapid.Bool().Draw(t, "w")
		x := &ref.Tx{Version: 2, Ins: []*ref.TxIn{{Hash: make([]byte, 32), Script: []byte{1, 2}}}, Outs: []*ref.TxOut{{Script: []byte{3}}}}
		if w || where == 2 || where == 5 {
			w = true
			x.Ins[0].Witness = [][]byte{{9}, {}}
		}
		at := 4
		if w {
			at += 2
		}
		switch where { // the byte position of the length
		case 0:
			x.Ins[0].Script = make([]byte, edge)
			at += 1 + 36
		case 1:
			x.Outs[0].Script = make([]byte, edge)
			at += 1 + 36 + 3 + 4 + 1 + 8
		case 2:
			x.Ins[0].Witness[0] = make([]byte, edge)
			at += 1 + 36 + 3 + 4 + 1 + 8 + 2 + 1
		case 3:
			for len(x.Ins) < edge {
				x.Ins = append(x.Ins, &ref.TxIn{Hash: make([]byte, 32)})
			}
			edge = len(x.Ins)
		case 4:
			for len(x.Outs) < edge {
				x.Outs = append(x.Outs, &ref.TxOut{})
			}
			edge = len(x.Outs)
			at += 1 + 36 + 3 + 4
		case 5:
			for len(x.Ins[0].Witness) < edge {
				x.Ins[0].Witness = append(x.Ins[0].Witness, []byte{})
			}
			edge = len(x.Ins[0].Witness)
			at += 1 + 36 + 3 + 4 + 1 + 8 + 2
		}
		b := x.Bytes(w)
		short := ref.VarInt(uint64(edge))
		if !bytes.HasPrefix(b[at:], short) {
			panic("position of the length")
		}
		p := short
		for f := rapid.IntRange(0, 3).Draw(t, "form"); f > 0 && f < 4; f++ {
			if n := 1 << f; n == 8 || edge < 1<<(8*n) {
				p = []byte{byte(252 + f)}
				for j := 0; j < n; j++ {
					p = append(p, byte(uint64(edge)>>(8*j)))
				}
				break
			}
		}
		m := bytes.Join([][]byte{b[:at], p, b[at+len(short):]}, nil)
		c.Class(fmt.Sprintf("field %d form %d", where, len(p)))
		if !bytes.Equal(p, short) {
			c.Nontrivial(fmt.Sprint(where, edge, len(p)))
		}
		c.Sample("%d as %x at %d of %.200x", edge, p, at, m)
		check(t, c, m)
	})
	r.Run(t, "truncated", 600, 20, "every proper prefix of a valid encoding is refused; non-trivial: at least 60 prefixes", func(t *rapid.T, c *kit.Case) {
		x := small(t, rapid.Bool().Draw(t, "w"))
		b := x.Bytes(true)
		if len(b) > 60 {
			c.Nontrivial(b)
		}
		c.Sample("%x", b)
		w := x.HasWitness()
		for i := range b {
			var err error
			kit.NoPanic(t, fmt.Sprintf("decoding the first %d bytes of %x", i, b), func() { err = decode(xcore.NewTransaction(), b[:i:i], w) })
			if err == nil {
				t.Fatalf("the first %d of %d bytes of %x are accepted", i, len(b), b)
			}
		}
	})
	r.Run(t, "truncated-wide", 100, 20, "prefixes of encodings of many or long elements, cut anywhere, just before the end, or within the long element: refused; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		w := rapid.Bool().Draw(t, "w")
		x := wideTx(t, many(t, "nin"), many(t, "nout"), w)
		long := kit.Expand(uint64(len(x.Ins)), rapid.SampledFrom([]int{1, 521, 10001, 65535, 65536, 65537, 140001}).Draw(t, "bytes"))
		switch in := x.Ins[place(t, len(x.Ins), "lin")]; rapid.IntRange(0, 2).Draw(t, "where") {
		case 0:
			in.Script = long
		case 1:
			x.Outs[place(t, len(x.Outs), "lout")].Script = long
		case 2:
			if w {
				in.Witness = append(in.Witness, long)
			}
		}
		b := x.Bytes(true)
		start := max(0, bytes.Index(b, long))
		var cuts []int
		for k := 0; k < 12; k++ {
			cuts = append(cuts, len(b)-1-k, int(rapid.Uint64().Draw(t, "cut")%uint64(len(b))), start+int(rapid.Uint64().Draw(t, "inlong")%uint64(len(long))))
		}
		c.Nontrivial(b)
		c.Sample("%d bytes, %d inputs, cut at %v", len(b), len(x.Ins), cuts)
		w = x.HasWitness()
		for _, i := range cuts {
			if i < 0 || i >= len(b) {
				continue
			}
			var err error
			kit.NoPanic(t, "decoding a prefix", func() { err = decode(xcore.NewTransaction(), b[:i:i], w) })
			if err == nil {
				t.Fatalf("the first %d of %d bytes of a transaction of %d inputs and %d outputs are accepted: %.200x", i, len(b), len(x.Ins), len(x.Outs), b)
			}
		}
	})
	r.Run(t, "random", 20000, 40, "short random byte strings, half of them with a plausible front; non-trivial: at least 10 bytes", func(t *rapid.T, c *kit.Case) {
		b := rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 0, 0, 1, 1, 2, 3, 0xfd, 0xff})), 0, 120).Draw(t, "b")
		if rapid.Bool().Draw(t, "front") {
			b = append(rapid.SampledFrom([][]byte{{1, 0, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 1, 0}, {1, 0, 0, 0, 0}, {2, 0, 0, 0, 1}, {1, 0, 0, 0, 0, 0}, {1, 0, 0, 0, 0, 2}}).Draw(t, "f"), b...)
		}
		if len(b) >= 10 {
			c.Nontrivial(b)
		}
		c.Sample("%x", b)
		check(t, c, b)
	})
}

// prevScript draws a script that splits into opcodes and pushes, OP_CODESEPARATOR among them, also inside push data.
func prevScript(t *rapid.T, label string) []byte {
	var s []byte
	for k := rapid.IntRange(0, 8).Draw(t, label+".n"); k > 0; k-- {
		switch rapid.IntRange(0, 3).Draw(t, label+".k") {
		case 0:
			s = append(s, 0xab)
		case 1:
			s = append(s, byte(rapid.IntRange(79, 255).Draw(t, label+".op")))
		case 2:
			s = append(s, ref.PushData(bytes.Repeat([]byte{rapid.SampledFrom([]byte{0xab, 0, 0xac}).Draw(t, label+".fill")}, rapid.IntRange(0, 90).Draw(t, label+".l")))...)
		case 3:
			s = append(s, append([]byte{0x4d, 3, 0}, 0xab, 0xab, byte(k))...)
		}
	}
	return s
}

// history takes digests of inputs of one transaction that changes between them: legacy ones, or those of witness programs.
func history(t *rapid.T, c *kit.Case, legacy bool) {
	dup := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	kinds := []int{ref.PKH, ref.SH, ref.WPKH, ref.WSH}
	if legacy {
		kinds = kinds[:2]
	}
	// codeOf is the script code of an input.
	codeOf := func(in *ref.TxIn) []byte {
		k, h := ref.Kind(in.Locking)
		switch {
		case k == ref.WPKH:
			return ref.Lock(ref.PKH, h)
		case k == ref.WSH || legacy && k == ref.SH && in.Redeem != nil:
			return in.Redeem
		case legacy:
			return in.Locking
		}
		return nil
	}
	x := &ref.Tx{Version: word(t, "ver"), LockTime: word(t, "lock")}
	tx, _, _ := toRepo(x)
	var ins []*xcore.TxIn
	var outs []*xcore.TxOut
	var codes [][]byte
	addIn := func() {
		in := &ref.TxIn{Hash: kit.Uniform(t, 32, "h"), Index: word(t, "ix"), Seq: 0xffffffff, Value: amount(t, "val")}
		var code []byte
		var v *xcore.TxIn
		if rapid.IntRange(0, 3).Draw(t, "free") > 0 {
			kind := rapid.SampledFrom(kinds).Draw(t, "kind")
			if kind == ref.WSH || kind == ref.SH && legacy {
				in.Redeem = prevScript(t, "redeem")
			}
			in.Locking = ref.Lock(kind, kit.Uniform(t, hashLen(kind), "lh"))
			code = codeOf(in)
			var err error
			if v, err = xcore.NewTxIn(dup(in.Hash), in.Index, in.Value, dup(in.Locking), dup(in.Redeem)); err != nil {
				t.Fatalf("input: %v", err)
			}
		} else {
			code = blob(t, "code")
			if legacy && bytes.IndexByte(code, 0xab) >= 0 && !ref.Walks(code) {
				code = nil
			}
			v = &xcore.TxIn{Hash: dup(in.Hash), Index: in.Index, Value: in.Value, Sequence: in.Seq}
			if legacy {
				v.FinalLockingScript = dup(code)
			} else {
				v.WitnessScriptCode = dup(code)
			}
		}
		x.Ins, ins, codes = append(x.Ins, in), append(ins, v), append(codes, code)
		tx.AddInput(v)
	}
	addOut := func() {
		o := &ref.TxOut{Value: amount(t, "ov"), Script: blob(t, "os")}
		v := xcore.NewTxOut(o.Value, append([]byte{}, o.Script...))
		x.Outs, outs = append(x.Outs, o), append(outs, v)
		tx.AddOutput(v)
	}
	if rapid.IntRange(0, 30).Draw(t, "many") == 0 {
		for k := rapid.IntRange(251, 260).Draw(t, "outs"); k > 0; k-- {
			o := &ref.TxOut{Value: uint64(k), Script: []byte{byte(k)}}
			v := xcore.NewTxOut(o.Value, []byte{byte(k)})
			x.Outs, outs = append(x.Outs, o), append(outs, v)
			tx.AddOutput(v)
		}
	}
	addIn()
	if rapid.Bool().Draw(t, "second") {
		addIn()
	}
	digests, changed, again := 0, false, false
	var log []string
	for k := rapid.IntRange(4, 25).Draw(t, "steps"); k > 0; k-- {
		op := rapid.IntRange(0, 15).Draw(t, "op")
		switch op {
		case 0:
			addIn()
			log = append(log, "in")
		case 1:
			addOut()
			log = append(log, "out")
		case 2:
			i := rapid.IntRange(0, len(ins)-1).Draw(t, "i")
			x.Ins[i].Seq = word(t, "seq")
			ins[i].Sequence = x.Ins[i].Seq
			log = append(log, "seq")
		case 3:
			i := rapid.IntRange(0, len(ins)-1).Draw(t, "i")
			x.Ins[i].Value = amount(t, "v")
			ins[i].Value = x.Ins[i].Value
			log = append(log, "value")
		case 4:
			i := rapid.IntRange(0, len(ins)-1).Draw(t, "i")
			x.Ins[i].Hash[3] ^= 0x40
			ins[i].Hash[3] ^= 0x40
			x.Ins[i].Index++
			ins[i].Index++
			log = append(log, "prevout")
		case 5:
			if len(outs) > 0 {
				i := rapid.IntRange(0, len(outs)-1).Draw(t, "i")
				x.Outs[i].Value ^= 1
				outs[i].Value ^= 1
				log = append(log, "outvalue")
			}
		case 6:
			x.Version, x.LockTime = word(t, "ver"), word(t, "lock")
			tx.SetVersion(x.Version)
			tx.SetLockTime(x.LockTime)
			log = append(log, "version")
		case 14, 15: // the spent output is registered, again or for the first time
			i := rapid.IntRange(0, len(ins)-1).Draw(t, "i")
			kind := rapid.SampledFrom(kinds).Draw(t, "kind")
			var redeem []byte
			h := kit.Uniform(t, hashLen(kind), "lh")
			if rapid.Bool().Draw(t, "hasredeem") || kind == ref.WSH {
				redeem = prevScript(t, "redeem")
			}
			switch {
			case kind == ref.WSH:
				h = ref.Sha(redeem)
			case kind == ref.SH && redeem != nil:
				h = ref.Hash160(redeem)
			}
			v := rapid.OneOf(rapid.SampledFrom([]uint64{0, x.Ins[i].Value}), rapid.Just(amount(t, "v"))).Draw(t, "which")
			lock := ref.Lock(kind, h)
			if rapid.IntRange(0, 3).Draw(t, "unknown") == 0 {
				lock = append(lock, 0x61)
			}
			var err error
			kit.NoPanic(t, "SetTxIn", func() { err = tx.SetTxIn(i, v, append([]byte{}, lock...), dup(redeem)) })
			if k, _ := ref.Kind(lock); (err == nil) != (k != ref.Unknown) {
				t.Fatalf("history %v: registering value %d script %x redeem script %x: %v", log, v, lock, redeem, err)
			}
			if err == nil {
				x.Ins[i].Value, x.Ins[i].Locking, x.Ins[i].Redeem = v, lock, redeem
				codes[i] = codeOf(x.Ins[i])
			}
			log = append(log, fmt.Sprintf("set %d kind %d %v", i, kind, err == nil))
		default:
			i := rapid.IntRange(0, len(ins)-1).Draw(t, "i")
			if len(outs) > 0 && rapid.IntRange(0, 2).Draw(t, "edge") == 0 {
				i = min(len(outs)-1+rapid.IntRange(0, 1).Draw(t, "e"), len(ins)-1)
			}
			ht := uint32(rapid.OneOf(rapid.SampledFrom([]byte{1, 1, 2, 3, 0x81, 0x82, 0x83, 0x23, 0x62}), rapid.Byte()).Draw(t, "ht"))
			if rapid.IntRange(0, 7).Draw(t, "wide") == 0 { // the digest holds four bytes of it
				ht |= rapid.Uint32().Draw(t, "high") << 8
			}
			log = append(log, fmt.Sprintf("%d:%02x", i, ht))
			c.Class(fmt.Sprintf("base type %d acp %v", min(ht&0x1f, 4), ht&0x80 != 0))
			before := tx.Serialize()
			var got []byte
			kit.NoPanic(t, "the signature hash", func() {
				if legacy {
					got = tx.RawSignatureHash(i, xcore.SigHashType(ht))
				} else {
					got = tx.WitnessV0SignatureHash(i, xcore.SigHashType(ht))
				}
			})
			want := ref.SigHashLegacy(x, i, codes[i], ht)
			if !legacy { // the script code of an input that is not a witness program is nil
				want = ref.SigHashV0(x, i, codes[i], x.Ins[i].Value, ht)
			}
			if !bytes.Equal(got, want) {
				t.Fatalf("history %v: digest %x want %x", log, got, want)
			}
			if !bytes.Equal(before, tx.Serialize()) {
				t.Fatalf("computing the digest altered the transaction")
			}
			digests++
			again = again || changed && digests > 1
			continue
		}
		changed = changed || digests > 0
	}
	if again {
		c.Nontrivial(fmt.Sprint(log), x.Bytes(false))
	}
	c.Sample("%v", log)
}

func TestP19(t *testing.T) {
	r := kit.New(t, "P19", "the script code is the redeem script when one is registered and the spent output is not pay-to-key-hash, else the spent script",
		"excluded: scripts that hold OP_CODESEPARATOR and end inside a push (they can never execute)")
	// spend gives input idx of x a spent script, and the library's inputs the same.
	spend := func(t *rapid.T, x *ref.Tx, ins []*xcore.TxIn, idx int) []byte {
		var lock, redeem []byte
		switch rapid.IntRange(0, 4).Draw(t, "spent") {
		case 0:
			lock = ref.Lock(ref.PKH, kit.Uniform(t, 20, "h"))
			if rapid.Bool().Draw(t, "stray") {
				redeem = prevScript(t, "r")
			}
		case 1:
			redeem = prevScript(t, "r")
			lock = ref.Lock(ref.SH, ref.Hash160(redeem))
		case 2:
			lock = prevScript(t, "l")
		case 3:
			lock = blob(t, "l")
			if bytes.IndexByte(lock, 0xab) >= 0 && !ref.Walks(lock) {
				lock = nil
			}
		case 4:
			lock, redeem = prevScript(t, "l"), blob(t, "r")
			if bytes.IndexByte(redeem, 0xab) >= 0 && !ref.Walks(redeem) {
				redeem = nil
			}
		}
		dup := func(b []byte) []byte {
			if b == nil {
				return nil
			}
			return append([]byte{}, b...)
		}
		ins[idx].RawLockingScript, ins[idx].FinalLockingScript, ins[idx].RedeemScript = dup(lock), dup(lock), dup(redeem)
		x.Ins[idx].Locking, x.Ins[idx].Redeem = lock, redeem
		if k, _ := ref.Kind(lock); redeem != nil && k != ref.PKH {
			return redeem
		}
		return lock
	}
	r.Run(t, "digest", 10000, 30, "transactions x input index (rarely out of range) x spent scripts with OP_CODESEPARATOR x any hash type byte; non-trivial: at least two inputs or outputs", func(t *rapid.T, c *kit.Case) {
		x := plainTx(t, rapid.IntRange(0, 4).Draw(t, "w") == 0)
		if len(x.Ins) == 0 {
			x.Ins = append(x.Ins, &ref.TxIn{Hash: kit.Uniform(t, 32, "h"), Index: word(t, "ix"), Seq: word(t, "seq")})
		}
		tx, ins, _ := toRepo(x)
		idx := rapid.IntRange(0, len(x.Ins)-1).Draw(t, "idx")
		if len(x.Outs) > 0 && len(x.Ins) > 1 && rapid.IntRange(0, 4).Draw(t, "edge") == 0 {
			idx = min(len(x.Outs)-1+rapid.IntRange(0, 1).Draw(t, "e"), len(x.Ins)-1)
		}
		code := spend(t, x, ins, idx)
		ht := uint32(rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 2, 3, 0x81, 0x82, 0x83, 0x22, 0x43, 0x80}), rapid.Byte()).Draw(t, "ht"))
		if rapid.IntRange(0, 7).Draw(t, "wide") == 0 { // the digest holds four bytes of it
			ht |= rapid.Uint32().Draw(t, "high") << 8
			c.Class("type above one byte")
		}
		if len(x.Ins) > 1 || len(x.Outs) > 1 {
			c.Nontrivial(x.Bytes(true), idx, ht, code)
		}
		c.Class(fmt.Sprintf("base type %d", min(ht&0x1f, 4)))
		if bytes.IndexByte(code, 0xab) >= 0 {
			c.Class("OP_CODESEPARATOR byte in script")
		}
		c.Sample("input %d type %02x script %x of %x", idx, ht, code, x.Bytes(true))
		if rapid.IntRange(0, 30).Draw(t, "out") == 0 {
			idx = rapid.SampledFrom([]int{-1, len(x.Ins), len(x.Ins) + 5}).Draw(t, "bad")
			c.Class("no such input")
		}
		want := ref.SigHashLegacy(x, idx, code, ht)
		before := tx.Serialize()
		for round := 0; round < 2; round++ {
			var got []byte
			kit.NoPanic(t, "RawSignatureHash", func() { got = tx.RawSignatureHash(idx, xcore.SigHashType(ht)) })
			if !bytes.Equal(got, want) {
				t.Fatalf("round %d: digest of input %d type %02x script %x of %x: %x want %x", round, idx, ht, code, x.Bytes(true), got, want)
			}
		}
		if !bytes.Equal(before, tx.Serialize()) {
			t.Fatalf("computing the digest altered the transaction")
		}
		if idx >= 0 && idx < len(ins) && (!bytes.Equal(ins[idx].FinalLockingScript, x.Ins[idx].Locking) || !bytes.Equal(ins[idx].RedeemScript, x.Ins[idx].Redeem)) {
			t.Fatalf("computing the digest altered the spent script")
		}
	})
	r.Run(t, "history", 6000, 30, "histories of 4..25 steps: digests of any input and type, inputs and outputs added, spent outputs registered (again, of other kinds, also refused ones), fields changed through exported fields and setters, also in ways that keep the counts; non-trivial: a digest was taken again after a change", func(t *rapid.T, c *kit.Case) { history(t, c, true) })
	r.Run(t, "alltypes", 200, 20, "all 256 hash types of one input; non-trivial: at least two inputs and outputs", func(t *rapid.T, c *kit.Case) {
		x := &ref.Tx{Version: word(t, "ver"), LockTime: word(t, "lock")}
		for k := rapid.IntRange(0, 3).Draw(t, "ins"); k >= 0; k-- {
			x.Ins = append(x.Ins, &ref.TxIn{Hash: kit.Uniform(t, 32, "h"), Index: word(t, "ix"), Seq: word(t, "seq"), Script: kit.Bytes(t, 0, 5, "s")})
		}
		for k := rapid.IntRange(0, 4).Draw(t, "outs"); k > 0; k-- {
			x.Outs = append(x.Outs, &ref.TxOut{Value: amount(t, "v"), Script: kit.Bytes(t, 0, 30, "o")})
		}
		tx, ins, _ := toRepo(x)
		idx := rapid.IntRange(0, len(x.Ins)-1).Draw(t, "idx")
		code := spend(t, x, ins, idx)
		if len(x.Ins) > 1 && len(x.Outs) > 1 {
			c.Nontrivial(x.Bytes(true), idx, code)
		}
		c.Sample("input %d script %x of %x", idx, code, x.Bytes(true))
		start := rapid.IntRange(0, 255).Draw(t, "start")
		for i := 0; i < 256; i++ {
			ht := uint32(start+i) & 0xff
			if got, want := tx.RawSignatureHash(idx, xcore.SigHashType(ht)), ref.SigHashLegacy(x, idx, code, ht); !bytes.Equal(got, want) {
				t.Fatalf("digest of input %d type %02x script %x of %x: %x want %x", idx, ht, code, x.Bytes(true), got, want)
			}
		}
	})
	r.Run(t, "wide", 400, 20, "transactions of up to 620 inputs and outputs, digests of inputs anywhere between changes anywhere; non-trivial: more than 256 inputs or outputs", wideDigests(true))
	r.Run(t, "commits", 4000, 20, "the default digest changes with any field or the spent script and not with unlocking data; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		x := plainTx(t, false)
		if len(x.Ins) == 0 {
			x.Ins = append(x.Ins, &ref.TxIn{Hash: kit.Uniform(t, 32, "h")})
		}
		n := len(x.Ins)
		idx := rapid.IntRange(0, n-1).Draw(t, "idx")
		lock := locking(t, "lock")
		digest := func(x *ref.Tx, idx int, lock []byte) []byte {
			tx, ins, _ := toRepo(x)
			ins[idx].RawLockingScript, ins[idx].FinalLockingScript = lock, lock
			return tx.RawSignatureHash(idx, xcore.SigHashAll)
		}
		d := digest(x, idx, lock)
		y := x.Clone()
		name := "spent script"
		l2 := lock
		if rapid.IntRange(0, 6).Draw(t, "lockedit") == 0 {
			l2 = append([]byte{}, lock...)
			l2[len(lock)/2] ^= 1
		} else if name = edit(t, y); name == "dropin" || name == "swapins" {
			name = "addin"
			y = x.Clone()
			y.Ins = append(y.Ins, &ref.TxIn{Hash: make([]byte, 32)})
		}
		c.Nontrivial(x.Bytes(false), y.Bytes(false), l2, idx)
		c.Class(name)
		c.Sample("%s of input %d of %x", name, idx, x.Bytes(false))
		if bytes.Equal(d, digest(y, idx, l2)) {
			t.Fatalf("the digest of input %d of %x does not commit to %s", idx, x.Bytes(false), name)
		}
		z := x.Clone()
		in := z.Ins[rapid.IntRange(0, n-1).Draw(t, "j")]
		in.Script = append(in.Script, 7)
		in.Witness = append(in.Witness, []byte{9})
		if !bytes.Equal(d, digest(z, idx, lock)) {
			t.Fatalf("the digest of input %d of %x depends on unlocking data", idx, x.Bytes(false))
		}
	})
}

func TestP20(t *testing.T) {
	r := kit.New(t, "P20", "input indexes in range: the method has no error result")
	r.Run(t, "history", 12000, 30, "histories of 4..25 steps: digests of any input and type, inputs and outputs added, spent outputs registered (again, of other kinds, also refused ones), fields changed through exported fields and setters, also in ways that keep the counts; non-trivial: a digest was taken again after a change", func(t *rapid.T, c *kit.Case) { history(t, c, false) })
	r.Run(t, "wide", 400, 20, "transactions of up to 620 inputs and outputs, digests of inputs anywhere between changes anywhere; non-trivial: more than 256 inputs or outputs", wideDigests(false))
	r.Run(t, "alltypes", 200, 20, "all 256 hash types of one input; non-trivial: at least two inputs and outputs", func(t *rapid.T, c *kit.Case) {
		x := plainTx(t, true)
		for len(x.Ins) > 4 || len(x.Outs) > 4 {
			x.Ins, x.Outs = x.Ins[:min(len(x.Ins), 4)], x.Outs[:min(len(x.Outs), 4)]
		}
		tx, ins, _ := toRepo(x)
		idx := rapid.IntRange(0, len(x.Ins)-1).Draw(t, "idx")
		code, v := prevScript(t, "code"), amount(t, "v")
		ins[idx].WitnessScriptCode, ins[idx].Value = code, v
		if len(x.Ins) > 1 && len(x.Outs) > 1 {
			c.Nontrivial(x.Bytes(true), idx, code, v)
		}
		c.Sample("input %d code %x value %d of %x", idx, code, v, x.Bytes(false))
		start := rapid.IntRange(0, 255).Draw(t, "start")
		for i := 0; i < 256; i++ {
			ht := uint32(start+i) & 0xff
			if got, want := tx.WitnessV0SignatureHash(idx, xcore.SigHashType(ht)), ref.SigHashV0(x, idx, code, v, ht); !bytes.Equal(got, want) {
				t.Fatalf("digest of input %d type %02x code %x value %d of %x: %x want %x", idx, ht, code, v, x.Bytes(true), got, want)
			}
		}
	})
}

func TestP27(t *testing.T) {
	r := kit.New(t, "P27", "upper bounds are claimed for pay-to-key-hash spends with compressed keys, whose signatures are low-S", "known finding: one byte per output beyond the number of inputs is allowed for EstimateSize")
	r.Run(t, "sizes", 5000, 30, "transactions with and without witness data, known input values; non-trivial: witness data present", func(t *rapid.T, c *kit.Case) {
		x := plainTx(t, rapid.Bool().Draw(t, "w"))
		var in, out uint64
		for _, i := range x.Ins {
			i.Value = rapid.Uint64Range(0, 1<<50).Draw(t, "iv")
			in += i.Value
		}
		for _, o := range x.Outs {
			o.Value = rapid.Uint64Range(0, 1<<50).Draw(t, "ov")
			out += o.Value
		}
		if x.HasWitness() {
			c.Nontrivial(x.Bytes(true))
		}
		c.Sample("%x", x.Bytes(true))
		tx, ins, _ := toRepo(x)
		base, total := len(x.Bytes(false)), len(x.Bytes(true))
		if rapid.IntRange(0, 3).Draw(t, "code") == 0 && len(ins) > 0 { // a witness input has an empty scriptSig on the wire
			i := rapid.IntRange(0, len(ins)-1).Draw(t, "i")
			ins[i].WitnessScriptCode = []byte{1}
			y := x.Clone()
			y.Ins[i].Script = nil
			base, total = len(y.Bytes(false)), len(y.Bytes(true))
			c.Class("unlocking kept for a witness input")
		}
		weight := base*3 + total
		if tx.BaseSize() != base || tx.Size() != total || tx.WitnessSize() != total-base || tx.Weight() != weight || tx.Vsize() != (weight+3)/4 {
			t.Fatalf("base %d size %d witness %d weight %d vsize %d of %d/%d bytes", tx.BaseSize(), tx.Size(), tx.WitnessSize(), tx.Weight(), tx.Vsize(), base, total)
		}
		if tx.Fees() != int(in)-int(out) {
			t.Fatalf("fees %d want %d-%d", tx.Fees(), in, out)
		}
		if len(tx.Serialize()) != total || len(tx.SerializeNoWitness()) != base {
			t.Fatalf("sizes of the encodings %d %d want %d %d", len(tx.Serialize()), len(tx.SerializeNoWitness()), total, base)
		}
	})
	r.Run(t, "wide", 400, 20, "transactions of up to 620 inputs and outputs: sizes, weight, fee, and the estimates for as many; non-trivial: more than 256 inputs or outputs", wideSizes)
	r.Run(t, "registered", 1500, 20, "decoded transactions whose inputs are given spent outputs, fitting or not, one after another: sizes stay those of the encodings, the fee counts the values given last; non-trivial: a witness program was registered for an input with witness data", func(t *rapid.T, c *kit.Case) {
		registered(t, c, func(tx *xcore.Transaction, x *ref.Tx) error {
			base, total := len(x.Bytes(false)), len(x.Bytes(true))
			weight := base*3 + total
			if tx.BaseSize() != base || tx.Size() != total || tx.WitnessSize() != total-base || tx.Weight() != weight || tx.Vsize() != (weight+3)/4 {
				return fmt.Errorf("base %d size %d witness %d weight %d vsize %d of %d/%d bytes", tx.BaseSize(), tx.Size(), tx.WitnessSize(), tx.Weight(), tx.Vsize(), base, total)
			}
			var in, out uint64
			for _, i := range x.Ins {
				in += i.Value
			}
			for _, o := range x.Outs {
				out += o.Value
			}
			if tx.Fees() != int(in-out) {
				return fmt.Errorf("fees %d want %d-%d", tx.Fees(), in, out)
			}
			return nil
		})
	})
	r.Run(t, "estimate", 500, 15, "signed pay-to-key-hash spends with outputs of all standard kinds; non-trivial: at least two inputs and two outputs", func(t *rapid.T, c *kit.Case) {
		nin, nout := rapid.IntRange(1, 3).Draw(t, "in"), rapid.IntRange(0, 5).Draw(t, "out")
		if rapid.IntRange(0, 40).Draw(t, "many") == 0 {
			nout = rapid.IntRange(250, 258).Draw(t, "outs")
		}
		tx := xcore.NewTransaction()
		var ins []*xcore.TxIn
		var outs []*xcore.TxOut
		var cs []*coin
		normal := true
		for i := 0; i < nin; i++ {
			co := newCoin(t, ref.PKH, 1, "coin")
			co.compressed = true
			co.lock = ref.Lock(ref.PKH, ref.Hash160(pub(co.d[0], true)))
			v, err := xcore.NewTxIn(co.txid, co.n, co.value, co.lock, nil)
			if err != nil {
				t.Fatalf("%v", err)
			}
			ins, cs = append(ins, v), append(cs, co)
			tx.AddInput(v)
		}
		for i := 0; i < nout; i++ {
			s := locking(t, "o")
			if k, _ := ref.Kind(s); k == ref.WSH {
				normal = false
			}
			o := xcore.NewTxOut(amount(t, "v"), s)
			outs = append(outs, o)
			tx.AddOutput(o)
		}
		est, enorm := xcore.EstimateSize(ins, outs), xcore.EstimateNormalSize(nin, nout)
		for i, co := range cs {
			if err := tx.SignIndex(i, true, xcore.SigHashType(co.hashType), co.keys([]int{0})...); err != nil {
				t.Fatalf("%v", err)
			}
		}
		real := len(tx.Serialize())
		if nin > 1 && nout > 1 {
			c.Nontrivial(tx.Serialize())
		}
		c.Sample("%d in %d out: %d bytes, estimates %d %d", nin, nout, real, est, enorm)
		slack := max(0, nout-nin)
		if slack > 0 {
			c.Excluded("up to outs-ins bytes below the real size (EstimateSize)")
		}
		if int64(real) > est+int64(slack) {
			t.Fatalf("%d in %d out: real size %d above the estimate %d", nin, nout, real, est)
		}
		if normal && int64(real) > enorm {
			t.Fatalf("%d in %d out: real size %d above the normal estimate %d", nin, nout, real, enorm)
		}
		// an upper bound that is not wildly off: signatures vary by a few bytes, scripts by 3
		if int64(real)+int64(10*nin+10*nout+10) < enorm && normal {
			t.Fatalf("%d in %d out: normal estimate %d for %d bytes", nin, nout, enorm, real)
		}
	})
	r.Run(t, "worst", 600, 20, "0..700 inputs whose signatures are as long as low-S signatures get (built by hand), pay-to-key-hash outputs; non-trivial: at least two inputs", func(t *rapid.T, c *kit.Case) {
		n := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(250, 256), rapid.IntRange(0, 700)).Draw(t, "in")
		m := rapid.OneOf(rapid.IntRange(0, 4), rapid.IntRange(250, 256), rapid.IntRange(0, 700)).Draw(t, "out")
		tx := xcore.NewTransaction()
		var ins []*xcore.TxIn
		var outs []*xcore.TxOut
		script := append(ref.PushData(make([]byte, 72)), ref.PushData(append([]byte{2}, make([]byte, 32)...))...) // 0x30 len 0x02 33 r 0x02 32 s, type
		for i := 0; i < n; i++ {
			v, err := xcore.NewTxIn(make([]byte, 32), uint32(i), 1, ref.Lock(ref.PKH, make([]byte, 20)), nil)
			if err != nil {
				t.Fatalf("%v", err)
			}
			v.RawUnlockingScript = script
			tx.AddInput(v)
			ins = append(ins, v)
		}
		for i := 0; i < m; i++ {
			o := xcore.NewTxOut(1, ref.Lock(ref.PKH, make([]byte, 20)))
			tx.AddOutput(o)
			outs = append(outs, o)
		}
		if n > 1 {
			c.Nontrivial(n, m)
		}
		c.Sample("%d in %d out", n, m)
		real := int64(len(tx.Serialize()))
		if e := xcore.EstimateNormalSize(n, m); e < real {
			t.Fatalf("%d in %d out: real size up to %d above the normal estimate %d", n, m, real, e)
		}
		if e := xcore.EstimateSize(ins, outs) + int64(max(0, m-n)); e < real {
			t.Fatalf("%d in %d out: real size up to %d above the estimate %d", n, m, real, e)
		}
	})
	r.Run(t, "grow", 1500, 20, "estimates with one more input or output, all input kinds; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		nin, nout := counts(t, "in", 0, 6), counts(t, "out", 0, 6)
		var ins []*xcore.TxIn
		var outs []*xcore.TxOut
		in := func() *xcore.TxIn {
			kind := rapid.IntRange(1, 4).Draw(t, "kind")
			v, err := xcore.NewTxIn(make([]byte, 32), 0, 1, ref.Lock(kind, make([]byte, hashLen(kind))), []byte{0x51})
			if err != nil {
				t.Fatalf("%v", err)
			}
			return v
		}
		for i := 0; i < nin; i++ {
			ins = append(ins, in())
		}
		for i := 0; i < nout; i++ {
			outs = append(outs, xcore.NewTxOut(1, locking(t, "o")))
		}
		c.Nontrivial(nin, nout, rapid.Uint64().Draw(t, "x"))
		e := xcore.EstimateSize(ins, outs)
		if i, o := xcore.EstimateSize(append(ins, in()), outs), xcore.EstimateSize(ins, append(outs, xcore.NewTxOut(1, locking(t, "p")))); i < e || o <= e {
			t.Fatalf("%d in %d out: estimate %d, with another input %d, output %d", nin, nout, e, i, o)
		}
		n := xcore.EstimateNormalSize(nin, nout)
		if i, o := xcore.EstimateNormalSize(nin+1, nout), xcore.EstimateNormalSize(nin, nout+1); i < n+147 || o < n+34 {
			t.Fatalf("%d in %d out: normal estimate %d, with another input %d, output %d", nin, nout, n, i, o)
		}
	})
	r.Run(t, "fees", 30000, 30, "rate times size over the whole 64-bit range; non-trivial: both positive", func(t *rapid.T, c *kit.Case) {
		num := func(l string) int64 {
			switch rapid.IntRange(0, 3).Draw(t, l+".k") {
			case 0:
				return rapid.SampledFrom([]int64{0, 1, -1, 999, 1000, 1001, 1<<53 + 1, 1<<63 - 1, -1 << 63, 1 << 32}).Draw(t, l)
			case 1:
				return rapid.Int64().Draw(t, l)
			}
			return rapid.Int64Range(1, 5000000).Draw(t, l)
		}
		size, rate := num("size"), num("rate")
		if size > 0 && rate > 0 {
			c.Nontrivial(size, rate)
		}
		c.Sample("%d x %d", size, rate)
		var want int64
		if size > 0 && rate > 0 {
			want = bigFee(size, rate)
		}
		if got := xcore.EstimateFees(size, rate); got != want {
			t.Fatalf("fee of %d bytes at %d per kB: %d want %d", size, rate, got, want)
		}
	})
}
