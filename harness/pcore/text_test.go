package pcore

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/xcore"

	"verif/kit"
	"verif/ref"
)

type field struct{ key, val string }

var fieldLine = regexp.MustCompile(`^\s*"(\w+)":\s*(.*?)\s*,?\s*$`)

// readText takes a printed transaction apart: fields of each input and output, and the totals.
func readText(s string) (ins, outs []map[string]string, sums map[string]string, err error) {
	part := ""
	sums = map[string]string{}
	var cur map[string]string
	for _, l := range strings.Split(s, "\n") {
		w := strings.TrimSpace(l)
		switch {
		case strings.HasPrefix(w, `"inputs"`):
			part = "in"
			continue
		case strings.HasPrefix(w, `"outputs"`):
			part = "out"
			continue
		case strings.HasPrefix(w, "]"):
			part = ""
			continue
		case w == "{":
			cur = map[string]string{}
			if part == "in" {
				ins = append(ins, cur)
			} else if part == "out" {
				outs = append(outs, cur)
			}
			continue
		}
		m := fieldLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		v := m[2]
		if len(v) > 1 && v[0] == '"' && v[len(v)-1] == '"' {
			v = v[1 : len(v)-1]
		}
		d := cur
		if part == "" {
			d = sums
		}
		if old, ok := d[m[1]]; ok {
			return nil, nil, nil, fmt.Errorf("%s given twice: %q and %q", m[1], old, v)
		}
		d[m[1]] = v
	}
	return ins, outs, sums, nil
}

func scriptShown(text string, script []byte) bool {
	words, ok := ref.Words(script)
	if !ok {
		return strings.TrimSpace(text) != ""
	}
	return strings.Join(strings.Fields(text), " ") == strings.Join(words, " ")
}

// shows compares the printed form with the model. known: spent outputs were given to the library.
func shows(text string, x *ref.Tx, known bool) error {
	ins, outs, sums, err := readText(text)
	if err != nil {
		return err
	}
	if len(ins) != len(x.Ins) || len(outs) != len(x.Outs) {
		return fmt.Errorf("%d inputs and %d outputs shown, there are %d and %d", len(ins), len(outs), len(x.Ins), len(x.Outs))
	}
	var in, out uint64
	for i, f := range ins {
		v := x.Ins[i]
		if f["hash"] != rev(v.Hash) || f["n"] != fmt.Sprint(v.Index) {
			return fmt.Errorf("input %d shown as spending %s:%s, it spends %s:%d", i, f["hash"], f["n"], rev(v.Hash), v.Index)
		}
		value := uint64(0)
		if known {
			value = v.Value
		}
		in += value
		if f["Value"] != fmt.Sprint(value) {
			return fmt.Errorf("input %d shown with value %s, it is %d", i, f["Value"], value)
		}
		kind, _ := ref.Kind(v.Locking)
		seg := known && (kind == ref.WPKH || kind == ref.WSH)
		if !seg && (!scriptShown(f["rawunlocking"], v.Script) || !scriptShown(f["script"], v.Script)) {
			return fmt.Errorf("input %d: unlocking script %x shown as %q, %q", i, v.Script, f["rawunlocking"], f["script"])
		}
		if known && v.Locking != nil && !scriptShown(f["rawlocking"], v.Locking) {
			return fmt.Errorf("input %d: locking script %x shown as %q", i, v.Locking, f["rawlocking"])
		}
		if known && v.Redeem != nil && (!scriptShown(f["redeemscript"], v.Redeem) || f["redeemhex"] != fmt.Sprintf("%x", v.Redeem)) {
			return fmt.Errorf("input %d: redeem script %x shown as %q %q", i, v.Redeem, f["redeemscript"], f["redeemhex"])
		}
		if seg && len(v.Witness) > 0 && f["witness"] != fmt.Sprintf("%x", v.Witness[0]) {
			return fmt.Errorf("input %d: first witness item %x shown as %q", i, v.Witness[0], f["witness"])
		}
		if seg && len(v.Witness) == 0 && strings.Trim(f["witness"], "0") != "" {
			return fmt.Errorf("input %d: no witness, shown %q", i, f["witness"])
		}
	}
	for i, f := range outs {
		o := x.Outs[i]
		out += o.Value
		if f["value"] != fmt.Sprint(o.Value) || !scriptShown(f["script"], o.Script) {
			return fmt.Errorf("output %d (%d, %x) shown as %q, %q", i, o.Value, o.Script, f["value"], f["script"])
		}
	}
	size, base := len(x.Bytes(true)), len(x.Bytes(false))
	fees := int64(in - out)
	for k, want := range map[string]int64{"basesize": int64(base), "witsize": int64(size - base), "size": int64(size), "weight": int64(3*base + size), "vsize": int64((3*base + size + 3) / 4), "fees": fees} {
		if v := strings.TrimSpace(strings.TrimSuffix(sums[k], "sat")); v != fmt.Sprint(want) {
			return fmt.Errorf("%s shown as %q, it is %d", k, sums[k], want)
		}
	}
	perb, err1 := strconv.ParseFloat(strings.TrimSuffix(sums["feesperb"], " sat/B"), 64)
	if want := float64(fees) / float64(size); err1 != nil || math.Abs(perb-want) > 0.0051+math.Abs(want)*1e-12 {
		return fmt.Errorf("fees per byte shown as %q, it is %f", sums["feesperb"], want)
	}
	saving, err2 := strconv.ParseFloat(strings.TrimSuffix(sums["saving"], " %"), 64)
	if want := float64(size-base) / float64(size) * 100; err2 != nil || math.Abs(saving-want) > 0.0051 {
		return fmt.Errorf("saving shown as %q, it is %f", sums["saving"], want)
	}
	return nil
}

// printed checks the text, twice, and that printing changed nothing.
func printed(t *rapid.T, tx *xcore.Transaction, x *ref.Tx, known bool, state string) {
	var s, s2 string
	kit.NoPanic(t, "printing ("+state+")", func() { s, s2 = tx.ToString(), tx.ToString() })
	if err := shows(s, x, known); err != nil {
		t.Fatalf("%s transaction %x: %v", state, x.Bytes(true), err)
	}
	if s != s2 {
		t.Fatalf("%s transaction %x printed twice differs", state, x.Bytes(true))
	}
	if err := same(tx, x); err != nil {
		t.Fatalf("%s transaction changed by printing: %v", state, err)
	}
}

func TestP37(t *testing.T) {
	r := kit.New(t, "P37",
		"the text is read line by line as name and value, spacing is free; derived scripts (final locking, witness script code, unlocking scripts derived from a witness) are not compared")
	r.Run(t, "any", 3000, 20, "arbitrary transactions built from parts or decoded, spent outputs unknown; non-trivial: at least one input and one output", func(t *rapid.T, c *kit.Case) {
		x := plainTx(t, rapid.Bool().Draw(t, "witness"))
		if len(x.Ins) > 0 && len(x.Outs) > 0 {
			c.Nontrivial(x.Bytes(true))
		}
		tx, _, _ := toRepo(x)
		state := "assembled"
		if rapid.Bool().Draw(t, "decode") && len(x.Ins) > 0 {
			state = "decoded"
			tx = xcore.NewTransaction()
			if err := decode(tx, x.Bytes(x.HasWitness()), x.HasWitness()); err != nil {
				t.Fatalf("%x: %v", x.Bytes(true), err)
			}
		}
		c.Class(state)
		c.Sample("%s %.200x", state, x.Bytes(true))
		for _, in := range x.Ins { // values of spent outputs are unknown here
			in.Value = 0
		}
		printed(t, tx, x, false, state)
	})
	r.Run(t, "registered", 1500, 20, "decoded transactions whose inputs are given spent outputs, fitting or not, one after another and again, and verified, printed after every step; non-trivial: a witness program was registered for an input with witness data", func(t *rapid.T, c *kit.Case) {
		registered(t, c, func(tx *xcore.Transaction, x *ref.Tx) error {
			printed(t, tx, x, true, "registered")
			return nil
		})
	})
	r.Run(t, "wide", 40, 20, "transactions of up to 297 inputs and outputs; non-trivial: always", widePrint)
	r.Run(t, "scripts", 1500, 20, "unsigned spends of script-hash coins over arbitrary redeem scripts, short, odd or unreadable ones included; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		x := &ref.Tx{Version: 1, LockTime: word(t, "lock")}
		for k := rapid.IntRange(1, 3).Draw(t, "ins"); k > 0; k-- {
			var rd []byte
			switch rapid.IntRange(0, 2).Draw(t, "redeem") {
			case 0:
				rd = kit.BytesNCheap(t, rapid.IntRange(1, 3).Draw(t, "n"), "rd")
			case 1:
				rd = prevScript(t, "rd")
				if rapid.IntRange(0, 4).Draw(t, "bigpush") == 0 {
					rd = append(rd, ref.PushData(kit.BytesNCheap(t, rapid.SampledFrom([]int{76, 255, 256, 520, 521, 1000, 32768, 65535, 65536}).Draw(t, "pn"), "pb"))...)
				}
			default:
				rd = blob(t, "rd")
			}
			if len(rd) == 0 {
				rd = []byte{0x51}
			}
			co := &coin{kind: rapid.SampledFrom([]int{ref.SH, ref.WSH}).Draw(t, "kind"), txid: kit.Uniform(t, 32, "txid"), n: word(t, "n"), value: amount(t, "v"), redeem: rd}
			if co.kind == ref.SH {
				co.lock = ref.Lock(co.kind, ref.Hash160(rd))
			} else {
				co.lock = ref.Lock(co.kind, ref.Sha(rd))
			}
			x.Ins = append(x.Ins, co.in())
		}
		for k := rapid.IntRange(0, 3).Draw(t, "outs"); k > 0; k-- {
			o := &ref.TxOut{Value: amount(t, "v"), Script: blob(t, "o")}
			if rapid.Bool().Draw(t, "push") { // a data output
				o.Script = append([]byte{0x6a}, ref.PushData(o.Script)...)
			}
			x.Outs = append(x.Outs, o)
		}
		c.Nontrivial(x.Bytes(true))
		c.Sample("%.200x", x.Bytes(true))
		printed(t, direct(t, x), x, true, "unsigned")
	})
	r.Run(t, "wallet", 400, 20, "spends of coins of every kind printed unsigned, after each signature, and reloaded with their spent outputs; non-trivial: two inputs or a witness input", func(t *rapid.T, c *kit.Case) {
		x, cs := wallet(t, 3, 3)
		seg := false
		for _, co := range cs {
			seg = seg || co.witness()
			c.Class(fmt.Sprint("kind ", co.kind))
		}
		if len(cs) > 1 || seg {
			c.Nontrivial(x.Bytes(false))
		}
		c.Sample("%x", x.Bytes(false))
		tx := direct(t, x)
		printed(t, tx, x, true, "unsigned")
		signed := map[int]string{} // what was signed last at each input
		digests := func() {
			ins, _, _, err := readText(tx.ToString())
			for j := range ins {
				if err == nil && ins[j]["sighash"] != signed[j] {
					t.Fatalf("transaction %x: signature hash of input %d shown as %q, signed was %q", x.Bytes(true), j, ins[j]["sighash"], signed[j])
				}
			}
		}
		digests()
		order := rapid.Permutation(seq(len(cs))).Draw(t, "order")[:rapid.IntRange(0, len(cs)).Draw(t, "signed")]
		if len(order) > 0 && rapid.Bool().Draw(t, "again") { // one of them once more
			order = append(order, order[rapid.IntRange(0, len(order)-1).Draw(t, "which")])
		}
		for _, i := range order {
			co := cs[i]
			idx := co.signers(t, "s")
			ht := rapid.SampledFrom([]byte{1, 2, 3, 0x81, 0x82, 0x83}).Draw(t, "type")
			co.sign(x, i, co.scalars(idx), ht)
			if err := tx.SignIndex(i, co.compressed, xcore.SigHashType(ht), co.keys(idx)...); err != nil {
				t.Fatalf("signing: %v", err)
			}
			if len(idx) > 0 {
				signed[i] = fmt.Sprintf("%x", x.SigHash(i, uint32(ht)))
			}
			digests()
			printed(t, tx, x, true, fmt.Sprintf("partly signed (%d)", i))
		}
		if x.HasWitness() || len(x.Ins) > 0 {
			tx2, err := load(x)
			if err != nil { // an unsigned witness program has nothing to read its unlocking data from
				c.Class("not loadable")
				return
			}
			printed(t, tx2, x, true, "reloaded")
			_ = tx2.Verify()
			printed(t, tx2, x, true, "verified")
		}
	})
}
