package pvm

import (
	"bytes"
	"crypto/sha256"
	"errors"
	"fmt"
	"strings"
	"testing"

	"github.com/keyfuse/tokucore/xvm"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

// ---- modelled signatures: a signature is sha256(pub || hash)[:n] followed by the hash type ----

func sighash(ht byte) []byte { h := sha256.Sum256([]byte{'h', ht}); return h[:] }

func modelSig(pub []byte, ht byte) []byte {
	h := sha256.Sum256(append(append([]byte{}, pub...), sighash(ht)...))
	return append(h[:5:5], ht)
}

func modelCheck(sig, pub []byte) bool {
	ht := sig[len(sig)-1]
	return bytes.Equal(sig, modelSig(pub, ht)) && len(pub) > 0
}

func newEngine() *xvm.Engine {
	e := xvm.NewEngine()
	e.SetSigHashFn(func(ht byte) ([]byte, error) { return sighash(ht), nil })
	e.SetSigVerifyFn(func(hash []byte, sig []byte, pub []byte) error {
		for ht := 0; ht < 256; ht++ {
			if bytes.Equal(hash, sighash(byte(ht))) && modelCheck(append(append([]byte{}, sig...), byte(ht)), pub) {
				return nil
			}
		}
		return errors.New("bad signature")
	})
	return e
}

func pubN(i int) []byte { h := sha256.Sum256([]byte{byte(i)}); return append([]byte{2}, h[:6]...) }

// ---- program generator ----

type gen struct {
	t     *rapid.T
	model *ref.VM
}

func (g *gen) item() []byte {
	t := g.t
	switch rapid.IntRange(0, 10).Draw(t, "item") {
	case 10:
		return g.sparse()
	case 0:
		return nil
	case 1, 2:
		return ref.NumEnc(int64(rapid.IntRange(-2, 20).Draw(t, "small")))
	case 3:
		return ref.NumEnc(rapid.OneOf(rapid.Int64Range(-70000, 70000), rapid.SampledFrom([]int64{127, 128, 255, 256, -127, -128, -255, -256, 32767, 32768, 8388607, 8388608, 1<<31 - 1, 1 << 31, -(1<<31 - 1), -(1 << 31)})).Draw(t, "num"))
	case 4:
		return rapid.SampledFrom([][]byte{{0}, {0x80}, {0, 0}, {0, 0x80}, {1, 0}, {0x80, 0}, {1, 0x80}, {0x80, 0x80}, {1}, {2}, {0x81}, {0, 0, 0, 0, 0x80}}).Draw(t, "odd")
	case 5:
		return pubN(rapid.IntRange(0, 3).Draw(t, "pub"))
	case 6:
		return modelSig(pubN(rapid.IntRange(0, 3).Draw(t, "pub")), rapid.SampledFrom([]byte{1, 2, 3, 0x81, 0}).Draw(t, "ht"))
	case 7:
		n := rapid.SampledFrom([]int{1, 4, 5, 20, 32, 33, 65, 71, 75, 76, 80, 255, 256, 300}).Draw(t, "len")
		return kit.Uniform(t, n, "bytes")
	case 8:
		return ref.Hash160(pubN(rapid.IntRange(0, 3).Draw(t, "pub")))
	}
	return rapid.SliceOfN(rapid.Byte(), 1, 5).Draw(t, "bytes")
}

// sparse draws mostly zero bytes: values whose truth hangs on one byte.
func (g *gen) sparse() []byte {
	b := make([]byte, rapid.OneOf(rapid.IntRange(1, 12), rapid.SampledFrom([]int{33, 64, 75, 76, 100, 255, 256, 521})).Draw(g.t, "sparselen"))
	for k := rapid.IntRange(0, 2).Draw(g.t, "set"); k > 0; k-- {
		i := rapid.IntRange(0, len(b)-1).Draw(g.t, "pos")
		if rapid.Bool().Draw(g.t, "end") {
			i = len(b) - 1
		}
		b[i] = rapid.SampledFrom([]byte{0x80, 1, 0x7f, 0x81, 0xff, 0x40}).Draw(g.t, "v")
	}
	return b
}

func (g *gen) push(b []byte) []byte {
	switch rapid.IntRange(0, 7).Draw(g.t, "pushform") {
	case 0:
		return ref.PushData(b)
	case 1: // oversized push opcode
		n := len(b)
		if n < 256 {
			return append([]byte{76, byte(n)}, b...)
		}
		return append([]byte{78, byte(n), byte(n >> 8), 0, 0}, b...)
	case 2:
		n := len(b)
		return append([]byte{77, byte(n), byte(n >> 8)}, b...)
	}
	if len(b) == 1 && b[0] == 0 {
		return ref.PushData(b)
	}
	return ref.Push(b)
}

// highPush gives a push whose announced length is too big, though its low bytes fit what follows.
func (g *gen) highPush() []byte {
	t := g.t
	n := rapid.IntRange(0, 6).Draw(t, "follow")
	s := []byte{78, byte(n), 0, 0, 0}
	s[rapid.IntRange(2, 4).Draw(t, "highbyte")] = rapid.SampledFrom([]byte{1, 2, 0x7f, 0x80, 0xff}).Draw(t, "high")
	if rapid.IntRange(0, 3).Draw(t, "16") == 0 {
		s = []byte{77, byte(n), rapid.SampledFrom([]byte{1, 0x80, 0xff}).Draw(t, "high16")}
	}
	return append(s, kit.BytesNCheap(t, n, "behind")...)
}

var plainOps = []byte{0x75, 0x76, 0x6e, 0x6f, 0x7c, 0x82, 0x87, 0x88, 0x93, 0xa9, 0xac, 0xad, 0xae, 0xaf, 0x6a}

func (g *gen) multisig() []byte {
	t := g.t
	n := rapid.IntRange(0, 5).Draw(t, "n")
	if rapid.IntRange(0, 5).Draw(t, "wide") == 0 {
		n = rapid.IntRange(6, 21).Draw(t, "n2")
	}
	m := rapid.IntRange(0, n+1).Draw(t, "m")
	var out []byte
	out = append(out, g.push(g.item())...)
	keys := rapid.Permutation([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}).Draw(t, "keys")[:n]
	if n > 1 && rapid.IntRange(0, 5).Draw(t, "dupkey") == 0 {
		keys[rapid.IntRange(0, n-1).Draw(t, "dk")] = keys[rapid.IntRange(0, n-1).Draw(t, "dk2")]
	}
	idx := make([]int, 0, m)
	if rapid.IntRange(0, 3).Draw(t, "ordered") > 0 { // ascending subset
		p := 0
		for p < n && len(idx) < m {
			if n-p <= m-len(idx) || rapid.Bool().Draw(t, "take") {
				idx = append(idx, keys[p])
			}
			p++
		}
	}
	for len(idx) < m {
		idx = append(idx, rapid.IntRange(0, 21).Draw(t, "signer"))
	}
	if m > 1 && rapid.IntRange(0, 4).Draw(t, "dupsig") == 0 { // one key signs twice in a row
		i := rapid.IntRange(1, m-1).Draw(t, "ds")
		idx[i] = idx[i-1]
	}
	hts := []byte{1}
	if rapid.Bool().Draw(t, "mixedtypes") {
		hts = []byte{1, 2, 3, 0x81, 0x83, 0}
	}
	for _, i := range idx {
		s := modelSig(pubN(i), rapid.SampledFrom(hts).Draw(t, "ht"))
		switch rapid.IntRange(0, 12).Draw(t, "sigkind") {
		case 0:
			s = nil
		case 1:
			s = g.item()
		}
		out = append(out, g.push(s)...)
	}
	cm, cn := int64(m), int64(n)
	if rapid.IntRange(0, 8).Draw(t, "badcount") == 0 {
		cm += int64(rapid.IntRange(-3, 3).Draw(t, "dm"))
		cn += int64(rapid.IntRange(-3, 3).Draw(t, "dn"))
	}
	out = append(out, ref.Push(ref.NumEnc(cm))...)
	for _, i := range keys {
		out = append(out, g.push(pubN(i))...)
	}
	out = append(out, ref.Push(ref.NumEnc(cn))...)
	return append(out, rapid.SampledFrom([]byte{0xae, 0xae, 0xaf}).Draw(t, "msop"))
}

// chunk draws one step; depth limits conditional nesting.
func (g *gen) chunk(depth int) []byte {
	t := g.t
	switch k := rapid.IntRange(0, 19).Draw(t, "chunk"); {
	case k < 7:
		return g.push(g.item())
	case k < 14:
		return []byte{rapid.SampledFrom(plainOps).Draw(t, "op")}
	case k < 15:
		p := pubN(rapid.IntRange(0, 3).Draw(t, "pub"))
		s := modelSig(p, rapid.SampledFrom([]byte{1, 3, 0x83}).Draw(t, "ht"))
		if rapid.IntRange(0, 2).Draw(t, "wrong") == 0 {
			s = modelSig(pubN(rapid.IntRange(0, 3).Draw(t, "pub2")), 1)
		}
		return append(append(g.push(s), g.push(p)...), rapid.SampledFrom([]byte{0xac, 0xad}).Draw(t, "cs"))
	case k < 16:
		return g.multisig()
	case k < 18 && depth > 0:
		var out []byte
		out = append(out, rapid.SampledFrom([]byte{0, 0x51, 0x51, 0, 0x52}).Draw(t, "cond"))
		out = append(out, rapid.SampledFrom([]byte{0x63, 0x64}).Draw(t, "if"))
		out = append(out, g.seq(depth-1, 3)...)
		for i := rapid.IntRange(0, 2).Draw(t, "elses"); i > 0; i-- {
			out = append(out, 0x67)
			out = append(out, g.seq(depth-1, 3)...)
		}
		if rapid.IntRange(0, 20).Draw(t, "noendif") > 0 {
			out = append(out, 0x68)
		}
		return out
	case k < 19:
		// equality against a literal
		x := g.item()
		return append(append(g.push(x), g.push(x)...), rapid.SampledFrom([]byte{0x87, 0x88}).Draw(t, "eq"))
	}
	return []byte{rapid.Byte().Draw(t, "rawop")}
}

func (g *gen) seq(depth, max int) []byte {
	var out []byte
	for i := rapid.IntRange(0, max).Draw(g.t, "len"); i > 0; i-- {
		out = append(out, g.chunk(depth)...)
	}
	return out
}

// guided appends chunks, mostly keeping only those after which the model has not failed.
func (g *gen) guided(pre [][]byte, max int) []byte {
	var out []byte
	for i := rapid.IntRange(0, max).Draw(g.t, "steps"); i > 0; i-- {
		ch := g.chunk(2)
		cand := append(append([]byte{}, out...), ch...)
		m := &ref.VM{Check: modelCheck, Stack: append([][]byte{}, pre...)}
		if m.Run(cand) == nil || rapid.IntRange(0, 24).Draw(g.t, "keepbad") == 0 {
			out = cand
		}
	}
	return out
}

// nearScriptHash gives locking scripts that look like a script hash, but whose last pushed item must not be run.
func (g *gen) nearScriptHash(unlocking, redeem []byte) ([]byte, []byte) {
	t := g.t
	if rapid.Bool().Draw(t, "failing") { // a script that would fail, or leave false
		redeem = rapid.SampledFrom([][]byte{{0}, {0x88}, {0xba}, {0x63}, {0x51, 0x7c, 0x75, 0, 0x88}, {0xac}}).Draw(t, "redeem")
	}
	h := ref.Hash160(redeem)
	eq := append(append([]byte{0xa9, 20}, h...), 0x87)
	u := append(append([]byte{}, unlocking...), ref.PushData(redeem)...)
	switch rapid.IntRange(0, 9).Draw(t, "near") {
	case 0: // nothing, or what was there before, is left
		eq[22] = 0x88
		if rapid.Bool().Draw(t, "alone") {
			u = ref.PushData(redeem)
		}
	case 1:
		eq = append(append([]byte{0xa9, 76, 20}, h...), 0x87)
	case 2:
		eq = append(append([]byte{0xa9, 77, 20, 0}, h...), 0x87)
	case 3: // an opcode behind it
		eq = append(eq, rapid.SampledFrom([]byte{0x51, 0x76, 0x6a, 0x82}).Draw(t, "tail"))
	case 4: // an opcode before it
		eq = append([]byte{rapid.SampledFrom([]byte{0x76, 0x6a}).Draw(t, "head")}, eq...)
	case 5: // the hash on the other side
		eq = append(append(append([]byte{20}, h...), 0x7c, 0xa9), 0x87)
	case 6: // compared twice
		eq = append(append([]byte{0x76}, append(append([]byte{0xa9, 20}, h...), 0x88)...), append(append([]byte{0xa9, 20}, h...), 0x87)...)
	case 7: // starts and ends the same, more in between
		eq = append(append(append([]byte{0xa9, 20}, h...), 0x88, 0x51, 0x51), 0x87)
	case 8: // hashed twice
		hh := ref.Hash160(h)
		eq = append(append([]byte{0xa9, 0xa9, 20}, hh...), 0x87)
	case 9: // the comparison inverted by a conditional
		eq = append(append(append([]byte{0xa9, 20}, h...), 0x87), 0x64, 0, 0x67, 0x51, 0x68)
	}
	return u, eq
}

func (g *gen) pair() (unlocking, locking []byte, kind string) {
	t := g.t
	if rapid.IntRange(0, 3).Draw(t, "style") == 0 {
		return g.seq(2, 4), g.seq(2, 5), "raw"
	}
	unlocking = g.guided(nil, 6)
	m := &ref.VM{Check: modelCheck}
	_ = m.Run(unlocking)
	locking = g.guided(m.Stack, 8)
	switch rapid.IntRange(0, 6).Draw(t, "wrap") {
	case 6:
		u, l := g.nearScriptHash(unlocking, locking)
		return u, l, "near-p2sh"
	case 0, 1: // script hash
		redeem := locking
		unlocking = append(append([]byte{}, unlocking...), g.push(redeem)...)
		h := ref.Hash160(redeem)
		if rapid.IntRange(0, 9).Draw(t, "wronghash") == 0 {
			h[0] ^= 1
		}
		return unlocking, append(append([]byte{0xa9, 20}, h...), 0x87), "p2sh"
	case 2: // key hash
		p := pubN(rapid.IntRange(0, 2).Draw(t, "pub"))
		q := pubN(rapid.IntRange(0, 2).Draw(t, "pub2"))
		s := modelSig(q, 1)
		unlocking = append(append(g.seq(1, 1), g.push(s)...), g.push(q)...)
		return unlocking, append(append([]byte{0x76, 0xa9, 20}, ref.Hash160(p)...), 0x88, 0xac), "p2pkh"
	}
	return unlocking, locking, "guided"
}

func TestP23(t *testing.T) {
	r := kit.New(t, "P23",
		"signatures are modelled: validity is a pure function of signature, hash type and key",
		"deviations from Bitcoin taken as this engine's contract: empty final stack succeeds, numbers and OP_IF arguments must be minimal, unknown opcodes fail even when skipped",
		"OP_RETURN is modelled as the no-op it is (known finding)")
	r.Run(t, "verify", 36000, 20, "pairs of programs: raw chunk sequences, sequences steered by the model to stay valid, key-hash and script-hash wrapped; non-trivial: at least 4 opcodes executed, or a signature opcode",
		func(t *rapid.T, c *kit.Case) {
			g := &gen{t: t}
			unl, lock, kind := g.pair()
			m := &ref.VM{Check: modelCheck}
			want := m.Verify(unl, lock)
			if m.Ops >= 4 || m.Sigs > 0 {
				c.Nontrivial(unl, lock)
			}
			c.Class(fmt.Sprintf("%s-%v", kind, want))
			if m.Sigs > 0 {
				c.Class(fmt.Sprintf("sig-%v", want))
			}
			c.Sample("unlocking %x locking %x accept=%v", unl, lock, want)
			e := newEngine()
			uin, uok := kit.Spare(unl)
			lin, lok := kit.Spare(lock)
			err := e.Verify(uin, lin)
			if (err == nil) != want {
				t.Fatalf("unlocking %x (%s) locking %x (%s): engine says %v, reference accept=%v", unl, xvm.DisasmString(unl), lock, xvm.DisasmString(lock), err, want)
			}
			if !uok() || !lok() {
				t.Fatalf("verification wrote into the scripts' storage")
			}
			// the verdict does not depend on tracing or on earlier use of the engine
			for i := 0; i < 2; i++ {
				if i == 0 {
					e.EnableDebug()
				} else {
					e.DisableDebug()
				}
				if err2 := e.Verify(unl, lock); (err2 == nil) != want {
					t.Fatalf("unlocking %x locking %x: verdict of a reused engine (debug %v) %v, first %v", unl, lock, i == 0, err2, err)
				}
			}
		})
	r.Run(t, "long", 80, 20, "programs of up to 2600 instructions, stacks up to 1100 items, conditionals nested up to 300 deep; non-trivial: more than 250 steps", longVerify)
	r.Run(t, "tall", 16, 8, "stacks of 100 to 2049 items, built and taken down to the last, which is compared; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		d := rapid.OneOf(rapid.IntRange(100, 800), rapid.IntRange(1000, 1600), rapid.SampledFrom([]int{127, 128, 255, 256, 257, 511, 512, 999, 1000, 1001, 1023, 1024, 1025, 1100, 1600, 2049})).Draw(t, "depth")
		same := rapid.Bool().Draw(t, "same")
		want := byte(60)
		if !same {
			want++
		}
		unl := []byte{1, 60}
		var down []byte
		n := 1
		for n < d {
			switch {
			case n >= 3 && d-n >= 3:
				unl = append(unl, 0x6f)
				n += 3
				down = append(down, 0x75, 0x75, 0x75)
			default:
				unl = append(unl, 2, byte(n), byte(n>>8)|1)
				n++
				down = append(down, 0x75)
			}
		}
		lock := append(down, 1, want, 0x87)
		c.Nontrivial(d, same)
		c.Sample("%d items, the last is the expected one: %v", d, same)
		m := &ref.VM{Check: modelCheck}
		if m.Verify(unl, lock) != same {
			panic("tall program")
		}
		e := newEngine()
		if err := e.Verify(unl, lock); (err == nil) != same {
			t.Fatalf("%d items put on the stack and taken off, the last compared with its value (%v): %v", d, same, err)
		}
	})
	r.Run(t, "bulky", 60, 15, "programs of up to 300000 bytes: large items that are hashed, compared or dropped, or very many short instructions, with the deciding instruction at the end; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		var unl, lock []byte
		same := rapid.Bool().Draw(t, "same")
		item := func(n int, seed uint64) []byte { return kit.Expand(seed, n) }
		how := rapid.IntRange(0, 2).Draw(t, "how")
		switch how {
		case 0: // large items, dropped
			for k := rapid.IntRange(1, 5).Draw(t, "items"); k > 0; k-- {
				lock = append(append(lock, ref.PushData(item(rapid.SampledFrom([]int{521, 9000, 40000, 65535, 65536, 70000}).Draw(t, "n"), uint64(k)))...), 0x75)
			}
		case 1: // many instructions
			lock = bytes.Repeat([]byte{0x51, 0x75}, rapid.SampledFrom([]int{100, 2600, 5100, 10100, 33000, 51000}).Draw(t, "n"))
		case 2: // a large item, compared with itself or with one that differs in its last byte
			x := item(rapid.SampledFrom([]int{521, 9000, 40000, 65535, 65536, 70000}).Draw(t, "n"), 7)
			unl = ref.PushData(x)
			y := append([]byte{}, x...)
			if !same {
				y[len(y)-1-rapid.SampledFrom([]int{0, 0, 1, 100}).Draw(t, "back")] ^= 1
			}
			h := rapid.SampledFrom([]byte{0, 0xa9}).Draw(t, "hash")
			switch h {
			case 0:
				lock = append(ref.PushData(y), 0x88)
			case 0xa9:
				lock = append(append([]byte{h}, ref.PushData(ref.Hash160(y))...), 0x88)
			}
			lock = append(lock, 0x51)
		}
		if how < 2 {
			if same {
				lock = append(lock, 0x51)
			} else {
				lock = append(lock, 0x00)
			}
		}
		c.Nontrivial(how, same, len(lock))
		c.Class(fmt.Sprint("kind ", how))
		c.Sample("%d and %d bytes, meant to succeed: %v", len(unl), len(lock), same)
		m := &ref.VM{Check: modelCheck}
		if m.Verify(unl, lock) != same {
			panic("bulky program")
		}
		e := newEngine()
		if err := e.Verify(unl, lock); (err == nil) != same {
			t.Fatalf("unlocking of %d bytes, locking of %d bytes (%.40x ... ends %x), should succeed: %v, engine: %v", len(unl), len(lock), lock, lock[len(lock)-8:], same, err)
		}
	})
	r.Run(t, "reuse", 7500, 20, "one engine verifies several pairs one after the other, failing and unfinished ones included, executes programs and toggles tracing in between; non-trivial: at least three pairs",
		func(t *rapid.T, c *kit.Case) {
			g := &gen{t: t}
			e := newEngine()
			var log []string
			n := rapid.IntRange(2, 6).Draw(t, "pairs")
			for i := 0; i < n; i++ {
				var unl, lock []byte
				switch rapid.IntRange(0, 3).Draw(t, "how") {
				case 0: // left open, or failing, at some depth
					unl = g.seq(2, 2)
					for k := rapid.IntRange(1, 4).Draw(t, "open"); k > 0; k-- {
						lock = append(lock, rapid.SampledFrom([]byte{0, 0x51}).Draw(t, "c"), rapid.SampledFrom([]byte{0x63, 0x64}).Draw(t, "if"))
					}
					if rapid.Bool().Draw(t, "swap") {
						unl, lock = lock, unl
					}
				case 1:
					unl, lock = g.push(g.item()), g.push(g.item())
				default:
					unl, lock, _ = g.pair()
				}
				switch rapid.IntRange(0, 5).Draw(t, "between") {
				case 0:
					e.EnableDebug()
				case 1:
					e.DisableDebug()
				case 2:
					p := g.seq(1, 4)
					_ = e.Execute(p)
					log = append(log, fmt.Sprintf("execute %x", p))
				}
				m := &ref.VM{Check: modelCheck}
				want := m.Verify(unl, lock)
				c.Class(fmt.Sprint(want))
				log = append(log, fmt.Sprintf("verify %x %x", unl, lock))
				if err := e.Verify(unl, lock); (err == nil) != want {
					t.Fatalf("%s: engine says %v, reference accept=%v", strings.Join(log, "; "), err, want)
				}
			}
			if n > 2 {
				c.Nontrivial(strings.Join(log, ";"))
			}
			c.Sample("%s", strings.Join(log, "; "))
		})
	r.Run(t, "truth", 9000, 20, "values whose truth hangs on few bytes, as last element, after a script hash, and before the verifying opcodes; non-trivial: more than one byte",
		func(t *rapid.T, c *kit.Case) {
			g := &gen{t: t}
			v := g.sparse()
			if len(v) > 1 {
				c.Nontrivial(v)
			}
			want := ref.Truthy(v)
			c.Class(fmt.Sprint(want))
			c.Sample("%x", v)
			red := ref.PushData(v)
			sh := append(append([]byte{0xa9, 20}, ref.Hash160(red)...), 0x87)
			if kit.Uniform(t, 1, "followed")[0] < 40 { // more than a script hash: the script is not run
				more := append(append([]byte{}, sh...), bytes.Repeat([]byte{0x76, 0x75}, (kit.Surplus(t, "surplus")+1)/2)...)
				if err := newEngine().Verify(ref.PushData(red), more); err != nil {
					t.Fatalf("unlocking %x locking %x: %v", ref.PushData(red), more, err)
				}
				c.Class("hash-and-more")
			}
			for _, p := range [][2][]byte{{red, nil}, {nil, red}, {[]byte{0x51}, red}, {[]byte{0}, red}, {ref.PushData(red), sh}} {
				m := &ref.VM{Check: modelCheck}
				if m.Verify(p[0], p[1]) != want {
					panic("reference")
				}
				if err := newEngine().Verify(p[0], p[1]); (err == nil) != want {
					t.Fatalf("unlocking %x locking %x: %v, accept=%v", p[0], p[1], err, want)
				}
			}
		})
	r.Run(t, "deep", 4500, 20, "conditionals nested up to 60 deep, taken and skipped, with effects at every level; non-trivial: at least 8 levels",
		func(t *rapid.T, c *kit.Case) {
			n := rapid.IntRange(1, 60).Draw(t, "n")
			taken := rapid.SampledFrom([]int{1, 4, 60}).Draw(t, "skipone")
			var open, tail []byte
			for i := 0; i < n; i++ {
				cond := rapid.IntRange(0, taken).Draw(t, "c") > 0
				op := rapid.SampledFrom([]byte{0x63, 0x64}).Draw(t, "if")
				a := byte(0)
				if cond == (op == 0x63) {
					a = 0x51
				}
				open = append(open, a, op)
				if rapid.IntRange(0, 4).Draw(t, "eff") == 0 {
					open = append(open, 0x51, 0x93)
				}
				if rapid.IntRange(0, 3).Draw(t, "else") == 0 {
					tail = append(tail, 0x67)
					if rapid.Bool().Draw(t, "eff") {
						tail = append(tail, 0x52, 0x93)
					}
				}
				tail = append(tail, 0x68)
				if rapid.IntRange(0, 9).Draw(t, "extra") == 0 {
					tail = append(tail, rapid.SampledFrom([]byte{0x67, 0x68, 0x76}).Draw(t, "x"))
				}
			}
			s := append(append([]byte{0x51}, open...), append([]byte{0x51, 0x93}, tail...)...)
			m := &ref.VM{Check: modelCheck}
			ran := m.Run(s) == nil
			want := ran && ref.Truthy(m.Stack[len(m.Stack)-1])
			if n >= 8 {
				c.Nontrivial(s)
			}
			c.Class(fmt.Sprint(ran))
			c.Sample("%x accept=%v", s, want)
			if err := newEngine().Execute(s); (err == nil) != want {
				t.Fatalf("%x (%s): %v, reference accept=%v", s, xvm.DisasmString(s), err, want)
			}
			if ran { // the value computed by the branches taken
				probe := append(append(append([]byte{}, s...), ref.PushData(m.Stack[len(m.Stack)-1])...), 0x87)
				if err := newEngine().Execute(probe); err != nil {
					t.Fatalf("%x: value differs from the reference's %x: %v", s, m.Stack[len(m.Stack)-1], err)
				}
			}
		})
	r.Run(t, "stack", 24000, 20, "programs that the model runs without error, followed by a probe that compares the whole resulting stack item by item; non-trivial: at least 3 opcodes and a non-empty stack",
		func(t *rapid.T, c *kit.Case) {
			g := &gen{t: t}
			unl := g.guided(nil, 6)
			m := &ref.VM{Check: modelCheck}
			if m.Run(unl) != nil {
				unl = nil
				m = &ref.VM{Check: modelCheck}
			}
			lock := g.guided(m.Stack, 8)
			if m.Run(lock) != nil {
				c.Class("erroring")
				return
			}
			if m.Ops >= 3 && len(m.Stack) > 0 {
				c.Nontrivial(unl, lock)
			}
			c.Class(fmt.Sprintf("depth-%d", min(len(m.Stack), 9)))
			c.Sample("unlocking %x locking %x stack %x", unl, lock, m.Stack)
			probe := append([]byte{}, lock...)
			for i := len(m.Stack) - 1; i >= 0; i-- {
				probe = append(append(probe, ref.PushData(m.Stack[i])...), 0x88)
			}
			probe = append(probe, 0x51)
			if err := newEngine().Verify(unl, probe); err != nil {
				t.Fatalf("unlocking %x locking %x (%s): stack differs from reference %x: %v", unl, lock, xvm.DisasmString(lock), m.Stack, err)
			}
			if err := newEngine().Verify(unl, append(append([]byte{}, probe...), 0x75, 0x75)); err == nil {
				t.Fatalf("unlocking %x locking %x: stack deeper than reference %x", unl, lock, m.Stack)
			}
			// Execute agrees with Verify of the joined straight-line program
			prog := append(append([]byte{}, unl...), lock...)
			m2 := &ref.VM{Check: modelCheck}
			ok := m2.Run(prog) == nil && (len(m2.Stack) == 0 || ref.Truthy(m2.Stack[len(m2.Stack)-1]))
			if err := newEngine().Execute(prog); (err == nil) != ok {
				t.Fatalf("execute %x: %v, reference accept=%v", prog, err, ok)
			}
		})
	r.Run(t, "conditionals", 12000, 20, "nested IF/NOTIF/ELSE/ENDIF skeletons with arbitrary arguments, balanced or not; non-trivial: two or more conditionals",
		func(t *rapid.T, c *kit.Case) {
			n := rapid.IntRange(1, 14).Draw(t, "n")
			var s []byte
			conds := 0
			for i := 0; i < n; i++ {
				op := rapid.SampledFrom([]byte{0, 0x51, 0x63, 0x63, 0x64, 0x67, 0x68, 0x68, 0x52, 0x93, 0x75, 0xad, 0x50}).Draw(t, "op")
				if op == 0x63 || op == 0x64 {
					conds++
					if rapid.IntRange(0, 4).Draw(t, "arg") > 0 {
						s = append(s, rapid.SampledFrom([]byte{0, 0x51}).Draw(t, "c"))
					}
					if rapid.IntRange(0, 9).Draw(t, "odd") == 0 { // neither true nor false, as arguments go
						s = append(s, ref.PushData(rapid.SampledFrom([][]byte{{0}, {2}, {1, 0}, {0, 0}, {0x80}, {1, 1}, {0x81}, {0, 1}, {1, 0, 0, 0}, {0, 0, 0, 0, 0}, {255}}).Draw(t, "oddarg"))...)
						c.Class("odd-argument")
					}
				}
				s = append(s, op)
			}
			cut := rapid.IntRange(0, len(s)).Draw(t, "cut")
			m := &ref.VM{Check: modelCheck}
			want := m.Verify(s[:cut], s[cut:])
			if conds > 1 {
				c.Nontrivial(s, cut)
			}
			c.Class(fmt.Sprint(want))
			if err := newEngine().Verify(s[:cut:cut], s[cut:]); (err == nil) != want {
				t.Fatalf("unlocking %s locking %s: %v, reference accept=%v", xvm.DisasmString(s[:cut]), xvm.DisasmString(s[cut:]), err, want)
			}
		})
	r.Run(t, "argument", 9000, 20, "one conditional with an argument of 0..6 bytes in a program that runs otherwise; non-trivial: more than one byte",
		func(t *rapid.T, c *kit.Case) {
			arg := rapid.OneOf(rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 1, 2, 0x80, 0x81, 0xff}), 0, 6), rapid.Custom(func(t *rapid.T) []byte { return (&gen{t: t}).sparse() })).Draw(t, "arg")
			ok := len(arg) == 0 || len(arg) == 1 && arg[0] == 1
			if len(arg) > 1 {
				c.Nontrivial(arg)
			}
			c.Class(fmt.Sprint(ok))
			op := rapid.SampledFrom([]byte{0x63, 0x64}).Draw(t, "if")
			s := append(ref.PushData(arg), op, 0x51)
			if rapid.Bool().Draw(t, "else") {
				s = append(s, 0x67, 0x52)
			}
			s = append(s, 0x68)
			if rapid.IntRange(0, 3).Draw(t, "more") > 0 {
				s = append(s, 0x51)
			}
			if rapid.IntRange(0, 3).Draw(t, "skipped") == 0 { // not looked at, so not judged
				s = append(append([]byte{0, 0x63}, s[len(ref.PushData(arg)):]...), 0x68, 0x51)
				ok = true
			}
			cut := rapid.SampledFrom([]int{0, len(ref.PushData(arg))}).Draw(t, "cut")
			if s[0] == 0 && s[1] == 0x63 {
				cut = 0
			}
			m := &ref.VM{Check: modelCheck}
			if want := m.Verify(s[:cut:cut], s[cut:]); want != ok {
				panic("reference")
			}
			if err := newEngine().Verify(s[:cut:cut], s[cut:]); (err == nil) != ok {
				t.Fatalf("unlocking %x locking %x (%s): %v, argument %x acceptable=%v", s[:cut], s[cut:], xvm.DisasmString(s[cut:]), err, arg, ok)
			}
		})
	r.Run(t, "arith", 12000, 20, "sums, key counts and signature counts of operands up to 6 bytes, among them results of earlier sums; non-trivial: an operand of at least 4 bytes",
		func(t *rapid.T, c *kit.Case) {
			num := func() []byte {
				v := rapid.OneOf(rapid.SampledFrom([]int64{0, 1, -1, 127, 128, 255, 1<<23 - 1, 1 << 23, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<39 - 1, 1 << 39}), rapid.Int64Range(-1<<33, 1<<33), rapid.Int64Range(-20, 20)).Draw(t, "v")
				if rapid.Bool().Draw(t, "neg") {
					v = -v
				}
				b := ref.NumEnc(v)
				if rapid.IntRange(0, 5).Draw(t, "pad") == 0 { // not minimal
					if len(b) > 0 {
						sign := b[len(b)-1] & 0x80
						b[len(b)-1] &= 0x7f
						b = append(b, sign)
					} else {
						b = []byte{rapid.SampledFrom([]byte{0, 0x80}).Draw(t, "zero")}
					}
				}
				return b
			}
			var s []byte
			long := false
			item := func() {
				b := num()
				if kit.Uniform(t, 1, "toolong")[0] < 8 {
					b = kit.Overlong(t, b, "over")
					c.Class("much-too-long")
				}
				long = long || len(b) > 3
				s = append(s, ref.PushData(b)...)
			}
			what := rapid.IntRange(0, 2).Draw(t, "what")
			switch what {
			case 0:
				item()
				for k := rapid.IntRange(1, 3).Draw(t, "adds"); k > 0; k-- {
					item()
					if rapid.Bool().Draw(t, "size") {
						s = append(s, 0x82, 0x75)
					}
					s = append(s, 0x93)
				}
			case 1: // number of keys
				s = append(s, 0, 0)
				item()
				s = append(s, 0xae)
			case 2: // number of signatures
				s = append(s, 0)
				item()
				s = append(s, 2, 9, 9, 0x51, 0xae)
			}
			if long {
				c.Nontrivial(s)
			}
			m := &ref.VM{Check: modelCheck}
			ran := m.Run(s) == nil
			c.Class(fmt.Sprintf("%d-%v", what, ran))
			c.Sample("%.80x runs=%v", s, ran)
			probe := append(append([]byte{}, s...), 0x6a)
			if ran {
				for i := len(m.Stack) - 1; i >= 0; i-- {
					probe = append(append(probe, ref.PushData(m.Stack[i])...), 0x88)
				}
			}
			probe = append(probe, 0x51)
			if err := newEngine().Execute(probe); (err == nil) != ran {
				t.Fatalf("%x (%s): %v, reference runs=%v to %x", s, xvm.DisasmString(s), err, ran, m.Stack)
			}
		})
	r.Run(t, "nodigest", 4500, 20, "signatures of hash types for which no digest can be computed: they prove nothing; non-trivial: all",
		func(t *rapid.T, c *kit.Case) {
			bad := rapid.SampledFrom([]byte{1, 3, 0x83, 0}).Draw(t, "bad")
			e := newEngine()
			calls := 0
			e.SetSigHashFn(func(ht byte) ([]byte, error) {
				if ht == bad {
					calls++
					if rapid.Bool().Draw(t, "some") {
						return sighash(ht), errors.New("no digest")
					}
					return nil, errors.New("no digest")
				}
				return sighash(ht), nil
			})
			pub := pubN(1)
			sig := modelSig(pub, bad)
			var s []byte
			form := rapid.IntRange(0, 3).Draw(t, "form")
			switch form {
			case 0, 1:
				s = append(append(ref.PushData(sig), ref.PushData(pub)...), 0xac)
				if form == 1 {
					s[len(s)-1] = 0xad
				}
			default: // needed, whatever keys there are
				n := rapid.IntRange(1, 4).Draw(t, "n")
				m := rapid.IntRange(1, n).Draw(t, "m")
				at := rapid.IntRange(0, m-1).Draw(t, "at")
				s = []byte{0}
				for i := 0; i < m; i++ {
					if i == at {
						s = append(s, ref.PushData(modelSig(pubN(i), bad))...)
					} else {
						s = append(s, ref.PushData(modelSig(pubN(i), 2))...)
					}
				}
				s = append(s, byte(0x50+m))
				for i := 0; i < n; i++ {
					s = append(s, ref.PushData(pubN(i))...)
				}
				s = append(s, byte(0x50+n), 0xae)
				if form == 3 {
					s[len(s)-1] = 0xaf
				}
			}
			if form == 1 || form == 3 {
				s = append(s, 0x51)
			}
			c.Nontrivial(s, bad)
			c.Class(fmt.Sprint(form))
			if err := e.Verify(nil, s); err == nil {
				t.Fatalf("%x (%s) accepted though hash type %02x has no digest (asked %d times)", s, xvm.DisasmString(s), bad, calls)
			}
		})
	r.Run(t, "stackapi", 9000, 10, "1..20 operations on a Stack against a plain list: pushes, pops, peeks, duplications, drops and swaps of up to 4 items, copies; non-trivial: a multi-item operation",
		func(t *rapid.T, c *kit.Case) {
			st := xvm.NewStack()
			var model [][]byte
			type snap struct {
				s *xvm.Stack
				m [][]byte
			}
			var snaps []snap
			var log []string
			multi := false
			same := func(s *xvm.Stack, m [][]byte) {
				if s.Depth() != len(m) {
					t.Fatalf("%s: depth %d, want %d", strings.Join(log, ","), s.Depth(), len(m))
				}
				for i := range m {
					x, err := s.PeekByteArray(i)
					if err != nil || !bytes.Equal(x, m[len(m)-1-i]) {
						t.Fatalf("%s: item %d from the top %x %v, want %x", strings.Join(log, ","), i, x, err, m[len(m)-1-i])
					}
				}
				if !eqWords(s.String(), stackWords(m)) {
					t.Fatalf("%s: printed %q, holds %x", strings.Join(log, ","), s.String(), m)
				}
			}
			for k := rapid.IntRange(0, 8).Draw(t, "start"); k > 0; k-- {
				x := []byte{byte(k), 7}
				st.PushByteArray(x)
				model = append(model, x)
			}
			log = append(log, fmt.Sprintf("%d pushed", len(model)))
			for k := rapid.IntRange(1, 20).Draw(t, "ops"); k > 0; k-- {
				op := rapid.SampledFrom([]string{"push", "push", "push", "int", "bool", "pop", "popint", "popbool", "peek", "dup", "drop", "swap", "copy", "clean"}).Draw(t, "op")
				n := rapid.IntRange(-1, 4).Draw(t, "n")
				if rapid.IntRange(0, 4).Draw(t, "fits") > 0 {
					n = rapid.IntRange(min(1, len(model)), max(1, min(4, len(model)/2))).Draw(t, "n2")
				}
				log = append(log, fmt.Sprintf("%s %d", op, n))
				var err error
				ok := true
				d := len(model)
				switch op {
				case "push":
					x := rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 0x80})), 0, 5).Draw(t, "x")
					st.PushByteArray(x)
					model = append(model, x)
				case "int":
					v := genNum(t)
					st.PushInt(xvm.ScriptNum(v))
					model = append(model, ref.NumEnc(v))
				case "bool":
					v := rapid.Bool().Draw(t, "v")
					st.PushBool(v)
					model = append(model, map[bool][]byte{true: {1}, false: nil}[v])
				case "pop":
					var x []byte
					x, err = st.PopByteArray()
					if ok = d > 0; ok {
						if !bytes.Equal(x, model[d-1]) {
							t.Fatalf("%s: popped %x want %x", strings.Join(log, ","), x, model[d-1])
						}
						model = model[:d-1]
					}
				case "popint":
					var v xvm.ScriptNum
					v, err = st.PopInt()
					if ok = d > 0; ok {
						var w int64
						w, ok = ref.NumDec(model[d-1], 4)
						if ok && int64(v) != w {
							t.Fatalf("%s: popped %d want %d", strings.Join(log, ","), v, w)
						}
						model = model[:d-1]
					}
				case "popbool":
					var v bool
					v, err = st.PopBool()
					if ok = d > 0; ok {
						if w := ref.Truthy(model[d-1]); err == nil && v != w {
							t.Fatalf("%s: popped %v want %v of %x", strings.Join(log, ","), v, w, model[d-1])
						}
						model = model[:d-1]
					}
				case "peek":
					var x []byte
					x, err = st.PeekByteArray(n)
					if ok = n >= 0 && n < d; ok && !bytes.Equal(x, model[d-1-n]) {
						t.Fatalf("%s: peeked %x want %x", strings.Join(log, ","), x, model[d-1-n])
					}
				case "dup":
					err = st.DupN(n)
					multi = multi || n > 1
					if ok = n >= 1 && n <= d; ok {
						model = append(model[:d:d], model[d-n:]...)
					}
				case "drop":
					err = st.DropN(int32(n))
					multi = multi || n > 1
					if ok = n >= 1 && n <= d; ok {
						model = model[:d-n]
					}
				case "swap":
					err = st.SwapN(int32(n))
					multi = multi || n > 1
					if ok = n >= 1 && 2*n <= d; ok {
						w := append([][]byte{}, model[:d-2*n]...)
						w = append(append(w, model[d-n:]...), model[d-2*n:d-n]...)
						model = w
					}
				case "copy":
					snaps = append(snaps, snap{st.Copy(), append([][]byte{}, model...)})
					if rapid.Bool().Draw(t, "go-on-with-the-copy") { // the two are independent from here on
						last := &snaps[len(snaps)-1]
						st, last.s = last.s, st
					}
				case "clean":
					if rapid.IntRange(0, 3).Draw(t, "really") == 0 {
						st.Clean()
						model = nil
					}
				}
				if (err == nil) != ok {
					t.Fatalf("%s: %v, possible=%v", strings.Join(log, ","), err, ok)
				}
				if !ok { // the engine gives up here
					c.Class("refused-" + op)
					break
				}
				same(st, model)
				for _, sn := range snaps {
					same(sn.s, sn.m)
				}
			}
			if multi {
				c.Nontrivial(strings.Join(log, ","))
			}
			c.Sample("%s", strings.Join(log, ", "))
		})
	r.Run(t, "multisig", 12000, 20, "m-of-n signature matching with modelled keys: subsets, orders, repeats, empties, wrong counts; non-trivial: all", func(t *rapid.T, c *kit.Case) {
		g := &gen{t: t}
		s := g.multisig()
		m := &ref.VM{Check: modelCheck}
		want := m.Verify(nil, s)
		c.Nontrivial(s)
		c.Class(fmt.Sprint(want))
		if err := newEngine().Verify(nil, s); (err == nil) != want {
			t.Fatalf("%s: %v, reference accept=%v", xvm.DisasmString(s), err, want)
		}
	})
}

func TestP24(t *testing.T) {
	r := kit.New(t, "P24")
	hostile := func(t *rapid.T) []byte {
		g := &gen{t: t}
		var s []byte
		switch rapid.IntRange(0, 4).Draw(t, "style") {
		case 0:
			s = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(t, "raw")
		case 1: // only supported opcodes
			n := rapid.IntRange(0, 40).Draw(t, "n")
			for i := 0; i < n; i++ {
				op := rapid.SampledFrom(append([]byte{0, 0x4f, 0x51, 0x52, 0x60, 0x63, 0x64, 0x67, 0x68, 1, 2, 20, 75, 76, 77, 78}, plainOps...)).Draw(t, "op")
				s = append(s, op)
			}
		case 2:
			s = kit.Mutate(t, g.seq(2, 6), "mut")
		case 3: // hostile counts
			for i := rapid.IntRange(0, 4).Draw(t, "args"); i > 0; i-- {
				s = append(s, g.push(g.item())...)
			}
			v := rapid.OneOf(rapid.Int64Range(-30, 30), rapid.SampledFrom([]int64{1<<31 - 1, -(1<<31 - 1), 1 << 24, 1 << 16, 20, 21, -1})).Draw(t, "count")
			s = append(s, ref.PushData(ref.NumEnc(v))...)
			if rapid.Bool().Draw(t, "second") {
				s = append(s, g.push(g.item())...)
				s = append(s, ref.PushData(ref.NumEnc(rapid.Int64Range(-2, 3).Draw(t, "count2")))...)
			}
			s = append(s, rapid.SampledFrom([]byte{0xae, 0xaf}).Draw(t, "op"))
		case 4: // truncated or over-long push
			s = g.seq(1, 2)
			s = append(s, rapid.SampledFrom([]byte{1, 75, 76, 77, 78}).Draw(t, "push"))
			s = append(s, rapid.SliceOfN(rapid.SampledFrom([]byte{0, 1, 0x7f, 0x80, 0xff}), 0, 6).Draw(t, "len")...)
			if rapid.Bool().Draw(t, "high") {
				s = g.highPush()
			}
		}
		return s
	}
	r.Run(t, "bytes", 36000, 20, "unlocking/locking byte strings: random, supported opcodes only, mutated programs, hostile counts, broken pushes, through Verify, Execute (with and without handlers, tracing), parse, disassembly, opcode removal; non-trivial: the locking script parses or has at least 3 bytes",
		func(t *rapid.T, c *kit.Case) {
			a, b := hostile(t), hostile(t)
			if len(a) > 0 && rapid.IntRange(0, 5).Draw(t, "p2sh") == 0 {
				b = append(append([]byte{0xa9, 20}, ref.Hash160(a)...), 0x87)
				a = ref.PushData(a)
			}
			_, okp := ref.ParseAll(b)
			if okp || len(b) >= 3 {
				c.Nontrivial(a, b)
			}
			if okp {
				c.Class("parses")
			}
			c.Sample("%x / %x", a, b)
			ain, aok := kit.Spare(a)
			bin, bok := kit.Spare(b)
			handlers := rapid.Bool().Draw(t, "handlers")
			mk := func() *xvm.Engine {
				if handlers {
					return newEngine()
				}
				return xvm.NewEngine()
			}
			rm := rapid.SampledFrom([]byte{0xab, 0xac, 0, 1, 76}).Draw(t, "rm")
			what := fmt.Sprintf("unlocking %x locking %x handlers=%v", a, b, handlers)
			alloc := kit.AllocBytes(func() {
				kit.NoPanic(t, "Verify of "+what, func() { _ = mk().Verify(ain, bin) })
			})
			n := len(a) + len(b)
			if alloc > uint64(20000+n*n*800) {
				t.Fatalf("Verify of %s allocated %d bytes", what, alloc)
			}
			kit.NoPanic(t, "Execute of "+what, func() {
				e := mk()
				e.EnableDebug()
				_ = e.Execute(bin)
				_ = e.Verify(ain, bin)
				_ = e.Traces()
			})
			for name, f := range map[string]func(){
				"parsing":     func() { _, _ = xvm.NewScriptReader(bin).AllInstructions() },
				"disassembly": func() { _ = xvm.DisasmString(bin) },
				"removal":     func() { _ = xvm.RemoveOpcode(bin, rm) },
			} {
				if n := kit.AllocBytes(func() { kit.NoPanic(t, name+" of "+what, f) }); n > uint64(20000+len(b)*2000) {
					t.Fatalf("%s of %x allocated %d bytes", name, b, n)
				}
			}
			kit.NoPanic(t, "parsing "+what, func() {
				ins, err := xvm.NewScriptReader(bin).AllInstructions()
				if (err == nil) != okp {
					panic(fmt.Sprintf("parse of %x: %v, reference parses=%v", b, err, okp))
				}
				_ = ins
				if s := xvm.DisasmString(bin); s == "" && len(b) > 0 {
					panic("empty disassembly")
				}
				_ = xvm.RemoveOpcode(bin, rm)
			})
			if !aok() || !bok() {
				t.Fatalf("%s: scripts or their spare capacity were altered", what)
			}
		})
	r.Run(t, "loadtext", 9000, 10, "script texts: known names, numbers, hex, quoted data, junk; non-trivial: at least two tokens", func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(0, 8).Draw(t, "n")
		var toks []string
		for i := 0; i < n; i++ {
			toks = append(toks, rapid.OneOf(rapid.SampledFrom([]string{"OP_DUP", "OP_1", "OP_CHECKSIG", "OP_IF", "OP_NOP2", "OP_DATA_3", "OP_PUSHDATA4", "0x", "0x0g", "0xabc", "0x00ff", "''", "'ab'", "'a'", "'zz'", "-", "-1", "17", "9223372036854775807", "-9223372036854775808", "9223372036854775808", "", "'", "\n", "\t"}),
				rapid.StringN(0, 6, 12)).Draw(t, "tok"))
		}
		s := strings.Join(toks, " ")
		if n > 1 {
			c.Nontrivial(s)
		}
		kit.NoPanic(t, fmt.Sprintf("loading %q", s), func() {
			b, err := xvm.NewScriptBuilder().Load(s).Script()
			if err == nil {
				_ = xvm.DisasmString(b)
			}
		})
	})
}

// ---- P25 ----

type tok struct {
	kind int // 0 data, 1 int, 2 op
	data []byte
	num  int64
	op   byte
}

func genNum(t *rapid.T) int64 {
	return rapid.OneOf(rapid.Int64(), rapid.Int64Range(-300, 300), rapid.Int64Range(-1<<33, 1<<33),
		rapid.Custom(func(t *rapid.T) int64 {
			v := int64(uint64(1) << rapid.IntRange(0, 63).Draw(t, "sh"))
			v += int64(rapid.IntRange(-2, 2).Draw(t, "d"))
			if rapid.Bool().Draw(t, "neg") {
				v = -v
			}
			return v
		})).Draw(t, "num")
}

func TestP25(t *testing.T) {
	r := kit.New(t, "P25", "the builder's documented exception is taken as contract: pushing the single byte 00 yields OP_0 (pinned by its tests)")
	r.Run(t, "build-parse", 18000, 20, "sequences of 1..8 data pushes (all push classes), integers and opcodes; non-trivial: two or more tokens, or data of 76 bytes or more",
		func(t *rapid.T, c *kit.Case) {
			n := rapid.IntRange(1, 8).Draw(t, "n")
			b := xvm.NewScriptBuilder()
			if rapid.IntRange(0, 5).Draw(t, "dirty") == 0 {
				b.AddOp(0xac).AddData([]byte("junk")).Load("nonsense token").Reset()
			}
			var want []byte
			var toks []ref.Instr
			long := false
			for i := 0; i < n; i++ {
				var enc []byte
				switch rapid.IntRange(0, 2).Draw(t, "kind") {
				case 0:
					size := rapid.OneOf(rapid.IntRange(0, 3), rapid.SampledFrom([]int{74, 75, 76, 77, 254, 255, 256, 257}), rapid.IntRange(0, 600)).Draw(t, "size")
					if rapid.IntRange(0, 100).Draw(t, "huge") == 0 {
						size = rapid.SampledFrom([]int{32767, 32768, 65535, 65536, 70000, 131072, 1 << 20}).Draw(t, "hsize")
					}
					d := kit.BytesNCheap(t, size, "data")
					long = long || size >= 76
					in, ok := kit.Spare(d)
					b.AddData(in)
					if !ok() {
						t.Fatalf("AddData altered its input")
					}
					enc = ref.Push(d)
				case 1:
					v := genNum(t)
					if v == 0 {
						enc = []byte{0}
					} else {
						enc = ref.Push(ref.NumEnc(v))
					}
					b.AddInt64(v)
				case 2:
					op := rapid.SampledFrom(append([]byte{0x51, 0x60, 0x4f, 0x63, 0x64, 0x67, 0x68}, plainOps...)).Draw(t, "op")
					b.AddOp(op)
					enc = []byte{op}
				}
				in, rest, ok := ref.ParseOne(enc)
				if !ok || len(rest) != 0 {
					t.Fatalf("harness: bad encoding %x", enc)
				}
				toks = append(toks, in)
				want = append(want, enc...)
			}
			if n > 1 || long {
				c.Nontrivial(want)
			}
			c.Sample("%.80x", want)
			got, err := b.Script()
			if err != nil || !bytes.Equal(got, want) {
				t.Fatalf("built %x (%v) want %x", got, err, want)
			}
			if h, err := b.Hash160(); err != nil || !bytes.Equal(h, ref.Hash160(want)) {
				t.Fatalf("Hash160 of the script: %x %v", h, err)
			}
			ins, err := xvm.NewScriptReader(got).AllInstructions()
			if err != nil || len(ins) != len(toks) {
				t.Fatalf("parse of %x: %d instructions %v, want %d", got, len(ins), err, len(toks))
			}
			for i := range ins {
				if ins[i].OpCode() != toks[i].Op || !bytes.Equal(ins[i].Data(), toks[i].Data) {
					t.Fatalf("instruction %d of %x: %x %x want %x %x", i, got, ins[i].OpCode(), ins[i].Data(), toks[i].Op, toks[i].Data)
				}
			}
		})
	r.Run(t, "push-exec", 9000, 20, "a pushed byte string or integer is what execution leaves on the stack; non-trivial: all", func(t *rapid.T, c *kit.Case) {
		b := xvm.NewScriptBuilder()
		var want []byte
		if rapid.Bool().Draw(t, "int") {
			v := genNum(t)
			b.AddInt64(v)
			want = ref.NumEnc(v)
		} else {
			want = kit.Bytes(t, 0, 300, "data")
			if len(want) == 1 && want[0] == 0 {
				want = nil
			}
			b.AddData(want)
		}
		c.Nontrivial(want)
		s, err := b.Script()
		if err != nil {
			t.Fatalf("%v", err)
		}
		probe := append(append(append([]byte{}, s...), ref.PushData(want)...), 0x88, 0x51)
		if err := newEngine().Verify(nil, probe); err != nil {
			t.Fatalf("script %x does not push %x: %v", s, want, err)
		}
	})
	r.Run(t, "number", 24000, 20, "64-bit integers encoded, and byte strings of 0..9 bytes decoded with limits 1..9; non-trivial: value or bytes outside 0..16",
		func(t *rapid.T, c *kit.Case) {
			v := genNum(t)
			e := xvm.ScriptNum(v).Bytes()
			if w := ref.NumEnc(v); !bytes.Equal(e, w) {
				t.Fatalf("number %d encodes as %x want %x", v, e, w)
			}
			if v < 0 || v > 16 {
				c.Nontrivial(v)
			}
			if len(e) <= 8 {
				if d, err := xvm.MakeScriptNum(e, 8); err != nil || int64(d) != v {
					t.Fatalf("number %d = %x decodes to %d %v", v, e, d, err)
				}
			}
			i32 := xvm.ScriptNum(v).Int32()
			switch {
			case v > 1<<31-1:
				if i32 != 1<<31-1 {
					t.Fatalf("Int32(%d)=%d", v, i32)
				}
			case v < -1<<31:
				if i32 != -1<<31 {
					t.Fatalf("Int32(%d)=%d", v, i32)
				}
			default:
				if int64(i32) != v {
					t.Fatalf("Int32(%d)=%d", v, i32)
				}
			}
			raw := rapid.SliceOfN(rapid.OneOf(rapid.Byte(), rapid.SampledFrom([]byte{0, 0x80, 0x7f, 0xff, 1})), 0, 8).Draw(t, "raw")
			lim := rapid.IntRange(0, 8).Draw(t, "limit")
			if kit.Uniform(t, 1, "toolong")[0] < 8 {
				raw = kit.Overlong(t, raw, "over")
				c.Class("much-too-long")
			}
			d, err := xvm.MakeScriptNum(raw, lim)
			w, ok := ref.NumDec(raw, lim)
			if (err == nil) != ok || ok && int64(d) != w {
				t.Fatalf("decode %x limit %d: %d %v, reference %d %v", raw, lim, d, err, w, ok)
			}
			if ok {
				c.Class("decodable")
			}
			c.Sample("%d %x %x", v, e, raw)
		})
	r.Run(t, "remove", 12000, 20, "an opcode removed from scripts where its byte value also occurs inside push data; non-trivial: it occurs", func(t *rapid.T, c *kit.Case) {
		op := rapid.SampledFrom([]byte{0xac, 0x76, 0x87, 0x63, 0x51, 0, 5, 76, 77, 78, 0x6a, 0xab}).Draw(t, "op")
		var s, want []byte
		n := rapid.IntRange(0, 8).Draw(t, "n")
		hit := false
		for i := 0; i < n; i++ {
			var enc []byte
			switch rapid.IntRange(0, 2).Draw(t, "k") {
			case 0:
				if op > 0 && op <= 78 {
					enc = []byte{0x51}
				} else {
					enc = []byte{op}
				}
			case 1:
				enc = []byte{rapid.SampledFrom(plainOps).Draw(t, "other")}
				if rapid.IntRange(0, 4).Draw(t, "unknown") == 0 {
					enc = []byte{byte(rapid.IntRange(0xab, 0xff).Draw(t, "any"))}
				}
			case 2:
				l := rapid.SampledFrom([]int{0, 1, 4, 5, 6, 80, 300}).Draw(t, "l")
				d := bytes.Repeat([]byte{op}, l)
				switch {
				case l < 256 && rapid.Bool().Draw(t, "pd1"):
					enc = append([]byte{76, byte(l)}, d...)
				case rapid.IntRange(0, 3).Draw(t, "pd4") == 0:
					enc = append([]byte{78, byte(l), byte(l >> 8), 0, 0}, d...)
				default:
					enc = ref.PushData(d)
				}
			}
			s = append(s, enc...)
			if enc[0] != op {
				want = append(want, enc...)
			} else {
				hit = true
			}
		}
		if hit {
			c.Nontrivial(s, op)
		}
		c.Sample("%x minus %02x", s, op)
		in, ok := kit.Spare(s)
		got := xvm.RemoveOpcode(in, op)
		if !bytes.Equal(got, want) || !ok() {
			t.Fatalf("removing %02x from %x: got %x want %x (input intact %v)", op, s, got, want, ok())
		}
	})
	r.Run(t, "text", 6000, 10, "script texts of names, numbers, hex and quoted data load to the same bytes as built directly; non-trivial: two tokens", func(t *rapid.T, c *kit.Case) {
		names := map[string]byte{"OP_DUP": 0x76, "OP_HASH160": 0xa9, "OP_EQUAL": 0x87, "OP_EQUALVERIFY": 0x88, "OP_CHECKSIG": 0xac, "OP_CHECKMULTISIG": 0xae, "OP_IF": 0x63, "OP_NOTIF": 0x64, "OP_ELSE": 0x67, "OP_ENDIF": 0x68, "OP_0": 0, "OP_FALSE": 0, "OP_1": 0x51, "OP_TRUE": 0x51, "OP_16": 0x60, "OP_SWAP": 0x7c, "OP_SIZE": 0x82, "OP_ADD": 0x93, "OP_RETURN": 0x6a, "OP_DROP": 0x75, "OP_2DUP": 0x6e, "OP_3DUP": 0x6f, "OP_CHECKSIGVERIFY": 0xad, "OP_CHECKMULTISIGVERIFY": 0xaf, "OP_DATA_20": 20, "OP_PUSHDATA1": 76}
		var keys []string
		for k := range names {
			keys = append(keys, k)
		}
		sortStrings(keys)
		var text []string
		var want []byte
		n := rapid.IntRange(1, 8).Draw(t, "n")
		for i := 0; i < n; i++ {
			switch rapid.IntRange(0, 3).Draw(t, "k") {
			case 0:
				k := rapid.SampledFrom(keys).Draw(t, "name")
				text = append(text, k)
				want = append(want, names[k])
			case 1:
				v := genNum(t)
				text = append(text, fmt.Sprint(v))
				if v == 0 {
					want = append(want, 0)
				} else {
					want = append(want, ref.Push(ref.NumEnc(v))...)
				}
			case 2:
				d := kit.Bytes(t, 1, 30, "hex")
				text = append(text, fmt.Sprintf("0x%x", d))
				want = append(want, d...)
			case 3:
				d := kit.Bytes(t, 1, 90, "quoted")
				text = append(text, fmt.Sprintf("'%x'", d))
				want = append(want, ref.Push(d)...)
			}
		}
		sep := rapid.SampledFrom([]string{" ", "\n", "\t"}).Draw(t, "sep")
		s := strings.Join(text, sep)
		if n > 1 {
			c.Nontrivial(s)
		}
		b := xvm.NewScriptBuilder()
		got, err := b.Load(s).Script()
		if err != nil || !bytes.Equal(got, want) {
			t.Fatalf("load %q: %x %v want %x", s, got, err, want)
		}
		if rapid.IntRange(0, 2).Draw(t, "unknown") > 0 {
			return
		}
		// an unknown word is reported, before or behind the good ones, and until a reset
		c.Class("unknown-word")
		bad := rapid.SampledFrom([]string{"OP_NOSUCH", "0xzz", "''", "1x", "op_dup", "0xabc", "99999999999999999999"}).Draw(t, "bad")
		b.Reset()
		switch rapid.IntRange(0, 2).Draw(t, "where") {
		case 0:
			b.Load(bad + " " + s)
		case 1:
			b.Load(s + sep + bad)
		case 2:
			b.Load(bad).Load(s)
		}
		if rapid.Bool().Draw(t, "more") {
			b.Load(s)
		}
		if got, err := b.Script(); err == nil {
			t.Fatalf("load %q with unknown word %q: no error, script %x", s, bad, got)
		}
		if _, err := b.Hash160(); err == nil {
			t.Fatalf("load %q with unknown word %q: hash without error", s, bad)
		}
		if got, err := b.Reset().Load(s).Script(); err != nil || !bytes.Equal(got, want) {
			t.Fatalf("load %q after a reset: %x %v want %x", s, got, err, want)
		}
	})
}
