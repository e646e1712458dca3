package pmisc

import (
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/secp256k1"
	"github.com/keyfuse/tokucore/xvm"

	"verif/kit"
	"verif/ref"
)

// job is one piece of work of a goroutine; run gives the same results whenever it is called.
type job struct {
	name string
	run  func() []any
}

func shows(out []any) string {
	var s []string
	for _, v := range out {
		s = append(s, show(v))
	}
	return strings.Join(s, "; ")
}

// together runs the jobs at the same time, some rounds each, and gives what they returned or how they ended.
func together(jobs []job, rounds int) ([][]string, []string) {
	got, bad := make([][]string, len(jobs)), make([]string, len(jobs))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					buf := make([]byte, 4096)
					bad[i] = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
				}
			}()
			<-start
			for k := 0; k < rounds; k++ {
				got[i] = append(got[i], shows(jobs[i].run()))
			}
		}()
	}
	close(start)
	wg.Wait()
	return got, bad
}

func judge(t *rapid.T, jobs []job, rounds int) {
	got, bad := together(jobs, rounds)
	var names []string
	for _, j := range jobs {
		names = append(names, j.name)
	}
	for i, j := range jobs {
		if bad[i] != "" {
			t.Fatalf("%v at the same time: %s: %s", names, j.name, bad[i])
		}
		var want string
		kit.NoPanic(t, j.name, func() { want = shows(j.run()) })
		for k, g := range got[i] {
			if g != want {
				t.Fatalf("%v at the same time: round %d of %s gives %s, alone %s", names, k, j.name, g, want)
			}
		}
	}
}

func concurrent(ops []op) func(t *rapid.T, c *kit.Case) {
	return func(t *rapid.T, c *kit.Case) {
		w := &world{t: t}
		kinds := make([]int, rapid.IntRange(1, 3).Draw(t, "kinds"))
		for i := range kinds {
			kinds[i] = rapid.IntRange(0, len(ops)-1).Draw(t, "kind")
		}
		var jobs []job
		for i := rapid.IntRange(2, 6).Draw(t, "jobs"); i > 0; i-- {
			o := ops[kinds[rapid.IntRange(0, len(kinds)-1).Draw(t, "op")]]
			run, query := o.make(w)
			if !query {
				c.Class("skipped: not repeatable")
				continue
			}
			jobs = append(jobs, job{o.name, run})
			c.Class(o.name)
		}
		if len(jobs) > 1 {
			c.Nontrivial(w.summary(), len(w.blocks), fmt.Sprint(kinds))
		}
		judge(t, jobs, rapid.IntRange(1, 4).Draw(t, "rounds"))
		if s := w.verify(); s != "" {
			t.Fatalf("%s", s)
		}
		var names []string
		for _, j := range jobs {
			names = append(names, j.name)
		}
		c.Sample("%v", names)
	}
}

// sharing has several goroutines read the same keys, addresses, extended keys, scripts and messages.
func sharing(t *rapid.T, c *kit.Case) {
	d := kit.Scalar(t, "key")
	// What the goroutines share has not been used before.
	k := xcrypto.PrvKeyFromBytes(kit.B32(d))
	p := xcrypto.PrvKeyFromBytes(kit.B32(d)).PubKey()
	used := xcrypto.PrvKeyFromBytes(kit.B32(d))
	h := kit.BytesN(t, 32, "hash")
	sig, err := xcrypto.EcdsaSign(used, h)
	if err != nil {
		t.Fatal(err)
	}
	sch, err := xcrypto.SchnorrSign(used, h)
	if err != nil {
		t.Fatal(err)
	}
	seed := kit.Uniform(t, 32, "seed")
	hd, hdpub := bip32.NewHDKey(seed), bip32.NewHDKey(seed).HDPublicKey()
	hash20, hash32 := kit.Uniform(t, 20, "h20"), kit.Uniform(t, 32, "h32")
	addrs := []xcore.Address{xcore.NewPayToPubKeyHashAddress(hash20), xcore.NewPayToScriptHashAddress(hash20), xcore.NewPayToWitnessV0PubKeyHashAddress(hash20), xcore.NewPayToWitnessV0ScriptHashAddress(hash32)}
	net := rapid.SampledFrom(nets).Draw(t, "net")
	script := ref.Lock(rapid.IntRange(1, 4).Draw(t, "lock"), hash32)
	if len(script) == 34 {
		script = ref.Lock(ref.WSH, hash32)
	}
	parsed, perr := xcore.ParseLockingScript(script)
	leaves := [][]byte{kit.Uniform(t, 32, "l0"), kit.Uniform(t, 32, "l1"), kit.Uniform(t, 32, "l2")}
	tree := xcrypto.NewMerkle(leaves)
	e := kit.Uniform(t, 16, "entropy")
	words, err := bip39.NewMnemonic(e)
	if err != nil {
		t.Fatal(err)
	}
	sc := secp256k1.NewScalar(p.X, p.Y)
	i := rapid.Uint32Range(0, 5).Draw(t, "child")
	all := []job{
		{"EcdsaSign", func() []any { s, err := xcrypto.EcdsaSign(k, h); return []any{s, err} }},
		{"EcdsaVerify", func() []any { return []any{xcrypto.EcdsaVerify(p, h, sig)} }},
		{"SchnorrSign", func() []any { s, err := xcrypto.SchnorrSign(k, h); return []any{s, err} }},
		{"SchnorrVerify", func() []any { return []any{xcrypto.SchnorrVerify(p, h, sch)} }},
		{"PubKey", func() []any {
			return []any{k.PubKey(), k.Serialize(), p.Serialize(), p.SerializeUncompressed(), p.Hash160(), p.Add(p)}
		}},
		{"HDKey", func() []any {
			a, err := hd.Derive(i)
			b, err2 := hd.Derive(i | 1<<31)
			return []any{a, err, b, err2, hd.HDPublicKey(), hd.ToString(net), hd.PublicKey()}
		}},
		{"HDKey public", func() []any {
			a, err := hdpub.Derive(i)
			return []any{a, err, hdpub.ToString(net), hdpub.PublicKey()}
		}},
		{"HDKey path", func() []any { a, err := hd.DeriveByPath("m/44'/0/1"); return []any{a, err} }},
		{"Address", func() []any {
			var out []any
			for _, a := range addrs {
				s := a.ToString(net)
				b, err := xcore.DecodeAddress(s, net)
				out = append(out, a, s, b, err)
			}
			return out
		}},
		{"Script", func() []any {
			var out []any
			if perr == nil {
				raw, err := parsed.GetRawLockingScriptBytes()
				out = append(out, raw, err, parsed.GetAddress(), fmt.Sprint(parsed.GetScriptVersion()))
			}
			q, err := xcore.ParseLockingScript(script)
			if err == nil {
				out = append(out, q.GetAddress())
			}
			return append(out, err, xvm.DisasmString(script), xvm.RemoveOpcode(script, 0xac))
		}},
		{"Merkle", func() []any {
			path := tree.Proofs(leaves[1])
			return []any{fmt.Sprintf("%v", tree.Root()), path}
		}},
		{"Mnemonic", func() []any {
			m, err := bip39.NewMnemonic(e)
			x, err2 := bip39.EntropyFromMnemonic(words)
			return []any{m, err, x, err2, bip39.IsMnemonicValid(words)}
		}},
		{"Scalar", func() []any { return []any{sc.Add(secp256k1.SECP256K1(), sc)} }},
		{"Engine", func() []any {
			vm := xvm.NewEngine()
			return []any{vm.Verify([]byte{0x51, 0x52}, []byte{0x93, 0x53, 0x87})}
		}},
		{"Network", func() []any { return []any{network.MainNet.Magic, network.TestNet.Bech32HRPSegwit, net.Port} }},
	}
	n := rapid.IntRange(2, 6).Draw(t, "jobs")
	var jobs []job
	var names []string
	for len(jobs) < n {
		j := all[rapid.IntRange(0, len(all)-1).Draw(t, "job")]
		jobs = append(jobs, j)
		names = append(names, j.name)
		if rapid.Bool().Draw(t, "twin") {
			jobs = append(jobs, j)
			names = append(names, j.name)
		}
	}
	for _, s := range names {
		c.Class(s)
	}
	c.Nontrivial(names, h)
	c.Sample("%v", names)
	judge(t, jobs, rapid.IntRange(1, 3).Draw(t, "rounds"))
}

// spending has goroutines build, sign, verify, decode and print transactions of their own, from shared keys and scripts.
func spending(t *rapid.T, c *kit.Case) {
	d := kit.Scalar(t, "key")
	k := xcrypto.PrvKeyFromBytes(kit.B32(d))
	p := k.PubKey().SerializeCompressed()
	redeem := ref.MultiSig(1, p)
	to, change := xcore.NewPayToPubKeyHashAddress(kit.Uniform(t, 20, "to")), xcore.NewPayToWitnessV0PubKeyHashAddress(kit.Uniform(t, 20, "ch"))
	var jobs []job
	var names []string
	for n := rapid.IntRange(2, 4).Draw(t, "n"); n > 0; n-- {
		kind := rapid.IntRange(1, 4).Draw(t, "kind")
		id := kit.Uniform(t, 32, "id")
		value := rapid.Uint64Range(10000, 1000000).Draw(t, "value")
		var lock, red []byte
		switch kind {
		case ref.PKH, ref.WPKH:
			lock = ref.Lock(kind, ref.Hash160(p))
		case ref.SH:
			lock, red = ref.Lock(kind, ref.Hash160(redeem)), redeem
		case ref.WSH:
			lock, red = ref.Lock(kind, sha(redeem)), redeem
		}
		names = append(names, fmt.Sprint("kind ", kind))
		jobs = append(jobs, job{names[len(names)-1], func() []any {
			b := xcore.NewTransactionBuilder()
			b.AddCoin(xcore.NewCoinBuilder().AddOutput(fmt.Sprintf("%x", id), 1, value, fmt.Sprintf("%x", lock)).ToCoins()[0]).AddKeys(k)
			if red != nil {
				b.SetRedeemScript(red)
			}
			tx, err := b.Then().To(to, value/2).Then().SetChange(change).SendFees(500).Sign().BuildTransaction()
			if err != nil {
				return []any{err}
			}
			raw := tx.Serialize()
			two := xcore.NewTransaction()
			var e1 error
			if kind == ref.WPKH || kind == ref.WSH {
				e1 = two.Deserialize(raw)
			} else {
				e1 = two.DeserializeNoWitness(raw)
			}
			if e1 != nil {
				return []any{"decode", e1}
			}
			e2 := two.SetTxIn(0, value, lock, red)
			return []any{tx, tx.Verify(), e2, two.Verify(), tx.ToString(), two}
		}})
	}
	c.Nontrivial(names, p)
	c.Sample("%v", names)
	judge(t, jobs, 1)
}

// allOps lists the operations a fresh process can start with.
func allOps() []op { return append(append(encodeOps(), cryptoOps()...), scriptOps()...) }

// TestFirst is the process started by firsts: several goroutines begin with the same operation, so that whatever the
// library sets up on first use is set up by them at the same time.
func TestFirst(t *testing.T) {
	var spec struct {
		Op   int
		Seed []int
	}
	if os.Getenv("VERIF_FIRST") == "" {
		t.Skip()
	}
	if err := json.Unmarshal([]byte(os.Getenv("VERIF_FIRST")), &spec); err != nil {
		t.Fatal(err)
	}
	o := allOps()[spec.Op]
	once := func(seed int) string {
		return rapid.Custom(func(t *rapid.T) string {
			run, query := o.make(&world{t: t})
			out := shows(run())
			if !query {
				return "not repeatable"
			}
			return out
		}).Example(seed)
	}
	got := make([]string, len(spec.Seed))
	start := make(chan struct{})
	var wg sync.WaitGroup
	for i := range spec.Seed {
		wg.Add(1)
		go func() {
			defer wg.Done()
			<-start
			got[i] = once(spec.Seed[i])
		}()
	}
	close(start)
	wg.Wait()
	for i, s := range spec.Seed {
		want := once(s)
		if want != once(s) { // encrypts
			continue
		}
		if got[i] != want {
			t.Fatalf("%s gives %s, later alone %s", o.name, got[i], want)
		}
	}
}

// firsts starts processes whose goroutines use one operation first of all at the same time.
func firsts(t *rapid.T, c *kit.Case) {
	ops := allOps()
	bad := make([]string, 8)
	var wg sync.WaitGroup
	var names []string
	for i := range bad {
		k := rapid.IntRange(0, len(ops)-1).Draw(t, "op")
		seeds := rapid.SliceOfN(rapid.IntRange(1, 1<<30), 2, 4).Draw(t, "seeds")
		if rapid.Bool().Draw(t, "twins") {
			seeds[1] = seeds[0]
		}
		spec, _ := json.Marshal(map[string]any{"Op": k, "Seed": seeds})
		names = append(names, ops[k].name)
		c.Class(ops[k].name)
		c.Nontrivial(spec)
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(os.Args[0], "-test.run", "^TestFirst$")
			cmd.Env = append(os.Environ(), "VERIF_FIRST="+string(spec), "VERIF_EVIDENCE=", "GORACE=atexit_sleep_ms=10")
			if out, err := cmd.CombinedOutput(); err != nil {
				if len(out) > 6000 {
					out = out[:6000]
				}
				bad[i] = fmt.Sprintf("%v\n%s", err, out)
			}
		}()
	}
	wg.Wait()
	c.Sample("%v", names)
	for i, b := range bad {
		if b != "" {
			t.Fatalf("a process that begins with %s in several goroutines: %s", names[i], b)
		}
	}
}

func TestP38(t *testing.T) {
	r := kit.New(t, "P38",
		"built with the race detector: an unsynchronised access is a violation even when the results are right",
		"goroutines share only values they read; the package-wide word list is not changed meanwhile",
		"the interleavings are those the scheduler happens to produce")
	rule := "; non-trivial: at least two goroutines"
	r.Run(t, "first", 25, 20, "8 processes at a time, in each of which 2..4 goroutines begin with the same operation; non-trivial: every process", firsts)
	r.Run(t, "shared", 120, 20, "2..12 goroutines sign, verify, derive, convert and parse with the same keys, extended keys, addresses, trees and scripts; non-trivial: all", sharing)
	r.Run(t, "encodings", 300, 15, "2..6 goroutines in encoders, decoders, hashes, address, merkle, mnemonic, extended-key and message operations"+rule, concurrent(encodeOps()))
	r.Run(t, "crypto", 60, 20, "2..6 goroutines in key, signature, curve and multi-party operations"+rule, concurrent(cryptoOps()))
	r.Run(t, "scripts", 600, 15, "2..6 goroutines in builder, reader, number, stack, engine and standard script operations"+rule, concurrent(scriptOps()))
	r.Run(t, "spending", 30, 20, "2..4 goroutines build, sign, verify, reload and print a transaction of their own with a shared key; non-trivial: all", spending)
}

func sha(b []byte) []byte { h := sha256.Sum256(b); return h[:] }
