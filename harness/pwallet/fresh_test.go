package pwallet

import (
	"bytes"
	"crypto/rand"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"syscall"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore/bip32"
	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"
	"github.com/keyfuse/tokucore/xcrypto"
	"github.com/keyfuse/tokucore/xcrypto/paillier"

	"verif/kit"
	"verif/ref"
)

// Call is one generation call; its value is a secret of at least Bits bits.
type Call struct {
	Kind string
	Arg  int
	Wait int // milliseconds to sleep before
}

func (c Call) bits() int {
	switch c.Kind {
	case "entropy":
		return c.Arg
	case "hdkey", "mnemonic":
		return 128
	}
	return 100
}

// gen makes the call and returns the secret; a value that is not valid for its use is an error.
func gen(c Call) ([]byte, error) {
	switch c.Kind {
	case "entropy":
		e, err := bip39.NewEntropy(c.Arg)
		if err != nil || len(e)*8 != c.Arg {
			return nil, fmt.Errorf("NewEntropy(%d): %d bytes, %v", c.Arg, len(e), err)
		}
		return e, nil
	case "mnemonic":
		b, err := bip39.NewBIP39(bip39.ENGLISH)
		if err != nil {
			return nil, err
		}
		e := refEntropy(langs[0], strings.Split(b.ToString(), " "))
		if e == nil {
			return nil, fmt.Errorf("NewBIP39: %q is not a sentence", b.ToString())
		}
		return e, nil
	case "hdkey":
		k, err := bip32.NewHDKeyRand()
		if err != nil {
			return nil, err
		}
		x, _ := parse(k.ToString(network.MainNet))
		if x == nil || x.d == nil || x.depth != 0 {
			return nil, fmt.Errorf("NewHDKeyRand: %s is not a master key", k.ToString(network.MainNet))
		}
		return append(ref.B32(x.d), x.chain...), nil
	case "paillier":
		pk, sk, err := paillier.GenerateKeyPair(c.Arg)
		if err != nil {
			return nil, err
		}
		m := new(big.Int).SetBytes([]byte("message"))
		ct, err := pk.Encrypt(m)
		if err != nil {
			return nil, err
		}
		g, err := sk.Decrypt(ct)
		if err != nil || g.Cmp(m) != 0 {
			return nil, fmt.Errorf("paillier key of %d bits decrypts %v to %v, %v", c.Arg, m, g, err)
		}
		return append(pk.N.Bytes(), ct.Bytes()...), nil
	case "encrypt":
		pk := fixedKey()
		ct, err := pk.Encrypt(big.NewInt(int64(c.Arg)))
		if err != nil {
			return nil, err
		}
		return ct.Bytes(), nil
	}
	panic(c.Kind)
}

// fixedKey is a public key of 256 bits.
func fixedKey() *paillier.PubKey {
	n, _ := new(big.Int).SetString("d5bbb96d30086ec484eba3d7f9caeb07bc1ef1d3d4a1c7ab6ae7b1d5d5ac7d3f", 16)
	return &paillier.PubKey{N: n, NN: new(big.Int).Mul(n, n), G: new(big.Int).Add(n, big.NewInt(1))}
}

func calls(t *rapid.T, lo, hi int) []Call {
	n := rapid.IntRange(lo, hi).Draw(t, "n")
	var cs []Call
	same := rapid.IntRange(0, 2).Draw(t, "same") == 0
	for i := 0; i < n; i++ {
		if same && i > 0 {
			cs = append(cs, cs[0])
			continue
		}
		c := Call{Kind: rapid.SampledFrom([]string{"entropy", "entropy", "hdkey", "mnemonic", "paillier", "encrypt"}).Draw(t, "kind")}
		switch c.Kind {
		case "entropy":
			c.Arg = 32 * rapid.IntRange(4, 8).Draw(t, "bits")
		case "paillier":
			c.Arg = rapid.SampledFrom([]int{128, 130, 192, 256}).Draw(t, "bits")
		case "encrypt":
			c.Arg = rapid.IntRange(0, 2).Draw(t, "m")
		}
		if rapid.IntRange(0, 3).Draw(t, "wait") == 0 {
			c.Wait = rapid.IntRange(1, 2000).Draw(t, "ms")
		}
		cs = append(cs, c)
	}
	return cs
}

// bubble makes the calls under a clock that starts at a fixed time and moves only by their waits.
func bubble(t *testing.T, cs []Call) (out [][]byte, err error) {
	t.Run("bubble", func(t *testing.T) {
		synctest.Test(t, func(t *testing.T) {
			for _, c := range cs {
				time.Sleep(time.Duration(c.Wait) * time.Millisecond)
				v, e := gen(c)
				if e != nil {
					err = e
					return
				}
				out = append(out, v)
			}
		})
	})
	return
}

// TestChild makes the calls of VERIF_CALLS in a process of its own and prints the values.
func TestChild(t *testing.T) {
	spec := os.Getenv("VERIF_CALLS")
	if spec == "" {
		t.Skip()
	}
	var cs []Call
	if err := json.Unmarshal([]byte(spec), &cs); err != nil {
		t.Fatal(err)
	}
	out, err := bubble(t, cs)
	if err != nil {
		fmt.Printf("\nCHILD-ERROR %v\n", err)
		return
	}
	for _, v := range out {
		fmt.Printf("\nCHILD %x\n", v)
	}
}

func child(cs []Call) ([][]byte, error) {
	spec, _ := json.Marshal(cs)
	run := func(attr *syscall.SysProcAttr) ([]byte, error) {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestChild$", "-test.v")
		// the generators of math/rand start from their fixed seed, as in programs of older Go versions
		cmd.Env = append(os.Environ(), "VERIF_CALLS="+string(spec), "VERIF_EVIDENCE=", "GODEBUG=randautoseed=0")
		cmd.SysProcAttr = attr
		return cmd.CombinedOutput()
	}
	// with the same process number in both, where the system permits that
	out, err := run(&syscall.SysProcAttr{Cloneflags: syscall.CLONE_NEWUSER | syscall.CLONE_NEWPID,
		UidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getuid(), Size: 1}}, GidMappings: []syscall.SysProcIDMap{{ContainerID: 0, HostID: os.Getgid(), Size: 1}}})
	if err != nil {
		out, err = run(nil)
	}
	if err != nil {
		return nil, fmt.Errorf("child: %v\n%s", err, out)
	}
	var vs [][]byte
	for _, l := range strings.Split(string(out), "\n") {
		if s, ok := strings.CutPrefix(l, "CHILD "); ok {
			v, err := hex.DecodeString(s)
			if err != nil {
				return nil, err
			}
			vs = append(vs, v)
		}
		if s, ok := strings.CutPrefix(l, "CHILD-ERROR "); ok {
			return nil, fmt.Errorf("%s", s)
		}
	}
	return vs, nil
}

// stream is a random source whose bytes the test decides.
type stream struct {
	data []byte
	at   int
	step int // bytes given per read, 0: as many as asked
}

func (s *stream) Read(b []byte) (int, error) {
	n := len(b)
	if s.step > 0 && n > s.step {
		n = s.step
	}
	for i := 0; i < n; i++ {
		b[i] = s.data[s.at%len(s.data)]
		s.at++
	}
	return n, nil
}

func withReader(r io.Reader, f func()) {
	old := rand.Reader
	rand.Reader = r
	defer func() { rand.Reader = old }()
	f()
}

func bit(b []byte, i int) int { return int(b[i/8]>>(7-i%8)) & 1 }

func TestP34(t *testing.T) {
	r := kit.New(t, "P34", "the operating system's random source is trusted", "statistical bounds lie at nine standard deviations or beyond, so that a false alarm is less likely than 1e-9 in a run", "where a generator does not read crypto/rand.Reader, its use of that source is not examined; the other sub-checks still are")
	top := t
	var mu sync.Mutex
	seen := map[string]string{}
	note := func(t *rapid.T, c Call, v []byte, where string) {
		mu.Lock()
		defer mu.Unlock()
		key := string(v)
		if o, ok := seen[key]; ok {
			t.Fatalf("%s gave %x again (%s), first %s", fmt.Sprint(c), v, where, o)
		}
		seen[key] = fmt.Sprint(c, " ", where)
	}

	r.Run(t, "fresh", 250, 30, "bursts of generation calls of all kinds, in one goroutine or several; no value repeats within or across bursts, every value is valid for its use; non-trivial: at least two calls of one kind", func(t *rapid.T, c *kit.Case) {
		cs := calls(t, 2, 10)
		par := rapid.IntRange(0, 2).Draw(t, "parallel") == 0
		out := make([][]byte, len(cs))
		errs := make([]error, len(cs))
		var wg sync.WaitGroup
		for i := range cs {
			f := func() { out[i], errs[i] = gen(cs[i]) }
			if par && cs[i].Kind != "mnemonic" {
				wg.Add(1)
				go func() { defer wg.Done(); f() }()
			} else {
				f()
			}
		}
		wg.Wait()
		kinds := map[string]int{}
		for i := range cs {
			if errs[i] != nil {
				t.Fatal(errs[i])
			}
			note(t, cs[i], out[i], "in this process")
			kinds[cs[i].Kind]++
			if kinds[cs[i].Kind] == 2 {
				c.Nontrivial(out[i])
			}
		}
		c.Sample("%v parallel=%v", cs, par)
	})

	r.Run(t, "clock", 120, 30, "the same calls made twice under a clock that shows the same times; the values differ; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		cs := calls(t, 1, 5)
		for i := 0; i < 2; i++ {
			out, err := bubble(top, cs)
			if err != nil {
				t.Fatal(err)
			}
			for j := range out {
				note(t, cs[j], out[j], fmt.Sprintf("at a fixed time, run %d", i))
			}
		}
		c.Nontrivial(fmt.Sprint(cs))
		c.Sample("%v", cs)
	})

	r.Run(t, "process", 12, 15, "the same calls made as the first of two processes, under a clock that shows the same times; the values differ; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		cs := calls(t, 1, 6)
		if rapid.Bool().Draw(t, "all") {
			cs = append(cs, Call{Kind: "entropy", Arg: 128}, Call{Kind: "hdkey"}, Call{Kind: "mnemonic"}, Call{Kind: "paillier", Arg: 256}, Call{Kind: "encrypt"})
		}
		for i := 0; i < 2; i++ {
			out, err := child(cs)
			if err != nil {
				t.Fatal(err)
			}
			if len(out) != len(cs) {
				panic("child gave no values")
			}
			for j := range out {
				note(t, cs[j], out[j], fmt.Sprintf("process %d", i))
			}
		}
		c.Nontrivial(fmt.Sprint(cs))
		c.Sample("%v", cs)
	})

	r.Run(t, "bits", 8, 8, "600 values of one kind: every bit, and the equality of every two bits, is balanced within nine standard deviations, and every byte value occurs; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		const m = 600
		call := rapid.SampledFrom([]Call{{Kind: "entropy", Arg: 128}, {Kind: "entropy", Arg: 160}, {Kind: "entropy", Arg: 192}, {Kind: "entropy", Arg: 224}, {Kind: "entropy", Arg: 256}, {Kind: "hdkey"}, {Kind: "mnemonic"}}).Draw(t, "call")
		if call.Kind == "mnemonic" && rapid.Bool().Draw(t, "other") {
			call = Call{Kind: "hdkey"}
		}
		var vs [][]byte
		var bytesSeen [256]bool
		for i := 0; i < m; i++ {
			v, err := gen(call)
			if err != nil {
				t.Fatal(err)
			}
			vs = append(vs, v)
			for _, b := range v {
				bytesSeen[b] = true
			}
		}
		lim := int(9 * math.Sqrt(m) / 2)
		n := len(vs[0]) * 8
		cols := make([][m]int, n)
		for i := range cols {
			for j, v := range vs {
				cols[i][j] = bit(v, i)
			}
		}
		for i := range cols {
			k, prev := 0, 0
			for j := range vs {
				k += cols[i][j]
				if j > 0 && cols[i][j] == cols[i][j-1] {
					prev++
				}
			}
			if k < m/2-lim || k > m/2+lim {
				t.Fatalf("%v: bit %d is set in %d of %d values", call, i, k, m)
			}
			if prev < m/2-lim || prev > m/2+lim {
				t.Fatalf("%v: bit %d equals that of the value before in %d of %d values", call, i, prev, m)
			}
			for i2 := 0; i2 < i; i2++ {
				k := 0
				for j := range vs {
					k += cols[i][j] ^ cols[i2][j]
				}
				if k < m/2-lim || k > m/2+lim {
					t.Fatalf("%v: bits %d and %d differ in %d of %d values", call, i2, i, k, m)
				}
			}
		}
		if len(vs[0]) >= 16 {
			for b, ok := range bytesSeen {
				if !ok {
					t.Fatalf("%v: no byte of %d values is %02x", call, m, b)
				}
			}
		}
		c.Nontrivial(vs[0])
		c.Class(call.Kind)
		c.Sample("%v", call)
	})

	r.Run(t, "values", 8, 8, "200000 entropies of one size: every byte takes every value about equally often, within nine standard deviations; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		const m = 200000
		bits := rapid.SampledFrom([]int{128, 160, 192, 224, 256}).Draw(t, "bits")
		seen := make([][256]int, bits/8)
		for i := 0; i < m; i++ {
			v, err := bip39.NewEntropy(bits)
			if err != nil || len(v) != bits/8 {
				t.Fatalf("entropy of %d bits: %x %v", bits, v, err)
			}
			for j, b := range v {
				seen[j][b]++
			}
			if i == 0 {
				c.Nontrivial(v)
			}
		}
		mean := m / 256.0
		for j := range seen {
			for b, n := range seen[j] {
				if math.Abs(float64(n)-mean) > 9*math.Sqrt(mean) {
					t.Fatalf("byte %d of %d of %d-bit entropies is %02x %d times", j, m, bits, b, n)
				}
			}
		}
		c.Class(fmt.Sprint(bits))
		c.Sample("%d bits", bits)
	})

	r.Run(t, "source", 40, 20, "generators reading a random source that the test decides, with short reads: as many of its bits decide the value as the value must have; non-trivial: the generator reads the source", func(t *rapid.T, c *kit.Case) {
		call := rapid.SampledFrom([]Call{{Kind: "entropy", Arg: 128}, {Kind: "entropy", Arg: 160}, {Kind: "entropy", Arg: 192}, {Kind: "entropy", Arg: 224}, {Kind: "entropy", Arg: 256}, {Kind: "hdkey"}, {Kind: "mnemonic"}}).Draw(t, "call")
		data := kit.Uniform(t, 4096, "data")
		step := rapid.SampledFrom([]int{0, 0, 1, 7, 31}).Draw(t, "step")
		try := func(data []byte) ([]byte, int) {
			s := &stream{data: data, step: step}
			var v []byte
			var err error
			withReader(s, func() { v, err = gen(call) })
			if err != nil {
				t.Fatalf("%v with reads of %d: %v", call, step, err)
			}
			return v, s.at
		}
		v1, used := try(data)
		v2, _ := try(data)
		if used == 0 || !bytes.Equal(v1, v2) || used > 4096 {
			c.Class("other source")
			return
		}
		need, have := call.bits(), 0
		for i := 0; i < used*8 && have < need; i++ {
			d := append([]byte{}, data...)
			d[i/8] ^= 0x80 >> (i % 8)
			if v, _ := try(d); !bytes.Equal(v, v1) {
				have++
			}
		}
		if have < need {
			t.Fatalf("%v: %d bits of the %d random bytes read (at most %d at a time) decide the value, want %d", call, have, used, step, need)
		}
		c.Nontrivial(v1)
		c.Sample("%v reads %d bytes", call, used)
	})

	r.Run(t, "paillier", 12, 10, "small Paillier keys, factored: the randomness of 800 encryptions of one message covers its whole range and does not repeat; the primes of 600 keys vary; larger moduli share no factor and have no close factors; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		one := big.NewInt(1)
		pk, _, err := paillier.GenerateKeyPair(rapid.IntRange(18, 20).Draw(t, "half") * 2)
		if err != nil {
			t.Fatal(err)
		}
		var p, q *big.Int
		for v, d := pk.N.Uint64(), uint64(3); d*d <= v; d += 2 {
			if v%d == 0 {
				p, q = new(big.Int).SetUint64(d), new(big.Int).SetUint64(v/d)
				break
			}
		}
		if p == nil || p.Cmp(q) == 0 {
			t.Fatalf("modulus %v", pk.N)
		}
		phi := new(big.Int).Mul(new(big.Int).Sub(p, one), new(big.Int).Sub(q, one))
		inv := new(big.Int).ModInverse(pk.N, phi)
		msg := big.NewInt(int64(rapid.IntRange(0, 1000).Draw(t, "m")))
		var buckets [16]int
		rs := map[string]bool{}
		for i := 0; i < 800; i++ {
			ct, err := pk.Encrypt(msg)
			if err != nil {
				t.Fatal(err)
			}
			rr := new(big.Int).Exp(new(big.Int).Mod(ct, pk.N), inv, pk.N) // g^m is 1 modulo N
			rs[rr.String()] = true
			b := new(big.Int).Div(new(big.Int).Lsh(rr, 4), pk.N)
			buckets[b.Int64()]++
		}
		if len(rs) < 796 {
			t.Fatalf("%d different random values in 800 encryptions under %v", len(rs), pk.N)
		}
		for i, k := range buckets {
			if k == 0 || k > 50+int(9*math.Sqrt(50)) {
				t.Fatalf("%d of 800 random values under %v lie in part %d of 16 of their range: %v", k, pk.N, i, buckets)
			}
		}
		// 8-bit primes: 11 with the two upper bits set, 23 with the upper one
		primes := map[uint64]int{}
		for i := 0; i < 600; i++ {
			pk, _, err := paillier.GenerateKeyPair(16)
			if err != nil {
				t.Fatal(err)
			}
			v := pk.N.Uint64()
			for d := uint64(3); d*d <= v; d += 2 {
				if v%d == 0 {
					primes[d]++
					primes[v/d]++
				}
			}
		}
		if len(primes) < 9 {
			t.Fatalf("600 keys of 16 bits use the primes %v only", primes)
		}
		for d, k := range primes {
			if k > 500 {
				t.Fatalf("%d of 600 keys of 16 bits have the prime %d", k, d)
			}
		}
		bits := rapid.SampledFrom([]int{256, 300, 512}).Draw(t, "bits")
		prod := big.NewInt(1)
		for i := 0; i < 6; i++ {
			pk, _, err := paillier.GenerateKeyPair(bits)
			if err != nil {
				t.Fatal(err)
			}
			if g := new(big.Int).GCD(nil, nil, prod, pk.N); g.Cmp(one) != 0 {
				t.Fatalf("the modulus %v has the factor %v of an earlier one", pk.N, g)
			}
			prod.Mul(prod, pk.N)
			if l := pk.N.BitLen(); l < bits-2 || l > bits {
				t.Fatalf("a key of %d bits has a modulus of %d bits", bits, l)
			}
			a := new(big.Int).Sqrt(pk.N)
			for j := 0; j < 200; j++ {
				a.Add(a, one)
				d := new(big.Int).Mul(a, a)
				d.Sub(d, pk.N)
				s := new(big.Int).Sqrt(d)
				if s.Mul(s, s).Cmp(d) == 0 {
					t.Fatalf("the modulus %v has close factors", pk.N)
				}
			}
		}
		c.Nontrivial(pk.N.Bytes())
		c.Sample("N=%v", pk.N)
	})

	r.Run(t, "party", 1, 6, "two signing parties with the same key and message: encryption keys and ciphertexts are fresh; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		d := kit.Scalar(t, "d")
		hash := kit.Uniform(t, 32, "hash")
		type res struct {
			c *big.Int
			k *paillier.PubKey
		}
		var got [2]res
		var wg sync.WaitGroup
		for i := range got {
			wg.Add(1)
			go func() {
				defer wg.Done()
				ct, pk, _ := xcrypto.NewEcdsaParty(xcrypto.PrvKeyFromBytes(ref.B32(d))).Phase2(hash)
				got[i] = res{ct, pk}
			}()
		}
		wg.Wait()
		for i, g := range got {
			if g.c == nil || g.k == nil || g.k.N.BitLen() < 2046 {
				t.Fatalf("party %d: ciphertext %v under %v", i, g.c, g.k)
			}
			note(t, Call{Kind: "party key"}, g.k.N.Bytes(), "")
			note(t, Call{Kind: "party ciphertext"}, g.c.Bytes(), "")
		}
		if g := new(big.Int).GCD(nil, nil, got[0].k.N, got[1].k.N); g.Cmp(big.NewInt(1)) != 0 {
			t.Fatalf("the moduli of two parties share the factor %v", g)
		}
		c.Nontrivial(d, hash)
	})
	bip39.SetWordList(words.English)
}
