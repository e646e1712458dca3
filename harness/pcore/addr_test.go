package pcore

import (
	"bytes"
	"fmt"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"

	"verif/kit"
	"verif/ref"
)

type netw struct {
	n       *network.Network
	pkh, sh byte
	hrp     string
}

// the published constants of both networks
var nets = []netw{{network.MainNet, 0x00, 0x05, "bc"}, {network.TestNet, 0x6f, 0xc4, "tb"}}

func addrText(n netw, kind int, hash []byte) string {
	switch kind {
	case ref.PKH:
		return ref.Base58CheckEnc(hash, n.pkh)
	case ref.SH:
		return ref.Base58CheckEnc(hash, n.sh)
	}
	return ref.SegwitEnc(n.hrp, 0, hash)
}

func newAddr(kind int, hash []byte) xcore.Address {
	switch kind {
	case ref.PKH:
		return xcore.NewPayToPubKeyHashAddress(hash)
	case ref.SH:
		return xcore.NewPayToScriptHashAddress(hash)
	case ref.WPKH:
		return xcore.NewPayToWitnessV0PubKeyHashAddress(hash)
	}
	return xcore.NewPayToWitnessV0ScriptHashAddress(hash)
}

func kindOf(a xcore.Address) int {
	switch a.(type) {
	case *xcore.PayToPubKeyHashAddress:
		return ref.PKH
	case *xcore.PayToScriptHashAddress:
		return ref.SH
	case *xcore.PayToWitnessV0PubKeyHashAddress:
		return ref.WPKH
	case *xcore.PayToWitnessV0ScriptHashAddress:
		return ref.WSH
	}
	return ref.Unknown
}

// readAddr is the reference reading of an address text on a network.
func readAddr(s string, n netw) (int, []byte) {
	if hrp, v, prog, err := ref.SegwitDec(s); err == nil {
		if hrp == n.hrp && v == 0 && len(prog) == 20 {
			return ref.WPKH, prog
		}
		if hrp == n.hrp && v == 0 && len(prog) == 32 {
			return ref.WSH, prog
		}
		return ref.Unknown, nil
	}
	if p, v, ok := ref.Base58CheckDec(s); ok && len(p) == 20 {
		if v == n.pkh {
			return ref.PKH, p
		}
		if v == n.sh {
			return ref.SH, p
		}
	}
	return ref.Unknown, nil
}

// describes checks that an address is exactly the destination (kind, hash).
func describes(a xcore.Address, kind int, hash []byte) error {
	if a == nil || kindOf(a) != kind {
		return fmt.Errorf("address %T, want kind %d", a, kind)
	}
	if !bytes.Equal(a.Hash160(), hash) {
		return fmt.Errorf("hash %x want %x", a.Hash160(), hash)
	}
	s, err := a.LockingScript()
	if err != nil || !bytes.Equal(s, ref.Lock(kind, hash)) {
		return fmt.Errorf("script %x %v want %x", s, err, ref.Lock(kind, hash))
	}
	for _, n := range nets {
		if got, want := a.ToString(n.n), addrText(n, kind, hash); got != want {
			return fmt.Errorf("text %q want %q", got, want)
		}
	}
	return nil
}

func hashLen(kind int) int {
	if kind == ref.WSH {
		return 32
	}
	return 20
}

func TestP04(t *testing.T) {
	r := kit.New(t, "P04", "the two networks of package network and generated ones", "the reference codecs of harness/ref/text.go")
	r.Run(t, "roundtrip", 10000, 20, "kind x network x hash: text, script, decoding and script parsing against the published formats; every case is non-trivial", func(t *rapid.T, c *kit.Case) {
		kind := rapid.IntRange(1, 4).Draw(t, "kind")
		ni := rapid.IntRange(0, 1).Draw(t, "net")
		hash := kit.BytesN(t, hashLen(kind), "hash")
		c.Nontrivial(kind, ni, hash)
		c.Sample("%d %d %x", kind, ni, hash)
		in, ok := kit.Spare(hash)
		a := newAddr(kind, in)
		if err := describes(a, kind, hash); err != nil || !ok() {
			t.Fatalf("new address: %v (argument intact %v)", err, ok())
		}
		text := addrText(nets[ni], kind, hash)
		if kind >= ref.WPKH && rapid.IntRange(0, 3).Draw(t, "upper") == 0 {
			text = strings.ToUpper(text)
		}
		d, err := xcore.DecodeAddress(text, nets[ni].n)
		if err == nil {
			err = describes(d, kind, hash)
		}
		if err != nil {
			t.Fatalf("decoding %q: %v", text, err)
		}
		if x, err := xcore.DecodeAddress(text, nets[1-ni].n); err == nil {
			t.Fatalf("%q of one network is read on the other as %T", text, x)
		}
		s, err := xcore.ParseLockingScript(ref.Lock(kind, hash))
		if err != nil {
			t.Fatalf("standard script %x: %v", ref.Lock(kind, hash), err)
		}
		if err := describes(s.GetAddress(), kind, hash); err != nil {
			t.Fatalf("address of script %x: %v", ref.Lock(kind, hash), err)
		}
		if raw, err := s.GetRawLockingScriptBytes(); err != nil || !bytes.Equal(raw, ref.Lock(kind, hash)) {
			t.Fatalf("script %x writes itself as %x %v", ref.Lock(kind, hash), raw, err)
		}
		if w := s.GetScriptVersion() == xcore.WITNESS_V0; w != (kind >= ref.WPKH) {
			t.Fatalf("script kind %d: version %v", kind, s.GetScriptVersion())
		}
	})
	r.Run(t, "mistyped", 20000, 30, "address texts with other versions, lengths, prefixes, checksums, edited characters or case; non-trivial: the text is not simply random", func(t *rapid.T, c *kit.Case) {
		n := nets[rapid.IntRange(0, 1).Draw(t, "net")]
		var s string
		how := rapid.IntRange(0, 8).Draw(t, "how")
		switch how {
		case 0: // any version byte and payload length
			v := rapid.SampledFrom([]byte{0, 5, 0x6f, 0xc4, 0x80, 0xef, 3, 6, 10, 0x28, 1}).Draw(t, "v")
			p := kit.Bytes(t, 18, 34, "p")
			if kit.Uniform(t, 1, "toolong")[0] < 60 {
				p, v = kit.BytesN(t, 20, "p20"), rapid.SampledFrom([]byte{0, 5, 0x6f, 0xc4}).Draw(t, "v2")
				p = append(p, make([]byte, rapid.SampledFrom([]int{1, 12, 64, 128, 236, 256, 512}).Draw(t, "surplus"))...)
				c.Class("much-too-long")
			}
			s = ref.Base58CheckEnc(p, v)
		case 1: // any witness version and program length
			hrp := rapid.SampledFrom([]string{"bc", "tb", "bcrt", "b", "bc1", "tb1", "1bc", "1tb", "bc1q", "tc", "bC", "ltc", "c", "bcbc"}).Draw(t, "hrp")
			if rapid.Bool().Draw(t, "standard") {
				s = ref.SegwitEnc(hrp, 0, kit.Uniform(t, rapid.SampledFrom([]int{20, 32}).Draw(t, "l"), "prog"))
			} else {
				if rapid.Bool().Draw(t, "own") {
					hrp = n.hrp
				}
				l := rapid.OneOf(rapid.IntRange(0, 42), rapid.SampledFrom([]int{20, 32})).Draw(t, "len")
				s = ref.SegwitEnc(hrp, byte(rapid.IntRange(0, 31).Draw(t, "ver")), kit.BytesN(t, l, "prog"))
			}
		case 2: // raw bech32 data, padding included
			s = ref.Bech32Enc(n.hrp, append([]byte{0}, rapid.SliceOfN(rapid.ByteRange(0, 31), 30, 54).Draw(t, "d")...))
		case 3:
			s = rapid.StringN(0, 90, 90).Draw(t, "s")
		case 8: // a valid address with something around it, or in it, that may not show
			kind := rapid.IntRange(1, 4).Draw(t, "kind")
			s = addrText(n, kind, kit.BytesN(t, hashLen(kind), "hash"))
			x := rapid.SampledFrom([]string{"\x00", "\n", "\t", "\r", " ", "\r\n", "\x00\x00", "\x7f", "\x80", "\xff", "\u00a0", "\u200b", "\ufeff", "\v", "\f", ".", ",", ";", "\"", "'", "-", "_", "=", "?", "/", "bitcoin:", "\x1b", "1", "b"}).Draw(t, "x")
			switch i := rapid.IntRange(0, 3).Draw(t, "where"); i {
			case 0:
				s = x + s
			case 1, 2:
				s += x
			default:
				i = rapid.IntRange(0, len(s)).Draw(t, "i")
				s = s[:i] + x + s[i:]
			}
		default: // an edited valid address
			kind := rapid.IntRange(1, 4).Draw(t, "kind")
			s = addrText(n, kind, kit.BytesN(t, hashLen(kind), "hash"))
			b := []byte(s)
			if rapid.IntRange(0, 4).Draw(t, "up") == 0 {
				b = []byte(strings.ToUpper(s))
			}
			const al = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz0lIO "
			for k := rapid.IntRange(0, 2).Draw(t, "edits"); k > 0; k-- {
				i := rapid.IntRange(0, len(b)-1).Draw(t, "i")
				ch := al[rapid.IntRange(0, len(al)-1).Draw(t, "ch")]
				switch rapid.IntRange(0, 4).Draw(t, "edit") {
				case 0:
					b[i] = ch
				case 1:
					b = append(b[:i:i], append([]byte{ch}, b[i:]...)...)
				case 2:
					b = append(b[:i:i], b[i+1:]...)
				case 3:
					j := rapid.IntRange(0, len(b)-1).Draw(t, "j")
					b[i], b[j] = b[j], b[i]
				case 4:
					b[i] ^= 0x20
				}
				if len(b) == 0 {
					break
				}
			}
			s = string(b)
		}
		if how != 3 {
			c.Nontrivial(s)
		}
		c.Sample("%q", s)
		for _, n := range nets {
			kind, hash := readAddr(s, n)
			var a xcore.Address
			var err error
			kit.NoPanic(t, fmt.Sprintf("decoding %q", s), func() { a, err = xcore.DecodeAddress(s, n.n) })
			if kind == ref.Unknown {
				if err == nil {
					t.Fatalf("%q on %s is read as %T %v", s, n.hrp, a, a)
				}
				c.Class("refused")
				continue
			}
			c.Class("accepted")
			if err == nil {
				err = describes(a, kind, hash)
			}
			if err != nil {
				t.Fatalf("%q on %s: %v", s, n.hrp, err)
			}
		}
	})
	r.Run(t, "custom", 4000, 20, "networks a user describes: any two version bytes and any human readable part; addresses of every kind written, read, and read on a network that differs in one constant; all non-trivial", func(t *rapid.T, c *kit.Case) {
		draw := func(label string) netw {
			n := *rapid.SampledFrom(nets).Draw(t, label+".base").n
			w := netw{n: &n}
			w.pkh = rapid.Byte().Draw(t, label+".pkh")
			w.sh = rapid.Byte().Filter(func(b byte) bool { return b != w.pkh }).Draw(t, label+".sh")
			if rapid.IntRange(0, 2).Draw(t, label+".known") == 1 {
				w.hrp = rapid.SampledFrom([]string{"bcrt", "ltc", "tltc", "rltc", "sb", "grs", "vtc", "bc1", "1", "bech32m", "tb1tb"}).Draw(t, label+".hrp")
			} else {
				w.hrp = rapid.StringMatching("[!-@\\[-~]{1,30}").Draw(t, label+".hrp")
			}
			n.PubKeyHashAddrID, n.ScriptHashAddrID, n.Bech32HRPSegwit = w.pkh, w.sh, w.hrp
			return w
		}
		w := draw("net")
		kind := rapid.IntRange(1, 4).Draw(t, "kind")
		hash := kit.BytesN(t, hashLen(kind), "hash")
		c.Nontrivial(w.pkh, w.sh, w.hrp, kind, hash)
		c.Sample("%x %x %q kind %d %x", w.pkh, w.sh, w.hrp, kind, hash)
		what := fmt.Sprintf("network with versions %#x, %#x and prefix %q", w.pkh, w.sh, w.hrp)
		text := addrText(w, kind, hash)
		// a text that looks like both formats is left open
		both := func(s string, w netw) bool {
			i := strings.LastIndexByte(s, '1')
			return kind <= ref.SH && i > 0 && strings.ToLower(s[:i]) == w.hrp
		}
		if both(text, w) {
			c.Class("ambiguous")
			return
		}
		a := newAddr(kind, hash)
		if got := a.ToString(w.n); got != text {
			t.Fatalf("%s: kind %d hash %x is written %q want %q", what, kind, hash, got, text)
		}
		in := text
		if kind >= ref.WPKH && rapid.IntRange(0, 3).Draw(t, "upper") == 1 {
			in = strings.ToUpper(text)
		}
		d, err := xcore.DecodeAddress(in, w.n)
		if err == nil {
			err = describes(d, kind, hash)
		}
		if err != nil {
			t.Fatalf("%s: decoding %q: %v", what, in, err)
		}
		o := draw("other")
		if rapid.Bool().Draw(t, "near") {
			n := *w.n
			o = netw{&n, w.pkh, w.sh, w.hrp}
			switch rapid.IntRange(0, 4).Draw(t, "differs") {
			case 0:
				o.hrp += rapid.SampledFrom([]string{"1", "q", "r", "t"}).Draw(t, "more")
			case 1:
				o.hrp = o.hrp[1:]
			case 2:
				o.pkh, o.sh = o.sh, o.pkh
			case 3:
				o.pkh ^= 1
			case 4:
				o.sh ^= 0x80
			}
			if o.pkh == o.sh || o.hrp == "" || len(o.hrp) > 30 {
				return
			}
			n.PubKeyHashAddrID, n.ScriptHashAddrID, n.Bech32HRPSegwit = o.pkh, o.sh, o.hrp
		}
		if both(text, o) {
			return
		}
		kind2, hash2 := readAddr(in, o)
		d, err = xcore.DecodeAddress(in, o.n)
		if kind2 == ref.Unknown {
			if err == nil {
				t.Fatalf("%q of the %s is read as %T on one with %#x, %#x, %q", in, what, d, o.pkh, o.sh, o.hrp)
			}
			c.Class("refused elsewhere")
			return
		}
		c.Class("read elsewhere")
		if err == nil {
			err = describes(d, kind2, hash2)
		}
		if err != nil {
			t.Fatalf("network with versions %#x, %#x and prefix %q: decoding %q: %v", o.pkh, o.sh, o.hrp, in, err)
		}
	})
	r.Run(t, "script", 4000, 20, "standard scripts, mutated ones and near misses; non-trivial: within two bytes of a standard length", func(t *rapid.T, c *kit.Case) {
		var s []byte
		kind := rapid.IntRange(1, 4).Draw(t, "kind")
		h := kit.BytesN(t, hashLen(kind), "hash")
		switch rapid.IntRange(0, 6).Draw(t, "how") {
		case 0:
			s = ref.Lock(kind, h)
		case 5, 6: // an element replaced, added, dropped or moved
			els, _ := ref.ParseAll(ref.Lock(kind, h))
			var parts [][]byte
			for _, e := range els {
				parts = append(parts, e.Raw)
			}
			other := func() []byte {
				switch rapid.IntRange(0, 3).Draw(t, "other") {
				case 0:
					return []byte{rapid.SampledFrom([]byte{0, 0x4f, 0x51, 0x52, 0x60, 0x75, 0x76, 0x87, 0x88, 0xa9, 0xac, 0xad, 0xae, 0xaf, 0xa8, 0xaa}).Draw(t, "op")}
				case 1:
					return ref.PushData(kit.Uniform(t, rapid.IntRange(1, 3).Draw(t, "l"), "d"))
				case 2:
					return ref.PushData(kit.Uniform(t, rapid.SampledFrom([]int{19, 20, 21, 31, 32, 33}).Draw(t, "l"), "d"))
				}
				return parts[rapid.IntRange(0, len(parts)-1).Draw(t, "own")]
			}
			for k := rapid.IntRange(1, 2).Draw(t, "edits"); k > 0 && len(parts) > 0; k-- {
				i := rapid.IntRange(0, len(parts)-1).Draw(t, "i")
				switch rapid.IntRange(0, 5).Draw(t, "edit") {
				case 0:
					parts = append(parts[:i:i], append([][]byte{other()}, parts[i:]...)...)
				case 1:
					parts = append(parts[:i:i], parts[i+1:]...)
				case 2:
					j := rapid.IntRange(0, len(parts)-1).Draw(t, "j")
					parts[i], parts[j] = parts[j], parts[i]
				default:
					parts[i] = other()
				}
			}
			s = bytes.Join(parts, nil)
		case 1: // wrong hash length
			h = kit.Bytes(t, 18, 34, "h")
			l := byte(len(h))
			s = rapid.SampledFrom([][]byte{
				bytes.Join([][]byte{{0x76, 0xa9, l}, h, {0x88, 0xac}}, nil), bytes.Join([][]byte{{0xa9, l}, h, {0x87}}, nil), bytes.Join([][]byte{{0, l}, h}, nil),
				bytes.Join([][]byte{{0x51, l}, h}, nil), bytes.Join([][]byte{{0x76, 0xa9, 76, l}, h, {0x88, 0xac}}, nil), bytes.Join([][]byte{{0xa9, 76, l}, h, {0x87}}, nil), bytes.Join([][]byte{{0, 76, l}, h}, nil)}).Draw(t, "form")
		default:
			s = kit.Mutate(t, ref.Lock(kind, h), "m")
		}
		if n := len(s); n >= 20 && n <= 36 {
			c.Nontrivial(s)
		}
		c.Sample("%x", s)
		k, hash := ref.Kind(s)
		var sc xcore.Script
		var err error
		in, ok := kit.Spare(s)
		kit.NoPanic(t, fmt.Sprintf("parsing %x", s), func() { sc, err = xcore.ParseLockingScript(in) })
		if !ok() {
			t.Fatalf("parsing altered the script %x", s)
		}
		if (err == nil) != (k != ref.Unknown) {
			t.Fatalf("script %x: parsed as %T (%v), reference kind %d", s, sc, err, k)
		}
		if err == nil {
			c.Class("standard")
			if err := describes(sc.GetAddress(), k, hash); err != nil {
				t.Fatalf("script %x: %v", s, err)
			}
		}
	})
	r.Run(t, "policy", 600, 20, "script hashes of m-of-n policies as addresses, invalid policies refused; non-trivial: at least two keys", func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(0, 22).Draw(t, "n")
		m := rapid.IntRange(-1, 23).Draw(t, "m")
		if rapid.Bool().Draw(t, "fit") && n > 0 {
			m = 1 + (m+1)%n
		}
		var pubs [][]byte
		for i := 0; i < n; i++ {
			pubs = append(pubs, append([]byte{2}, kit.Uniform(t, 32+32*rapid.IntRange(0, 1).Draw(t, "l"), "pub")...))
		}
		if n > 1 {
			c.Nontrivial(fmt.Sprint(m), bytes.Join(pubs, nil))
		}
		p := xcore.NewPayToMultiSigScript(m, pubs...)
		s, err := p.GetLockingScriptBytes()
		if bad := m < 1 || n > 20 || m > n; (err != nil) != bad {
			t.Fatalf("%d of %d: %v", m, n, err)
		} else if bad {
			if _, e := p.Hash160(); e == nil {
				t.Fatalf("hash160 of an invalid policy %d of %d", m, n)
			}
			if _, e := p.Sha256(); e == nil {
				t.Fatalf("sha256 of an invalid policy %d of %d", m, n)
			}
			c.Class("refused")
			return
		}
		want := ref.MultiSig(m, pubs...)
		h, e1 := p.Hash160()
		w, e2 := p.Sha256()
		if !bytes.Equal(s, want) || e1 != nil || e2 != nil || !bytes.Equal(h, ref.Hash160(want)) || !bytes.Equal(w, ref.Sha(want)) {
			t.Fatalf("%d of %d: script %x want %x, %x %x", m, n, s, want, h, w)
		}
	})
	r.Run(t, "length", 600, 10, "hashes of every length but the right one make no address; non-trivial: always", func(t *rapid.T, c *kit.Case) {
		kind := rapid.IntRange(1, 4).Draw(t, "kind")
		n := rapid.OneOf(rapid.IntRange(0, 70), rapid.SampledFrom([]int{19, 20, 21, 31, 32, 33})).Draw(t, "n")
		if kit.Uniform(t, 1, "toolong")[0] < 80 {
			n = hashLen(kind) + kit.Surplus(t, "surplus")
			c.Class("much-too-long")
		}
		if n == hashLen(kind) {
			n++
		}
		c.Nontrivial(kind, n)
		c.Sample("kind %d length %d", kind, n)
		var a xcore.Address
		kit.NoPanic(t, fmt.Sprintf("address %d of %d bytes", kind, n), func() { a = newAddr(kind, kit.BytesN(t, n, "hash")) })
		if a != nil {
			t.Fatalf("address of kind %d from %d bytes: %v", kind, n, a)
		}
	})
}
