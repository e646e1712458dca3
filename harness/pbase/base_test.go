package pbase

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"strings"
	"testing"

	"github.com/keyfuse/tokucore/xbase"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

func TestP01(t *testing.T) {
	r := kit.New(t, "P01")
	r.Run(t, "roundtrip", 20000, 20, "byte strings of 0..120 bytes (random, constant, zero-led, one-hot); non-trivial: at least 2 bytes, or a leading zero",
		func(t *rapid.T, c *kit.Case) {
			b := kit.Bytes(t, 0, 120, "b")
			if len(b) > 1 || (len(b) == 1 && b[0] == 0) {
				c.Nontrivial(b)
			}
			if len(b) > 0 && b[0] == 0 {
				c.Class("leading-zero")
			}
			c.Sample("%x", b)
			in, intact := kit.Spare(b)
			s := xbase.Base58Encode(in)
			if want := ref.Base58Enc(b); s != want {
				t.Fatalf("encode %x: got %q want %q", b, s, want)
			}
			if !intact() {
				t.Fatalf("encode changed its input %x", b)
			}
			if got := xbase.Base58Decode(s); !bytes.Equal(got, b) {
				t.Fatalf("decode(%q): got %x want %x", s, got, b)
			}
		})
	r.Run(t, "long", 200, 10, "byte strings of 120..2000 bytes; all non-trivial", func(t *rapid.T, c *kit.Case) {
		b := kit.Uniform(t, rapid.IntRange(120, 2000).Draw(t, "n"), "b")
		z := rapid.IntRange(0, 100).Draw(t, "z")
		for i := 0; i < z; i++ {
			b[i] = 0
		}
		c.Nontrivial(b)
		s := xbase.Base58Encode(b)
		if want := ref.Base58Enc(b); s != want {
			t.Fatalf("encode %x: got %q want %q", b, s, want)
		}
		if got := xbase.Base58Decode(s); !bytes.Equal(got, b) {
			t.Fatalf("decode(%q): got %x want %x", s, got, b)
		}
		// The same bytes under a checksum, then with one bit altered anywhere.
		v := byte(rapid.IntRange(0, 255).Draw(t, "version"))
		s = xbase.Base58CheckEncode(b, v)
		if want := ref.Base58CheckEnc(b, v); s != want {
			t.Fatalf("check-encode(%x,%d): got %q want %q", b, v, s, want)
		}
		if q, w, err := xbase.Base58CheckDecode(s); err != nil || w != v || !bytes.Equal(q, b) {
			t.Fatalf("check-decode(%q): %x,%d,%v want %x,%d", s, q, w, err, b, v)
		}
		d, _ := ref.Base58Dec(s)
		d[int(rapid.Uint64().Draw(t, "at")%uint64(len(d)))] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
		m := ref.Base58Enc(d)
		if gp, gv, err := xbase.Base58CheckDecode(m); err == nil || len(gp) != 0 {
			t.Fatalf("check-decode(%q) accepted: %x,%d,%v", m, gp, gv, err)
		}
	})
	r.Run(t, "decode-any", 20000, 20, "texts: alphabet strings, sometimes with one foreign character, or arbitrary bytes; non-trivial: non-empty",
		func(t *rapid.T, c *kit.Case) {
			var s string
			if rapid.IntRange(0, 3).Draw(t, "kind") == 0 {
				s = string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "raw"))
			} else {
				bs := rapid.SliceOfN(rapid.SampledFrom([]byte(ref.B58)), 0, 60).Draw(t, "txt")
				if z := rapid.IntRange(0, 6).Draw(t, "ones"); z > 3 {
					bs = append(bytes.Repeat([]byte("1"), z), bs...)
				}
				if len(bs) > 0 && rapid.Bool().Draw(t, "foreign") {
					bs[rapid.IntRange(0, len(bs)-1).Draw(t, "pos")] = rapid.OneOf(rapid.SampledFrom([]byte("0OIl +/\x00\xff\x80:;@[`{")), rapid.Byte()).Draw(t, "ch")
				}
				s = string(bs)
			}
			if s != "" {
				c.Nontrivial(s)
			}
			c.Sample("%q", s)
			want, ok := ref.Base58Dec(s)
			got := xbase.Base58Decode(s)
			if !ok {
				c.Class("foreign")
				if len(got) != 0 {
					t.Fatalf("decode(%q) = %x, want nothing", s, got)
				}
			} else if !bytes.Equal(got, want) {
				t.Fatalf("decode(%q): got %x want %x", s, got, want)
			}
		})
	r.Run(t, "check", 20000, 20, "payloads 0..90 bytes x version byte, then the text mutated; non-trivial: every case with a mutated text",
		func(t *rapid.T, c *kit.Case) {
			p := kit.Bytes(t, 0, 90, "payload")
			v := rapid.OneOf(rapid.SampledFrom([]byte{0, 5, 0x6f, 0xc4, 0x80, 0xef, 0xff}), rapid.Byte()).Draw(t, "version")
			in, intact := kit.Spare(p)
			s := xbase.Base58CheckEncode(in, v)
			if !intact() {
				t.Fatalf("check-encode changed its input")
			}
			if want := ref.Base58CheckEnc(p, v); s != want {
				t.Fatalf("check-encode(%x,%d): got %q want %q", p, v, s, want)
			}
			q, w, err := xbase.Base58CheckDecode(s)
			if err != nil || w != v || !bytes.Equal(q, p) {
				t.Fatalf("check-decode(%q): %x,%d,%v want %x,%d", s, q, w, err, p, v)
			}
			var m string
			switch rapid.IntRange(0, 2).Draw(t, "mut") {
			case 0: // character substitution
				bs := []byte(s)
				k := rapid.IntRange(1, 3).Draw(t, "subs")
				for i := 0; i < k; i++ {
					bs[rapid.IntRange(0, len(bs)-1).Draw(t, "pos")] = rapid.SampledFrom([]byte(ref.B58)).Draw(t, "ch")
				}
				m = string(bs)
			case 1: // alter decoded bytes incl. each checksum byte
				d, _ := ref.Base58Dec(s)
				d[len(d)-1-rapid.IntRange(0, min(len(d)-1, 8)).Draw(t, "back")] ^= byte(rapid.IntRange(1, 255).Draw(t, "x"))
				m = ref.Base58Enc(d)
			case 2:
				m = string(kit.Mutate(t, []byte(s), "m"))
			}
			c.Nontrivial(m)
			c.Sample("%q -> %q", s, m)
			wp, wv, ok := ref.Base58CheckDec(m)
			gp, gv, err := xbase.Base58CheckDecode(m)
			if ok {
				c.Class("still-valid")
				if err != nil || gv != wv || !bytes.Equal(gp, wp) {
					t.Fatalf("check-decode(%q): %x,%d,%v want %x,%d", m, gp, gv, err, wp, wv)
				}
			} else if err == nil || len(gp) != 0 {
				t.Fatalf("check-decode(%q) accepted: %x,%d,%v", m, gp, gv, err)
			}
		})
}

func genHrp(t *rapid.T) string {
	switch rapid.IntRange(0, 4).Draw(t, "hrpkind") {
	case 0:
		return "bc"
	case 1:
		return "tb"
	}
	n := rapid.IntRange(1, 20).Draw(t, "hrplen")
	b := make([]byte, n)
	for i := range b {
		x := byte(rapid.IntRange(33, 126).Draw(t, "hrpc"))
		if x >= 'A' && x <= 'Z' {
			x += 32
		}
		b[i] = x
	}
	return string(b)
}

func cmpBech(t *rapid.T, s string) bool {
	wh, wd, werr := ref.Bech32Dec(s)
	gh, gd, gerr := xbase.Bech32Decode(s)
	if (werr == nil) != (gerr == nil) {
		t.Fatalf("bech32 decode(%q): got err %v, BIP173 says %v", s, gerr, werr)
	}
	if werr == nil && (wh != gh || !bytes.Equal(wd, gd)) {
		t.Fatalf("bech32 decode(%q): got %q %x want %q %x", s, gh, gd, wh, wd)
	}
	wh, wv, wp, werr := ref.SegwitDec(s)
	gh2, gv, gp, gerr := xbase.WitnessDecode(s)
	if (werr == nil) != (gerr == nil) {
		t.Fatalf("segwit decode(%q): got err %v, BIP173 says %v", s, gerr, werr)
	}
	if werr == nil && (wh != gh2 || wv != gv || !bytes.Equal(wp, gp)) {
		t.Fatalf("segwit decode(%q): got %q %d %x want %q %d %x", s, gh2, gv, gp, wh, wv, wp)
	}
	return werr == nil
}

func TestP02(t *testing.T) {
	r := kit.New(t, "P02")
	r.Run(t, "bech32", 20000, 20, "hrp x 5-bit data fitting 90 characters, either case, then mutated; non-trivial: all",
		func(t *rapid.T, c *kit.Case) {
			hrp := genHrp(t)
			n := rapid.IntRange(0, 90-7-len(hrp)).Draw(t, "n")
			data := make([]byte, n)
			for i := range data {
				data[i] = byte(rapid.IntRange(0, 31).Draw(t, "d"))
			}
			in, intact := kit.Spare(data)
			s, err := xbase.Bech32Encode(hrp, in)
			want := ref.Bech32Enc(hrp, data)
			if err != nil || s != want {
				t.Fatalf("bech32 encode(%q,%x): %q,%v want %q", hrp, data, s, err, want)
			}
			if !intact() {
				t.Fatalf("bech32 encode(%q,%x) wrote behind its input", hrp, data)
			}
			if rapid.Bool().Draw(t, "upper") {
				s = strings.ToUpper(s)
				c.Class("upper")
			}
			c.Nontrivial(s)
			c.Sample("%s", s)
			h, d, err := xbase.Bech32Decode(s)
			if err != nil || h != hrp || !bytes.Equal(d, data) {
				t.Fatalf("bech32 decode(%q): %q %x %v", s, h, d, err)
			}
			cmpBech(t, s)
			// up to four substitutions in the data part are always detected
			bs := []byte(s)
			p := strings.LastIndexByte(s, '1')
			k := rapid.IntRange(1, 4).Draw(t, "errs")
			for i := 0; i < k; i++ {
				ch := rapid.SampledFrom([]byte(ref.Charset32)).Draw(t, "ch")
				if bytes.ContainsAny(bs, "ABCDEFGHIJKLMNOPQRSTUVWXYZ") {
					ch = strings.ToUpper(string(ch))[0]
				}
				bs[rapid.IntRange(p+1, len(bs)-1).Draw(t, "pos")] = ch
			}
			if string(bs) != s {
				if _, _, err := xbase.Bech32Decode(string(bs)); err == nil {
					t.Fatalf("bech32 accepted %q, %d errors away from %q", bs, k, s)
				}
			}
			cmpBech(t, string(kit.Mutate(t, []byte(s), "m")))
			// flip the case of one letter
			bs = []byte(s)
			q := rapid.IntRange(0, len(bs)-1).Draw(t, "casepos")
			if bs[q] >= 'a' && bs[q] <= 'z' || bs[q] >= 'A' && bs[q] <= 'Z' {
				bs[q] ^= 32
				c.Class("case-flip")
				cmpBech(t, string(bs))
			}
		})
	r.Run(t, "bad-encode", 500, 10, "data with a value above 31 must be refused by the encoder; non-trivial: all", func(t *rapid.T, c *kit.Case) {
		data := rapid.SliceOfN(rapid.Byte(), 1, 40).Draw(t, "d")
		data[rapid.IntRange(0, len(data)-1).Draw(t, "p")] |= 0x20 << rapid.IntRange(0, 2).Draw(t, "b")
		c.Nontrivial(data)
		if s, err := xbase.Bech32Encode("bc", data); err == nil {
			t.Fatalf("bech32 encode of %x gave %q", data, s)
		}
	})
	r.Run(t, "checksum-valid", 30000, 20, "texts with a correct checksum over arbitrary 5-bit data (any first value, any length, arbitrary padding, over-long) and prefixes of legal and of any other characters; non-trivial: all",
		func(t *rapid.T, c *kit.Case) {
			hrp := genHrp(t)
			if rapid.IntRange(0, 3).Draw(t, "odd") == 0 { // characters at and outside the limits, separators, capitals
				b := []byte(hrp)
				for i := rapid.IntRange(1, 3).Draw(t, "odds"); i > 0; i-- {
					b[rapid.IntRange(0, len(b)-1).Draw(t, "at")] = rapid.OneOf(rapid.SampledFrom([]byte{0, 1, 9, 10, 31, 32, 33, 126, 127, 128, 255, '1', 'A', 'Z'}), rapid.Byte()).Draw(t, "char")
				}
				if rapid.IntRange(0, 5).Draw(t, "none") == 0 {
					b = nil
				}
				hrp = string(b)
				c.Class("odd-prefix")
			}
			n := rapid.IntRange(0, 75).Draw(t, "n")
			if kit.Uniform(t, 1, "toolong")[0] < 12 { // a text of a permitted length and 256 or 512 more
				n = 256*rapid.IntRange(1, 2).Draw(t, "times") + rapid.SampledFrom([]int{0, 1, 20, 33, 53, 70}).Draw(t, "rest")
				c.Class("much-too-long")
			}
			data := make([]byte, n)
			for i := range data {
				data[i] = byte(rapid.IntRange(0, 31).Draw(t, "d"))
			}
			if n > 0 && rapid.Bool().Draw(t, "lowver") {
				data[0] = byte(rapid.IntRange(0, 17).Draw(t, "ver"))
			}
			s := ref.Bech32Enc(hrp, data)
			c.Nontrivial(s)
			c.Sample("%s", s)
			if cmpBech(t, s) {
				c.Class("valid-segwit")
			}
		})
	r.Run(t, "segwit", 20000, 20, "witness version 0..17 x program of 0..42 bytes through encode and decode, padding bits altered; non-trivial: program of legal size",
		func(t *rapid.T, c *kit.Case) {
			hrp := rapid.SampledFrom([]string{"bc", "tb"}).Draw(t, "hrp")
			ver := byte(rapid.IntRange(0, 16).Draw(t, "ver"))
			var prog []byte
			if rapid.Bool().Draw(t, "std") {
				prog = kit.BytesN(t, rapid.SampledFrom([]int{20, 32}).Draw(t, "sz"), "prog")
			} else {
				prog = kit.Bytes(t, 0, 42, "prog")
			}
			legal := len(prog) >= 2 && len(prog) <= 40 && (ver > 0 || len(prog) == 20 || len(prog) == 32)
			want := ref.SegwitEnc(hrp, ver, prog)
			if legal {
				c.Nontrivial(want)
				c.Sample("v%d %x", ver, prog)
				in, intact := kit.Spare(prog)
				s, err := xbase.WitnessEncode(hrp, ver, in)
				if err != nil || s != want || !intact() {
					t.Fatalf("segwit encode v%d %x: %q %v want %q (input intact %v)", ver, prog, s, err, want, intact())
				}
			} else {
				c.Class("illegal")
			}
			cmpBech(t, want)
			cmpBech(t, strings.ToUpper(want))
			// set padding bits / add a zero group with a fresh checksum
			g := append([]byte{ver}, ref.To5(prog)...)
			g[len(g)-1] ^= byte(rapid.IntRange(1, 31).Draw(t, "pad"))
			cmpBech(t, ref.Bech32Enc(hrp, g))
			cmpBech(t, ref.Bech32Enc(hrp, append(append([]byte{ver}, ref.To5(prog)...), 0)))
		})
}

// ---- P03 ----

type wr struct {
	kind int
	v    uint64
	b    []byte
}

func (w wr) String() string { return fmt.Sprintf("{%d %d %d bytes}", w.kind, w.v, len(w.b)) }

func le(v uint64, n int) []byte {
	var b []byte
	for i := 0; i < n; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

func varint(v uint64) []byte {
	switch {
	case v < 253:
		return []byte{byte(v)}
	case v < 1<<16:
		return append([]byte{253}, le(v, 2)...)
	case v < 1<<32:
		return append([]byte{254}, le(v, 4)...)
	}
	return append([]byte{255}, le(v, 8)...)
}

func genU64(t *rapid.T, label string) uint64 {
	return rapid.OneOf(rapid.Uint64(), rapid.SampledFrom([]uint64{0, 1, 252, 253, 254, 255, 256, 65534, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}),
		rapid.Custom(func(t *rapid.T) uint64 {
			return uint64(1)<<rapid.IntRange(0, 63).Draw(t, "sh") + uint64(rapid.IntRange(-2, 2).Draw(t, "d"))
		})).Draw(t, label)
}

func TestP03(t *testing.T) {
	r := kit.New(t, "P03")
	r.Run(t, "sequence", 10000, 20, "sequences of 1..12 writes of all kinds, read back in order; non-trivial: at least two different kinds",
		func(t *rapid.T, c *kit.Case) {
			n := rapid.IntRange(1, 12).Draw(t, "n")
			var ws []wr
			buf := xbase.NewBuffer()
			var want []byte
			kinds := map[int]bool{}
			for i := 0; i < n; i++ {
				w := wr{kind: rapid.IntRange(0, 7).Draw(t, "kind")}
				kinds[w.kind] = true
				switch w.kind {
				case 0:
					w.v = uint64(rapid.Byte().Draw(t, "v"))
					buf.WriteU8(uint8(w.v))
					want = append(want, byte(w.v))
				case 1:
					w.v = genU64(t, "v") & 0xffff
					buf.WriteU16(uint32(w.v))
					want = append(want, le(w.v, 2)...)
				case 2:
					w.v = genU64(t, "v") & 0xffffffff
					buf.WriteU32(uint32(w.v))
					want = append(want, le(w.v, 4)...)
				case 3:
					w.v = genU64(t, "v")
					buf.WriteU64(w.v)
					want = append(want, le(w.v, 8)...)
				case 4:
					w.v = genU64(t, "v")
					buf.WriteVarInt(w.v)
					e := varint(w.v)
					if xbase.VarIntSerializeSize(w.v) != len(e) {
						t.Fatalf("VarIntSerializeSize(%d)=%d, encoding has %d bytes", w.v, xbase.VarIntSerializeSize(w.v), len(e))
					}
					want = append(want, e...)
				case 5, 6, 7:
					size := rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{252, 253, 254, 255, 256, 257}), rapid.IntRange(0, 700)).Draw(t, "size")
					if rapid.IntRange(0, 60).Draw(t, "big") == 0 {
						size = rapid.SampledFrom([]int{65535, 65536, 65537, 70001, 100000, 131072, 300001}).Draw(t, "bigsize")
						c.Class("long")
					}
					w.b = kit.Uniform(t, size, "b")
					in, intact := kit.Spare(w.b)
					switch w.kind {
					case 5:
						buf.WriteBytes(in)
					case 6:
						buf.WriteVarBytes(in)
						want = append(want, varint(uint64(size))...)
					case 7:
						buf.WriteVarString(string(w.b))
						want = append(want, varint(uint64(size))...)
					}
					want = append(want, w.b...)
					if !intact() {
						t.Fatalf("write changed its input")
					}
				}
				ws = append(ws, w)
			}
			if len(kinds) > 1 {
				c.Nontrivial(want)
			}
			c.Sample("%v", ws)
			if !bytes.Equal(buf.Bytes(), want) {
				t.Fatalf("writes %v gave %x want %x", ws, buf.Bytes(), want)
			}
			if buf.Len() != len(want) {
				t.Fatalf("Len %d want %d", buf.Len(), len(want))
			}
			in, intact := kit.Spare(want)
			rd := xbase.NewBufferReader(in)
			same := buf // the written buffer can be read as well
			for _, b := range []*xbase.Buffer{rd, same} {
				var held [][]byte
				var hwant [][]byte
				pos := 0
				for i, w := range ws {
					var v uint64
					var d []byte
					var err error
					sz := 0
					switch w.kind {
					case 0:
						var x uint8
						x, err = b.ReadU8()
						v, sz = uint64(x), 1
					case 1:
						var x uint32
						x, err = b.ReadU16()
						v, sz = uint64(x), 2
					case 2:
						var x uint32
						x, err = b.ReadU32()
						v, sz = uint64(x), 4
					case 3:
						v, err = b.ReadU64()
						sz = 8
					case 4:
						v, err = b.ReadVarInt()
						sz = len(varint(w.v))
					case 5:
						d, err = b.ReadBytes(len(w.b))
						sz = len(w.b)
					case 6:
						d, err = b.ReadVarBytes()
						sz = len(w.b) + len(varint(uint64(len(w.b))))
					case 7:
						var s string
						s, err = b.ReadVarString()
						d = []byte(s)
						sz = len(w.b) + len(varint(uint64(len(w.b))))
					}
					pos += sz
					if err != nil || v != w.v || !bytes.Equal(d, w.b) {
						t.Fatalf("item %d %v read back as %d %x (%v)", i, w, v, d, err)
					}
					if b.Seek() != pos || b.End() != (pos == len(want)) || !bytes.Equal(b.Remaining(), want[pos:]) {
						t.Fatalf("position after item %d: seek %d end %v, want %d of %d", i, b.Seek(), b.End(), pos, len(want))
					}
					held = append(held, d)
					hwant = append(hwant, append([]byte{}, w.b...))
				}
				for i := range held { // writing into one result must not alter the source or another result
					for j := range held[i] {
						held[i][j] ^= 0xff
					}
				}
				_ = hwant
			}
			if !intact() {
				t.Fatalf("values read alias the source buffer")
			}
		})
	r.Run(t, "hostile", 40000, 20, "arbitrary bytes (often a varint prefix claiming any length) and a random series of reads with arbitrary lengths, with writes and resets between them, against a model; non-trivial: some read must fail",
		func(t *rapid.T, c *kit.Case) {
			var data []byte
			k := rapid.IntRange(0, 3).Draw(t, "parts")
			for i := 0; i < k; i++ {
				if v := genU64(t, "claim"); rapid.IntRange(0, 3).Draw(t, "wide") == 0 { // in any form that holds it
					if rapid.Bool().Draw(t, "edge") {
						v = rapid.SampledFrom([]uint64{0, 1, 251, 252, 253, 254, 255, 65534, 65535, 65536, 1<<32 - 2, 1<<32 - 1, 1 << 32}).Draw(t, "edgev")
					}
					for f := rapid.IntRange(0, 2).Draw(t, "form"); f < 3; f++ {
						if n := 2 << f; n == 8 || v < 1<<(8*n) {
							data = append(data, byte(253+f))
							for j := 0; j < n; j++ {
								data = append(data, byte(v>>(8*j)))
							}
							break
						}
					}
				} else {
					data = append(data, varint(v)...)
				}
				data = append(data, kit.Bytes(t, 0, 12, "tail")...)
			}
			if kit.Uniform(t, 1, "bulk")[0] < 3 { // much, but less than promised, or just that
				size := rapid.SampledFrom([]int{4000, 32768, 65535, 65536, 66000, 140000}).Draw(t, "bulksize")
				short := rapid.SampledFrom([]int{0, 1, 1, 2, 100, 3000}).Draw(t, "short")
				data = append(varint(uint64(size)), kit.Uniform(t, size-short, "bulkdata")...)
			}
			if len(data) > 0 && rapid.Bool().Draw(t, "cut") {
				data = data[:rapid.IntRange(0, len(data)).Draw(t, "at")]
			}
			b := xbase.NewBufferReader(data)
			pos := 0
			failed := false
			ops := rapid.IntRange(1, 8).Draw(t, "ops")
			var log []string
			for i := 0; i < ops; i++ {
				op := rapid.IntRange(0, 10).Draw(t, "op")
				before := pos
				if op > 7 { // more is written, or everything taken back
					more := kit.Uniform(t, rapid.IntRange(0, 6).Draw(t, "n"), "more")
					switch op {
					case 8:
						b.WriteBytes(more)
						data = append(data[:len(data):len(data)], more...)
					case 9:
						v := genU64(t, "written")
						b.WriteVarInt(v)
						data = append(data[:len(data):len(data)], varint(v)...)
					case 10:
						if rapid.Bool().Draw(t, "all") {
							b.Reset()
							data, pos = nil, 0
						} else {
							b.WriteVarBytes(more)
							data = append(append(data[:len(data):len(data)], byte(len(more))), more...)
						}
					}
					log = append(log, fmt.Sprintf("op%d(%x)", op, more))
					if b.Seek() != pos || b.Len() != len(data) || b.End() != (pos == len(data)) || !bytes.Equal(b.Bytes(), data) || !bytes.Equal(b.Remaining(), data[pos:]) {
						t.Fatalf("%v: seek %d, length %d, end %v, bytes %x, remaining %x, want %x at %d", log, b.Seek(), b.Len(), b.End(), b.Bytes(), b.Remaining(), data, pos)
					}
					continue
				}
				need := func(n uint64) ([]byte, bool) {
					if n > uint64(len(data)-pos) {
						return nil, false
					}
					x := data[pos : pos+int(n)]
					pos += int(n)
					return x, true
				}
				num := func(x []byte) (v uint64) {
					for i := len(x) - 1; i >= 0; i-- {
						v = v<<8 | uint64(x[i])
					}
					return
				}
				vi := func() (uint64, bool) {
					x, ok := need(1)
					if !ok {
						return 0, false
					}
					if x[0] < 253 {
						return uint64(x[0]), true
					}
					y, ok := need(uint64(2) << (x[0] - 253))
					if !ok || len(varint(num(y))) != 1+len(y) {
						return 0, false // missing, or not in canonical form
					}
					return num(y), ok
				}
				var got, want []byte
				var gv, wv uint64
				var err error
				ok := true
				l := int(int64(genU64(t, "len")))
				if rapid.Bool().Draw(t, "smalllen") {
					l = rapid.IntRange(0, 12).Draw(t, "len2")
				}
				alloc := kit.AllocBytes(func() {
					kit.NoPanic(t, fmt.Sprintf("read op %d len %d on %x at %d", op, l, data, before), func() {
						switch op {
						case 0:
							var x uint8
							x, err = b.ReadU8()
							gv = uint64(x)
						case 1:
							var x uint32
							x, err = b.ReadU16()
							gv = uint64(x)
						case 2:
							var x uint32
							x, err = b.ReadU32()
							gv = uint64(x)
						case 3:
							gv, err = b.ReadU64()
						case 4:
							gv, err = b.ReadVarInt()
						case 5:
							got, err = b.ReadBytes(l)
						case 6:
							got, err = b.ReadVarBytes()
						case 7:
							var s string
							s, err = b.ReadVarString()
							got = []byte(s)
						}
					})
				})
				var x []byte
				switch op {
				case 0, 1, 2, 3:
					x, ok = need(uint64(1) << op)
					wv = num(x)
				case 4:
					wv, ok = vi()
				case 5:
					if l < 0 {
						ok = false
					} else {
						want, ok = need(uint64(l))
					}
				default:
					var n uint64
					if n, ok = vi(); ok {
						want, ok = need(n)
					}
				}
				log = append(log, fmt.Sprintf("op%d(%d)", op, l))
				if alloc > uint64(64*len(data)+16384) {
					t.Fatalf("%v on %x allocated %d bytes", log, data, alloc)
				}
				if (err == nil) != ok {
					t.Fatalf("%v on %x at %d: err %v, data suffices: %v", log, data, before, err, ok)
				}
				if !ok {
					failed = true
					at := b.Seek()
					if op <= 3 || op == 5 { // nothing of a number or of a block that is not all there is taken
						if at != before {
							t.Fatalf("%v on %x at %d failed and left the position at %d", log, data, before, at)
						}
					} else if at < before || at > len(data) { // the length in front may have been taken
						t.Fatalf("%v on %x at %d failed and left the position at %d", log, data, before, at)
					}
					pos = at
					continue
				}
				if gv != wv || !bytes.Equal(got, want) || b.Seek() != pos {
					t.Fatalf("%v on %x at %d: got %d %x seek %d, want %d %x seek %d", log, data, before, gv, got, b.Seek(), wv, want, pos)
				}
			}
			if b.Len() != len(data) || b.End() != (b.Seek() == len(data)) || !bytes.Equal(b.Bytes(), data) {
				t.Fatalf("%v on %x: at %d, length %d, end %v, bytes %x", log, data, b.Seek(), b.Len(), b.End(), b.Bytes())
			}
			if b.Seek() < 0 || b.Seek() > len(data) {
				t.Fatalf("%v on %x: position %d outside the data", log, data, b.Seek())
			}
			kit.NoPanic(t, "Remaining", func() { b.Remaining() })
			if failed {
				c.Nontrivial(data, log)
			}
			c.Sample("%x %v", data, log)
		})
	r.Run(t, "id", 1500, 10, "identifier texts and hashes: byte reversal both ways, bad hex refused; non-trivial: at least 2 bytes", func(t *rapid.T, c *kit.Case) {
		h := kit.Bytes(t, 0, 40, "h")
		in, intact := kit.Spare(h)
		s := xbase.NewIDToString(in)
		rev := make([]byte, len(h))
		for i := range h {
			rev[len(h)-1-i] = h[i]
		}
		if s != hex.EncodeToString(rev) || !intact() {
			t.Fatalf("id text of %x is %q", h, s)
		}
		if len(h) > 1 {
			c.Nontrivial(h)
		}
		g, err := xbase.NewIDFromString(s)
		if err != nil || !bytes.Equal(g, h) {
			t.Fatalf("id %q parsed to %x %v", s, g, err)
		}
		bad := string(kit.Mutate(t, []byte(s), "m"))
		_, herr := hex.DecodeString(bad)
		if _, err := xbase.NewIDFromString(bad); (err == nil) != (herr == nil) {
			t.Fatalf("id %q: err %v, hex err %v", bad, err, herr)
		}
	})
}
