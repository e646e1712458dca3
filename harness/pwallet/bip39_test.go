package pwallet

import (
	"bytes"
	"crypto/pbkdf2"
	"crypto/sha512"
	"fmt"
	"hash/crc32"
	"math/big"
	"strconv"
	"strings"
	"testing"
	"unicode"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/xcore/bip39"
	"github.com/keyfuse/tokucore/xcore/bip39/words"

	"verif/kit"
	"verif/ref"
)

type lang struct {
	name string
	list []string
	crc  uint32 // of the published list, each word ending in \n
	id   bip39.Wordlists
}

var langs = []lang{
	{"english", words.English, 0xc1dbd296, bip39.ENGLISH},
	{"chinese", words.Chinese, 0xe3721bbf, bip39.CHINESE},
	{"japanese", words.Japanese, 0x0acc1419, bip39.JAPANESE},
}

func bitsOf(entropy []byte) string {
	s := ""
	for _, b := range entropy {
		s += fmt.Sprintf("%08b", b)
	}
	sum := ""
	for _, b := range ref.Sha(entropy)[:16] {
		sum += fmt.Sprintf("%08b", b)
	}
	return s + sum[:len(entropy)/4]
}

// refMnemonic gives the BIP39 sentence of an entropy of permitted size.
func refMnemonic(l lang, entropy []byte) []string {
	s := bitsOf(entropy)
	var out []string
	for ; s != ""; s = s[11:] {
		i := 0
		for _, ch := range s[:11] {
			i = i*2 + int(ch-'0')
		}
		out = append(out, l.list[i])
	}
	return out
}

// refEntropy reads a sentence; nil when it is not a BIP39 sentence.
func refEntropy(l lang, sentence []string) []byte {
	n := len(sentence)
	if n%3 != 0 || n < 12 || n > 24 {
		return nil
	}
	s := ""
	for _, w := range sentence {
		at := -1
		for i, x := range l.list {
			if x == w {
				at = i
			}
		}
		if at < 0 {
			return nil
		}
		s += fmt.Sprintf("%011b", at)
	}
	e := make([]byte, n/3*4)
	for i := range e {
		for j := 0; j < 8; j++ {
			e[i] = e[i]*2 + s[i*8+j] - '0'
		}
	}
	if bitsOf(e) != s {
		return nil
	}
	return e
}

func refSeed(sentence, pass string) []byte {
	k, err := pbkdf2.Key(sha512.New, sentence, []byte("mnemonic"+pass), 2048, 64)
	if err != nil {
		panic(err)
	}
	return k
}

// composed characters and their NFKD forms
var composed = map[rune]string{'\u00e9': "e\u0301", '\u00c5': "A\u030a", '\ufb01': "fi", '\u2460': "1", '\uff21': "A", '\u304c': "\u304b\u3099", '\uac00': "\u1100\u1161", '\u00f1': "n\u0303", '\u3000': " ", '\u00b2': "2"}

// passphrase draws UTF-8 text; the second result is its NFKD form.
func passphrase(t *rapid.T) (string, string) {
	stable := []rune("aZ09 ~!\t\n\x00\x7f" + "жЩя" + "λΩ" + "漢字一龥" + "かあん" + "שלום" + "🔑🐳" + "ß¡€†√")
	var s, n strings.Builder
	k := rapid.IntRange(0, 12).Draw(t, "pass.n")
	if rapid.IntRange(0, 9).Draw(t, "pass.long") == 0 {
		k = rapid.IntRange(100, 200).Draw(t, "pass.n")
	}
	comp := rapid.IntRange(0, 9).Draw(t, "pass.composed") == 0
	keys := []rune("\u00e9\u00c5\ufb01\u2460\uff21\u304c\uac00\u00f1\u3000\u00b2")
	for i := 0; i < k; i++ {
		if comp && rapid.IntRange(0, 3).Draw(t, "pass.c") == 0 {
			r := rapid.SampledFrom(keys).Draw(t, "pass.r")
			s.WriteRune(r)
			n.WriteString(composed[r])
			continue
		}
		r := rapid.SampledFrom(stable).Draw(t, "pass.r")
		s.WriteRune(r)
		n.WriteRune(r)
	}
	return s.String(), n.String()
}

// judge compares every operation on a sentence text with the reference; entropy nil: not a sentence.
// In spaced texts the words are not separated by single spaces: the operations need only agree.
func judge(t *rapid.T, c *kit.Case, l lang, text string, entropy []byte, single bool, seed bool) bool {
	what := fmt.Sprintf("%s %q", l.name, text)
	var valid bool
	var e1, e2, e3, sd []byte
	var err1, err2, err3, err4 error
	pass := "p"
	norm := "p"
	if seed {
		pass, norm = passphrase(t)
	}
	kit.NoPanic(t, what, func() {
		valid = bip39.IsMnemonicValid(text)
		e1, err1 = bip39.EntropyFromMnemonic(text)
		e2, err2 = bip39.MnemonicToByteArray(text, true)
		e3, err3 = bip39.MnemonicToByteArray(text)
		if e, err := bip39.MnemonicToByteArray(text, false); !bytes.Equal(e, e3) || (err == nil) != (err3 == nil) {
			t.Fatalf("%s: MnemonicToByteArray not raw %x (%v), by default %x (%v)", what, e, err, e3, err3)
		}
		if seed || entropy == nil {
			sd, err4 = bip39.NewSeedWithErrorChecking(text, pass)
		} else {
			err4 = err3
		}
	})
	if (err1 == nil) != valid || (err2 == nil) != valid || (err3 == nil) != valid || (err4 == nil) != valid {
		t.Fatalf("%s: valid %v, EntropyFromMnemonic %v, MnemonicToByteArray raw %v, not raw %v, NewSeedWithErrorChecking %v", what, valid, err1, err2, err3, err4)
	}
	if entropy == nil && valid {
		t.Fatalf("%s is judged valid, entropy %x", what, e1)
	}
	if !valid {
		if single && entropy != nil {
			t.Fatalf("%s of entropy %x is judged invalid: %v", what, entropy, err1)
		}
		if len(e1)+len(e2)+len(e3)+len(sd) != 0 {
			t.Fatalf("%s: refused with %x %x %x %x", what, e1, e2, e3, sd)
		}
		return false
	}
	if !bytes.Equal(e1, entropy) {
		t.Fatalf("%s: EntropyFromMnemonic %x, want %x", what, e1, entropy)
	}
	if !bytes.Equal(e2, entropy) {
		t.Fatalf("%s: MnemonicToByteArray raw %x, want %x", what, e2, entropy)
	}
	v, _ := new(big.Int).SetString(bitsOf(entropy), 2)
	if w := v.FillBytes(make([]byte, len(entropy)+1)); !bytes.Equal(e3, w) {
		t.Fatalf("%s: MnemonicToByteArray %x, want %x", what, e3, w)
	}
	if seed {
		sentence := strings.Join(refMnemonic(l, entropy), " ")
		w := refSeed(sentence, norm)
		ok := func(b []byte) bool {
			if norm != pass && bytes.Equal(b, refSeed(sentence, pass)) {
				c.Excluded("passphrase not in NFKD form")
				return true
			}
			return bytes.Equal(b, w)
		}
		if !ok(sd) {
			t.Fatalf("%s passphrase %q: NewSeedWithErrorChecking %x, want %x", what, pass, sd, w)
		}
		if g := bip39.NewSeed(sentence, pass); !ok(g) {
			t.Fatalf("%s passphrase %q: NewSeed %x, want %x", what, pass, g, w)
		}
	}
	return true
}

func TestP10(t *testing.T) {
	r := kit.New(t, "P10", "the word lists are compared to the published ones by their CRC-32", "sentences with other than single spaces may be refused, if all operations do", "known finding: passphrases not in NFKD form are used as they are")
	defer bip39.SetWordList(words.English)
	pick := func(t *rapid.T) lang {
		l := langs[rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "lang")]
		bip39.SetWordList(l.list)
		return l
	}

	r.Run(t, "lists", 3, 1, "the three word lists; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		for _, l := range langs {
			if len(l.list) != 2048 || crc32.ChecksumIEEE([]byte(strings.Join(l.list, "\n")+"\n")) != l.crc {
				t.Fatalf("the %s word list is not the published one", l.name)
			}
		}
		l := pick(t)
		i := rapid.IntRange(0, 2047).Draw(t, "i")
		if at, ok := bip39.GetWordIndex(l.list[i]); !ok || at != i {
			t.Fatalf("GetWordIndex(%q) = %d, %v, want %d", l.list[i], at, ok, i)
		}
		if at, ok := bip39.GetWordIndex("no such word"); ok {
			t.Fatalf("GetWordIndex finds a missing word at %d", at)
		}
		if g := bip39.GetWordList(); len(g) != 2048 || g[i] != l.list[i] {
			t.Fatalf("GetWordList differs from the list set")
		}
		c.Nontrivial(l.name, i)
	})

	r.Run(t, "entropies", 1500, 30, "entropies of permitted sizes, uniform, sparse or with leading zero bytes, to sentences and back; in one of three, seeds with passphrases; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		l := pick(t)
		n := rapid.IntRange(4, 8).Draw(t, "words32") * 4
		e := kit.BytesN(t, n, "entropy")
		if rapid.Bool().Draw(t, "uniform") {
			e = kit.Uniform(t, n, "entropy")
		}
		sp, clean := kit.Spare(e)
		text, err := bip39.NewMnemonic(sp)
		w := strings.Join(refMnemonic(l, e), " ")
		if err != nil || text != w {
			t.Fatalf("NewMnemonic(%x) = %q, %v, want %q", e, text, err, w)
		}
		if !clean() {
			t.Fatalf("NewMnemonic changed its entropy")
		}
		judge(t, c, l, text, e, true, rapid.IntRange(0, 2).Draw(t, "seed") == 0)
		c.Nontrivial(l.name, e)
		c.Sample("%x -> %s", e, text)
	})

	r.Run(t, "sizes", 600, 10, "entropies of any size from 0 to 70 bytes; non-trivial: the size is not permitted", func(t *rapid.T, c *kit.Case) {
		l := pick(t)
		n := rapid.IntRange(0, 70).Draw(t, "n")
		e := kit.Uniform(t, n, "entropy")
		ok := n >= 16 && n <= 32 && n%4 == 0
		var text string
		var err error
		kit.NoPanic(t, fmt.Sprintf("NewMnemonic of %d bytes", n), func() { text, err = bip39.NewMnemonic(e) })
		if (err == nil) != ok || (err != nil && text != "") {
			t.Fatalf("NewMnemonic of %d bytes (%x, %s) = %q, %v", n, e, l.name, text, err)
		}
		bits := rapid.SampledFrom([]int{n, n * 8, -n, n*8 + 4, n * 32}).Draw(t, "bits")
		var g []byte
		kit.NoPanic(t, fmt.Sprintf("NewEntropy(%d)", bits), func() { g, err = bip39.NewEntropy(bits) })
		bok := bits >= 128 && bits <= 256 && bits%32 == 0
		if (err == nil) != bok || (bok && len(g) != bits/8) {
			t.Fatalf("NewEntropy(%d) = %x, %v", bits, g, err)
		}
		if !ok {
			c.Nontrivial(n, bits)
		}
		c.Sample("%d bytes, %d bits", n, bits)
	})

	r.Run(t, "sentences", 3000, 40, "sentences with words swapped, replaced, dropped, repeated, added or misspelt, with random words, in another list, or spaced otherwise; non-trivial: not the untouched sentence", func(t *rapid.T, c *kit.Case) {
		l := pick(t)
		n := rapid.IntRange(4, 8).Draw(t, "words32") * 4
		ws := refMnemonic(l, kit.BytesN(t, n, "entropy"))
		orig := strings.Join(ws, " ")
		single, unknown := true, false
		sep := " "
		lead, trail := "", ""
		kind := rapid.IntRange(0, 9).Draw(t, "kind")
		if kit.Uniform(t, 1, "size")[0] < 20 {
			kind = 10
		}
		at := rapid.IntRange(0, len(ws)-1).Draw(t, "at")
		switch kind {
		case 0:
			at2 := rapid.IntRange(0, len(ws)-1).Draw(t, "at2")
			ws[at], ws[at2] = ws[at2], ws[at]
		case 1: // another word: now and then the checksum is right again
			ws[at] = l.list[rapid.IntRange(0, 2047).Draw(t, "w")]
		case 2: // the last word: one of 2^(11-checksum) is right
			if rapid.Bool().Draw(t, "bit") { // one or more bits of the checksum alone
				for i, w := range l.list {
					if w == ws[len(ws)-1] {
						ws[len(ws)-1] = l.list[i^rapid.OneOf(rapid.SampledFrom([]int{1, 2, 4, 8, 16, 32, 64, 128}), rapid.IntRange(1, 255)).Draw(t, "mask")%(1<<(n/4))]
						break
					}
				}
				break
			}
			ws[len(ws)-1] = l.list[rapid.IntRange(0, 2047).Draw(t, "w")]
		case 3:
			ws = append(ws[:at:at], ws[at+1:]...)
			if rapid.Bool().Draw(t, "three") {
				ws = ws[:max(0, len(ws)-2)]
			}
		case 4:
			for i := rapid.SampledFrom([]int{1, 2, 3, 6, 12, 24}).Draw(t, "more"); i > 0; i-- {
				ws = append(ws, l.list[rapid.IntRange(0, 2047).Draw(t, "w")])
			}
		case 5: // misspelt
			w := ws[at]
			ws[at] = rapid.SampledFrom([]string{strings.ToUpper(w), strings.ToUpper(w[:1]) + w[1:], w + "x", w + ",", w[:len(w)-1], "" + w + "\x00", "x" + w, "\u200b" + w, "qwerty", "1", "0"}).Draw(t, "bad")
		case 6: // random words of any count
			k := rapid.IntRange(0, 30).Draw(t, "count")
			if kit.Uniform(t, 1, "many")[0] < 64 {
				k = rapid.SampledFrom([]int{33, 36, 48, 60, 72, 96, 192, 255, 258, 268, 280}).Draw(t, "k")
			}
			ws = nil
			for i := 0; i < k; i++ {
				ws = append(ws, l.list[rapid.IntRange(0, 2047).Draw(t, "w")])
			}
		case 7: // other list
			o := langs[rapid.IntRange(0, 2).Draw(t, "other")]
			for i := range ws {
				if rapid.IntRange(0, 3).Draw(t, "swap") == 0 {
					ws[i] = o.list[rapid.IntRange(0, 2047).Draw(t, "w")]
				}
			}
		case 8:
			single = false
			sep = rapid.SampledFrom([]string{"  ", "\t", "\n", "\r\n", "\u3000", " \t ", "\u00a0", "\u2003"}).Draw(t, "sep")
			if rapid.Bool().Draw(t, "ends") {
				sep = " "
				lead = rapid.SampledFrom([]string{"", " ", "\n", "\u3000"}).Draw(t, "lead")
				trail = rapid.SampledFrom([]string{" ", "\n", "\u3000", "\r\n"}).Draw(t, "trail")
			}
		case 10: // what the standard would give, were it extended to other sizes
			e := kit.BytesN(t, 4*rapid.SampledFrom([]int{1, 2, 3, 9, 10, 12, 15, 16, 16, 20, 24, 32}).Draw(t, "units"), "e")
			ws = refMnemonic(l, e)
			if sum := bitsOf(e); len(e) > 32 && rapid.Bool().Draw(t, "short") { // with the first checksum byte alone
				if n := len(e)/4 - 8; n < 11 {
					i, _ := strconv.ParseInt(sum[len(sum)-11:], 2, 16)
					ws[len(ws)-1] = l.list[int(i)>>n<<n]
				}
			}
			c.Class("other-size")
		case 9: // separators that do not separate
			sep = rapid.SampledFrom([]string{"", ",", ", ", "-", "\u200b", "\x00", "+"}).Draw(t, "sep")
			unknown = true
		}
		text := lead + strings.Join(ws, sep) + trail
		if rapid.IntRange(0, 40).Draw(t, "mixed") == 0 && len(ws) > 1 { // one separator doubled
			text = strings.Join(ws[:1], sep) + " " + sep + strings.Join(ws[1:], sep)
			single = false
		}
		var e []byte
		if unknown {
			e = refEntropy(l, strings.FieldsFunc(text, unicode.IsSpace))
		} else {
			e = refEntropy(l, ws)
		}
		if judge(t, c, l, text, e, single, e != nil && rapid.IntRange(0, 3).Draw(t, "seed") == 0) {
			c.Class("valid")
		} else {
			c.Class("invalid")
		}
		if text != orig {
			c.Nontrivial(l.name, text)
		}
		c.Sample("kind %d %s %q valid=%v", kind, l.name, text, e != nil)
	})

	r.Run(t, "switching", 300, 30, "a sentence judged under its list, then under another list (a shipped one, or one with some words exchanged), then under the first again, with the sentences of one entropy under all; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		derive := func(l lang) lang {
			if rapid.Bool().Draw(t, "shipped") {
				return l
			}
			d := lang{name: l.name + " exchanged", list: append([]string{}, l.list...)}
			for k := rapid.IntRange(1, 3).Draw(t, "swaps"); k > 0; k-- {
				i, j := rapid.IntRange(0, 2047).Draw(t, "i"), rapid.IntRange(0, 2047).Draw(t, "j")
				d.list[i], d.list[j] = d.list[j], d.list[i]
			}
			if rapid.Bool().Draw(t, "many") { // all but the ends
				k := rapid.IntRange(1, 2045).Draw(t, "k")
				copy(d.list[1:2047], append(append([]string{}, d.list[1+k:2047]...), d.list[1:1+k]...))
			}
			return d
		}
		ls := []lang{derive(langs[rapid.IntRange(0, 2).Draw(t, "first")])}
		for k := rapid.IntRange(1, 2).Draw(t, "others"); k > 0; k-- {
			l := langs[rapid.IntRange(0, 2).Draw(t, "next")]
			if rapid.Bool().Draw(t, "near") {
				l = ls[0]
			}
			ls = append(ls, derive(l))
		}
		e := kit.Uniform(t, rapid.IntRange(4, 8).Draw(t, "words32")*4, "entropy")
		ws := refMnemonic(ls[0], e)
		text := strings.Join(ws, " ")
		c.Nontrivial(text, len(ls))
		order := append(append([]lang{}, ls...), ls[0])
		for i, l := range order {
			bip39.SetWordList(append([]string{}, l.list...))
			want := refEntropy(l, ws)
			judge(t, c, l, text, want, true, false)
			g, err := bip39.NewMnemonic(e)
			if w := strings.Join(refMnemonic(l, e), " "); err != nil || g != w {
				t.Fatalf("list %d of the history, %s: NewMnemonic(%x) = %q, %v, want %q", i, l.name, e, g, err, w)
			}
			at := rapid.IntRange(0, 2047).Draw(t, "at")
			if n, ok := bip39.GetWordIndex(l.list[at]); !ok || n != at || bip39.GetWordList()[at] != l.list[at] {
				t.Fatalf("list %d of the history, %s: word %d is %q, %q is at %d", i, l.name, at, bip39.GetWordList()[at], l.list[at], n)
			}
			c.Class(fmt.Sprintf("%d valid %v", min(i, 1), want != nil))
		}
		c.Sample("%q under %d lists", text, len(ls))
	})

	r.Run(t, "seeds", 300, 30, "seeds of pairs of texts and passphrases that are easily confused: characters moved from one to the other, ends cut or repeated, exchanged; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		text := strings.Join(refMnemonic(pick(t), kit.BytesN(t, 16, "entropy")), " ")
		_, pass := passphrase(t)
		type pair struct{ text, pass string }
		ps := []pair{{text, pass}}
		for k := rapid.IntRange(2, 4).Draw(t, "pairs"); k > 0; k-- {
			o := ps[rapid.IntRange(0, len(ps)-1).Draw(t, "of")]
			switch rapid.IntRange(0, 7).Draw(t, "how") {
			case 0: // the last word is the passphrase's
				if i := strings.LastIndexByte(o.text, ' '); i > 0 {
					o = pair{o.text[:i], o.text[i:] + o.pass}
				}
			case 1:
				o = pair{o.text + o.pass, ""}
			case 2:
				o = pair{o.text + "mnemonic", o.pass}
			case 3:
				o.pass = "mnemonic" + o.pass
			case 4:
				o.pass = ""
			case 5:
				o.pass += "\x00"
			case 6:
				o = pair{o.pass, o.text}
			case 7:
				o.pass += " "
			}
			ps = append(ps, o)
		}
		for i, p := range append(ps, ps[0]) {
			if g, w := bip39.NewSeed(p.text, p.pass), refSeed(p.text, p.pass); !bytes.Equal(g, w) {
				t.Fatalf("seed %d of %q: NewSeed(%q, %q) = %x, want %x", i, ps, p.text, p.pass, g, w)
			}
		}
		c.Nontrivial(fmt.Sprintf("%q", ps))
		c.Sample("%q", ps)
	})

	r.Run(t, "builder", 60, 20, "sentences from NewBIP39 in each list, with their default seed; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		l := langs[rapid.IntRange(0, 2).Draw(t, "lang")]
		b, err := bip39.NewBIP39(l.id)
		if err != nil {
			t.Fatal(err)
		}
		text := b.ToString()
		e := refEntropy(l, strings.Split(text, " "))
		if len(e) != 16 {
			t.Fatalf("NewBIP39(%s) is %q: entropy %x", l.name, text, e)
		}
		judge(t, c, l, text, e, true, false)
		if g, w := b.Seed(), refSeed(text, "TREZOR"); !bytes.Equal(g, w) {
			t.Fatalf("Seed of %q is %x, want %x", text, g, w)
		}
		c.Nontrivial(text)
	})
}
