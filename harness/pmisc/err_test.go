package pmisc

import (
	"errors"
	"fmt"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xcore"
	"github.com/keyfuse/tokucore/xerror"
	"github.com/keyfuse/tokucore/xvm"

	"verif/kit"
	"verif/ref"
)

// the documented numbers, with their states and the number of values in their messages
type entry struct {
	state string
	args  int
}

var coreCodes = map[int]entry{
	2101: {"TKS00", 0},
	3101: {"THK00", 0},
	3102: {"TADDR0", 1},
	3103: {"TADDR0", 1},
	3104: {"TADDR0", 1},
	3105: {"TADDR0", 1},
	4100: {"TS000", 1},
	4105: {"TS000", 1},
	4106: {"TS000", 2},
	4107: {"TS000", 1},
	4108: {"TS000", 0},
	4109: {"TS000", 1},
	4110: {"TS000", 1},
	4111: {"TS000", 2},
	5000: {"TTX00", 2},
	5001: {"TTX00", 2},
	5002: {"TTX00", 3},
	5101: {"TTB00", 2},
	5102: {"TTB00", 0},
	5103: {"TTB00", 0},
	5104: {"TTB00", 0},
	5105: {"TTB00", 1},
	5106: {"TTB00", 2},
	5107: {"TTB00", 2},
	5108: {"TTB00", 2},
	5109: {"TTB00", 1},
	5201: {"TTP00", 2},
	5301: {"TM000", 2},
	5302: {"TM000", 0},
}
var vmCodes = map[int]entry{
	1101: {"TS000", 1},
	1102: {"TS000", 1},
	1103: {"TS000", 3},
	1104: {"TS000", 2},
	1110: {"TS000", 2},
	1111: {"TS000", 2},
	1201: {"TS000", 3},
	1202: {"TS000", 1},
	1300: {"TVM00", 1},
}
var baseCodes = map[int]entry{1000: {"T0000", 0}}

type table struct {
	name    string
	entries map[int]*xerror.Error
	codes   map[int]entry
}

var tables = []table{{"xcore", xcore.Errors, coreCodes}, {"xvm", xvm.Errors, vmCodes}, {"xerror", xerror.Errors, baseCodes}}

// state of all tables, as text
func snapshot() string {
	s := ""
	for _, tb := range tables {
		for n := 0; n < 10000; n++ {
			if e, ok := tb.entries[n]; ok {
				s += fmt.Sprintf("%s %d: %p %d %s %s\n", tb.name, n, e, e.Num, e.State, e.Message)
			}
		}
	}
	return s
}

func arg(t *rapid.T) any {
	switch rapid.IntRange(0, 9).Draw(t, "arg.k") {
	case 0:
		return anyText(t)
	case 1:
		return rapid.Int().Draw(t, "arg")
	case 2:
		return rapid.SliceOf(rapid.Byte()).Draw(t, "arg")
	case 3:
		return nil
	case 4:
		return rapid.SampledFrom([]any{"%s", "%!v(PANIC=", "100%", "%%", "\x00\xff", "[]", "\n"}).Draw(t, "arg")
	case 5:
		return errors.New(anyText(t))
	case 6:
		return float(t, "arg")
	case 7:
		return struct{ A, B int }{1, 2}
	case 8:
		return []string{"a", "b"}
	}
	return unsigned(t, 64, "arg")
}

type made struct {
	e              *xerror.Error
	num            int
	state, message string
	desc           string
}

// create makes an error as the library does, and the description it has to have.
func create(t *rapid.T) made {
	var m made
	if rapid.IntRange(0, 3).Draw(t, "own") == 0 { // a table of the user's
		m.num = rapid.IntRange(-5, 1<<40).Draw(t, "num")
		m.state = rapid.SampledFrom([]string{"", "XX000", "a b"}).Draw(t, "state")
		tmpl := rapid.SampledFrom([]string{"", "plain", "one[%v]", "two[%v][%v]", "hex[%x]", "%v%%"}).Draw(t, "template")
		tb := map[int]*xerror.Error{m.num: {Num: m.num, State: m.state, Message: tmpl}}
		var args []any
		for i := strings.Count(strings.ReplaceAll(tmpl, "%%", ""), "%"); i > 0; i-- {
			args = append(args, arg(t))
		}
		m.message = fmt.Sprintf(tmpl, args...)
		m.desc = fmt.Sprintf("own table, %d %q %v", m.num, tmpl, args)
		m.e = xerror.NewError(tb, m.num, args...)
		if x := tb[m.num]; len(tb) != 1 || x == m.e || x.Message != tmpl || x.Num != m.num || x.State != m.state {
			t.Fatalf("%s: the table changed to %+v", m.desc, x)
		}
		return m
	}
	tb := rapid.SampledFrom(tables).Draw(t, "table")
	nums := []int{}
	for n := 0; n < 10000; n++ {
		if _, ok := tb.codes[n]; ok {
			nums = append(nums, n)
		}
	}
	if rapid.IntRange(0, 3).Draw(t, "unlisted") == 0 {
		n := rapid.OneOf(rapid.SampledFrom([]int{0, -1, 1, 9999, 1 << 40, 2100, 1301}), rapid.Int()).Draw(t, "num")
		if _, ok := tb.entries[n]; ok {
			n = -7
		}
		var args []any
		for i := rapid.IntRange(0, 2).Draw(t, "args"); i > 0; i-- {
			args = append(args, arg(t))
		}
		m = made{num: 1000, state: "T0000", message: "unknown.error", desc: fmt.Sprintf("%s unlisted %d %v", tb.name, n, args)}
		m.e = xerror.NewError(tb.entries, n, args...)
		return m
	}
	m.num = rapid.SampledFrom(nums).Draw(t, "num")
	want := tb.codes[m.num]
	var args []any
	for i := 0; i < want.args; i++ {
		args = append(args, arg(t))
	}
	m.state = want.state
	m.desc = fmt.Sprintf("%s %d %v", tb.name, m.num, args)
	x := tb.entries[m.num]
	if x == nil {
		t.Fatalf("%s: not in the table", m.desc)
	}
	m.message = fmt.Sprintf(x.Message, args...)
	m.e = xerror.NewError(tb.entries, m.num, args...)
	return m
}

//go:noinline
func deep(n int, f func() made) made {
	if n == 0 {
		return f()
	}
	return deep(n-1, f)
}

func (m made) check(t *rapid.T, stack bool) {
	e := m.e
	if e == nil || e.Num != m.num || e.State != m.state || e.Message != m.message {
		t.Fatalf("%s: %+v, want %d %q %q", m.desc, e, m.num, m.state, m.message)
	}
	text := e.Error()
	for _, part := range []string{m.message, fmt.Sprint(m.num), m.state} {
		if !strings.Contains(text, part) {
			t.Fatalf("%s: text %q without %q", m.desc, text, part)
		}
	}
	kit.NoPanic(t, m.desc, func() {
		for _, f := range []string{"%v", "%s", "%+v", "%q", "%x", "%d", "%#v", "%20v", "%.3s", "%t", "% x", "%+q", "%T", "%5.1f"} {
			for i, g := range []string{fmt.Sprintf(f, e), fmt.Sprintf("a"+f+"b", error(e)), fmt.Sprintf(f, fmt.Errorf("more: %w", e)), fmt.Sprintf(f, []error{e})} {
				if strings.Contains(g, "(PANIC=") && !strings.Contains(m.message, "PANIC=") {
					t.Fatalf("%s: printed with %s as %q", m.desc, f, g)
				}
				if i < 2 && (f == "%v" || f == "%s" || f == "%+v" || f == "%20v") && !strings.Contains(g, text) {
					t.Fatalf("%s: printed with %s as %q without %q", m.desc, f, g, text)
				}
				if i < 2 && f == "%q" && !strings.Contains(g, strings.Trim(fmt.Sprintf("%q", m.message), `"`)) {
					t.Fatalf("%s: printed with %%q as %s", m.desc, g)
				}
				if i < 2 && len(g) == 2*i && m.message != "" {
					t.Fatalf("%s: printed with %s as nothing", m.desc, f)
				}
			}
		}
	})
	if g := fmt.Sprint(e); g != text {
		t.Fatalf("%s: printed as %q, text is %q", m.desc, g, text)
	}
	if g := fmt.Sprintf("%+v", e); stack && !strings.Contains(g, "err_test.go") {
		t.Fatalf("%s: the trace %q does not show where the error was made", m.desc, g)
	}
}

func TestP35(t *testing.T) {
	r := kit.New(t, "P35", "arguments fit the message of the entry, as in the library's calls", "errors with an unlisted number are the unknown error, without the arguments")
	before := snapshot()

	r.Run(t, "tables", 1, 1, "every documented number: its entry, state and number of values; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		seen := map[int]string{}
		for _, tb := range tables {
			for n, w := range tb.codes {
				x := tb.entries[n]
				if x == nil || x.Num != n || x.State != w.state || x.Message == "" {
					t.Fatalf("%s %d: entry %+v", tb.name, n, x)
				}
				var args []any
				for i := 0; i < w.args; i++ {
					args = append(args, 7)
				}
				if g := xerror.NewError(tb.entries, n, args...).Message; strings.Contains(g, "%!") {
					t.Fatalf("%s %d: message %q", tb.name, n, g)
				}
			}
			for n, x := range tb.entries {
				if x == nil || x.Num != n {
					t.Fatalf("%s %d: entry %+v", tb.name, n, x)
				}
				if o, ok := seen[n]; ok {
					t.Fatalf("%d is in the tables of %s and %s", n, o, tb.name)
				}
				seen[n] = tb.name
			}
		}
		c.Nontrivial(len(seen))
		c.Sample("%d entries", len(seen))
	})

	r.Run(t, "history", 350, 20, "1..8 errors with any arguments, listed or not; each is checked again at the end, after others were changed by their owners; non-trivial: at least 2 errors", func(t *rapid.T, c *kit.Case) {
		var l []made
		var shallow []bool
		desc := ""
		for i := rapid.IntRange(1, 8).Draw(t, "n"); i > 0; i-- {
			// errors are made at any depth of calls
			depth := rapid.OneOf(rapid.IntRange(0, 3), rapid.IntRange(0, 200)).Draw(t, "depth")
			m := deep(depth, func() made { return create(t) })
			m.check(t, depth == 0)
			shallow = append(shallow, depth == 0)
			l = append(l, m)
			desc += m.desc + "; "
		}
		spoilt := -1
		if rapid.Bool().Draw(t, "spoil") {
			spoilt = rapid.IntRange(0, len(l)-1).Draw(t, "which")
			e := l[spoilt].e
			e.Num, e.State, e.Message = -e.Num, "changed", "changed"
		}
		for i, m := range l {
			if i != spoilt {
				m.check(t, shallow[i])
			}
		}
		if after := snapshot(); after != before {
			t.Fatalf("%s: the tables changed to %s", desc, after)
		}
		for _, tb := range tables { // entries themselves print too
			for _, x := range tb.entries {
				(made{x, x.Num, x.State, x.Message, "table entry"}).check(t, false)
			}
			break
		}
		if len(l) > 1 {
			c.Nontrivial(desc)
		}
		c.Sample("%s", desc)
	})

	r.Run(t, "concurrent", 100, 20, "2..8 goroutines making and printing errors, with the race detector; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		n := rapid.IntRange(2, 8).Draw(t, "n")
		k := rapid.IntRange(1, 20).Draw(t, "k")
		bad := make([]string, n)
		var wg sync.WaitGroup
		for i := range bad {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j := 0; j < k; j++ {
					tb := tables[(i+j)%2]
					for num, w := range tb.codes {
						args := make([]any, w.args)
						for a := range args {
							args[a] = i*1000 + j
						}
						e := xerror.NewError(tb.entries, num, args...)
						u := xerror.NewError(tb.entries, -i, j)
						if e.Num != num || e.State != w.state || e.Message != fmt.Sprintf(tb.entries[num].Message, args...) || u.Num != 1000 || !strings.HasPrefix(fmt.Sprintf("%+v", e), e.Error()) {
							bad[i] = fmt.Sprintf("%s %d: %+v %+v", tb.name, num, e, u)
						}
						u.Message = fmt.Sprint(i, j)
						e.Num = j
					}
				}
			}()
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				t.Fatal(b)
			}
		}
		if after := snapshot(); after != before {
			t.Fatalf("the tables changed to %s", after)
		}
		c.Nontrivial(n, k)
		c.Sample("%d goroutines, %d rounds", n, k)
	})

	r.Run(t, "library", 3000, 20, "errors of addresses, scripts and transactions made from hostile inputs: documented number and state, all values in the message; non-trivial: an error with a number", func(t *rapid.T, c *kit.Case) {
		var err error
		what := ""
		b := kit.Bytes(t, 0, 60, "b")
		switch rapid.IntRange(0, 6).Draw(t, "source") {
		case 0:
			what = fmt.Sprintf("running the script %x", b)
			kit.NoPanic(t, what, func() {
				err = xvm.NewEngine().Execute(b)
			})
		case 1:
			n := rapid.IntRange(1, 6).Draw(t, "max")
			what = fmt.Sprintf("decoding the script number %x of %d bytes", b, n)
			kit.NoPanic(t, what, func() { _, err = xvm.MakeScriptNum(b, n) })
		case 2:
			what = fmt.Sprintf("parsing the script %x", b)
			kit.NoPanic(t, what, func() { _, err = xvm.NewScriptReader(b).AllInstructions() })
		case 3:
			what = fmt.Sprintf("the locking script %x", b)
			kit.NoPanic(t, what, func() { _, err = xcore.ParseLockingScript(b) })
		case 4:
			s := base58(t, b)
			what = "the address " + s
			kit.NoPanic(t, what, func() { _, err = xcore.DecodeAddress(s, network.MainNet) })
		case 5:
			n, coins := rapid.Uint64().Draw(t, "v"), rapid.IntRange(0, 2).Draw(t, "coins")
			id := rapid.SampledFrom([]string{"", "00", strings.Repeat("ab", 32)}).Draw(t, "txid")
			what = fmt.Sprintf("building with %d, %d coins of %s", n, coins, id)
			kit.NoPanic(t, what, func() {
				a := xcore.NewPayToPubKeyHashAddress(make([]byte, 20))
				tb := xcore.NewTransactionBuilder()
				cb := xcore.NewCoinBuilder()
				for i := 0; i < coins; i++ {
					cb.AddOutput(id, uint32(i), n/3+5, "76a914000000000000000000000000000000000000000088ac")
				}
				for _, coin := range cb.ToCoins() {
					tb.AddCoin(coin).Then()
				}
				if n%2 == 0 {
					tb.To(a, n)
				}
				if n%3 == 0 {
					tb.Then().SetChange(a)
				}
				if n%5 == 0 {
					tb.Then().SendFees(n / 7)
				}
				if n%7 == 0 {
					tb.Then().Sign()
				}
				_, err = tb.BuildTransaction()
			})
		case 6:
			k, n := rapid.IntRange(-1, 22).Draw(t, "k"), rapid.IntRange(0, 22).Draw(t, "n")
			what = fmt.Sprintf("a %d of %d policy", k, n)
			kit.NoPanic(t, what, func() {
				_, err = xcore.NewPayToMultiSigScript(k, repeat(make([]byte, 33), n)...).GetLockingScriptBytes()
			})
		}
		var e *xerror.Error
		if !errors.As(err, &e) || e == nil {
			return
		}
		ok := false
		for _, tb := range tables {
			if w, found := tb.codes[e.Num]; found && w.state == e.State {
				ok = true
			}
		}
		if !ok || strings.Contains(e.Message, "%!") {
			t.Fatalf("%s: %+v", what, err)
		}
		(made{e, e.Num, e.State, e.Message, what}).check(t, false)
		c.Nontrivial(e.Num, e.Message)
		c.Class(fmt.Sprint(e.Num))
		c.Sample("%s: %v", what, err)
	})
}

func repeat[T any](v T, n int) []T {
	out := make([]T, n)
	for i := range out {
		out[i] = v
	}
	return out
}

// base58 makes an address-like text of b: with checksum, raw, or segwit.
func base58(t *rapid.T, b []byte) string {
	switch rapid.IntRange(0, 4).Draw(t, "text") {
	case 0:
		return ref.Base58Enc(b)
	case 1:
		return fmt.Sprintf("%x", b)
	case 2:
		return ref.SegwitEnc(rapid.SampledFrom([]string{"bc", "tb"}).Draw(t, "hrp"), byte(rapid.IntRange(0, 16).Draw(t, "ver")), b)
	}
	return ref.Base58CheckEnc(b, rapid.SampledFrom([]byte{0, 5, 111, 196, 7}).Draw(t, "id"))
}

// anyText draws a text, rarely of many thousand characters.
func anyText(t *rapid.T) string {
	s := rapid.String().Draw(t, "arg")
	if kit.Uniform(t, 1, "longarg")[0] < 10 {
		s = strings.Repeat(s+"x", rapid.IntRange(1000, 9000).Draw(t, "times")) + "!"
	}
	return s
}
