package pvm

import (
	"fmt"
	"os"
	"strings"
	"testing"

	"github.com/keyfuse/tokucore/xvm"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

type row struct {
	op    string
	stack []string
	rest  []string
	ok    bool // the rest of the script parses
}

func stackWords(st [][]byte) (out []string) {
	for _, x := range st {
		if len(x) == 0 {
			out = append(out, "<empty>")
		} else {
			out = append(out, fmt.Sprintf("<%x>", x))
		}
	}
	if len(st) == 0 {
		out = []string{"<empty>"}
	}
	return out
}

func recording(rows *[]row) *ref.VM {
	m := &ref.VM{Check: modelCheck}
	m.Trace = func(in ref.Instr, rest []byte) {
		w, ok := ref.Words(rest)
		*rows = append(*rows, row{ref.OpName(in.Op), stackWords(m.Stack), w, ok})
	}
	return m
}

func eqWords(text string, want []string) bool {
	got := strings.Fields(text)
	if len(got) != len(want) {
		return false
	}
	for i := range got {
		if got[i] != want[i] {
			return false
		}
	}
	return true
}

func sameTraces(got []xvm.Trace, want []row) error {
	for i := range got {
		if i >= len(want) {
			break
		}
		w := want[i]
		if got[i].Executed != w.op || !eqWords(got[i].Stack, w.stack) {
			return fmt.Errorf("row %d says %q, stack %q; executed was %s, stack %v", i, got[i].Executed, got[i].Stack, w.op, w.stack)
		}
		if w.ok && !eqWords(got[i].Remaining, w.rest) {
			return fmt.Errorf("row %d (%s) says %q remains; it is %v", i, w.op, got[i].Remaining, w.rest)
		}
	}
	if len(got) != len(want) {
		return fmt.Errorf("%d rows for %d instructions", len(got), len(want))
	}
	return nil
}

// stdout captures what f prints.
func stdout(f func()) string {
	tmp, err := os.CreateTemp("", "verif-trace")
	if err != nil {
		panic(err)
	}
	defer os.Remove(tmp.Name())
	defer tmp.Close()
	old := os.Stdout
	os.Stdout = tmp
	func() {
		defer func() { os.Stdout = old }()
		f()
	}()
	b, err := os.ReadFile(tmp.Name())
	if err != nil {
		panic(err)
	}
	return string(b)
}

func TestP36(t *testing.T) {
	r := kit.New(t, "P36",
		"texts are compared word by word, so spacing is free",
		"the text for a script that does not parse is only required to be non-empty",
		"step numbers are required to rise within one verification on a fresh engine, nothing more")
	r.Run(t, "disasm", 18000, 20, "scripts of all opcodes and push forms (raw bytes too) disassembled; non-trivial: at least three instructions, or unparsable",
		func(t *rapid.T, c *kit.Case) {
			g := &gen{t: t}
			s := g.seq(2, 6)
			switch rapid.IntRange(0, 4).Draw(t, "extra") {
			case 3:
				if rapid.Bool().Draw(t, "high") {
					s = append(s, g.highPush()...)
				}
			case 0:
				s = kit.Mutate(t, s, "mut")
			case 1:
				op := rapid.ByteRange(1, 78).Draw(t, "push")
				in := []byte{op}
				n := int(op)
				if op > 75 {
					n = rapid.IntRange(0, 260).Draw(t, "n")
					if kit.Uniform(t, 1, "bulk")[0] < 20 {
						n = rapid.SampledFrom([]int{520, 521, 2001, 10001, 65535, 65536, 70000, 140000}).Draw(t, "bulksize")
						if op == 77 {
							n = min(n, 65535)
						}
					}
					if op == 76 {
						n = min(n, 255)
					}
					for i := 0; i < 1<<(op-76); i++ {
						in = append(in, byte(n>>(8*i)))
					}
				}
				s = append(append(s, in...), kit.BytesNCheap(t, n, "data")...)
			case 2:
				s = append(s, rapid.ByteRange(0x4f, 0xaf).Draw(t, "op"))
			}
			words, ok := ref.Words(s)
			c.Class(fmt.Sprintf("parses-%v", ok))
			if !ok || len(words) >= 3 {
				c.Nontrivial(s)
			}
			c.Sample("%x = %v", s, words)
			in, intact := kit.Spare(s)
			got := xvm.DisasmString(in)
			if ok && !eqWords(got, words) {
				t.Fatalf("%x disassembles to %q, want %v", s, got, words)
			}
			if !ok && strings.TrimSpace(got) == "" {
				t.Fatalf("broken script %x disassembles to nothing", s)
			}
			if !intact() {
				t.Fatalf("disassembly of %x wrote into the script's storage", s)
			}
			// from any instruction border on, the reader tells what remains
			rd := xvm.NewScriptReader(in)
			rest := s
			for i := 0; ; i++ {
				w, wok := ref.Words(rest)
				if rem := rd.DisasmRemaining(); wok && !eqWords(rem, w) {
					t.Fatalf("%x after %d instructions: %q remains, want %v", s, i, rem, w)
				}
				if len(rest) == 0 {
					break
				}
				var want ref.Instr
				want, rest, ok = ref.ParseOne(rest)
				ins, err := rd.NextInstruction()
				if (err == nil && ins != nil) != ok {
					t.Fatalf("%x: instruction %d: %v %v, reference parses=%v", s, i, ins, err, ok)
				}
				if !ok {
					break
				}
				if ins.OpCode() != want.Op || string(ins.Data()) != string(want.Data) {
					t.Fatalf("%x: instruction %d is %x %x, want %x %x", s, i, ins.OpCode(), ins.Data(), want.Op, want.Data)
				}
			}
		})
	trace := func(t *rapid.T, c *kit.Case, unl, lock []byte, kind string) {
		var want []row
		m := recording(&want)
		verdict := m.Verify(unl, lock)
		if len(want) >= 4 {
			c.Nontrivial(unl, lock)
		}
		c.Class(fmt.Sprintf("%s-%v", kind, verdict))
		c.Sample("unlocking %x locking %x: %d rows", unl, lock, len(want))
		e := newEngine()
		e.EnableDebug()
		err := e.Verify(unl, lock)
		if (err == nil) != verdict {
			t.Fatalf("unlocking %x locking %x: verdict with tracing %v, reference accept=%v", unl, lock, err, verdict)
		}
		tr := e.Traces()
		if err := sameTraces(tr, want); err != nil {
			t.Fatalf("unlocking %x (%s) locking %x (%s): trace %v", unl, xvm.DisasmString(unl), lock, xvm.DisasmString(lock), err)
		}
		for i := 1; i < len(tr); i++ {
			if tr[i].Step <= tr[i-1].Step {
				t.Fatalf("unlocking %x locking %x: step numbers %d, %d", unl, lock, tr[i-1].Step, tr[i].Step)
			}
		}
		if rapid.IntRange(0, 7).Draw(t, "print") == 0 {
			c.Class("printed")
			out := stdout(e.PrintTrace)
			var lines []string
			for _, l := range strings.Split(out, "\n") {
				if strings.TrimSpace(l) != "" {
					lines = append(lines, l)
				}
			}
			if len(tr) > 0 && len(lines) != len(tr)+1 || len(tr) == 0 && len(lines) > 0 {
				t.Fatalf("unlocking %x locking %x: %d lines printed for %d rows: %q", unl, lock, len(lines), len(tr), out)
			}
			for i := range tr {
				cells := strings.Split(lines[i+1], "|")
				if len(cells) < 4 || !eqWords(cells[1], strings.Fields(tr[i].Executed)) || !eqWords(cells[2], strings.Fields(tr[i].Stack)) || !eqWords(cells[3], strings.Fields(tr[i].Remaining)) {
					t.Fatalf("unlocking %x locking %x: line %q for row %+v", unl, lock, lines[i+1], tr[i])
				}
			}
		}
		// no rows without tracing
		e2 := newEngine()
		_ = e2.Verify(unl, lock)
		if len(e2.Traces()) != 0 {
			t.Fatalf("unlocking %x locking %x: rows without tracing", unl, lock)
		}
	}
	r.Run(t, "trace", 18000, 20, "verifications of generated program pairs with tracing on; non-trivial: at least four rows",
		func(t *rapid.T, c *kit.Case) {
			g := &gen{t: t}
			unl, lock, kind := g.pair()
			trace(t, c, unl, lock, kind)
		})
	r.Run(t, "long", 40, 20, "the same for programs of up to 1100 instructions, deep stacks and nesting; non-trivial: at least four rows",
		func(t *rapid.T, c *kit.Case) {
			unl, lock := longPair(t, 1100)
			trace(t, c, unl, lock, "long")
		})
	r.Run(t, "history", 7500, 20, "one engine, several executions and verifications, tracing switched on and off between them; non-trivial: rows from at least two runs",
		func(t *rapid.T, c *kit.Case) {
			g := &gen{t: t}
			e := newEngine()
			var want []row
			on := false
			var log []string
			var kept []xvm.Trace
			runs := 0
			for i := rapid.IntRange(2, 5).Draw(t, "runs"); i > 0; i-- {
				if rapid.IntRange(0, 2).Draw(t, "switch") > 0 {
					on = rapid.IntRange(0, 2).Draw(t, "on") > 0
					if on {
						e.EnableDebug()
					} else {
						e.DisableDebug()
					}
				}
				unl, lock, _ := g.pair()
				var rows []row
				m := recording(&rows)
				verdict := m.Verify(unl, lock)
				log = append(log, fmt.Sprintf("trace=%v verify %x %x", on, unl, lock))
				if err := e.Verify(unl, lock); (err == nil) != verdict {
					t.Fatalf("%s: %v, reference accept=%v", strings.Join(log, "; "), err, verdict)
				}
				if on {
					want = append(want, rows...)
					if len(rows) > 0 {
						runs++
					}
				}
				if err := sameTraces(e.Traces(), want); err != nil {
					t.Fatalf("%s: %v", strings.Join(log, "; "), err)
				}
				// rows handed out earlier stay as they were
				if err := sameTraces(kept, want[:len(kept)]); err != nil {
					t.Fatalf("%s: rows handed out earlier changed: %v", strings.Join(log, "; "), err)
				}
				kept = e.Traces()
			}
			if runs > 1 {
				c.Nontrivial(strings.Join(log, ";"))
			}
			c.Sample("%s", strings.Join(log, "; "))
		})
}
