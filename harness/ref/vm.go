package ref

import (
	"bytes"
	"errors"
	"fmt"
)

// VM is an independent interpreter of the supported script subset. Deviations from Bitcoin that the engine
// documents or its tests pin: an empty final stack is success, numbers must always be minimal, OP_IF arguments
// must be empty or 01, OP_RETURN does nothing (known finding), unknown opcodes fail even when skipped.
type VM struct {
	Check func(sig, pub []byte) bool // sig includes the hash type byte, never empty
	Stack [][]byte
	Ops   int                         // opcodes executed (not skipped)
	Sigs  int                         // signature opcodes executed
	Trace func(in Instr, rest []byte) // called after every instruction passed, skipped ones included
}

var errVM = errors.New("script failed")

func Truthy(b []byte) bool {
	for i, x := range b {
		if x != 0 && !(i == len(b)-1 && x == 0x80) {
			return true
		}
	}
	return false
}

// NumEnc is the minimal signed little-endian number encoding.
func NumEnc(v int64) []byte {
	if v == 0 {
		return nil
	}
	var mag uint64
	if v < 0 {
		mag = uint64(^v) + 1
	} else {
		mag = uint64(v)
	}
	var out []byte
	for mag > 0 {
		out = append(out, byte(mag%256))
		mag /= 256
	}
	if out[len(out)-1] >= 128 {
		out = append(out, 0)
	}
	if v < 0 {
		out[len(out)-1] += 128
	}
	return out
}

// NumDec decodes at most max bytes, minimal only.
func NumDec(b []byte, max int) (int64, bool) {
	if len(b) > max {
		return 0, false
	}
	var v int64
	for i := len(b) - 1; i >= 0; i-- {
		x := b[i]
		if i == len(b)-1 {
			x &= 0x7f
		}
		v = v*256 + int64(x)
	}
	if len(b) > 0 && b[len(b)-1] >= 128 {
		v = -v
	}
	return v, bytes.Equal(NumEnc(v), b)
}

// Instr is one parsed instruction.
type Instr struct {
	Op   byte
	Data []byte
	Raw  []byte
}

var knownOps = map[byte]bool{0x4f: true, 0x63: true, 0x64: true, 0x67: true, 0x68: true, 0x6a: true, 0x6e: true, 0x6f: true, 0x75: true, 0x76: true, 0x7c: true,
	0x82: true, 0x87: true, 0x88: true, 0x93: true, 0xa9: true, 0xac: true, 0xad: true, 0xae: true, 0xaf: true}

// Known tells whether the opcode is supported.
func Known(op byte) bool { return op <= 0x4e || op >= 0x51 && op <= 0x60 || knownOps[op] }

// ParseOne splits the first instruction off.
func ParseOne(s []byte) (in Instr, rest []byte, ok bool) {
	op := s[0]
	if !Known(op) {
		return in, nil, false
	}
	n, hdr := 0, 1
	switch {
	case op >= 1 && op <= 75:
		n = int(op)
	case op >= 76 && op <= 78:
		w := 1 << (op - 76)
		if len(s) < 1+w {
			return in, nil, false
		}
		hdr += w
		for i := w; i >= 1; i-- {
			n = n<<8 | int(s[i])
		}
	}
	if len(s)-hdr < n {
		return in, nil, false
	}
	return Instr{Op: op, Data: append([]byte(nil), s[hdr:hdr+n]...), Raw: s[:hdr+n]}, s[hdr+n:], true
}

// ParseAll parses a whole script.
func ParseAll(s []byte) (out []Instr, ok bool) {
	for len(s) > 0 {
		var in Instr
		if in, s, ok = ParseOne(s); !ok {
			return nil, false
		}
		out = append(out, in)
	}
	return out, true
}

func (m *VM) pop() []byte {
	if len(m.Stack) == 0 {
		panic(errVM)
	}
	x := m.Stack[len(m.Stack)-1]
	m.Stack = m.Stack[:len(m.Stack)-1]
	return x
}

func (m *VM) peek(i int) []byte {
	if len(m.Stack) <= i {
		panic(errVM)
	}
	return m.Stack[len(m.Stack)-1-i]
}

func (m *VM) push(b []byte) { m.Stack = append(m.Stack[:len(m.Stack):len(m.Stack)], b) }

func (m *VM) num() int64 {
	v, ok := NumDec(m.pop(), 4)
	if !ok {
		panic(errVM)
	}
	return v
}

func boolb(v bool) []byte {
	if v {
		return []byte{1}
	}
	return nil
}

// Run executes one script on the current stack, checking conditionals are balanced.
func (m *VM) Run(script []byte) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if r == any(errVM) {
				err = errVM
				return
			}
			panic(r)
		}
	}()
	var conds []bool // every entry true: executing
	exec := func() bool {
		for _, c := range conds {
			if !c {
				return false
			}
		}
		return true
	}
	var in Instr
	started := false
	passed := func() {
		if started && m.Trace != nil {
			m.Trace(in, script)
		}
		started = true
	}
	for len(script) > 0 {
		passed()
		next, rest, ok := ParseOne(script)
		if !ok {
			return errVM
		}
		in, script = next, rest
		run := exec()
		switch in.Op {
		case 0x63, 0x64:
			v := false
			if run {
				x := m.pop()
				if !(len(x) == 0 || len(x) == 1 && x[0] == 1) {
					return errVM
				}
				v = len(x) == 1
				if in.Op == 0x64 {
					v = !v
				}
				m.Ops++
			}
			conds = append(conds, v)
			continue
		case 0x67:
			if len(conds) == 0 {
				return errVM
			}
			conds[len(conds)-1] = !conds[len(conds)-1]
			continue
		case 0x68:
			if len(conds) == 0 {
				return errVM
			}
			conds = conds[:len(conds)-1]
			continue
		}
		if !run {
			continue
		}
		m.Ops++
		switch op := in.Op; {
		case op <= 0x4e:
			m.push(in.Data)
		case op == 0x4f:
			m.push([]byte{0x81})
		case op >= 0x51 && op <= 0x60:
			m.push([]byte{op - 0x50})
		case op == 0x6a:
		case op == 0x75:
			m.pop()
		case op == 0x76:
			m.push(m.peek(0))
		case op == 0x6e:
			a, b := m.peek(1), m.peek(0)
			m.push(a)
			m.push(b)
		case op == 0x6f:
			a, b, c := m.peek(2), m.peek(1), m.peek(0)
			m.push(a)
			m.push(b)
			m.push(c)
		case op == 0x7c:
			b, a := m.pop(), m.pop()
			m.push(b)
			m.push(a)
		case op == 0x82:
			m.push(NumEnc(int64(len(m.peek(0)))))
		case op == 0x87, op == 0x88:
			eq := bytes.Equal(m.pop(), m.pop())
			if op == 0x87 {
				m.push(boolb(eq))
			} else if !eq {
				return errVM
			}
		case op == 0x93:
			m.push(NumEnc(m.num() + m.num()))
		case op == 0xa9:
			m.push(Hash160(m.pop()))
		case op == 0xac, op == 0xad:
			m.Sigs++
			pub, sig := m.pop(), m.pop()
			v := len(sig) > 0 && m.Check(sig, pub)
			if op == 0xac {
				m.push(boolb(v))
			} else if !v {
				return errVM
			}
		case op == 0xae, op == 0xaf:
			m.Sigs++
			n := m.num()
			if n < 0 || n > 20 {
				return errVM
			}
			var pubs, sigs [][]byte
			for i := int64(0); i < n; i++ {
				pubs = append(pubs, m.pop())
			}
			k := m.num()
			if k < 0 || k > n {
				return errVM
			}
			for i := int64(0); i < k; i++ {
				sigs = append(sigs, m.pop())
			}
			m.pop()
			// Is there an order-preserving matching of all signatures to keys? Greedy, by recursion on keys.
			v := match(m.Check, sigs, pubs)
			if op == 0xae {
				m.push(boolb(v))
			} else if !v {
				return errVM
			}
		default:
			return errVM
		}
	}
	passed()
	if len(conds) != 0 {
		return errVM
	}
	return nil
}

func match(check func(sig, pub []byte) bool, sigs, pubs [][]byte) bool {
	if len(sigs) == 0 {
		return true
	}
	for i := range pubs {
		if len(sigs[0]) > 0 && check(sigs[0], pubs[i]) && match(check, sigs[1:], pubs[i+1:]) {
			return true
		}
	}
	return false
}

func (m *VM) final() bool {
	if len(m.Stack) == 0 {
		return true
	}
	return Truthy(m.Stack[len(m.Stack)-1])
}

// Verify gives the verdict for unlocking and locking scripts.
func (m *VM) Verify(unlocking, locking []byte) bool {
	m.Stack = nil
	if m.Run(unlocking) != nil {
		return false
	}
	saved := append([][]byte{}, m.Stack...)
	if m.Run(locking) != nil || !m.final() {
		return false
	}
	if len(locking) == 23 && locking[0] == 0xa9 && locking[1] == 20 && locking[22] == 0x87 {
		m.Stack = saved
		redeem := m.pop()
		if m.Run(redeem) != nil {
			return false
		}
		return m.final()
	}
	return true
}

var opNames = map[byte]string{0: "OP_0", 76: "OP_PUSHDATA1", 77: "OP_PUSHDATA2", 78: "OP_PUSHDATA4", 0x4f: "OP_1NEGATE",
	0x63: "OP_IF", 0x64: "OP_NOTIF", 0x67: "OP_ELSE", 0x68: "OP_ENDIF", 0x6a: "OP_RETURN", 0x6e: "OP_2DUP", 0x6f: "OP_3DUP",
	0x75: "OP_DROP", 0x76: "OP_DUP", 0x7c: "OP_SWAP", 0x82: "OP_SIZE", 0x87: "OP_EQUAL", 0x88: "OP_EQUALVERIFY", 0x93: "OP_ADD",
	0xa9: "OP_HASH160", 0xac: "OP_CHECKSIG", 0xad: "OP_CHECKSIGVERIFY", 0xae: "OP_CHECKMULTISIG", 0xaf: "OP_CHECKMULTISIGVERIFY"}

// OpName is the name of a supported opcode.
func OpName(op byte) string {
	switch {
	case op >= 1 && op <= 75:
		return fmt.Sprintf("OP_DATA_%d", op)
	case op >= 0x51 && op <= 0x60:
		return fmt.Sprintf("OP_%d", op-0x50)
	}
	return opNames[op]
}

// Words is the disassembly of a script: names and, for pushes, the hex data (nothing for no data).
func Words(s []byte) (out []string, ok bool) {
	ins, ok := ParseAll(s)
	for _, in := range ins {
		out = append(out, OpName(in.Op))
		if len(in.Data) > 0 {
			out = append(out, fmt.Sprintf("%x", in.Data))
		}
	}
	return out, ok
}

// PushData is the canonical push of a byte string, never using the small-number opcodes.
func PushData(b []byte) []byte {
	n := len(b)
	switch {
	case n == 0:
		return []byte{0}
	case n <= 75:
		return append([]byte{byte(n)}, b...)
	case n <= 255:
		return append([]byte{76, byte(n)}, b...)
	case n <= 65535:
		return append([]byte{77, byte(n), byte(n >> 8)}, b...)
	}
	return append([]byte{78, byte(n), byte(n >> 8), byte(n >> 16), byte(n >> 24)}, b...)
}

// Push is the shortest encoding that leaves b on the stack, with the builder's documented exception
// that a single zero byte is pushed as the empty string.
func Push(b []byte) []byte {
	if len(b) == 1 {
		switch {
		case b[0] == 0:
			return []byte{0}
		case b[0] <= 16:
			return []byte{0x50 + b[0]}
		case b[0] == 0x81:
			return []byte{0x4f}
		}
	}
	return PushData(b)
}
