package ref

import (
	"bytes"
	"encoding/binary"
)

// TxIn is an input with what is known about the output it spends.
type TxIn struct {
	Hash    []byte
	Index   uint32
	Script  []byte // scriptSig
	Seq     uint32
	Witness [][]byte

	Value   uint64
	Locking []byte // the spent script
	Redeem  []byte // nil if none
}

// TxOut is an output.
type TxOut struct {
	Value  uint64
	Script []byte
}

// Tx is a transaction.
type Tx struct {
	Version, LockTime uint32
	Ins               []*TxIn
	Outs              []*TxOut
}

func u32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func u64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }

// VarInt is the compact size encoding.
func VarInt(v uint64) []byte {
	switch {
	case v < 0xfd:
		return []byte{byte(v)}
	case v <= 0xffff:
		return append([]byte{0xfd}, u64(v)[:2]...)
	case v <= 0xffffffff:
		return append([]byte{0xfe}, u64(v)[:4]...)
	}
	return append([]byte{0xff}, u64(v)...)
}

// VarBytes is a length-prefixed byte string.
func VarBytes(b []byte) []byte { return append(VarInt(uint64(len(b))), b...) }

// Out is the encoding of an output.
func (o *TxOut) Out() []byte { return append(u64(o.Value), VarBytes(o.Script)...) }

// HasWitness tells whether some input has witness items.
func (t *Tx) HasWitness() bool {
	for _, in := range t.Ins {
		if len(in.Witness) > 0 {
			return true
		}
	}
	return false
}

// Bytes is the network encoding; with witness data when asked for and present.
func (t *Tx) Bytes(witness bool) []byte {
	witness = witness && t.HasWitness()
	b := u32(t.Version)
	if witness {
		b = append(b, 0, 1)
	}
	b = append(b, VarInt(uint64(len(t.Ins)))...)
	for _, in := range t.Ins {
		b = append(b, in.Hash...)
		b = append(b, u32(in.Index)...)
		b = append(b, VarBytes(in.Script)...)
		b = append(b, u32(in.Seq)...)
	}
	b = append(b, VarInt(uint64(len(t.Outs)))...)
	for _, o := range t.Outs {
		b = append(b, o.Out()...)
	}
	if witness {
		for _, in := range t.Ins {
			b = append(b, VarInt(uint64(len(in.Witness)))...)
			for _, w := range in.Witness {
				b = append(b, VarBytes(w)...)
			}
		}
	}
	return append(b, u32(t.LockTime)...)
}

type rd struct {
	b    []byte
	fail bool
}

func (r *rd) take(n uint64) []byte {
	if r.fail || n > uint64(len(r.b)) {
		r.fail = true
		return make([]byte, 8)
	}
	x := r.b[:n]
	r.b = r.b[n:]
	return append([]byte{}, x...)
}

func (r *rd) u32() uint32 { return binary.LittleEndian.Uint32(r.take(4)) }

func (r *rd) varint() uint64 {
	p := r.take(1)[0]
	var v uint64
	switch p {
	case 0xfd:
		v = uint64(binary.LittleEndian.Uint16(r.take(2)))
	case 0xfe:
		v = uint64(binary.LittleEndian.Uint32(r.take(4)))
	case 0xff:
		v = binary.LittleEndian.Uint64(r.take(8))
	default:
		return uint64(p)
	}
	if len(VarInt(v)) == 1 || VarInt(v)[0] != p {
		r.fail = true
	}
	return v
}

func (r *rd) varbytes() []byte {
	b := r.take(r.varint())
	if r.fail {
		return nil
	}
	return b
}

// ParseTx decodes the front of b: the witness form (with some witness data) or the plain form. It returns
// how many bytes were consumed.
func ParseTx(b []byte, witness bool) (*Tx, int, bool) {
	r := &rd{b: b}
	t := &Tx{Version: r.u32()}
	if witness {
		if m := r.take(2); r.fail || m[0] != 0 || m[1] != 1 {
			return nil, 0, false
		}
	}
	for n := r.varint(); n > 0 && !r.fail; n-- {
		in := &TxIn{}
		in.Hash = r.take(32)
		in.Index = r.u32()
		in.Script = r.varbytes()
		in.Seq = r.u32()
		t.Ins = append(t.Ins, in)
	}
	if r.fail {
		return nil, 0, false
	}
	for n := r.varint(); n > 0 && !r.fail; n-- {
		o := &TxOut{Value: binary.LittleEndian.Uint64(r.take(8))}
		o.Script = r.varbytes()
		t.Outs = append(t.Outs, o)
	}
	if witness {
		for _, in := range t.Ins {
			for n := r.varint(); n > 0 && !r.fail; n-- {
				in.Witness = append(in.Witness, r.varbytes())
			}
			if r.fail {
				return nil, 0, false
			}
		}
		if !t.HasWitness() {
			return nil, 0, false
		}
	}
	t.LockTime = r.u32()
	if r.fail {
		return nil, 0, false
	}
	return t, len(b) - len(r.b), true
}

// DropOp removes the opcode outside push data; scripts that do not parse stay as they are.
func DropOp(script []byte, op byte) []byte {
	var out []byte
	for s := script; len(s) > 0; {
		n := 1
		switch c := s[0]; {
		case c >= 1 && c <= 75:
			n = 1 + int(c)
		case c >= 76 && c <= 78:
			w := 1 << (c - 76)
			if len(s) < 1+w {
				return script
			}
			l := 0
			for i := w; i >= 1; i-- {
				l = l<<8 | int(s[i])
			}
			n = 1 + w + l
		}
		if n > len(s) {
			return script
		}
		if s[0] != op {
			out = append(out, s[:n]...)
		}
		s = s[n:]
	}
	return out
}

// Walks tells whether the script splits into opcodes and whole pushes.
func Walks(script []byte) bool {
	for s := script; len(s) > 0; {
		n := 1
		switch c := s[0]; {
		case c >= 1 && c <= 75:
			n = 1 + int(c)
		case c >= 76 && c <= 78:
			w := 1 << (c - 76)
			if len(s) < 1+w {
				return false
			}
			l := 0
			for i := w; i >= 1; i-- {
				l = l<<8 | int(s[i])
			}
			n = 1 + w + l
		}
		if n > len(s) {
			return false
		}
		s = s[n:]
	}
	return true
}

// SigHashLegacy is the original digest: the transaction is copied and edited as the original client does.
func SigHashLegacy(t *Tx, idx int, script []byte, hashType uint32) []byte {
	one := make([]byte, 32)
	one[0] = 1
	if idx < 0 || idx >= len(t.Ins) {
		return one
	}
	c := &Tx{Version: t.Version, LockTime: t.LockTime}
	for i, in := range t.Ins {
		x := &TxIn{Hash: in.Hash, Index: in.Index, Seq: in.Seq}
		if i == idx {
			x.Script = DropOp(script, 0xab)
		}
		c.Ins = append(c.Ins, x)
	}
	for _, o := range t.Outs {
		c.Outs = append(c.Outs, &TxOut{o.Value, o.Script})
	}
	switch hashType & 0x1f {
	case 2:
		c.Outs = nil
		for i, in := range c.Ins {
			if i != idx {
				in.Seq = 0
			}
		}
	case 3:
		if idx >= len(c.Outs) {
			return one
		}
		c.Outs = c.Outs[:idx+1]
		for i := 0; i < idx; i++ {
			c.Outs[i] = &TxOut{Value: ^uint64(0)}
		}
		for i, in := range c.Ins {
			if i != idx {
				in.Seq = 0
			}
		}
	}
	if hashType&0x80 != 0 {
		c.Ins = c.Ins[idx : idx+1]
	}
	return DSha256(append(c.Bytes(false), u32(hashType)...))
}

// SigHashV0 is the BIP143 digest.
func SigHashV0(t *Tx, idx int, code []byte, value uint64, hashType uint32) []byte {
	zero := make([]byte, 32)
	prev, seq, outs := zero, zero, zero
	acp, base := hashType&0x80 != 0, hashType&0x1f
	if !acp {
		var b []byte
		for _, in := range t.Ins {
			b = append(append(b, in.Hash...), u32(in.Index)...)
		}
		prev = DSha256(b)
	}
	if !acp && base != 2 && base != 3 {
		var b []byte
		for _, in := range t.Ins {
			b = append(b, u32(in.Seq)...)
		}
		seq = DSha256(b)
	}
	if base != 2 && base != 3 {
		var b []byte
		for _, o := range t.Outs {
			b = append(b, o.Out()...)
		}
		outs = DSha256(b)
	} else if base == 3 && idx < len(t.Outs) {
		outs = DSha256(t.Outs[idx].Out())
	}
	in := t.Ins[idx]
	return DSha256(bytes.Join([][]byte{u32(t.Version), prev, seq, in.Hash, u32(in.Index), VarBytes(code), u64(value), u32(in.Seq), outs, u32(t.LockTime), u32(hashType)}, nil))
}

// Kinds of locking scripts.
const (
	Unknown = iota
	PKH
	SH
	WPKH
	WSH
)

// Kind classifies a locking script and gives its hash.
func Kind(s []byte) (int, []byte) {
	switch {
	case len(s) == 25 && s[0] == 0x76 && s[1] == 0xa9 && s[2] == 20 && s[23] == 0x88 && s[24] == 0xac:
		return PKH, s[3:23]
	case len(s) == 23 && s[0] == 0xa9 && s[1] == 20 && s[22] == 0x87:
		return SH, s[2:22]
	case len(s) == 22 && s[0] == 0 && s[1] == 20:
		return WPKH, s[2:]
	case len(s) == 34 && s[0] == 0 && s[1] == 32:
		return WSH, s[2:]
	}
	return Unknown, nil
}

// Lock is the standard locking script of a kind.
func Lock(kind int, hash []byte) []byte {
	j := func(pre []byte, post ...byte) []byte {
		return append(append(append([]byte{}, pre...), hash...), post...)
	}
	switch kind {
	case PKH:
		return j([]byte{0x76, 0xa9, 20}, 0x88, 0xac)
	case SH:
		return j([]byte{0xa9, 20}, 0x87)
	case WPKH:
		return j([]byte{0, 20})
	case WSH:
		return j([]byte{0, 32})
	}
	panic("kind")
}

// SigHash is the digest input idx signs, by the kind of its spent output.
func (t *Tx) SigHash(idx int, hashType uint32) []byte {
	in := t.Ins[idx]
	k, h := Kind(in.Locking)
	switch k {
	case WPKH:
		return SigHashV0(t, idx, Lock(PKH, h), in.Value, hashType)
	case WSH:
		return SigHashV0(t, idx, in.Redeem, in.Value, hashType)
	case SH:
		if in.Redeem != nil {
			return SigHashLegacy(t, idx, in.Redeem, hashType)
		}
	}
	return SigHashLegacy(t, idx, in.Locking, hashType)
}

// CheckSig checks a signature with its hash type byte for input idx.
func (t *Tx) CheckSig(idx int, sig, pub []byte) bool {
	if len(sig) == 0 {
		return false
	}
	p, ok := ParsePub(pub)
	if !ok {
		return false
	}
	r, s, ok := ParseDER(sig[:len(sig)-1])
	return ok && EcdsaVerify(p, t.SigHash(idx, uint32(sig[len(sig)-1])), r, s)
}

// VerifyIn decides whether input idx is authorised.
func (t *Tx) VerifyIn(idx int) bool {
	in := t.Ins[idx]
	vm := &VM{Check: func(sig, pub []byte) bool { return t.CheckSig(idx, sig, pub) }}
	k, h := Kind(in.Locking)
	pushes := func() (u []byte) {
		for _, w := range in.Witness {
			u = append(u, PushData(w)...)
		}
		return
	}
	switch k {
	case PKH, SH:
		return vm.Verify(in.Script, in.Locking)
	case WPKH:
		return len(in.Script) == 0 && len(in.Witness) == 2 && vm.Verify(pushes(), Lock(PKH, h))
	case WSH:
		return len(in.Script) == 0 && bytes.Equal(Sha(in.Redeem), h) && vm.Verify(pushes(), Lock(SH, Hash160(in.Redeem)))
	}
	return false
}

// Verify decides whether every input is authorised.
func (t *Tx) Verify() bool {
	for i := range t.Ins {
		if !t.VerifyIn(i) {
			return false
		}
	}
	return true
}

// Clone copies deeply.
func (t *Tx) Clone() *Tx {
	dup := func(b []byte) []byte {
		if b == nil {
			return nil
		}
		return append([]byte{}, b...)
	}
	c := &Tx{Version: t.Version, LockTime: t.LockTime}
	for _, in := range t.Ins {
		x := *in
		x.Hash, x.Script, x.Locking, x.Redeem = dup(in.Hash), dup(in.Script), dup(in.Locking), dup(in.Redeem)
		x.Witness = nil
		for _, w := range in.Witness {
			x.Witness = append(x.Witness, dup(w))
		}
		c.Ins = append(c.Ins, &x)
	}
	for _, o := range t.Outs {
		c.Outs = append(c.Outs, &TxOut{o.Value, dup(o.Script)})
	}
	return c
}

// MultiSig is the m-of-n script.
func MultiSig(m int, pubs ...[]byte) []byte {
	num := func(v int) []byte { return Push(NumEnc(int64(v))) }
	s := num(m)
	for _, p := range pubs {
		s = append(s, PushData(p)...)
	}
	return append(append(s, num(len(pubs))...), 0xae)
}
