package pproto

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"

	"verif/kit"
	"verif/ref"
)

const (
	maxInv     = 50000
	maxHeaders = 2000
)

// model is a message in reference form: kind and its fields.
type model struct {
	Kind    string
	U       [8]uint64 // numeric fields in layout order
	Addr    [2][]byte
	Text    string
	Reason  string
	Hash    []byte
	Hashes  [][]byte
	Types   []uint32
	Headers []hdr
	Data    []byte
}

type hdr struct {
	Ver, Time, Bits, Nonce uint32
	Prev, Root             []byte
}

func (h hdr) raw() []byte {
	b := le32(h.Ver)
	b = append(append(b, h.Prev...), h.Root...)
	return append(append(append(b, le32(h.Time)...), le32(h.Bits)...), le32(h.Nonce)...)
}

func le32(v uint32) []byte { return binary.LittleEndian.AppendUint32(nil, v) }
func le64(v uint64) []byte { return binary.LittleEndian.AppendUint64(nil, v) }
func be16(v uint64) []byte { return binary.BigEndian.AppendUint16(nil, uint16(v)) }
func vstr(s string) []byte { return append(ref.VarInt(uint64(len(s))), s...) }

// numeric fields of a version message: version, services, time, services you, port you, services me, port me, nonce; last block and relay are in Types
func (m *model) bytes() []byte {
	switch m.Kind {
	case "version":
		return bytes.Join([][]byte{le32(uint32(m.U[0])), le64(m.U[1]), le64(m.U[2]), le64(m.U[3]), m.Addr[0], be16(m.U[4]), le64(m.U[5]), m.Addr[1], be16(m.U[6]), le64(m.U[7]), vstr(m.Text), le32(m.Types[0]), {byte(m.Types[1])}}, nil)
	case "verack":
		return nil
	case "ping", "pong":
		return le64(m.U[0])
	case "inv", "getdata":
		b := ref.VarInt(uint64(len(m.Types)))
		for i, t := range m.Types {
			b = append(append(b, le32(t)...), m.Hashes[i]...)
		}
		return b
	case "getheaders":
		b := append(le32(uint32(m.U[0])), ref.VarInt(uint64(len(m.Hashes)))...)
		for _, h := range m.Hashes {
			b = append(b, h...)
		}
		return append(b, m.Hash...)
	case "headers":
		b := ref.VarInt(uint64(len(m.Headers)))
		for _, h := range m.Headers {
			b = append(append(b, h.raw()...), 0)
		}
		return b
	case "tx":
		return m.Data
	case "reject":
		b := append(append(vstr(m.Text), byte(m.U[0])), vstr(m.Reason)...)
		if m.Text == "tx" || m.Text == "block" {
			b = append(b, m.Hash...)
		}
		return b
	}
	panic(m.Kind)
}

func empty(kind string) xprotocol.Message {
	switch kind {
	case "version":
		return &xprotocol.MsgVersion{}
	case "verack":
		return xprotocol.NewMsgVerAck()
	case "ping":
		return xprotocol.NewMsgPing(0)
	case "pong":
		return xprotocol.NewMsgPong(0)
	case "inv":
		return xprotocol.NewMsgInv()
	case "getdata":
		return xprotocol.NewMsgGetData()
	case "getheaders":
		return xprotocol.NewMsgGetHeaders(network.MainNet)
	case "headers":
		return xprotocol.NewMsgHeaders()
	case "tx":
		return xprotocol.NewMsgTx(nil)
	case "reject":
		return xprotocol.NewMsgReject("", 0, "")
	}
	panic(kind)
}

var kinds = []string{"version", "verack", "ping", "pong", "inv", "getdata", "getheaders", "headers", "tx", "reject"}

// real builds the library's message. Getheaders messages with a stop hash cannot be built, only decoded.
func (m *model) real() (xprotocol.Message, error) {
	switch m.Kind {
	case "version":
		return &xprotocol.MsgVersion{Version: uint32(m.U[0]), Services: m.U[1], Timestamp: m.U[2], ServicesYou: m.U[3], AddressYou: clone(m.Addr[0]), PortYou: uint32(m.U[4]),
			ServicesMe: m.U[5], AddressMe: clone(m.Addr[1]), PortMe: uint32(m.U[6]), Nonce: m.U[7], UserAgent: m.Text, LastBlock: m.Types[0], Relay: byte(m.Types[1])}, nil
	case "verack":
		return xprotocol.NewMsgVerAck(), nil
	case "ping":
		return xprotocol.NewMsgPing(m.U[0]), nil
	case "pong":
		return xprotocol.NewMsgPong(m.U[0]), nil
	case "inv":
		x := xprotocol.NewMsgInv()
		return x, x.AddInvVect(m.invs()...)
	case "getdata":
		x := xprotocol.NewMsgGetData()
		return x, x.AddInvVect(m.invs()...)
	case "getheaders":
		n := *network.MainNet
		n.ProtocolVersion = uint32(m.U[0])
		x := xprotocol.NewMsgGetHeaders(&n)
		for _, h := range m.Hashes {
			if err := x.AddBlockLocatorHash(clone(h)); err != nil {
				return nil, err
			}
		}
		return x, nil
	case "headers":
		x := xprotocol.NewMsgHeaders()
		return x, x.AddBlockHeader(m.hdrs()...)
	case "tx":
		return xprotocol.NewMsgTx(clone(m.Data)), nil
	case "reject":
		x := xprotocol.NewMsgReject(m.Text, xprotocol.RejectCode(m.U[0]), m.Reason)
		if m.Hash != nil {
			x.Hash = clone(m.Hash)
		}
		return x, nil
	}
	panic(m.Kind)
}

func clone(b []byte) []byte { return append([]byte{}, b...) }

func (m *model) invs() []*xprotocol.InvVect {
	var out []*xprotocol.InvVect
	for i, t := range m.Types {
		out = append(out, xprotocol.NewInvVect(xprotocol.InvType(t), clone(m.Hashes[i])))
	}
	return out
}

func (m *model) hdrs() []*xprotocol.BlockHeader {
	var out []*xprotocol.BlockHeader
	for _, h := range m.Headers {
		out = append(out, &xprotocol.BlockHeader{Version: h.Ver, PrevBlock: clone(h.Prev), MerkleRoot: clone(h.Root), Timestamp: h.Time, Bits: h.Bits, Nonce: h.Nonce})
	}
	return out
}

// same compares a real message with the model; "" when equal.
func (m *model) same(x xprotocol.Message) string {
	bad := func(what string, g, w any) string { return fmt.Sprintf("%s: %s is %v, want %v", m.Kind, what, g, w) }
	if reflect.TypeOf(x) != reflect.TypeOf(empty(m.Kind)) {
		return bad("type", reflect.TypeOf(x), reflect.TypeOf(empty(m.Kind)))
	}
	if x.Command() != m.Kind {
		return bad("command", x.Command(), m.Kind)
	}
	invs := func(l []*xprotocol.InvVect) string {
		if len(l) != len(m.Types) {
			return bad("count", len(l), len(m.Types))
		}
		for i, v := range l {
			if uint32(v.Type) != m.Types[i] || !bytes.Equal(v.Hash, m.Hashes[i]) {
				return bad(fmt.Sprint("element ", i), v, m.Types[i])
			}
			if v.Size() != 36 {
				return bad("element size", v.Size(), 36)
			}
		}
		return ""
	}
	switch x := x.(type) {
	case *xprotocol.MsgVersion:
		g := [8]uint64{uint64(x.Version), x.Services, x.Timestamp, x.ServicesYou, uint64(x.PortYou), x.ServicesMe, uint64(x.PortMe), x.Nonce}
		if g != m.U || !bytes.Equal(x.AddressYou, m.Addr[0]) || !bytes.Equal(x.AddressMe, m.Addr[1]) || x.UserAgent != m.Text || x.LastBlock != m.Types[0] || uint32(x.Relay) != m.Types[1] {
			return bad("message", fmt.Sprintf("%+v", x), fmt.Sprintf("%+v", m))
		}
	case *xprotocol.MsgPing:
		if x.Nonce != m.U[0] {
			return bad("nonce", x.Nonce, m.U[0])
		}
	case *xprotocol.MsgPong:
		if x.Nonce != m.U[0] {
			return bad("nonce", x.Nonce, m.U[0])
		}
	case *xprotocol.MsgInv:
		if d := invs(x.Invs); d != "" {
			return d
		}
	case *xprotocol.MsgGetData:
		if d := invs(x.InvList); d != "" {
			return d
		}
	case *xprotocol.MsgHeaders:
		if len(x.Headers) != len(m.Headers) {
			return bad("count", len(x.Headers), len(m.Headers))
		}
		for i, h := range x.Headers {
			w := m.Headers[i]
			if h.Version != w.Ver || h.Timestamp != w.Time || h.Bits != w.Bits || h.Nonce != w.Nonce || !bytes.Equal(h.PrevBlock, w.Prev) || !bytes.Equal(h.MerkleRoot, w.Root) {
				return bad(fmt.Sprint("header ", i), fmt.Sprintf("%+v", h), w)
			}
			if i < 3 && (h.Size() != 80 || !bytes.Equal(h.BlockHash(), ref.DSha256(w.raw()))) {
				return bad(fmt.Sprint("hash of header ", i), fmt.Sprintf("%x", h.BlockHash()), w)
			}
		}
	case *xprotocol.MsgTx:
		if !bytes.Equal(x.Data, m.Data) {
			return bad("data", x.Data, m.Data)
		}
	case *xprotocol.MsgReject:
		if x.Cmd != m.Text || x.Code != byte(m.U[0]) || x.Reason != m.Reason || !bytes.Equal(x.Hash, m.Hash) {
			return bad("message", fmt.Sprintf("%+v", x), fmt.Sprintf("%+v", m))
		}
	}
	// the layout shows every field, those of getheaders too
	w := m.bytes()
	if g := x.Encode(); !bytes.Equal(g, w) {
		return fmt.Sprintf("%s: encodes to %x, want %x", m.Kind, head(g), head(w))
	}
	if x.Size() != len(w) {
		return bad("size", x.Size(), len(w))
	}
	return ""
}

func head(b []byte) []byte {
	if len(b) > 300 {
		return b[:300]
	}
	return b
}

func u64(t *rapid.T, label string) uint64 {
	if rapid.IntRange(0, 3).Draw(t, label+".k") == 0 {
		return rapid.SampledFrom([]uint64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1}).Draw(t, label)
	}
	return rapid.Uint64().Draw(t, label)
}
func u32(t *rapid.T, label string) uint32 { return uint32(u64(t, label)) }

func text(t *rapid.T, label string) string {
	switch rapid.IntRange(0, 9).Draw(t, label+".k") {
	case 0:
		return ""
	case 1:
		return string(kit.Uniform(t, rapid.IntRange(250, 256).Draw(t, label+".n"), label))
	case 2:
		return string(kit.Uniform(t, rapid.SampledFrom([]int{1000, 65534, 65535, 65536}).Draw(t, label+".n"), label))
	}
	return rapid.StringN(0, 20, 60).Draw(t, label)
}

func count(t *rapid.T, limit int) int {
	switch rapid.IntRange(0, 29).Draw(t, "count.k") {
	case 0:
		return limit
	case 1, 2, 3:
		return min(limit, rapid.IntRange(250, 256).Draw(t, "count"))
	case 4:
		return rapid.IntRange(0, limit).Draw(t, "count")
	}
	return rapid.IntRange(0, 6).Draw(t, "count")
}

// draw makes a message of any kind with any field values.
func draw(t *rapid.T, kind string) *model {
	m := &model{Kind: kind}
	h32 := func(n int, seed uint64) []byte { return kit.Expand(seed+uint64(n)*7919, 32) }
	switch kind {
	case "version":
		for i := range m.U {
			m.U[i] = u64(t, fmt.Sprint("u", i))
		}
		m.U[0] = protocol(t)
		m.U[4] &= 0xffff
		m.U[6] &= 0xffff
		m.Addr[0], m.Addr[1] = address(t, "you"), address(t, "me")
		m.Text = text(t, "agent")
		m.Types = []uint32{u32(t, "last"), uint32(rapid.Byte().Draw(t, "relay"))}
	case "ping", "pong":
		m.U[0] = u64(t, "nonce")
	case "inv", "getdata":
		n := count(t, maxInv)
		seed := rapid.Uint64().Draw(t, "seed")
		for i := 0; i < n; i++ {
			typ := uint32(seed>>(i%50)) & 3
			if n < 10 {
				typ = rapid.OneOf(rapid.SampledFrom([]uint32{0, 1, 2, 3, 4, 5, 1<<30 + 1, 1<<30 + 2, 1<<30 + 3, 1 << 30}), rapid.Custom(func(t *rapid.T) uint32 { return u32(t, "word") })).Draw(t, "type")
			}
			m.Types = append(m.Types, typ)
			m.Hashes = append(m.Hashes, h32(i, seed))
		}
	case "getheaders":
		m.U[0] = protocol(t)
		n := max(1, count(t, 500))
		seed := rapid.Uint64().Draw(t, "seed")
		for i := 0; i < n; i++ {
			m.Hashes = append(m.Hashes, h32(i, seed))
		}
		m.Hash = make([]byte, 32)
		if rapid.Bool().Draw(t, "stop") {
			m.Hash = kit.BytesN(t, 32, "stophash")
		}
	case "headers":
		n := count(t, maxHeaders)
		seed := rapid.Uint64().Draw(t, "seed")
		for i := 0; i < n; i++ {
			x := kit.Expand(seed^uint64(i+1)<<32, 16)
			m.Headers = append(m.Headers, hdr{binary.LittleEndian.Uint32(x), binary.LittleEndian.Uint32(x[4:]), binary.LittleEndian.Uint32(x[8:]), binary.LittleEndian.Uint32(x[12:]), h32(2*i, seed), h32(2*i+1, seed)})
		}
		if n > 0 {
			m.Headers[0].Ver, m.Headers[n-1].Nonce = u32(t, "ver"), u32(t, "nonce")
		}
	case "tx":
		n := rapid.IntRange(0, 300).Draw(t, "n")
		if rapid.IntRange(0, 9).Draw(t, "big") == 0 {
			n = rapid.SampledFrom([]int{32 * 1024, 32*1024 - 24, 40000, 70000, 200000}).Draw(t, "n")
		}
		m.Data = kit.Uniform(t, n, "data")
	case "reject":
		m.Text = rapid.SampledFrom([]string{"tx", "block", "version", "", "headers", "txx", "TX"}).Draw(t, "cmd")
		m.U[0] = uint64(rapid.OneOf(rapid.SampledFrom([]byte{0x01, 0x10, 0x11, 0x12, 0x40, 0x41, 0x42, 0x43}), rapid.Byte()).Draw(t, "code"))
		m.Reason = text(t, "reason")
		if m.Text == "tx" || m.Text == "block" {
			m.Hash = kit.BytesN(t, 32, "hash")
		}
	}
	return m
}

// protocol draws a protocol version, often one at which the protocol changed.
func protocol(t *rapid.T) uint64 {
	if rapid.Bool().Draw(t, "known") {
		return rapid.SampledFrom([]uint64{0, 105, 106, 209, 210, 31401, 31402, 31800, 60000, 60001, 60002, 70000, 70001, 70002, 70011, 70012, 70013, 70014, 70015, 70016}).Draw(t, "protocol")
	}
	return u64(t, "version") & 0xffffffff
}

// address draws an address of any family.
func address(t *rapid.T, label string) []byte {
	b := kit.BytesN(t, 16, label)
	switch rapid.IntRange(0, 3).Draw(t, label+".family") {
	case 0:
		copy(b, append(make([]byte, 10), 0xff, 0xff))
	case 1:
		copy(b, []byte{0xfd, 0x87, 0xd8, 0x7e, 0xeb, 0x43})
	}
	return b
}

// parseMsg is the reference decoder. ok: a complete message, n bytes long. vague: implementations may differ.
func parseMsg(kind string, b []byte) (m *model, n int, ok, vague bool) {
	m = &model{Kind: kind}
	at := 0
	fail := false
	take := func(n uint64) []byte {
		if fail || n > uint64(len(b)-at) {
			fail = true
			return make([]byte, min(n, 32))
		}
		at += int(n)
		return b[at-int(n) : at]
	}
	num := func(n int) uint64 {
		v := uint64(0)
		for i, x := range take(uint64(n)) {
			v |= uint64(x) << (8 * i)
		}
		return v
	}
	varint := func() uint64 {
		switch p := take(1)[0]; {
		case p < 0xfd:
			return uint64(p)
		case p == 0xfd:
			v := num(2)
			fail = fail || v < 0xfd
			return v
		case p == 0xfe:
			v := num(4)
			fail = fail || v < 1<<16
			return v
		default:
			v := num(8)
			fail = fail || v < 1<<32
			return v
		}
	}
	switch kind {
	case "version":
		m.U[0], m.U[1], m.U[2], m.U[3] = num(4), num(8), num(8), num(8)
		m.Addr[0] = take(16)
		p := take(2)
		m.U[4] = uint64(binary.BigEndian.Uint16(p))
		m.U[5] = num(8)
		m.Addr[1] = take(16)
		p = take(2)
		m.U[6] = uint64(binary.BigEndian.Uint16(p))
		m.U[7] = num(8)
		m.Text = string(take(varint()))
		m.Types = []uint32{uint32(num(4)), 0}
		vague = !fail && at == len(b) // relay is missing in old versions
		m.Types[1] = uint32(num(1))
	case "verack":
	case "ping", "pong":
		m.U[0] = num(8)
	case "inv", "getdata":
		c := varint()
		fail = fail || c > maxInv
		for i := uint64(0); i < c && !fail; i++ {
			m.Types = append(m.Types, uint32(num(4)))
			m.Hashes = append(m.Hashes, take(32))
		}
	case "getheaders":
		m.U[0] = num(4)
		c := varint()
		for i := uint64(0); i < c && !fail; i++ {
			m.Hashes = append(m.Hashes, take(32))
		}
		vague = !fail && (len(m.Hashes) == 0 || len(m.Hashes) > 101)
		m.Hash = take(32)
		vague = vague && !fail
	case "headers":
		c := varint()
		fail = fail || c > maxHeaders
		for i := uint64(0); i < c && !fail; i++ {
			h := hdr{Ver: uint32(num(4)), Prev: take(32), Root: take(32), Time: uint32(num(4)), Bits: uint32(num(4)), Nonce: uint32(num(4))}
			m.Headers = append(m.Headers, h)
			if x := take(1); !fail && x[0] != 0 {
				vague = true // a transaction count other than zero
			}
		}
		vague = vague && !fail
	case "tx":
		m.Data = b
		at = len(b)
	case "reject":
		m.Text = string(take(varint()))
		m.U[0] = num(1)
		m.Reason = string(take(varint()))
		if m.Text == "tx" || m.Text == "block" {
			m.Hash = take(32)
		}
	}
	return m, at, !fail, vague
}

func TestP28(t *testing.T) {
	r := kit.New(t, "P28", "addresses are 16 bytes, ports at most 65535, hashes 32 bytes; a reject message carries a hash exactly when it rejects a transaction or block", "bytes behind a complete message may be ignored or refused", "a version message without its last byte, a headers message with transaction counts, and a getheaders message with no or more than 101 locators may be refused", "messages of unknown commands carry no payload")
	kind := func(t *rapid.T) string { return rapid.SampledFrom(kinds).Draw(t, "kind") }

	r.Run(t, "roundtrip", 3000, 20, "messages of every kind with any field values and up to the allowed number of elements, against the layout; non-trivial: the encoding is not empty", func(t *rapid.T, c *kit.Case) {
		k := kind(t)
		m := draw(t, k)
		w := m.bytes()
		var x xprotocol.Message
		if k == "getheaders" && !bytes.Equal(m.Hash, make([]byte, 32)) {
			x = empty(k)
			if err := x.Decode(w); err != nil {
				t.Fatalf("decoding %x: %v", head(w), err)
			}
		} else {
			var err error
			if x, err = m.real(); err != nil {
				t.Fatalf("building %s: %v", k, err)
			}
		}
		for i := 0; i < 2; i++ { // encoding changes nothing
			if d := m.same(x); d != "" {
				t.Fatalf("%s", d)
			}
		}
		for i, y := range []xprotocol.Message{empty(k), func() xprotocol.Message {
			// a message that already has other contents
			o := empty(k)
			other := draw(t, k)
			if err := o.Decode(other.bytes()); err != nil {
				t.Fatalf("decoding %x: %v", head(other.bytes()), err)
			}
			return o
		}()} {
			sp, clean := kit.Spare(w)
			if err := y.Decode(sp); err != nil {
				t.Fatalf("decoding %s %x (target %d): %v", k, head(w), i, err)
			}
			if !clean() {
				t.Fatalf("decoding %s changed its input", k)
			}
			if k == "reject" && i == 1 && m.Hash == nil {
				y.(*xprotocol.MsgReject).Hash = nil // a hash left over has no meaning for other commands
			}
			if d := m.same(y); d != "" {
				t.Fatalf("decoded (target %d): %s", i, d)
			}
		}
		if d := m.same(x); d != "" {
			t.Fatalf("afterwards: %s", d)
		}
		if len(w) > 0 {
			c.Nontrivial(k, w)
		}
		c.Class(k)
		c.Sample("%s %x", k, head(w))
	})

	r.Run(t, "new", 600, 10, "messages made for a network, without elements; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		n := *rapid.SampledFrom([]*network.Network{network.MainNet, network.TestNet}).Draw(t, "net")
		port, last := uint32(rapid.Uint16().Draw(t, "port")), u32(t, "last")
		if rapid.Bool().Draw(t, "set") {
			if p := n.SetPort(port).SetLastBlock(last); p != &n || n.Port != port || n.LastBlock != last {
				t.Fatalf("port %d and last block %d set: network %+v", port, last, n)
			}
		} else {
			n.Port, n.LastBlock = port, last
		}
		n.ProtocolVersion = u32(t, "version")
		n.UserAgent = text(t, "agent")
		before := time.Now().Unix()
		v := xprotocol.NewMsgVersion(&n)
		if now := int64(v.Timestamp); now < before || now > time.Now().Unix() {
			t.Fatalf("version message of time %d made at %d", v.Timestamp, before)
		}
		if v.LastBlock != last {
			t.Fatalf("version message with last block %d for a network at block %d", v.LastBlock, last)
		}
		if v.Version != n.ProtocolVersion || v.PortMe != n.Port || v.PortYou != n.Port || v.UserAgent != n.UserAgent || len(v.AddressMe) != 16 || len(v.AddressYou) != 16 {
			t.Fatalf("version message %+v of network %+v", v, n)
		}
		b := v.Encode()
		m, l, ok, _ := parseMsg("version", b)
		if !ok || l != len(b) {
			t.Fatalf("version message %x", head(b))
		}
		if d := m.same(v); d != "" {
			t.Fatal(d)
		}
		if !net.IP(v.AddressMe).IsLoopback() || !net.IP(v.AddressYou).IsLoopback() {
			t.Fatalf("addresses %x %x are not the loopback address", v.AddressMe, v.AddressYou)
		}
		g := xprotocol.NewMsgGetHeaders(&n)
		b = g.Encode()
		m, l, ok, _ = parseMsg("getheaders", b)
		if !ok || l != len(b) || uint32(m.U[0]) != n.ProtocolVersion || len(m.Hashes) > 1 || !bytes.Equal(m.Hash, make([]byte, 32)) || (len(m.Hashes) == 1 && !bytes.Equal(m.Hashes[0], make([]byte, 32))) {
			t.Fatalf("getheaders message without locators: %x", b)
		}
		if g.Size() != len(b) {
			t.Fatalf("getheaders message without locators: size %d, %d bytes", g.Size(), len(b))
		}
		h := kit.Uniform(t, 32, "hash")
		if err := g.AddBlockLocatorHash(h); err != nil {
			t.Fatal(err)
		}
		m = &model{Kind: "getheaders", Hashes: [][]byte{h}, Hash: make([]byte, 32)}
		m.U[0] = uint64(n.ProtocolVersion)
		if d := m.same(g); d != "" {
			t.Fatalf("locator added after encoding: %s", d)
		}
		u := xprotocol.NewMsgUnhandle(rapid.StringN(0, 12, 12).Draw(t, "cmd"))
		if u.Size() != len(u.Encode()) {
			t.Fatalf("message of command %q: size %d, %d bytes", u.Command(), u.Size(), len(u.Encode()))
		}
		c.Nontrivial(n.UserAgent, n.ProtocolVersion, n.Port)
	})

	r.Run(t, "limits", 60, 10, "elements added in batches up to and beyond the limits, and encodings with counts around them; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		k := rapid.SampledFrom([]string{"inv", "getdata", "headers"}).Draw(t, "kind")
		limit := maxInv
		if k == "headers" {
			limit = maxHeaders
		}
		m := &model{Kind: k}
		x := empty(k)
		total, made := 0, 0 // every element carries a number of its own, so that their order shows
		num := func() []byte {
			made++
			return append(le32(uint32(made)), make([]byte, 28)...)
		}
		desc := ""
		for i := rapid.IntRange(1, 6).Draw(t, "batches"); i > 0; i-- {
			n := 0
			switch rapid.IntRange(0, 5).Draw(t, "how") {
			case 0:
				n = rapid.IntRange(0, 3).Draw(t, "n")
			case 1:
				n = limit - total
			case 2:
				n = limit - total + rapid.IntRange(1, 3).Draw(t, "n")
			case 3:
				n = limit - total - rapid.IntRange(1, 3).Draw(t, "n")
			case 4:
				n = limit * 2
			case 5:
				n = rapid.IntRange(0, limit).Draw(t, "n")
			}
			n = max(0, n)
			was := made
			var err error
			var ivs []*xprotocol.InvVect
			var hds []*xprotocol.BlockHeader
			for i := 0; i < n; i++ {
				if k == "headers" {
					hds = append(hds, &xprotocol.BlockHeader{PrevBlock: num(), MerkleRoot: make([]byte, 32)})
				} else {
					ivs = append(ivs, xprotocol.NewInvVect(1, num()))
				}
			}
			switch x := x.(type) {
			case *xprotocol.MsgInv:
				err = x.AddInvVect(ivs...)
			case *xprotocol.MsgGetData:
				err = x.AddInvVect(ivs...)
			case *xprotocol.MsgHeaders:
				err = x.AddBlockHeader(hds...)
			}
			desc += fmt.Sprintf(" +%d", n)
			if (err == nil) != (total+n <= limit) && n > 0 {
				t.Fatalf("%s%s: adding %d to %d: %v", k, desc, n, total, err)
			}
			if err != nil {
				continue
			}
			total += n
			for i := was + 1; i <= made; i++ {
				id := append(le32(uint32(i)), make([]byte, 28)...)
				if k == "headers" {
					m.Headers = append(m.Headers, hdr{Prev: id, Root: make([]byte, 32)})
				} else {
					m.Types, m.Hashes = append(m.Types, 1), append(m.Hashes, id)
				}
			}
		}
		if d := m.same(x); d != "" {
			t.Fatalf("%s%s: %s", k, desc, d)
		}
		// a complete encoding with n elements
		n := limit + rapid.IntRange(-2, 3).Draw(t, "off")
		el := 36
		if k == "headers" {
			el = 81
		}
		err := empty(k).Decode(append(ref.VarInt(uint64(n)), make([]byte, n*el)...))
		if (err == nil) != (n <= limit) {
			t.Fatalf("decoding %s with %d elements: %v", k, n, err)
		}
		c.Nontrivial(k, desc, n)
		c.Sample("%s%s, %d decoded", k, desc, n)
	})

	r.Run(t, "hostile", 20000, 30, "encodings with bytes altered, cut or added, with huge or non-minimal counts, and random bytes, as payload of every kind; non-trivial: not the valid encoding", func(t *rapid.T, c *kit.Case) {
		k := kind(t)
		var w, b []byte
		switch rapid.IntRange(0, 4).Draw(t, "how") {
		case 0:
			b = kit.Bytes(t, 0, 120, "raw")
		case 1: // a count of any size before a few elements
			b = append(rapid.SampledFrom([][]byte{nil, le32(70015)}).Draw(t, "front"), rapid.SampledFrom([][]byte{{0xfd, 0xff, 0xff}, {0xfe, 0xff, 0xff, 0xff, 0x7f}, {0xfe, 0xff, 0xff, 0xff, 0xff}, {0xfe, 0, 0, 0, 0x80}, {0xff, 0, 0, 0, 0, 0, 0, 0, 0x80}, {0xff, 255, 255, 255, 255, 255, 255, 255, 255}, {0xff, 255, 255, 255, 255, 255, 255, 255, 127}, {0xff, 0, 0, 0, 0, 1, 0, 0, 0}, {0xfd, 1, 0}, {0xfe, 1, 0, 0, 0}, {0xff, 1, 0, 0, 0, 0, 0, 0, 0}}).Draw(t, "count")...)
			b = append(clone(b), kit.Uniform(t, rapid.IntRange(0, 200).Draw(t, "n"), "tail")...)
		default:
			m := draw(t, rapid.SampledFrom([]string{k, k, k, "inv", "reject"}).Draw(t, "as"))
			w = m.bytes()
			long := len(w) > 2000
			if long && m.Kind != "tx" && kit.Uniform(t, 1, "whole")[0] > 80 {
				w, long = w[:2000], false
			}
			switch rapid.IntRange(0, 2).Draw(t, "edit") {
			case 0:
				at := rapid.IntRange(0, len(w)).Draw(t, "cut")
				if long {
					at = len(w) - at
				}
				b = w[:at]
			case 1:
				b = append(clone(w), kit.Bytes(t, 1, 40, "more")...)
			default:
				b = kit.Mutate(t, w, "m")
			}
		}
		want, n, ok, vague := parseMsg(k, b)
		x := empty(k)
		var err error
		what := fmt.Sprintf("decoding %s %x", k, head(b))
		mem := kit.AllocBytes(func() { kit.NoPanic(t, what, func() { err = x.Decode(b) }) })
		if mem > 100000+uint64(len(b))*64 {
			t.Fatalf("%s: %d bytes allocated for %d", what, mem, len(b))
		}
		if !ok && err == nil && !vague {
			t.Fatalf("%s: accepted as %+v", what, x)
		}
		if ok && err != nil && !vague && n == len(b) {
			t.Fatalf("%s: %v", what, err)
		}
		if ok && err == nil && !vague {
			if d := want.same(x); d != "" {
				t.Fatalf("%s: %s", what, d)
			}
			c.Class("accepted")
		} else {
			c.Class("refused")
		}
		kit.NoPanic(t, "use after "+what, func() { x.Encode(); x.Size(); _ = fmt.Sprintf("%+v", x) })
		if !bytes.Equal(b, w) {
			c.Nontrivial(k, b)
		}
		c.Sample("%s %x: err=%v", k, head(b), err)
	})

	r.Run(t, "codes", 1000, 10, "inventory types and reject codes have their published numbers and names; non-trivial: a number without a name", func(t *rapid.T, c *kit.Case) {
		names := map[uint32]string{0: "ERROR", 1: "MSG_TX", 2: "MSG_BLOCK", 3: "MSG_FILTERED_BLOCK"}
		for i, k := range []xprotocol.InvType{xprotocol.InvTypeError, xprotocol.InvTypeTx, xprotocol.InvTypeBlock, xprotocol.InvTypeFilteredBlock} {
			if int(k) != i {
				t.Fatalf("inventory type %d has number %d", i, k)
			}
		}
		codes := []xprotocol.RejectCode{xprotocol.RejectMalformed, xprotocol.RejectInvalid, xprotocol.RejectObsolete, xprotocol.RejectDuplicate, xprotocol.RejectNonstandard, xprotocol.RejectDust, xprotocol.RejectInsufficientFee, xprotocol.RejectCheckpoint}
		for i, w := range []byte{1, 16, 17, 18, 64, 65, 66, 67} {
			if byte(codes[i]) != w {
				t.Fatalf("reject code %d has number %d want %d", i, codes[i], w)
			}
		}
		v := rapid.OneOf(rapid.Uint32Range(0, 6), rapid.Uint32()).Draw(t, "type")
		s := xprotocol.InvType(v).String()
		c.Sample("%d %s", v, s)
		if w, ok := names[v]; ok {
			if s != w {
				t.Fatalf("inventory type %d is called %s want %s", v, s, w)
			}
			return
		}
		c.Nontrivial(v)
		for _, w := range names {
			if s == w {
				t.Fatalf("inventory type %d is called %s", v, s)
			}
		}
		if !strings.Contains(s, fmt.Sprint(v)) {
			t.Fatalf("inventory type %d is called %q", v, s)
		}
	})
}
