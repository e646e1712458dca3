package pproto

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/network"
	"github.com/keyfuse/tokucore/xprotocol"

	"verif/kit"
	"verif/ref"
)

// half is one direction of a transport: a queue of bytes of bounded size, handed out in pieces of given sizes.
type half struct {
	mu     sync.Mutex
	cond   *sync.Cond
	buf    []byte
	log    []byte // everything accepted
	room   int    // most bytes waiting
	pieces []int
	at     int
	eof    bool // the writing side is closed
	gone   bool // the reading side is closed
	failAt int  // number of bytes accepted before writing fails, -1: never
	yield  bool
	eofNow bool // end of stream is told together with the last bytes
}

func newHalf(pieces []int) *half {
	h := &half{room: 1 << 30, pieces: pieces, failAt: -1}
	h.cond = sync.NewCond(&h.mu)
	return h
}

func (h *half) piece() int {
	if len(h.pieces) == 0 {
		return 1 << 30
	}
	n := h.pieces[h.at%len(h.pieces)]
	h.at++
	return n
}

var errTransport = errors.New("transport failed")

func (h *half) write(p []byte) (int, error) {
	n := 0
	for {
		h.mu.Lock()
		for len(h.buf) >= h.room && !h.gone && !h.eof {
			h.cond.Wait()
		}
		if h.gone || h.eof {
			h.mu.Unlock()
			return n, net.ErrClosed
		}
		k := min(len(p)-n, h.room-len(h.buf))
		if h.yield {
			k = min(k, h.piece())
		}
		if h.failAt >= 0 {
			if k = min(k, h.failAt-len(h.log)); k <= 0 && n < len(p) {
				h.mu.Unlock()
				return n, errTransport
			}
		}
		h.buf = append(h.buf, p[n:n+k]...)
		h.log = append(h.log, p[n:n+k]...)
		n += k
		h.cond.Broadcast()
		h.mu.Unlock()
		if n == len(p) {
			return n, nil
		}
		if h.yield {
			runtime.Gosched()
		}
	}
}

func (h *half) read(p []byte) (int, error) {
	h.mu.Lock()
	defer h.mu.Unlock()
	for len(h.buf) == 0 && !h.eof && !h.gone {
		h.cond.Wait()
	}
	if h.gone {
		return 0, net.ErrClosed
	}
	if len(h.buf) == 0 {
		return 0, io.EOF
	}
	n := copy(p, h.buf[:min(len(h.buf), h.piece())])
	h.buf = h.buf[n:]
	h.cond.Broadcast()
	if len(h.buf) == 0 && h.eof && h.eofNow {
		return n, io.EOF
	}
	return n, nil
}

func (h *half) closeWrite() {
	h.mu.Lock()
	h.eof = true
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) closeRead() {
	h.mu.Lock()
	h.gone = true
	h.cond.Broadcast()
	h.mu.Unlock()
}

func (h *half) bytes() []byte {
	h.mu.Lock()
	defer h.mu.Unlock()
	return clone(h.log)
}

// conn is one end of a transport.
type conn struct{ in, out *half }

type addr string

func (a addr) Network() string { return "mem" }
func (a addr) String() string  { return string(a) }

func (c *conn) Read(p []byte) (int, error)         { return c.in.read(p) }
func (c *conn) Write(p []byte) (int, error)        { return c.out.write(p) }
func (c *conn) Close() error                       { c.out.closeWrite(); c.in.closeRead(); return nil }
func (c *conn) LocalAddr() net.Addr                { return addr("here") }
func (c *conn) RemoteAddr() net.Addr               { return addr("there") }
func (c *conn) SetDeadline(t time.Time) error      { return nil }
func (c *conn) SetReadDeadline(t time.Time) error  { return nil }
func (c *conn) SetWriteDeadline(t time.Time) error { return nil }

func frame(magic []byte, cmd string, payload []byte) []byte {
	b := append(clone(magic), make([]byte, 12)...)
	copy(b[4:], cmd)
	b = binary.LittleEndian.AppendUint32(b, uint32(len(payload)))
	b = append(b, ref.DSha256(payload)[:4]...)
	return append(b, payload...)
}

func pieces(t *rapid.T, label string) []int {
	switch rapid.IntRange(0, 4).Draw(t, label+".k") {
	case 0:
		return nil
	case 1:
		return []int{1}
	case 2:
		return []int{rapid.SampledFrom([]int{2, 3, 4, 12, 16, 20, 23, 24, 25, 100, 32768, 32767}).Draw(t, label)}
	}
	return rapid.SliceOfN(rapid.OneOf(rapid.IntRange(1, 40), rapid.IntRange(1, 40000)), 1, 12).Draw(t, label)
}

// sent is a message to be written: a known kind, or another command, which carries no payload.
type sent struct {
	m     *model
	cmd   string
	extra []byte // payload of another command, when a peer sends it
}

func (s *sent) command() string {
	if s.m != nil {
		return s.m.Kind
	}
	return s.cmd
}

func (s *sent) payload() []byte {
	if s.m != nil {
		return s.m.bytes()
	}
	return s.extra
}

func (s *sent) real(t *rapid.T) xprotocol.Message {
	if s.m == nil {
		return xprotocol.NewMsgUnhandle(s.cmd)
	}
	if s.m.Kind == "getheaders" && !bytes.Equal(s.m.Hash, make([]byte, 32)) {
		x := empty("getheaders")
		if err := x.Decode(s.m.bytes()); err != nil {
			t.Fatalf("decoding %x: %v", s.m.bytes(), err)
		}
		return x
	}
	x, err := s.m.real()
	if err != nil {
		t.Fatalf("building %s: %v", s.m.Kind, err)
	}
	return x
}

func (s *sent) same(x xprotocol.Message) string {
	if x == nil {
		return "no message"
	}
	if s.m != nil {
		return s.m.same(x)
	}
	if x.Command() != s.cmd {
		return fmt.Sprintf("command %q, want %q", x.Command(), s.cmd)
	}
	return ""
}

func known(cmd string) bool {
	for _, k := range kinds {
		if k == cmd {
			return true
		}
	}
	return false
}

func drawSent(t *rapid.T, small, foreign bool) *sent {
	if rapid.IntRange(0, 7).Draw(t, "other") == 0 {
		s := &sent{cmd: rapid.OneOf(rapid.SampledFrom([]string{"block", "getblocks", "sendheaders", "abcdefghijkl", "Ping", "pin", "pings", "version1", "a", "tx ", " tx", "ping ", "PING", "inv\t", "tx\x00x", "\x00tx"}), rapid.StringMatching("[a-z]{1,12}"), rapid.StringMatching("[ -~]{1,12}")).Draw(t, "cmd")}
		if known(s.cmd) {
			s.cmd = "x"
		}
		if foreign {
			s.extra = kit.Uniform(t, rapid.IntRange(0, 300).Draw(t, "n"), "extra")
		}
		return s
	}
	m := draw(t, rapid.SampledFrom(kinds).Draw(t, "kind"))
	if small && len(m.bytes()) > 5000 {
		m = draw(t, "ping")
	}
	return &sent{m: m}
}

func drawMagic(t *rapid.T) []byte {
	return rapid.OneOf(rapid.Just(network.MainNet.Magic), rapid.Just(network.TestNet.Magic), rapid.SliceOfN(rapid.Byte(), 4, 4)).Draw(t, "magic")
}

func names(l []*sent) string {
	s := ""
	for _, x := range l {
		s += fmt.Sprintf(" %s(%d)", x.command(), len(x.payload()))
	}
	return s
}

// slow is set when something has hung, so that later waits are short.
var slow = 30 * time.Second

// within runs f and reports whether it ended in time. A panic in f is handed on.
func within(f func()) bool {
	done := make(chan struct{})
	var trouble any
	go func() {
		defer close(done)
		defer func() {
			if trouble = recover(); trouble != nil {
				trouble = fmt.Sprintf("%v\n%s", trouble, debug.Stack())
			}
		}()
		f()
	}()
	timer := time.NewTimer(slow)
	defer timer.Stop()
	select {
	case <-done:
		if trouble != nil {
			panic(trouble)
		}
		return true
	case <-timer.C:
		slow = 2 * time.Second
		return false
	}
}

func TestP29(t *testing.T) {
	out := os.Stdout
	if null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0); err == nil {
		os.Stdout = null // the connection prints
		defer func() { os.Stdout = out; null.Close() }()
	}
	r := kit.New(t, "P29", "an in-memory transport stands for the network; it does not enforce deadlines", "commands other than the ten known ones are delivered by name, without payload", "payloads between 4,000,000 bytes (the protocol's limit) and 32 MiB (the largest serialised object) may be delivered or refused", "what a stream does after it has reported an error is not specified")

	read := func(t *rapid.T, s *xprotocol.Stream, what string) (x xprotocol.Message, err error) {
		ended := false
		kit.NoPanic(t, what, func() { ended = within(func() { x, err = s.ReadMessage() }) })
		if !ended {
			t.Fatalf("%s: reading hangs", what)
		}
		if (x == nil) == (err == nil) {
			t.Fatalf("%s: message %v and error %v", what, x, err)
		}
		return
	}

	r.Run(t, "sequence", 300, 20, "up to 12 messages of any kind written to a stream, compared with their frames, and read back in pieces of any size; non-trivial: at least 2 messages", func(t *rapid.T, c *kit.Case) {
		magic := drawMagic(t)
		n := rapid.IntRange(0, 12).Draw(t, "n")
		foreign := rapid.Bool().Draw(t, "foreign")
		var l []*sent
		var want []byte
		for i := 0; i < n; i++ {
			s := drawSent(t, i > 0, foreign)
			l = append(l, s)
			want = append(want, frame(magic, s.command(), s.payload())...)
		}
		in := newHalf(pieces(t, "pieces"))
		in.eofNow = rapid.Bool().Draw(t, "eofnow")
		back := newHalf(nil)
		if foreign {
			in.write(want)
		} else {
			w := xprotocol.NewStream(&conn{back, in}, magic)
			for i, s := range l {
				x := s.real(t)
				if err := w.WriteMessage(x); err != nil {
					t.Fatalf("writing message %d of%s: %v", i, names(l), err)
				}
				if d := s.same(x); d != "" {
					t.Fatalf("writing message %d of%s changed it: %s", i, names(l), d)
				}
			}
			if got := in.bytes(); !bytes.Equal(got, want) {
				t.Fatalf("written%s: %x, want %x", names(l), head(got), head(want))
			}
		}
		in.closeWrite()
		rd := xprotocol.NewStream(&conn{in, back}, magic)
		var got []xprotocol.Message
		for i := range l {
			x, err := read(t, rd, fmt.Sprintf("message %d of%s", i, names(l)))
			if err != nil {
				t.Fatalf("reading message %d of%s (pieces %v): %v", i, names(l), in.pieces, err)
			}
			got = append(got, x)
		}
		for i, s := range l { // later messages leave earlier ones alone
			if d := s.same(got[i]); d != "" {
				t.Fatalf("message %d of%s (pieces %v): %s", i, names(l), in.pieces, d)
			}
		}
		if x, err := read(t, rd, "end"); err != io.EOF {
			t.Fatalf("after%s: message %v, error %v, want the end of the stream", names(l), x, err)
		}
		if n > 1 {
			c.Nontrivial(want)
		}
		c.Class(fmt.Sprintf("foreign=%v", foreign))
		c.Sample("magic %x%s pieces %v", magic, names(l), in.pieces)
	})

	runSlow(t, r)
	r.Run(t, "corrupt", 1500, 20, "a sequence of frames of which one has other magic, checksum, payload or size, or an undecodable payload, or which is cut at any byte; non-trivial: the end is not regular", func(t *rapid.T, c *kit.Case) {
		magic := drawMagic(t)
		n := rapid.IntRange(1, 5).Draw(t, "n")
		bad := rapid.IntRange(0, n-1).Draw(t, "bad")
		kind := rapid.SampledFrom([]string{"magic", "checksum", "payload", "shorter", "longer", "huge", "cut", "cut", "cut", "undecodable", "swap"}).Draw(t, "damage")
		var l []*sent
		var all []byte
		cutEnd := false
		for i := 0; i < n; i++ {
			s := drawSent(t, true, true)
			if i == bad && len(s.payload()) == 0 && (kind == "payload" || kind == "shorter") {
				s = &sent{m: draw(t, "ping")}
			}
			if i == bad && kind != "undecodable" && kit.Uniform(t, 1, "bulk")[0] < 24 {
				// A payload beyond what the transport's buffers hold.
				size := rapid.OneOf(rapid.IntRange(5000, 70000), rapid.SampledFrom([]int{32 << 10, 32<<10 + 1, 64 << 10, 64<<10 + 1, 200000, 1<<20 + 1, 1<<20 + 70000})).Draw(t, "bulksize")
				data := bytes.Repeat(kit.Uniform(t, 61, "bulkdata"), size/61+1)[:size]
				s = &sent{cmd: "tx", extra: data}
				c.Class("bulk")
			}
			l = append(l, s)
			f := frame(magic, s.command(), s.payload())
			if i == bad {
				switch kind {
				case "magic":
					if rapid.Bool().Draw(t, "near") {
						f[rapid.IntRange(0, 3).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
					} else if other := drawMagic(t); !bytes.Equal(other, magic) {
						copy(f, other)
					} else {
						f[3]++
					}
				case "checksum":
					f[20+rapid.IntRange(0, 3).Draw(t, "at")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				case "payload":
					at := rapid.IntRange(0, len(f)-25).Draw(t, "at")
					if rapid.Bool().Draw(t, "fromend") {
						at = len(f) - 25 - at
					}
					f[24+at] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
				case "shorter":
					binary.LittleEndian.PutUint32(f[16:], uint32(rapid.IntRange(0, len(f)-25).Draw(t, "size")))
				case "longer":
					binary.LittleEndian.PutUint32(f[16:], uint32(len(f)-24+rapid.IntRange(1, 400).Draw(t, "more")))
				case "huge":
					binary.LittleEndian.PutUint32(f[16:], rapid.OneOf(rapid.SampledFrom([]uint32{1 << 20, 4000000, 32 << 20, 32<<20 + 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}), rapid.Uint32Range(1<<20, 1<<32-1)).Draw(t, "size"))
				case "cut":
					k := rapid.IntRange(0, len(f)-1).Draw(t, "cut")
					if rapid.Bool().Draw(t, "header") {
						k = rapid.SampledFrom([]int{0, 1, 3, 4, 5, 15, 16, 17, 19, 20, 21, 23, 24}).Draw(t, "cuth")
						k = min(k, len(f)-1)
					}
					cutEnd = k == 0
					f = f[:k]
				case "swap": // the payload of another frame, under this checksum
					p := s.payload()
					q := kit.Uniform(t, len(p)+1, "other")
					g := frame(magic, s.command(), q)
					copy(g[20:24], f[20:24])
					f = g
				case "undecodable":
					k := rapid.SampledFrom([]string{"version", "ping", "pong", "inv", "getdata", "getheaders", "headers", "reject"}).Draw(t, "as")
					p := draw(t, k).bytes()
					p = p[:rapid.IntRange(0, min(len(p)-1, 3000)).Draw(t, "keep")]
					if _, _, ok, vague := parseMsg(k, p); ok || vague {
						p = nil
					}
					f = frame(magic, k, p)
				}
			}
			all = append(all, f...)
			if i == bad && kind == "cut" {
				break
			}
		}
		what := fmt.Sprintf("%s of frame %d in%s", kind, bad, names(l))
		in := newHalf(pieces(t, "pieces"))
		in.eofNow = rapid.Bool().Draw(t, "eofnow")
		in.write(all)
		in.closeWrite()
		rd := xprotocol.NewStream(&conn{in, newHalf(nil)}, magic)
		for i := 0; i < bad; i++ {
			x, err := read(t, rd, what)
			if err != nil {
				t.Fatalf("%s: message %d: %v", what, i, err)
			}
			if d := l[i].same(x); d != "" {
				t.Fatalf("%s: message %d: %s", what, i, d)
			}
		}
		var x xprotocol.Message
		var err error
		mem := kit.AllocBytes(func() { x, err = read(t, rd, what) })
		if err == nil {
			t.Fatalf("%s: delivered as %s %+v", what, x.Command(), x)
		}
		if (err == io.EOF) != cutEnd {
			t.Fatalf("%s: reported as %v", what, err)
		}
		if lim := uint64(1<<20 + 64*len(all)); mem > lim {
			t.Fatalf("%s: %d bytes allocated while %d arrived", what, mem, len(all))
		}
		if !cutEnd {
			c.Nontrivial(all)
		}
		c.Class(kind)
		c.Sample("%s, pieces %v: %v", what, in.pieces, err)
	})

	r.Run(t, "limits", 16, 5, "payloads around 4,000,000 bytes and 32 MiB, written and read; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		magic := drawMagic(t)
		n := rapid.SampledFrom([]int{3999999, 4000000, 4000001, 32<<20 - 24, 32<<20 - 1, 32 << 20, 32 << 20, 32<<20 + 1, 33 << 20, 32<<20 + 4096}).Draw(t, "n")
		data := make([]byte, n)
		copy(data, kit.Uniform(t, 1000, "data"))
		q := newHalf(nil)
		w := xprotocol.NewStream(&conn{newHalf(nil), q}, magic)
		err := w.WriteMessage(xprotocol.NewMsgTx(data))
		if (err != nil && n <= 4000000) || (err == nil && n > 32<<20) {
			t.Fatalf("writing %d bytes: %v", n, err)
		}
		if err != nil && len(q.log) != 0 {
			t.Fatalf("refused to write %d bytes, but wrote %d", n, len(q.log))
		}
		in := newHalf(nil)
		in.write(frame(magic, "tx", data))
		in.closeWrite()
		written := err == nil
		x, err := read(t, xprotocol.NewStream(&conn{in, q}, magic), fmt.Sprintf("%d bytes", n))
		if written && err != nil {
			t.Fatalf("%d bytes were written, but reading them: %v", n, err)
		}
		if (err != nil && n <= 4000000) || (err == nil && n > 32<<20) {
			t.Fatalf("reading %d bytes: %v", n, err)
		}
		if err == nil && !bytes.Equal(x.(*xprotocol.MsgTx).Data, data) {
			t.Fatalf("%d bytes changed", n)
		}
		c.Nontrivial(n)
		c.Sample("%d bytes", n)
	})

	r.Run(t, "commands", 100, 10, "commands of up to 20 bytes written; those that do not fit are refused; non-trivial: longer than 10", func(t *rapid.T, c *kit.Case) {
		magic := drawMagic(t)
		cmd := rapid.StringMatching("[a-z]{1,20}").Draw(t, "cmd")
		if known(cmd) {
			cmd = "x"
		}
		q := newHalf(nil)
		w := xprotocol.NewStream(&conn{newHalf(nil), q}, magic)
		if err := w.WriteMessage(xprotocol.NewMsgUnhandle(cmd)); (err == nil) != (len(cmd) <= 12) {
			t.Fatalf("writing command %q: %v", cmd, err)
		} else if err != nil && len(q.log) != 0 {
			t.Fatalf("refused to write command %q, but wrote %x", cmd, q.log)
		}
		if err := w.WriteMessage(xprotocol.NewMsgPing(1)); err != nil {
			t.Fatalf("writing after command %q: %v", cmd, err)
		}
		want := frame(magic, "ping", []byte{1, 0, 0, 0, 0, 0, 0, 0})
		if len(cmd) <= 12 {
			want = append(frame(magic, cmd, nil), want...)
		}
		if !bytes.Equal(q.log, want) {
			t.Fatalf("command %q and ping written: %x, want %x", cmd, q.log, want)
		}
		if len(cmd) > 10 {
			c.Nontrivial(cmd)
		}
		c.Sample("%q", cmd)
	})

	r.Run(t, "writefault", 150, 20, "the transport fails while a sequence is written, at any byte; everything reported as written is read, nothing else; non-trivial: a write failed", func(t *rapid.T, c *kit.Case) {
		magic := drawMagic(t)
		q := newHalf(pieces(t, "pieces"))
		var l []*sent
		total := 0
		for i := rapid.IntRange(1, 6).Draw(t, "n"); i > 0; i-- {
			s := drawSent(t, false, false)
			l = append(l, s)
			total += 24 + len(s.payload())
		}
		q.failAt = rapid.IntRange(0, total).Draw(t, "fail")
		heal := rapid.Bool().Draw(t, "heal")
		w := xprotocol.NewStream(&conn{newHalf(nil), q}, magic)
		var ok []*sent
		failed := 0
		for _, s := range l {
			if err := w.WriteMessage(s.real(t)); err == nil {
				ok = append(ok, s)
			} else {
				failed++
				if heal {
					q.failAt = -1
				}
			}
		}
		q.closeWrite()
		rd := xprotocol.NewStream(&conn{q, newHalf(nil)}, magic)
		for i, s := range ok {
			x, err := read(t, rd, "written message")
			if err != nil {
				t.Fatalf("%s, failing at %d (transient: %v): message %d was written, reading gives %v", names(l), q.failAt, heal, i, err)
			}
			if d := s.same(x); d != "" {
				t.Fatalf("%s, failing at %d: message %d: %s", names(l), q.failAt, i, d)
			}
		}
		if x, err := read(t, rd, "rest"); err == nil {
			t.Fatalf("%s, failing at %d: delivers a message %+v whose writing failed", names(l), q.failAt, x)
		}
		if failed > 0 {
			c.Nontrivial(names(l), q.failAt)
		}
		c.Sample("%s failing at %d: %d written", names(l), q.failAt, len(ok))
	})

	r.Run(t, "duplex", 70, 20, "both ends of a transport with little room, each with 1..4 writers and a reader at the same time; every message arrives once and whole, in the order of its writer; non-trivial: several writers", func(t *rapid.T, c *kit.Case) {
		magic := drawMagic(t)
		var halves [2]*half
		for i := range halves {
			halves[i] = newHalf(pieces(t, fmt.Sprint("pieces", i)))
			halves[i].room = rapid.SampledFrom([]int{1, 30, 1000, 40000, 1 << 20}).Draw(t, "room")
			halves[i].yield = true
		}
		var conns [2]*conn
		var streams [2]*xprotocol.Stream
		var plan [2][][]*sent
		desc := ""
		several := false
		for i := range streams {
			conns[i] = &conn{halves[1-i], halves[i]}
			streams[i] = xprotocol.NewStream(conns[i], magic)
			writers := rapid.IntRange(0, 4).Draw(t, "writers")
			several = several || writers > 1
			for w := 0; w < writers; w++ {
				var l []*sent
				for k := rapid.IntRange(1, 6).Draw(t, "k"); k > 0; k-- {
					m := &model{Kind: "tx"}
					n := rapid.SampledFrom([]int{0, 1, 50, 300, 5000, 33000, 70000}).Draw(t, "size")
					if halves[i].room < 1000 {
						n = min(n, 300)
					}
					m.Data = append([]byte{byte(w), byte(len(l))}, kit.Uniform(t, n, "data")...)
					l = append(l, &sent{m: m})
				}
				plan[i] = append(plan[i], l)
				desc += fmt.Sprintf(" %d:%s", i, names(l))
			}
		}
		var writing, reading sync.WaitGroup
		var werr, rerr [2]error
		var got [2][]xprotocol.Message
		var mu sync.Mutex
		for i := range streams {
			for _, l := range plan[i] {
				writing.Add(1)
				msgs := []xprotocol.Message{}
				for _, s := range l {
					msgs = append(msgs, s.real(t))
				}
				go func() {
					defer writing.Done()
					for _, x := range msgs {
						if err := streams[i].WriteMessage(x); err != nil {
							mu.Lock()
							werr[i] = err
							mu.Unlock()
							return
						}
					}
				}()
			}
			reading.Add(1)
			go func() {
				defer reading.Done()
				for {
					x, err := streams[i].ReadMessage()
					if err != nil {
						rerr[i] = err
						return
					}
					got[i] = append(got[i], x)
				}
			}()
		}
		if !within(func() {
			writing.Wait()
			halves[0].closeWrite()
			halves[1].closeWrite()
			reading.Wait()
		}) {
			conns[0].Close()
			conns[1].Close()
			t.Fatalf("hangs:%s", desc)
		}
		for i := range streams {
			if werr[i] != nil || rerr[i] != io.EOF {
				t.Fatalf("end %d: writing %v, reading %v;%s", i, werr[i], rerr[i], desc)
			}
			next := make([]int, len(plan[1-i]))
			for k, x := range got[i] {
				tx, ok := x.(*xprotocol.MsgTx)
				if !ok || len(tx.Data) < 2 || int(tx.Data[0]) >= len(next) || next[tx.Data[0]] >= len(plan[1-i][tx.Data[0]]) {
					t.Fatalf("end %d: message %d is %x;%s", i, k, head(x.Encode()), desc)
				}
				w := tx.Data[0]
				if d := plan[1-i][w][next[w]].same(x); d != "" {
					t.Fatalf("end %d: message %d, number %d of writer %d: %s;%s", i, k, next[w], w, d, desc)
				}
				next[w]++
			}
			for w, k := range next {
				if k != len(plan[1-i][w]) {
					t.Fatalf("end %d: %d messages of writer %d, want %d;%s", i, k, w, len(plan[1-i][w]), desc)
				}
			}
		}
		if several {
			c.Nontrivial(desc, halves[0].room)
		}
		c.Sample("room %d/%d%s", halves[0].room, halves[1].room, desc)
	})

	r.Run(t, "blocked", 40, 10, "a reader waits for bytes, or for the rest of a frame, while messages are written on the same stream; non-trivial: every case", func(t *rapid.T, c *kit.Case) {
		magic := drawMagic(t)
		in, q := newHalf(pieces(t, "pieces")), newHalf(nil)
		s := xprotocol.NewStream(&conn{in, q}, magic)
		m := drawSent(t, true, false)
		f := frame(magic, m.command(), m.payload())
		k := rapid.IntRange(0, len(f)-1).Draw(t, "arrived")
		in.write(f[:k])
		type res struct {
			x   xprotocol.Message
			err error
		}
		done := make(chan res, 1)
		go func() { x, err := s.ReadMessage(); done <- res{x, err} }()
		for i := rapid.IntRange(0, 3).Draw(t, "wait"); i > 0; i-- {
			runtime.Gosched()
			time.Sleep(50 * time.Microsecond)
		}
		o := drawSent(t, true, false)
		x := o.real(t)
		var err error
		if !within(func() { err = s.WriteMessage(x) }) {
			in.closeWrite()
			t.Fatalf("writing waits for the reader, who waits with %d of %d bytes", k, len(f))
		}
		if err != nil || !bytes.Equal(q.bytes(), frame(magic, o.command(), o.payload())) {
			t.Fatalf("written while reading: %v, %x", err, head(q.bytes()))
		}
		in.write(f[k:])
		var g res
		if !within(func() { g = <-done }) {
			in.closeWrite()
			t.Fatalf("the reader does not get %s after %d bytes", m.command(), k)
		}
		if g.err != nil {
			t.Fatalf("reading: %v", g.err)
		}
		if d := m.same(g.x); d != "" {
			t.Fatal(d)
		}
		c.Nontrivial(f, k, o.command())
		c.Sample("%d of %d bytes of %s, writing %s", k, len(f), m.command(), o.command())
	})

	r.Run(t, "networks", 300, 10, "a message sent over a connection of a network, published or altered copy, starts with the magic of that network; non-trivial: altered", func(t *rapid.T, c *kit.Case) {
		pub := []struct {
			n     *network.Network
			magic []byte
			port  uint32
		}{{network.MainNet, []byte{0xf9, 0xbe, 0xb4, 0xd9}, 8333}, {network.TestNet, []byte{0x0b, 0x11, 0x09, 0x07}, 18333}}
		p := pub[rapid.IntRange(0, 1).Draw(t, "net")]
		n := *p.n
		magic, port, last := p.magic, p.port, n.LastBlock
		if rapid.Bool().Draw(t, "setmagic") {
			magic = rapid.SliceOfN(rapid.Byte(), 4, 4).Draw(t, "magic")
			c.Nontrivial(magic)
			n.SetMagic(clone(magic))
		}
		if rapid.Bool().Draw(t, "setport") {
			port = rapid.Uint32().Draw(t, "port")
			n.SetPort(port)
		}
		if rapid.Bool().Draw(t, "setlast") {
			last = rapid.Uint32().Draw(t, "last")
			n.SetLastBlock(last)
		}
		if n.Port != port || n.LastBlock != last || !bytes.Equal(n.Magic, magic) {
			t.Fatalf("network has port %d last block %d magic %x, want %d %d %x", n.Port, n.LastBlock, n.Magic, port, last, magic)
		}
		out, in := newHalf(nil), newHalf(nil)
		side := xprotocol.NewConnection(&n, &conn{in, out}, func(*xprotocol.Connection, xprotocol.Message) {}, func(*xprotocol.Connection) {})
		m := drawSent(t, true, false)
		if err := side.Send(m.real(t)); err != nil {
			t.Fatalf("sending: %v", err)
		}
		if w := frame(magic, m.command(), m.payload()); !bytes.Equal(out.bytes(), w) {
			t.Fatalf("sent %x want %x", head(out.bytes()), head(w))
		}
		for _, p := range pub {
			if p.n.Port != p.port || !bytes.Equal(p.n.Magic, p.magic) {
				t.Fatalf("published network changed: %+v", p.n)
			}
		}
		c.Sample("%x %s", magic, m.command())
	})

	r.Run(t, "connection", 150, 20, "two connections: each message is received once, in order, answers sent from the receiving side arrive, and the end of the connection is told once, after the last message; non-trivial: at least 2 messages", func(t *rapid.T, c *kit.Case) {
		n := rapid.SampledFrom([]*network.Network{network.MainNet, network.TestNet}).Draw(t, "net")
		h := [2]*half{newHalf(pieces(t, "a")), newHalf(pieces(t, "b"))}
		ends := [2]*conn{{h[1], h[0]}, {h[0], h[1]}}
		var l []*sent
		for i := rapid.IntRange(0, 8).Draw(t, "n"); i > 0; i-- {
			l = append(l, drawSent(t, true, false))
		}
		damaged := rapid.IntRange(0, 3).Draw(t, "damaged") == 0
		var mu sync.Mutex
		var got, answers []xprotocol.Message
		var gone [2]int
		var late [2]bool
		var bad string
		var side [2]*xprotocol.Connection
		gate := make(chan struct{}, 100)
		on := func(i int) (xprotocol.ReceiveFunc, xprotocol.DisconnectFunc) {
			return func(c *xprotocol.Connection, x xprotocol.Message) {
					mu.Lock()
					if c != side[i] {
						bad = "another connection is passed on receiving"
					}
					late[i] = late[i] || gone[i] > 0
					if i == 1 {
						got = append(got, x)
					} else {
						answers = append(answers, x)
					}
					k := len(got)
					mu.Unlock()
					if i == 1 {
						if err := c.Send(xprotocol.NewMsgPong(uint64(k))); err != nil {
							mu.Lock()
							bad = fmt.Sprintf("answering: %v", err)
							mu.Unlock()
						}
					} else {
						gate <- struct{}{}
					}
				}, func(c *xprotocol.Connection) {
					mu.Lock()
					defer mu.Unlock()
					if c != side[i] {
						bad = "another connection is passed on its end"
					}
					gone[i]++
				}
		}
		var loops sync.WaitGroup
		mu.Lock()
		for i := range side {
			a, b := on(i)
			side[i] = xprotocol.NewConnection(n, ends[i], a, b)
		}
		mu.Unlock()
		for i := range side {
			loops.Add(1)
			go func() { defer loops.Done(); side[i].ReadLoop() }()
		}
		if side[0].LocalAddress() != "here" || side[0].RemoteAddress() != "there" {
			t.Fatalf("addresses %s %s", side[0].LocalAddress(), side[0].RemoteAddress())
		}
		for _, s := range l {
			x := s.real(t)
			var err error
			if !within(func() { err = side[0].Send(x) }) {
				ends[0].Close()
				ends[1].Close()
				t.Fatalf("sending hangs")
			}
			if err != nil {
				t.Fatalf("sending: %v", err)
			}
		}
		closing := rapid.Bool().Draw(t, "close")
		if !within(func() {
			for range l {
				<-gate
			}
			if damaged {
				f := frame(n.Magic, "ping", make([]byte, 8))
				f[20]++
				h[0].write(f)
				h[0].write(frame(n.Magic, "ping", make([]byte, 8)))
			}
			if closing {
				h[0].closeWrite()
				h[1].closeWrite()
			} else if !damaged {
				side[0].Close()
			} else {
				h[0].closeWrite()
				side[0].Close()
			}
			loops.Wait()
		}) {
			ends[0].Close()
			ends[1].Close()
			t.Fatalf("hangs:%s", names(l))
		}
		mu.Lock()
		defer mu.Unlock()
		if bad != "" || gone != [2]int{1, 1} || late[0] || late[1] {
			t.Fatalf("%s; ends told %v, received after the end %v;%s", bad, gone, late, names(l))
		}
		if len(got) != len(l) || len(answers) != len(l) {
			t.Fatalf("%d received, %d answered, want %d", len(got), len(answers), len(l))
		}
		for i, s := range l {
			if d := s.same(got[i]); d != "" {
				t.Fatalf("message %d: %s", i, d)
			}
			if p, ok := answers[i].(*xprotocol.MsgPong); !ok || p.Nonce != uint64(i+1) {
				t.Fatalf("answer %d: %+v", i, answers[i])
			}
		}
		if err := side[0].Send(xprotocol.NewMsgVerAck()); err == nil {
			t.Fatalf("sending after the end reports success")
		}
		if len(l) > 1 {
			c.Nontrivial(names(l))
		}
		c.Sample("damaged %v%s", damaged, names(l))
	})
}
