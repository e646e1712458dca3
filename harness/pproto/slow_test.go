package pproto

import (
	"bytes"
	"fmt"
	"io"
	"net"
	"testing"
	"testing/synctest"
	"time"

	"pgregory.net/rapid"

	"github.com/keyfuse/tokucore/xprotocol"

	"verif/kit"
)

// phase is a stretch of a conversation: after a pause, a message one way, the other, or both at once.
type phase struct {
	pause    time.Duration
	in, out  *sent
	readAt   time.Duration // when the side under test starts reading,
	comeAt   []time.Duration
	cuts     []int // where the peer's bytes are cut, sent at the times above
	writeAt  time.Duration
	takeAt   []time.Duration // when the peer takes bytes
	takeSize []int
}

func secs(t *rapid.T, lo, hi int, label string) time.Duration {
	return time.Duration(kit.Uniform(t, 1, label)[0])*time.Second*time.Duration(hi-lo)/255 + time.Duration(lo)*time.Second
}

func drawPhase(t *rapid.T) *phase {
	p := &phase{}
	switch rapid.IntRange(0, 4).Draw(t, "pause") {
	case 0:
	case 1:
		p.pause = secs(t, 50, 4000, "pl")
	default:
		p.pause = secs(t, 0, 45, "ps")
	}
	way := rapid.IntRange(0, 2).Draw(t, "way")
	if way != 1 {
		p.in = drawSent(t, true, true)
		p.readAt = secs(t, 0, 20, "ra")
		n := rapid.IntRange(1, 5).Draw(t, "pieces")
		at := p.readAt + secs(t, 0, 24, "ca")
		if rapid.Bool().Draw(t, "early") { // the bytes are there, or on their way, before anyone reads
			at = secs(t, 0, 20, "ce")
		}
		for i := 0; i < n; i++ {
			p.comeAt = append(p.comeAt, at)
			p.cuts = append(p.cuts, rapid.IntRange(0, 60).Draw(t, "cut"))
			if rest := p.readAt + 25*time.Second - at; rest > 0 {
				at += rest * time.Duration(kit.Uniform(t, 1, "step")[0]) / 256
			}
		}
	}
	if way != 0 {
		p.out = drawSent(t, true, false)
		p.writeAt = secs(t, 0, 35, "wa")
		n := rapid.IntRange(1, 5).Draw(t, "takes")
		at := p.writeAt + secs(t, 0, 14, "ta")
		for i := 0; i < n; i++ {
			p.takeAt = append(p.takeAt, at)
			p.takeSize = append(p.takeSize, rapid.IntRange(1, 60).Draw(t, "take"))
			if rest := p.writeAt + 15*time.Second - at; rest > 0 {
				at += rest * time.Duration(kit.Uniform(t, 1, "step")[0]) / 256
			}
		}
	}
	return p
}

func (p *phase) String() string {
	s := fmt.Sprintf("pause %v", p.pause)
	if p.in != nil {
		s += fmt.Sprintf(", %s read from %v, comes %v cut %v", p.in.command(), p.readAt, p.comeAt, p.cuts)
	}
	if p.out != nil {
		s += fmt.Sprintf(", %s written at %v, taken %v %v", p.out.command(), p.writeAt, p.takeAt, p.takeSize)
	}
	return s
}

// play has the conversation on a clock of its own and says what went wrong.
func play(magic []byte, l []*phase, outs []xprotocol.Message, silence int) string {
	near, far := net.Pipe()
	defer near.Close()
	defer far.Close()
	s := xprotocol.NewStream(near, magic)
	for i, p := range l {
		time.Sleep(p.pause)
		start := time.Now()
		until := func(d time.Duration) { time.Sleep(d - time.Since(start)) }
		trouble := make(chan string, 4)
		jobs := 0
		job := func(f func() string) {
			jobs++
			go func() {
				bad := "panic"
				defer func() {
					if r := recover(); r != nil {
						bad = fmt.Sprintf("panic: %v", r)
					}
					trouble <- bad
				}()
				bad = f()
			}()
		}
		if p.in != nil {
			f := frame(magic, p.in.command(), p.in.payload())
			job(func() string {
				at := 0
				for k, d := range p.comeAt {
					until(d)
					n := len(f) - at
					if k < len(p.comeAt)-1 {
						n = min(n, p.cuts[k])
					}
					if n == 0 { // a pipe waits for a reader even then
						continue
					}
					if _, err := far.Write(f[at : at+n]); err != nil {
						return fmt.Sprintf("after %v: peer cannot send: %v", time.Since(start), err)
					}
					at += n
				}
				return ""
			})
			job(func() string {
				until(p.readAt)
				x, err := s.ReadMessage()
				if err != nil {
					return fmt.Sprintf("after %v: reading: %v", time.Since(start), err)
				}
				return p.in.same(x)
			})
		}
		if p.out != nil {
			f := frame(magic, p.out.command(), p.out.payload())
			job(func() string {
				until(p.writeAt)
				if err := s.WriteMessage(outs[i]); err != nil {
					return fmt.Sprintf("after %v: writing: %v", time.Since(start), err)
				}
				return ""
			})
			job(func() string {
				got := make([]byte, len(f))
				at := 0
				for k, d := range p.takeAt {
					until(d)
					n := len(f) - at
					if k < len(p.takeAt)-1 {
						n = min(n, p.takeSize[k])
					}
					m, err := io.ReadFull(far, got[at:at+n])
					at += m
					if err != nil {
						return fmt.Sprintf("after %v: peer got %d of %d bytes: %v", time.Since(start), at, len(f), err)
					}
				}
				if !bytes.Equal(got, f) {
					return fmt.Sprintf("peer got %x, want %x", head(got), head(f))
				}
				return ""
			})
		}
		bad := ""
		for ; jobs > 0; jobs-- {
			if x := <-trouble; x != "" && bad == "" {
				bad = x
				near.Close() // lets the others go
				far.Close()
			}
		}
		if bad != "" {
			return fmt.Sprintf("phase %d (%v): %s", i, p, bad)
		}
	}
	// A peer that does nothing makes a call fail, in the end.
	done := make(chan error, 1)
	switch silence {
	case 1:
		go func() { _, err := s.ReadMessage(); done <- err }()
	case 2:
		go func() { done <- s.WriteMessage(xprotocol.NewMsgVerAck()) }()
	case 3: // part of a message comes
		f := frame(magic, "ping", make([]byte, 8))
		go far.Write(f[:len(f)-1])
		go func() { _, err := s.ReadMessage(); done <- err }()
	default:
		return ""
	}
	select {
	case err := <-done:
		if err == nil {
			return fmt.Sprintf("silence %d: success", silence)
		}
	case <-time.After(10 * time.Minute):
		near.Close()
		<-done
		return fmt.Sprintf("silence %d: the call hangs", silence)
	}
	return ""
}

func runSlow(outer *testing.T, r *kit.Rec) {
	r.Run(outer, "slow", 250, 20, "up to 12 messages either way or both at once, between pauses of up to an hour, read up to 25 and written up to 15 seconds before the peer is done, byte by byte or in pieces, on a clock of their own; then perhaps a silent peer; non-trivial: at least 2 messages", func(t *rapid.T, c *kit.Case) {
		magic := drawMagic(t)
		var l []*phase
		var outs []xprotocol.Message
		for n := rapid.IntRange(0, 12).Draw(t, "n"); n > 0; n-- {
			p := drawPhase(t)
			var x xprotocol.Message
			if p.out != nil {
				x = p.out.real(t)
			}
			l, outs = append(l, p), append(outs, x)
		}
		silence := rapid.IntRange(0, 3).Draw(t, "silence")
		bad := ""
		kit.NoPanic(t, "conversation", func() {
			synctest.Test(outer, func(*testing.T) { bad = play(magic, l, outs, silence) })
		})
		if bad != "" {
			t.Fatal(bad)
		}
		if len(l) > 1 {
			c.Nontrivial(fmt.Sprint(l))
		}
		c.Class(fmt.Sprintf("silence %d", silence))
		c.Sample("%v", l)
	})
}
