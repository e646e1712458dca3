package pvm

import (
	"math/rand"

	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

// longPair makes long programs, deep stacks and deep nesting from few draws.
func longPair(t *rapid.T, most int) (unlocking, locking []byte) {
	rng := rand.New(rand.NewSource(int64(rapid.Uint64().Draw(t, "fill"))))
	n := rapid.IntRange(60, most).Draw(t, "instructions")
	if rapid.IntRange(0, 3).Draw(t, "border") == 0 {
		n = min(most, rapid.SampledFrom([]int{127, 128, 129, 200, 201, 202, 254, 255, 256, 257, 500, 511, 512, 513, 999, 1000, 1001, 1002, 1024, 2048}).Draw(t, "n")+rapid.IntRange(0, 6).Draw(t, "off"))
	}
	deep := rapid.SampledFrom([]int{5, 60, 300, 1100}).Draw(t, "deep")
	nest := rapid.SampledFrom([]int{0, 4, 300}).Draw(t, "nest")
	split := rapid.IntRange(0, n).Draw(t, "split")
	depth, open := 0, 0
	var out []byte
	emit := func(b ...byte) { out = append(out, b...) }
	grow := rapid.IntRange(3, 7).Draw(t, "grow")
	for i := 0; i < n; i++ {
		if i == split {
			for ; open > 0; open-- {
				emit(0x68)
			}
			unlocking, out = out, nil
		}
		k := rng.Intn(10)
		switch {
		case nest > 0 && open < nest && rng.Intn(4) == 0:
			emit(0x51, 0x63) // taken
			open++
			i++
		case open > 0 && rng.Intn(max(6, 40-nest/8)) == 0:
			if rng.Intn(2) == 0 {
				emit(0x67, 0x52, 0x75) // skipped
				i += 3
			}
			emit(0x68)
			open--
		case depth < 3 || depth < deep && k < grow:
			switch rng.Intn(4) {
			case 0:
				emit(byte(0x51 + rng.Intn(16)))
			case 1:
				emit(2, byte(rng.Intn(256)), byte(1+rng.Intn(127)))
			case 2:
				if depth > 0 {
					emit(0x76)
				} else {
					emit(0x51)
				}
			case 3:
				if depth > 2 && deep-depth > 3 {
					emit(0x6f)
					depth += 2
				} else {
					emit(1, byte(17+rng.Intn(100)))
				}
			}
			depth++
		case k < 8:
			emit(0x75)
			depth--
		default:
			emit(0x7c)
		}
	}
	switch rapid.IntRange(0, 5).Draw(t, "end") {
	case 0:
		emit(0) // false
	case 1:
		emit(0x68) // closes once too often, or leaves one open
		open -= 2
	case 2: // something that never runs well
		emit(0x51, 0x52, 0x88)
	default:
		emit(0x51)
	}
	for ; open > 0; open-- {
		emit(0x68)
	}
	return unlocking, out
}

func longVerify(t *rapid.T, c *kit.Case) {
	unl, lock := longPair(t, 2600)
	m := &ref.VM{Check: modelCheck}
	want := m.Verify(unl, lock)
	if m.Ops > 250 {
		c.Nontrivial(unl, lock)
	}
	if m.Ops > 1000 {
		c.Class("more than 1000 steps")
	}
	c.Class(map[bool]string{true: "accepted", false: "refused"}[want])
	c.Sample("%d and %d bytes, %d steps, accept=%v: %.60x %.60x", len(unl), len(lock), m.Ops, want, unl, lock)
	e := newEngine()
	if err := e.Verify(unl, lock); (err == nil) != want {
		t.Fatalf("unlocking %x locking %x (%d steps): engine says %v, reference accept=%v", unl, lock, m.Ops, err, want)
	}
}
