// Package kit drives the generated-input checks: it pins rapid's seed from VERIF_SEED, sizes the
// runs by VERIF_TIER, counts what was generated, and writes the evidence file.
package kit

import (
	"crypto/sha256"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Seed is VERIF_SEED (default 1).
func Seed() uint64 {
	if v, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64); err == nil {
		return v
	}
	return 1
}

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

type sub struct {
	evals    int
	nontriv  int
	classes  map[string]int
	distinct map[uint64]struct{}
}

// Rec collects what one property's check covered.
type Rec struct {
	mu       sync.Mutex
	ID       string
	rules    []string
	subs     map[string]*sub
	order    []string
	samples  []string
	excluded map[string]int
	start    time.Time
	assume   []string
}

var recs = map[string]*Rec{}

// New starts the record of one property.
func New(t *testing.T, id string, assumptions ...string) *Rec {
	r := &Rec{ID: id, subs: map[string]*sub{}, excluded: map[string]int{}, start: time.Now(), assume: assumptions}
	recs[id] = r
	t.Cleanup(func() { r.write(t.Failed()) })
	return r
}

// Case is the per-evaluation handle given to a property.
type Case struct {
	rec  *Rec
	s    *sub
	name string
}

const maxDistinct = 4 << 20

// Nontrivial counts this evaluation as non-trivial; the key identifies it for distinctness.
func (c *Case) Nontrivial(key ...any) {
	h := sha256.New()
	for _, k := range key {
		switch v := k.(type) {
		case []byte:
			h.Write(v)
		case string:
			h.Write([]byte(v))
		default:
			fmt.Fprintf(h, "%v", v)
		}
		h.Write([]byte{0xff, 0})
	}
	x := binary.LittleEndian.Uint64(h.Sum(nil))
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	c.s.nontriv++
	if len(c.s.distinct) < maxDistinct {
		c.s.distinct[x] = struct{}{}
	}
}

// Class counts a named class of case.
func (c *Case) Class(name string) {
	c.rec.mu.Lock()
	c.s.classes[name]++
	c.rec.mu.Unlock()
}

// Excluded counts inputs removed by construction because they show a known finding.
func (c *Case) Excluded(name string) {
	c.rec.mu.Lock()
	c.rec.excluded[name]++
	c.rec.mu.Unlock()
}

// Sample keeps a few written-out cases (the 1st, 10th, 100th and 1000th evaluation of each sub-check).
func (c *Case) Sample(format string, a ...any) {
	c.rec.mu.Lock()
	defer c.rec.mu.Unlock()
	switch c.s.evals {
	case 1, 10, 100, 1000:
		s := fmt.Sprintf(format, a...)
		if len(s) > 600 {
			s = s[:600] + fmt.Sprintf("...(%d chars)", len(s))
		}
		c.rec.samples = append(c.rec.samples, c.name+": "+s)
	}
}

func setFlag(n, v string) {
	if err := flag.Set(n, v); err != nil {
		panic(err)
	}
}

// Run executes one sub-check: quick cases in the quick tier, quick*mult in the thorough tier.
// rule says how cases are made and when one is non-trivial.
func (r *Rec) Run(t *testing.T, name string, quick, mult int, rule string, prop func(t *rapid.T, c *Case)) {
	n := quick
	if Thorough() {
		n = quick * mult
	}
	s := &sub{classes: map[string]int{}, distinct: map[uint64]struct{}{}}
	r.subs[name] = s
	r.order = append(r.order, name)
	r.rules = append(r.rules, name+": "+rule)
	c := &Case{rec: r, s: s, name: name}
	t.Run(name, func(t *testing.T) {
		h := sha256.Sum256([]byte(fmt.Sprintf("%s/%s/%d", r.ID, name, Seed())))
		seed := binary.LittleEndian.Uint64(h[:8])
		if seed == 0 {
			seed = 1
		}
		setFlag("rapid.seed", strconv.FormatUint(seed, 10))
		setFlag("rapid.checks", strconv.Itoa(n))
		setFlag("rapid.shrinktime", "15s")
		stop := make(chan struct{})
		defer close(stop)
		go r.watch(name, s, stop)
		rapid.Check(t, func(rt *rapid.T) {
			r.mu.Lock()
			s.evals++
			r.mu.Unlock()
			prop(rt, c)
		})
	})
}

// watch ends the run with a failure when one case goes on for two minutes inside the code under test.
// It counts ticks rather than time, so a suspended machine does not look like a hang.
func (r *Rec) watch(name string, s *sub, stop chan struct{}) {
	last, same := -1, 0
	for {
		select {
		case <-stop:
			return
		case <-time.After(2 * time.Second):
		}
		r.mu.Lock()
		n := s.evals
		r.mu.Unlock()
		if n != last {
			last, same = n, 0
			continue
		}
		if same++; same < 60 {
			continue
		}
		buf := make([]byte, 1<<20)
		buf = buf[:runtime.Stack(buf, true)]
		if same == 60 && strings.Contains(string(buf), "github.com/keyfuse/tokucore") {
			r.write(true)
			fmt.Printf("case %d of %s does not end:\n%s\n", n, name, buf)
			fmt.Printf("--- FAIL: Test%s\n    --- FAIL: Test%s/%s (hang)\n", r.ID, r.ID, name)
			os.Exit(1)
		}
	}
}

func (r *Rec) write(failed bool) {
	path := os.Getenv("VERIF_EVIDENCE")
	if path == "" {
		return
	}
	r.mu.Lock()
	defer r.mu.Unlock()
	evals, distinct := 0, 0
	by := map[string]any{}
	for _, n := range r.order {
		s := r.subs[n]
		evals += s.evals
		distinct += len(s.distinct)
		by[n] = map[string]any{"evaluations": s.evals, "nontrivial": s.nontriv, "distinct_nontrivial": len(s.distinct), "classes": s.classes}
	}
	samples := r.samples
	if len(samples) > 60 {
		samples = samples[:60]
	}
	sort.SliceStable(samples, func(i, j int) bool { return false })
	tier := "quick"
	if Thorough() {
		tier = "thorough"
	}
	v := 0
	if failed {
		v = 1
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": distinct,
		"rule":                strings.Join(r.rules, " | "),
		"samples":             samples,
		"by_subcheck":         by,
	}
	if len(r.excluded) > 0 {
		cov["excluded_known_findings"] = r.excluded
	}
	doc := map[string]any{
		"property": r.ID, "tier": tier, "seed": int64(Seed() & (1<<53 - 1)), "level": "exploration",
		"coverage": cov, "wall_s": time.Since(r.start).Seconds(), "violations": v,
	}
	if len(r.assume) > 0 {
		doc["assumptions"] = r.assume
	}
	b, _ := json.MarshalIndent(doc, "", " ")
	_ = os.MkdirAll(filepath.Dir(path), 0o755)
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		panic(err)
	}
}

// ---- helpers ----

// AllocBytes measures how many bytes f allocates.
func AllocBytes(f func()) uint64 {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	f()
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc
}

// NoPanic runs f and fails the case when it panics, naming what.
func NoPanic(t *rapid.T, what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if strings.HasPrefix(fmt.Sprintf("%T", e), "rapid.") { // the case ended by itself
				panic(e)
			}
			buf := make([]byte, 4096)
			buf = buf[:runtime.Stack(buf, false)]
			t.Fatalf("%s panicked: %v\n%s", what, e, buf)
		}
	}()
	f()
}
