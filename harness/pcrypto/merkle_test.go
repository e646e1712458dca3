package pcrypto

import (
	"bytes"
	"testing"

	"github.com/keyfuse/tokucore/xcrypto"
	"pgregory.net/rapid"

	"verif/kit"
	"verif/ref"
)

func pair(a, b []byte) []byte { return ref.DSha256(append(append([]byte{}, a...), b...)) }

// merkleLevels builds the tree as Bitcoin does, leaves first.
func merkleLevels(leaves [][]byte) [][][]byte {
	levels := [][][]byte{leaves}
	for l := leaves; len(l) > 1; {
		var up [][]byte
		for i := 0; i < len(l); i += 2 {
			j := i + 1
			if j == len(l) {
				j = i
			}
			up = append(up, pair(l[i], l[j]))
		}
		levels = append(levels, up)
		l = up
	}
	return levels
}

// fold recomputes the root a proof leads to, independently of the recorded parents.
func fold(leaf []byte, path []xcrypto.Node) ([]byte, bool) {
	// shorter values stand for their zero-padded form (existing tests build trees of them)
	pad := func(b []byte) []byte {
		if b == nil || len(b) >= 32 {
			return b
		}
		return append(append([]byte{}, b...), make([]byte, 32-len(b))...)
	}
	h := leaf
	if len(path) > 0 {
		h = pad(leaf)
	}
	for _, n := range path {
		other := pad(n.Hash)
		if len(h) > 32 || len(other) > 32 {
			return nil, false
		}
		switch n.Position {
		case "left":
			h = pair(other, h)
		case "right":
			if other == nil {
				other = h
			}
			h = pair(h, other)
		default:
			return nil, false
		}
		if !bytes.Equal(h, n.Parent) {
			return nil, false
		}
	}
	return h, true
}

func copyPath(p []xcrypto.Node) []xcrypto.Node {
	q := make([]xcrypto.Node, len(p))
	for i, n := range p {
		q[i] = xcrypto.Node{Hash: append([]byte{}, n.Hash...), Parent: append([]byte{}, n.Parent...), Position: n.Position}
	}
	return q
}

func leavesOf(t *rapid.T) [][]byte {
	n := rapid.IntRange(1, 40).Draw(t, "n")
	if rapid.IntRange(0, 2).Draw(t, "border") == 0 {
		n = max(1, 1<<rapid.IntRange(0, 9).Draw(t, "pow")+rapid.IntRange(-1, 1).Draw(t, "off"))
	}
	seed := rapid.Uint64().Draw(t, "seed")
	dup := rapid.IntRange(0, 3).Draw(t, "dup") == 0
	out := make([][]byte, n)
	for i := range out {
		out[i] = kit.Expand(seed+uint64(i)*977, 32)
	}
	if dup && n > 1 {
		for k := rapid.IntRange(1, 3).Draw(t, "dups"); k > 0; k-- {
			out[rapid.IntRange(0, n-1).Draw(t, "to")] = append([]byte{}, out[rapid.IntRange(0, n-1).Draw(t, "from")]...)
		}
	}
	return out
}

func TestP12(t *testing.T) {
	r := kit.New(t, "P12", "leaves are 32-byte hashes; a shorter one stands for its zero-padded form (existing tests do so)", "a leaf that occurs twice is proved at its first position", "a proof cut to an inner node proves that inner node (inherent to the construction)")
	tree := func(t *rapid.T, c *kit.Case, leaves [][]byte) {
		n := len(leaves)
		levels := merkleLevels(leaves)
		root := levels[len(levels)-1][0]
		if n >= 3 {
			c.Nontrivial(n, root)
		}
		c.Sample("%d leaves root %x", n, root)
		in := make([][]byte, n, n+3)
		var oks []func() bool
		for i := range leaves {
			b, ok := kit.Spare(leaves[i])
			in[i] = b
			oks = append(oks, ok)
		}
		m := xcrypto.NewMerkle(in)
		if !bytes.Equal(m.Root(), root) {
			t.Fatalf("root of %d leaves %x want %x", n, m.Root(), root)
		}
		idx := []int{0, n - 1, n / 2, rapid.IntRange(0, n-1).Draw(t, "i")}
		if n <= 12 {
			idx = nil
			for i := range leaves {
				idx = append(idx, i)
			}
		}
		for _, i := range append(idx, idx[0]) {
			for j := range leaves {
				if bytes.Equal(leaves[j], leaves[i]) {
					i = j
					break
				}
			}
			lf, lok := kit.Spare(leaves[i])
			path := m.Proofs(lf)
			if len(path) != len(levels)-1 {
				t.Fatalf("proof of leaf %d of %d has %d steps, want %d", i, n, len(path), len(levels)-1)
			}
			k := i
			for d, nd := range path {
				l := levels[d]
				sib := k ^ 1
				pos := "right"
				if k%2 == 1 {
					pos = "left"
				}
				if sib == len(l) {
					sib = k
				}
				if !bytes.Equal(nd.Hash, l[sib]) && !(nd.Hash == nil && sib == k) || nd.Position != pos || !bytes.Equal(nd.Parent, levels[d+1][k/2]) {
					t.Fatalf("proof of leaf %d of %d, step %d: %x %s parent %x, want %x %s parent %x", i, n, d, nd.Hash, nd.Position, nd.Parent, l[sib], pos, levels[d+1][k/2])
				}
				k /= 2
			}
			if !m.Verify(lf, root, path) {
				t.Fatalf("proof of leaf %d of %d does not verify", i, n)
			}
			if !xcrypto.NewMerkle(leaves[:1]).Verify(lf, root, path) {
				t.Fatalf("verification of a proof depends on the tree it is called on")
			}
			if !lok() {
				t.Fatalf("leaf altered")
			}
			for d := range path { // the list of steps is the caller's own
				path[d] = xcrypto.Node{}
			}
		}
		for i, ok := range oks {
			if !ok() || !bytes.Equal(in[i], leaves[i]) {
				t.Fatalf("leaf %d of the given list altered", i)
			}
		}
		if !bytes.Equal(m.Root(), root) {
			t.Fatalf("root changed to %x by proving", m.Root())
		}
	}
	r.Run(t, "tree", 10000, 20, "1..513 leaves, biased to sizes around powers of two, sometimes with repeated leaves: root, and the proof of every (small trees) or some leaf; non-trivial: at least 3 leaves",
		func(t *rapid.T, c *kit.Case) { tree(t, c, leavesOf(t)) })
	r.Run(t, "big", 25, 20, "trees of 514 to 131073 leaves, biased to sizes around powers of two: root and proofs of leaves at both ends, in the middle and anywhere; non-trivial: always",
		func(t *rapid.T, c *kit.Case) {
			n := rapid.IntRange(514, 5000).Draw(t, "n")
			if rapid.Bool().Draw(t, "border") {
				n = 1<<rapid.IntRange(10, 17).Draw(t, "pow") + rapid.IntRange(-1, 1).Draw(t, "off")
			}
			seed := rapid.Uint64().Draw(t, "seed")
			out := make([][]byte, n)
			for i := range out {
				out[i] = kit.Expand(seed+uint64(i)*977, 32)
			}
			tree(t, c, out)
		})
	r.Run(t, "tamper", 60000, 20, "a true proof with one thing altered: leaf, root, step hash, parent, side (with and without recomputed parents), order, missing or repeated steps, another leaf's proof; non-trivial: the altered proof is refused by the independent fold",
		func(t *rapid.T, c *kit.Case) {
			leaves := leavesOf(t)
			if len(leaves) > 70 {
				leaves = leaves[:70]
			}
			n := len(leaves)
			m := xcrypto.NewMerkle(leaves)
			root := append([]byte{}, m.Root()...)
			i := rapid.IntRange(0, n-1).Draw(t, "leaf")
			leaf := append([]byte{}, leaves[i]...)
			path := copyPath(m.Proofs(leaf))
			if kit.Uniform(t, 1, "deep")[0] < 40 { // a proof of a tree too large to build: any siblings, folded
				leaves = [][]byte{kit.Uniform(t, 32, "deepleaf"), kit.Uniform(t, 32, "otherleaf")}
				n, i, leaf, path = 2, 0, append([]byte{}, leaves[0]...), nil
				h := leaf
				sides := kit.Uniform(t, 4, "sides")
				for k := rapid.IntRange(1, 32).Draw(t, "depth"); k > 0; k-- {
					nd := xcrypto.Node{Hash: kit.Expand(uint64(sides[0])<<8|uint64(k), 32), Position: "left"}
					if sides[k%4]>>(k/4%8)&1 == 0 {
						nd.Position = "right"
						h = pair(h, nd.Hash)
					} else {
						h = pair(nd.Hash, h)
					}
					nd.Parent = h
					path = append(path, nd)
				}
				root = append([]byte{}, h...)
				c.Class("deep")
				if !m.Verify(leaf, root, path) {
					t.Fatalf("a proof of %d steps is refused: leaf %x root %x path %x", len(path), leaf, root, path)
				}
			}
			kind := rapid.IntRange(0, 12).Draw(t, "kind")
			if len(path) == 0 && kind > 2 {
				kind = 0
			}
			s := 0
			if len(path) > 0 {
				s = rapid.IntRange(0, len(path)-1).Draw(t, "step")
				if rapid.Bool().Draw(t, "fromtop") {
					s = len(path) - 1 - s
				}
			}
			refold := func(from int) {
				h := leaf
				if from > 0 {
					h = path[from-1].Parent
				}
				for k := from; k < len(path); k++ {
					if path[k].Position == "left" {
						h = pair(path[k].Hash, h)
					} else {
						h = pair(h, path[k].Hash)
					}
					path[k].Parent = h
				}
			}
			switch kind {
			case 0:
				leaf = kit.Mutate(t, leaf, "m")
			case 1:
				root = kit.Mutate(t, root, "m")
			case 2:
				leaf = append([]byte{}, leaves[rapid.IntRange(0, n-1).Draw(t, "other")]...)
			case 3:
				path[s].Hash = kit.Mutate(t, path[s].Hash, "m")
			case 4:
				path[s].Parent = kit.Mutate(t, path[s].Parent, "m")
			case 5:
				path[s].Position = rapid.SampledFrom([]string{"", "Left", "RIGHT", "right ", "none"}).Draw(t, "pos")
			case 6, 7:
				path[s].Position = map[string]string{"left": "right", "right": "left"}[path[s].Position]
				if kind == 7 {
					refold(s)
				}
			case 8:
				path = append(path[:s:s], path[s+1:]...)
			case 9:
				path = append(path[:s+1:s+1], path[s:]...)
				if rapid.Bool().Draw(t, "refold") {
					path = copyPath(path)
					refold(s)
				}
			case 10:
				q := rapid.IntRange(0, len(path)-1).Draw(t, "step2")
				path[s], path[q] = path[q], path[s]
			case 11: // altered step with consistent parents
				path[s].Hash = kit.Uniform(t, 32, "h")
				refold(s)
			case 12: // a hash moved to the other half of the node
				l, h := append([]byte{}, leaf...), path[0].Hash
				if path[0].Position == "right" {
					leaf, path[0].Hash = append(append([]byte{}, l...), h...), []byte{}
				} else {
					leaf, path[0].Hash = append(append([]byte{}, h...), l...), []byte{}
				}
			}
			got, ok := fold(leaf, path)
			want := ok && bytes.Equal(got, root)
			if !want {
				c.Nontrivial(kind, leaf, root, s, n)
			}
			c.Class(map[bool]string{true: "equivalent", false: "false"}[want])
			c.Sample("%d leaves, leaf %d, alteration %d at step %d", n, i, kind, s)
			var res bool
			kit.NoPanic(t, "Verify", func() { res = m.Verify(leaf, root, path) })
			if res && len(path) == 0 && bytes.Equal(leaf, root) {
				return // a one-leaf tree
			}
			if res && !want {
				t.Fatalf("%d leaves: altered proof (kind %d step %d of leaf %d) verifies: leaf %x path %x", n, kind, s, i, leaf, path)
			}
			if !res && want {
				t.Fatalf("%d leaves: equivalent proof (kind %d step %d of leaf %d) refused", n, kind, s, i)
			}
		})
	r.Run(t, "absent", 20000, 20, "hashes that are not leaves (inner nodes, root, empty, nil, other), the empty tree, proofs for the wrong tree; non-trivial: an inner node or the root",
		func(t *rapid.T, c *kit.Case) {
			leaves := leavesOf(t)
			if len(leaves) > 70 {
				leaves = leaves[:70]
			}
			if rapid.IntRange(0, 7).Draw(t, "empty") == 0 {
				leaves = nil
			}
			var m *xcrypto.Merkle
			kit.NoPanic(t, "NewMerkle", func() { m = xcrypto.NewMerkle(leaves) })
			var h []byte
			kind := rapid.IntRange(0, 4).Draw(t, "kind")
			switch kind {
			case 0:
			case 1:
				h = []byte{}
			case 2:
				h = kit.Uniform(t, 32, "h")
			case 3:
				kit.NoPanic(t, "Root", func() { h = append([]byte{}, m.Root()...) })
			default:
				if len(leaves) > 0 {
					lv := merkleLevels(leaves)
					l := lv[rapid.IntRange(0, len(lv)-1).Draw(t, "level")]
					h = l[rapid.IntRange(0, len(l)-1).Draw(t, "at")]
				}
			}
			is := false
			for _, l := range leaves {
				is = is || bytes.Equal(l, h)
			}
			if kind >= 3 && !is {
				c.Nontrivial(h)
			}
			c.Sample("%d leaves, %x, leaf %v", len(leaves), h, is)
			var path []xcrypto.Node
			kit.NoPanic(t, "Proofs", func() { path = m.Proofs(h) })
			if !is && len(path) != 0 {
				t.Fatalf("%d leaves: a proof of %d steps for %x, which is no leaf", len(leaves), len(path), h)
			}
			if len(leaves) == 0 {
				kit.NoPanic(t, "Root", func() {
					if len(m.Root()) != 0 {
						panic("the empty tree has a root")
					}
				})
			}
			if !is && len(leaves) > 0 && len(h) > 0 {
				var got bool
				kit.NoPanic(t, "Verify", func() { got = m.Verify(h, m.Root(), path) })
				if got && !bytes.Equal(h, m.Root()) {
					t.Fatalf("%d leaves: %x verifies with the empty proof", len(leaves), h)
				}
			}
		})
}
