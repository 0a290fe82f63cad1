package c21

import (
	"encoding/binary"
	"fmt"
	"sort"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/ledger/pool/tree"
	"verif/vlib"
)

type knot struct {
	height     uint64
	hash, prev types.Hash
}

func (k *knot) Height() uint64       { return k.height }
func (k *knot) Hash() types.Hash     { return k.hash }
func (k *knot) PrevHash() types.Hash { return k.prev }

// disk is the ledger the tree stands on: height 0 is the empty block.
type disk struct{ ks []*knot }

func (d *disk) head() *knot                  { return d.ks[len(d.ks)-1] }
func (d *disk) MatchHead(h types.Hash) bool  { return d.head().hash == h }
func (d *disk) SprintTail() string           { return "disk tail" }
func (d *disk) SprintHead() string           { return fmt.Sprint(d.head().height) }
func (d *disk) UTime() time.Time             { return time.Now() }
func (d *disk) TailHH() (uint64, types.Hash) { panic("not supported by the ledger") }
func (d *disk) Linked(tree.Branch) bool      { panic("not supported by the ledger") }
func (d *disk) Root() tree.Branch            { panic("not supported by the ledger") }
func (d *disk) Size() uint64                 { return d.head().height }
func (d *disk) ID() string                   { return "disk" }
func (d *disk) Type() tree.BranchType        { return tree.Disk }
func (d *disk) HeadHH() (uint64, types.Hash) { return d.head().height, d.head().hash }
func (d *disk) GetKnotAndBranch(h uint64) (tree.Knot, tree.Branch) {
	return d.GetKnot(h, true), d
}
func (d *disk) GetHashAndBranch(h uint64) (*types.Hash, tree.Branch) {
	return d.GetHash(h, true), d
}
func (d *disk) GetKnot(h uint64, _ bool) tree.Knot {
	if h < uint64(len(d.ks)) {
		return d.ks[h]
	}
	return nil
}
func (d *disk) GetHash(h uint64, _ bool) *types.Hash {
	if h < uint64(len(d.ks)) {
		x := d.ks[h].hash
		return &x
	}
	return nil
}
func (d *disk) ContainsKnot(h uint64, hash types.Hash, _ bool) bool {
	// the ledger's branch does not answer this either
	panic("not supported by the ledger")
}

// world holds the tree and, for every branch, the whole chain of hashes it stands for.
type world struct {
	d      *disk
	tr     tree.Tree
	chains map[string][]types.Hash
	knots  map[types.Hash]*knot
	serial uint64

	forks, switches, switchBack, rollbacks, diverged, prunes, empties int
}

func (w *world) newKnot(height uint64, prev types.Hash) *knot {
	w.serial++
	k := &knot{height: height, prev: prev}
	binary.BigEndian.PutUint64(k.hash[:8], w.serial*0x9e3779b97f4a7c15)
	binary.BigEndian.PutUint64(k.hash[8:], w.serial)
	w.knots[k.hash] = k
	return k
}

func (w *world) ids() []string {
	var r []string
	for id := range w.tr.Branches() {
		r = append(r, id)
	}
	// ids end in a counter: order by it
	sort.Slice(r, func(i, j int) bool {
		if len(r[i]) != len(r[j]) {
			return len(r[i]) < len(r[j])
		}
		return r[i] < r[j]
	})
	return r
}

func (w *world) diskHeight() uint64 { return w.d.head().height }

func (w *world) diskChain() []types.Hash {
	var r []types.Hash
	for _, k := range w.d.ks {
		r = append(r, k.hash)
	}
	return r
}

func common(a, b []types.Hash) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n - 1
}

// extend puts n new blocks behind the given block the way the pool does.
func (w *world) extend(t *rapid.T, c tree.Branch, at uint64, n int) {
	hash, holder := c.GetHashAndBranch(at)
	chain := w.chains[c.ID()]
	if hash == nil || *hash != chain[at] {
		t.Fatalf("height %d of branch %s: %v, want %v", at, c.ID(), hash, chain[at])
	}
	if holder.Type() == tree.Disk {
		holder = w.tr.Main()
	}
	hh, hhash := holder.HeadHH()
	if hh != at || hhash != *hash {
		holder = w.tr.ForkBranch(holder, at, *hash)
		if _, ok := w.chains[holder.ID()]; ok {
			t.Fatalf("branch id %s used twice", holder.ID())
		}
		w.chains[holder.ID()] = append([]types.Hash(nil), chain[:at+1]...)
		w.forks++
	}
	for i := 0; i < n; i++ {
		ch := w.chains[holder.ID()]
		k := w.newKnot(uint64(len(ch)), ch[len(ch)-1])
		if err := w.tr.AddHead(holder, k); err != nil {
			t.Fatalf("AddHead: %v", err)
		}
		w.chains[holder.ID()] = append(ch, k.hash)
	}
}

func (w *world) rollback(t *rapid.T, to uint64) {
	main := w.tr.Main()
	for w.diskHeight() > to {
		k := w.d.head()
		w.d.ks = w.d.ks[:len(w.d.ks)-1]
		if err := w.tr.AddTail(main, k); err != nil {
			t.Fatalf("AddTail: %v", err)
		}
	}
	w.rollbacks++
}

// rootAdd confirms a block in the ledger.
func (w *world) rootAdd(t *rapid.T, k *knot) {
	main := w.tr.Main()
	ch := w.chains[main.ID()]
	w.d.ks = append(w.d.ks, k)
	if err := w.tr.RootHeadAdd(k); err != nil {
		t.Fatalf("RootHeadAdd: %v", err)
	}
	switch {
	case uint64(len(ch)) == k.height: // the main branch was empty
		w.chains[main.ID()] = append(ch, k.hash)
	case ch[k.height] == k.hash:
	default:
		w.diverged++
		now := w.tr.Main()
		if _, ok := w.chains[now.ID()]; ok {
			t.Fatalf("after a foreign block was confirmed the main branch is the old branch %s", now.ID())
		}
		w.chains[now.ID()] = w.diskChain()
	}
	if w.tr.Main().Size() == 0 {
		w.empties++
	}
}

func (w *world) check(t *rapid.T) {
	bs := w.tr.Branches()
	main := w.tr.Main()
	if bs[main.ID()] != main {
		t.Fatalf("the main branch %s is not among the branches", main.ID())
	}
	if w.tr.Root() != tree.Branch(w.d) || main.Root() != tree.Branch(w.d) {
		t.Fatalf("the main branch does not stand on the ledger")
	}
	if !main.Linked(w.d) {
		t.Fatalf("the main branch has tail %s, the ledger ends at %s", main.SprintTail(), w.d.SprintHead())
	}
	held := map[types.Hash]bool{}
	for id, b := range bs {
		ch, ok := w.chains[id]
		if !ok {
			t.Fatalf("unknown branch %s", id)
		}
		if b.ID() != id {
			t.Fatalf("branch %s listed as %s", b.ID(), id)
		}
		hh, hhash := b.HeadHH()
		th, thash := b.TailHH()
		if hh != uint64(len(ch)-1) || hhash != ch[hh] {
			t.Fatalf("branch %s has head %d, want %d", id, hh, len(ch)-1)
		}
		if th > hh || thash != ch[th] || b.Size() != hh-th || !b.MatchHead(hhash) {
			t.Fatalf("branch %s has tail %d, head %d, size %d", id, th, hh, b.Size())
		}
		for h := uint64(0); h <= hh+1; h++ {
			local := b.GetKnot(h, false)
			if (local != nil) != (h > th && h <= hh) {
				t.Fatalf("branch %s (%d,%d]: block %d held: %v", id, th, hh, h, local != nil)
			}
			k := b.GetKnot(h, true)
			k2, holder := b.GetKnotAndBranch(h)
			x := b.GetHash(h, true)
			x2, holder2 := b.GetHashAndBranch(h)
			if h > hh {
				if k != nil || k2 != nil || x != nil || x2 != nil {
					t.Fatalf("branch %s has a block at %d above its head %d", id, h, hh)
				}
				continue
			}
			if k == nil || k2 == nil || x == nil || x2 == nil || holder == nil || holder2 == nil {
				t.Fatalf("branch %s cannot find its block %d", id, h)
			}
			if k.Hash() != ch[h] || k2.Hash() != ch[h] || *x != ch[h] || *x2 != ch[h] || k.Height() != h {
				t.Fatalf("branch %s has another block at %d", id, h)
			}
			if h > 0 && k.PrevHash() != ch[h-1] {
				t.Fatalf("branch %s is not linked at %d", id, h)
			}
			if got := holder.GetKnot(h, false); got == nil || got.Hash() != ch[h] || holder.ID() != holder2.ID() {
				t.Fatalf("branch %s: block %d is not held by %s", id, h, holder.ID())
			}
			if local != nil {
				if local.Hash() != ch[h] {
					t.Fatalf("branch %s holds another block at %d", id, h)
				}
				held[local.Hash()] = true
			}
			if !b.ContainsKnot(h, ch[h], true) || b.ContainsKnot(h, ch[h], false) != (local != nil) {
				t.Fatalf("branch %s: ContainsKnot(%d) is wrong", id, h)
			}
			if b.ContainsKnot(h, types.Hash{0xee, byte(h)}, true) {
				t.Fatalf("branch %s contains a foreign block", id)
			}
		}
		// the parent carries the fork point, and parents lead to the main branch
		seen := map[string]bool{}
		for p := b; p.ID() != main.ID(); p = p.Root() {
			if p.Type() == tree.Disk || seen[p.ID()] || bs[p.ID()] != p {
				t.Fatalf("the parents of branch %s do not lead to the main branch (at %s)", id, p.ID())
			}
			seen[p.ID()] = true
		}
		if id != main.ID() {
			p := w.chains[b.Root().ID()]
			if uint64(len(p)) <= th || p[th] != thash {
				t.Fatalf("branch %s forks at %d from %s, which has another block there", id, th, b.Root().ID())
			}
		}
		for _, br := range w.tr.Brothers(b) {
			if x, y := br.TailHH(); x != th || y != thash {
				t.Fatalf("brothers with different tails")
			}
			if bs[br.ID()] != br {
				t.Fatalf("branch %s has the removed branch %s as a brother", id, br.ID())
			}
		}
		// fork point from the main branch
		m := w.chains[main.ID()]
		fp := common(ch, m)
		key, fork, err := w.tr.FindForkPointFromMain(b)
		if err != nil || fork == nil || fork.Height() != uint64(fp) || fork.Hash() != ch[fp] {
			t.Fatalf("fork point of %s: %v, %v, want height %d", id, fork, err, fp)
		}
		longest := ch
		if len(m) > len(ch) {
			longest = m
		}
		if (key == nil) != (len(longest) == fp+1) {
			t.Fatalf("key point of %s: %v, fork point %d, longest head %d", id, key, fp, len(longest)-1)
		}
		if key != nil && (key.Height() != uint64(fp+1) || key.Hash() != longest[fp+1] && !(len(m) == len(ch) && (key.Hash() == m[fp+1] || key.Hash() == ch[fp+1]))) {
			t.Fatalf("key point of %s is not the block behind the fork point", id)
		}
	}
	// blocks: all that were added and are in no branch any more are in the ledger
	inTree := uint64(0)
	for h, k := range w.knots {
		onDisk := k.height < uint64(len(w.d.ks)) && w.d.ks[k.height].hash == h
		ex := w.tr.Exists(h)
		if ex {
			inTree++
		}
		if onDisk {
			continue
		}
		if !held[h] {
			t.Fatalf("the block at height %d is neither in the ledger nor in a branch", k.height)
		}
		if !ex {
			t.Fatalf("the block at height %d is in a branch, the tree says it does not exist", k.height)
		}
		f := w.tr.FindBranch(k.height, h)
		if f == nil || bs[f.ID()] != f || !f.ContainsKnot(k.height, h, false) {
			t.Fatalf("the block at height %d cannot be found", k.height)
		}
	}
	if w.tr.Size() != inTree {
		t.Fatalf("the tree has size %d, %d of its blocks exist", w.tr.Size(), inTree)
	}
	// a branch goes only when its chain is kept elsewhere
	for id, ch := range w.chains {
		if _, ok := bs[id]; ok {
			continue
		}
		kept := common(ch, w.diskChain()) == len(ch)-1
		for o := range bs {
			kept = kept || common(ch, w.chains[o]) == len(ch)-1
		}
		if !kept {
			t.Fatalf("branch %s is gone and its chain with it", id)
		}
		delete(w.chains, id)
	}
}

func TestTree(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "generated histories of adding blocks, forking, confirming, rolling back, switching and pruning on the pending-block tree, each branch modelled as the chain of hashes it stands for; non-trivial when the history forked, switched and rolled back or was overtaken by a foreign block",
		Quick: 6000, Thorough: 120000, Steps: 30,
	}, func(t *rapid.T, c *vlib.C) {
		w := &world{d: &disk{ks: []*knot{{}}}, chains: map[string][]types.Hash{}, knots: map[types.Hash]*knot{}}
		w.knots[types.Hash{}] = w.d.ks[0]
		for i, n := 0, rapid.IntRange(0, 4).Draw(t, "base"); i < n; i++ {
			w.d.ks = append(w.d.ks, w.newKnot(w.diskHeight()+1, w.d.head().hash))
		}
		w.tr = tree.NewTree()
		if err := w.tr.Init("t", w.d); err != nil {
			t.Fatalf("%v", err)
		}
		w.chains[w.tr.Main().ID()] = w.diskChain()
		pick := func(t *rapid.T) tree.Branch {
			return w.tr.Branches()[rapid.SampledFrom(w.ids()).Draw(t, "branch")]
		}
		t.Repeat(map[string]func(*rapid.T){
			"extend": func(t *rapid.T) {
				b := pick(t)
				if rapid.IntRange(0, 2).Draw(t, "onMain") == 0 {
					b = w.tr.Main()
				}
				n := len(w.chains[b.ID()])
				at := n - 1
				if rapid.Bool().Draw(t, "inside") {
					at = rapid.IntRange(0, n-1).Draw(t, "at")
					if lo := int(w.diskHeight()) - 1; at < lo && lo < n && rapid.IntRange(0, 3).Draw(t, "deep") > 0 {
						at = rapid.IntRange(max(lo, 0), n-1).Draw(t, "at2")
					}
				}
				w.extend(t, b, uint64(at), rapid.IntRange(1, 3).Draw(t, "n"))
			},
			"confirm": func(t *rapid.T) {
				for n := rapid.IntRange(1, 3).Draw(t, "n"); n > 0; n-- {
					ch := w.chains[w.tr.Main().ID()]
					if h := w.diskHeight() + 1; h < uint64(len(ch)) {
						w.rootAdd(t, w.knots[ch[h]])
					}
				}
			},
			"confirmForeign": func(t *rapid.T) {
				h := w.diskHeight() + 1
				if rapid.IntRange(0, 2).Draw(t, "known") > 0 {
					var ks []*knot
					for _, id := range w.ids() {
						ch := w.chains[id]
						if h < uint64(len(ch)) && ch[h-1] == w.d.head().hash {
							ks = append(ks, w.knots[ch[h]])
						}
					}
					if len(ks) > 0 {
						w.rootAdd(t, rapid.SampledFrom(ks).Draw(t, "knot"))
					}
					return
				}
				w.rootAdd(t, w.newKnot(h, w.d.head().hash))
			},
			"rollback": func(t *rapid.T) {
				if h := int(w.diskHeight()); h > 0 {
					n := rapid.IntRange(1, min(h, 4)).Draw(t, "n")
					w.rollback(t, uint64(h-n))
				}
			},
			"switch": func(t *rapid.T) {
				b := pick(t)
				fp := uint64(common(w.chains[b.ID()], w.chains[w.tr.Main().ID()]))
				if fp < w.diskHeight() {
					w.rollback(t, fp)
				}
				if err := w.tr.SwitchMainTo(b); err != nil {
					t.Fatalf("SwitchMainTo: %v", err)
				}
				if w.tr.Main().ID() != b.ID() {
					t.Fatalf("after switching to %s the main branch is %s", b.ID(), w.tr.Main().ID())
				}
				w.switches++
			},
			"switchBrother": func(t *rapid.T) {
				bs := w.tr.Brothers(w.tr.Main())
				if len(bs) == 0 {
					return
				}
				sort.Slice(bs, func(i, j int) bool { return bs[i].ID() < bs[j].ID() })
				b := rapid.SampledFrom(bs).Draw(t, "brother")
				if err := w.tr.SwitchMainTo(b); err != nil {
					t.Fatalf("SwitchMainTo: %v", err)
				}
				if w.tr.Main().ID() != b.ID() {
					t.Fatalf("after switching to %s the main branch is %s", b.ID(), w.tr.Main().ID())
				}
				w.switches++
				w.switchBack++
			},
			"switchEmpty": func(t *rapid.T) {
				if err := w.tr.SwitchMainToEmpty(); err != nil {
					t.Fatalf("SwitchMainToEmpty: %v", err)
				}
				m := w.tr.Main()
				if h, x := m.HeadHH(); h != w.diskHeight() || x != w.d.head().hash {
					t.Fatalf("the empty main branch has head %d, the ledger %d", h, w.diskHeight())
				}
				if _, ok := w.chains[m.ID()]; !ok {
					w.chains[m.ID()] = w.diskChain()
				}
				w.switches++
			},
			"prune": func(t *rapid.T) {
				before := w.tr.Branches()
				for _, b := range w.tr.PruneTree() {
					if before[b.ID()] != b || w.tr.Branches()[b.ID()] != nil {
						t.Fatalf("PruneTree reports %s as removed", b.ID())
					}
				}
				w.prunes++
			},
			"": func(t *rapid.T) { w.check(t) },
		})
		if w.forks > 0 && w.switches > 0 && w.rollbacks+w.diverged > 0 {
			c.NonTrivial(w.forks, w.switches, w.rollbacks, w.diverged, w.prunes, w.serial, len(w.chains), len(w.d.ks))
		}
		c.Sample("%d blocks, %d forks, %d switches (%d to a brother), %d rollbacks, overtaken %d times, %d prunes; %d branches left", w.serial, w.forks, w.switches, w.switchBack, w.rollbacks, w.diverged, w.prunes, len(w.tr.Branches()))
	})
}
