package c22

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/pool"
	"github.com/vitelabs/go-vite/v2/ledger/pool/batch"
	"verif/vlib"
)

// ---- generated blocks ----

type blk struct {
	owner *types.Address // nil for a snapshot block
	hash  types.Hash
	keys  []types.Hash // the hashes the block brings: its own and those of embedded sends
	deps  []types.Hash // what has to be in the ledger before it
	a     *ledger.AccountBlock
	s     *ledger.SnapshotBlock
	epoch int // snapshots accepted before it
	level int // the depth of the model
	shash *types.Hash
}

func (b *blk) item() batch.Item {
	if b.a != nil {
		return pool.VAccountItem(b.a)
	}
	return pool.VSnapshotItem(b.s)
}

type account struct {
	addr   types.Address
	head   types.Hash
	height uint64
}

type gen struct {
	serial  uint64
	accs    []*account
	sends   []types.Hash // unreceived sends, in the chain or batched
	shead   types.Hash
	sheight uint64
	chain   map[types.Hash]bool
}

func (g *gen) hash() types.Hash {
	g.serial++
	// hashes are spread so that their order has nothing to do with their age
	var h types.Hash
	x := g.serial * 0x9e3779b97f4a7c15
	for i := range h {
		h[i] = byte(x >> (8 * (uint(i) % 8)))
		if i%8 == 7 {
			x = x*0xbf58476d1ce4e5b9 + 1
		}
	}
	return h
}

func newGen(t *rapid.T) *gen {
	g := &gen{chain: map[types.Hash]bool{}}
	g.serial = uint64(rapid.IntRange(0, 1<<30).Draw(t, "salt"))
	for i, n := 0, rapid.IntRange(1, 6).Draw(t, "accounts"); i < n; i++ {
		a := &account{}
		a.addr[0] = byte(i + 1)
		if rapid.Bool().Draw(t, "hasChain") {
			a.height = uint64(rapid.IntRange(1, 5).Draw(t, "height"))
			a.head = g.hash()
			g.chain[a.head] = true
		}
		g.accs = append(g.accs, a)
	}
	for i, n := 0, rapid.IntRange(0, 3).Draw(t, "chainSends"); i < n; i++ {
		h := g.hash()
		g.chain[h] = true
		g.sends = append(g.sends, h)
	}
	g.shead, g.sheight = g.hash(), uint64(rapid.IntRange(1, 9).Draw(t, "sheight"))
	g.chain[g.shead] = true
	return g
}

// account draws the next block of an account; commit makes it the head.
func (g *gen) account(t *rapid.T) (*blk, func()) {
	a := rapid.SampledFrom(g.accs).Draw(t, "account")
	ab := &ledger.AccountBlock{AccountAddress: a.addr, Height: a.height + 1, PrevHash: a.head, Hash: g.hash(), BlockType: ledger.BlockTypeSendCall}
	b := &blk{owner: &a.addr, hash: ab.Hash, keys: []types.Hash{ab.Hash}, a: ab}
	if a.height > 0 {
		b.deps = append(b.deps, a.head)
	}
	from := -1
	var embedded []types.Hash
	kind := rapid.IntRange(0, 3).Draw(t, "kind")
	if kind >= 1 && len(g.sends) > 0 {
		from = rapid.IntRange(0, len(g.sends)-1).Draw(t, "from")
		if rapid.IntRange(0, 2).Draw(t, "recent") == 0 {
			from = len(g.sends) - 1
		}
		ab.BlockType = rapid.SampledFrom([]byte{ledger.BlockTypeReceive, ledger.BlockTypeReceive, ledger.BlockTypeReceiveError}).Draw(t, "type")
		ab.FromBlockHash = g.sends[from]
		b.deps = append(b.deps, ab.FromBlockHash)
		if kind == 3 {
			for i, n := 0, rapid.IntRange(0, 3).Draw(t, "embedded"); i < n; i++ {
				s := &ledger.AccountBlock{AccountAddress: a.addr, BlockType: ledger.BlockTypeSendCall, Hash: g.hash()}
				ab.SendBlockList = append(ab.SendBlockList, s)
				b.keys = append(b.keys, s.Hash)
				embedded = append(embedded, s.Hash)
			}
		}
	} else if rapid.IntRange(0, 4).Draw(t, "sendType") == 0 {
		ab.BlockType = rapid.SampledFrom([]byte{ledger.BlockTypeSendCreate, ledger.BlockTypeSendReward, ledger.BlockTypeSendRefund}).Draw(t, "type")
	}
	return b, func() {
		a.head, a.height = b.hash, ab.Height
		if from >= 0 {
			g.sends = append(g.sends[:from:from], g.sends[from+1:]...)
			g.sends = append(g.sends, embedded...)
		} else {
			g.sends = append(g.sends, b.hash)
		}
	}
}

func (g *gen) snapshot(t *rapid.T) (*blk, func()) {
	sb := &ledger.SnapshotBlock{Hash: g.hash(), PrevHash: g.shead, Height: g.sheight + 1, SnapshotContent: ledger.SnapshotContent{}}
	b := &blk{hash: sb.Hash, keys: []types.Hash{sb.Hash}, deps: []types.Hash{g.shead}, s: sb}
	all := rapid.Bool().Draw(t, "all")
	for _, a := range g.accs {
		if a.height > 0 && (all || rapid.Bool().Draw(t, "in")) {
			sb.SnapshotContent[a.addr] = &ledger.HashHeight{Height: a.height, Hash: a.head}
			b.deps = append(b.deps, a.head)
		}
	}
	return b, func() { g.shead, g.sheight = b.hash, sb.Height }
}

// ---- batching ----

func dump(b batch.Batch) string {
	var sb strings.Builder
	for _, l := range b.Levels() {
		fmt.Fprintf(&sb, "level %d snapshot=%v closed=%v size=%d\n", l.Index(), l.Snapshot(), l.Closed(), l.Size())
		var bu []string
		for _, x := range l.Buckets() {
			s := ""
			for _, it := range x.Items() {
				s += it.Hash().String()[:8] + " "
			}
			bu = append(bu, s)
		}
		sort.Strings(bu)
		sb.WriteString(strings.Join(bu, "|") + "\n")
	}
	fmt.Fprint(&sb, b.Size())
	return sb.String()
}

type place struct{ level, bucket, pos int }

func TestBatch(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "generated account and snapshot blocks (sends, receives, embedded sends) added to a batch in causal order, with blocks whose dependency is missing in between, then executed: every accepted block once, behind its dependencies, snapshots as barriers; non-trivial when the batch has at least four levels and a dependency across accounts",
		Quick: 20000, Thorough: 300000,
	}, func(t *rapid.T, c *vlib.C) {
		g := newGen(t)
		max := rapid.IntRange(2, 14).Draw(t, "max")
		version := uint64(rapid.IntRange(0, 1000).Draw(t, "version"))
		aExists := func(h types.Hash) error {
			if g.chain[h] {
				return nil
			}
			return errors.New("not found")
		}
		bt := batch.NewBatch(aExists, aExists, version, max)
		if bt.Version() != version || bt.Size() != 0 || len(bt.Levels()) != 0 {
			t.Fatalf("a new batch has version %d, size %d, %d levels", bt.Version(), bt.Size(), len(bt.Levels()))
		}
		var all []*blk
		byKey := map[types.Hash]*blk{}
		epoch, lastSnap, top := 0, -1, -1
		lastS := false
		refused, full, cross := 0, 0, 0
		sh := g.hash()
		n := rapid.IntRange(1, 40).Draw(t, "steps")
		for i := 0; i < n; i++ {
			var b *blk
			var commit func()
			op := rapid.IntRange(0, 9).Draw(t, "op")
			if op <= 1 {
				b, commit = g.snapshot(t)
			} else {
				b, commit = g.account(t)
			}
			bad := rapid.IntRange(0, 7).Draw(t, "bad") == 0
			if bad {
				h := g.hash()
				switch {
				case b.s != nil && rapid.Bool().Draw(t, "badContent"):
					b.s.SnapshotContent[types.Address{99}] = &ledger.HashHeight{Height: 1, Hash: h}
				case b.s != nil:
					b.s.PrevHash = h
				case b.a.FromBlockHash != (types.Hash{}) && rapid.Bool().Draw(t, "badFrom"):
					b.a.FromBlockHash = h
				default:
					b.a.PrevHash = h
					b.a.Height++
				}
			}
			// the depth the block needs
			want := lastSnap + 1
			if b.s != nil {
				want = top + 1
				if lastS {
					want = top
				}
			} else {
				for _, d := range b.deps {
					if o := byKey[d]; o != nil && o.epoch == epoch {
						l := o.level
						if *o.owner != *b.owner {
							l++
						}
						if l > want {
							want = l
						}
					}
				}
			}
			before := dump(bt)
			var err error
			it := b.item()
			if b.s != nil {
				err = bt.AddSItem(it)
			} else {
				cur := sh
				err = bt.AddAItem(it, &cur)
			}
			if bad {
				if err == nil {
					t.Fatalf("a block whose dependency is missing was accepted")
				}
				refused++
			} else if want >= max {
				if err != batch.ErrorArrivedToMax {
					t.Fatalf("a block needing level %d of %d: %v", want, max, err)
				}
				full++
			} else if err != nil {
				t.Fatalf("a block with all its dependencies, needing level %d of %d, was refused: %v", want, max, err)
			}
			if err != nil {
				if d := dump(bt); d != before {
					t.Fatalf("refusing a block (%v) changed the batch from\n%s\nto\n%s", err, before, d)
				}
				for _, k := range b.keys {
					if bt.Exists(k) {
						t.Fatalf("a refused block exists in the batch")
					}
				}
				continue
			}
			commit()
			b.level, b.epoch = want, epoch
			if b.s == nil {
				h := sh
				b.shash = &h
				lastS = false
			} else {
				epoch++
				lastSnap = want
				lastS = true
				sh = g.hash()
			}
			if want > top {
				top = want
			}
			for _, k := range b.keys {
				byKey[k] = b
			}
			all = append(all, b)
		}

		// placement
		at := map[types.Hash]place{}
		levels := bt.Levels()
		count := 0
		for i, l := range levels {
			if l.Index() != i {
				t.Fatalf("level %d has index %d", i, l.Index())
			}
			inLevel := 0
			owners := map[types.Address]bool{}
			for j, bu := range l.Buckets() {
				if l.Snapshot() != (bu.Owner() == nil) {
					t.Fatalf("level %d: snapshot %v, bucket owner %v", i, l.Snapshot(), bu.Owner())
				}
				if bu.Owner() != nil {
					if owners[*bu.Owner()] {
						t.Fatalf("level %d has two buckets of one account", i)
					}
					owners[*bu.Owner()] = true
				}
				for k, it := range bu.Items() {
					o := byKey[it.Hash()]
					if o == nil || o.hash != it.Hash() {
						t.Fatalf("an unknown item in level %d", i)
					}
					if (o.owner == nil) != (bu.Owner() == nil) || o.owner != nil && *o.owner != *bu.Owner() {
						t.Fatalf("an item in a foreign bucket")
					}
					if _, ok := at[it.Hash()]; ok {
						t.Fatalf("a block is placed twice")
					}
					at[it.Hash()] = place{i, j, k}
					count++
					inLevel++
					if o.owner != nil {
						if l.SHash() == nil || *l.SHash() != *o.shash {
							t.Fatalf("level %d carries another snapshot's hash than its block", i)
						}
					}
				}
			}
			if inLevel != l.Size() {
				t.Fatalf("level %d has size %d and %d items", i, l.Size(), inLevel)
			}
		}
		if count != len(all) {
			t.Fatalf("%d blocks placed, %d accepted", count, len(all))
		}
		for _, b := range all {
			p := at[b.hash]
			for _, k := range b.keys {
				if !bt.Exists(k) {
					t.Fatalf("hash %v of an accepted block does not exist in the batch", k)
				}
			}
			for _, d := range b.deps {
				o := byKey[d]
				if o == nil {
					continue
				}
				q := at[o.hash]
				if o.owner != nil && b.owner != nil && *o.owner != *b.owner {
					cross++
				}
				if q.level < p.level {
					continue
				}
				if q.level == p.level && q.bucket == p.bucket && q.pos < p.pos {
					continue
				}
				t.Fatalf("a block at %v depends on one at %v\n%s", p, q, dump(bt))
			}
			// snapshots separate what came before from what came after
			for _, o := range all {
				if o.owner == nil && b.owner != nil {
					q := at[o.hash]
					if o.epoch >= b.epoch && q.level <= p.level || o.epoch < b.epoch && q.level >= p.level {
						t.Fatalf("block of epoch %d at level %d, snapshot %d at level %d", b.epoch, p.level, o.epoch, q.level)
					}
				}
			}
		}
		if bt.Exists(g.hash()) {
			t.Fatalf("a foreign hash exists in the batch")
		}

		// execution
		failAt := -1
		if count > 0 && rapid.IntRange(0, 2).Draw(t, "fail") == 0 {
			failAt = rapid.IntRange(0, count-1).Draw(t, "failAt")
		}
		var mu sync.Mutex
		calls, failLevel := 0, -1
		done := map[types.Hash]bool{}
		var prob string
		injected := errors.New("injected")
		run := func(snapshot bool) batch.BucketExecutorFn {
			return func(p batch.Batch, l batch.Level, bu batch.Bucket, v uint64) error {
				items := bu.Items()
				mu.Lock()
				if v != version || p != bt || l.Snapshot() != snapshot {
					prob = fmt.Sprintf("bucket handed over with version %d, snapshot %v", v, l.Snapshot())
				}
				if failLevel >= 0 && l.Index() > failLevel {
					prob = "a level was run after a failed one"
				}
				for _, x := range levels {
					if x.Index() < l.Index() && !x.HasDone() || x.Index() >= l.Index() && x.HasDone() {
						prob = "levels are not marked done in order"
					}
				}
				bad := calls == failAt
				calls++
				mu.Unlock()
				runtime.Gosched()
				for _, it := range items {
					o := byKey[it.Hash()]
					mu.Lock()
					for _, d := range o.deps {
						if x := byKey[d]; x != nil && !done[x.hash] {
							prob = "a block was handed over before its dependency"
						}
					}
					if done[it.Hash()] {
						prob = "a block was handed over twice"
					}
					done[it.Hash()] = true
					mu.Unlock()
				}
				if bad {
					mu.Lock()
					failLevel = l.Index()
					mu.Unlock()
					return injected
				}
				return nil
			}
		}
		err := bt.Batch(run(true), run(false))
		if prob != "" {
			t.Fatalf("%s", prob)
		}
		if failLevel >= 0 {
			if err != injected {
				t.Fatalf("a bucket failed, Batch returns %v", err)
			}
			for _, l := range levels {
				if l.HasDone() != (l.Index() < failLevel) {
					t.Fatalf("level %d done %v after level %d failed", l.Index(), l.HasDone(), failLevel)
				}
			}
			c.Label("failed")
		} else {
			if err != nil {
				t.Fatalf("Batch: %v", err)
			}
			if len(done) != len(all) {
				t.Fatalf("%d blocks handed over, %d accepted", len(done), len(all))
			}
		}
		if len(levels) >= 4 && cross > 0 {
			c.NonTrivial(len(all), len(levels), refused, full, cross, failAt, epoch)
		}
		c.Sample("%d blocks on %d levels of %d, %d snapshots, %d refused, %d over capacity, %d dependencies across accounts, failure at call %d", len(all), len(levels), max, epoch, refused, full, cross, failAt)
	})
}

func TestSort(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "the account blocks of a generated chunk in any order: sorting keeps the set and puts every block behind its dependencies, and a cyclic set is an error; non-trivial when at least one dependency crosses accounts and the order had to change",
		Quick: 10000, Thorough: 200000,
	}, func(t *rapid.T, c *vlib.C) {
		g := newGen(t)
		var bs []*ledger.AccountBlock
		deps := map[types.Hash][]types.Hash{}
		owner := map[types.Hash]types.Hash{} // key -> block
		by := map[types.Hash]*ledger.AccountBlock{}
		cross := 0
		for i, n := 0, rapid.IntRange(0, 25).Draw(t, "blocks"); i < n; i++ {
			b, commit := g.account(t)
			commit()
			bs = append(bs, b.a)
			deps[b.hash] = b.deps
			by[b.hash] = b.a
			for _, k := range b.keys {
				owner[k] = b.hash
			}
			for _, d := range b.deps {
				if o, ok := owner[d]; ok && by[o].AccountAddress != b.a.AccountAddress {
					cross++
				}
			}
		}
		cyclic := false
		if len(bs) >= 2 && rapid.IntRange(0, 5).Draw(t, "cycle") == 0 {
			// the first block of a dependency receives from one that depends on it
			i := rapid.IntRange(0, len(bs)-2).Draw(t, "ci")
			reach := map[types.Hash]bool{bs[i].Hash: true}
			var later []types.Hash
			for _, b := range bs[i+1:] {
				for _, d := range deps[b.Hash] {
					if o, ok := owner[d]; ok && reach[o] && !reach[b.Hash] {
						reach[b.Hash] = true
						later = append(later, b.Hash)
					}
				}
			}
			if len(later) > 0 {
				bs[i].BlockType = ledger.BlockTypeReceive
				bs[i].FromBlockHash = rapid.SampledFrom(later).Draw(t, "cj")
				cyclic = true
			}
		}
		in := append([]*ledger.AccountBlock(nil), bs...)
		if len(bs) > 0 {
			in = rapid.Permutation(bs).Draw(t, "order")
		}
		before := append([]*ledger.AccountBlock(nil), in...)
		err := pool.VSort(in)
		if cyclic {
			if err == nil {
				t.Fatalf("a cyclic set was sorted")
			}
			c.Label("cyclic")
			return
		}
		if err != nil {
			t.Fatalf("sorting: %v", err)
		}
		pos := map[types.Hash]int{}
		for i, b := range in {
			if by[b.Hash] != b {
				t.Fatalf("a foreign block after sorting")
			}
			if _, ok := pos[b.Hash]; ok {
				t.Fatalf("a block appears twice after sorting")
			}
			pos[b.Hash] = i
		}
		if len(pos) != len(bs) {
			t.Fatalf("%d blocks after sorting, %d before", len(pos), len(bs))
		}
		moved := false
		for i, b := range in {
			if before[i] != b {
				moved = true
			}
			for _, d := range deps[b.Hash] {
				if o, ok := owner[d]; ok && pos[o] >= i {
					t.Fatalf("block %d depends on block %d", i, pos[o])
				}
			}
		}
		if cross > 0 && moved {
			c.NonTrivial(len(bs), cross, g.serial)
		}
		c.Sample("%d blocks, %d dependencies across accounts", len(bs), cross)
	})
}
