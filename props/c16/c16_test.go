// Package c16: the on-disk ledger against a replay of the surviving blocks.
package c16

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"pgregory.net/rapid"

	"verif/fullchain"
	"verif/vlib"
)

type run struct {
	t     *rapid.T
	c     *vlib.C
	w     *fullchain.World
	trace []string
	seeds map[int]uint64 // last committed seed of a producer
	gone  int
	back  int
}

func (r *run) log(f string, a ...interface{}) { r.trace = append(r.trace, fmt.Sprintf(f, a...)) }

func (r *run) check(err error, what string) {
	if err != nil {
		r.t.Fatalf("%s: %v\nhistory: %s", what, err, strings.Join(r.trace, "; "))
	}
}

func (r *run) insert() {
	b := r.w.Block(r.t)
	if b == nil {
		return
	}
	r.log("block %s#%d type %d subs %d", b.B.AccountAddress.String()[:12], b.B.Height, b.B.BlockType, len(b.B.SendBlockList))
	r.check(r.w.Insert(b), "insert")
	if rapid.IntRange(0, 20).Draw(r.t, "bad") == 0 && types.IsContractAddr(b.B.AccountAddress) {
		r.w.Bad[b.B.Hash] = true
	}
}

func (r *run) snapshot(max int64) {
	pick := r.w.Pick(r.t)
	dt := rapid.OneOf(rapid.Int64Range(1, 3), rapid.Int64Range(1, max)).Draw(r.t, "dt")
	p := r.w.ProducerAt(r.w.Latest().SB.Timestamp.Unix() + dt)
	seed := uint64(0)
	if rapid.Bool().Draw(r.t, "publish") {
		seed = r.seeds[p]
	}
	var sh *types.Hash
	if rapid.Bool().Draw(r.t, "commit") {
		next := rapid.Uint64Range(1, 1<<62).Draw(r.t, "seed")
		prev := r.w.Latest().SB
		ts := time.Unix(prev.Timestamp.Unix()+dt, 0)
		h := core.ComputeSeedHash(next, prev.Hash, &ts)
		sh = &h
		r.seeds[p] = next
	}
	r.log("snapshot %d of %d, +%ds", len(pick), len(r.w.Un), dt)
	r.check(r.w.Snapshot(pick, dt, seed, sh), "snapshot")
}

func (r *run) rollback(n int) bool {
	depth := rapid.OneOf(rapid.IntRange(1, 3), rapid.IntRange(1, n-1)).Draw(r.t, "depth")
	if n > fullchain.RedoKept && rapid.IntRange(0, 2).Draw(r.t, "far") > 0 {
		depth = rapid.IntRange(fullchain.RedoKept-3, n-1).Draw(r.t, "farDepth")
	}
	if depth > n-1 {
		depth = n - 1
	}
	h := uint64(n - depth + 1)
	r.log("rollback %d of %d", h, n)
	r.check(r.w.Rollback(h, rapid.Bool().Draw(r.t, "byHash")), "rollback")
	r.gone++
	return true
}

func (r *run) step(big bool) {
	full := false
	switch rapid.SampledFrom([]string{"block", "block", "block", "block", "block", "again", "snapshot", "snapshot", "snapshot", "rollback", "delete", "flush", "reopen", "refuse"}).Draw(r.t, "op") {
	case "block":
		r.insert()
	case "again":
		b := r.w.Again(r.t)
		if b == nil {
			return
		}
		r.log("again %s#%d", b.B.AccountAddress.String()[:12], b.B.Height)
		r.check(r.w.Insert(b), "insert again")
	case "snapshot":
		r.snapshot(90)
		full = rapid.Bool().Draw(r.t, "full")
	case "rollback":
		n := len(r.w.Chunks)
		if n < 2 {
			return
		}
		full = r.rollback(n)
	case "delete":
		if len(r.w.Un) == 0 {
			return
		}
		b := rapid.SampledFrom(r.w.Un).Draw(r.t, "delete")
		r.log("delete %s#%d", b.B.AccountAddress.String()[:12], b.B.Height)
		r.check(r.w.DeleteBlocks(b, rapid.Bool().Draw(r.t, "byHash")), "delete")
		r.gone++
		full = true
	case "refuse":
		kind := rapid.IntRange(0, 6).Draw(r.t, "kind")
		r.log("refuse %d", kind)
		of := rapid.SampledFrom(r.w.AllBlks).Draw(r.t, "of")
		var err error
		if p := vlib.Catch(func() { err = r.w.Refuse(kind, of) }); p != nil {
			err = fmt.Errorf("panic: %v", p)
		}
		r.check(err, "refuse")
	case "flush":
		r.log("flush")
		r.w.Flush()
	case "reopen":
		r.log("reopen")
		r.check(r.w.Reopen(), "reopen")
		r.back++
		full = true
	}
	if full {
		r.check(r.w.Compare(), "compare")
	} else {
		r.check(r.w.CompareLight(), "compare")
	}
}

func history(c *vlib.C, t *rapid.T, pre, steps int) {
	w, err := fullchain.New(vlib.TempDir(t), false)
	if err != nil {
		t.Fatalf("new: %v", err)
	}
	defer w.Close()
	r := &run{t: t, c: c, w: w, seeds: map[int]uint64{}}
	for i := 0; i < pre; i++ {
		if rapid.IntRange(0, 3).Draw(t, "preBlock") == 0 {
			r.insert()
		}
		r.snapshot(5)
	}
	if pre > 0 {
		r.check(w.Compare(), "compare")
	}
	for i := 0; i < steps; i++ {
		if n := len(w.Chunks); n > fullchain.RedoKept && i == 2 {
			r.rollback(n)
			r.check(w.Compare(), "compare")
		}
		r.step(pre > 0)
	}
	r.check(w.Compare(), "compare at the end")
	if r.gone > 0 && len(w.AllBlks) > 20 {
		c.NonTrivial(w.Latest().SB.Hash, len(w.AllBlks), len(w.AllSbs))
	}
	if r.back > 0 {
		c.Label("reopened")
	}
	c.Sample("%s", strings.Join(r.trace, "; "))
}

// TestHistory: short histories of everything.
func TestHistory(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:     "history of account blocks (sends, contract creations, receives, contract receives with further sends, logs and storage), snapshots confirming any closed subset, deletions, rollbacks, flushes and restarts of a ledger on disk; non-trivial: at least one rollback or deletion and a dozen blocks beyond the genesis",
		Quick:    160,
		Thorough: 2500,
	}, func(t *rapid.T, c *vlib.C) {
		history(c, t, 0, rapid.IntRange(5, 60).Draw(t, "steps"))
	})
}

// TestLong: histories on chains longer than the caches and windows.
func TestLong(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:     "as TestHistory, on top of 70 to 260 snapshots, so that windows of 75 snapshots and batches of 120 deletions are crossed; non-trivial: as there",
		Quick:    8,
		Thorough: 60,
	}, func(t *rapid.T, c *vlib.C) {
		history(c, t, rapid.IntRange(70, 260).Draw(t, "pre"), 12)
	})
}

// TestDeep: rollbacks further back than the redo logs reach.
func TestDeep(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:     "as TestHistory, on top of more than 1200 snapshots, so that rollbacks reach below the redo logs kept; non-trivial: as there",
		Quick:    2,
		Thorough: 30,
	}, func(t *rapid.T, c *vlib.C) {
		history(c, t, rapid.IntRange(1205, 1290).Draw(t, "pre"), 8)
	})
}

// TestRounds: dense rounds of consensus, with restarts, so that the round cache is rebuilt from the redo logs.
func TestRounds(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:     "histories of several rounds of 75 s with a few snapshots in each, each confirming all blocks waiting, with flushes, restarts and rollbacks in between; non-trivial: a restart above the fourth round",
		Quick:    40,
		Thorough: 600,
	}, func(t *rapid.T, c *vlib.C) {
		w, err := fullchain.New(vlib.TempDir(t), false)
		if err != nil {
			t.Fatalf("new: %v", err)
		}
		defer w.Close()
		r := &run{t: t, c: c, w: w, seeds: map[int]uint64{}}
		for i, n := 0, rapid.IntRange(20, 45).Draw(t, "snapshots"); i < n; i++ {
			for j := rapid.IntRange(0, 2).Draw(t, "blocks"); j > 0; j-- {
				r.insert()
			}
			dt := rapid.Int64Range(5, 40).Draw(t, "dt")
			all := map[*fullchain.Blk]bool{}
			for _, b := range w.Un {
				all[b] = true
			}
			r.log("snapshot all %d, +%ds", len(all), dt)
			r.check(w.Snapshot(all, dt, 0, nil), "snapshot")
			op := rapid.IntRange(0, 15).Draw(t, "op")
			switch {
			case op == 0:
				r.log("flush, reopen")
				w.Flush()
				r.check(w.Reopen(), "reopen")
				if i > 14 {
					r.back++
				}
			case op == 1 && len(w.Chunks) > 1:
				h := uint64(2)
				if d := rapid.IntRange(1, 6).Draw(t, "depth"); len(w.Chunks)+1-d > 2 {
					h = uint64(len(w.Chunks) + 1 - d)
				}
				r.log("rollback %d of %d", h, len(w.Chunks))
				r.check(w.Rollback(h, false), "rollback")
			}
			r.check(w.CompareRounds(), "compare")
		}
		r.check(w.Compare(), "compare at the end")
		if r.back > 0 {
			c.NonTrivial(w.Latest().SB.Hash, len(w.AllBlks), len(w.AllSbs))
		}
		c.Sample("%s", strings.Join(r.trace, "; "))
	})
}
