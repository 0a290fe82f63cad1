package c19

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"verif/fullchain"
	"verif/vlib"
)

type run struct {
	t     *rapid.T
	w     *fullchain.World
	trace []string
	woken int
	mid   int
}

func (r *run) log(f string, a ...interface{}) { r.trace = append(r.trace, fmt.Sprintf(f, a...)) }

func (r *run) check(err error, what string) {
	if err != nil {
		r.t.Fatalf("%s: %v\nhistory: %s", what, err, strings.Join(r.trace, "; "))
	}
}

func insert(t *rapid.T, w *fullchain.World) error {
	b := w.Block(t)
	if b == nil {
		return nil
	}
	return w.Insert(b)
}

func snapshot(t *rapid.T, w *fullchain.World) error {
	return w.Snapshot(w.Pick(t), rapid.Int64Range(1, 40).Draw(t, "dt"), 0, nil)
}

// work does some blocks and snapshots.
func work(t *rapid.T, w *fullchain.World, max int) error {
	for i := rapid.IntRange(0, max).Draw(t, "work"); i > 0; i-- {
		var err error
		if rapid.IntRange(0, 3).Draw(t, "snap") == 0 {
			err = snapshot(t, w)
		} else {
			err = insert(t, w)
		}
		if err != nil {
			return err
		}
	}
	return nil
}

type frozen struct {
	dir    string
	stage  string
	store  int
	k      int // commits before it
	before map[string]int64
}

var stages = []string{"prepare", "redo", "commit", "committed", "after"}

// flush runs one flush (or a rollback, which flushes) with crashes at drawn points and checks what each leaves behind.
func (r *run) flush() {
	t, w := r.t, r.w
	old := append([]*fullchain.Chunk{}, w.Flushed...)
	var now []*fullchain.Chunk
	p := fullchain.NoPlan()
	p.Order = rapid.Permutation([]int{0, 1, 2, 3}).Draw(t, "order")
	want := map[string]bool{}
	for i := rapid.IntRange(1, 3).Draw(t, "crashes"); i > 0; i-- {
		want[fmt.Sprint(rapid.SampledFrom(stages).Draw(t, "stage"), rapid.IntRange(0, fullchain.Stores-1).Draw(t, "store"))] = true
	}
	kind := rapid.SampledFrom([]string{"flush", "flush", "flush", "rollback"}).Draw(t, "kind")
	fault := rapid.SampledFrom([]string{"", "", "", "redo", "redo", "commit", "late"}).Draw(t, "fault")
	if kind == "rollback" && len(w.Chunks) < 2 {
		kind = "flush"
	}
	at := rapid.IntRange(0, fullchain.Stores-1).Draw(t, "faultAt")
	switch fault {
	case "redo":
		p.RedoErr = at
	case "commit":
		p.CommitErr = at
	case "late":
		p.CommitErr, p.CommitLate = at, true
	}
	midAt, midStage := -1, rapid.SampledFrom([]string{"commit", "redo"}).Draw(t, "midStage")
	if fault == "redo" {
		midStage = "redo"
	}
	if kind == "flush" && rapid.Bool().Draw(t, "mid") {
		midAt = rapid.IntRange(0, fullchain.Stores-1).Draw(t, "midAt")
	}
	var dirs []*frozen
	var perr error
	var ppanic interface{}
	k := 0
	var before map[string]int64
	p.Point = func(stage string, i int) {
		if perr != nil || ppanic != nil {
			return
		}
		if stage == "prepare" && i == 0 {
			now = append([]*fullchain.Chunk{}, w.Chunks...)
		}
		if stage == "commit" {
			before = fullchain.Sizes(w.Dir)
		}
		if want[fmt.Sprint(stage, i)] {
			d, err := w.Freeze()
			if err != nil {
				perr = err
				return
			}
			dirs = append(dirs, &frozen{d, stage, i, k, before})
		}
		if stage == midStage && (stage == "commit" && k == midAt || stage == "redo" && i == midAt) { // the ledger goes on
			ppanic = vlib.Catch(func() {
				if perr = work(t, w, 4); perr == nil && rapid.Bool().Draw(t, "midSnap") {
					perr = snapshot(t, w)
				}
			})
			r.mid++
		}
		if stage == "commit" {
			k++
		}
	}
	r.log("%s with fault %q of store %d, commits in order %v, work during %s %d", kind, fault, at, p.Order, midStage, midAt)
	w.SetPlan(p)
	if kind == "flush" {
		w.C.Flusher().Flush()
	} else {
		h := uint64(rapid.IntRange(2, len(w.Chunks)).Draw(t, "height"))
		r.log("rollback to %d of %d", h, len(w.Chunks))
		keep := append([]*fullchain.Chunk{}, w.Chunks[:h-1]...)
		r.check(w.Rollback(h, false), "rollback")
		now = keep
	}
	w.SetPlan(nil)
	if ppanic != nil {
		panic(ppanic)
	}
	r.check(perr, "during the flush")
	if fault == "redo" {
		w.Flushed = old
	} else {
		w.Flushed = now
	}
	// what the running node says
	r.check(w.Compare(), "the running ledger after the flush")
	for _, f := range dirs {
		chunks := old
		if f.stage != "prepare" && f.stage != "redo" {
			chunks = now
		}
		r.log("crash at %s of store %d (%d committed)", f.stage, f.store, f.k)
		cut := rapid.IntRange(0, 2).Draw(t, "cut")
		redo := filepath.Join(f.dir, "flush.redo.log")
		if cut == 1 && (f.stage == "redo" || f.stage == "commit" && f.k == 0) {
			if s, err := os.Stat(redo); err == nil && s.Size() > 0 {
				n := rapid.Int64Range(0, s.Size()-1).Draw(t, "cutAt")
				r.log("with %d of the %d bytes of the redo log", n, s.Size())
				r.check(os.Truncate(redo, n), "cut")
				chunks = old
			}
		}
		if cut > 0 && f.stage == "committed" {
			var grown []string
			for name, n := range fullchain.Sizes(f.dir) {
				if b, ok := f.before[name]; ok && n > b && name != "flush.redo.log" {
					grown = append(grown, name)
				}
			}
			sort.Strings(grown)
			if len(grown) > 0 {
				name := rapid.SampledFrom(grown).Draw(t, "file")
				full := filepath.Join(f.dir, name)
				s, _ := os.Stat(full)
				n := rapid.Int64Range(f.before[name], s.Size()).Draw(t, "cutAt")
				r.log("with %s cut to %d between %d and %d", name, n, f.before[name], s.Size())
				r.check(os.Truncate(full, n), "cut")
			}
		}
		x, err := w.Wake(f.dir, chunks)
		r.check(err, "restart")
		func() {
			defer x.Drop()
			r.check(x.Compare(), "after the restart")
			r.check(work(t, x, 6), "work after the restart")
			r.check(x.Compare(), "working after the restart")
			x.Flush()
			r.check(x.Reopen(), "second restart")
			r.check(x.Compare(), "after the second restart")
			w.Salt = x.Salt
		}()
		os.RemoveAll(f.dir)
		r.woken++
	}
	if fault != "" && rapid.IntRange(0, 2).Draw(t, "again") > 0 { // the next flush makes up for it
		r.check(work(t, w, 4), "work after the fault")
		r.log("flush, reopen")
		w.Flush()
		r.check(w.Reopen(), "restart after the fault")
		w.Tap()
		r.check(w.Compare(), "after the fault, a flush and a restart")
	}
}

func TestCrash(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:     "history of blocks, snapshots and rollbacks on a ledger on disk, with flushes in which the process stops at drawn points (after any store's prepare, while the redo log is written, before and after each store's commit in any order, before the redo log is cleaned), the file being written cut at any byte, redo logs and commits failing, and work going on during the commit; non-trivial: at least two crashes of which the ledger was restarted",
		Quick:    40,
		Thorough: 1500,
	}, func(t *rapid.T, c *vlib.C) {
		w, err := fullchain.New(vlib.TempDir(t), false)
		if err != nil {
			t.Fatalf("new: %v", err)
		}
		defer w.Close()
		r := &run{t: t, w: w}
		w.Tap()
		for i := rapid.IntRange(1, 3).Draw(t, "rounds"); i > 0; i-- {
			r.check(work(t, w, 14), "work")
			r.flush()
			if rapid.IntRange(0, 3).Draw(t, "reopen") == 0 {
				r.log("reopen")
				r.check(w.Reopen(), "reopen")
				w.Tap()
				r.check(w.Compare(), "after a restart")
			}
		}
		r.check(w.Compare(), "at the end")
		if r.woken >= 2 {
			c.NonTrivial(w.Latest().SB.Hash, len(w.AllBlks), strings.Join(r.trace, ""))
		}
		if r.mid > 0 {
			c.Label("work during a commit")
		}
		c.Sample("%s", strings.Join(r.trace, "; "))
	})
}
