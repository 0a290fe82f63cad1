package fullchain

import (
	"errors"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/vitelabs/go-vite/v2/common/types"
	chain_flusher "github.com/vitelabs/go-vite/v2/ledger/chain/flusher"
)

// Plan says what happens to the flushes from now on.
type Plan struct {
	Order []int // order in which the stores commit
	// Point is called at every stage of a flush:
	// "prepare" after a store's Prepare, "redo" before its part of the redo log is asked for,
	// "commit" before and "committed" after its Commit, "after" after its AfterCommit.
	Point func(stage string, store int)
	// RedoErr makes the redo log of that store fail; CommitErr the commit (before or after it did its work).
	RedoErr    int
	CommitErr  int
	CommitLate bool
}

// NoPlan is a plan without faults.
func NoPlan() *Plan { return &Plan{RedoErr: -1, CommitErr: -1} }

type tap struct {
	w *World
	sync.Mutex
	*sync.Cond
	plan *Plan
	done int // commits so far
}

type tapped struct {
	chain_flusher.Storage
	t *tap
	i int
}

// Stores is the number of stores taking part in a flush.
const Stores = 4

// Tap puts stand-ins in front of the stores of the flusher.
func (w *World) Tap() {
	index, block, state := w.C.DBs()
	t := &tap{w: w, plan: NoPlan()}
	t.Cond = sync.NewCond(&t.Mutex)
	for i, s := range []chain_flusher.Storage{block, state.Store(), state.RedoStore(), index.Store()} {
		w.C.Flusher().ReplaceStore(s.Id(), &tapped{s, t, i})
	}
	w.tap = t
}

// SetPlan replaces the plan; nil for none.
func (w *World) SetPlan(p *Plan) {
	if p == nil {
		p = NoPlan()
	}
	w.tap.Lock()
	w.tap.plan = p
	w.tap.done = 0
	w.tap.Unlock()
}

func (s *tapped) point(stage string) {
	if f := s.t.plan.Point; f != nil {
		f(stage, s.i)
	}
}

func (s *tapped) Prepare() {
	s.t.Lock()
	s.t.done = 0
	s.t.Unlock()
	s.Storage.Prepare()
	s.point("prepare")
}

func (s *tapped) RedoLog() ([]byte, error) {
	s.point("redo")
	if s.t.plan.RedoErr == s.i {
		return nil, errors.New("injected: no redo log")
	}
	return s.Storage.RedoLog()
}

func (s *tapped) Commit() error {
	s.t.Lock()
	defer s.t.Unlock()
	for len(s.t.plan.Order) == Stores && s.t.plan.Order[s.t.done] != s.i {
		s.t.Wait()
	}
	defer func() {
		s.t.done++
		s.t.Broadcast()
	}()
	s.point("commit")
	if s.t.plan.CommitErr == s.i && !s.t.plan.CommitLate {
		return errors.New("injected: no commit")
	}
	err := s.Storage.Commit()
	s.point("committed")
	if s.t.plan.CommitErr == s.i {
		return errors.New("injected: commit failed late")
	}
	return err
}

func (s *tapped) AfterCommit() {
	s.Storage.AfterCommit()
	s.point("after")
}

func listing(dir string) (string, error) {
	var l []string
	err := filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if !i.IsDir() {
			l = append(l, fmt.Sprintf("%s %d %d", p, i.Size(), i.ModTime().UnixNano()))
		}
		return nil
	})
	sort.Strings(l)
	return strings.Join(l, "\n"), err
}

// Freeze copies the directory of the open chain: what a crash at this moment leaves behind.
func (w *World) Freeze() (string, error) {
	var err error
	for try := 0; try < 50; try++ {
		to := w.next()
		var a, b string
		if a, err = listing(w.Dir); err == nil {
			if err = CopyDir(w.Dir, to); err == nil {
				if b, err = listing(w.Dir); err == nil {
					if a == b {
						return to, nil
					}
					err = errors.New("the directory keeps changing")
				}
			}
		}
		os.RemoveAll(to)
	}
	return "", err
}

// Sizes lists the sizes of the files of a directory.
func Sizes(dir string) map[string]int64 {
	m := map[string]int64{}
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			rel, _ := filepath.Rel(dir, p)
			m[rel] = i.Size()
		}
		return nil
	})
	return m
}

// Wake opens a frozen directory as a world of its own that should hold chunks.
func (w *World) Wake(dir string, chunks []*Chunk) (*World, error) {
	x := *w
	x.C, x.tap = nil, nil
	x.root = dir + ".run"
	x.n = 0
	x.Chunks = append([]*Chunk{}, chunks...)
	x.Flushed = append([]*Chunk{}, chunks...)
	x.Un = nil
	x.AllBlks = append([]*Blk{}, w.AllBlks...)
	x.AllSbs = append([]*Chunk{}, w.AllSbs...)
	x.Bad = map[types.Hash]bool{}
	x.Dir = x.next()
	if err := os.MkdirAll(x.root, 0o755); err != nil {
		return nil, err
	}
	if err := CopyDir(dir, x.Dir); err != nil {
		return nil, err
	}
	if err := x.open(); err != nil {
		return nil, fmt.Errorf("opening after a crash: %v", err)
	}
	return &x, nil
}

// Drop closes and removes a woken world.
func (w *World) Drop() {
	w.Close()
	os.RemoveAll(w.root)
}
