// Package c17: the layered key-value store of the ledger (disk, flushing batch,
// confirmed batch, unconfirmed batches, read view) against plain maps.
package c17

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"pgregory.net/rapid"

	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_db "github.com/vitelabs/go-vite/v2/ledger/chain/db"
	"verif/vlib"
)

type kv map[string]string

func (m kv) clone() kv {
	o := make(kv, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (m kv) keys(lo, hi string) []string {
	var ks []string
	for k := range m {
		if k >= lo && (hi == "" || k < hi) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

type op struct {
	del  bool
	k, v string
}

func (m kv) apply(ops []op) {
	for _, o := range ops {
		if o.del {
			delete(m, o.k)
		} else {
			m[o.k] = o.v
		}
	}
}

func batch(ops []op) *leveldb.Batch {
	b := new(leveldb.Batch)
	for _, o := range ops {
		if o.del {
			b.Delete([]byte(o.k))
		} else {
			b.Put([]byte(o.k), []byte(o.v))
		}
	}
	return b
}

// diff returns the writes that turn from into to.
func diff(from, to kv) []op {
	var ops []op
	for _, k := range from.keys("", "") {
		if v, ok := to[k]; !ok {
			ops = append(ops, op{del: true, k: k})
		} else if v != from[k] {
			ops = append(ops, op{k: k, v: v})
		}
	}
	for _, k := range to.keys("", "") {
		if _, ok := from[k]; !ok {
			ops = append(ops, op{k: k, v: to[k]})
		}
	}
	return ops
}

type pending struct {
	hash types.Hash
	acc  int
	ops  []op
}

type heldIter struct {
	it   interfaces.StorageIterator
	want kv
	ks   []string
	at   int
}

type world struct {
	t     *rapid.T
	dir   string
	s     *chain_db.Store
	disk  kv // what is on disk
	fly   kv // the confirmed state the running flush will put on disk, nil outside a flush
	redo  []byte
	done  bool // the running flush has written
	conf  kv   // confirmed
	past  []kv // confirmed states a snapshot rollback can go back to
	pend  []pending
	next  uint64
	iters []*heldIter

	flushes, rollS, rollA, opens, crashes, mid, held int
}

func (w *world) view() kv {
	m := w.conf.clone()
	for _, p := range w.pend {
		m.apply(p.ops)
	}
	return m
}

func (w *world) open() {
	var err error
	if w.s, err = chain_db.NewStore(w.dir, "c17"); err != nil {
		w.t.Fatalf("open: %v", err)
	}
}

func (w *world) hash() types.Hash {
	w.next++
	var b [8]byte
	binary.BigEndian.PutUint64(b[:], w.next)
	return types.DataHash(b[:])
}

func key(acc, i int) string { return string([]byte{byte('a' + acc)}) + fmt.Sprint(i*i*7%13) }

// ops draws writes of one account (or, acc 4, of the snapshot).
func (w *world) ops(acc int) []op {
	var ops []op
	for n := rapid.IntRange(0, 5).Draw(w.t, "n"); n > 0; n-- {
		o := op{k: key(acc, rapid.IntRange(0, 6).Draw(w.t, "k"))}
		if rapid.IntRange(0, 3).Draw(w.t, "del") == 1 {
			o.del = true
		} else {
			w.next++
			o.v = fmt.Sprint("v", w.next)
			if rapid.IntRange(0, 9).Draw(w.t, "empty") == 3 {
				o.v = ""
			}
		}
		ops = append(ops, o)
	}
	return ops
}

func (w *world) dropIters() {
	for _, h := range w.iters {
		h.it.Release()
	}
	w.iters = nil
}

func (w *world) stepIter(h *heldIter) bool {
	ok := h.it.Next()
	if h.at >= len(h.ks) {
		if ok {
			w.t.Fatalf("an iterator opened earlier yields %q after its last key", h.it.Key())
		}
		return false
	}
	k := h.ks[h.at]
	if !ok || string(h.it.Key()) != k || string(h.it.Value()) != h.want[k] {
		w.t.Fatalf("an iterator opened earlier yields %q=%q (%v), the state it was opened on has %q=%q (keys %q)", h.it.Key(), h.it.Value(), ok, k, h.want[k], h.ks)
	}
	h.at++
	return true
}

func (w *world) check() {
	t := w.t
	m := w.view()
	for acc := 0; acc < 5; acc++ {
		for i := 0; i < 7; i++ {
			k := key(acc, i)
			v, ok := m[k]
			got, err := w.s.Get([]byte(k))
			if err != nil {
				t.Fatalf("Get(%q): %v", k, err)
			}
			if ok != (got != nil) && !(ok && v == "") || string(got) != v {
				t.Fatalf("Get(%q) = %q (%v), the map has %q (%v)", k, got, got != nil, v, ok)
			}
			has, err := w.s.Has([]byte(k))
			if err != nil || has != ok {
				t.Fatalf("Has(%q) = %v %v, the map says %v", k, has, err, ok)
			}
			if _, err := w.s.GetOriginal([]byte(k)); (err == leveldb.ErrNotFound) == ok || err != nil && err != leveldb.ErrNotFound {
				t.Fatalf("GetOriginal(%q) gives %v, the map says %v", k, err, ok)
			}
		}
	}
	lo, hi := "", ""
	if rapid.Bool().Draw(t, "bounded") {
		lo = key(rapid.IntRange(0, 4).Draw(t, "lo"), rapid.IntRange(0, 6).Draw(t, "loi"))
		hi = key(rapid.IntRange(0, 4).Draw(t, "hi"), rapid.IntRange(0, 6).Draw(t, "hii"))
		if hi < lo {
			lo, hi = hi, lo
		}
	}
	r := &util.Range{}
	if lo != "" {
		r.Start = []byte(lo)
		r.Limit = []byte(hi)
	}
	ks := m.keys(lo, hi)
	if lo != "" && lo == hi {
		ks = nil
	}
	it := w.s.NewIterator(r)
	var got []string
	for it.Next() {
		got = append(got, string(it.Key()))
		if string(it.Value()) != m[string(it.Key())] {
			t.Fatalf("iterator gives %q=%q, the map has %q", it.Key(), it.Value(), m[string(it.Key())])
		}
	}
	if fmt.Sprint(got) != fmt.Sprint(ks) || it.Error() != nil {
		t.Fatalf("iterator over [%q,%q) gives %q (%v), the map has %q", lo, hi, got, it.Error(), ks)
	}
	var back []string
	for ok := it.Last(); ok; ok = it.Prev() {
		back = append([]string{string(it.Key())}, back...)
	}
	if fmt.Sprint(back) != fmt.Sprint(ks) {
		t.Fatalf("backward iterator over [%q,%q) gives %q, the map has %q", lo, hi, back, ks)
	}
	at := key(rapid.IntRange(0, 4).Draw(t, "seek"), rapid.IntRange(0, 6).Draw(t, "seeki"))
	i := sort.SearchStrings(ks, at)
	if ok := it.Seek([]byte(at)); ok != (i < len(ks)) || ok && string(it.Key()) != ks[i] {
		t.Fatalf("seek %q over [%q,%q) gives %v %q, keys %q", at, lo, hi, ok, it.Key(), ks)
	}
	it.Release()
}

// diskIs compares what a fresh reader of a copy of the directory sees. The
// database's own background work may rename files while the copy is made, so
// a copy that fails or disagrees is made again before it counts.
func (w *world) diskIs(want ...kv) {
	var last string
	for try := 0; try < 12; try++ {
		if last = w.diskTry(want); last == "" {
			return
		}
		time.Sleep(time.Duration(5<<uint(min(try, 6))) * time.Millisecond)
	}
	w.t.Fatalf("%s", last)
}

func (w *world) diskTry(want []kv) string {
	cp, err := os.MkdirTemp(w.dir+"/..", "copy")
	if err != nil {
		return err.Error()
	}
	defer os.RemoveAll(cp)
	if err := copyDir(w.dir, cp); err != nil {
		return err.Error()
	}
	d, err := leveldb.OpenFile(cp, nil)
	if err != nil {
		return fmt.Sprintf("opening a copy of the disk: %v", err)
	}
	defer d.Close()
	got := kv{}
	it := d.NewIterator(nil, nil)
	for it.Next() {
		got[string(it.Key())] = string(it.Value())
	}
	it.Release()
	if err := it.Error(); err != nil {
		return fmt.Sprintf("reading a copy of the disk: %v", err)
	}
	for _, m := range want {
		if len(diff(got, m)) == 0 {
			return ""
		}
	}
	return fmt.Sprintf("the disk holds %v, the flushed state is %v", got, want[0])
}

func copyDir(from, to string) error {
	fs, err := os.ReadDir(from)
	if err != nil {
		return err
	}
	for _, f := range fs {
		if f.Name() == "LOCK" {
			continue
		}
		b, err := os.ReadFile(filepath.Join(from, f.Name()))
		if err != nil {
			return err
		}
		if err := os.WriteFile(filepath.Join(to, f.Name()), b, 0644); err != nil {
			return err
		}
	}
	return nil
}

func TestStore(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "histories of unconfirmed batches, snapshots confirming any per-account prefix of them, rollbacks of unconfirmed batches and to earlier snapshots, direct writes, the phases of flushes with other operations between them, cancelled flushes, clean reopenings and crashes with or without replay of the redo log; reads, iterators and the disk are compared with maps after each step; non-trivial when a flush completed and a rollback or reopening happened",
		Quick: 150, Thorough: 8000, Steps: 40,
	}, func(t *rapid.T, c *vlib.C) {
		w := &world{t: t, dir: vlib.TempDir(t), disk: kv{}, conf: kv{}}
		w.open()
		defer func() {
			w.dropIters()
			w.s.Close()
		}()
		w.past = []kv{{}}
		inFlush := func() {
			if w.fly != nil {
				w.mid++
			}
		}
		write := func(t *rapid.T) {
			inFlush()
			acc := rapid.IntRange(0, 3).Draw(t, "acc")
			p := pending{hash: w.hash(), acc: acc, ops: w.ops(acc)}
			b := batch(p.ops)
			if rapid.Bool().Draw(t, "byHash") {
				w.s.WriteAccountBlockByHash(b, p.hash)
			} else {
				w.s.WriteAccountBlock(b, &ledger.AccountBlock{Hash: p.hash})
			}
			w.pend = append(w.pend, p)
		}
		blocks := func(hs []types.Hash) (r []*ledger.AccountBlock) {
			for _, h := range hs {
				r = append(r, &ledger.AccountBlock{Hash: h})
			}
			return
		}
		snapshot := func(t *rapid.T) {
			inFlush()
			// a prefix of each account's pending writes, accounts in any order
			var hs []types.Hash
			taken := map[types.Hash]bool{}
			for _, acc := range rapid.Permutation([]int{0, 1, 2, 3}).Draw(t, "order") {
				var mine []pending
				for _, p := range w.pend {
					if p.acc == acc {
						mine = append(mine, p)
					}
				}
				n := rapid.IntRange(0, len(mine)).Draw(t, "take")
				for _, p := range mine[:n] {
					hs = append(hs, p.hash)
					taken[p.hash] = true
					w.conf.apply(p.ops)
				}
			}
			var rest []pending
			for _, p := range w.pend {
				if !taken[p.hash] {
					rest = append(rest, p)
				}
			}
			w.pend = rest
			ops := w.ops(4)
			w.conf.apply(ops)
			if rapid.Bool().Draw(t, "byHash") {
				w.s.WriteSnapshotByHash(batch(ops), hs)
			} else {
				w.s.WriteSnapshot(batch(ops), blocks(hs))
			}
			w.past = append(w.past, w.conf.clone())
			if len(w.past) > 8 {
				w.past = w.past[1:]
			}
		}
		direct := func(t *rapid.T) {
			inFlush()
			ops := w.ops(4)
			w.s.WriteDirectly(batch(ops))
			w.conf.apply(ops)
		}
		rollbackBlocks := func(t *rapid.T) {
			if len(w.pend) == 0 {
				return
			}
			inFlush()
			before := w.view()
			// drop a suffix of some accounts
			var hs []types.Hash
			var rest []pending
			cut := map[int]int{}
			count := map[int]int{}
			for _, p := range w.pend {
				count[p.acc]++
			}
			for acc := 0; acc < 4; acc++ {
				cut[acc] = rapid.IntRange(0, count[acc]).Draw(t, "keep")
			}
			seen := map[int]int{}
			for _, p := range w.pend {
				if seen[p.acc] < cut[p.acc] {
					rest = append(rest, p)
				} else {
					hs = append(hs, p.hash)
				}
				seen[p.acc]++
			}
			w.pend = rest
			b := batch(diff(before, w.view()))
			if rapid.Bool().Draw(t, "byHash") {
				w.s.RollbackAccountBlockByHash(b, hs)
			} else {
				w.s.RollbackAccountBlocks(b, blocks(hs))
			}
			w.rollA++
		}
		rollbackSnapshot := func(t *rapid.T) {
			inFlush()
			i := rapid.IntRange(0, len(w.past)-1).Draw(t, "to")
			to := w.past[i]
			w.s.RollbackSnapshot(batch(diff(w.view(), to)))
			w.past = w.past[:i+1]
			w.conf = to.clone()
			w.pend = nil
			w.rollS++
		}
		phase := func(t *rapid.T) {
			switch {
			case w.fly == nil:
				w.s.Prepare()
				w.fly, w.done, w.redo = w.conf.clone(), false, nil
			case w.redo == nil:
				if rapid.IntRange(0, 5).Draw(t, "cancel") == 2 {
					w.s.CancelPrepare()
					w.fly = nil
					return
				}
				r, err := w.s.RedoLog()
				if err != nil {
					t.Fatalf("redo log: %v", err)
				}
				w.redo = append([]byte{}, r...)
			case !w.done:
				if rapid.IntRange(0, 7).Draw(t, "cancel") == 2 {
					w.s.CancelPrepare()
					w.fly = nil
					return
				}
				w.dropIters()
				if err := w.s.Commit(); err != nil {
					t.Fatalf("commit: %v", err)
				}
				w.disk = w.fly
				w.done = true
				w.diskIs(w.disk)
			default:
				w.s.AfterCommit()
				w.fly = nil
				w.flushes++
			}
		}
		reset := func() {
			w.fly = nil
			w.conf = w.disk.clone()
			w.past = []kv{w.conf.clone()}
			w.pend = nil
		}
		t.Repeat(map[string]func(*rapid.T){
			"write":            write,
			"write2":           write,
			"write3":           write,
			"snapshot":         snapshot,
			"snapshot2":        snapshot,
			"direct":           direct,
			"rollbackBlocks":   rollbackBlocks,
			"rollbackSnapshot": rollbackSnapshot,
			"phase":            phase,
			"phase2":           phase,
			"phase3":           phase,
			"flush": func(t *rapid.T) {
				for w.fly != nil {
					phase(t)
				}
				w.s.Prepare()
				w.fly, w.done, w.redo = w.conf.clone(), false, nil
				phase(t)
				for w.fly != nil {
					phase(t)
				}
			},
			"compact": func(t *rapid.T) {
				if err := w.s.CompactRange(util.Range{}); err != nil {
					t.Fatalf("compact: %v", err)
				}
			},
			"iterate": func(t *rapid.T) {
				if len(w.iters) > 3 {
					return
				}
				m := w.view()
				h := &heldIter{it: w.s.NewIterator(&util.Range{}), want: m, ks: m.keys("", "")}
				w.iters = append(w.iters, h)
				w.stepIter(h)
				w.held++
			},
			"reopen": func(t *rapid.T) {
				w.dropIters()
				if w.fly != nil && w.redo != nil && rapid.Bool().Draw(t, "crash") {
					// the process stops here; the flusher finds the redo log
					w.s.Close()
					w.open()
					w.s.BeforeRecover(w.redo)
					for n := rapid.IntRange(1, 2).Draw(t, "times"); n > 0; n-- {
						if err := w.s.PatchRedoLog(w.redo); err != nil {
							t.Fatalf("patch: %v", err)
						}
					}
					w.s.AfterRecover()
					w.disk = w.fly
					w.crashes++
				} else {
					if err := w.s.Close(); err != nil {
						t.Fatalf("close: %v", err)
					}
					w.open()
					w.opens++
				}
				reset()
				w.diskIs(w.disk)
			},
			"": func(t *rapid.T) {
				for _, h := range w.iters {
					if rapid.Bool().Draw(t, "step") {
						w.stepIter(h)
					}
				}
				w.check()
			},
		})
		for _, h := range w.iters {
			for w.stepIter(h) {
			}
		}
		if w.flushes > 0 && w.rollA+w.rollS+w.opens+w.crashes > 0 {
			c.NonTrivial(w.flushes, w.rollA, w.rollS, w.opens, w.crashes, w.mid, w.next, fmt.Sprint(w.view()))
		}
		c.Sample("%d flushes, %d block and %d snapshot rollbacks, %d reopenings, %d crashes, %d operations inside a flush, %d held iterators", w.flushes, w.rollA, w.rollS, w.opens, w.crashes, w.mid, w.held)
	})
}

// TestBatch: a batch survives the dump and load the redo log uses, and a
// damaged dump is refused or stays inside the damaged record.
func TestBatch(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "batches of puts and deletes dumped and loaded into another batch, appended and replayed; the replayed operations are the original ones; cut dumps are refused; non-trivial with at least two operations",
		Quick: 300, Thorough: 20000,
	}, func(t *rapid.T, c *vlib.C) {
		draw := func(name string) []op {
			var ops []op
			for n := rapid.IntRange(0, 8).Draw(t, name); n > 0; n-- {
				o := op{del: rapid.IntRange(0, 2).Draw(t, "del") == 1, k: string(rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, "k"))}
				if !o.del {
					o.v = string(bytes.Repeat(rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(t, "v"), rapid.SampledFrom([]int{1, 1, 1, 30}).Draw(t, "rep")))
				}
				ops = append(ops, o)
			}
			return ops
		}
		a, b := draw("a"), draw("b")
		ba := batch(a)
		ba.Append(batch(b))
		all := append(append([]op{}, a...), b...)
		dump := append([]byte{}, ba.Dump()...)
		var l leveldb.Batch
		if err := l.Load(dump); err != nil {
			t.Fatalf("load of a dump: %v", err)
		}
		var rec recorder
		if err := l.Replay(&rec); err != nil {
			t.Fatalf("replay: %v", err)
		}
		if fmt.Sprint(rec.ops) != fmt.Sprint(all) || l.Len() != len(all) {
			t.Fatalf("replayed %q, batch had %q", rec.ops, all)
		}
		if len(dump) > 0 {
			cut := dump[:rapid.IntRange(0, len(dump)-1).Draw(t, "cut")]
			var l2 leveldb.Batch
			err := l2.Load(cut)
			var r2 recorder
			if err == nil {
				err = l2.Replay(&r2)
			}
			if err == nil && (len(r2.ops) > len(all) || fmt.Sprint(r2.ops) != fmt.Sprint(all[:len(r2.ops)])) {
				t.Fatalf("a cut dump replays as %q, the batch was %q", r2.ops, all)
			}
		}
		if len(all) > 1 {
			c.NonTrivial(fmt.Sprint(all))
		}
		c.Sample("%d+%d operations, %d bytes", len(a), len(b), len(dump))
	})
}

type recorder struct{ ops []op }

func (r *recorder) Put(k, v []byte) { r.ops = append(r.ops, op{k: string(k), v: string(v)}) }
func (r *recorder) Delete(k []byte) { r.ops = append(r.ops, op{del: true, k: string(k)}) }

// TestConcurrent: counters that only grow, read while writes are confirmed and
// flushed, are never seen absent or going back.
func TestConcurrent(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "one writer raising counters through unconfirmed batches, snapshots and flush phases, readers in parallel with point reads and iterators; non-trivial when readers finished at least 50 reads across at least two flushes",
		Quick: 10, Thorough: 300,
	}, func(t *rapid.T, c *vlib.C) {
		s, err := chain_db.NewStore(vlib.TempDir(t), "c17c")
		if err != nil {
			t.Fatalf("%v", err)
		}
		defer s.Close()
		const n = 4
		script := rapid.SliceOfN(rapid.IntRange(0, 5), 60, 200).Draw(t, "script")
		var val uint64
		num := func() []byte {
			val++
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, val)
			return b
		}
		init := new(leveldb.Batch)
		for i := 0; i < n; i++ {
			init.Put([]byte{'k', byte(i)}, num())
		}
		s.WriteDirectly(init)
		var stop int32
		var reads int64
		var mu sync.Mutex
		var bad string
		report := func(f string, a ...interface{}) {
			mu.Lock()
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
			mu.Unlock()
		}
		var wg sync.WaitGroup
		for r := 0; r < 3; r++ {
			r := r
			wg.Add(1)
			go func() {
				defer wg.Done()
				last := make([]uint64, n)
				see := func(i int, v []byte, how string) bool {
					if len(v) != 8 {
						report("%s: counter %d is absent", how, i)
						return false
					}
					x := binary.BigEndian.Uint64(v)
					if x < last[i] {
						report("%s: counter %d went back from %d to %d", how, i, last[i], x)
						return false
					}
					last[i] = x
					return true
				}
				for atomic.LoadInt32(&stop) == 0 {
					if r == 0 {
						it := s.NewIterator(&util.Range{Start: []byte{'k'}, Limit: []byte{'l'}})
						i := 0
						for it.Next() {
							if int(it.Key()[1]) != i || !see(i, it.Value(), "iterator") {
								report("iterator: key %v at position %d", it.Key(), i)
								break
							}
							i++
						}
						if i != n {
							report("iterator: %d of %d keys", i, n)
						}
						it.Release()
					} else {
						for i := 0; i < n; i++ {
							v, err := s.Get([]byte{'k', byte(i)})
							if err != nil {
								report("get: %v", err)
							}
							if !see(i, v, "get") {
								break
							}
						}
					}
					atomic.AddInt64(&reads, 1)
				}
			}()
		}
		var open []types.Hash
		flushes, st := 0, 0
		for j, x := range script {
			switch x {
			case 0, 1:
				b := new(leveldb.Batch)
				b.Put([]byte{'k', byte(j % n)}, num())
				h := types.DataHash([]byte(fmt.Sprint(j)))
				s.WriteAccountBlockByHash(b, h)
				open = append(open, h)
			case 2:
				b := new(leveldb.Batch)
				s.WriteSnapshotByHash(b, open)
				open = nil
			default:
				switch st {
				case 0:
					s.Prepare()
				case 1:
					if err := s.Commit(); err != nil {
						report("commit: %v", err)
					}
				case 2:
					s.AfterCommit()
					flushes++
				}
				st = (st + 1) % 3
			}
		}
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		if bad != "" {
			t.Fatalf("%s", bad)
		}
		if flushes >= 2 && reads >= 50 {
			c.NonTrivial(fmt.Sprint(script))
		}
		c.Sample("%d flushes, %d read rounds in parallel", flushes, reads)
	})
}
