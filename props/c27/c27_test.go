// Package c27: the embedded LevelDB against a sorted map over generated
// histories, and against prefixes of the issued writes over crashes that stop
// the storage after any operation or in the middle of any write.
package c27

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"sync"
	"testing"

	"pgregory.net/rapid"

	leveldb "github.com/vitelabs/go-vite/v2/common/db/xleveldb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/comparer"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/filter"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/iterator"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/memdb"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/opt"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/storage"
	"github.com/vitelabs/go-vite/v2/common/db/xleveldb/util"
	"verif/vlib"
)

type model map[string]string

func (m model) clone() model {
	o := make(model, len(m))
	for k, v := range m {
		o[k] = v
	}
	return o
}

func (m model) keys(r *util.Range) []string {
	var ks []string
	for k := range m {
		if r != nil && (r.Start != nil && k < string(r.Start) || r.Limit != nil && k >= string(r.Limit)) {
			continue
		}
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

type op struct {
	del  bool
	k, v string
}

func (m model) apply(ops []op) {
	for _, o := range ops {
		if o.del {
			delete(m, o.k)
		} else {
			m[o.k] = o.v
		}
	}
}

// keyGen: keys that are prefixes of each other, contain 0x00 and 0xff bytes and
// collide often.
func keyGen(t *rapid.T, label string) string {
	n := rapid.IntRange(0, 4).Draw(t, label+"n")
	b := make([]byte, n)
	for i := range b {
		b[i] = rapid.SampledFrom([]byte{0, 1, 'a', 'b', 0xfe, 0xff}).Draw(t, label)
	}
	return string(b)
}

var filler = func() []byte {
	b := make([]byte, 1<<16)
	x := uint32(12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}()

func valGen(t *rapid.T, serial int) string {
	n := rapid.SampledFrom([]int{3, 0, 20, 20, 100, 300, 1000, 5000}).Draw(t, "vlen")
	v := fmt.Sprintf("%d.", serial)
	if n == 0 {
		return ""
	}
	if len(v) < n {
		v += string(filler[serial*7%1000 : serial*7%1000+n-len(v)])
	}
	return v
}

func options(t *rapid.T) *opt.Options {
	o := &opt.Options{
		WriteBuffer:                   rapid.SampledFrom([]int{512, 1024, 4096, 16384, 1 << 20}).Draw(t, "wb"),
		BlockSize:                     rapid.SampledFrom([]int{32, 128, 1024, 4096}).Draw(t, "bs"),
		BlockRestartInterval:          rapid.SampledFrom([]int{1, 2, 16}).Draw(t, "ri"),
		CompactionTableSize:           rapid.SampledFrom([]int{256, 1024, 8192}).Draw(t, "ts"),
		CompactionTotalSize:           rapid.SampledFrom([]int{1024, 8192}).Draw(t, "tot"),
		CompactionL0Trigger:           rapid.SampledFrom([]int{1, 2, 4}).Draw(t, "l0"),
		CompactionTotalSizeMultiplier: rapid.SampledFrom([]float64{2, 10}).Draw(t, "mul"),
		OpenFilesCacheCapacity:        rapid.SampledFrom([]int{1, 4, 500}).Draw(t, "ofc"),
		BlockCacheCapacity:            rapid.SampledFrom([]int{256, 1 << 20}).Draw(t, "bcc"),
		IteratorSamplingRate:          rapid.SampledFrom([]int{64, 1 << 20}).Draw(t, "isr"),
		NoSync:                        true,
		Compression:                   rapid.SampledFrom([]opt.Compression{opt.NoCompression, opt.SnappyCompression}).Draw(t, "comp"),
		DisableLargeBatchTransaction:  rapid.Bool().Draw(t, "dlbt"),
		WriteL0SlowdownTrigger:        1000,
		WriteL0PauseTrigger:           1000,
	}
	if rapid.Bool().Draw(t, "noBlockCache") {
		o.DisableBlockCache = true
	}
	if rapid.Bool().Draw(t, "bloom") {
		o.Filter = filter.NewBloomFilter(rapid.IntRange(1, 12).Draw(t, "bits"))
	}
	return o
}

type reader interface {
	Get(key []byte, ro *opt.ReadOptions) ([]byte, error)
	Has(key []byte, ro *opt.ReadOptions) (bool, error)
	NewIterator(slice *util.Range, ro *opt.ReadOptions) iterator.Iterator
}

// aux reads through an overlay, as the ledger's store does.
type aux struct {
	db  *leveldb.DB
	mem *memdb.DB
	seq uint64
}

func (a aux) Get(key []byte, ro *opt.ReadOptions) ([]byte, error) {
	return a.db.Get2(key, ro, a.mem, a.seq)
}
func (a aux) Has(key []byte, ro *opt.ReadOptions) (bool, error) {
	_, err := a.db.Get2(key, ro, a.mem, a.seq)
	if err == leveldb.ErrNotFound {
		return false, nil
	}
	return err == nil, err
}
func (a aux) NewIterator(r *util.Range, ro *opt.ReadOptions) iterator.Iterator {
	return a.db.NewIterator2(r, ro, a.mem, a.seq)
}

func checkGet(t *rapid.T, r reader, m model, k string, what string) {
	got, err := r.Get([]byte(k), nil)
	want, ok := m[k]
	if ok {
		if err != nil || string(got) != want {
			t.Fatalf("%s: Get(%x) = %.40q, %v; want %.40q", what, k, got, err, want)
		}
	} else if err != leveldb.ErrNotFound {
		t.Fatalf("%s: Get(%x) = %.40q, %v; want not found", what, k, got, err)
	}
	has, err := r.Has([]byte(k), nil)
	if err != nil || has != ok {
		t.Fatalf("%s: Has(%x) = %v, %v; want %v", what, k, has, err, ok)
	}
}

func readAll(r reader) (model, []string, error) {
	m := model{}
	var ks []string
	it := r.NewIterator(nil, nil)
	defer it.Release()
	for it.Next() {
		m[string(it.Key())] = string(it.Value())
		ks = append(ks, string(it.Key()))
	}
	return m, ks, it.Error()
}

func checkAll(t *rapid.T, r reader, m model, what string) {
	want := m.keys(nil)
	it := r.NewIterator(nil, nil)
	defer it.Release()
	i := 0
	for it.Next() {
		if i >= len(want) || string(it.Key()) != want[i] || string(it.Value()) != m[want[i]] {
			t.Fatalf("%s: forward entry %d is %x=%.40q, want keys %x", what, i, it.Key(), it.Value(), want)
		}
		i++
	}
	if it.Error() != nil || i != len(want) {
		t.Fatalf("%s: forward walk saw %d of %d entries, %v", what, i, len(want), it.Error())
	}
	i = len(want) - 1
	for ok := it.Last(); ok; ok = it.Prev() {
		if i < 0 || string(it.Key()) != want[i] || string(it.Value()) != m[want[i]] {
			t.Fatalf("%s: backward entry %d is %x=%.40q, want keys %x", what, i, it.Key(), it.Value(), want)
		}
		i--
	}
	if it.Error() != nil || i != -1 {
		t.Fatalf("%s: backward walk ended at %d, %v", what, i, it.Error())
	}
	for _, k := range want {
		checkGet(t, r, m, k, what)
	}
}

func rangeGen(t *rapid.T) *util.Range {
	switch rapid.IntRange(0, 3).Draw(t, "range") {
	case 0:
		return nil
	case 1:
		return util.BytesPrefix([]byte(keyGen(t, "prefix")))
	case 2:
		return &util.Range{Start: []byte(keyGen(t, "start"))}
	}
	a, b := keyGen(t, "start"), keyGen(t, "limit")
	if a > b {
		a, b = b, a
	}
	return &util.Range{Start: []byte(a), Limit: []byte(b)}
}

// walk drives an iterator with a generated sequence of moves against a cursor
// over the model's sorted keys.
type walk struct {
	it   iterator.Iterator
	keys []string
	m    model
	r    *util.Range
	pos  int // -1 before the start, len(keys) past the end
	log  []string
}

func newWalk(r reader, m model, rg *util.Range) *walk {
	return &walk{it: r.NewIterator(rg, nil), keys: m.keys(rg), m: m.clone(), r: rg, pos: -1}
}

func (w *walk) step(t *rapid.T, what string) {
	n := len(w.keys)
	var got bool
	switch rapid.IntRange(0, 7).Draw(t, "move") {
	case 0:
		w.log = append(w.log, "first")
		got = w.it.First()
		w.pos = 0
	case 1:
		w.log = append(w.log, "last")
		got = w.it.Last()
		w.pos = n - 1
	case 2, 3, 4:
		w.log = append(w.log, "next")
		got = w.it.Next()
		if w.pos < n {
			w.pos++
		}
	case 5, 6:
		w.log = append(w.log, "prev")
		got = w.it.Prev()
		if w.pos >= 0 {
			w.pos--
		}
	case 7:
		k := keyGen(t, "seek")
		w.log = append(w.log, fmt.Sprintf("seek %x", k))
		got = w.it.Seek([]byte(k))
		w.pos = sort.SearchStrings(w.keys, k)
	}
	valid := w.pos >= 0 && w.pos < n
	if got != valid || w.it.Valid() != valid || w.it.Error() != nil {
		t.Fatalf("%s: iterator over %v after %v: moved=%v valid=%v err=%v; model cursor %d of keys %x", what, w.r, w.log, got, w.it.Valid(), w.it.Error(), w.pos, w.keys)
	}
	if valid && (string(w.it.Key()) != w.keys[w.pos] || string(w.it.Value()) != w.m[w.keys[w.pos]]) {
		t.Fatalf("%s: iterator over %v after %v is at %x=%.40q; model cursor %d of keys %x", what, w.r, w.log, w.it.Key(), w.it.Value(), w.pos, w.keys)
	}
	if !valid && (w.it.Key() != nil || w.it.Value() != nil) {
		t.Fatalf("%s: iterator outside its range has key %x", what, w.it.Key())
	}
}

func batchGen(t *rapid.T, serial *int, prefix string, max int) (ops []op, b *leveldb.Batch) {
	b = new(leveldb.Batch)
	n := rapid.IntRange(1, max).Draw(t, "batch")
	for i := 0; i < n; i++ {
		k := prefix + keyGen(t, "k")
		*serial++
		if rapid.IntRange(0, 2).Draw(t, "del") == 0 {
			ops = append(ops, op{del: true, k: k})
			b.Delete([]byte(k))
		} else {
			v := valGen(t, *serial)
			ops = append(ops, op{k: k, v: v})
			b.Put([]byte(k), []byte(v))
		}
	}
	return
}

func TestModel(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "histories of puts, deletes, batches, snapshots, live iterators, transactions, overlays, range compactions and reopenings over one database with generated (tiny) buffers, blocks, tables, caches and filters, on memory or file storage, against a sorted map; non-trivial when the history rewrote or deleted existing keys and compacted, reopened, or held a snapshot, iterator, overlay or transaction across writes",
		Quick: 120, Thorough: 4000,
	}, func(t *rapid.T, c *vlib.C) {
		o := options(t)
		var stor storage.Storage
		file := rapid.IntRange(0, 3).Draw(t, "storage") == 0
		dir := ""
		if file {
			dir = filepath.Join(vlib.TempDir(t), "db")
		} else {
			stor = storage.NewMemStorage()
		}
		open := func() *leveldb.DB {
			var db *leveldb.DB
			var err error
			if file {
				db, err = leveldb.OpenFile(dir, o)
			} else {
				db, err = leveldb.Open(stor, o)
			}
			if err != nil {
				t.Fatalf("open: %v", err)
			}
			return db
		}
		db := open()
		defer func() { db.Close() }()
		m := model{}
		serial, rewrote := 0, false
		type snap struct {
			s *leveldb.Snapshot
			m model
		}
		var snaps []snap
		var walks []*walk
		did := map[string]bool{}
		release := func() {
			for _, s := range snaps {
				s.s.Release()
			}
			for _, w := range walks {
				w.it.Release()
			}
			snaps, walks = nil, nil
		}
		put := func(k string, f func() error, ops ...op) {
			for _, o := range ops {
				if _, ok := m[o.k]; ok {
					rewrote = true
				}
			}
			if len(snaps)+len(walks) > 0 {
				did["held"] = true
			}
			if err := f(); err != nil {
				t.Fatalf("%s: %v", k, err)
			}
			m.apply(ops)
		}
		t.Repeat(map[string]func(*rapid.T){
			"put": func(t *rapid.T) {
				k := keyGen(t, "k")
				serial++
				v := valGen(t, serial)
				kb, vb := []byte(k), []byte(v)
				put("put", func() error { return db.Put(kb, vb, nil) }, op{k: k, v: v})
				for i := range kb {
					kb[i]++
				}
				for i := range vb {
					vb[i]++
				}
			},
			"delete": func(t *rapid.T) {
				k := keyGen(t, "k")
				put("delete", func() error { return db.Delete([]byte(k), nil) }, op{del: true, k: k})
			},
			"batch": func(t *rapid.T) {
				ops, b := batchGen(t, &serial, "", 12)
				if rapid.IntRange(0, 3).Draw(t, "dump") == 0 {
					b2 := new(leveldb.Batch)
					if err := b2.Load(b.Dump()); err != nil {
						t.Fatalf("loading a dumped batch: %v", err)
					}
					b = b2
				}
				put("write", func() error { return db.Write(b, nil) }, ops...)
			},
			"get": func(t *rapid.T) { checkGet(t, db, m, keyGen(t, "k"), "db") },
			"walk": func(t *rapid.T) {
				w := newWalk(db, m, rangeGen(t))
				defer w.it.Release()
				for i := rapid.IntRange(1, 15).Draw(t, "moves"); i > 0; i-- {
					w.step(t, "db")
				}
			},
			"hold": func(t *rapid.T) {
				if len(walks) < 3 {
					walks = append(walks, newWalk(db, m, rangeGen(t)))
				}
			},
			"heldStep": func(t *rapid.T) {
				if len(walks) == 0 {
					t.Skip()
				}
				w := rapid.SampledFrom(walks).Draw(t, "w")
				for i := rapid.IntRange(1, 5).Draw(t, "moves"); i > 0; i-- {
					w.step(t, "held iterator")
				}
			},
			"snapshot": func(t *rapid.T) {
				if len(snaps) >= 3 {
					i := rapid.IntRange(0, len(snaps)-1).Draw(t, "drop")
					snaps[i].s.Release()
					snaps = append(snaps[:i:i], snaps[i+1:]...)
					return
				}
				s, err := db.GetSnapshot()
				if err != nil {
					t.Fatalf("snapshot: %v", err)
				}
				snaps = append(snaps, snap{s, m.clone()})
			},
			"snapRead": func(t *rapid.T) {
				if len(snaps) == 0 {
					t.Skip()
				}
				s := rapid.SampledFrom(snaps).Draw(t, "s")
				checkGet(t, s.s, s.m, keyGen(t, "k"), "snapshot")
				w := newWalk(s.s, s.m, rangeGen(t))
				defer w.it.Release()
				for i := rapid.IntRange(1, 10).Draw(t, "moves"); i > 0; i-- {
					w.step(t, "snapshot")
				}
			},
			"compact": func(t *rapid.T) {
				r := rangeGen(t)
				if r == nil {
					r = &util.Range{}
				}
				if err := db.CompactRange(*r); err != nil {
					t.Fatalf("compact: %v", err)
				}
				did["compact"] = true
			},
			"reopen": func(t *rapid.T) {
				if rapid.Bool().Draw(t, "really") {
					release()
					if err := db.Close(); err != nil {
						t.Fatalf("close: %v", err)
					}
					db = open()
					did["reopen"] = true
				}
			},
			"transaction": func(t *rapid.T) {
				before := m.clone()
				tr, err := db.OpenTransaction()
				if err != nil {
					t.Fatalf("transaction: %v", err)
				}
				tm := m.clone()
				for i := rapid.IntRange(1, 4).Draw(t, "writes"); i > 0; i-- {
					ops, b := batchGen(t, &serial, "", 5)
					if len(ops) == 1 && !ops[0].del {
						err = tr.Put([]byte(ops[0].k), []byte(ops[0].v), nil)
					} else if len(ops) == 1 {
						err = tr.Delete([]byte(ops[0].k), nil)
					} else {
						err = tr.Write(b, nil)
					}
					if err != nil {
						t.Fatalf("transaction write: %v", err)
					}
					tm.apply(ops)
					k := keyGen(t, "k")
					checkGet(t, tr, tm, k, "transaction")
					checkGet(t, db, before, k, "db during a transaction")
				}
				checkAll(t, tr, tm, "transaction")
				did["transaction"] = true
				if rapid.Bool().Draw(t, "commit") {
					if err := tr.Commit(); err != nil {
						t.Fatalf("commit: %v", err)
					}
					m = tm
				} else {
					tr.Discard()
				}
			},
			"overlay": func(t *rapid.T) {
				am := m.clone()
				mem := memdb.New(leveldb.NewIComparer(comparer.DefaultComparer), rapid.SampledFrom([]int{0, 64, 4096}).Draw(t, "cap"))
				seq := db.GetSeq() + uint64(rapid.IntRange(0, 3).Draw(t, "gap"))
				ops, _ := batchGen(t, &serial, "", 8)
				for _, o := range ops {
					seq++
					kt := leveldb.KeyTypeVal
					if o.del {
						kt = leveldb.KeyTypeDel
					}
					if err := mem.Put(leveldb.MakeInternalKey(nil, []byte(o.k), seq, kt), []byte(o.v)); err != nil {
						t.Fatalf("memdb put: %v", err)
					}
				}
				am.apply(ops)
				a := aux{db, mem, seq}
				checkAll(t, a, am, "overlay")
				w := newWalk(a, am, rangeGen(t))
				defer w.it.Release()
				for i := rapid.IntRange(1, 10).Draw(t, "moves"); i > 0; i-- {
					w.step(t, "overlay")
				}
				did["overlay"] = true
			},
		})
		for _, s := range snaps {
			checkAll(t, s.s, s.m, "snapshot at the end")
		}
		for _, w := range walks {
			for i := 0; i < 4; i++ {
				w.step(t, "held iterator at the end")
			}
		}
		checkAll(t, db, m, "db at the end")
		release()
		if err := db.CompactRange(util.Range{}); err != nil {
			t.Fatalf("compact: %v", err)
		}
		checkAll(t, db, m, "db after full compaction")
		if err := db.Close(); err != nil {
			t.Fatalf("close: %v", err)
		}
		db = open()
		checkAll(t, db, m, "db reopened at the end")
		for k := range did {
			c.Label(k)
		}
		if rewrote && len(did) > 0 {
			c.NonTrivial(serial, o.WriteBuffer, len(m), did)
			c.Sample("%d writes, options %+v, %d keys left, %v", serial, *o, len(m), did)
		}
	})
}

// ---- memdb ----

func TestMemDB(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "histories of put, delete, reset and copy on the in-memory skip list against a sorted map, with iterator walks and Find; non-trivial with at least one overwritten and one deleted key",
		Quick: 150, Thorough: 10000,
	}, func(t *rapid.T, c *vlib.C) {
		p := memdb.New(comparer.DefaultComparer, rapid.SampledFrom([]int{0, 16, 4096}).Draw(t, "cap"))
		m := model{}
		serial, over, deleted := 0, 0, 0
		t.Repeat(map[string]func(*rapid.T){
			"put": func(t *rapid.T) {
				k := keyGen(t, "k")
				serial++
				v := valGen(t, serial)
				if _, ok := m[k]; ok {
					over++
				}
				if err := p.Put([]byte(k), []byte(v)); err != nil {
					t.Fatalf("put: %v", err)
				}
				m[k] = v
			},
			"delete": func(t *rapid.T) {
				k := keyGen(t, "k")
				_, ok := m[k]
				err := p.Delete([]byte(k))
				if (err == nil) != ok {
					t.Fatalf("Delete(%x) = %v, present %v", k, err, ok)
				}
				if ok {
					deleted++
				}
				delete(m, k)
			},
			"find": func(t *rapid.T) {
				k := keyGen(t, "k")
				ks := m.keys(nil)
				i := sort.SearchStrings(ks, k)
				rk, v, err := p.Find([]byte(k))
				if i == len(ks) {
					if err != memdb.ErrNotFound {
						t.Fatalf("Find(%x) past the end = %x, %v", k, rk, err)
					}
				} else if err != nil || string(rk) != ks[i] || string(v) != m[ks[i]] {
					t.Fatalf("Find(%x) = %x, %v; want %x", k, rk, err, ks[i])
				}
				_, ok := m[k]
				if p.Contains([]byte(k)) != ok {
					t.Fatalf("Contains(%x) is not %v", k, ok)
				}
				v, err = p.Get([]byte(k))
				if (err == nil) != ok || ok && string(v) != m[k] {
					t.Fatalf("Get(%x) = %.40q, %v", k, v, err)
				}
			},
			"copy": func(t *rapid.T) {
				// the copy takes the contents; the original changes on its own
				q := p.Copy()
				if rapid.Bool().Draw(t, "pooled") {
					q = p.Copy2(func(n int) []byte { return make([]byte, n) }, func(n int) []int { return make([]int, n) })
				}
				old := m.clone()
				k := keyGen(t, "k")
				serial++
				p.Put([]byte(k), []byte("changed"))
				got, _, _ := readMem(q)
				if fmt.Sprint(got) != fmt.Sprint(old) {
					t.Fatalf("copy changed with the original: %d entries, want %d", len(got), len(old))
				}
				m[k] = "changed"
				if rapid.Bool().Draw(t, "use") {
					p, m = q, old
				}
			},
			"reset": func(t *rapid.T) {
				if rapid.IntRange(0, 3).Draw(t, "really") == 2 {
					p.Reset()
					m = model{}
				}
			},
			"": func(t *rapid.T) {
				if p.Len() != len(m) {
					t.Fatalf("Len %d, want %d", p.Len(), len(m))
				}
				rg := rangeGen(t)
				w := &walk{it: p.NewIterator(rg), keys: m.keys(rg), m: m, r: rg, pos: -1}
				defer w.it.Release()
				// a fresh cursor, then moves that stay within the range
				for i, k := range w.keys {
					if !w.it.Next() || string(w.it.Key()) != k || string(w.it.Value()) != m[k] {
						t.Fatalf("entry %d of range %v is %x, want %x", i, rg, w.it.Key(), k)
					}
				}
				if w.it.Next() {
					t.Fatalf("range %v has more than %d entries", rg, len(w.keys))
				}
				w.pos = len(w.keys)
				for i := rapid.IntRange(0, 4).Draw(t, "moves"); i > 0; i-- {
					w.step(t, "memdb")
				}
			},
		})
		if over > 0 && deleted > 0 {
			c.NonTrivial(serial, over, deleted, len(m))
			c.Sample("%d puts, %d overwrites, %d deletes, %d left", serial, over, deleted, len(m))
		}
	})
}

func readMem(p *memdb.DB) (model, []string, error) {
	m := model{}
	it := p.NewIterator(nil)
	defer it.Release()
	var ks []string
	for it.Next() {
		m[string(it.Key())] = string(it.Value())
		ks = append(ks, string(it.Key()))
	}
	return m, ks, it.Error()
}

// ---- crash ----

type entry struct {
	kind     byte // c create, w write, r remove, n rename, m meta, s sync, i issue, a ack
	fd, fd2  storage.FileDesc
	data     []byte
	writer   int
	n        int
	syncFlag bool
}

// recStor is an in-memory storage that logs every change.
type recStor struct {
	mu     sync.Mutex
	log    []entry
	files  map[storage.FileDesc][]byte
	meta   *storage.FileDesc
	locked bool
}

func newRec() *recStor { return &recStor{files: map[storage.FileDesc][]byte{}} }

func (s *recStor) add(e entry) {
	s.log = append(s.log, e)
	s.apply(e, -1)
}

// apply replays one entry; cut >= 0 keeps only that many bytes of a write.
func (s *recStor) apply(e entry, cut int) {
	switch e.kind {
	case 'c':
		s.files[e.fd] = nil
	case 'w':
		d := e.data
		if cut >= 0 {
			d = d[:cut]
		}
		if _, ok := s.files[e.fd]; ok {
			s.files[e.fd] = append(s.files[e.fd], d...)
		}
	case 'r':
		delete(s.files, e.fd)
	case 'n':
		s.files[e.fd2] = s.files[e.fd]
		delete(s.files, e.fd)
	case 'm':
		fd := e.fd
		s.meta = &fd
	}
}

func (s *recStor) mark(e entry) {
	s.mu.Lock()
	s.log = append(s.log, e)
	s.mu.Unlock()
}

type unlocker struct{ s *recStor }

func (u unlocker) Unlock() { u.s.mu.Lock(); u.s.locked = false; u.s.mu.Unlock() }

func (s *recStor) Lock() (storage.Locker, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.locked {
		return nil, storage.ErrLocked
	}
	s.locked = true
	return unlocker{s}, nil
}
func (s *recStor) Log(string) {}
func (s *recStor) SetMeta(fd storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.add(entry{kind: 'm', fd: fd})
	return nil
}
func (s *recStor) GetMeta() (storage.FileDesc, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.meta == nil {
		return storage.FileDesc{}, os.ErrNotExist
	}
	if _, ok := s.files[*s.meta]; !ok {
		return storage.FileDesc{}, os.ErrNotExist
	}
	return *s.meta, nil
}
func (s *recStor) List(ft storage.FileType) ([]storage.FileDesc, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	var l []storage.FileDesc
	for fd := range s.files {
		if fd.Type&ft != 0 {
			l = append(l, fd)
		}
	}
	sort.Slice(l, func(i, j int) bool { return l[i].Num < l[j].Num || l[i].Num == l[j].Num && l[i].Type < l[j].Type })
	return l, nil
}

type rd struct{ *bytes.Reader }

func (rd) Close() error { return nil }

func (s *recStor) Open(fd storage.FileDesc) (storage.Reader, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	b, ok := s.files[fd]
	if !ok {
		return nil, os.ErrNotExist
	}
	return rd{bytes.NewReader(append([]byte(nil), b...))}, nil
}

type wr struct {
	s  *recStor
	fd storage.FileDesc
}

func (w *wr) Write(p []byte) (int, error) {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	w.s.add(entry{kind: 'w', fd: w.fd, data: append([]byte(nil), p...)})
	return len(p), nil
}
func (w *wr) Sync() error {
	w.s.mu.Lock()
	defer w.s.mu.Unlock()
	w.s.add(entry{kind: 's', fd: w.fd})
	return nil
}
func (w *wr) Close() error { return nil }

func (s *recStor) Create(fd storage.FileDesc) (storage.Writer, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.add(entry{kind: 'c', fd: fd})
	return &wr{s, fd}, nil
}
func (s *recStor) Remove(fd storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.files[fd]; !ok {
		return os.ErrNotExist
	}
	s.add(entry{kind: 'r', fd: fd})
	return nil
}
func (s *recStor) Rename(o, n storage.FileDesc) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if _, ok := s.files[o]; !ok {
		return os.ErrNotExist
	}
	s.add(entry{kind: 'n', fd: o, fd2: n})
	return nil
}
func (s *recStor) Close() error { return nil }

// plan is what one writer does.
type write struct {
	ops  []op
	b    *leveldb.Batch
	sync bool
	txn  bool
}

func equalModels(a, b model) bool {
	if len(a) != len(b) {
		return false
	}
	for k, v := range a {
		if w, ok := b[k]; !ok || v != w {
			return false
		}
	}
	return true
}

// project splits contents by the writer byte the keys start with.
func project(m model, w int) model {
	o := model{}
	for k, v := range m {
		if k[0] == byte('A'+w) {
			o[k] = v
		}
	}
	return o
}

func TestCrash(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "one to three concurrent writers with batches (some synced, some transactions) and a reader over a storage that logs every change, some compactions and a reopening in between; the storage is then stopped after generated log positions, with the last write cut at any byte, or with the unsynced tail of the newest journal cut at any byte, and reopened: per writer the contents must be a prefix of its batches that contains the acknowledged (or acknowledged synced) ones; further writes and a second reopening must work; non-trivial when the stop falls inside a write of the running history",
		Quick: 60, Thorough: 2500,
	}, func(t *rapid.T, c *vlib.C) {
		o := options(t)
		o.NoSync = false
		nw := rapid.IntRange(1, 3).Draw(t, "writers")
		serial := 0
		plans := make([][]write, nw)
		states := make([][]model, nw) // states[w][j] = contents after j writes
		for w := range plans {
			cur := model{}
			states[w] = []model{{}}
			for i := rapid.IntRange(1, 25).Draw(t, "writes"); i > 0; i-- {
				ops, b := batchGen(t, &serial, string(rune('A'+w)), 6)
				plans[w] = append(plans[w], write{ops: ops, b: b,
					sync: rapid.IntRange(0, 3).Draw(t, "sync") == 0,
					txn:  nw == 1 && rapid.IntRange(0, 9).Draw(t, "txn") == 3})
				cur.apply(ops)
				states[w] = append(states[w], cur.clone())
			}
		}
		compactAt := rapid.IntRange(0, 30).Draw(t, "compactAt")
		reopenAt := rapid.IntRange(0, 40).Draw(t, "reopenAt")
		// stop points as fractions of the log and of the cut write
		stops := rapid.SliceOfN(rapid.Custom(func(t *rapid.T) [3]int {
			return [3]int{rapid.IntRange(0, 9999).Draw(t, "at"), rapid.IntRange(0, 9999).Draw(t, "cut"), rapid.IntRange(0, 2).Draw(t, "mode")}
		}), 4, 10).Draw(t, "stops")
		more, mb := batchGen(t, &serial, "A", 4)

		s := newRec()
		db, err := leveldb.Open(s, o)
		if err != nil {
			t.Fatalf("open: %v", err)
		}
		// a crash while the empty database is being created is out of scope
		base := len(s.log)
		closed := false
		defer func() {
			if !closed {
				db.Close()
			}
		}()
		fail := make(chan string, 16)
		runRange := func(from, to func(w int) int) {
			var wg sync.WaitGroup
			for w := 0; w < nw; w++ {
				wg.Add(1)
				go func(w int) {
					defer wg.Done()
					for j := from(w); j < to(w); j++ {
						p := plans[w][j]
						s.mark(entry{kind: 'i', writer: w, n: j + 1})
						var err error
						if p.txn {
							var tr *leveldb.Transaction
							if tr, err = db.OpenTransaction(); err == nil {
								if err = tr.Write(p.b, nil); err == nil {
									err = tr.Commit()
								}
							}
						} else if len(p.ops) == 1 && !p.ops[0].del {
							err = db.Put([]byte(p.ops[0].k), []byte(p.ops[0].v), &opt.WriteOptions{Sync: p.sync})
						} else {
							err = db.Write(p.b, &opt.WriteOptions{Sync: p.sync, NoWriteMerge: p.sync && j%2 == 0})
						}
						if err != nil {
							fail <- fmt.Sprintf("writer %d write %d: %v", w, j, err)
							return
						}
						s.mark(entry{kind: 'a', writer: w, n: j + 1, syncFlag: p.sync || p.txn})
					}
				}(w)
			}
			// reader: every writer's part of one iterator is one of its states
			stop := make(chan struct{})
			rdone := make(chan struct{})
			go func() {
				defer close(rdone)
				last := make([]int, nw)
				for {
					select {
					case <-stop:
						return
					default:
					}
					m, ks, err := readAll(db)
					if err != nil || !sort.StringsAreSorted(ks) || len(ks) != len(m) {
						fail <- fmt.Sprintf("reader: %v, keys %x", err, ks)
						return
					}
					for w := 0; w < nw; w++ {
						pm := project(m, w)
						j := last[w]
						for j < len(states[w]) && !equalModels(pm, states[w][j]) {
							j++
						}
						if j == len(states[w]) {
							fail <- fmt.Sprintf("reader sees contents of writer %d that match no state at or after %d", w, last[w])
							return
						}
						last[w] = j
					}
				}
			}()
			wg.Wait()
			close(stop)
			<-rdone
		}
		half := func(w int) int {
			if reopenAt > len(plans[w]) {
				return len(plans[w])
			}
			return reopenAt
		}
		full := func(w int) int { return len(plans[w]) }
		zero := func(w int) int { return 0 }
		runRange(zero, half)
		if compactAt < 8 {
			if err := db.CompactRange(util.Range{}); err != nil {
				t.Fatalf("compact: %v", err)
			}
		}
		if reopenAt < 20 {
			if err := db.Close(); err != nil {
				t.Fatalf("close: %v", err)
			}
			if db, err = leveldb.Open(s, o); err != nil {
				t.Fatalf("reopen: %v", err)
			}
		}
		runRange(half, full)
		if compactAt >= 8 && compactAt < 14 {
			if err := db.CompactRange(util.Range{}); err != nil {
				t.Fatalf("compact: %v", err)
			}
		}
		if err := db.Close(); err != nil {
			t.Fatalf("close: %v", err)
		}
		closed = true
		select {
		case f := <-fail:
			t.Fatalf("%s", f)
		default:
		}
		s.mu.Lock()
		log := s.log
		s.mu.Unlock()

		for _, st := range stops {
			p := base + st[0]*(len(log)-base+1)/10000 // entries kept
			if st[2] > 0 {
				// move to the next write, so that it can be cut
				for p < len(log) && log[p].kind != 'w' {
					p++
				}
			}
			r := newRec()
			acked, synced, issued := make([]int, nw), make([]int, nw), make([]int, nw)
			syncLen := map[storage.FileDesc]int{}
			for _, e := range log[:p] {
				switch e.kind {
				case 'i':
					issued[e.writer] = e.n
				case 'a':
					acked[e.writer] = e.n
					if e.syncFlag {
						synced[e.writer] = e.n
					}
				case 's':
					syncLen[e.fd] = len(r.files[e.fd])
				default:
					r.apply(e, -1)
				}
			}
			what := fmt.Sprintf("stop after %d of %d operations", p, len(log))
			low := acked
			if st[2] == 1 && p < len(log) {
				cut := st[1] * (len(log[p].data) + 1) / 10000
				r.apply(log[p], cut)
				what += fmt.Sprintf(" with the next write to %v cut at %d of %d", log[p].fd, cut, len(log[p].data))
				c.NonTrivial(p, cut, serial)
			} else if st[2] == 2 {
				// cut the newest journal's unsynced tail
				js, _ := r.List(storage.TypeJournal)
				if len(js) > 0 {
					j := js[len(js)-1]
					from := syncLen[j]
					n := from + st[1]*(len(r.files[j])-from+1)/10000
					what += fmt.Sprintf(" with %v cut to %d of %d (%d synced)", j, n, len(r.files[j]), from)
					if n < len(r.files[j]) {
						c.NonTrivial(p, n, serial)
					}
					r.files[j] = r.files[j][:n:n]
					low = synced
				}
			}
			r.log = nil
			db2, err := leveldb.Open(r, o)
			if err != nil {
				t.Fatalf("%s: open: %v", what, err)
			}
			m, ks, err := readAll(db2)
			if err != nil || !sort.StringsAreSorted(ks) || len(ks) != len(m) {
				db2.Close()
				t.Fatalf("%s: reading: %v, keys %x", what, err, ks)
			}
			for w := 0; w < nw; w++ {
				pm := project(m, w)
				ok := false
				for j := low[w]; j <= issued[w]; j++ {
					if equalModels(pm, states[w][j]) {
						ok = true
						break
					}
				}
				if !ok {
					db2.Close()
					t.Fatalf("%s: writer %d: contents %x are not those after %d..%d of its writes", what, w, pm.keys(nil), low[w], issued[w])
				}
			}
			// life goes on
			if err := db2.Write(mb, nil); err != nil {
				db2.Close()
				t.Fatalf("%s: write after recovery: %v", what, err)
			}
			m.apply(more)
			for i := 0; i < 2; i++ {
				got, _, err := readAll(db2)
				if err != nil || !equalModels(got, m) {
					db2.Close()
					t.Fatalf("%s: contents after recovery, one more batch and %d reopenings differ: %v", what, i, err)
				}
				for k, v := range m {
					if g, err := db2.Get([]byte(k), nil); err != nil || string(g) != v {
						db2.Close()
						t.Fatalf("%s: Get(%x) after recovery: %v", what, k, err)
					}
				}
				db2.Close()
				if db2, err = leveldb.Open(r, o); err != nil {
					t.Fatalf("%s: second reopening: %v", what, err)
				}
			}
			db2.Close()
			c.Label(fmt.Sprintf("stop mode %d", st[2]))
		}
		c.Sample("%d writers, %d records, %d log entries, stops %v", nw, serial, len(log), stops)
	})
}
