// Package c20: the cache of downloaded ledger chunks against a list of the
// chunks that were completely written and not deleted.
package c20

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/golang/snappy"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_block "github.com/vitelabs/go-vite/v2/ledger/chain/block"
	"github.com/vitelabs/go-vite/v2/ledger/chain/sync_cache"
	"verif/vlib"
)

func init() { upgrade.InitUpgradeBox(upgrade.NewLatestUpgradeBox()) }

func hashOf(n int) types.Hash { return types.DataHash([]byte(strconv.Itoa(n))) }

func accountBlock(serial, n int) *ledger.AccountBlock {
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, Height: uint64(serial + 1), PrevHash: hashOf(serial), Amount: big.NewInt(int64(serial)), Fee: big.NewInt(0)}
	for len(b.Data) < n {
		b.Data = append(b.Data, hashOf(serial*31+len(b.Data)).Bytes()...)
	}
	copy(b.AccountAddress[:], hashOf(serial%5).Bytes())
	copy(b.ToAddress[:], hashOf(serial%7).Bytes())
	b.Hash = b.ComputeHash()
	return b
}

func snapshotBlock(serial, n int) *ledger.SnapshotBlock {
	ts := time.Unix(int64(1500000000+serial), 0)
	b := &ledger.SnapshotBlock{Height: uint64(serial + 1), PrevHash: hashOf(serial), Timestamp: &ts, SnapshotContent: ledger.SnapshotContent{}}
	for i := 0; i < n; i++ {
		var a types.Address
		copy(a[:], hashOf(i).Bytes())
		b.SnapshotContent[a] = &ledger.HashHeight{Height: uint64(serial + i), Hash: hashOf(serial + i)}
	}
	b.Hash = b.ComputeHash()
	return b
}

// record is one block in the form in which chunks travel: length, kind and the
// compressed serialization.
func record(kind byte, raw []byte) []byte {
	z := snappy.Encode(nil, raw)
	b := make([]byte, 5, 5+len(z))
	binary.BigEndian.PutUint32(b, uint32(len(z)+1))
	b[4] = kind
	return append(b, z...)
}

type item struct {
	seg      interfaces.Segment
	raws     [][]byte // serialized blocks in order
	kinds    []byte
	bytes    []byte
	size     int64
	w        io.WriteCloser
	written  int
	done     bool
	verified bool
	deleted  bool
}

type world struct {
	t      *rapid.T
	dir    string
	cache  interfaces.SyncCache
	items  []*item // not deleted, done or not
	stale  []*item // deleted while still being written
	serial int

	reopens, crashes, deletes, overlaps, readsN, staleN int
}

func (w *world) open() {
	c, err := sync_cache.NewSyncCache(w.dir)
	if err != nil {
		w.t.Fatalf("open: %v", err)
	}
	w.cache = c
}

func (w *world) segment(t *rapid.T) interfaces.Segment {
	from := uint64(rapid.IntRange(1, 30).Draw(t, "from"))
	seg := interfaces.Segment{From: from, To: from + uint64(rapid.IntRange(0, 8).Draw(t, "len"))}
	w.serial++
	seg.PrevHash, seg.Hash = hashOf(w.serial), hashOf(w.serial+100000)
	for i := rapid.IntRange(0, 2).Draw(t, "points"); i > 0; i-- {
		seg.Points = append(seg.Points, &ledger.HashHeight{Height: from + uint64(i), Hash: hashOf(w.serial + i)})
	}
	return seg
}

func (w *world) content(t *rapid.T, it *item) {
	for n := rapid.IntRange(1, 6).Draw(t, "blocks"); n > 0; n-- {
		w.serial++
		if rapid.IntRange(0, 2).Draw(t, "snap") == 1 {
			raw, err := snapshotBlock(w.serial, rapid.IntRange(0, 4).Draw(t, "entries")).Serialize()
			if err != nil {
				t.Fatalf("%v", err)
			}
			it.raws, it.kinds = append(it.raws, raw), append(it.kinds, chain_block.BlockTypeSnapshotBlock)
		} else {
			size := rapid.SampledFrom([]int{0, 50, 300, 7000, 9000, 20000}).Draw(t, "data")
			raw, err := accountBlock(w.serial, size).Serialize()
			if err != nil {
				t.Fatalf("%v", err)
			}
			it.raws, it.kinds = append(it.raws, raw), append(it.kinds, chain_block.BlockTypeAccountBlock)
		}
		i := len(it.raws) - 1
		it.bytes = append(it.bytes, record(it.kinds[i], it.raws[i])...)
	}
}

func (w *world) write(t *rapid.T, it *item, n int) {
	if it.written+n > len(it.bytes) {
		n = len(it.bytes) - it.written
	}
	k, err := it.w.Write(it.bytes[it.written : it.written+n])
	if err != nil || k != n {
		if it.deleted {
			return
		}
		t.Fatalf("write: %d %v", k, err)
	}
	it.written += n
}

func (w *world) finish(t *rapid.T, it *item) {
	w.write(t, it, len(it.bytes))
	if err := it.w.Close(); err != nil && !it.deleted {
		t.Fatalf("close: %v", err)
	}
	it.w, it.done = nil, true
}

func (w *world) readAll(it *item, r interfaces.ChunkReader, what string) {
	t := w.t
	if r.Verified() != it.verified || r.Size() != it.size {
		t.Fatalf("%s: reader of %v says verified=%v size=%d, want %v %d", what, it.seg, r.Verified(), r.Size(), it.verified, it.size)
	}
	for i := 0; ; i++ {
		ab, sb, err := r.Read()
		if i == len(it.raws) {
			if err != io.EOF {
				t.Fatalf("%s: after the last block of %v: %v %v %v", what, it.seg, ab != nil, sb != nil, err)
			}
			return
		}
		if err != nil {
			t.Fatalf("%s: block %d of %d of %v: %v", what, i, len(it.raws), it.seg, err)
		}
		var raw []byte
		switch {
		case ab != nil && sb == nil && it.kinds[i] == chain_block.BlockTypeAccountBlock:
			raw, err = ab.Serialize()
		case sb != nil && ab == nil && it.kinds[i] == chain_block.BlockTypeSnapshotBlock:
			raw, err = sb.Serialize()
		default:
			t.Fatalf("%s: block %d of %v has the wrong kind", what, i, it.seg)
		}
		if err != nil || !bytes.Equal(raw, it.raws[i]) {
			if ab != nil && sameAccount(ab, it.raws[i]) || sb != nil && sameSnapshot(sb, it.raws[i]) {
				continue
			}
			t.Fatalf("%s: block %d of %v differs from what was written", what, i, it.seg)
		}
	}
}

func sameAccount(ab *ledger.AccountBlock, raw []byte) bool {
	var o ledger.AccountBlock
	return o.Deserialize(raw) == nil && fmt.Sprintf("%+v", o) == fmt.Sprintf("%+v", *ab)
}

// protobuf may order the content of a snapshot differently
func sameSnapshot(sb *ledger.SnapshotBlock, raw []byte) bool {
	var o ledger.SnapshotBlock
	return o.Deserialize(raw) == nil && o.Hash == sb.Hash && sb.ComputeHash() == sb.Hash && o.Timestamp.Equal(*sb.Timestamp)
}

func (w *world) check() {
	t := w.t
	var want []*item
	for _, it := range w.items {
		if it.done {
			want = append(want, it)
		}
	}
	sort.Slice(want, func(i, j int) bool { return want[i].seg.From < want[j].seg.From })
	got := w.cache.Chunks()
	if len(got) != len(want) {
		t.Fatalf("%d chunks listed, %d were completed and not deleted: %v", len(got), len(want), got)
	}
	for i, s := range got {
		e := want[i].seg
		if !s.Equal(e) || len(s.Points) != len(e.Points) {
			t.Fatalf("chunk %d is %v (%d points), want %v (%d points)", i, s, len(s.Points), e, len(e.Points))
		}
		for j := range s.Points {
			if *s.Points[j] != *e.Points[j] {
				t.Fatalf("chunk %v: point %d differs", s, j)
			}
		}
	}
	for _, it := range w.items {
		if !it.done {
			if _, err := w.cache.NewReader(it.seg); err == nil {
				t.Fatalf("an unfinished chunk %v can be read", it.seg)
			}
			continue
		}
		if rapid.IntRange(0, 2).Draw(t, "read") > 0 {
			continue
		}
		r, err := w.cache.NewReader(it.seg)
		if err != nil {
			t.Fatalf("reader of %v: %v", it.seg, err)
		}
		w.readAll(it, r, "read")
		r.Close()
		w.readsN++
	}
}

func TestCache(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "histories of chunk writers opened, fed piecewise, closed or abandoned, chunks read, verified and deleted (also while they are written or read), and the cache reopened with or without closing; listing, readers, verified marks and overlap refusals are compared with the list of completed chunks; non-trivial when a reopening and a deletion or an overlap refusal happened",
		Quick: 500, Thorough: 6000, Steps: 30,
	}, func(t *rapid.T, c *vlib.C) {
		w := &world{t: t, dir: filepath.Join(vlib.TempDir(t), "cache")}
		w.open()
		defer func() { w.cache.Close() }()
		remove := func(it *item) {
			for i, x := range w.items {
				if x == it {
					w.items = append(w.items[:i:i], w.items[i+1:]...)
				}
			}
			it.deleted = true
		}
		newWriter := func(t *rapid.T) {
			seg := w.segment(t)
			if len(w.stale) > 0 && rapid.Bool().Draw(t, "again") {
				// download again what was deleted
				seg = rapid.SampledFrom(w.stale).Draw(t, "which").seg
			}
			overlap := false
			for _, it := range w.items {
				if it.seg.From <= seg.To && seg.From <= it.seg.To {
					overlap = true
				}
			}
			it := &item{seg: seg}
			w.content(t, it)
			it.size = int64(len(it.bytes))
			wr, err := w.cache.NewWriter(seg, it.size)
			if overlap != (err != nil) {
				t.Fatalf("writer for %v: %v, overlap %v", seg, err, overlap)
			}
			if overlap {
				w.overlaps++
				return
			}
			it.w = wr
			w.items = append(w.items, it)
		}
		openItems := func() (r []*item) {
			for _, it := range w.items {
				if it.w != nil {
					r = append(r, it)
				}
			}
			return
		}
		t.Repeat(map[string]func(*rapid.T){
			"new":  newWriter,
			"new2": newWriter,
			"feed": func(t *rapid.T) {
				if o := openItems(); len(o) > 0 {
					w.write(t, rapid.SampledFrom(o).Draw(t, "w"), rapid.IntRange(1, 9000).Draw(t, "n"))
				}
			},
			"finish": func(t *rapid.T) {
				if o := openItems(); len(o) > 0 {
					w.finish(t, rapid.SampledFrom(o).Draw(t, "w"))
				}
			},
			"finish all": func(t *rapid.T) {
				for _, it := range openItems() {
					w.finish(t, it)
				}
			},
			"verify": func(t *rapid.T) {
				for _, it := range w.items {
					if it.done && rapid.Bool().Draw(t, "it") {
						r, err := w.cache.NewReader(it.seg)
						if err != nil {
							t.Fatalf("reader: %v", err)
						}
						w.readAll(it, r, "verify")
						r.Close()
						r.Verify()
						it.verified = true
					}
				}
			},
			"delete": func(t *rapid.T) {
				if len(w.items) == 0 {
					return
				}
				it := rapid.SampledFrom(w.items).Draw(t, "it")
				var r interfaces.ChunkReader
				if it.done && rapid.Bool().Draw(t, "reading") {
					var err error
					if r, err = w.cache.NewReader(it.seg); err != nil {
						t.Fatalf("reader: %v", err)
					}
				}
				if err := w.cache.Delete(it.seg); err != nil {
					t.Fatalf("delete: %v", err)
				}
				remove(it)
				w.deletes++
				if err := w.cache.Delete(it.seg); err == nil {
					t.Fatalf("a deleted chunk can be deleted again")
				}
				if _, err := w.cache.NewReader(it.seg); err == nil {
					t.Fatalf("a deleted chunk can be read")
				}
				if r != nil {
					// a reader opened before still gives the whole chunk
					w.readAll(it, r, "reader opened before the deletion")
					r.Verify()
					r.Close()
				}
				if it.w != nil {
					w.stale = append(w.stale, it)
				}
			},
			"finish deleted": func(t *rapid.T) {
				if len(w.stale) > 0 {
					it := w.stale[0]
					if it.w != nil {
						w.finish(t, it)
						w.staleN++
					}
					w.stale = w.stale[1:]
				}
			},
			"foreign": func(t *rapid.T) {
				seg := w.segment(t)
				if len(w.items) > 0 {
					// same heights, other hashes
					seg.From, seg.To = w.items[0].seg.From, w.items[0].seg.To
				}
				if err := w.cache.Delete(seg); err == nil {
					t.Fatalf("deleting a chunk that was never written succeeds")
				}
				if _, err := w.cache.NewReader(seg); err == nil {
					t.Fatalf("reading a chunk that was never written succeeds")
				}
			},
			"reopen": func(t *rapid.T) {
				if rapid.Bool().Draw(t, "clean") {
					for _, it := range openItems() {
						if rapid.Bool().Draw(t, "done") {
							w.finish(t, it)
						}
					}
				} else {
					w.crashes++
				}
				open := openItems()
				w.cache.Close()
				for _, it := range open {
					remove(it)
				}
				w.stale = nil
				w.open()
				w.reopens++
			},
			"": func(t *rapid.T) { w.check() },
		})
		if w.reopens > 0 && w.deletes+w.overlaps > 0 {
			c.NonTrivial(w.reopens, w.crashes, w.deletes, w.overlaps, w.staleN, w.serial, len(w.items))
		}
		c.Sample("%d reopenings (%d with open writers), %d deletions (%d while writing), %d overlaps refused, %d chunks read, %d left", w.reopens, w.crashes, w.deletes, w.staleN, w.overlaps, w.readsN, len(w.items))
	})
}

func TestDamage(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "a completed chunk whose file is cut or has bytes changed, then read: the blocks before the damage come back, no crash, a cut inside a record is an error, and a block whose hash is valid is one of the chunk's; non-trivial when the damage lies in the file",
		Quick: 1500, Thorough: 20000,
	}, func(t *rapid.T, c *vlib.C) {
		w := &world{t: t, dir: filepath.Join(vlib.TempDir(t), "cache")}
		w.open()
		it := &item{seg: w.segment(t)}
		w.content(t, it)
		it.size = int64(len(it.bytes))
		var err error
		if it.w, err = w.cache.NewWriter(it.seg, it.size); err != nil {
			t.Fatalf("%v", err)
		}
		w.finish(t, it)
		reopen := rapid.Bool().Draw(t, "reopen")
		if reopen {
			w.cache.Close()
		}
		var files []string
		ents, _ := os.ReadDir(w.dir)
		for _, e := range ents {
			if !e.IsDir() {
				files = append(files, filepath.Join(w.dir, e.Name()))
			}
		}
		if len(files) != 1 {
			t.Fatalf("files %v", files)
		}
		b := append([]byte(nil), it.bytes...)
		var starts []int
		known := map[types.Hash]bool{}
		for off := 0; off < len(b); off += 4 + int(binary.BigEndian.Uint32(b[off:])) {
			starts = append(starts, off)
		}
		for i, raw := range it.raws {
			if it.kinds[i] == chain_block.BlockTypeAccountBlock {
				var o ledger.AccountBlock
				if o.Deserialize(raw) == nil {
					known[o.Hash] = true
				}
			} else {
				var o ledger.SnapshotBlock
				if o.Deserialize(raw) == nil {
					known[o.Hash] = true
				}
			}
		}
		first := len(b)
		cut := -1
		for n := rapid.IntRange(1, 2).Draw(t, "damages"); n > 0 && len(b) > 0; n-- {
			at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			if rapid.Bool().Draw(t, "near") {
				at = rapid.SampledFrom(starts).Draw(t, "start") + rapid.IntRange(0, 8).Draw(t, "in")
				if at >= len(b) {
					at = len(b) - 1
				}
			}
			if rapid.IntRange(0, 1).Draw(t, "kind") == 0 {
				b = b[:at]
				cut = at
			} else {
				old := b[at]
				b[at] = rapid.Byte().Draw(t, "byte")
				if b[at] == old {
					b[at] ^= 1
				}
			}
			if at < first {
				first = at
			}
		}
		for off := 0; off+5 <= len(b); {
			n := int(binary.BigEndian.Uint32(b[off:]))
			if dl, err := snappy.DecodedLen(b[off+5:]); n > 1<<24 || err == nil && dl > 1<<24 {
				// a damaged length can ask for gigabytes; such cases are left out
				return
			}
			off += 4 + n
		}
		if err := os.WriteFile(files[0], b, 0644); err != nil {
			t.Fatalf("%v", err)
		}
		var got []types.Hash
		var end error
		if p := vlib.Catch(func() {
			if reopen {
				w.open()
			}
			r, err := w.cache.NewReader(it.seg)
			if err != nil {
				end = err
				return
			}
			defer r.Close()
			for i := 0; i < 100; i++ {
				ab, sb, err := r.Read()
				if err != nil {
					end = err
					return
				}
				var h types.Hash
				valid := false
				if ab != nil {
					h, valid = ab.Hash, ab.Hash == ab.ComputeHash()
				} else if sb != nil {
					h, valid = sb.Hash, sb.Timestamp != nil && sb.Hash == sb.ComputeHash()
				}
				if valid && !known[h] {
					end = fmt.Errorf("FOREIGN")
					return
				}
				got = append(got, h)
			}
		}); p != nil {
			t.Fatalf("reading a chunk damaged at %d of %d panics: %v", first, len(it.bytes), p)
		}
		w.cache.Close()
		if end == nil {
			t.Fatalf("reading a damaged chunk does not end")
		}
		if end.Error() == "FOREIGN" {
			t.Fatalf("a chunk damaged at %d gives a valid block it never had", first)
		}
		// whole records before the damage come back
		before := 0
		for i, s := range starts {
			e := len(it.bytes)
			if i+1 < len(starts) {
				e = starts[i+1]
			}
			if e <= first && s < e {
				before++
			}
		}
		if len(got) < before {
			t.Fatalf("%d blocks came back, %d lie before the damage at %d: %v", len(got), before, first, end)
		}
		for i := 0; i < before; i++ {
			if !known[got[i]] {
				t.Fatalf("block %d before the damage differs", i)
			}
		}
		if cut >= 0 && cut == first {
			// only cut: it ends there, with an error unless between records
			atStart := sort.SearchInts(starts, cut) < len(starts) && starts[sort.SearchInts(starts, cut)] == cut
			if len(got) != before || !atStart && end == io.EOF {
				t.Fatalf("a chunk cut at %d of %d gives %d blocks and %v; %d are whole", cut, len(it.bytes), len(got), end, before)
			}
		}
		c.NonTrivial(first, cut, len(it.bytes), w.serial)
		c.Sample("%d blocks in %d bytes, first damage at %d (cut %d), %d blocks returned, then %v", len(it.raws), len(it.bytes), first, cut, len(got), end)
	})
}
