// Package c18: the block log and the file manager below it against a plain
// list of the surviving units.
package c18

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/golang/snappy"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_block "github.com/vitelabs/go-vite/v2/ledger/chain/block"
	fm "github.com/vitelabs/go-vite/v2/ledger/chain/file_manager"
	"verif/vlib"
)

var noise = func() []byte {
	b := make([]byte, 1<<14)
	x := uint32(99)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}()

func filler(serial, n int, compressible bool) []byte {
	if compressible {
		return bytes.Repeat([]byte{byte(serial)}, n)
	}
	return append([]byte(nil), noise[serial*13%4096:serial*13%4096+n]...)
}

func init() { upgrade.InitUpgradeBox(upgrade.NewLatestUpgradeBox()) }

func hashOf(n int) types.Hash { return types.DataHash([]byte(strconv.Itoa(n))) }

func accountBlock(serial, n int, compressible bool) *ledger.AccountBlock {
	b := &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, Height: uint64(serial + 1), PrevHash: hashOf(serial), Amount: big.NewInt(int64(serial)), Fee: big.NewInt(0), Data: filler(serial, n, compressible)}
	copy(b.AccountAddress[:], hashOf(serial%5).Bytes())
	copy(b.ToAddress[:], hashOf(serial%7).Bytes())
	b.Hash = b.ComputeHash()
	return b
}

func snapshotBlock(serial, n int) *ledger.SnapshotBlock {
	ts := time.Unix(int64(1500000000+serial), 0)
	b := &ledger.SnapshotBlock{Height: uint64(serial + 1), PrevHash: hashOf(serial), Timestamp: &ts, PublicKey: filler(serial, 32, false), Signature: filler(serial+1, 64, false), SnapshotContent: ledger.SnapshotContent{}}
	for i := 0; i < n; i++ {
		var a types.Address
		copy(a[:], hashOf(i).Bytes())
		b.SnapshotContent[a] = &ledger.HashHeight{Height: uint64(serial + i), Hash: hashOf(serial + i)}
	}
	b.Hash = b.ComputeHash()
	return b
}

type unit struct {
	loc  fm.Location
	raw  []byte // serialized block
	snap bool
}

type chunk struct {
	units []unit // the last one is the snapshot block
}

func abs(l *fm.Location, size int64) int64 { return int64(l.FileId)*size + l.Offset }

func serialized(t *rapid.T, sb *ledger.SnapshotBlock, ab *ledger.AccountBlock) []byte {
	var b []byte
	var err error
	if sb != nil {
		b, err = sb.Serialize()
	} else {
		b, err = ab.Serialize()
	}
	if err != nil {
		t.Fatalf("serialize: %v", err)
	}
	return b
}

func checkChunks(t *rapid.T, got []*ledger.SnapshotChunk, want []chunk, what string) {
	if len(got) != len(want) {
		t.Fatalf("%s: %d chunks, want %d", what, len(got), len(want))
	}
	for i, g := range got {
		w := want[i].units
		if g.SnapshotBlock == nil || len(g.AccountBlocks) != len(w)-1 {
			t.Fatalf("%s: chunk %d has %d account blocks, snapshot %v; want %d", what, i, len(g.AccountBlocks), g.SnapshotBlock != nil, len(w)-1)
		}
		for j, ab := range g.AccountBlocks {
			if !bytes.Equal(serialized(t, nil, ab), w[j].raw) {
				t.Fatalf("%s: chunk %d account block %d differs", what, i, j)
			}
		}
		if !bytes.Equal(serialized(t, g.SnapshotBlock, nil), w[len(w)-1].raw) {
			t.Fatalf("%s: chunk %d snapshot block differs", what, i)
		}
	}
}

func clone(c []chunk) []chunk { return append([]chunk(nil), c...) }

func TestBlockLog(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "histories of chunk writes, flushes (with writes and rollbacks between prepare and commit, or cancelled), rollbacks and reopenings over a block log with small files, reading units, chunks and ranges after each step; non-trivial when the log crossed at least two file boundaries and was rolled back or reopened",
		Quick: 500, Thorough: 4000, Steps: 25,
	}, func(t *rapid.T, c *vlib.C) {
		dir := vlib.TempDir(t)
		size := int64(rapid.IntRange(700, 2500).Draw(t, "fileSize"))
		db, err := chain_block.NewBlockDBFixedSize(dir, size)
		if err != nil {
			t.Fatalf("open: %v", err)
		}
		defer func() { db.Close() }()
		var live, durable []chunk
		serial, rollbacks, reopens, midOps := 0, 0, 0, 0
		maxFile := uint64(0)
		flushed := true // live chunks are all in durable

		write := func(t *rapid.T) {
			sc := &ledger.SnapshotChunk{}
			var ck chunk
			for i := rapid.IntRange(0, 5).Draw(t, "blocks"); i > 0; i-- {
				comp := rapid.Bool().Draw(t, "compressible")
				n := rapid.IntRange(0, int(size)/2-150).Draw(t, "data")
				var ab *ledger.AccountBlock
				for {
					serial++
					ab = accountBlock(serial, n, comp)
					raw, err := ab.Serialize()
					if err != nil {
						t.Fatalf("serialize: %v", err)
					}
					if int64(snappy.MaxEncodedLen(len(raw))+5) <= size {
						ck.units = append(ck.units, unit{raw: raw})
						break
					}
					n -= 50
				}
				sc.AccountBlocks = append(sc.AccountBlocks, ab)
			}
			serial++
			n := rapid.IntRange(0, 5).Draw(t, "content")
			for {
				sc.SnapshotBlock = snapshotBlock(serial, n)
				raw := serialized(t, sc.SnapshotBlock, nil)
				if int64(snappy.MaxEncodedLen(len(raw))+5) <= size {
					ck.units = append(ck.units, unit{raw: raw, snap: true})
					break
				}
				n--
			}
			locs, sloc, err := db.Write(sc)
			if err != nil {
				t.Fatalf("write: %v", err)
			}
			if len(locs) != len(sc.AccountBlocks) {
				t.Fatalf("write returned %d locations for %d blocks", len(locs), len(sc.AccountBlocks))
			}
			prev := int64(-1)
			for i, ab := range sc.AccountBlocks {
				l := locs[ab.Hash]
				if l == nil {
					t.Fatalf("no location for account block %d", i)
				}
				if abs(l, size) <= prev {
					t.Fatalf("block %d is not located after its predecessor", i)
				}
				prev = abs(l, size)
				ck.units[i].loc = *l
			}
			if abs(sloc, size) <= prev {
				t.Fatalf("the snapshot block is not located after its account blocks")
			}
			ck.units[len(ck.units)-1].loc = *sloc
			if sloc.FileId > maxFile {
				maxFile = sloc.FileId
			}
			live = append(live, ck)
			flushed = false
		}
		rollback := func(t *rapid.T) {
			if len(live) < 2 {
				return
			}
			keep := rapid.IntRange(1, len(live)).Draw(t, "keep")
			last := live[keep-1].units
			tmp := last[len(last)-1].loc
			loc, err := db.GetNextLocation(&tmp)
			if err != nil || loc == nil {
				t.Fatalf("next location of %v: %v, %v", tmp, loc, err)
			}
			got, err := db.PrepareRollback(loc)
			if err != nil {
				t.Fatalf("prepare rollback: %v", err)
			}
			checkChunks(t, got, live[keep:], "chunks to roll back")
			var p interface{}
			if p = vlib.Catch(func() { err = db.Rollback(loc) }); p != nil || err != nil {
				t.Fatalf("rollback to chunk %d of %d: %v, panic %v", keep, len(live), err, p)
			}
			if keep < len(live) {
				rollbacks++
				removed := live[keep].units[0].loc
				sb, ab, _, _ := db.ReadUnit(&removed)
				if sb != nil || ab != nil {
					t.Fatalf("a block is still read at the rolled back location %v", removed)
				}
			}
			live = clone(live[:keep])
			flushed = false
		}
		check := func(t *rapid.T) {
			if len(live) == 0 {
				return
			}
			// one unit, one chunk, one range
			i := rapid.IntRange(0, len(live)-1).Draw(t, "chunk")
			u := rapid.SampledFrom(live[i].units).Draw(t, "unit")
			loc := u.loc
			if u.snap {
				sb, err := db.GetSnapshotBlock(&loc)
				if err != nil || sb == nil || !bytes.Equal(serialized(t, sb, nil), u.raw) {
					t.Fatalf("snapshot block at %v: %v", loc, err)
				}
			} else {
				ab, err := db.GetAccountBlock(&loc)
				if err != nil || ab == nil || !bytes.Equal(serialized(t, nil, ab), u.raw) {
					t.Fatalf("account block at %v: %v", loc, err)
				}
			}
			first := live[i].units[0].loc
			ck, next, err := db.ReadChunk(first)
			if err != nil {
				t.Fatalf("chunk %d at %v: %v", i, first, err)
			}
			checkChunks(t, []*ledger.SnapshotChunk{ck}, live[i:i+1], "chunk")
			if i+1 < len(live) {
				nl := live[i+1].units[0].loc
				if abs(next, size) != abs(&nl, size) {
					t.Fatalf("after chunk %d the next location is %v, but chunk %d was written at %v", i, next, i+1, nl)
				}
			}
			j := rapid.IntRange(i, len(live)-1).Draw(t, "to")
			end := live[j].units[len(live[j].units)-1].loc
			rg, err := db.ReadRange(&first, &end)
			if err != nil {
				t.Fatalf("range %v..%v: %v", first, end, err)
			}
			checkChunks(t, rg, live[i:j+1], "range")
		}
		checkAllUnits := func(t *rapid.T) {
			if len(live) == 0 {
				return
			}
			cur := &live[0].units[0].loc
			for ci, ck := range live {
				for ui, u := range ck.units {
					sb, ab, next, err := db.ReadUnit(cur)
					if err != nil || (sb != nil) != u.snap || (ab != nil) == u.snap {
						t.Fatalf("unit %d of chunk %d at %v: snapshot %v account %v, %v", ui, ci, cur, sb != nil, ab != nil, err)
					}
					if !bytes.Equal(serialized(t, sb, ab), u.raw) {
						t.Fatalf("unit %d of chunk %d at %v differs", ui, ci, cur)
					}
					cur = next
				}
			}
			if sb, ab, _, _ := db.ReadUnit(cur); sb != nil || ab != nil {
				t.Fatalf("a block follows the last one written")
			}
			first := live[0].units[0].loc
			rg, err := db.ReadRange(&first, nil)
			if err != nil {
				t.Fatalf("full range: %v", err)
			}
			checkChunks(t, rg, live, "full range")
		}
		flush := func(t *rapid.T) {
			db.Prepare()
			atPrepare := clone(live)
			if _, err := db.RedoLog(); err != nil {
				t.Fatalf("redo log: %v", err)
			}
			flushed = true
			for i := rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "mid"); i > 0; i-- {
				midOps++
				switch rapid.IntRange(0, 2).Draw(t, "midOp") {
				case 0, 1:
					write(t)
				case 2:
					rollback(t)
				}
			}
			if rapid.IntRange(0, 9).Draw(t, "cancel") == 7 {
				db.CancelPrepare()
				flushed = false
				return
			}
			var err error
			if p := vlib.Catch(func() { err = db.Commit() }); p != nil || err != nil {
				t.Fatalf("commit: %v, panic %v", err, p)
			}
			db.AfterCommit()
			durable = atPrepare
		}
		t.Repeat(map[string]func(*rapid.T){
			"write":    write,
			"write2":   write,
			"flush":    flush,
			"rollback": rollback,
			"read":     check,
			"reopen": func(t *rapid.T) {
				if rapid.Bool().Draw(t, "flushFirst") {
					flush(t)
				}
				if err := db.Close(); err != nil {
					t.Fatalf("close: %v", err)
				}
				if db, err = chain_block.NewBlockDBFixedSize(dir, size); err != nil {
					t.Fatalf("reopen: %v", err)
				}
				live = clone(durable)
				flushed = true
				reopens++
				checkAllUnits(t)
			},
		})
		checkAllUnits(t)
		db.Prepare()
		if err := db.Commit(); err != nil {
			t.Fatalf("commit: %v", err)
		}
		db.AfterCommit()
		if err := db.Close(); err != nil {
			t.Fatalf("close: %v", err)
		}
		if db, err = chain_block.NewBlockDBFixedSize(dir, size); err != nil {
			t.Fatalf("reopen: %v", err)
		}
		checkAllUnits(t)
		_ = flushed
		if maxFile >= 3 && rollbacks+reopens > 0 {
			c.NonTrivial(serial, maxFile, rollbacks, reopens, size)
			c.Sample("file size %d: %d blocks over %d files, %d rollbacks, %d reopenings, %d operations inside a flush, %d chunks left", size, serial, maxFile, rollbacks, reopens, midOps, len(live))
		}
		if midOps > 0 {
			c.Label("operations inside a flush")
		}
	})
}

// ---- file manager ----

type collector struct {
	buf []byte
	err error
}

func (w *collector) Write(b []byte) error { w.buf = append(w.buf, b...); return nil }
func (w *collector) WriteError(err error) { w.err = err }
func (w *collector) Close() error         { return nil }

func TestFiles(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "histories of appends, truncations, flushes and reopenings over the file manager with very small files and caches, against one byte string; non-trivial when the string covered at least three files and was truncated or reopened",
		Quick: 1000, Thorough: 10000, Steps: 30,
	}, func(t *rapid.T, c *vlib.C) {
		dir := filepath.Join(vlib.TempDir(t), "f")
		size := int64(rapid.IntRange(1, 40).Draw(t, "fileSize"))
		cache := rapid.IntRange(1, 5).Draw(t, "cache")
		m, err := fm.NewFileManager(dir, size, cache)
		if err != nil {
			t.Fatalf("open: %v", err)
		}
		defer func() { m.Close() }()
		var live, durable []byte
		// units are length-prefixed records at known offsets
		var units []int
		var dunits []int
		serial, cuts, reopens, maxLen := 0, 0, 0, 0
		at := func(off int) *fm.Location {
			return fm.NewLocation(uint64(int64(off)/size)+1, int64(off)%size)
		}
		offset := func(l *fm.Location) int { return int(int64(l.FileId-1)*size + l.Offset) }
		write := func(t *rapid.T) {
			n := rapid.IntRange(0, int(size)*3).Draw(t, "n")
			serial++
			rec := make([]byte, 4, 4+n)
			binary.BigEndian.PutUint32(rec, uint32(n))
			rec = append(rec, filler(serial, n, false)...)
			loc, err := m.Write(rec)
			if err != nil {
				t.Fatalf("write: %v", err)
			}
			if offset(loc) != len(live) {
				t.Fatalf("record written at offset %d is located at %v", len(live), loc)
			}
			units = append(units, len(live))
			live = append(live[:len(live):len(live)], rec...)
			if len(live) > maxLen {
				maxLen = len(live)
			}
		}
		truncate := func(t *rapid.T) {
			if len(units) == 0 {
				return
			}
			i := rapid.IntRange(0, len(units)-1).Draw(t, "to")
			cut := units[i]
			var err error
			if p := vlib.Catch(func() { err = m.DeleteTo(at(cut)) }); p != nil || err != nil {
				t.Fatalf("delete to %v of %d bytes (files of %d): %v, panic %v", at(cut), len(live), size, err, p)
			}
			live, units = live[:cut:cut], units[:i:i]
			cuts++
		}
		read := func(t *rapid.T) {
			if len(units) > 0 {
				off := rapid.SampledFrom(units).Draw(t, "unit")
				n := int(binary.BigEndian.Uint32(live[off:]))
				b, next, err := m.Read(at(off))
				if err != nil || !bytes.Equal(b, live[off+4:off+4+n]) || offset(next) != off+4+n {
					t.Fatalf("record at %d: %x next %v, %v; want %x", off, b, next, err, live[off+4:off+4+n])
				}
				nl, err := m.GetNextLocation(at(off))
				if err != nil || offset(nl) != off+4+n {
					t.Fatalf("next location of %d: %v, %v", off, nl, err)
				}
			}
			a := rapid.IntRange(0, len(live)).Draw(t, "from")
			b := rapid.IntRange(a, len(live)+3).Draw(t, "to")
			buf := make([]byte, b-a)
			_, n, err := m.ReadRaw(at(a), buf)
			want := live[a:]
			if len(want) > b-a {
				want = want[:b-a]
			}
			if n != len(want) || !bytes.Equal(buf[:n], want) || (err == nil) != (n == len(buf)) {
				t.Fatalf("ReadRaw %d..%d of %d: %d bytes %x, %v; want %x", a, b, len(live), n, buf[:n], err, want)
			}
			if b <= len(live) {
				w := &collector{}
				m.ReadRange(at(a), at(b), w)
				if b == len(live) {
					w = &collector{}
					m.ReadRange(at(a), nil, w)
				}
				if len(want) > 0 && (w.err != nil || !bytes.Equal(w.buf, want)) {
					t.Fatalf("ReadRange %d..%d of %d: %x, %v; want %x", a, b, len(live), w.buf, w.err, want)
				}
			}
		}
		flush := func(t *rapid.T) {
			start, target := m.NextFlushStartLocation(), m.LatestLocation()
			w := &collector{}
			m.ReadRange(start, target, w)
			if w.err != nil {
				t.Fatalf("flush range %v..%v: %v", start, target, w.err)
			}
			m.SetNextFlushStartLocation(target)
			snap, su := live, units
			for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(t, "mid"); i > 0; i-- {
				if rapid.IntRange(0, 2).Draw(t, "midOp") > 0 {
					write(t)
				} else {
					truncate(t)
				}
			}
			var err error
			if p := vlib.Catch(func() { err = m.Flush(start, target, w.buf) }); p != nil || err != nil {
				t.Fatalf("flush %v..%v: %v, panic %v", start, target, err, p)
			}
			durable, dunits = snap, su
		}
		t.Repeat(map[string]func(*rapid.T){
			"write":    write,
			"write2":   write,
			"truncate": truncate,
			"flush":    flush,
			"read":     read,
			"reopen": func(t *rapid.T) {
				m.Close()
				if m, err = fm.NewFileManager(dir, size, cache); err != nil {
					t.Fatalf("reopen: %v", err)
				}
				live, units = durable, dunits
				reopens++
				read(t)
			},
			"": func(t *rapid.T) {
				if offset(m.LatestLocation()) != len(live) {
					t.Fatalf("latest location %v after %d bytes in files of %d", m.LatestLocation(), len(live), size)
				}
			},
		})
		buf := make([]byte, len(live))
		if _, n, err := m.ReadRaw(at(0), buf); err != nil && len(buf) > 0 || n != len(buf) || !bytes.Equal(buf, live) {
			t.Fatalf("reading everything: %d of %d, %v", n, len(buf), err)
		}
		if int64(maxLen) > 2*size && cuts+reopens > 0 {
			c.NonTrivial(serial, size, cache, cuts, reopens, maxLen)
			c.Sample("file size %d, cache %d: %d records, %d bytes at most, %d truncations, %d reopenings", size, cache, serial, maxLen, cuts, reopens)
		}
	})
}

// ---- damage ----

func TestDamage(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "a flushed block log with one to three damages (bytes changed, a file cut, bytes zeroed), reopened and read by unit, chunk and range: no crash, and every block returned with a valid hash is one that was written; non-trivial when the damage fell inside the written bytes",
		Quick: 1500, Thorough: 10000,
	}, func(t *rapid.T, c *vlib.C) {
		dir := vlib.TempDir(t)
		size := int64(rapid.IntRange(900, 2500).Draw(t, "fileSize"))
		db, err := chain_block.NewBlockDBFixedSize(dir, size)
		if err != nil {
			t.Fatalf("open: %v", err)
		}
		known := map[types.Hash]bool{}
		var locs []fm.Location
		serial := 0
		for i := rapid.IntRange(1, 6).Draw(t, "chunks"); i > 0; i-- {
			sc := &ledger.SnapshotChunk{}
			for j := rapid.IntRange(0, 4).Draw(t, "blocks"); j > 0; j-- {
				serial++
				ab := accountBlock(serial, rapid.IntRange(0, 200).Draw(t, "data"), rapid.Bool().Draw(t, "comp"))
				sc.AccountBlocks = append(sc.AccountBlocks, ab)
				known[ab.Hash] = true
			}
			serial++
			sc.SnapshotBlock = snapshotBlock(serial, 2)
			known[sc.SnapshotBlock.Hash] = true
			ls, sl, err := db.Write(sc)
			if err != nil {
				t.Fatalf("write: %v", err)
			}
			for _, ab := range sc.AccountBlocks {
				locs = append(locs, *ls[ab.Hash])
			}
			locs = append(locs, *sl)
		}
		db.Prepare()
		if err := db.Commit(); err != nil {
			t.Fatalf("commit: %v", err)
		}
		db.AfterCommit()
		db.Close()
		// a range read that fails leaves its reader behind: the reopened log is
		// not closed again

		files, _ := filepath.Glob(filepath.Join(dir, "blocks", "f*"))
		sort.Strings(files)
		var what []string
		for i := rapid.IntRange(1, 3).Draw(t, "damages"); i > 0; i-- {
			f := rapid.SampledFrom(files).Draw(t, "file")
			b, err := os.ReadFile(f)
			if err != nil || len(b) == 0 {
				return
			}
			at := rapid.IntRange(0, len(b)-1).Draw(t, "at")
			// often hit a record header
			if rapid.Bool().Draw(t, "header") {
				l := rapid.SampledFrom(locs).Draw(t, "loc")
				if filepath.Base(f) == "f"+strconv.FormatUint(l.FileId, 10) && l.Offset < int64(len(b)) {
					at = int(l.Offset) + rapid.IntRange(0, 9).Draw(t, "in")
					if at >= len(b) {
						at = len(b) - 1
					}
				}
			}
			switch rapid.IntRange(0, 4).Draw(t, "kind") % 4 {
			case 0:
				b[at] ^= byte(1 << rapid.IntRange(0, 7).Draw(t, "bit"))
			case 1:
				b[at] = rapid.Byte().Draw(t, "byte")
			case 2:
				for j := at; j < len(b) && j < at+rapid.SampledFrom([]int{4, 16, 600}).Draw(t, "zero"); j++ {
					b[j] = 0
				}
			case 3:
				b = b[:at]
			}
			if rapid.IntRange(0, 15).Draw(t, "remove") == 9 {
				what = append(what, filepath.Base(f)+" removed")
				os.Remove(f)
				break
			}
			what = append(what, fmt.Sprintf("%s@%d", filepath.Base(f), at))
			if err := os.WriteFile(f, b, 0644); err != nil {
				t.Fatalf("%v", err)
			}
		}
		// a damaged length can ask for gigabytes; such cases are left out
		var all []byte
		for i := 1; ; i++ {
			b, err := os.ReadFile(filepath.Join(dir, "blocks", "f"+strconv.Itoa(i)))
			if err != nil {
				break
			}
			all = append(all, b...)
			if int64(len(b)) < size {
				all = append(all, make([]byte, size-int64(len(b)))...)
			}
		}
		for i := range locs {
			off := int64(locs[i].FileId-1)*size + locs[i].Offset
			for off+5 <= int64(len(all)) {
				n := int64(binary.BigEndian.Uint32(all[off:]))
				if n == 0 || n > 1<<24 { // the reader subtracts one
					c.Label("huge length")
					return
				}
				if dl, err := snappy.DecodedLen(all[off+5:]); err == nil && dl > 1<<24 {
					c.Label("huge length")
					return
				}
				off += 4 + n
			}
		}
		vetS := func(b *ledger.SnapshotBlock) {
			if b != nil && b.Timestamp != nil && b.Hash == b.ComputeHash() && !known[b.Hash] {
				t.Fatalf("damage %v produced a different valid snapshot block", what)
			}
		}
		vetA := func(b *ledger.AccountBlock) {
			if b != nil && b.Hash == b.ComputeHash() && !known[b.Hash] {
				t.Fatalf("damage %v produced a different valid account block", what)
			}
		}
		var vet []func()
		if p := vlib.Catch(func() {
			var err error
			if db, err = chain_block.NewBlockDBFixedSize(dir, size); err != nil {
				return
			}
			for i := range locs {
				if sb, ab, _, err := db.ReadUnit(&locs[i]); err == nil {
					vet = append(vet, func() { vetS(sb); vetA(ab) })
				}
				if ck, _, err := db.ReadChunk(locs[i]); err == nil {
					vet = append(vet, func() {
						vetS(ck.SnapshotBlock)
						for _, ab := range ck.AccountBlocks {
							vetA(ab)
						}
					})
				}
				db.GetNextLocation(&locs[i])
				if sb, err := db.GetSnapshotBlock(&locs[i]); err == nil {
					vet = append(vet, func() { vetS(sb) })
				}
				if ab, err := db.GetAccountBlock(&locs[i]); err == nil {
					vet = append(vet, func() { vetA(ab) })
				}
			}
			cks, err := db.ReadRange(&locs[0], nil)
			if err == nil {
				for _, ck := range cks {
					ck := ck
					vet = append(vet, func() {
						vetS(ck.SnapshotBlock)
						for _, ab := range ck.AccountBlocks {
							vetA(ab)
						}
					})
				}
			}
			db.PrepareRollback(&locs[len(locs)/2])
		}); p != nil {
			t.Fatalf("reading after damage %v panics: %v", what, p)
		}
		for _, f := range vet {
			f()
		}
		c.NonTrivial(what, serial, size)
		c.Sample("%d blocks in %d files, damage at %v, %d units still returned", serial, len(files), what, len(vet))
	})
}
