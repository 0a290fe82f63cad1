// Package fullchain drives the real ledger (ledger/chain on disk) with synthetic but well-formed blocks and keeps an
// independent record of the history, from which every answer of the chain can be recomputed by replay.
package fullchain

import (
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"reflect"
	"time"
	"unsafe"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	chain_genesis "github.com/vitelabs/go-vite/v2/ledger/chain/genesis"
	cscore "github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm_db"

	"verif/memchain"
)

// Blk is an account block together with the state changes it carries.
type Blk struct {
	B    *core.AccountBlock
	Enc  []byte
	Bal  map[types.TokenTypeId]*big.Int
	KV   map[string][]byte // empty value: deleted
	Code []byte
	Meta map[types.Address]*core.ContractMeta
	Logs core.VmLogList
}

// Chunk is a snapshot block with the account blocks it confirms, in the order they were inserted.
type Chunk struct {
	SB   *core.SnapshotBlock
	Enc  []byte
	Blks []*Blk
}

// World is the chain under test and the record of what it should hold.
type World struct {
	C     chain.Chain
	Dir   string
	root  string
	n     int
	cfg   *config.Genesis
	Ccfg  *config.Chain
	Level uint32

	Chunks []*Chunk
	Un     []*Blk
	// what the disk holds: the chunks present at the last flush
	Flushed []*Chunk

	Users     []types.Address
	Contracts []types.Address // addresses contracts may be created at
	Tokens    []types.TokenTypeId
	Producers []ed25519.PublicKey

	// everything ever inserted, deleted or not
	AllBlks []*Blk
	AllSbs  []*Chunk

	Bad map[types.Hash]bool // unconfirmed contract blocks the producer check rejects

	Events *recorder
	Salt   uint64
	tap    *tap
}

type verifier struct{ w *World }

func (v *verifier) VerifyABsProducer(abs map[types.Gid][]*core.AccountBlock) ([]*core.AccountBlock, error) {
	var bad []*core.AccountBlock
	for _, l := range abs {
		for _, b := range l {
			if v.w.Bad[b.Hash] {
				bad = append(bad, b)
			}
		}
	}
	return bad, nil
}
func (v *verifier) VerifySnapshotProducer(*core.SnapshotBlock) (bool, error) { return true, nil }
func (v *verifier) VerifyAccountProducer(*core.AccountBlock) (bool, error)   { return true, nil }

// Gid is the consensus group of a created contract.
func Gid(i int) types.Gid {
	if i == 0 {
		return types.DELEGATE_GID
	}
	var g types.Gid
	g[0], g[9] = 0x55, byte(i)
	return g
}

// New makes a ledger in a fresh directory below root.
func New(root string, plugins bool) (*World, error) {
	memchain.Init()
	w := &World{root: root, Bad: map[types.Hash]bool{}, Events: &recorder{}}
	for i := 0; i < 4; i++ {
		w.Users = append(w.Users, memchain.User(i))
	}
	for i := 0; i < 4; i++ {
		var a types.Address
		a[0], a[5], a[20] = 0x20, byte(i+1), 1
		w.Contracts = append(w.Contracts, a)
	}
	w.Tokens = []types.TokenTypeId{memchain.Vite, memchain.Token(0), memchain.Token(1)}
	for i := 0; i < 3; i++ {
		p := make([]byte, ed25519.PublicKeySize)
		p[0] = byte(i + 1)
		w.Producers = append(w.Producers, p)
	}
	w.cfg = memchain.Genesis(memchain.GenesisOpt{Users: 4, Tokens: 2, Stake: memchain.Attov(100000000), Sbps: 3})
	for _, a := range append([]types.Address{memUser9}, w.Contracts...) {
		w.cfg.QuotaInfo.StakeBeneficialMap[a.String()] = memchain.Attov(100000000)
	}
	w.Ccfg = &config.Chain{VmLogAll: true, OpenPlugins: plugins}
	gbs := chain_genesis.NewGenesisAccountBlocks(w.cfg)
	gsb := chain_genesis.NewGenesisSnapshotBlock(gbs)
	ck := &Chunk{SB: gsb}
	ck.Enc, _ = gsb.Serialize()
	for _, vb := range gbs {
		b := &Blk{B: vb.AccountBlock, Bal: map[types.TokenTypeId]*big.Int{}, KV: map[string][]byte{}, Meta: map[types.Address]*core.ContractMeta{}}
		b.Enc, _ = vb.AccountBlock.Serialize()
		for t, v := range vb.VmDb.GetUnsavedBalanceMap() {
			b.Bal[t] = new(big.Int).Set(v)
		}
		for _, kv := range vb.VmDb.GetUnsavedStorage() {
			b.KV[string(kv[0])] = append([]byte{}, kv[1]...)
		}
		for a, m := range vb.VmDb.GetUnsavedContractMeta() {
			mm := *m
			b.Meta[a] = &mm
		}
		b.Code = vb.VmDb.GetUnsavedContractCode()
		b.Logs = vb.VmDb.GetLogList()
		ck.Blks = append(ck.Blks, b)
		w.AllBlks = append(w.AllBlks, b)
	}
	w.Chunks = []*Chunk{ck}
	w.AllSbs = []*Chunk{ck}
	w.Dir = w.next()
	if err := w.open(); err != nil {
		return nil, err
	}
	w.C.Flusher().Flush()
	w.Flushed = append([]*Chunk{}, w.Chunks...)
	return w, nil
}

func (w *World) next() string {
	w.n++
	return filepath.Join(w.root, fmt.Sprintf("d%d", w.n))
}

func (w *World) open() error {
	c := chain.NewChain(w.Dir, w.Ccfg, w.cfg)
	if err := c.Init(); err != nil {
		return err
	}
	g := w.Chunks[0].SB.Timestamp
	c.SetConsensus(&verifier{w}, cscore.NewTimeIndex(time.Unix(g.Unix(), 0), 75*time.Second))
	w.C = c
	w.Events = &recorder{base: w.present()}
	c.Register(w.Events)
	c.SetCacheLevelForConsensus(w.Level)
	return nil
}

// OpenCopy opens another chain on a directory (which it owns from then on).
func (w *World) OpenCopy(dir string) error {
	w.Dir = dir
	return w.open()
}

// Close shuts the chain down.
func (w *World) Close() {
	if w.C != nil {
		destroy(w.C)
		w.C = nil
	}
}

// destroy shuts a chain down, with the database and the file Destroy leaves open, so that thousands of restarts fit in one process.
func destroy(c chain.Chain) { Destroy(c) }

// Destroy shuts a chain down completely.
func Destroy(c chain.Chain) {
	f := c.Flusher()
	c.Destroy()
	if f != nil {
		f.Close()
	}
	if v := reflect.ValueOf(c); v.Kind() == reflect.Ptr && v.Elem().Kind() == reflect.Struct {
		if f := v.Elem().FieldByName("metaDB"); f.IsValid() && f.CanAddr() {
			if db, ok := reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(io.Closer); ok && db != nil && !reflect.ValueOf(db).IsNil() {
				db.Close()
			}
		}
	}
}

// Latest snapshot.
func (w *World) Latest() *Chunk { return w.Chunks[len(w.Chunks)-1] }

// Flush writes everything confirmed to disk.
func (w *World) Flush() {
	w.C.Flusher().Flush()
	w.Flushed = append([]*Chunk{}, w.Chunks...)
}

// Reopen closes the chain and opens it again on a copy of its directory: what was not flushed is gone.
func (w *World) Reopen() error {
	destroy(w.C)
	w.C = nil
	to := w.next()
	if err := CopyDir(w.Dir, to); err != nil {
		return err
	}
	os.RemoveAll(w.Dir)
	w.Dir = to
	w.Un = nil
	w.Chunks = append([]*Chunk{}, w.Flushed...)
	return w.open()
}

// CopyDir copies a directory tree.
func CopyDir(from, to string) error {
	return filepath.Walk(from, func(p string, i os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(from, p)
		dst := filepath.Join(to, rel)
		if i.IsDir() {
			return os.MkdirAll(dst, 0o755)
		}
		if i.Name() == "LOCK" {
			return nil
		}
		in, err := os.Open(p)
		if err != nil {
			return err
		}
		defer in.Close()
		out, err := os.Create(dst)
		if err != nil {
			return err
		}
		if _, err = io.Copy(out, in); err != nil {
			out.Close()
			return err
		}
		return out.Close()
	})
}

// insert puts a block into the chain and into the record.
func (w *World) insert(b *Blk) error {
	sb := w.Latest().SB.Hash
	prev := b.B.PrevHash
	addr := b.B.AccountAddress
	db, err := vm_db.NewVmDb(w.C, &addr, &sb, &prev)
	if err != nil {
		return fmt.Errorf("NewVmDb: %v", err)
	}
	for t, v := range b.Bal {
		t := t
		db.SetBalance(&t, new(big.Int).Set(v))
	}
	for k, v := range b.KV {
		if err := db.SetValue([]byte(k), append([]byte{}, v...)); err != nil {
			return err
		}
	}
	if b.Code != nil {
		db.SetContractCode(append([]byte{}, b.Code...))
	}
	for a, m := range b.Meta {
		mm := *m
		db.SetContractMeta(a, &mm)
	}
	for _, l := range b.Logs {
		ll := *l
		db.AddLog(&ll)
	}
	db.Finish()
	blk := &core.AccountBlock{}
	if err := blk.Deserialize(b.Enc); err != nil {
		return err
	}
	if err := w.C.InsertAccountBlock(&interfaces.VmAccountBlock{AccountBlock: blk, VmDb: db}); err != nil {
		return err
	}
	w.Un = append(w.Un, b)
	return nil
}

// finish computes the hashes of a new block.
func (w *World) finish(b *Blk) {
	x := b.B
	if len(b.Logs) > 0 {
		h := b.Logs.Hash(w.Latest().SB.Height, x.AccountAddress, x.PrevHash)
		x.LogHash = h
	}
	for i, s := range x.SendBlockList {
		s.Hash = s.ComputeSendHash(x, uint8(i))
	}
	x.Hash = x.ComputeHash()
	for a := range b.Meta {
		b.Meta[a].CreateBlockHash = x.Hash
	}
	b.Enc, _ = x.Serialize()
	w.AllBlks = append(w.AllBlks, b)
}

// depth-closed helpers -----------------------------------------------------

func produced(b *Blk) []types.Hash {
	var l []types.Hash
	if b.B.IsSendBlock() {
		l = append(l, b.B.Hash)
	}
	for _, s := range b.B.SendBlockList {
		l = append(l, s.Hash)
	}
	return l
}

// dependents marks, in insertion order, every unconfirmed block that rests on a marked one.
func dependents(un []*Blk, bad func(b *Blk) bool) map[*Blk]bool {
	addr, hash := map[types.Address]bool{}, map[types.Hash]bool{}
	out := map[*Blk]bool{}
	for _, b := range un {
		if addr[b.B.AccountAddress] || (b.B.IsReceiveBlock() && hash[b.B.FromBlockHash]) || bad(b) {
			out[b] = true
			addr[b.B.AccountAddress] = true
			for _, h := range produced(b) {
				hash[h] = true
			}
		}
	}
	return out
}

// ProducerAt is the producer a time belongs to (a snapshot's hash covers its time and not its producer).
func (w *World) ProducerAt(ts int64) int { return int(ts*2654435761>>8&0xff) % len(w.Producers) }

// Snapshot confirms the unconfirmed blocks chosen by pick (closed under what they rest on) and returns the record of it.
func (w *World) Snapshot(pick map[*Blk]bool, dt int64, seed uint64, seedHash *types.Hash) error {
	prev := w.Latest().SB
	ts := time.Unix(prev.Timestamp.Unix()+dt, 0)
	sb := &core.SnapshotBlock{PrevHash: prev.Hash, Height: prev.Height + 1, Timestamp: &ts, Seed: seed, SeedHash: seedHash,
		Version: 11}
	ck := &Chunk{SB: sb}
	var rest []*Blk
	for _, b := range w.Un {
		if pick[b] {
			ck.Blks = append(ck.Blks, b)
		} else {
			rest = append(rest, b)
		}
	}
	if len(ck.Blks) > 0 {
		sb.SnapshotContent = core.SnapshotContent{}
		for _, b := range ck.Blks {
			sb.SnapshotContent[b.B.AccountAddress] = &core.HashHeight{Hash: b.B.Hash, Height: b.B.Height}
		}
	}
	sb.Hash = sb.ComputeHash()
	sb.PublicKey = w.Producers[w.ProducerAt(ts.Unix())]
	sb.Signature = append([]byte{1}, sb.Hash[:4]...)
	ck.Enc, _ = sb.Serialize()
	return w.InsertSnapshot(ck, rest)
}

// InsertSnapshot inserts a prepared snapshot; rest is what stays unconfirmed before the chain's own filtering.
func (w *World) InsertSnapshot(ck *Chunk, rest []*Blk) error {
	in := &core.SnapshotBlock{}
	if err := in.Deserialize(ck.Enc); err != nil {
		return err
	}
	removed, err := w.C.InsertSnapshotBlock(in)
	if err != nil {
		return fmt.Errorf("InsertSnapshotBlock: %v", err)
	}
	w.Chunks = append(w.Chunks, ck)
	w.AllSbs = append(w.AllSbs, ck)
	drop := dependents(rest, func(b *Blk) bool {
		return b.B.BlockType == core.BlockTypeReceiveError || w.Bad[b.B.Hash]
	})
	if upgrade.IsUpgradePoint(ck.SB.Height) {
		for _, b := range rest {
			drop[b] = true
		}
	}
	var want []types.Hash
	w.Un = nil
	for _, b := range rest {
		if drop[b] {
			want = append(want, b.B.Hash)
		} else {
			w.Un = append(w.Un, b)
		}
	}
	if len(want) != len(removed) {
		return fmt.Errorf("InsertSnapshotBlock dropped %d unconfirmed blocks, %d expected", len(removed), len(want))
	}
	for i := range want {
		if removed[i].Hash != want[i] {
			return fmt.Errorf("InsertSnapshotBlock dropped %s at %d, expected %s", removed[i].Hash, i, want[i])
		}
	}
	return nil
}

// RedoKept is the number of snapshots whose redo logs are certainly kept.
const RedoKept = 1200

// Rollback deletes the snapshots from height on.
func (w *World) Rollback(height uint64, byHash bool) error {
	gone := append([]*Chunk{}, w.Chunks[height-1:]...)
	oldUn := w.Un
	var got []*core.SnapshotChunk
	var err error
	if byHash {
		got, err = w.C.DeleteSnapshotBlocks(gone[0].SB.Hash)
	} else {
		got, err = w.C.DeleteSnapshotBlocksToHeight(height)
	}
	if err != nil {
		return fmt.Errorf("DeleteSnapshotBlocks: %v", err)
	}
	w.Chunks = w.Chunks[:height-1]
	w.Un = append([]*Blk{}, gone[0].Blks...)
	w.Flushed = append([]*Chunk{}, w.Chunks...)
	// the returned chunks: the snapshots, with the blocks that are really gone
	// further back than the redo logs reach, the blocks of the lowest snapshot go too
	whole := false
	if len(gone) >= RedoKept && len(gone[0].Blks) > 0 && len(got) > 0 && len(got[0].AccountBlocks) > 0 {
		whole = true
		w.Un = nil
	}
	var want []types.Hash
	for i, c := range gone {
		want = append(want, c.SB.Hash)
		if i > 0 || whole {
			for _, b := range c.Blks {
				want = append(want, b.B.Hash)
			}
		}
	}
	n := len(want)
	for _, b := range oldUn {
		want = append(want, b.B.Hash)
	}
	_ = n
	have := map[types.Hash]int{}
	for _, c := range got {
		if c.SnapshotBlock != nil {
			have[c.SnapshotBlock.Hash]++
		}
		for _, b := range c.AccountBlocks {
			have[b.Hash]++
		}
	}
	for _, h := range want {
		if have[h] != 1 {
			return fmt.Errorf("rollback to %d: block %s is gone but the result names it %d times", height, h, have[h])
		}
		delete(have, h)
	}
	for h := range have {
		return fmt.Errorf("rollback to %d: result names %s, which is not deleted", height, h)
	}
	return nil
}

// Refuse asks for a deletion that must be refused: of what is not there, of the genesis or of confirmed blocks.
func (w *World) Refuse(kind int, b *Blk) error {
	var err error
	switch kind {
	case 0:
		_, err = w.C.DeleteSnapshotBlocks(types.Hash{1, 2, 3})
	case 1:
		_, err = w.C.DeleteSnapshotBlocks(w.Chunks[0].SB.Hash)
	case 2:
		_, err = w.C.DeleteSnapshotBlocksToHeight(w.Latest().SB.Height + 1)
	case 3:
		_, err = w.C.DeleteSnapshotBlocksToHeight(1)
	case 4:
		_, err = w.C.DeleteSnapshotBlocksToHeight(0)
	default:
		for _, x := range w.Un {
			if x == b {
				return nil
			}
		}
		if kind == 5 {
			_, err = w.C.DeleteAccountBlocks(b.B.AccountAddress, b.B.Hash)
		} else {
			for _, x := range w.Un {
				if x.B.AccountAddress == b.B.AccountAddress && x.B.Height == b.B.Height {
					return nil
				}
			}
			_, err = w.C.DeleteAccountBlocksToHeight(b.B.AccountAddress, b.B.Height)
		}
	}
	if err == nil {
		return fmt.Errorf("deletion %d of what cannot be deleted reports success", kind)
	}
	return nil
}

// DeleteBlocks deletes an unconfirmed block and what rests on it.
func (w *World) DeleteBlocks(b *Blk, byHash bool) error {
	gone := dependents(w.Un, func(x *Blk) bool { return x == b })
	var got []*core.AccountBlock
	var err error
	if byHash {
		got, err = w.C.DeleteAccountBlocks(b.B.AccountAddress, b.B.Hash)
	} else {
		got, err = w.C.DeleteAccountBlocksToHeight(b.B.AccountAddress, b.B.Height)
	}
	if err != nil {
		return fmt.Errorf("DeleteAccountBlocks: %v", err)
	}
	var rest []*Blk
	have := map[types.Hash]bool{}
	for _, x := range got {
		have[x.Hash] = true
	}
	for _, x := range w.Un {
		if gone[x] != have[x.B.Hash] {
			return fmt.Errorf("delete of %s: block %s rests on it: %v, deleted: %v", b.B.Hash, x.B.Hash, gone[x], have[x.B.Hash])
		}
		if !gone[x] {
			rest = append(rest, x)
		}
	}
	if len(got) != len(gone) {
		return fmt.Errorf("delete of %s returned %d blocks, expected %d", b.B.Hash, len(got), len(gone))
	}
	w.Un = rest
	return nil
}

// recorder keeps the notifications of the chain.
type event struct {
	insert bool
	hash   types.Hash
}

type recorder struct {
	base           map[types.Hash]bool
	prepared, done []event
}

func (r *recorder) abs(l *[]event, ins bool, bs []*core.AccountBlock) error {
	for _, b := range bs {
		*l = append(*l, event{ins, b.Hash})
	}
	return nil
}
func vms(bs []*interfaces.VmAccountBlock) []*core.AccountBlock {
	var l []*core.AccountBlock
	for _, b := range bs {
		l = append(l, b.AccountBlock)
	}
	return l
}
func (r *recorder) sbs(l *[]event, ins bool, cs []*core.SnapshotChunk) error {
	for _, c := range cs {
		if c.SnapshotBlock != nil {
			*l = append(*l, event{ins, c.SnapshotBlock.Hash})
		}
		if !ins {
			r.abs(l, false, c.AccountBlocks)
		}
	}
	return nil
}
func (r *recorder) PrepareInsertAccountBlocks(bs []*interfaces.VmAccountBlock) error {
	return r.abs(&r.prepared, true, vms(bs))
}
func (r *recorder) InsertAccountBlocks(bs []*interfaces.VmAccountBlock) error {
	return r.abs(&r.done, true, vms(bs))
}
func (r *recorder) PrepareInsertSnapshotBlocks(cs []*core.SnapshotChunk) error {
	return r.sbs(&r.prepared, true, cs)
}
func (r *recorder) InsertSnapshotBlocks(cs []*core.SnapshotChunk) error {
	return r.sbs(&r.done, true, cs)
}
func (r *recorder) PrepareDeleteAccountBlocks(bs []*core.AccountBlock) error {
	return r.abs(&r.prepared, false, bs)
}
func (r *recorder) DeleteAccountBlocks(bs []*core.AccountBlock) error {
	return r.abs(&r.done, false, bs)
}
func (r *recorder) PrepareDeleteSnapshotBlocks(cs []*core.SnapshotChunk) error {
	return r.sbs(&r.prepared, false, cs)
}
func (r *recorder) DeleteSnapshotBlocks(cs []*core.SnapshotChunk) error {
	return r.sbs(&r.done, false, cs)
}
