package fullchain

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/helper"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
)

type failure struct{ error }

func fail(f string, a ...interface{}) { panic(failure{fmt.Errorf(f, a...)}) }

func caught(f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if x, ok := e.(failure); ok {
				err = x.error
				return
			}
			panic(e)
		}
	}()
	f()
	return nil
}

func must(err error, f string, a ...interface{}) {
	if err != nil {
		fail("%s: %v", fmt.Sprintf(f, a...), err)
	}
}

func abEnc(b *core.AccountBlock) []byte {
	if b == nil {
		return nil
	}
	e, _ := b.Serialize()
	return e
}

func (w *World) sameAb(what string, got *core.AccountBlock, want *core.AccountBlock) {
	if (got == nil) != (want == nil) {
		fail("%s: got %v, want %v", what, got, want)
	}
	if got == nil {
		return
	}
	if got.Hash != want.Hash || !bytes.Equal(abEnc(got), abEnc(want)) {
		fail("%s: got %+v, want %+v", what, got, want)
	}
}

func (w *World) sameAbs(what string, got []*core.AccountBlock, want []*core.AccountBlock) {
	if len(got) != len(want) {
		fail("%s: got %d blocks, want %d", what, len(got), len(want))
	}
	for i := range got {
		w.sameAb(fmt.Sprintf("%s[%d]", what, i), got[i], want[i])
	}
}

func sameSb(what string, got *core.SnapshotBlock, want *Chunk, header bool) {
	if (got == nil) != (want == nil) {
		fail("%s: got %v, want %v", what, got, want)
	}
	if got == nil {
		return
	}
	if got.Hash != want.SB.Hash || got.Height != want.SB.Height || got.PrevHash != want.SB.PrevHash || got.Seed != want.SB.Seed || !got.Timestamp.Equal(*want.SB.Timestamp) {
		fail("%s: got %+v, want %+v", what, got, want.SB)
	}
	if !header {
		e, _ := got.Serialize()
		if !bytes.Equal(e, want.Enc) {
			fail("%s: got content of %+v, want %+v", what, got, want.SB)
		}
	}
}

func sameSbs(what string, got []*core.SnapshotBlock, want []*Chunk, header bool) {
	if len(got) != len(want) {
		fail("%s: got %d snapshots, want %d", what, len(got), len(want))
	}
	for i := range got {
		sameSb(fmt.Sprintf("%s[%d]", what, i), got[i], want[i], header)
	}
}

func rev(l []*Chunk) []*Chunk {
	o := make([]*Chunk, len(l))
	for i := range l {
		o[len(l)-1-i] = l[i]
	}
	return o
}

// Addrs lists every account the history may touch.
func (w *World) Addrs() []types.Address {
	l := append([]types.Address{}, w.Users...)
	l = append(l, w.Contracts...)
	return append(l, memUser9, types.AddressAsset, types.AddressGovernance, types.AddressQuota, types.AddressDexFund, types.Address{0x10, 7})
}

// Compare checks everything the chain answers against the replay of the record.
func (w *World) Compare() error {
	return caught(func() {
		v := w.Now()
		w.cmpHashes(v, w.AllBlks)
		w.cmpAccounts(v)
		w.cmpSnapshots()
		w.cmpUnconfirmed()
		w.cmpState(v)
		w.cmpHistory()
		w.cmpContracts(v)
		w.cmpOnRoad(v)
		w.cmpQuota()
		w.cmpSeeds(v)
		w.cmpRounds()
		w.cmpLedger()
		w.cmpEvents()
	})
}

// CompareRounds checks what the consensus reads.
func (w *World) CompareRounds() error {
	return caught(func() { w.cmpRounds() })
}

// CompareLight checks what a single insertion changes.
func (w *World) CompareLight() error {
	return caught(func() {
		v := w.Now()
		n := len(w.AllBlks)
		if n > 3 {
			n = 3
		}
		w.cmpHashes(v, w.AllBlks[len(w.AllBlks)-n:])
		w.cmpUnconfirmed()
		w.cmpState(v)
		w.cmpContracts(v)
		w.cmpOnRoad(v)
		w.cmpQuota()
		w.cmpEvents()
	})
}

func decode(b *Blk) *core.AccountBlock {
	x := &core.AccountBlock{}
	if err := x.Deserialize(b.Enc); err != nil {
		panic(err)
	}
	return x
}

func (w *World) cmpHashes(v *View, blks []*Blk) {
	latest := w.Latest().SB.Height
	for _, b := range blks {
		whole := decode(b)
		hs := []types.Hash{b.B.Hash}
		for _, s := range b.B.SendBlockList {
			hs = append(hs, s.Hash)
		}
		for i, h := range hs {
			here := v.ByHash[h] == b
			what := fmt.Sprintf("block %s (%s height %d, item %d, present %v)", h, b.B.AccountAddress, b.B.Height, i, here)
			ok, err := w.C.IsAccountBlockExisted(h)
			must(err, "IsAccountBlockExisted %s", what)
			if ok != here {
				fail("IsAccountBlockExisted of %s: %v", what, ok)
			}
			got, err := w.C.GetAccountBlockByHash(h)
			must(err, "GetAccountBlockByHash %s", what)
			comp, err := w.C.GetCompleteBlockByHash(h)
			must(err, "GetCompleteBlockByHash %s", what)
			var want, wcomp *core.AccountBlock
			if here {
				want, wcomp = whole, whole
				if i > 0 {
					want = whole.SendBlockList[i-1]
				}
			}
			w.sameAb("GetAccountBlockByHash of "+what, got, want)
			w.sameAb("GetCompleteBlockByHash of "+what, comp, wcomp)
			conf := v.Conf[h]
			if !here {
				conf = 0
			}
			times, err := w.C.GetConfirmedTimes(h)
			must(err, "GetConfirmedTimes %s", what)
			wt := uint64(0)
			if conf > 0 {
				wt = latest + 1 - conf
			}
			if times != wt {
				fail("GetConfirmedTimes of %s: %d, want %d", what, times, wt)
			}
			var wsb *Chunk
			if conf > 0 {
				wsb = w.Chunks[conf-1]
			}
			sh, err := w.C.GetConfirmSnapshotHeaderByAbHash(h)
			must(err, "GetConfirmSnapshotHeaderByAbHash %s", what)
			sameSb("GetConfirmSnapshotHeaderByAbHash of "+what, sh, wsb, true)
			sb, err := w.C.GetConfirmSnapshotBlockByAbHash(h)
			must(err, "GetConfirmSnapshotBlockByAbHash %s", what)
			sameSb("GetConfirmSnapshotBlockByAbHash of "+what, sb, wsb, false)
			for n := uint64(1); n <= 3; n++ {
				seeds := uint64(0)
				if conf > 0 {
					for _, c := range w.Chunks[conf-1:] {
						if c.SB.Seed > 0 {
							seeds++
						}
					}
				}
				ok, err := w.C.IsSeedConfirmedNTimes(h, n)
				must(err, "IsSeedConfirmedNTimes %s", what)
				if ok != (seeds >= n) {
					fail("IsSeedConfirmedNTimes(%d) of %s: %v, %d seeds since", n, what, ok, seeds)
				}
			}
			if b.B.BlockType == core.BlockTypeGenesisReceive {
				continue
			}
			rb := v.Recv[h]
			rec, err := w.C.IsReceived(h)
			must(err, "IsReceived %s", what)
			if rec != (rb != nil) {
				fail("IsReceived of %s: %v", what, rec)
			}
			ra, err := w.C.GetReceiveAbBySendAb(h)
			must(err, "GetReceiveAbBySendAb %s", what)
			var wr *core.AccountBlock
			if rb != nil {
				wr = decode(rb)
			}
			w.sameAb("GetReceiveAbBySendAb of "+what, ra, wr)
			d, err := w.C.GetCallDepth(h)
			must(err, "GetCallDepth %s", what)
			wd := uint16(0)
			if here {
				wd = v.Depth[h]
			}
			if d != wd {
				fail("GetCallDepth of %s: %d, want %d", what, d, wd)
			}
		}
		if b.B.LogHash != nil {
			l, err := w.C.GetVmLogList(b.B.LogHash)
			must(err, "GetVmLogList")
			sameLogs(fmt.Sprintf("GetVmLogList of block %s", b.B.Hash), l, v.LogList[*b.B.LogHash])
		}
	}
}

func sameLogs(what string, got, want core.VmLogList) {
	if len(got) != len(want) {
		fail("%s: %d logs, want %d", what, len(got), len(want))
	}
	for i := range got {
		if !bytes.Equal(got[i].Data, want[i].Data) || len(got[i].Topics) != len(want[i].Topics) {
			fail("%s: log %d differs", what, i)
		}
		for j := range got[i].Topics {
			if got[i].Topics[j] != want[i].Topics[j] {
				fail("%s: log %d topic %d differs", what, i, j)
			}
		}
	}
}

func (w *World) cmpAccounts(v *View) {
	ids := map[types.Address]uint64{}
	used := map[uint64]bool{}
	w.C.IterateAccounts(func(a types.Address, id uint64, err error) bool {
		must(err, "IterateAccounts")
		if _, ok := ids[a]; ok || used[id] {
			fail("IterateAccounts: %s id %d comes twice", a, id)
		}
		ids[a], used[id] = id, true
		return true
	})
	for a := range v.Heads {
		if _, ok := ids[a]; !ok {
			fail("IterateAccounts leaves out %s, which has blocks", a)
		}
	}
	for _, a := range w.Addrs() {
		var all []*core.AccountBlock
		for _, b := range v.Blocks[a] {
			all = append(all, decode(b))
		}
		var last *core.AccountBlock
		n := uint64(len(all))
		if n > 0 {
			last = all[n-1]
		}
		lb, err := w.C.GetLatestAccountBlock(a)
		must(err, "GetLatestAccountBlock %s", a)
		w.sameAb("GetLatestAccountBlock of "+a.String(), lb, last)
		h, err := w.C.GetLatestAccountHeight(a)
		must(err, "GetLatestAccountHeight %s", a)
		if h != n {
			fail("GetLatestAccountHeight of %s: %d, want %d", a, h, n)
		}
		for i := uint64(1); i <= n+1; i++ {
			var want *core.AccountBlock
			if i <= n {
				want = all[i-1]
			}
			b, err := w.C.GetAccountBlockByHeight(a, i)
			must(err, "GetAccountBlockByHeight %s %d", a, i)
			w.sameAb(fmt.Sprintf("GetAccountBlockByHeight %s %d", a, i), b, want)
			hh, err := w.C.GetAccountBlockHashByHeight(a, i)
			must(err, "GetAccountBlockHashByHeight %s %d", a, i)
			if (hh == nil) != (want == nil) || hh != nil && *hh != want.Hash {
				fail("GetAccountBlockHashByHeight %s %d: %v", a, i, hh)
			}
		}
		down := func(from, to uint64) []*core.AccountBlock { // from..to, highest first
			var l []*core.AccountBlock
			for i := to; i >= from && i > 0; i-- {
				if i <= n {
					l = append(l, all[i-1])
				}
			}
			return l
		}
		for _, r := range [][2]uint64{{1, n}, {n, n}, {n/2 + 1, n}, {1, n/2 + 1}} {
			if r[0] == 0 || r[0] > r[1] || r[1] > n {
				continue
			}
			l, err := w.C.GetAccountBlocksByRange(a, r[0], r[1])
			must(err, "GetAccountBlocksByRange %s %v", a, r)
			w.sameAbs(fmt.Sprintf("GetAccountBlocksByRange %s %v", a, r), l, down(r[0], r[1]))
			cnt := r[1] - r[0] + 1
			l, err = w.C.GetAccountBlocksByHeight(a, r[1], cnt)
			must(err, "GetAccountBlocksByHeight %s %v", a, r)
			w.sameAbs(fmt.Sprintf("GetAccountBlocksByHeight %s %d %d", a, r[1], cnt), l, down(r[0], r[1]))
			l, err = w.C.GetAccountBlocks(all[r[1]-1].Hash, cnt)
			must(err, "GetAccountBlocks %s %v", a, r)
			w.sameAbs(fmt.Sprintf("GetAccountBlocks %s %d %d", a, r[1], cnt), l, down(r[0], r[1]))
			if types.IsContractAddr(a) {
				var want core.VmLogList
				for _, b := range down(r[0], r[1]) {
					want = append(want, v.ByHash[b.Hash].Logs...)
				}
				lg, err := w.C.GetVMLogListByAddress(a, r[0], r[1], nil)
				must(err, "GetVMLogListByAddress %s", a)
				sameLogs("GetVMLogListByAddress "+a.String(), lg, want)
			}
		}
	}
}

func (w *World) cmpSnapshots() {
	n := len(w.Chunks)
	live := map[types.Hash]bool{}
	for _, c := range w.Chunks {
		live[c.SB.Hash] = true
	}
	sameSb("GetLatestSnapshotBlock", w.C.GetLatestSnapshotBlock(), w.Latest(), false)
	sameSb("GetGenesisSnapshotBlock", w.C.GetGenesisSnapshotBlock(), w.Chunks[0], false)
	for _, c := range w.AllSbs {
		var want *Chunk
		if live[c.SB.Hash] {
			want = c
		}
		ok, err := w.C.IsSnapshotBlockExisted(c.SB.Hash)
		must(err, "IsSnapshotBlockExisted")
		if ok != (want != nil) {
			fail("IsSnapshotBlockExisted of %s (height %d): %v", c.SB.Hash, c.SB.Height, ok)
		}
		h, err := w.C.GetSnapshotHeightByHash(c.SB.Hash)
		must(err, "GetSnapshotHeightByHash")
		if want == nil && h != 0 || want != nil && h != c.SB.Height {
			fail("GetSnapshotHeightByHash of %s (height %d, live %v): %d", c.SB.Hash, c.SB.Height, want != nil, h)
		}
		b, err := w.C.GetSnapshotBlockByHash(c.SB.Hash)
		must(err, "GetSnapshotBlockByHash")
		sameSb("GetSnapshotBlockByHash", b, want, false)
		b, err = w.C.GetSnapshotHeaderByHash(c.SB.Hash)
		must(err, "GetSnapshotHeaderByHash")
		sameSb("GetSnapshotHeaderByHash", b, want, true)
	}
	for i := 1; i <= n+2; i++ {
		var want *Chunk
		if i <= n {
			want = w.Chunks[i-1]
		}
		b, err := w.C.GetSnapshotBlockByHeight(uint64(i))
		must(err, "GetSnapshotBlockByHeight %d", i)
		sameSb(fmt.Sprintf("GetSnapshotBlockByHeight %d", i), b, want, false)
		b, err = w.C.GetSnapshotHeaderByHeight(uint64(i))
		must(err, "GetSnapshotHeaderByHeight %d", i)
		sameSb(fmt.Sprintf("GetSnapshotHeaderByHeight %d", i), b, want, true)
		h, err := w.C.GetSnapshotHashByHeight(uint64(i))
		must(err, "GetSnapshotHashByHeight %d", i)
		if (h == nil) != (want == nil) || h != nil && *h != want.SB.Hash {
			fail("GetSnapshotHashByHeight %d: %v", i, h)
		}
	}
	for _, r := range [][2]int{{1, n}, {n, n}, {n/2 + 1, n}, {1, n/2 + 1}, {n/3 + 1, n/2 + 1}} {
		if r[0] > r[1] || r[1] > n {
			continue
		}
		want := w.Chunks[r[0]-1 : r[1]]
		a, z := want[0].SB, want[len(want)-1].SB
		cnt := uint64(len(want))
		what := fmt.Sprintf("%v of %d", r, n)
		got, err := w.C.GetRangeSnapshotHeaders(a.Hash, z.Hash)
		must(err, "GetRangeSnapshotHeaders "+what)
		sameSbs("GetRangeSnapshotHeaders "+what, got, want, true)
		got, err = w.C.GetRangeSnapshotBlocks(a.Hash, z.Hash)
		must(err, "GetRangeSnapshotBlocks "+what)
		sameSbs("GetRangeSnapshotBlocks "+what, got, want, false)
		got, err = w.C.GetSnapshotHeaders(a.Hash, true, cnt)
		must(err, "GetSnapshotHeaders up "+what)
		sameSbs("GetSnapshotHeaders up "+what, got, want, true)
		got, err = w.C.GetSnapshotBlocks(z.Hash, false, cnt)
		must(err, "GetSnapshotBlocks down "+what)
		sameSbs("GetSnapshotBlocks down "+what, got, rev(want), false)
		got, err = w.C.GetSnapshotHeadersByHeight(z.Height, false, cnt)
		must(err, "GetSnapshotHeadersByHeight down "+what)
		sameSbs("GetSnapshotHeadersByHeight down "+what, got, rev(want), true)
		got, err = w.C.GetSnapshotBlocksByHeight(a.Height, true, cnt)
		must(err, "GetSnapshotBlocksByHeight up "+what)
		sameSbs("GetSnapshotBlocksByHeight up "+what, got, want, false)
	}
	for i, c := range w.Chunks {
		if i%(1+n/60) != 0 && i < n-3 {
			continue // long chains: a sample
		}
		for _, dt := range []int64{0, 1} {
			t := time.Unix(c.SB.Timestamp.Unix()+dt, 0)
			var before *Chunk
			for _, x := range w.Chunks {
				if x.SB.Timestamp.Before(t) {
					before = x
				}
			}
			got, err := w.C.GetSnapshotHeaderBeforeTime(&t)
			must(err, "GetSnapshotHeaderBeforeTime")
			sameSb(fmt.Sprintf("GetSnapshotHeaderBeforeTime snapshot %d %+d", i+1, dt), got, before, true)
			var after []*Chunk
			for j := n - 1; j > 0; j-- {
				if !w.Chunks[j].SB.Timestamp.Before(t) {
					after = append(after, w.Chunks[j])
				}
			}
			l, err := w.C.GetSnapshotHeadersAfterOrEqualTime(&core.HashHeight{Hash: w.Latest().SB.Hash, Height: w.Latest().SB.Height}, &t, nil)
			must(err, "GetSnapshotHeadersAfterOrEqualTime")
			sameSbs(fmt.Sprintf("GetSnapshotHeadersAfterOrEqualTime snapshot %d %+d", i+1, dt), l, after, true)
			if i%3 == 0 && c.SB.Height > 1 {
				prod := c.SB.Producer()
				var own []*Chunk
				for _, x := range after {
					if x.SB.Producer() == prod {
						own = append(own, x)
					}
				}
				l, err := w.C.GetSnapshotHeadersAfterOrEqualTime(&core.HashHeight{Hash: w.Latest().SB.Hash, Height: w.Latest().SB.Height}, &t, &prod)
				must(err, "GetSnapshotHeadersAfterOrEqualTime of a producer")
				sameSbs(fmt.Sprintf("GetSnapshotHeadersAfterOrEqualTime snapshot %d %+d of %s", i+1, dt, prod), l, own, true)
			}
		}
	}
}

func (w *World) cmpUnconfirmed() {
	var all []*core.AccountBlock
	per := map[types.Address][]*core.AccountBlock{}
	for _, b := range w.Un {
		x := decode(b)
		all = append(all, x)
		per[x.AccountAddress] = append(per[x.AccountAddress], x)
	}
	w.sameAbs("GetAllUnconfirmedBlocks", w.C.GetAllUnconfirmedBlocks(), all)
	for _, a := range w.Addrs() {
		w.sameAbs("GetUnconfirmedBlocks of "+a.String(), w.C.GetUnconfirmedBlocks(a), per[a])
	}
	sc := w.C.GetContentNeedSnapshot()
	rg := w.C.GetContentNeedSnapshotRange()
	if len(sc) != len(per) || len(rg) != len(per) {
		fail("GetContentNeedSnapshot names %d accounts, the range %d, want %d", len(sc), len(rg), len(per))
	}
	for a, l := range per {
		first, last := l[0], l[len(l)-1]
		if sc[a] == nil || sc[a].Hash != last.Hash || sc[a].Height != last.Height {
			fail("GetContentNeedSnapshot of %s: %v, want %s %d", a, sc[a], last.Hash, last.Height)
		}
		r := rg[a]
		if r == nil {
			fail("GetContentNeedSnapshotRange leaves out %s", a)
		}
		lo, hi := r.Start.Height, r.End.Height
		if lo != first.Height || hi != last.Height {
			fail("GetContentNeedSnapshotRange of %s: %d..%d, want %d..%d", a, lo, hi, first.Height, last.Height)
		}
	}
}

func zero(b *big.Int) *big.Int {
	if b == nil {
		return new(big.Int)
	}
	return b
}

func drain(it interfaces.StorageIterator, err error) map[string][]byte {
	must(err, "iterator")
	defer it.Release()
	m := map[string][]byte{}
	var prev []byte
	for it.Next() {
		k := append([]byte{}, it.Key()...)
		if prev != nil && bytes.Compare(prev, k) >= 0 {
			fail("iterator: key %x after %x", k, prev)
		}
		prev = k
		m[string(k)] = append([]byte{}, it.Value()...)
	}
	must(it.Error(), "iterator")
	return m
}

func sameKV(what string, got map[string][]byte, want map[string][]byte, prefix []byte, history bool) {
	for k, x := range want {
		if !bytes.HasPrefix([]byte(k), prefix) {
			continue
		}
		g, ok := got[k]
		if !ok || !bytes.Equal(g, x) {
			fail("%s: key %x is %x (there: %v), want %x", what, k, g, ok, x)
		}
	}
	for k, x := range got {
		// in the history an empty value means deleted: every reader of it skips those
		if _, ok := want[k]; !ok && !(history && len(x) == 0) {
			fail("%s: key %x has %x, but should be absent", what, k, x)
		}
	}
}

// keysOf lists every key the record ever wrote in an account.
func (w *World) keysOf(a types.Address) []string {
	m := map[string]bool{}
	for _, b := range w.AllBlks {
		if b.B.AccountAddress == a && b.B.BlockType != core.BlockTypeGenesisReceive {
			for k := range b.KV {
				m[k] = true
			}
		}
	}
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func (w *World) cmpState(v *View) {
	for _, a := range w.Addrs() {
		bm, err := w.C.GetBalanceMap(a)
		must(err, "GetBalanceMap %s", a)
		for _, t := range w.Tokens {
			want := zero(v.Bal[a][t])
			b, err := w.C.GetBalance(a, t)
			must(err, "GetBalance %s %s", a, t)
			if zero(b).Cmp(want) != 0 || zero(bm[t]).Cmp(want) != 0 {
				fail("balance of %s in %s: %v (map: %v), want %v", a, t, b, bm[t], want)
			}
		}
		for t, x := range bm {
			if zero(v.Bal[a][t]).Cmp(x) != 0 {
				fail("GetBalanceMap of %s: %s %v, want %v", a, t, x, v.Bal[a][t])
			}
		}
		for _, k := range w.keysOf(a) {
			x, err := w.C.GetValue(a, []byte(k))
			must(err, "GetValue")
			if !bytes.Equal(x, v.KV[a][k]) {
				fail("GetValue %s %x: %x, want %x", a, k, x, v.KV[a][k])
			}
		}
		sameKV("GetStorageIterator of "+a.String(), drain(w.C.GetStorageIterator(a, nil)), v.KV[a], nil, false)
		sameKV("GetStorageIterator(f0) of "+a.String(), drain(w.C.GetStorageIterator(a, []byte{0xf0})), v.KV[a], []byte{0xf0}, false)
		c, err := w.C.GetContractCode(a)
		must(err, "GetContractCode")
		if !bytes.Equal(c, v.Code[a]) {
			fail("GetContractCode of %s: %x, want %x", a, c, v.Code[a])
		}
	}
}

// cmpHistory compares the state at past snapshots.
func (w *World) cmpHistory() {
	n := len(w.Chunks)
	_, _, sdb := w.C.DBs()
	for i, c := range w.Chunks {
		if n > 8 && i < n-5 && i%3 != 0 {
			continue
		}
		v := w.At(c.SB.Height, false)
		for _, t := range w.Tokens {
			m, err := w.C.GetConfirmedBalanceList(w.Addrs(), t, c.SB.Hash)
			must(err, "GetConfirmedBalanceList at %d", c.SB.Height)
			for _, a := range w.Addrs() {
				if zero(m[a]).Cmp(zero(v.Bal[a][t])) != 0 {
					fail("GetConfirmedBalanceList at snapshot %d of %d: %s has %v of %s, want %v", c.SB.Height, n, a, m[a], t, v.Bal[a][t])
				}
			}
		}
		for _, a := range append(append([]types.Address{}, w.Contracts...), types.AddressAsset, types.AddressGovernance, types.AddressQuota) {
			sd, err := sdb.NewStorageDatabase(c.SB.Hash, a)
			must(err, "NewStorageDatabase")
			what := fmt.Sprintf("storage of %s at snapshot %d of %d", a, c.SB.Height, n)
			for _, k := range w.keysOf(a) {
				x, err := sd.GetValue([]byte(k))
				must(err, what)
				if !bytes.Equal(x, v.KV[a][k]) {
					fail("%s: key %x is %x, want %x", what, k, x, v.KV[a][k])
				}
			}
			sameKV(what, drain(sd.NewStorageIterator(nil)), v.KV[a], nil, true)
			sameKV(what, drain(sd.NewStorageIterator([]byte{0xf1})), v.KV[a], []byte{0xf1}, true)
		}
		w.cmpVotes("GetVoteList", c, v)
	}
}

func (w *World) cmpVotes(what string, c *Chunk, v *View) {
	want := map[types.Address]string{}
	for k, x := range v.KV[types.AddressGovernance] {
		for _, u := range w.Users {
			if k == string(abi.GetVoteInfoKey(u, types.SNAPSHOT_GID)) {
				name := new(string)
				if err := abi.ABIGovernance.UnpackVariable(name, abi.VariableNameVoteInfo, x); err == nil {
					want[u] = *name
				}
			}
		}
	}
	l, err := w.C.GetVoteList(c.SB.Hash, types.SNAPSHOT_GID)
	must(err, what)
	if len(l) != len(want) {
		fail("%s at snapshot %d of %d: %d votes, want %d", what, c.SB.Height, len(w.Chunks), len(l), len(want))
	}
	for _, x := range l {
		if want[x.VoteAddr] != x.SbpName {
			fail("%s at snapshot %d of %d: %s votes %q, want %q", what, c.SB.Height, len(w.Chunks), x.VoteAddr, x.SbpName, want[x.VoteAddr])
		}
	}
}

// cmpRounds asks the same with the round cache of the consensus switched on.
func (w *World) cmpRounds() {
	w.C.SetCacheLevelForConsensus(1)
	defer w.C.SetCacheLevelForConsensus(w.Level)
	n := len(w.Chunks)
	for i := n - 1; i >= 0 && i > n-12; i-- {
		c := w.Chunks[i]
		v := w.At(c.SB.Height, false)
		w.cmpVotes("GetVoteList (round cache)", c, v)
		m, err := w.C.GetConfirmedBalanceList(w.Addrs(), w.Tokens[0], c.SB.Hash)
		must(err, "GetConfirmedBalanceList (round cache)")
		for _, a := range w.Addrs() {
			if zero(m[a]).Cmp(zero(v.Bal[a][w.Tokens[0]])) != 0 {
				fail("GetConfirmedBalanceList (round cache) at snapshot %d of %d: %s has %v, want %v", c.SB.Height, n, a, m[a], v.Bal[a][w.Tokens[0]])
			}
		}
	}
}

func sameMeta(what string, got, want *core.ContractMeta) {
	if (got == nil) != (want == nil) {
		fail("%s: got %v, want %v", what, got, want)
	}
	if got != nil && *got != *want {
		fail("%s: got %+v, want %+v", what, *got, *want)
	}
}

func (w *World) cmpContracts(v *View) {
	for _, a := range w.Contracts {
		m, err := w.C.GetContractMeta(a)
		must(err, "GetContractMeta")
		sameMeta("GetContractMeta of "+a.String(), m, v.Meta[a])
		for _, h := range []uint64{1, w.Latest().SB.Height - 1, w.Latest().SB.Height} {
			if h == 0 {
				continue
			}
			m, err := w.C.GetContractMetaInSnapshot(a, h)
			must(err, "GetContractMetaInSnapshot")
			var want *core.ContractMeta
			if x := v.Meta[a]; x != nil {
				if ch := v.Conf[x.CreateBlockHash]; ch != 0 && ch <= h {
					want = x
				}
			}
			sameMeta(fmt.Sprintf("GetContractMetaInSnapshot of %s at %d", a, h), m, want)
		}
	}
	seen := map[types.Address]bool{}
	w.C.IterateContracts(func(a types.Address, m *core.ContractMeta, err error) bool {
		must(err, "IterateContracts")
		if seen[a] {
			fail("IterateContracts: %s comes twice", a)
		}
		seen[a] = true
		sameMeta("IterateContracts "+a.String(), m, v.Meta[a])
		return true
	})
	for a := range v.Meta {
		if !seen[a] {
			fail("IterateContracts leaves out %s", a)
		}
	}
	for i := 0; i < 3; i++ {
		g := Gid(i)
		l, err := w.C.GetContractList(g)
		must(err, "GetContractList")
		want := map[types.Address]bool{}
		for a, m := range v.Meta {
			if m.Gid == g {
				want[a] = true
			}
		}
		if i == 0 {
			for _, a := range types.BuiltinContracts {
				want[a] = true
			}
		}
		for _, a := range l {
			if !want[a] {
				fail("GetContractList of %s names %s, which is not a contract of that group (or twice)", g, a)
			}
			delete(want, a)
		}
		for a := range want {
			fail("GetContractList of %s leaves out %s", g, a)
		}
	}
}

func (w *World) cmpOnRoad(v *View) {
	want := map[types.Address]map[types.Hash]bool{}
	n := 0
	for h, s := range v.Sends {
		if v.Recv[h] == nil {
			if want[s.ToAddress] == nil {
				want[s.ToAddress] = map[types.Hash]bool{}
			}
			want[s.ToAddress][h] = true
			n++
		}
	}
	all, err := w.C.LoadAllOnRoad()
	must(err, "LoadAllOnRoad")
	got := 0
	for a, l := range all {
		for _, h := range l {
			if !want[a][h] {
				fail("LoadAllOnRoad: %s has %s, which is not on its way to it", a, h)
			}
			got++
		}
	}
	if got != n {
		fail("LoadAllOnRoad: %d sends on the way, want %d", got, n)
	}
	for a, m := range want {
		l, err := w.C.GetOnRoadBlocksByAddr(a, 0, n+5)
		must(err, "GetOnRoadBlocksByAddr")
		if len(l) != len(m) {
			fail("GetOnRoadBlocksByAddr of %s: %d, want %d", a, len(l), len(m))
		}
		for _, b := range l {
			if !m[b.Hash] {
				fail("GetOnRoadBlocksByAddr of %s: %s is not on its way", a, b.Hash)
			}
		}
		// in pages
		var paged []*core.AccountBlock
		for p := 0; p < len(m); p++ {
			l, err := w.C.GetOnRoadBlocksByAddr(a, p, 2)
			must(err, "GetOnRoadBlocksByAddr")
			paged = append(paged, l...)
		}
		if len(paged) != len(m) {
			fail("GetOnRoadBlocksByAddr of %s by pages: %d, want %d", a, len(paged), len(m))
		}
	}
	for i := 0; i < 3; i++ {
		left := map[types.Hash]types.Address{}
		for a, m := range want {
			var g types.Gid
			if types.IsBuiltinContractAddr(a) {
				g = types.DELEGATE_GID
			} else if v.Meta[a] != nil {
				g = v.Meta[a].Gid
			}
			if g == Gid(i) {
				for h := range m {
					left[h] = a
				}
			}
		}
		err := w.C.LoadOnRoadRange(Gid(i), func(from, to types.Address, hh core.HashHeight) error {
			b := v.ByHash[hh.Hash]
			if a, ok := left[hh.Hash]; !ok || a != to || b == nil || b.B.AccountAddress != from || b.B.Height != hh.Height {
				fail("LoadOnRoadRange of %s: %s from %s height %d to %s is not on its way", Gid(i), hh.Hash, from, hh.Height, to)
			}
			delete(left, hh.Hash)
			return nil
		})
		must(err, "LoadOnRoadRange")
		if len(left) != 0 {
			fail("LoadOnRoadRange of %s leaves out %d", Gid(i), len(left))
		}
	}
}

func addQ(q *types.QuotaInfo, b *Blk) {
	q.BlockCount++
	q.QuotaTotal += b.B.Quota
	q.QuotaUsedTotal += b.B.QuotaUsed
}

func (w *World) cmpQuota() {
	type entry map[types.Address]types.QuotaInfo
	var list []entry
	sum := func(l []*Blk) entry {
		e := entry{}
		for _, b := range l {
			q := e[b.B.AccountAddress]
			addQ(&q, b)
			e[b.B.AccountAddress] = q
		}
		return e
	}
	for _, c := range w.Chunks[1:] {
		list = append(list, sum(c.Blks))
	}
	list = append(list, sum(w.Un))
	if len(list) > 75 {
		list = list[len(list)-75:]
	}
	for _, a := range w.Addrs() {
		got := w.C.GetQuotaUsedList(a)
		if len(got) != len(list) {
			fail("GetQuotaUsedList of %s: %d entries, want %d", a, len(got), len(list))
		}
		for i := range got {
			if got[i] != list[i][a] {
				fail("GetQuotaUsedList of %s, entry %d of %d: %+v, want %+v", a, i, len(got), got[i], list[i][a])
			}
		}
	}
	var total types.QuotaInfo
	for _, e := range list[:len(list)-1] {
		for _, q := range e {
			total.BlockCount += q.BlockCount
			total.QuotaTotal += q.QuotaTotal
			total.QuotaUsedTotal += q.QuotaUsedTotal
		}
	}
	if g := w.C.GetGlobalQuota(); g != total {
		fail("GetGlobalQuota: %+v, want %+v", g, total)
	}
}

func (w *World) randomSeed(h uint64, n int) uint64 {
	seen := map[types.Address]bool{}
	sum := uint64(0)
	cnt := 0
	for ; h > 0 && cnt < n; h-- {
		sb := w.Chunks[h-1].SB
		if sb.Seed == 0 || seen[sb.Producer()] {
			continue
		}
		seen[sb.Producer()] = true
		sum += sb.Seed
		cnt++
	}
	return sum
}

func (w *World) cmpSeeds(v *View) {
	for i, c := range w.Chunks {
		for _, n := range []int{1, 2, 25} {
			if got, want := w.C.GetRandomSeed(c.SB.Hash, n), w.randomSeed(c.SB.Height, n); got != want {
				fail("GetRandomSeed of snapshot %d, %d: %d, want %d", i+1, n, got, want)
			}
		}
	}
	latest := w.Latest()
	for h, s := range v.Sends {
		if m := v.Meta[s.ToAddress]; m != nil {
			conf := v.Conf[h]
			var want, wantSeed *Chunk
			if conf > 0 && m.SendConfirmedTimes > 0 {
				if x := conf + uint64(m.SendConfirmedTimes) - 1; x <= latest.SB.Height {
					want = w.Chunks[x-1]
				}
			}
			got, err := w.C.GetSnapshotBlockByContractMeta(s.ToAddress, h)
			if (err != nil) != (m.SendConfirmedTimes > 0 && want == nil) {
				fail("GetSnapshotBlockByContractMeta of %s: error %v", h, err)
			}
			sameSb("GetSnapshotBlockByContractMeta", got, want, false)
			if conf > 0 && m.SeedConfirmedTimes > 0 {
				k := 0
				for _, c := range w.Chunks[conf-1:] {
					if c.SB.Seed > 0 {
						k++
					}
					if k == int(m.SeedConfirmedTimes) {
						wantSeed = c
						break
					}
				}
			}
			got, err = w.C.GetSeedConfirmedSnapshotBlock(s.ToAddress, h)
			if (err != nil) != (m.SeedConfirmedTimes > 0 && wantSeed == nil) {
				fail("GetSeedConfirmedSnapshotBlock of %s: error %v", h, err)
			}
			sameSb("GetSeedConfirmedSnapshotBlock", got, wantSeed, false)
		}
		seed, err := w.C.GetSeed(latest.SB, h)
		must(err, "GetSeed")
		x := new(big.Int).Xor(new(big.Int).SetUint64(w.randomSeed(latest.SB.Height, 25)), new(big.Int).SetBytes(h[:]))
		if seed != helper.BytesToU64(helper.LeftPadBytes(x.Bytes(), 32)) {
			fail("GetSeed of %s: %d", h, seed)
		}
	}
	for _, p := range w.Producers {
		addr := types.PubkeyToAddress(p)
		for _, before := range []time.Time{latest.SB.Timestamp.Add(time.Second), *latest.SB.Timestamp} {
			var want *Chunk
			published := map[uint64]bool{}
			for i := len(w.Chunks) - 1; i >= 0 && want == nil; i-- {
				sb := w.Chunks[i].SB
				if sb.Producer() != addr || sb.SeedHash == nil {
					continue
				}
				if sb.Timestamp.Before(before) {
					known := false
					for s := range published {
						known = known || core.ComputeSeedHash(s, sb.PrevHash, sb.Timestamp) == *sb.SeedHash
					}
					if !known {
						want = w.Chunks[i]
					}
				}
				published[sb.Seed] = true
			}
			got, err := w.C.GetLastUnpublishedSeedSnapshotHeader(addr, before)
			must(err, "GetLastUnpublishedSeedSnapshotHeader")
			sameSb("GetLastUnpublishedSeedSnapshotHeader", got, want, true)
		}
	}
}

func (w *World) cmpLedger() {
	n := len(w.Chunks)
	for _, from := range []int{1, n/2 + 1, n} {
		got, err := w.C.GetSubLedgerAfterHeight(uint64(from))
		must(err, "GetSubLedgerAfterHeight")
		w.cmpChunks(fmt.Sprintf("GetSubLedgerAfterHeight %d of %d", from, n), got, w.Chunks[from-1:])
		for _, to := range []int{from, (from + n) / 2, n} {
			got, err := w.C.GetSubLedger(uint64(from), uint64(to))
			must(err, "GetSubLedger")
			w.cmpChunks(fmt.Sprintf("GetSubLedger %d %d of %d", from, to, n), got, w.Chunks[from-1:to])
		}
	}
	if n > 1 {
		from := 2 + n/2
		if from > n {
			from = n
		}
		r, err := w.C.GetLedgerReaderByHeight(uint64(from), uint64(n))
		must(err, "GetLedgerReaderByHeight")
		s := r.Seg()
		if s.From != uint64(from) || s.To != uint64(n) || s.PrevHash != w.Chunks[from-2].SB.Hash || s.Hash != w.Latest().SB.Hash {
			fail("GetLedgerReaderByHeight %d..%d: segment %+v", from, n, s)
		}
		r.Close()
	}
}

// cmpChunks: the first chunk carries its snapshot block alone.
func (w *World) cmpChunks(what string, got []*core.SnapshotChunk, want []*Chunk) {
	if len(got) != len(want) {
		fail("%s: %d chunks, want %d", what, len(got), len(want))
	}
	for i := range got {
		sameSb(what, got[i].SnapshotBlock, want[i], false)
		if i == 0 {
			if len(got[i].AccountBlocks) != 0 {
				fail("%s: the first chunk has %d account blocks", what, len(got[i].AccountBlocks))
			}
			continue
		}
		have := map[types.Hash]*core.AccountBlock{}
		for _, b := range got[i].AccountBlocks {
			have[b.Hash] = b
		}
		if len(have) != len(want[i].Blks) || len(got[i].AccountBlocks) != len(have) {
			fail("%s: chunk %d has %d blocks, want %d", what, i, len(got[i].AccountBlocks), len(want[i].Blks))
		}
		for _, b := range want[i].Blks {
			w.sameAb(what, have[b.B.Hash], decode(b))
		}
	}
}

func (w *World) present() map[types.Hash]bool {
	m := map[types.Hash]bool{}
	for _, c := range w.Chunks {
		m[c.SB.Hash] = true
		for _, b := range c.Blks {
			m[b.B.Hash] = true
		}
	}
	for _, b := range w.Un {
		m[b.B.Hash] = true
	}
	return m
}

// cmpEvents replays the notifications listeners got: they lead from the content at opening to the content now.
func (w *World) cmpEvents() {
	r := w.Events
	m := map[types.Hash]bool{}
	for h := range r.base {
		m[h] = true
	}
	for _, e := range r.done {
		if m[e.hash] == e.insert {
			fail("listeners were told of the %s of %s, which was already so", map[bool]string{true: "insertion", false: "deletion"}[e.insert], e.hash)
		}
		if e.insert {
			m[e.hash] = true
		} else {
			delete(m, e.hash)
		}
	}
	now := w.present()
	for h := range now {
		if !m[h] {
			fail("listeners were not told of the insertion of %s", h)
		}
	}
	for h := range m {
		if !now[h] {
			fail("listeners were not told of the deletion of %s", h)
		}
	}
	if len(r.prepared) != len(r.done) {
		fail("listeners got %d prepare notifications and %d others", len(r.prepared), len(r.done))
	}
	for i := range r.done {
		if r.done[i] != r.prepared[i] {
			fail("listeners: notification %d was prepared for something else", i)
		}
	}
}
