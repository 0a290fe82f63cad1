package c23

import (
	"encoding/binary"
	"fmt"
	"sort"
	"testing"

	"github.com/syndtr/goleveldb/leveldb"
	"github.com/syndtr/goleveldb/leveldb/storage"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	"github.com/vitelabs/go-vite/v2/ledger/onroad"
	"verif/vlib"
)

var otherGid = types.Gid{9, 9, 9}

// send is one request: who sent it to whom, at which height of the sender and,
// among the requests of one contract response, at which index.
type send struct {
	b        *ledger.AccountBlock
	parent   *ledger.AccountBlock // the response that carries it, or itself
	index    int
	received *ledger.AccountBlock
}

// fake is the ledger the manager reads; only what it needs is there.
type fake struct {
	chain.Chain
	sends    map[types.Hash]*send
	blocks   map[types.Hash]*ledger.AccountBlock
	meta     map[types.Address]*ledger.ContractMeta
	hidden   map[types.Address]bool // created by the block being inserted
	accounts map[types.Address][]*ledger.AccountBlock
	order    []*ledger.AccountBlock // all blocks in the order of insertion
}

func (f *fake) PrepareOnroadDb() (*leveldb.DB, error) {
	return leveldb.Open(storage.NewMemStorage(), nil)
}
func (f *fake) IsGenesisAccountBlock(types.Hash) bool { return false }
func (f *fake) GetContractMeta(a types.Address) (*ledger.ContractMeta, error) {
	if f.hidden[a] {
		return nil, nil
	}
	return f.meta[a], nil
}
func (f *fake) GetAccountBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	if s := f.sends[h]; s != nil {
		return s.b, nil
	}
	return f.blocks[h], nil
}
func (f *fake) GetCompleteBlockByHash(h types.Hash) (*ledger.AccountBlock, error) {
	if s := f.sends[h]; s != nil {
		return s.parent, nil
	}
	return f.blocks[h], nil
}
func (f *fake) LoadOnRoadRange(gid types.Gid, fn interfaces.LoadOnroadFn) error {
	var l []*send
	for _, s := range f.sends {
		if m := f.meta[s.b.ToAddress]; m != nil && m.Gid == gid && s.received == nil {
			l = append(l, s)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i].b, l[j].b
		if a.ToAddress != b.ToAddress {
			return string(a.ToAddress[:]) < string(b.ToAddress[:])
		}
		return string(a.Hash[:]) < string(b.Hash[:])
	})
	for _, s := range l {
		if err := fn(s.b.AccountAddress, s.b.ToAddress, ledger.HashHeight{Height: s.parent.Height, Hash: s.b.Hash}); err != nil {
			return err
		}
	}
	return nil
}

type vmdb struct {
	interfaces.VmDb
	metas map[types.Address]*ledger.ContractMeta
}

func (v *vmdb) GetUnsavedContractMeta() map[types.Address]*ledger.ContractMeta { return v.metas }

type world struct {
	f         *fake
	m         *onroad.Manager
	serial    uint64
	users     []types.Address
	contracts []types.Address

	sent, recv, rolled, restarts, created, multi int
}

func (w *world) hash() types.Hash {
	w.serial++
	var h types.Hash
	binary.BigEndian.PutUint64(h[:], w.serial*0x9e3779b97f4a7c15)
	binary.BigEndian.PutUint64(h[8:], w.serial)
	return h
}

func (w *world) open() {
	if w.m != nil {
		w.m.Close()
	}
	w.m = onroad.NewManager(nil, nil, nil, nil, nil)
	w.m.Init(w.f)
}

func (w *world) next(a types.Address) (uint64, types.Hash) {
	l := w.f.accounts[a]
	if len(l) == 0 {
		return 1, types.Hash{}
	}
	return l[len(l)-1].Height + 1, l[len(l)-1].Hash
}

func (w *world) insert(t *rapid.T, b *ledger.AccountBlock, metas map[types.Address]*ledger.ContractMeta) {
	f := w.f
	f.blocks[b.Hash] = b
	f.accounts[b.AccountAddress] = append(f.accounts[b.AccountAddress], b)
	f.order = append(f.order, b)
	if b.IsSendBlock() {
		f.sends[b.Hash] = &send{b: b, parent: b}
		w.sent++
	} else {
		f.sends[b.FromBlockHash].received = b
		w.recv++
		for i, s := range b.SendBlockList {
			f.sends[s.Hash] = &send{b: s, parent: b, index: i}
			w.sent++
		}
	}
	for a, m := range metas {
		f.meta[a] = m
	}
	if err := w.m.InsertAccountBlocks([]*interfaces.VmAccountBlock{{AccountBlock: b, VmDb: &vmdb{metas: metas}}}); err != nil {
		t.Fatalf("InsertAccountBlocks: %v", err)
	}
	f.hidden = nil
}

func (w *world) target(t *rapid.T) types.Address {
	if rapid.IntRange(0, 7).Draw(t, "toUser") == 0 {
		return rapid.SampledFrom(w.users).Draw(t, "to")
	}
	return rapid.SampledFrom(w.contracts).Draw(t, "to")
}

// pending of a contract, by caller, in the order they have to be received
func (w *world) pending(c types.Address) map[types.Address][]*send {
	r := map[types.Address][]*send{}
	for _, s := range w.f.sends {
		if s.b.ToAddress == c && s.received == nil {
			r[s.b.AccountAddress] = append(r[s.b.AccountAddress], s)
		}
	}
	for _, l := range r {
		sort.Slice(l, func(i, j int) bool {
			if l[i].parent.Height != l[j].parent.Height {
				return l[i].parent.Height < l[j].parent.Height
			}
			return l[i].index < l[j].index
		})
	}
	return r
}

func (w *world) receive(t *rapid.T, c types.Address, s *send) {
	h, prev := w.next(c)
	b := &ledger.AccountBlock{BlockType: rapid.SampledFrom([]byte{ledger.BlockTypeReceive, ledger.BlockTypeReceive, ledger.BlockTypeReceiveError}).Draw(t, "type"),
		AccountAddress: c, Height: h, PrevHash: prev, Hash: w.hash(), FromBlockHash: s.b.Hash}
	for i, n := 0, rapid.IntRange(0, 4).Draw(t, "emits")-1; i < n; i++ {
		b.SendBlockList = append(b.SendBlockList, &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCall, AccountAddress: c, ToAddress: w.target(t), Hash: w.hash()})
	}
	if len(b.SendBlockList) > 1 {
		w.multi++
	}
	w.insert(t, b, nil)
}

func (w *world) callers(p map[types.Address][]*send) []types.Address {
	var r []types.Address
	for a := range p {
		r = append(r, a)
	}
	sort.Slice(r, func(i, j int) bool { return string(r[i][:]) < string(r[j][:]) })
	return r
}

func (w *world) check(t *rapid.T) {
	for ci, c := range w.contracts {
		if w.f.meta[c].Gid != types.DELEGATE_GID {
			continue
		}
		p := w.pending(c)
		got, err := w.m.GetAllCallersFrontOnRoad(types.DELEGATE_GID, c)
		if err != nil {
			t.Fatalf("contract %d: %v", ci, err)
		}
		seen := map[types.Address]bool{}
		for _, b := range got {
			l := p[b.AccountAddress]
			if len(l) == 0 {
				t.Fatalf("contract %d is handed a request that is not pending", ci)
			}
			if l[0].b.Hash != b.Hash {
				t.Fatalf("contract %d is handed another request than the first of its caller (height %d index %d)", ci, l[0].parent.Height, l[0].index)
			}
			if seen[b.AccountAddress] {
				t.Fatalf("contract %d is handed two requests of one caller", ci)
			}
			seen[b.AccountAddress] = true
		}
		if len(seen) != len(p) {
			t.Fatalf("contract %d is handed requests of %d callers, %d have pending ones", ci, len(seen), len(p))
		}
		for _, caller := range w.callers(p) {
			for i, s := range p[caller] {
				ok, err := w.m.IsFrontOnRoadOfCaller(types.DELEGATE_GID, c, caller, s.b.Hash)
				if ok != (i == 0) || ok != (err == nil) {
					t.Fatalf("contract %d: the request number %d of a caller is the front: %v %v", ci, i, ok, err)
				}
			}
		}
		// received requests and those of other contracts are not the front
		for _, s := range w.f.sends {
			if s.received != nil && s.b.ToAddress == c {
				if ok, _ := w.m.IsFrontOnRoadOfCaller(types.DELEGATE_GID, c, s.b.AccountAddress, s.b.Hash); ok {
					t.Fatalf("contract %d: a received request is the front", ci)
				}
			}
		}
	}
}

// closure of the blocks that go with the given ones
func (w *world) closure(b *ledger.AccountBlock) map[types.Hash]bool {
	gone := map[types.Hash]bool{}
	var drop func(b *ledger.AccountBlock)
	drop = func(b *ledger.AccountBlock) {
		l := w.f.accounts[b.AccountAddress]
		for i := int(b.Height) - 1; i < len(l); i++ {
			x := l[i]
			if gone[x.Hash] {
				continue
			}
			gone[x.Hash] = true
			if s := w.f.sends[x.Hash]; s != nil && s.received != nil {
				drop(s.received)
			}
			for _, y := range x.SendBlockList {
				if s := w.f.sends[y.Hash]; s.received != nil {
					drop(s.received)
				}
			}
		}
	}
	drop(b)
	return gone
}

func TestOnroad(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "generated histories of requests from users and contracts to contracts, of contract responses, creations, rollbacks and restarts, told to the onroad manager as chain events: the first pending request of every caller is handed out, and only that; non-trivial when requests were received and rolled back and a response carried several requests",
		Quick: 1000, Thorough: 40000, Steps: 35,
	}, func(t *rapid.T, c *vlib.C) {
		f := &fake{sends: map[types.Hash]*send{}, blocks: map[types.Hash]*ledger.AccountBlock{}, meta: map[types.Address]*ledger.ContractMeta{}, accounts: map[types.Address][]*ledger.AccountBlock{}}
		w := &world{f: f}
		for i := 0; i < rapid.IntRange(1, 4).Draw(t, "users"); i++ {
			w.users = append(w.users, types.Address{1, byte(i + 1)})
		}
		for i, n := 0, rapid.IntRange(1, 4).Draw(t, "contracts"); i < n; i++ {
			a := types.CreateContractAddress([]byte{byte(i)})
			w.contracts = append(w.contracts, a)
			gid := types.DELEGATE_GID
			if i > 0 && rapid.IntRange(0, 3).Draw(t, "otherGroup") == 0 {
				gid = otherGid
			}
			f.meta[a] = &ledger.ContractMeta{Gid: gid}
		}
		w.open()
		defer func() { w.m.Close() }()
		t.Repeat(map[string]func(*rapid.T){
			"send": func(t *rapid.T) {
				a := rapid.SampledFrom(w.users).Draw(t, "from")
				h, prev := w.next(a)
				w.insert(t, &ledger.AccountBlock{BlockType: rapid.SampledFrom([]byte{ledger.BlockTypeSendCall, ledger.BlockTypeSendCall, ledger.BlockTypeSendRefund}).Draw(t, "type"), AccountAddress: a, ToAddress: w.target(t), Height: h, PrevHash: prev, Hash: w.hash()}, nil)
			},
			"create": func(t *rapid.T) {
				if len(w.contracts) > 6 {
					return
				}
				a := rapid.SampledFrom(w.users).Draw(t, "from")
				h, prev := w.next(a)
				n := types.CreateContractAddress([]byte{0xff, byte(w.serial), byte(w.serial >> 8)})
				gid := types.DELEGATE_GID
				if rapid.IntRange(0, 4).Draw(t, "otherGroup") == 0 {
					gid = otherGid
				}
				if rapid.Bool().Draw(t, "unsaved") {
					f.hidden = map[types.Address]bool{n: true}
				}
				w.insert(t, &ledger.AccountBlock{BlockType: ledger.BlockTypeSendCreate, AccountAddress: a, ToAddress: n, Height: h, PrevHash: prev, Hash: w.hash()}, map[types.Address]*ledger.ContractMeta{n: {Gid: gid}})
				w.contracts = append(w.contracts, n)
				w.created++
			},
			"receive": func(t *rapid.T) {
				for n := rapid.IntRange(1, 4).Draw(t, "n"); n > 0; n-- {
					c := rapid.SampledFrom(w.contracts).Draw(t, "contract")
					p := w.pending(c)
					if len(p) == 0 {
						continue
					}
					l := p[rapid.SampledFrom(w.callers(p)).Draw(t, "caller")]
					w.receive(t, c, l[0])
				}
			},
			"rollback": func(t *rapid.T) {
				if len(f.order) == 0 {
					return
				}
				var gone map[types.Hash]bool
				snapshot := rapid.Bool().Draw(t, "snapshot")
				if snapshot {
					from := rapid.IntRange(max(0, len(f.order)-8), len(f.order)-1).Draw(t, "from")
					gone = map[types.Hash]bool{}
					for _, b := range f.order[from:] {
						gone[b.Hash] = true
					}
				} else {
					gone = w.closure(f.order[rapid.IntRange(max(0, len(f.order)-10), len(f.order)-1).Draw(t, "block")])
				}
				// a created contract goes only with nothing left
				var l, keep []*ledger.AccountBlock
				for _, b := range f.order {
					if gone[b.Hash] {
						l = append(l, b)
					} else {
						keep = append(keep, b)
					}
				}
				for _, b := range l {
					if b.BlockType == ledger.BlockTypeSendCreate {
						// requests to the contract depend on its creation
						for _, s := range f.sends {
							if s.b.ToAddress == b.ToAddress && !gone[s.parent.Hash] {
								return
							}
						}
					}
				}
				in := append([]*ledger.AccountBlock(nil), l...)
				if !snapshot && len(in) > 1 {
					switch rapid.IntRange(0, 2).Draw(t, "order") {
					case 0:
						for i, j := 0, len(in)-1; i < j; i, j = i+1, j-1 {
							in[i], in[j] = in[j], in[i]
						}
					case 1:
						in = rapid.Permutation(in).Draw(t, "perm")
					}
				}
				var err error
				if snapshot {
					var chunks []*ledger.SnapshotChunk
					for len(in) > 0 {
						n := rapid.IntRange(1, len(in)).Draw(t, "chunk")
						chunks = append(chunks, &ledger.SnapshotChunk{SnapshotBlock: &ledger.SnapshotBlock{}, AccountBlocks: in[:n]})
						in = in[n:]
					}
					err = w.m.PrepareDeleteSnapshotBlocks(chunks)
				} else {
					err = w.m.PrepareDeleteAccountBlocks(in)
				}
				if err != nil {
					t.Fatalf("rollback: %v", err)
				}
				for i := len(l) - 1; i >= 0; i-- {
					b := l[i]
					delete(f.blocks, b.Hash)
					delete(f.sends, b.Hash)
					for _, s := range b.SendBlockList {
						delete(f.sends, s.Hash)
					}
					if s := f.sends[b.FromBlockHash]; s != nil && b.IsReceiveBlock() {
						s.received = nil
					}
					a := f.accounts[b.AccountAddress]
					f.accounts[b.AccountAddress] = a[:b.Height-1]
					if b.BlockType == ledger.BlockTypeSendCreate {
						delete(f.meta, b.ToAddress)
						for j, x := range w.contracts {
							if x == b.ToAddress {
								w.contracts = append(w.contracts[:j:j], w.contracts[j+1:]...)
								break
							}
						}
					}
				}
				f.order = keep
				if snapshot {
					w.m.DeleteSnapshotBlocks(nil)
				} else {
					w.m.DeleteAccountBlocks(l)
				}
				w.rolled += len(l)
			},
			"restart": func(t *rapid.T) {
				w.open()
				w.restarts++
			},
			"": func(t *rapid.T) { w.check(t) },
		})
		if w.recv > 0 && w.rolled > 0 && w.multi > 0 {
			c.NonTrivial(w.sent, w.recv, w.rolled, w.restarts, w.created, w.multi, len(w.contracts), len(w.users))
		}
		c.Sample("%d requests, %d received, %d blocks rolled back, %d restarts, %d contracts created, %d responses with several requests", w.sent, w.recv, w.rolled, w.restarts, w.created, w.multi)
		_ = fmt.Sprint
	})
}
