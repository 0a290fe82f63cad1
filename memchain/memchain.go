// Package memchain is an in-memory ledger: it implements the chain interface
// the real vm_db runs on and drives the real VM with send and receive blocks,
// so that histories of contract calls can be generated and replayed quickly.
package memchain

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"time"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	chain_genesis "github.com/vitelabs/go-vite/v2/ledger/chain/genesis"
	"github.com/vitelabs/go-vite/v2/vm"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"github.com/vitelabs/go-vite/v2/vm_db"
)

var Vite = core.ViteTokenId

// GenesisTime is the time of snapshot block 1.
const GenesisTime = int64(1558411200)

type Account struct {
	Blocks      []*core.AccountBlock
	Balance     map[types.TokenTypeId]*big.Int
	Storage     map[string][]byte
	Code        []byte
	Meta        *core.ContractMeta
	Unconfirmed []*core.AccountBlock
}

type Chain struct {
	Snapshots   []*core.SnapshotBlock
	Accts       map[types.Address]*Account
	Blocks      map[types.Hash]*core.AccountBlock
	ConfirmedAt map[types.Hash]uint64
	Depth       map[types.Hash]uint16
	Onroad      map[types.Address][]*core.AccountBlock
	OnroadAddrs []types.Address
	Logs        map[types.Hash]core.VmLogList
	quota       []map[types.Address]types.QuotaInfo // per snapshot, last: unconfirmed
	Reader      util.ConsensusReader
	snapByHash  map[types.Hash]*core.SnapshotBlock
	// StakeOverride, when set, replaces the stake read from the quota contract.
	StakeOverride func(addr types.Address) *big.Int
	// ExtraGlobal is added to the global quota usage (congestion)
	ExtraGlobal uint64
}

// New builds a chain whose first snapshot confirms the genesis blocks of cfg.
func New(cfg *config.Genesis) *Chain {
	c := &Chain{Accts: map[types.Address]*Account{}, Blocks: map[types.Hash]*core.AccountBlock{}, ConfirmedAt: map[types.Hash]uint64{},
		Depth: map[types.Hash]uint16{}, Onroad: map[types.Address][]*core.AccountBlock{}, Logs: map[types.Hash]core.VmLogList{},
		quota: []map[types.Address]types.QuotaInfo{{}}, snapByHash: map[types.Hash]*core.SnapshotBlock{}}
	list := chain_genesis.NewGenesisAccountBlocks(cfg)
	sort.Slice(list, func(i, j int) bool {
		return bytes.Compare(list[i].AccountBlock.AccountAddress[:], list[j].AccountBlock.AccountAddress[:]) < 0
	})
	for _, b := range list {
		c.apply(b)
	}
	c.Snapshot(GenesisTime)
	return c
}

func (c *Chain) Acct(a types.Address) *Account {
	x := c.Accts[a]
	if x == nil {
		x = &Account{Balance: map[types.TokenTypeId]*big.Int{}, Storage: map[string][]byte{}}
		c.Accts[a] = x
	}
	return x
}

func (c *Chain) apply(b *interfaces.VmAccountBlock) {
	ab, db := b.AccountBlock, b.VmDb
	a := c.Acct(ab.AccountAddress)
	for k, v := range db.GetUnsavedBalanceMap() {
		a.Balance[k] = new(big.Int).Set(v)
	}
	for _, kv := range db.GetUnsavedStorage() {
		if len(kv[1]) == 0 {
			delete(a.Storage, string(kv[0]))
		} else {
			a.Storage[string(kv[0])] = append([]byte{}, kv[1]...)
		}
	}
	if code := db.GetUnsavedContractCode(); len(code) > 0 {
		a.Code = append([]byte{}, code...)
	}
	for addr, m := range db.GetUnsavedContractMeta() {
		mm := *m
		mm.CreateBlockHash = ab.Hash
		c.Acct(addr).Meta = &mm
	}
	if ab.LogHash != nil {
		c.Logs[*ab.LogHash] = append(core.VmLogList{}, db.GetLogList()...)
	}
	if ab.IsReceiveBlock() && len(ab.SendBlockList) > 0 {
		for _, s := range ab.SendBlockList {
			c.Depth[s.Hash] = c.Depth[ab.FromBlockHash] + 1
		}
	}
	a.Blocks = append(a.Blocks, ab)
	a.Unconfirmed = append(a.Unconfirmed, ab)
	c.Blocks[ab.Hash] = ab
	last := c.quota[len(c.quota)-1]
	q := last[ab.AccountAddress]
	q.BlockCount++
	q.QuotaTotal += ab.Quota
	q.QuotaUsedTotal += ab.QuotaUsed
	last[ab.AccountAddress] = q
	if ab.BlockType == core.BlockTypeGenesisReceive {
		return
	}
	if ab.IsSendBlock() {
		c.addOnroad(ab)
	} else {
		for i, s := range c.Onroad[ab.AccountAddress] {
			if s.Hash == ab.FromBlockHash {
				l := c.Onroad[ab.AccountAddress]
				c.Onroad[ab.AccountAddress] = append(append([]*core.AccountBlock{}, l[:i]...), l[i+1:]...)
				break
			}
		}
		for _, s := range ab.SendBlockList {
			c.Blocks[s.Hash] = s
			c.addOnroad(s)
		}
	}
}

func (c *Chain) addOnroad(s *core.AccountBlock) {
	if _, ok := c.Onroad[s.ToAddress]; !ok {
		c.OnroadAddrs = append(c.OnroadAddrs, s.ToAddress)
	}
	c.Onroad[s.ToAddress] = append(c.Onroad[s.ToAddress], s)
}

// Snapshot confirms everything unconfirmed in a new snapshot block with the given time.
func (c *Chain) Snapshot(unix int64) *core.SnapshotBlock {
	t := time.Unix(unix, 0)
	sb := &core.SnapshotBlock{Height: uint64(len(c.Snapshots) + 1), Timestamp: &t, SnapshotContent: core.SnapshotContent{}}
	if len(c.Snapshots) > 0 {
		sb.PrevHash = c.Snapshots[len(c.Snapshots)-1].Hash
	}
	for addr, a := range c.Accts {
		if len(a.Unconfirmed) > 0 {
			b := a.Unconfirmed[len(a.Unconfirmed)-1]
			sb.SnapshotContent[addr] = &core.HashHeight{Hash: b.Hash, Height: b.Height}
			for _, u := range a.Unconfirmed {
				c.ConfirmedAt[u.Hash] = sb.Height
				for _, s := range u.SendBlockList {
					c.ConfirmedAt[s.Hash] = sb.Height
				}
			}
			a.Unconfirmed = nil
		}
	}
	sb.Seed = uint64(unix)*7 + sb.Height
	sb.Hash = sb.ComputeHash()
	c.Snapshots = append(c.Snapshots, sb)
	c.snapByHash[sb.Hash] = sb
	c.quota = append(c.quota, map[types.Address]types.QuotaInfo{})
	return sb
}

func (c *Chain) Latest() *core.SnapshotBlock { return c.Snapshots[len(c.Snapshots)-1] }
func (c *Chain) Height() uint64              { return uint64(len(c.Snapshots)) }

// Tick adds n snapshot blocks one second apart.
func (c *Chain) Tick(n int) {
	for i := 0; i < n; i++ {
		c.Snapshot(c.Latest().Timestamp.Unix() + 1)
	}
}

// Db opens the real vm_db on top of the current state.
func (c *Chain) Db(addr types.Address) interfaces.VmDb {
	h := c.Latest().Hash
	var prev types.Hash
	if bs := c.Acct(addr).Blocks; len(bs) > 0 {
		prev = bs[len(bs)-1].Hash
	}
	a := addr
	db, err := vm_db.NewVmDb(c, &a, &h, &prev)
	if err != nil {
		panic(err)
	}
	return db
}

// Tx describes a user's send.
type Tx struct {
	From, To   types.Address
	Amount     *big.Int
	Token      types.TokenTypeId
	Data       []byte
	Create     bool
	Difficulty *big.Int
	Fee        *big.Int
}

// NextBlock fills in the chain position of a new block of addr.
func (c *Chain) NextBlock(addr types.Address, typ byte) *core.AccountBlock {
	b := &core.AccountBlock{BlockType: typ, AccountAddress: addr, Height: 1, Amount: big.NewInt(0), Fee: big.NewInt(0)}
	if bs := c.Acct(addr).Blocks; len(bs) > 0 {
		b.Height = bs[len(bs)-1].Height + 1
		b.PrevHash = bs[len(bs)-1].Hash
	}
	return b
}

// MakeSend builds the block of tx.
func (c *Chain) MakeSend(tx Tx) *core.AccountBlock {
	typ := core.BlockTypeSendCall
	if tx.Create {
		typ = core.BlockTypeSendCreate
	}
	b := c.NextBlock(tx.From, typ)
	b.ToAddress, b.TokenId, b.Data = tx.To, tx.Token, tx.Data
	if tx.Amount != nil {
		b.Amount = new(big.Int).Set(tx.Amount)
	}
	if tx.Fee != nil {
		b.Fee = new(big.Int).Set(tx.Fee)
	}
	if tx.Difficulty != nil {
		b.Difficulty = tx.Difficulty
		b.Nonce = []byte{1, 2, 3, 4, 5, 6, 7, 8}
	}
	return b
}

// Result of running a block.
type Result struct {
	Block *core.AccountBlock // nil: nothing produced
	Db    interfaces.VmDb
	Retry bool
	Err   error
	Panic interface{}
}

// Run executes a block on the current state without inserting it.
func (c *Chain) Run(b *core.AccountBlock, from *core.AccountBlock) (r Result) {
	db := c.Db(b.AccountAddress)
	var st util.GlobalStatus
	if from != nil {
		st = c.status(b.AccountAddress, from)
	}
	defer func() {
		if p := recover(); p != nil {
			r.Panic = p
			r.Block = nil
		}
	}()
	vb, retry, err := vm.NewVM(c.Reader).RunV2(db, b, from, st)
	r.Retry, r.Err = retry, err
	if vb != nil {
		for i, s := range vb.AccountBlock.SendBlockList {
			s.Hash = s.ComputeSendHash(vb.AccountBlock, uint8(i))
		}
		vb.AccountBlock.Hash = vb.AccountBlock.ComputeHash()
		r.Block, r.Db = vb.AccountBlock, vb.VmDb
	}
	return r
}

// Insert applies an executed block.
func (c *Chain) Insert(r Result) {
	c.apply(&interfaces.VmAccountBlock{AccountBlock: r.Block, VmDb: r.Db})
}

// Send runs a user's transaction and inserts it if it was accepted.
func (c *Chain) Send(tx Tx) Result {
	r := c.Run(c.MakeSend(tx), nil)
	if r.Err == nil && r.Block != nil && r.Panic == nil {
		c.Insert(r)
	}
	return r
}

// Receive runs the receive block for a pending send and inserts what the VM says has to be inserted.
func (c *Chain) Receive(from *core.AccountBlock) Result {
	r := c.Run(c.MakeReceive(from), from)
	if r.Panic == nil && r.Block != nil {
		c.Insert(r)
	}
	return r
}

func (c *Chain) MakeReceive(from *core.AccountBlock) *core.AccountBlock {
	b := c.NextBlock(from.ToAddress, core.BlockTypeReceive)
	b.FromBlockHash = from.Hash
	b.Amount, b.Fee = nil, nil
	return b
}

type status struct {
	sb   *core.SnapshotBlock
	seed uint64
	n    uint64
}

func (s *status) Seed() (uint64, error) { return s.seed, nil }
func (s *status) Random() (uint64, error) {
	s.n++
	return s.seed*6364136223846793005 + s.n*1442695040888963407, nil
}
func (s *status) SnapshotBlock() *core.SnapshotBlock { return s.sb }

func (c *Chain) status(addr types.Address, from *core.AccountBlock) util.GlobalStatus {
	h := c.ConfirmedAt[from.Hash]
	if h == 0 {
		h = c.Height()
	}
	sb := c.Snapshots[h-1]
	return &status{sb: sb, seed: sb.Seed ^ uint64(from.Hash[0])}
}

// ------------------------------------------------------------ vm_db.Chain

func (c *Chain) GetQuotaUsedList(address types.Address) []types.QuotaInfo {
	l := c.quota
	if len(l) > 75 {
		l = l[len(l)-75:]
	}
	var out []types.QuotaInfo
	for _, m := range l {
		out = append(out, m[address])
	}
	return out
}

func (c *Chain) GetGlobalQuota() types.QuotaInfo {
	l := c.quota
	if len(l) > 75 {
		l = l[len(l)-75:]
	}
	var g types.QuotaInfo
	for _, m := range l[:len(l)-1] {
		for _, q := range m {
			g.BlockCount += q.BlockCount
			g.QuotaTotal += q.QuotaTotal
			g.QuotaUsedTotal += q.QuotaUsedTotal
		}
	}
	g.QuotaUsedTotal += c.ExtraGlobal
	return g
}

func (c *Chain) GetBalance(addr types.Address, tokenId types.TokenTypeId) (*big.Int, error) {
	if b := c.Acct(addr).Balance[tokenId]; b != nil {
		return new(big.Int).Set(b), nil
	}
	return new(big.Int), nil
}

func (c *Chain) GetContractCode(a types.Address) ([]byte, error) { return c.Acct(a).Code, nil }
func (c *Chain) GetContractMeta(a types.Address) (*core.ContractMeta, error) {
	if m := core.GetBuiltinContractMeta(a); m != nil {
		return m, nil
	}
	return c.Acct(a).Meta, nil
}
func (c *Chain) GetConfirmSnapshotHeaderByAbHash(h types.Hash) (*core.SnapshotBlock, error) {
	if x := c.ConfirmedAt[h]; x > 0 {
		return c.Snapshots[x-1], nil
	}
	return nil, nil
}
func (c *Chain) GetConfirmedTimes(h types.Hash) (uint64, error) {
	if x := c.ConfirmedAt[h]; x > 0 {
		return c.Height() + 1 - x, nil
	}
	return 0, nil
}
func (c *Chain) GetContractMetaInSnapshot(a types.Address, height uint64) (*core.ContractMeta, error) {
	if m := core.GetBuiltinContractMeta(a); m != nil {
		return m, nil
	}
	m := c.Acct(a).Meta
	if m == nil {
		return nil, nil
	}
	if x := c.ConfirmedAt[m.CreateBlockHash]; x == 0 || x > height {
		return nil, nil
	}
	return m, nil
}
func (c *Chain) GetSnapshotHeaderByHash(h types.Hash) (*core.SnapshotBlock, error) {
	return c.snapByHash[h], nil
}
func (c *Chain) GetSnapshotBlockByHeight(height uint64) (*core.SnapshotBlock, error) {
	if height == 0 || height > c.Height() {
		return nil, nil
	}
	return c.Snapshots[height-1], nil
}
func (c *Chain) GetAccountBlockByHash(h types.Hash) (*core.AccountBlock, error) {
	return c.Blocks[h], nil
}
func (c *Chain) GetLatestAccountBlock(a types.Address) (*core.AccountBlock, error) {
	if bs := c.Acct(a).Blocks; len(bs) > 0 {
		return bs[len(bs)-1], nil
	}
	return nil, nil
}
func (c *Chain) GetVmLogList(h *types.Hash) (core.VmLogList, error) { return c.Logs[*h], nil }
func (c *Chain) GetUnconfirmedBlocks(a types.Address) []*core.AccountBlock {
	return c.Acct(a).Unconfirmed
}
func (c *Chain) GetGenesisSnapshotBlock() *core.SnapshotBlock { return c.Snapshots[0] }
func (c *Chain) GetStakeBeneficialAmount(a types.Address) (*big.Int, error) {
	if c.StakeOverride != nil {
		return c.StakeOverride(a), nil
	}
	return cabi.GetStakeBeneficialAmount(c.Storage(types.AddressQuota), a)
}
func (c *Chain) GetStorageIterator(a types.Address, prefix []byte) (interfaces.StorageIterator, error) {
	return newIter(c.Acct(a).Storage, prefix), nil
}
func (c *Chain) GetValue(a types.Address, key []byte) ([]byte, error) {
	return c.Acct(a).Storage[string(key)], nil
}
func (c *Chain) GetCallDepth(h types.Hash) (uint16, error) { return c.Depth[h], nil }
func (c *Chain) GetSnapshotBlockByContractMeta(a types.Address, h types.Hash) (*core.SnapshotBlock, error) {
	return nil, nil
}
func (c *Chain) GetSeedConfirmedSnapshotBlock(a types.Address, h types.Hash) (*core.SnapshotBlock, error) {
	return nil, nil
}
func (c *Chain) GetSeed(l *core.SnapshotBlock, h types.Hash) (uint64, error) { return l.Seed, nil }

// Storage is a read-only view of a contract's storage (cabi.StorageDatabase).
func (c *Chain) Storage(a types.Address) *View { return &View{c, a} }

type View struct {
	c *Chain
	a types.Address
}

func (v *View) GetValue(key []byte) ([]byte, error) { return v.c.GetValue(v.a, key) }
func (v *View) NewStorageIterator(prefix []byte) (interfaces.StorageIterator, error) {
	return v.c.GetStorageIterator(v.a, prefix)
}
func (v *View) Address() *types.Address { return &v.a }

// Iter is a sorted iterator over a snapshot of a map.
type Iter struct {
	keys []string
	m    map[string][]byte
	i    int
}

func newIter(m map[string][]byte, prefix []byte) *Iter {
	it := &Iter{m: map[string][]byte{}, i: -1}
	for k, v := range m {
		if len(k) >= len(prefix) && k[:len(prefix)] == string(prefix) {
			it.keys = append(it.keys, k)
			it.m[k] = v
		}
	}
	sort.Strings(it.keys)
	return it
}

// NewIter makes an iterator over the entries of m with the prefix.
func NewIter(m map[string][]byte, prefix []byte) *Iter { return newIter(m, prefix) }

func (it *Iter) ok() bool { return it.i >= 0 && it.i < len(it.keys) }
func (it *Iter) Last() bool {
	it.i = len(it.keys) - 1
	return it.ok()
}
func (it *Iter) Prev() bool {
	if it.i < 0 {
		return false
	}
	it.i--
	return it.ok()
}
func (it *Iter) Seek(key []byte) bool {
	it.i = sort.SearchStrings(it.keys, string(key))
	return it.ok()
}
func (it *Iter) Next() bool {
	if it.i >= len(it.keys) {
		return false
	}
	it.i++
	return it.ok()
}
func (it *Iter) Key() []byte {
	if !it.ok() {
		return nil
	}
	return []byte(it.keys[it.i])
}
func (it *Iter) Value() []byte {
	if !it.ok() {
		return nil
	}
	return it.m[it.keys[it.i]]
}
func (it *Iter) Error() error { return nil }
func (it *Iter) Release()     {}

// Totals sums balances of every account by token.
func (c *Chain) Totals() map[types.TokenTypeId]*big.Int {
	t := map[types.TokenTypeId]*big.Int{}
	for _, a := range c.Accts {
		for k, v := range a.Balance {
			if t[k] == nil {
				t[k] = new(big.Int)
			}
			t[k].Add(t[k], v)
		}
	}
	return t
}

func (c *Chain) String() string {
	return fmt.Sprintf("chain(height %d, %d accounts)", c.Height(), len(c.Accts))
}
