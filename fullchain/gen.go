package fullchain

import (
	"encoding/binary"
	"fmt"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"pgregory.net/rapid"
)

// head of an account: its last block in the record.
func (w *World) head(a types.Address) *Blk {
	for i := len(w.Un) - 1; i >= 0; i-- {
		if w.Un[i].B.AccountAddress == a {
			return w.Un[i]
		}
	}
	for i := len(w.Chunks) - 1; i >= 0; i-- {
		c := w.Chunks[i]
		for j := len(c.Blks) - 1; j >= 0; j-- {
			if c.Blks[j].B.AccountAddress == a {
				return c.Blks[j]
			}
		}
	}
	return nil
}

// View is the state after replaying the record up to a point.
type View struct {
	Bal     map[types.Address]map[types.TokenTypeId]*big.Int
	KV      map[types.Address]map[string][]byte
	Code    map[types.Address][]byte
	Meta    map[types.Address]*core.ContractMeta
	Heads   map[types.Address]*Blk
	Blocks  map[types.Address][]*Blk
	ByHash  map[types.Hash]*Blk // also the sends a receive carries
	Sends   map[types.Hash]*core.AccountBlock
	Recv    map[types.Hash]*Blk // send hash -> its receive
	Conf    map[types.Hash]uint64
	Depth   map[types.Hash]uint16
	LogList map[types.Hash]core.VmLogList
}

func newView() *View {
	return &View{Bal: map[types.Address]map[types.TokenTypeId]*big.Int{}, KV: map[types.Address]map[string][]byte{}, Code: map[types.Address][]byte{},
		Meta: map[types.Address]*core.ContractMeta{}, Heads: map[types.Address]*Blk{}, Blocks: map[types.Address][]*Blk{}, ByHash: map[types.Hash]*Blk{},
		Sends: map[types.Hash]*core.AccountBlock{}, Recv: map[types.Hash]*Blk{}, Conf: map[types.Hash]uint64{}, Depth: map[types.Hash]uint16{},
		LogList: map[types.Hash]core.VmLogList{}}
}

func (v *View) apply(b *Blk, conf uint64) {
	a := b.B.AccountAddress
	if v.Bal[a] == nil {
		v.Bal[a] = map[types.TokenTypeId]*big.Int{}
		v.KV[a] = map[string][]byte{}
	}
	for t, x := range b.Bal {
		v.Bal[a][t] = x
	}
	for k, x := range b.KV {
		if len(x) == 0 {
			delete(v.KV[a], k)
		} else {
			v.KV[a][k] = x
		}
	}
	if b.Code != nil {
		v.Code[a] = b.Code
	}
	for x, m := range b.Meta {
		v.Meta[x] = m
	}
	v.Heads[a] = b
	v.Blocks[a] = append(v.Blocks[a], b)
	v.ByHash[b.B.Hash] = b
	v.Conf[b.B.Hash] = conf
	if b.B.LogHash != nil {
		v.LogList[*b.B.LogHash] = b.Logs
	}
	if b.B.IsSendBlock() {
		v.Sends[b.B.Hash] = b.B
	} else if b.B.BlockType != core.BlockTypeGenesisReceive {
		v.Recv[b.B.FromBlockHash] = b
	}
	for _, s := range b.B.SendBlockList {
		v.Sends[s.Hash] = s
		v.ByHash[s.Hash] = b
		v.Conf[s.Hash] = conf
		v.Depth[s.Hash] = v.Depth[b.B.FromBlockHash] + 1
	}
}

// At replays the record up to snapshot height h; un adds the unconfirmed blocks.
func (w *World) At(h uint64, un bool) *View {
	v := newView()
	for _, c := range w.Chunks {
		if c.SB.Height > h {
			break
		}
		for _, b := range c.Blks {
			v.apply(b, c.SB.Height)
		}
	}
	if un {
		for _, b := range w.Un {
			v.apply(b, 0)
		}
	}
	return v
}

// Now is the latest view.
func (w *World) Now() *View { return w.At(w.Latest().SB.Height, true) }

func (w *World) salt() []byte {
	w.Salt++
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, w.Salt)
	return b
}

func (w *World) base(a types.Address, typ byte) *Blk {
	b := &core.AccountBlock{BlockType: typ, AccountAddress: a, Height: 1, Amount: big.NewInt(0), Fee: big.NewInt(0)}
	if p := w.head(a); p != nil {
		b.Height, b.PrevHash = p.B.Height+1, p.B.Hash
	}
	return &Blk{B: b, Bal: map[types.TokenTypeId]*big.Int{}, KV: map[string][]byte{}, Meta: map[types.Address]*core.ContractMeta{}}
}

var amounts = rapid.OneOf(rapid.Uint64Range(0, 3), rapid.Uint64Range(1e9, 1e18), rapid.Just(uint64(0)))

func (w *World) balances(t *rapid.T, b *Blk) {
	for _, tok := range w.Tokens {
		if rapid.IntRange(0, 2).Draw(t, "touch") > 0 {
			b.Bal[tok] = new(big.Int).SetUint64(amounts.Draw(t, "balance"))
		}
	}
}

// Key draws a storage key of a contract.
func Key(t *rapid.T) string {
	n := rapid.SampledFrom([]int{1, 1, 2, 3, 31, 32}).Draw(t, "keyLen")
	k := make([]byte, n)
	k[0] = rapid.SampledFrom([]byte{0xf0, 0xf1, 0x00}).Draw(t, "k0")
	if k[0] == 0 {
		k[0] = 0xfe
		if n > 1 {
			k[1] = 0
		}
	}
	k[n-1] ^= rapid.SampledFrom([]byte{0, 0, 1, 0xff}).Draw(t, "kn")
	return string(k)
}

var values = rapid.OneOf(rapid.Just([]byte(nil)), rapid.SliceOfN(rapid.Byte(), 1, 40))

func (w *World) storage(t *rapid.T, b *Blk) {
	for i := rapid.IntRange(0, 4).Draw(t, "writes"); i > 0; i-- {
		b.KV[Key(t)] = values.Draw(t, "value")
	}
}

func (w *World) logs(t *rapid.T, b *Blk) {
	for i := rapid.IntRange(0, 2).Draw(t, "logs"); i > 0; i-- {
		l := &core.VmLog{Data: rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(t, "logData")}
		for j := rapid.IntRange(0, 2).Draw(t, "topics"); j > 0; j-- {
			var h types.Hash
			h[31] = rapid.ByteRange(0, 2).Draw(t, "topic")
			l.Topics = append(l.Topics, h)
		}
		b.Logs = append(b.Logs, l)
	}
}

func (w *World) targets(v *View) []types.Address {
	l := append([]types.Address{}, w.Users...)
	for _, c := range w.Contracts {
		if v.Meta[c] != nil {
			l = append(l, c, c)
		}
	}
	return append(l, types.AddressAsset, types.AddressGovernance, types.AddressQuota, memUser9)
}

// memUser9 has no genesis block: its account starts with a receive.
var memUser9 = types.Address{0x10, 0, 9, 9, 9}

// pending lists the sends waiting for addr, oldest first.
func (w *World) pending(v *View, addr types.Address) []*core.AccountBlock {
	var l []*core.AccountBlock
	see := func(b *Blk) {
		if b.B.IsSendBlock() && b.B.ToAddress == addr && v.Recv[b.B.Hash] == nil {
			l = append(l, b.B)
		}
		for _, s := range b.B.SendBlockList {
			if s.ToAddress == addr && v.Recv[s.Hash] == nil {
				l = append(l, s)
			}
		}
	}
	for _, c := range w.Chunks {
		for _, b := range c.Blks {
			see(b)
		}
	}
	for _, b := range w.Un {
		see(b)
	}
	return l
}

// Block draws a new account block, or nil when the drawn kind has nothing to work on.
func (w *World) Block(t *rapid.T) *Blk {
	v := w.Now()
	var b *Blk
	kind := rapid.SampledFrom([]string{"send", "send", "create", "receive", "receive", "receive", "contract", "contract", "contract", "builtin", "builtin"}).Draw(t, "kind")
	switch kind {
	case "send", "create":
		var senders []types.Address
		senders = append(senders, w.Users...)
		if v.Heads[memUser9] != nil {
			senders = append(senders, memUser9)
		}
		from := rapid.SampledFrom(senders).Draw(t, "from")
		b = w.base(from, core.BlockTypeSendCall)
		b.B.Data = w.salt()
		b.B.TokenId = rapid.SampledFrom(w.Tokens).Draw(t, "token")
		b.B.Amount = new(big.Int).SetUint64(amounts.Draw(t, "amount"))
		b.B.Quota = uint64(rapid.IntRange(0, 50000).Draw(t, "quota"))
		b.B.QuotaUsed = b.B.Quota
		w.pow(t, b.B)
		b.B.PublicKey = w.Producers[0]
		b.B.Signature = []byte{9}
		if kind == "create" {
			var free []types.Address
			for _, c := range w.Contracts {
				if v.Meta[c] == nil {
					free = append(free, c)
				}
			}
			if len(free) == 0 {
				return nil
			}
			b.B.BlockType = core.BlockTypeSendCreate
			b.B.ToAddress = rapid.SampledFrom(free).Draw(t, "contract")
			b.Meta[b.B.ToAddress] = &core.ContractMeta{Gid: Gid(rapid.IntRange(0, 2).Draw(t, "gid")), QuotaRatio: byte(rapid.IntRange(10, 12).Draw(t, "ratio")),
				SendConfirmedTimes: byte(rapid.IntRange(0, 3).Draw(t, "conf")), SeedConfirmedTimes: byte(rapid.IntRange(0, 2).Draw(t, "seedConf"))}
		} else {
			b.B.ToAddress = rapid.SampledFrom(w.targets(v)).Draw(t, "to")
		}
		w.balances(t, b)
	case "receive":
		a := rapid.SampledFrom(append(append([]types.Address{}, w.Users...), memUser9)).Draw(t, "user")
		p := w.pending(v, a)
		if len(p) == 0 {
			return nil
		}
		b = w.base(a, core.BlockTypeReceive)
		b.B.Data = w.salt()
		b.B.FromBlockHash = rapid.SampledFrom(p).Draw(t, "from").Hash
		b.B.Quota = 21000
		b.B.QuotaUsed = 21000
		w.pow(t, b.B)
		w.balances(t, b)
	case "contract", "builtin":
		var a types.Address
		if kind == "contract" {
			var l []types.Address
			for _, c := range w.Contracts {
				if v.Meta[c] != nil && len(w.pending(v, c)) > 0 {
					l = append(l, c)
				}
			}
			if len(l) == 0 {
				return nil
			}
			a = rapid.SampledFrom(l).Draw(t, "addr")
		} else {
			a = rapid.SampledFrom([]types.Address{types.AddressAsset, types.AddressGovernance, types.AddressGovernance, types.AddressQuota}).Draw(t, "addr")
		}
		p := w.pending(v, a)
		if len(p) == 0 {
			return nil
		}
		b = w.base(a, core.BlockTypeReceive)
		from := rapid.SampledFrom(p).Draw(t, "from")
		if kind == "contract" && v.Heads[a] == nil {
			for _, x := range p { // the first receive of a contract is that of its creation
				if x.BlockType == core.BlockTypeSendCreate {
					from = x
				}
			}
			if from.BlockType != core.BlockTypeSendCreate {
				return nil
			}
			b.Code = append([]byte{0x60}, w.salt()...)
			if rapid.IntRange(0, 6).Draw(t, "emptyCode") == 0 {
				b.Code = nil
			}
		}
		b.B.FromBlockHash = from.Hash
		b.B.Data = w.salt()
		if kind == "contract" {
			b.B.Quota = uint64(rapid.IntRange(0, 50000).Draw(t, "quota"))
			b.B.QuotaUsed = b.B.Quota
			if rapid.IntRange(0, 7).Draw(t, "error") == 0 && v.Heads[a] != nil {
				b.B.BlockType = core.BlockTypeReceiveError
			}
		}
		w.balances(t, b)
		w.storage(t, b)
		if a == types.AddressGovernance { // long keys are votes and registrations
			for k := range b.KV {
				if len(k) > 3 {
					delete(b.KV, k)
				}
			}
		}
		if a == types.AddressGovernance && rapid.Bool().Draw(t, "vote") {
			voter := rapid.SampledFrom(w.Users).Draw(t, "voter")
			val := []byte(nil)
			if n := rapid.IntRange(0, 3).Draw(t, "sbp"); n > 0 {
				val, _ = abi.ABIGovernance.PackVariable(abi.VariableNameVoteInfo, fmt.Sprintf("s%d", n))
			}
			b.KV[string(abi.GetVoteInfoKey(voter, types.SNAPSHOT_GID))] = val
		}
		if a == types.AddressQuota {
			b.KV = map[string][]byte{} // stays what the quota calculation expects
			if rapid.Bool().Draw(t, "qk") {
				b.KV["\xf7"] = values.Draw(t, "qv")
			}
		}
		w.logs(t, b)
		for i := rapid.SampledFrom([]int{0, 0, 1, 2, 3}).Draw(t, "sends"); i > 0; i-- {
			b.B.SendBlockList = append(b.B.SendBlockList, &core.AccountBlock{BlockType: core.BlockTypeSendCall, AccountAddress: a,
				ToAddress: rapid.SampledFrom(w.targets(v)).Draw(t, "to"), Amount: new(big.Int).SetUint64(amounts.Draw(t, "amount")),
				TokenId: rapid.SampledFrom(w.Tokens).Draw(t, "token"), Data: w.salt(), Fee: big.NewInt(0)})
		}
	}
	w.finish(b)
	return b
}

// Insert puts a block into the chain.
func (w *World) Insert(b *Blk) error { return w.insert(b) }

// Again finds a deleted block that fits on the chain as it is now (nil if there is none).
func (w *World) Again(t *rapid.T) *Blk {
	v := w.Now()
	var l []*Blk
	for _, b := range w.AllBlks {
		if v.ByHash[b.B.Hash] != nil {
			continue
		}
		p := v.Heads[b.B.AccountAddress]
		if p == nil && b.B.Height != 1 || p != nil && p.B.Hash != b.B.PrevHash {
			continue
		}
		if b.B.IsReceiveBlock() && (v.Sends[b.B.FromBlockHash] == nil || v.Recv[b.B.FromBlockHash] != nil) {
			continue
		}
		clash := false
		for a := range b.Meta {
			clash = clash || v.Meta[a] != nil
		}
		if types.IsContractAddr(b.B.AccountAddress) && !types.IsBuiltinContractAddr(b.B.AccountAddress) && v.Meta[b.B.AccountAddress] == nil {
			clash = true
		}
		if len(b.Logs) > 0 && *b.Logs.Hash(w.Latest().SB.Height, b.B.AccountAddress, b.B.PrevHash) != *b.B.LogHash {
			clash = true
		}
		if !clash {
			l = append(l, b)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return rapid.SampledFrom(l).Draw(t, "again")
}

// Pick draws the blocks a snapshot confirms: a prefix of the unconfirmed ones, or any set closed under what it rests on.
func (w *World) Pick(t *rapid.T) map[*Blk]bool {
	out := map[*Blk]bool{}
	switch rapid.IntRange(0, 3).Draw(t, "content") {
	case 0:
	case 1:
		for _, b := range w.Un {
			out[b] = true
		}
	case 2:
		n := rapid.IntRange(0, len(w.Un)).Draw(t, "prefix")
		for _, b := range w.Un[:n] {
			out[b] = true
		}
	default:
		v := w.Now()
		var add func(b *Blk)
		add = func(b *Blk) {
			if b == nil || out[b] || v.Conf[b.B.Hash] != 0 {
				return
			}
			out[b] = true
			for _, x := range v.Blocks[b.B.AccountAddress] {
				if x.B.Height < b.B.Height {
					add(x)
				}
			}
			if b.B.IsReceiveBlock() {
				add(v.ByHash[b.B.FromBlockHash])
			}
			if m := v.Meta[b.B.AccountAddress]; m != nil {
				add(v.ByHash[m.CreateBlockHash])
			}
		}
		for _, b := range w.Un {
			if rapid.IntRange(0, 2).Draw(t, "pick") == 0 {
				add(b)
			}
		}
	}
	return out
}

// pow lets a proof of work pay for some of the quota a block uses.
func (w *World) pow(t *rapid.T, b *core.AccountBlock) {
	if rapid.IntRange(0, 3).Draw(t, "pow") > 0 {
		return
	}
	b.Nonce = []byte{1, 2, 3, 4, 5, 6, 7, 8}
	b.Difficulty = big.NewInt(int64(rapid.SampledFrom([]int{1, 1 << 16, 1 << 22, 1 << 24, 1 << 26, 1 << 28}).Draw(t, "difficulty")))
	q, err := quota.CalcBlockQuotaUsed(w.C, b, w.C.GetLatestSnapshotBlock().Height+1)
	must(err, "CalcBlockQuotaUsed")
	b.Quota = q
}
