package c32

import (
	"fmt"
	"math/big"
	"os"
	"time"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	chain_genesis "github.com/vitelabs/go-vite/v2/ledger/chain/genesis"
	cscore "github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/generator"
	"github.com/vitelabs/go-vite/v2/ledger/onroad"
	"github.com/vitelabs/go-vite/v2/ledger/verifier"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/fullchain"
	"verif/memchain"
)

type key struct {
	addr types.Address
	pub  ed25519.PublicKey
	priv ed25519.PrivateKey
}

func mkKey(i int) key {
	var seed [32]byte
	seed[0], seed[31] = byte(i), 0x32
	pub, priv, err := ed25519.GenerateKeyFromD(seed)
	if err != nil {
		panic(err)
	}
	return key{types.PubkeyToAddress(pub), pub, priv}
}

func (k key) signFunc(m []byte) ([]byte, ed25519.PublicKey, error) {
	return ed25519.Sign(k.priv, m), k.pub, nil
}

const nUsers, nProducers = 4, 3

var userKeys, producerKeys []key

func init() {
	for i := 0; i < nUsers; i++ {
		userKeys = append(userKeys, mkKey(i+1))
	}
	for i := 0; i < nProducers; i++ {
		producerKeys = append(producerKeys, mkKey(i+101))
	}
}

func isProducer(pub []byte) bool {
	a := types.PubkeyToAddress(pub)
	for _, k := range producerKeys {
		if k.addr == a {
			return true
		}
	}
	return false
}

var codes = []struct {
	name string
	code []byte
	conf uint8
}{
	{"sink", []byte{0x00}, 0},
	{"echo", []byte{
		0x60, 0, 0x60, 0, 0x60, 2, 0x34, 0x04, 0x46, 0x33, 0xf1,
		0x60, 0, 0x60, 0, 0x60, 2, 0x34, 0x04, 0x46, 0x33, 0xf1,
		0x60, 5, 0x60, 0, 0x60, 0, 0xa1, 0x00}, 0},
	{"revert", []byte{0x60, 0, 0x60, 0, 0xfd}, 0},
	{"count", []byte{0x60, 0, 0x54, 0x60, 1, 0x01, 0x60, 0, 0x55, 0x60, 9, 0x60, 0, 0x60, 0, 0xa1, 0x00}, 1},
}

func initCode(rt []byte) []byte {
	return append([]byte{0x60, byte(len(rt)), 0x60, 12, 0x60, 0, 0x39, 0x60, byte(len(rt)), 0x60, 0, 0xf3}, rt...)
}

// cons: snapshot producers take turns by height, every producer may answer for contracts
type cons struct{}

func (cons) VerifyABsProducer(map[types.Gid][]*core.AccountBlock) ([]*core.AccountBlock, error) {
	return nil, nil
}
func (cons) VerifySnapshotProducer(b *core.SnapshotBlock) (bool, error) {
	return isProducer(b.PublicKey), nil
}
func (cons) VerifyAccountProducer(b *core.AccountBlock) (bool, error) {
	return isProducer(b.PublicKey), nil
}

type stats struct {
	cscore.SBPStatReader
	nodes  int
	period time.Duration
}

func (stats) DayStats(a, b uint64) ([]*cscore.DayStats, error) { return nil, nil }
func (stats) GetDayTimeIndex() cscore.TimeIndex {
	return cscore.NewTimeIndex(time.Unix(memchain.GenesisTime, 0), 24*time.Hour)
}
func (s stats) GetPeriodTimeIndex() cscore.TimeIndex {
	return cscore.NewTimeIndex(time.Unix(memchain.GenesisTime, 0), s.period)
}
func (s stats) GetNodeCount() int { return s.nodes }

// node is a ledger with everything that checks and executes blocks.
type node struct {
	c chain.Chain
	m *onroad.Manager
	v verifier.Verifier
}

func newNode(t *rapid.T, st stats) *node {
	cfg := memchain.Genesis(memchain.GenesisOpt{Users: nUsers, Tokens: 1, Stake: memchain.Attov(2000000), Sbps: 1, User: func(i int) types.Address {
		if i < nUsers {
			return userKeys[i].addr
		}
		return memchain.User(i)
	}})
	for _, b := range chain_genesis.NewGenesisAccountBlocks(cfg) {
		for _, u := range userKeys {
			if b.AccountBlock.AccountAddress == u.addr {
				a := util.NewContractAddress(u.addr, 2, b.AccountBlock.Hash)
				cfg.QuotaInfo.StakeBeneficialMap[a.String()] = memchain.Attov(200000)
			}
		}
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c32")
	if err != nil {
		panic(err)
	}
	n := &node{}
	n.c = chain.NewChain(dir, &config.Chain{VmLogAll: true}, cfg)
	if err := n.c.Init(); err != nil {
		panic(err)
	}
	n.c.SetConsensus(cons{}, cscore.NewTimeIndex(time.Unix(memchain.GenesisTime, 0), 75*time.Second))
	n.m = onroad.NewManager(nil, nil, nil, st, nil)
	n.m.Init(n.c)
	n.c.Register(n.m)
	n.v = verifier.NewVerifier(n.c).Init(cons{}, st, n.m)
	t.Cleanup(func() {
		n.m.Close()
		fullchain.Destroy(n.c)
		os.RemoveAll(dir)
	})
	return n
}

func (n *node) gen(a types.Address, st stats, f func(interfaces.Generator) (*interfaces.GenResult, error)) (*interfaces.VmAccountBlock, error) {
	sb := n.c.GetLatestSnapshotBlock().Hash
	var prev types.Hash
	if b, err := n.c.GetLatestAccountBlock(a); err != nil {
		return nil, err
	} else if b != nil {
		prev = b.Hash
	}
	g, err := generator.NewGenerator(n.c, st, a, &sb, &prev)
	if err != nil {
		return nil, err
	}
	r, err := f(g)
	if err != nil {
		return nil, err
	}
	if r.VMBlock == nil {
		return nil, fmt.Errorf("no block: %v", r.Err)
	}
	return r.VMBlock, nil
}

// verify runs both verification steps on a copy that came over the wire.
func (n *node) verify(b *core.AccountBlock) (*interfaces.VmAccountBlock, error) {
	if err := n.v.VerifyNetAccountBlock(b); err != nil {
		return nil, err
	}
	task, vb, err := n.v.VerifyPoolAccountBlock(b, n.c.GetLatestSnapshotBlock())
	if err != nil {
		return nil, err
	}
	if vb == nil {
		return nil, fmt.Errorf("pending %v", task)
	}
	return vb, nil
}

func wire(b *core.AccountBlock) *core.AccountBlock {
	raw, err := b.Serialize()
	if err != nil {
		panic(err)
	}
	n := &core.AccountBlock{}
	if err := n.Deserialize(raw); err != nil {
		panic(err)
	}
	return n
}

func wireSb(b *core.SnapshotBlock) *core.SnapshotBlock {
	raw, err := b.Serialize()
	if err != nil {
		panic(err)
	}
	n := &core.SnapshotBlock{}
	if err := n.Deserialize(raw); err != nil {
		panic(err)
	}
	return n
}

// item is one block the network knows.
type item struct {
	ab  *core.AccountBlock
	sb  *core.SnapshotBlock
	bad bool // no ledger may contain it
}

func (i item) hash() types.Hash {
	if i.ab != nil {
		return i.ab.Hash
	}
	return i.sb.Hash
}

// net is the rest of the network: a ledger that grows, is rolled back and grows again.
type network struct {
	marks     map[int]bool // the items after which the network turned to another branch
	t         *rapid.T
	n         *node
	st        stats
	items     []item
	known     map[types.Hash]int // index in items
	live      []*core.AccountBlock
	contracts []types.Address
	kindOf    map[types.Address]int
	tips      []uint64 // heights of abandoned heads
	kinds     map[string]int
	trace     []string
	bases     []uint64 // heights the ledger was rolled back to
}

func (w *network) log(f string, a ...interface{}) { w.trace = append(w.trace, fmt.Sprintf(f, a...)) }

func (w *network) add(i item) {
	if _, ok := w.known[i.hash()]; ok {
		return
	}
	w.known[i.hash()] = len(w.items)
	w.items = append(w.items, i)
}

func (w *network) head() *core.SnapshotBlock { return w.n.c.GetLatestSnapshotBlock() }

// insert adds a generated block to the ledger, or - withheld - only to what the network knows.
func (w *network) insert(vb *interfaces.VmAccountBlock, kind string, aside bool) bool {
	b := vb.AccountBlock
	got, err := w.n.verify(wire(b))
	if err != nil {
		w.kinds["not accepted: "+kind]++
		return false
	}
	w.add(item{ab: wire(b)})
	if aside {
		w.kinds["second block at a height"]++
		w.log("aside %s %s#%d", kind, w.name(b.AccountAddress), b.Height)
		return true
	}
	if err := w.n.c.InsertAccountBlock(got); err != nil {
		w.t.Fatalf("InsertAccountBlock: %v", err)
	}
	w.live = append(w.live, b)
	w.kinds[kind]++
	w.log("%s %s#%d", kind, w.name(b.AccountAddress), b.Height)
	return true
}

func (w *network) name(a types.Address) string {
	for i, u := range userKeys {
		if u.addr == a {
			return fmt.Sprintf("u%d", i)
		}
	}
	for i, c := range w.contracts {
		if c == a {
			return fmt.Sprintf("%s%d", codes[w.kindOf[a]].name, i)
		}
	}
	switch a {
	case types.AddressQuota:
		return "quota"
	case types.AddressAsset:
		return "asset"
	}
	return a.String()[:12]
}

func (w *network) message(u key, op int) (*interfaces.IncomingMessage, string, int) {
	t := w.t
	m := &interfaces.IncomingMessage{BlockType: core.BlockTypeSendCall, AccountAddress: u.addr}
	prev, _ := w.n.c.GetLatestAccountBlock(u.addr)
	if prev.Height == 1 && op < 9 {
		op = 0
	}
	tok := memchain.Vite
	m.TokenId = &tok
	m.Amount = big.NewInt(int64(rapid.SampledFrom([]int{0, 1, 2, 1000, 1 << 40}).Draw(t, "amount")))
	switch {
	case op == 0:
		ci := rapid.IntRange(0, len(codes)-1).Draw(t, "code")
		k := codes[ci]
		m.BlockType = core.BlockTypeSendCreate
		m.Data = append(append([]byte{}, types.DELEGATE_GID[:]...), 1, k.conf, 0, 10)
		m.Data = append(m.Data, initCode(k.code)...)
		return m, "create", ci
	case op <= 5 && len(w.contracts) > 0:
		a := rapid.SampledFrom(w.contracts).Draw(t, "callee")
		m.ToAddress = &a
		m.Data = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "data")
		return m, "call", -1
	case op == 6:
		a := types.AddressQuota
		m.ToAddress = &a
		m.Amount = memchain.Attov(134)
		m.Data, _ = cabi.ABIQuota.PackMethod(cabi.MethodNameStakeV3, u.addr)
		return m, "stake", -1
	}
	a := rapid.SampledFrom(userKeys).Draw(t, "to").addr
	m.ToAddress = &a
	return m, "transfer", -1
}

func (w *network) send(aside bool) {
	t := w.t
	u := rapid.SampledFrom(userKeys).Draw(t, "user")
	m, kind, ci := w.message(u, rapid.IntRange(0, 9).Draw(t, "sendkind"))
	vb, err := w.n.gen(u.addr, w.st, func(g interfaces.Generator) (*interfaces.GenResult, error) {
		return g.GenerateWithMessage(m, &u.addr, u.signFunc)
	})
	if err != nil {
		w.kinds["refused by the vm: "+kind]++
		return
	}
	if w.insert(vb, kind, aside) && ci >= 0 {
		a := vb.AccountBlock.ToAddress
		if _, ok := w.kindOf[a]; !ok {
			w.contracts = append(w.contracts, a)
		}
		w.kindOf[a] = ci
	}
}

// forged is a block with a proper hash and signature that no ledger accepts.
func (w *network) forged() {
	t := w.t
	u := rapid.SampledFrom(userKeys).Draw(t, "forger")
	prev, _ := w.n.c.GetLatestAccountBlock(u.addr)
	b := &core.AccountBlock{BlockType: core.BlockTypeSendCall, AccountAddress: u.addr, ToAddress: rapid.SampledFrom(userKeys).Draw(t, "to").addr,
		Height: prev.Height + 1, PrevHash: prev.Hash, Amount: new(big.Int).Lsh(big.NewInt(1), 200), Fee: big.NewInt(0), TokenId: memchain.Vite}
	if rapid.Bool().Draw(t, "nothingSent") { // receives what nobody sent
		b.BlockType, b.Amount, b.ToAddress, b.TokenId = core.BlockTypeReceive, nil, types.Address{}, types.TokenTypeId{}
		b.FromBlockHash = types.Hash{9, byte(prev.Height)}
	}
	b.Hash = b.ComputeHash()
	b.Signature, b.PublicKey, _ = u.signFunc(b.Hash.Bytes())
	if w.n.v.VerifyNetAccountBlock(b) != nil {
		return
	}
	if _, err := w.n.verify(wire(b)); err == nil {
		t.Fatalf("accepted a forged block %+v", b)
	}
	w.add(item{ab: b, bad: true})
	w.kinds["forged"]++
	w.log("forged %s#%d", w.name(b.AccountAddress), b.Height)
}

// badBranch: snapshots on top of one that no node accepts, longer or shorter than the network's ledger.
func (w *network) badBranch() {
	t := w.t
	h := w.head().Height
	back := rapid.Uint64Range(0, 3).Draw(t, "badBack")
	if h < 2+back {
		return
	}
	prev, err := w.n.c.GetSnapshotBlockByHeight(h - back)
	if err != nil || prev == nil {
		t.Fatalf("GetSnapshotBlockByHeight: %v", err)
	}
	n := rapid.IntRange(1, 12).Draw(t, "badLen")
	at := rapid.IntRange(0, 2).Draw(t, "badAt")
	kind := rapid.IntRange(0, 2).Draw(t, "badKind")
	for i := 0; i < n; i++ {
		// a snapshot's hash does not cover its producer: keep clear of the network's and the node's own blocks
		ts := prev.Timestamp.Add(time.Duration(5+w.kinds["bad branch"]) * time.Second)
		b := &core.SnapshotBlock{PrevHash: prev.Hash, Height: prev.Height + 1, Timestamp: &ts}
		k := producerKeys[rapid.IntRange(0, nProducers-1).Draw(t, "producer")]
		if i == at {
			switch kind {
			case 0:
				k = mkKey(200) // not a producer
			case 1:
				ts = *prev.Timestamp // time stands still
				b.Timestamp = &ts
			case 2: // a block that spends what its owner does not have
				u := rapid.SampledFrom(userKeys).Draw(t, "forger")
				// on top of what the branch confirms: a snapshot of a block whose request is not in the branch blocks the pool for good (DESIGN.md, 6)
				p, _ := w.n.c.GetLatestAccountBlock(u.addr)
				for p.Height > 1 {
					if s, err := w.n.c.GetConfirmSnapshotHeaderByAbHash(p.Hash); err == nil && s != nil && s.Height <= h-back {
						break
					}
					p, _ = w.n.c.GetAccountBlockByHeight(u.addr, p.Height-1)
				}
				x := &core.AccountBlock{BlockType: core.BlockTypeSendCall, AccountAddress: u.addr, ToAddress: userKeys[0].addr, Height: p.Height + 1, PrevHash: p.Hash,
					Amount: new(big.Int).Lsh(big.NewInt(1), 200), Fee: big.NewInt(0), TokenId: memchain.Vite, Data: []byte{byte(len(w.items))}}
				x.Hash = x.ComputeHash()
				x.Signature, x.PublicKey, _ = u.signFunc(x.Hash.Bytes())
				w.add(item{ab: x, bad: true})
				b.SnapshotContent = core.SnapshotContent{u.addr: &core.HashHeight{Height: x.Height, Hash: x.Hash}}
			}
		}
		b.Hash = b.ComputeHash()
		b.Signature, b.PublicKey, _ = k.signFunc(b.Hash.Bytes())
		w.add(item{sb: wireSb(b), bad: i >= at})
		prev = b
	}
	if at < n {
		w.tips = append(w.tips, h-back+uint64(at))
	} else {
		w.tips = append(w.tips, prev.Height)
	}
	w.kinds["bad branch"]++
	w.log("bad branch from %d to %d (kind %d at %d)", h-back, prev.Height, kind, at)
}

// refresh keeps the blocks that are still in the ledger.
func (w *network) refresh() {
	var l []*core.AccountBlock
	for _, b := range w.live {
		if ok, err := w.n.c.IsAccountBlockExisted(b.Hash); err == nil && ok {
			l = append(l, b)
		}
	}
	w.live = l
	var cs []types.Address
	for _, a := range w.contracts {
		for _, b := range w.live {
			if b.BlockType == core.BlockTypeSendCreate && b.ToAddress == a {
				cs = append(cs, a)
			}
		}
	}
	w.contracts = cs
}

// pending lists what is sent and not received, in order.
func (w *network) pending() (l []*core.AccountBlock) {
	done := map[types.Hash]bool{}
	for _, b := range w.live {
		if b.IsReceiveBlock() {
			done[b.FromBlockHash] = true
		}
	}
	for _, b := range w.live {
		if b.IsSendBlock() && !done[b.Hash] {
			l = append(l, b)
		}
		for _, s := range b.SendBlockList {
			if !done[s.Hash] {
				l = append(l, s)
			}
		}
	}
	return
}

func (w *network) receive(aside bool) {
	l := w.pending()
	if len(l) == 0 {
		return
	}
	s := rapid.SampledFrom(l).Draw(w.t, "onroad")
	k := rapid.SampledFrom(producerKeys).Draw(w.t, "answerer")
	kind := "contract receive"
	for _, u := range userKeys {
		if u.addr == s.ToAddress {
			k, kind = u, "user receive"
		}
	}
	if kind == "user receive" != !types.IsContractAddr(s.ToAddress) {
		return
	}
	if kind == "contract receive" {
		for _, x := range l { // the first of its sender
			if x.ToAddress == s.ToAddress && x.AccountAddress == s.AccountAddress {
				s = x
				break
			}
		}
	}
	vb, err := w.n.gen(s.ToAddress, w.st, func(g interfaces.Generator) (*interfaces.GenResult, error) {
		return g.GenerateWithOnRoad(s, &k.addr, k.signFunc, nil)
	})
	if err != nil {
		w.kinds["receive not possible"]++
		return
	}
	w.insert(vb, kind, aside)
}

func (w *network) unconfirmed() (l []*core.AccountBlock) {
	for _, b := range w.live {
		if n, err := w.n.c.GetConfirmedTimes(b.Hash); err == nil && n == 0 {
			l = append(l, b)
		}
	}
	return
}

func (w *network) snapshot(all bool) {
	t := w.t
	prev := w.head()
	h := prev.Height + 1
	k := producerKeys[(prev.Height+uint64(rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(t, "producer")))%nProducers]
	ts := prev.Timestamp.Add(time.Duration(rapid.IntRange(1, 3).Draw(t, "dt")) * time.Second)
	b := &core.SnapshotBlock{PrevHash: prev.Hash, Height: h, Timestamp: &ts}
	host := map[types.Hash]types.Hash{}
	for _, x := range w.live {
		host[x.Hash] = x.Hash
		for _, s := range x.SendBlockList {
			host[s.Hash] = x.Hash
		}
	}
	skip := map[types.Address]bool{}
	if !all {
		for _, u := range userKeys {
			if rapid.IntRange(0, 5).Draw(t, "skip") == 0 {
				skip[u.addr] = true
			}
		}
	}
	out := map[types.Hash]bool{}
	content := core.SnapshotContent{}
	for _, x := range w.unconfirmed() {
		if skip[x.AccountAddress] || out[x.PrevHash] || (x.IsReceiveBlock() && out[host[x.FromBlockHash]]) {
			out[x.Hash] = true
			skip[x.AccountAddress] = true
			continue
		}
		content[x.AccountAddress] = &core.HashHeight{Height: x.Height, Hash: x.Hash}
	}
	if len(content) > 0 {
		b.SnapshotContent = content
	}
	b.Hash = b.ComputeHash()
	b.Signature, b.PublicKey, _ = k.signFunc(b.Hash.Bytes())
	in := wireSb(b)
	if err := w.n.v.VerifyNetSnapshotBlock(in); err != nil {
		t.Fatalf("own snapshot refused: %v", err)
	}
	if st := w.n.v.VerifyReferred(in); st.VerifyResult() != verifier.SUCCESS {
		t.Fatalf("own snapshot refused: %v", st.ErrMsg())
	}
	gone, err := w.n.c.InsertSnapshotBlock(in)
	if err != nil {
		t.Fatalf("InsertSnapshotBlock: %v", err)
	}
	if len(gone) > 0 {
		w.kinds["unconfirmed blocks dropped"]++
		w.refresh()
	}
	w.add(item{sb: wireSb(b)})
	w.kinds["snapshot"]++
	w.log("snapshot %d (%d)", h, len(content))
}

func (w *network) settled() *core.SnapshotBlock {
	return settled(w.st, w.head(), func(h types.Hash) *core.SnapshotBlock {
		if i, ok := w.known[h]; ok {
			return w.items[i].sb
		}
		return nil
	})
}

func (w *network) rollback(aim bool) {
	h := w.head().Height
	if h < 3 {
		return
	}
	lo := uint64(2)
	if h > 8 {
		lo = h - 6
	}
	to := rapid.Uint64Range(lo, h-1).Draw(w.t, "backTo") // the last snapshot that stays
	if f := w.settled(); f != nil && f.Height > 2 && (aim || rapid.Bool().Draw(w.t, "around")) {
		// just below, at or just above the block that is irreversible
		to = f.Height - 2 + uint64(rapid.SampledFrom([]int{0, 1, 1, 2}).Draw(w.t, "aim"))
		if to < 2 {
			to = 2
		}
		if to >= h {
			to = h - 1
		}
		w.kinds["fork around an irreversible block"]++
		w.marks[len(w.items)-1] = true
	}
	w.tips = append(w.tips, h)
	w.bases = append(w.bases, to)
	if _, err := w.n.c.DeleteSnapshotBlocksToHeight(to + 1); err != nil {
		w.t.Fatalf("DeleteSnapshotBlocksToHeight: %v", err)
	}
	w.refresh()
	w.kinds["fork"]++
	w.log("fork at %d (head was %d)", to, h)
}

func newNetwork(t *rapid.T, st stats) *network {
	memchain.Init()
	return &network{t: t, n: newNode(t, st), st: st, known: map[types.Hash]int{}, marks: map[int]bool{}, kindOf: map[types.Address]int{}, kinds: map[string]int{}}
}

// grow makes the network's ledger, with at most `forks` forks, one branch longer than all others by at least `lead`.
func (w *network) grow(steps, forks int, lead uint64) {
	t := w.t
	for i := 0; i < steps; i++ {
		x := rapid.IntRange(0, 19).Draw(t, "op")
		if w.st.nodes > 1 && x < 10 && x%2 == 0 { // fewer transactions, longer chains
			x = 10
		}
		switch {
		case x < 6:
			w.send(false)
		case x < 10:
			w.receive(false)
		case x < 16:
			w.snapshot(false)
		case x == 16:
			if rapid.Bool().Draw(t, "what") {
				w.send(true)
			} else {
				w.receive(true)
			}
		case x == 17:
			if rapid.Bool().Draw(t, "branch") {
				w.badBranch()
			} else {
				w.forged()
			}
		default:
			if forks > 0 {
				w.rollback(false)
				forks--
			}
		}
	}
	for {
		h := w.head().Height
		ok := h > 1
		for _, x := range w.tips {
			ok = ok && h >= x+lead
		}
		if ok {
			break
		}
		w.snapshot(false)
	}
}
