package c29

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strings"
	"time"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/crypto/ed25519"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/chain"
	chain_genesis "github.com/vitelabs/go-vite/v2/ledger/chain/genesis"
	cscore "github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/generator"
	"github.com/vitelabs/go-vite/v2/ledger/onroad"
	"github.com/vitelabs/go-vite/v2/ledger/verifier"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/fullchain"
	"verif/memchain"
)

const success = verifier.SUCCESS

type key struct {
	addr types.Address
	pub  ed25519.PublicKey
	priv ed25519.PrivateKey
}

func mkKey(i int) key {
	var seed [32]byte
	seed[0], seed[31] = byte(i), 0x29
	pub, priv, err := ed25519.GenerateKeyFromD(seed)
	if err != nil {
		panic(err)
	}
	return key{types.PubkeyToAddress(pub), pub, priv}
}

func (k key) sign(m []byte) []byte { return ed25519.Sign(k.priv, m) }
func (k key) signFunc(m []byte) ([]byte, ed25519.PublicKey, error) {
	return k.sign(m), k.pub, nil
}

const nUsers, nProducers = 4, 3

var userKeys, producerKeys []key

func init() {
	for i := 0; i < nUsers; i++ {
		userKeys = append(userKeys, mkKey(i+1))
	}
	for i := 0; i < nProducers; i++ {
		producerKeys = append(producerKeys, mkKey(i+101))
	}
}

// the contracts users create: run time code, confirmations and seed confirmations wanted
var codes = []struct {
	name        string
	code        []byte
	conf, seeds uint8
}{
	{"sink", []byte{0x00}, 0, 0},
	// half of the value back to the caller, twice, and an event
	{"echo", []byte{
		0x60, 0, 0x60, 0, 0x60, 2, 0x34, 0x04, 0x46, 0x33, 0xf1,
		0x60, 0, 0x60, 0, 0x60, 2, 0x34, 0x04, 0x46, 0x33, 0xf1,
		0x60, 5, 0x60, 0, 0x60, 0, 0xa1, 0x00}, 0, 0},
	{"revert", []byte{0x60, 0, 0x60, 0, 0xfd}, 0, 0},
	{"count", []byte{0x60, 0, 0x54, 0x60, 1, 0x01, 0x60, 0, 0x55, 0x60, 9, 0x60, 0, 0x60, 0, 0xa1, 0x00}, 1, 0},
	{"slow", []byte{0x00}, 3, 0},
	{"seed", []byte{0x4a, 0x60, 1, 0x55, 0x00}, 2, 2},
	{"loop", []byte{0x5b, 0x60, 0, 0x56}, 0, 0},
}

func initCode(rt []byte) []byte {
	return append([]byte{0x60, byte(len(rt)), 0x60, 12, 0x60, 0, 0x39, 0x60, byte(len(rt)), 0x60, 0, 0xf3}, rt...)
}

type world struct {
	t         *rapid.T
	c         chain.Chain
	m         *onroad.Manager
	v         verifier.Verifier
	users     []key
	all       []*core.AccountBlock
	sends     map[types.Hash]*core.AccountBlock
	pend      []*core.AccountBlock // unreceived, in the order they were made
	done      map[types.Hash]bool
	conf      map[types.Hash]uint64 // height of the snapshot that confirmed a request
	hostOf    map[types.Hash]types.Hash
	un        []*core.AccountBlock
	contracts []types.Address
	kindOf    map[types.Address]int
	names     map[types.Address]string
	seeds     map[int]uint64
	seeded    map[uint64]bool // snapshot heights that publish a seed
	logs      []types.Hash
	trace     []string
	kinds     map[string]int
	tried     int
	quiet     bool
	over      bool // the chain dropped unconfirmed blocks (its right): the model ends here
}

type cons struct{ w *world }

func (v *cons) VerifyABsProducer(map[types.Gid][]*core.AccountBlock) ([]*core.AccountBlock, error) {
	return nil, nil
}
func (v *cons) VerifySnapshotProducer(b *core.SnapshotBlock) (bool, error) {
	return types.PubkeyToAddress(b.PublicKey) == v.w.producer(b.Height).addr, nil
}
func (v *cons) VerifyAccountProducer(b *core.AccountBlock) (bool, error) {
	return types.PubkeyToAddress(b.PublicKey) == v.w.elected().addr, nil
}

func (w *world) producer(h uint64) key { return producerKeys[h%nProducers] }

// elected is who may answer for contracts now.
func (w *world) elected() key { return w.producer(w.c.GetLatestSnapshotBlock().Height + 1) }

// stats: no rewards are asked for
type stats struct{ cscore.SBPStatReader }

func (stats) DayStats(a, b uint64) ([]*cscore.DayStats, error) { return nil, nil }
func (stats) GetDayTimeIndex() cscore.TimeIndex {
	return cscore.NewTimeIndex(time.Unix(memchain.GenesisTime, 0), 24*time.Hour)
}

func newWorld(t *rapid.T) *world {
	memchain.Init()
	w := &world{t: t, users: userKeys, sends: map[types.Hash]*core.AccountBlock{}, done: map[types.Hash]bool{}, conf: map[types.Hash]uint64{},
		hostOf: map[types.Hash]types.Hash{}, kindOf: map[types.Address]int{}, names: map[types.Address]string{}, seeds: map[int]uint64{}, seeded: map[uint64]bool{}, kinds: map[string]int{}}
	for i, u := range w.users {
		w.names[u.addr] = fmt.Sprintf("u%d", i)
	}
	w.names[types.AddressQuota], w.names[types.AddressAsset], w.names[types.AddressGovernance] = "quota", "asset", "governance"
	cfg := memchain.Genesis(memchain.GenesisOpt{Users: nUsers, Tokens: 2, Stake: memchain.Attov(20000), Sbps: 1, User: func(i int) types.Address {
		if i < nUsers {
			return userKeys[i].addr
		}
		return memchain.User(i)
	}})
	// contracts made by the first request of a user have an address known in advance: give them quota
	gbs := chain_genesis.NewGenesisAccountBlocks(cfg)
	for _, b := range gbs {
		for _, u := range w.users {
			if b.AccountBlock.AccountAddress == u.addr {
				a := util.NewContractAddress(u.addr, 2, b.AccountBlock.Hash)
				cfg.QuotaInfo.StakeBeneficialMap[a.String()] = memchain.Attov(int64(rapid.SampledFrom([]int{200, 20000}).Draw(t, "contractStake")))
			}
		}
	}
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "c29")
	if err != nil {
		panic(err)
	}
	t.Cleanup(func() { os.RemoveAll(dir) })
	w.c = chain.NewChain(dir, &config.Chain{VmLogAll: true}, cfg)
	if err := w.c.Init(); err != nil {
		panic(err)
	}
	w.c.SetConsensus(&cons{w}, cscore.NewTimeIndex(time.Unix(memchain.GenesisTime, 0), 75*time.Second))
	w.m = onroad.NewManager(nil, nil, nil, stats{}, nil)
	w.m.Init(w.c)
	w.c.Register(w.m)
	w.v = verifier.NewVerifier(w.c).Init(&cons{w}, stats{}, w.m)
	for _, u := range w.users {
		b, err := w.c.GetLatestAccountBlock(u.addr)
		if err != nil || b == nil {
			panic("no genesis block")
		}
		w.all = append(w.all, b)
	}
	return w
}

func (w *world) close() {
	w.m.Close()
	fullchain.Destroy(w.c)
}

func (w *world) log(f string, a ...interface{}) { w.trace = append(w.trace, fmt.Sprintf(f, a...)) }

func (w *world) name(a types.Address) string {
	if n := w.names[a]; n != "" {
		return n
	}
	return a.String()[:12]
}

func (w *world) user(t *rapid.T) key { return rapid.SampledFrom(w.users).Draw(t, "user") }

// others are all keys but this one.
func (w *world) others(k key) (l []key) {
	for _, x := range append(append([]key{}, w.users...), producerKeys...) {
		if x.addr != k.addr {
			l = append(l, x)
		}
	}
	return
}

func (w *world) addrs() (l []types.Address) {
	for _, u := range w.users {
		l = append(l, u.addr)
	}
	return append(append(l, w.contracts...), types.AddressQuota, types.AddressAsset, types.AddressGovernance)
}

func (w *world) gen(a types.Address, f func(interfaces.Generator) (*interfaces.GenResult, error)) (*interfaces.VmAccountBlock, error) {
	sb := w.c.GetLatestSnapshotBlock().Hash
	var prev types.Hash
	if b, err := w.c.GetLatestAccountBlock(a); err != nil {
		w.t.Fatalf("GetLatestAccountBlock: %v", err)
	} else if b != nil {
		prev = b.Hash
	}
	g, err := generator.NewGenerator(w.c, stats{}, a, &sb, &prev)
	if err != nil {
		w.t.Fatalf("NewGenerator: %v", err)
	}
	r, err := f(g)
	if err != nil {
		return nil, err
	}
	if r.VMBlock == nil {
		if r.Err == nil {
			return nil, fmt.Errorf("no block, no error")
		}
		return nil, r.Err
	}
	return r.VMBlock, nil
}

func (w *world) insert(vb *interfaces.VmAccountBlock) {
	b := vb.AccountBlock
	if err := w.c.InsertAccountBlock(vb); err != nil {
		w.t.Fatalf("the chain refused a verified block: %v\n%s\nhistory: %s", err, show(b), w.hist())
	}
	w.all = append(w.all, b)
	w.un = append(w.un, b)
	if b.LogHash != nil {
		w.logs = append(w.logs, *b.LogHash)
	}
	add := func(s *core.AccountBlock) {
		w.sends[s.Hash] = s
		w.pend = append(w.pend, s)
		w.hostOf[s.Hash] = b.Hash
	}
	if b.IsSendBlock() {
		add(b)
	} else {
		w.done[b.FromBlockHash] = true
		for i, s := range w.pend {
			if s.Hash == b.FromBlockHash {
				w.pend = append(append([]*core.AccountBlock{}, w.pend[:i]...), w.pend[i+1:]...)
				break
			}
		}
	}
	for _, s := range b.SendBlockList {
		add(s)
	}
}

// front is the request whose turn it is among those of the same sender to the same contract.
func (w *world) front(s *core.AccountBlock) *core.AccountBlock {
	for _, x := range w.pend {
		if x.ToAddress == s.ToAddress && x.AccountAddress == s.AccountAddress {
			return x
		}
	}
	return nil
}

// ripe tells whether the contract may answer the request already.
func (w *world) ripe(s *core.AccountBlock) bool {
	i, ok := w.kindOf[s.ToAddress]
	if !ok {
		return true
	}
	k := codes[i]
	if k.conf == 0 {
		return true
	}
	h := w.conf[s.Hash]
	top := w.c.GetLatestSnapshotBlock().Height
	if h == 0 || top-h+1 < uint64(k.conf) {
		return false
	}
	n := uint8(0)
	for x := h; x <= top; x++ {
		if w.seeded[x] {
			n++
		}
	}
	return n >= k.seeds
}

// prelude makes a few contracts, all of them confirmed and (mostly) created.
func (w *world) prelude() {
	w.quiet = true
	for i := 0; i < nUsers; i++ {
		if rapid.IntRange(0, 3).Draw(w.t, "creates") > 0 {
			w.sendBy(w.users[i], 0)
		}
	}
	for i := rapid.IntRange(0, 5).Draw(w.t, "snapshots"); i > 0; i-- {
		w.snapshot()
	}
	for i := 0; i < nUsers; i++ {
		w.contract()
	}
	w.quiet = false
}

func (w *world) send() { w.sendBy(w.user(w.t), rapid.IntRange(0, 9).Draw(w.t, "sendkind")) }

func (w *world) sendBy(u key, op int) {
	t := w.t
	prev, _ := w.c.GetLatestAccountBlock(u.addr)
	m := &interfaces.IncomingMessage{BlockType: core.BlockTypeSendCall, AccountAddress: u.addr}
	kind := "transfer"
	if prev.Height == 1 && op < 9 {
		op = 0
	}
	tok := rapid.SampledFrom([]types.TokenTypeId{memchain.Vite, memchain.Vite, memchain.Token(0)}).Draw(t, "tok")
	m.TokenId = &tok
	m.Amount = big.NewInt(int64(rapid.SampledFrom([]int{0, 0, 1, 2, 1000, 1 << 40}).Draw(t, "amount")))
	ci := -1
	switch {
	case op == 0:
		kind = "create"
		ci = rapid.IntRange(0, len(codes)-1).Draw(t, "code")
		k := codes[ci]
		m.BlockType = core.BlockTypeSendCreate
		m.Data = append(append([]byte{}, types.DELEGATE_GID[:]...), 1, k.conf, k.seeds, 10)
		m.Data = append(m.Data, initCode(k.code)...)
		if rapid.IntRange(0, 5).Draw(t, "badinit") == 0 { // the constructor fails
			m.Data = append(m.Data[:14], 0xfe)
		}
	case op <= 5 && len(w.contracts) > 0:
		kind = "call"
		a := rapid.SampledFrom(w.contracts).Draw(t, "callee")
		m.ToAddress = &a
		m.Data = rapid.SliceOfN(rapid.Byte(), 0, 8).Draw(t, "data")
	case op == 6:
		kind = "stake"
		a := types.AddressQuota
		v := memchain.Vite
		m.ToAddress, m.TokenId = &a, &v
		m.Amount = memchain.Attov(int64(rapid.SampledFrom([]int{1, 134, 1000}).Draw(t, "stake")))
		b := rapid.SampledFrom(w.addrs()).Draw(t, "beneficiary")
		m.Data, _ = cabi.ABIQuota.PackMethod(cabi.MethodNameStakeV3, b)
	case op == 7:
		kind = "issue"
		a := types.AddressAsset
		v := memchain.Vite
		m.ToAddress, m.TokenId, m.Amount = &a, &v, big.NewInt(0)
		m.Data, _ = cabi.ABIAsset.PackMethod(cabi.MethodNameIssueV2, true, "Tok", "TOK"+string(rune('A'+rapid.IntRange(0, 3).Draw(t, "sym"))), big.NewInt(1000), uint8(2), big.NewInt(100000), true)
	default:
		a := w.user(t).addr
		m.ToAddress = &a
	}
	if rapid.IntRange(0, 7).Draw(t, "pow") == 0 {
		m.Difficulty = big.NewInt(int64(rapid.SampledFrom([]int{1, 100, 2000}).Draw(t, "difficulty")))
	}
	vb, err := w.gen(u.addr, func(g interfaces.Generator) (*interfaces.GenResult, error) {
		return g.GenerateWithMessage(m, &u.addr, u.signFunc)
	})
	if err != nil {
		w.kinds["refused by the vm: "+kind]++
		return
	}
	w.offer(vb, u, kind)
	if ci >= 0 {
		a := vb.AccountBlock.ToAddress
		w.contracts = append(w.contracts, a)
		w.kindOf[a] = ci
		w.names[a] = fmt.Sprintf("%s%d", codes[ci].name, len(w.contracts))
	}
}

func (w *world) receive() {
	var l []*core.AccountBlock
	for _, s := range w.pend {
		if !types.IsContractAddr(s.ToAddress) {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		return
	}
	s := rapid.SampledFrom(l).Draw(w.t, "onroad")
	for _, u := range w.users {
		if u.addr != s.ToAddress {
			continue
		}
		u := u
		var diff *big.Int
		if rapid.IntRange(0, 7).Draw(w.t, "pow") == 0 {
			diff = big.NewInt(50)
		}
		vb, err := w.gen(u.addr, func(g interfaces.Generator) (*interfaces.GenResult, error) {
			if rapid.Bool().Draw(w.t, "byMessage") {
				return g.GenerateWithMessage(&interfaces.IncomingMessage{BlockType: core.BlockTypeReceive, AccountAddress: u.addr, FromBlockHash: &s.Hash, Difficulty: diff}, &u.addr, u.signFunc)
			}
			return g.GenerateWithOnRoad(s, &u.addr, u.signFunc, diff)
		})
		if err != nil {
			w.kinds["receive not possible"]++
			return
		}
		w.offer(vb, u, "user receive")
	}
}

func (w *world) answer(s *core.AccountBlock, k key) (*interfaces.VmAccountBlock, error) {
	return w.gen(s.ToAddress, func(g interfaces.Generator) (*interfaces.GenResult, error) {
		return g.GenerateWithOnRoad(s, &k.addr, k.signFunc, nil)
	})
}

func (w *world) pick(ok func(*core.AccountBlock) bool) *core.AccountBlock {
	var l []*core.AccountBlock
	for _, s := range w.pend {
		if types.IsContractAddr(s.ToAddress) && ok(s) {
			l = append(l, s)
		}
	}
	if len(l) == 0 {
		return nil
	}
	return rapid.SampledFrom(l).Draw(w.t, "request")
}

func (w *world) contract() {
	s := w.pick(func(s *core.AccountBlock) bool { return w.front(s) == s && w.ripe(s) })
	if s == nil {
		return
	}
	k := w.elected()
	vb, err := w.answer(s, k)
	if vb == nil {
		w.kinds["answer not possible"]++
		_ = err
		return
	}
	w.offer(vb, k, "contract receive")
}

// early offers an answer to a request that is not confirmed often enough.
func (w *world) early() {
	s := w.pick(func(s *core.AccountBlock) bool { return w.front(s) == s && !w.ripe(s) })
	if s == nil {
		return
	}
	w.refuse(s, "too early")
}

// outOfTurn offers an answer to a request that is not the first of its sender.
func (w *world) outOfTurn() {
	s := w.pick(func(s *core.AccountBlock) bool { return w.front(s) != s })
	if s == nil {
		return
	}
	w.refuse(s, "out of turn")
}

func (w *world) refuse(s *core.AccountBlock, what string) {
	k := w.elected()
	vb, err := w.answer(s, k)
	var b *core.AccountBlock
	if err == nil {
		b = vb.AccountBlock
		w.kinds["runnable "+what]++
	} else {
		prev, _ := w.c.GetLatestAccountBlock(s.ToAddress)
		b = &core.AccountBlock{BlockType: core.BlockTypeReceive, AccountAddress: s.ToAddress, FromBlockHash: s.Hash, Height: 1}
		if prev != nil {
			b.Height, b.PrevHash = prev.Height+1, prev.Hash
		}
		sign(b, k)
	}
	w.tried++
	_, why := w.judge(b, rapid.Bool().Draw(w.t, "rpc"))
	if why == "" {
		w.t.Fatalf("accepted an answer that is %s: %s\nrequest: %s\nhistory: %s", what, show(b), show(s), w.hist())
	}
	w.kinds[what]++
	// nothing else is wrong with the answer, so whoever sent it is told what to wait for
	var want []string
	if w.front(s) != s {
		want = append(want, verifier.ErrVerifyContractReceiveSequenceFailed.Error())
	}
	if !w.ripe(s) {
		h := w.conf[s.Hash]
		if top := w.c.GetLatestSnapshotBlock().Height; h == 0 || top-h+1 < uint64(codes[w.kindOf[s.ToAddress]].conf) {
			want = append(want, verifier.ErrVerifyConfirmedTimesNotEnough.Error())
		} else {
			want = append(want, verifier.ErrVerifySeedConfirmedTimesNotEnough.Error())
		}
	}
	for _, x := range want {
		if strings.Contains(why, x) {
			return
		}
	}
	w.t.Fatalf("an answer that is %s was refused for another reason: %q, want one of %q\nanswer: %s\nrequest: %s\nhistory: %s", what, why, want, show(b), show(s), w.hist())
}

func (w *world) snapshot() {
	t := w.t
	prev := w.c.GetLatestSnapshotBlock()
	h := prev.Height + 1
	k := w.producer(h)
	ts := prev.Timestamp.Add(time.Duration(rapid.IntRange(1, 3).Draw(t, "dt")) * time.Second)
	b := &core.SnapshotBlock{PrevHash: prev.Hash, Height: h, Timestamp: &ts}
	// some accounts wait for a later snapshot, and everything that rests on theirs
	skip := map[types.Address]bool{}
	for _, a := range w.addrs() {
		if rapid.IntRange(0, 6).Draw(t, "skip") == 0 {
			skip[a] = true
		}
	}
	var rest, take []*core.AccountBlock
	out := map[types.Hash]bool{}
	for _, x := range w.un {
		if skip[x.AccountAddress] || out[x.PrevHash] || (x.IsReceiveBlock() && out[w.hostOf[x.FromBlockHash]]) {
			out[x.Hash] = true
			skip[x.AccountAddress] = true
			rest = append(rest, x)
			continue
		}
		take = append(take, x)
	}
	if len(take) > 0 {
		b.SnapshotContent = core.SnapshotContent{}
		for _, x := range take {
			b.SnapshotContent[x.AccountAddress] = &core.HashHeight{Height: x.Height, Hash: x.Hash}
		}
	}
	p := int(h % nProducers)
	if rapid.Bool().Draw(t, "publish") && w.seeds[p] != 0 {
		b.Seed = w.seeds[p]
		w.seeds[p] = 0
	}
	next := uint64(0)
	if b.Seed != 0 || w.seeds[p] == 0 {
		next = rapid.Uint64Range(1, 1<<62).Draw(t, "seed")
		sh := core.ComputeSeedHash(next, prev.Hash, &ts)
		b.SeedHash = &sh
	}
	signSb(b, k)
	i := 0
	if !w.quiet {
		i = rapid.IntRange(0, 4).Draw(t, "forgeries")
	}
	for ; i > 0; i-- {
		bad, how := w.forgeSb(b, k)
		if bad == nil {
			continue
		}
		w.tried++
		w.kinds["forged snapshot "+how]++
		if why := w.judgeSb(bad); why == "" {
			t.Fatalf("accepted a forged snapshot block (%s)\nvalid: %+v\nforged: %+v\nhistory: %s", how, b, bad, w.hist())
		}
	}
	raw, err := b.Serialize()
	if err != nil {
		t.Fatalf("Serialize: %v", err)
	}
	in := &core.SnapshotBlock{}
	if err := in.Deserialize(raw); err != nil {
		t.Fatalf("Deserialize: %v", err)
	}
	if why := w.judgeSb(in); why != "" {
		t.Fatalf("refused a proper snapshot block: %s\n%+v\nhistory: %s", why, b, w.hist())
	}
	removed, err := w.c.InsertSnapshotBlock(in)
	if err != nil {
		t.Fatalf("InsertSnapshotBlock: %v\nhistory: %s", err, w.hist())
	}
	if len(removed) != 0 {
		w.over = true
		w.kinds["unconfirmed blocks dropped"]++
		return
	}
	for _, x := range take {
		if x.IsSendBlock() {
			w.conf[x.Hash] = h
		}
		for _, s := range x.SendBlockList {
			w.conf[s.Hash] = h
		}
	}
	w.un = rest
	if b.Seed != 0 {
		w.seeded[h] = true
	}
	if next != 0 {
		w.seeds[p] = next
	}
	w.kinds["snapshot"]++
	w.log("snapshot %d (%d blocks, seed %v)", h, len(take), b.Seed != 0)
}

func sortHashes(l []types.Hash) {
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i][:], l[j][:]) < 0 })
}

func sortKV(kv [][2][]byte) [][2][]byte {
	l := append([][2][]byte{}, kv...)
	sort.Slice(l, func(i, j int) bool { return bytes.Compare(l[i][0], l[j][0]) < 0 })
	return l
}
