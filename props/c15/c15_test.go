// Package c15: producer election and slot assignment against an independent
// statement of the rules, from the pure vote algorithm up to the consensus
// service running over a generated chain with forks and restarts.
package c15

import (
	"encoding/binary"
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"testing"
	"time"

	sleveldb "github.com/syndtr/goleveldb/leveldb"
	sstorage "github.com/syndtr/goleveldb/leveldb/storage"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/consensus"
	"github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/ledger/pool/lock"
	"github.com/vitelabs/go-vite/v2/log15"
	"verif/vlib"
)

func init() { log15.Root().SetHandler(log15.DiscardHandler()) }

// ---- the rules ----

type cand struct {
	name string
	addr types.Address
	bal  *big.Int
}

func byRank(cs []cand) {
	sort.SliceStable(cs, func(i, j int) bool {
		if c := cs[i].bal.Cmp(cs[j].bal); c != 0 {
			return c > 0
		}
		return cs[i].name < cs[j].name
	})
}

func seedOf(cs []cand, seed, height uint64, gid types.Gid) int64 {
	x := new(big.Int).SetBytes(gid.Bytes())
	x.Add(x, new(big.Int).SetUint64(height))
	if seed != 0 {
		x.Add(x, new(big.Int).SetUint64(seed))
	} else {
		for _, c := range cs {
			x.Add(x, c.bal)
		}
	}
	x.And(x, new(big.Int).SetUint64(^uint64(0)))
	return int64(x.Uint64())
}

// elect returns the ordered producers and the candidates that were eligible.
func elect(g types.ConsensusGroupInfo, all []cand, seed, height uint64, rates map[types.Address]int32) []cand {
	cs := append([]cand(nil), all...)
	byRank(cs)
	total := int(g.NodeCount)
	var out []cand
	if len(cs) <= total {
		out = cs
	} else {
		end := len(cs)
		if end > int(g.RandRank) {
			end = int(g.RandRank)
		}
		a := append([]cand(nil), cs[:total]...)
		b := append([]cand(nil), cs[total:end]...)
		if len(b) == 0 {
			out = a
		} else {
			if len(rates) >= 2 {
				a, b = swapByRate(a, b, rates)
			}
			byRank(a)
			byRank(b)
			s := seedOf(append(append([]cand(nil), a...), b...), seed, height, g.Gid)
			random := total / 3
			if random > int(g.RandCount) {
				random = int(g.RandCount)
			}
			top := total - random
			n := len(a) + len(b)
			if top*(n-total) > random*total {
				for _, i := range rand.New(rand.NewSource(s)).Perm(total)[:top] {
					out = append(out, a[i])
				}
				for _, i := range rand.New(rand.NewSource(s + 1)).Perm(n - total)[:random] {
					out = append(out, b[i])
				}
			} else {
				both := append(append([]cand(nil), a...), b...)
				for _, i := range rand.New(rand.NewSource(s)).Perm(n)[:total] {
					out = append(out, both[i])
				}
			}
		}
	}
	byRank(out)
	s := seedOf(out, seed, height, g.Gid)
	var shuffled []cand
	for _, i := range rand.New(rand.NewSource(s)).Perm(len(out)) {
		shuffled = append(shuffled, out[i])
	}
	return shuffled
}

// swapByRate exchanges up to two of the worst producers of a that made less than
// 80% of their blocks with the best candidates of b that made more than 80%.
func swapByRate(a, b []cand, rates map[types.Address]int32) ([]cand, []cand) {
	rate := func(c cand) int32 {
		if r, ok := rates[c.addr]; ok {
			return r
		}
		return -1
	}
	order := func(cs []cand) {
		byRank(cs)
		sort.SliceStable(cs, func(i, j int) bool { return rate(cs[i]) > rate(cs[j]) })
	}
	order(a)
	order(b)
	var down, up []int
	for i := len(a) - 1; i >= len(a)-2; i-- { // worst first
		if r := rate(a[i]); r >= 0 && r < 800000 {
			down = append(down, i)
		}
	}
	for i := range b {
		if rate(b[i]) > 800000 && len(up) < 2 {
			up = append(up, i)
		}
	}
	for k := 0; k < len(down) && k < len(up); k++ {
		a[down[k]], b[up[k]] = b[up[k]], a[down[k]]
	}
	return a, b
}

type slot struct {
	s, e int64
	who  types.Address
}

func slots(g types.ConsensusGroupInfo, genesis int64, index uint64, who []types.Address) []slot {
	at := genesis + int64(index)*planSeconds(g)
	var out []slot
	for r := 0; r < int(g.Repeat); r++ {
		for m := 0; m < int(g.NodeCount); m++ {
			for p := int64(0); p < g.PerCount; p++ {
				if m < len(who) {
					out = append(out, slot{at, at + g.Interval, who[m]})
				}
				at += g.Interval
			}
		}
	}
	return out
}

func planSeconds(g types.ConsensusGroupInfo) int64 {
	return g.Interval * g.PerCount * int64(g.NodeCount) * int64(g.Repeat)
}

// ---- the vote algorithm ----

func addrOf(n int) types.Address {
	return types.PubkeyToAddress(pkOf(n))
}

func pkOf(n int) []byte { return types.DataHash([]byte(fmt.Sprint("sbp", n))).Bytes() }

var gids = []types.Gid{types.SNAPSHOT_GID, types.DELEGATE_GID, {1, 2, 3, 4, 5, 6, 7, 8, 9, 10}, {255, 255, 255, 255, 255, 255, 255, 255, 255, 255}}

func drawGroup(t *rapid.T) types.ConsensusGroupInfo {
	g := types.ConsensusGroupInfo{
		Gid:       rapid.SampledFrom(gids).Draw(t, "gid"),
		NodeCount: uint8(rapid.SampledFrom([]int{2, 3, 4, 5, 6, 9, 25}).Draw(t, "nodes")),
		Interval:  int64(rapid.IntRange(1, 5).Draw(t, "interval")),
		PerCount:  int64(rapid.IntRange(1, 4).Draw(t, "perCount")),
		RandCount: uint8(rapid.IntRange(0, 5).Draw(t, "randCount")),
		Repeat:    uint16(rapid.SampledFrom([]int{1, 1, 2, 3, 48}).Draw(t, "repeat")),
	}
	g.RandRank = g.NodeCount + uint8(rapid.SampledFrom([]int{0, 1, 2, 3, 5, 10, 75, 100}).Draw(t, "rank"))
	return g
}

func drawBal(t *rapid.T) *big.Int {
	switch rapid.IntRange(0, 3).Draw(t, "balKind") {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(int64(rapid.IntRange(0, 4).Draw(t, "bal")))
	case 2:
		return new(big.Int).SetUint64(rapid.Uint64().Draw(t, "bal"))
	}
	x := new(big.Int).SetBytes(rapid.SliceOfN(rapid.Byte(), 9, 20).Draw(t, "bal"))
	return x
}

func asVotes(cs []cand) (v []*core.Vote) {
	for _, c := range cs {
		v = append(v, &core.Vote{Name: c.name, Addr: c.addr, Balance: new(big.Int).Set(c.bal)})
	}
	return
}

func names(v []*core.Vote) (s []string) {
	for _, x := range v {
		s = append(s, x.Name)
	}
	return
}

func candNames(v []cand) (s []string) {
	for _, x := range v {
		s = append(s, x.name)
	}
	return
}

func TestElection(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "generated groups, candidates with tied and huge balances, success rates and seeds; the elected list is compared for two input orders and with the stated rules, and checked for size, duplicates, eligibility and quota; non-trivial when there are more candidates than seats",
		Quick: 15000, Thorough: 40000,
	}, func(t *rapid.T, c *vlib.C) {
		g := drawGroup(t)
		n := rapid.IntRange(0, 12).Draw(t, "n")
		if rapid.IntRange(0, 3).Draw(t, "many") > 0 {
			n += int(g.NodeCount)
		}
		pool := make([]*big.Int, rapid.IntRange(1, 6).Draw(t, "pool"))
		for i := range pool {
			pool[i] = drawBal(t)
		}
		var cs []cand
		for i := 0; i < n; i++ {
			b := pool[rapid.IntRange(0, len(pool)-1).Draw(t, "which")]
			if rapid.Bool().Draw(t, "own") {
				b = new(big.Int).Add(b, big.NewInt(int64(i)))
			}
			cs = append(cs, cand{fmt.Sprintf("s%02d", i), addrOf(i), b})
		}
		seed := rapid.SampledFrom([]uint64{0, 1, 77, 1 << 40, ^uint64(0)}).Draw(t, "seed")
		height := uint64(rapid.IntRange(1, 1000000).Draw(t, "height"))
		var rates map[types.Address]int32
		if rapid.IntRange(0, 2).Draw(t, "rates") > 0 {
			rates = map[types.Address]int32{}
			for i := range cs {
				if rapid.IntRange(0, 3).Draw(t, "rated") > 0 {
					rates[cs[i].addr] = rapid.SampledFrom([]int32{-1, 0, 1, 500000, 799999, 800000, 800001, 900000, 1000000}).Draw(t, "rate")
				}
			}
		}
		want := elect(g, cs, seed, height, rates)
		run := func(in []cand) []*core.Vote {
			info := core.NewGroupInfo(time.Unix(1500000000, 0), g)
			a := core.NewAlgo(info)
			hh := &ledger.HashHeight{Height: height, Hash: types.DataHash([]byte("h"))}
			si := core.NewSeedInfo(seed)
			return a.ShuffleVotes(a.FilterVotes(core.NewVoteAlgoContext(asVotes(in), hh, rates, si)), hh, si)
		}
		perm := rapid.Permutation(cs).Draw(t, "perm")
		got, got2 := run(cs), run(perm)
		if fmt.Sprint(names(got)) != fmt.Sprint(names(got2)) {
			t.Fatalf("the order in which candidates are listed changes the election: %v, %v", names(got), names(got2))
		}
		seats := int(g.NodeCount)
		if n < seats {
			seats = n
		}
		seen := map[string]bool{}
		ranked := append([]cand(nil), cs...)
		byRank(ranked)
		pos := map[string]int{}
		for i, r := range ranked {
			pos[r.name] = i
		}
		fromB := 0
		for _, v := range got {
			if seen[v.Name] {
				t.Fatalf("%s is elected twice: %v", v.Name, names(got))
			}
			seen[v.Name] = true
			if n > seats && pos[v.Name] >= int(g.RandRank) {
				t.Fatalf("%s has rank %d, only the first %d can be elected", v.Name, pos[v.Name], g.RandRank)
			}
			if pos[v.Name] >= int(g.NodeCount) {
				fromB++
			}
			if v.Addr != addrOf(mustNum(v.Name)) {
				t.Fatalf("%s has the wrong address", v.Name)
			}
		}
		if len(got) != seats {
			t.Fatalf("%d elected, want %d", len(got), seats)
		}
		if fmt.Sprint(names(got)) != fmt.Sprint(candNames(want)) {
			t.Fatalf("elected %v, the rules give %v (group %+v, seed %d, height %d, rates %v)", names(got), candNames(want), g, seed, height, rates)
		}
		if n > int(g.NodeCount) {
			c.NonTrivial(fmt.Sprint(names(got)), seed, height, g.NodeCount, g.RandRank)
		}
		c.Sample("%d candidates, %d seats, rank limit %d, %d random, %d from below, rates %d", n, g.NodeCount, g.RandRank, g.RandCount, fromB, len(rates))
	})
}

func mustNum(name string) int {
	var n int
	fmt.Sscanf(name, "s%d", &n)
	return n
}

func TestSlots(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "generated groups, indices and instants: periods tile time, time to index and back is exact, and the plan gives every member its slots, in order, inside its period; non-trivial when the plan has at least four slots",
		Quick: 6000, Thorough: 40000,
	}, func(t *rapid.T, c *vlib.C) {
		g := drawGroup(t)
		genesis := time.Unix(int64(rapid.IntRange(1000000000, 1700000000).Draw(t, "genesis")), 0)
		info := core.NewGroupInfo(genesis, g)
		per := planSeconds(g)
		if int64(info.PlanInterval) != per {
			t.Fatalf("plan interval %d, want %d", info.PlanInterval, per)
		}
		// instants within 95 years of genesis
		idx := uint64(rapid.Int64Range(0, min(4000000, 3000000000/per)).Draw(t, "index"))
		s, e := info.Index2Time(idx)
		if s.Unix() != genesis.Unix()+int64(idx)*per || e.Unix() != s.Unix()+per || s.Nanosecond() != 0 {
			t.Fatalf("period %d is [%v,%v)", idx, s, e)
		}
		s2, _ := info.Index2Time(idx + 1)
		if !s2.Equal(e) {
			t.Fatalf("period %d ends at %v, the next starts at %v", idx, e, s2)
		}
		// block timestamps are whole seconds
		off := time.Duration(rapid.Int64Range(0, per-1).Draw(t, "offset")) * time.Second
		switch rapid.IntRange(0, 3).Draw(t, "edge") {
		case 0:
			off = 0
		case 1:
			off = time.Duration(per-1) * time.Second
		}
		if i := info.Time2Index(s.Add(off)); i != idx {
			t.Fatalf("%v lies in period %d, Time2Index gives %d", s.Add(off), idx, i)
		}
		n := rapid.IntRange(0, int(g.NodeCount)).Draw(t, "members")
		if rapid.Bool().Draw(t, "full") {
			n = int(g.NodeCount)
		}
		var who []types.Address
		for i := 0; i < n; i++ {
			who = append(who, addrOf(i))
		}
		want := slots(g, genesis.Unix(), idx, who)
		got := info.GenPlanByAddress(idx, who)
		if len(got) != len(want) {
			t.Fatalf("%d slots, want %d", len(got), len(want))
		}
		for i, p := range got {
			if p.STime.Unix() != want[i].s || p.ETime.Unix() != want[i].e || p.Member != want[i].who {
				t.Fatalf("slot %d is [%d,%d) of %s, want [%d,%d) of %s", i, p.STime.Unix(), p.ETime.Unix(), p.Member, want[i].s, want[i].e, want[i].who)
			}
			if p.STime.Before(s) || p.ETime.After(e) {
				t.Fatalf("slot %d leaves its period", i)
			}
		}
		if g.Repeat == 1 {
			var vs []*core.Vote
			for i, a := range who {
				vs = append(vs, &core.Vote{Name: fmt.Sprint(i), Addr: a, Balance: big.NewInt(1)})
			}
			for i, p := range info.GenPlan(idx, vs) {
				if p.STime.Unix() != want[i].s || p.Member != want[i].who {
					t.Fatalf("GenPlan slot %d differs", i)
				}
			}
		}
		if len(want) >= 4 {
			c.NonTrivial(idx, per, n, off)
		}
		c.Sample("period of %d s, index %d, %d members, %d slots", per, idx, n, len(want))
	})
}

// ---- the consensus service over a generated chain ----

type state struct {
	regs  []*types.Registration
	votes []*types.VoteInfo
	bals  map[types.Address]*big.Int
}

type chain struct {
	groups []*types.ConsensusGroupInfo
	blocks []*ledger.SnapshotBlock // index = height-1
	byHash map[types.Hash]int      // into blocks of the current chain
	state  map[types.Hash]*state
	db     *sleveldb.DB
	rnd    *rand.Rand
	serial uint64
}

func (c *chain) GetGenesisSnapshotBlock() *ledger.SnapshotBlock { return c.blocks[0] }
func (c *chain) GetLatestSnapshotBlock() *ledger.SnapshotBlock  { return c.blocks[len(c.blocks)-1] }
func (c *chain) Register(interfaces.EventListener)              {}
func (c *chain) UnRegister(interfaces.EventListener)            {}
func (c *chain) GetConsensusGroupList(types.Hash) ([]*types.ConsensusGroupInfo, error) {
	return c.groups, nil
}
func (c *chain) GetRegisterList(h types.Hash, g types.Gid) ([]*types.Registration, error) {
	var r []*types.Registration
	regs := c.state[h].regs
	for _, i := range c.rnd.Perm(len(regs)) {
		r = append(r, regs[i])
	}
	return r, nil
}
func (c *chain) GetAllRegisterList(h types.Hash, g types.Gid) ([]*types.Registration, error) {
	return c.GetRegisterList(h, g)
}
func (c *chain) GetVoteList(h types.Hash, g types.Gid) ([]*types.VoteInfo, error) {
	return c.state[h].votes, nil
}
func (c *chain) GetConfirmedBalanceList(addrs []types.Address, tok types.TokenTypeId, h types.Hash) (map[types.Address]*big.Int, error) {
	m := map[types.Address]*big.Int{}
	for _, a := range addrs {
		if b, ok := c.state[h].bals[a]; ok && tok == c.groups[0].CountingTokenId {
			m[a] = new(big.Int).Set(b)
		}
	}
	return m, nil
}
func (c *chain) before(ts int64) int {
	return sort.Search(len(c.blocks), func(i int) bool { return c.blocks[i].Timestamp.Unix() >= ts }) - 1
}
func (c *chain) GetSnapshotHeaderBeforeTime(t *time.Time) (*ledger.SnapshotBlock, error) {
	i := sort.Search(len(c.blocks), func(i int) bool { return !c.blocks[i].Timestamp.Before(*t) }) - 1
	if i < 0 {
		return nil, nil
	}
	return c.blocks[i], nil
}
func (c *chain) GetContractMeta(a types.Address) (*ledger.ContractMeta, error) {
	return &ledger.ContractMeta{Gid: types.DELEGATE_GID}, nil
}
func (c *chain) GetSnapshotBlockByHeight(h uint64) (*ledger.SnapshotBlock, error) {
	if h < 1 || h > uint64(len(c.blocks)) {
		return nil, nil
	}
	return c.blocks[h-1], nil
}
func (c *chain) GetSnapshotBlockByHash(h types.Hash) (*ledger.SnapshotBlock, error) {
	if i, ok := c.byHash[h]; ok {
		return c.blocks[i], nil
	}
	return nil, nil
}
func (c *chain) GetSnapshotHeadersAfterOrEqualTime(end *ledger.HashHeight, start *time.Time, producer *types.Address) ([]*ledger.SnapshotBlock, error) {
	var r []*ledger.SnapshotBlock
	for i := int(end.Height) - 1; i > 0 && !c.blocks[i].Timestamp.Before(*start); i-- {
		r = append(r, c.blocks[i])
	}
	return r, nil
}
func (c *chain) IsGenesisSnapshotBlock(h types.Hash) bool { return h == c.blocks[0].Hash }
func (c *chain) GetRandomSeed(h types.Hash, n int) uint64 {
	if h[1]%4 == 0 {
		return 0
	}
	return binary.BigEndian.Uint64(h[:8]) + uint64(n)
}
func (c *chain) GetLastUnpublishedSeedSnapshotHeader(types.Address, time.Time) (*ledger.SnapshotBlock, error) {
	return nil, nil
}
func (c *chain) NewDb(string) (*sleveldb.DB, error) { return c.db, nil }

func (c *chain) push(ts int64, sbp int, st *state) {
	c.serial++
	t := time.Unix(ts, 0)
	b := &ledger.SnapshotBlock{Height: uint64(len(c.blocks) + 1), Timestamp: &t, Hash: types.DataHash([]byte(fmt.Sprint("b", c.serial))), PublicKey: pkOf(sbp)}
	if len(c.blocks) > 0 {
		b.PrevHash = c.blocks[len(c.blocks)-1].Hash
	}
	c.blocks = append(c.blocks, b)
	c.byHash[b.Hash] = len(c.blocks) - 1
	c.state[b.Hash] = st
}

func (c *chain) cut(height int) {
	for _, b := range c.blocks[height:] {
		delete(c.byHash, b.Hash)
	}
	c.blocks = c.blocks[:height]
}

// ref answers from the rules alone; nothing is kept between questions.
type ref struct {
	c       *chain
	genesis int64
	memo    map[string][]types.Address
}

func (r *ref) candidates(b *ledger.SnapshotBlock) []cand {
	st := r.c.state[b.Hash]
	var cs []cand
	for _, g := range st.regs {
		x := cand{g.Name, g.BlockProducingAddress, big.NewInt(0)}
		for _, v := range st.votes {
			if v.SbpName == g.Name {
				if bal, ok := st.bals[v.VoteAddr]; ok {
					x.bal.Add(x.bal, bal)
				}
			}
		}
		cs = append(cs, x)
	}
	return cs
}

func addrs(cs []cand) (r []types.Address) {
	for _, c := range cs {
		r = append(r, c.addr)
	}
	return
}

func (r *ref) idx(ts int64) int64 { return (ts - r.genesis) / planSeconds(*r.c.groups[0]) }

// snapshotMembers: producers of a period of the snapshot group are elected on
// the last block before the end of the period two earlier.
func (r *ref) snapshotMembers(index uint64) []types.Address {
	g := *r.c.groups[0]
	at := r.genesis + 1
	if index >= 2 {
		at = r.genesis + int64(index-1)*planSeconds(g)
	}
	b := r.c.blocks[r.c.before(at)]
	key := "s" + b.Hash.String()
	if m, ok := r.memo[key]; ok {
		return m
	}
	var rates map[types.Address]int32
	if p := r.idx(b.Timestamp.Unix()) - 2; p > 0 {
		rates = r.rates(uint64(p))
	}
	m := addrs(elect(g, r.candidates(b), r.c.GetRandomSeed(b.Hash, 25), b.Height, rates))
	r.memo[key] = m
	return m
}

func (r *ref) contractMembers(index uint64) ([]types.Address, bool) {
	g := *r.c.groups[1]
	at := r.genesis + int64(index)*planSeconds(g) - 75
	if at < r.genesis {
		at = r.genesis + 1
	}
	i := r.c.before(at)
	if i < 0 {
		return nil, false
	}
	b := r.c.blocks[i]
	key := "c" + b.Hash.String()
	if m, ok := r.memo[key]; ok {
		return m, true
	}
	m := addrs(elect(g, r.candidates(b), r.c.GetRandomSeed(b.Hash, 25), b.Height, nil))
	r.memo[key] = m
	return m, true
}

type count struct{ expected, made uint64 }

func (r *ref) period(index uint64) map[types.Address]*count {
	g := *r.c.groups[0]
	per := planSeconds(g)
	lo := r.genesis + int64(index)*per
	m := map[types.Address]*count{}
	get := func(a types.Address) *count {
		if m[a] == nil {
			m[a] = &count{}
		}
		return m[a]
	}
	for _, b := range r.c.blocks[1:] {
		if ts := b.Timestamp.Unix(); ts >= lo && ts < lo+per {
			get(types.PubkeyToAddress(b.PublicKey)).made++
		}
	}
	if len(m) == 0 {
		return m
	}
	for _, s := range slots(g, r.genesis, index, r.snapshotMembers(index)) {
		get(s.who).expected++
	}
	return m
}

func (r *ref) sum(lo, hi uint64) map[types.Address]*count {
	m := map[types.Address]*count{}
	for i := lo; i < hi; i++ {
		for a, c := range r.period(i) {
			if m[a] == nil {
				m[a] = &count{}
			}
			m[a].expected += c.expected
			m[a].made += c.made
		}
	}
	return m
}

// rates: over the last 48 periods, in millionths; -1 when nothing was expected.
func (r *ref) rates(index uint64) map[types.Address]int32 {
	lo := uint64(0)
	if index > 47 {
		lo = index - 47
	}
	out := map[types.Address]int32{}
	for a, c := range r.sum(lo, index+1) {
		if c.expected == 0 {
			out[a] = -1
		} else {
			out[a] = int32(c.made * 1000000 / c.expected)
		}
	}
	return out
}

type member struct{ from, to int }

func drawState(t *rapid.T, old *state) *state {
	n := rapid.IntRange(1, 12).Draw(t, "sbps")
	st := &state{bals: map[types.Address]*big.Int{}}
	for i := 0; i < n; i++ {
		st.regs = append(st.regs, &types.Registration{Name: fmt.Sprintf("s%02d", i), BlockProducingAddress: addrOf(i), HisAddrList: []types.Address{addrOf(i)}})
	}
	for v := rapid.IntRange(0, 12).Draw(t, "voters"); v > 0; v-- {
		a := addrOf(1000 + v)
		st.votes = append(st.votes, &types.VoteInfo{VoteAddr: a, SbpName: fmt.Sprintf("s%02d", rapid.IntRange(0, n).Draw(t, "for"))})
		if rapid.IntRange(0, 4).Draw(t, "has") > 0 {
			st.bals[a] = drawBal(t)
		}
	}
	return st
}

func TestConsensus(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "the consensus service over generated chains (producers missing slots, gaps, votes changing), forks replacing the tail and restarts on the same database: plans by index, producer verification for snapshot and contract groups, success rates and hour, period and day statistics are compared with the rules recomputed from the current chain; non-trivial when the chain spans at least four periods and was forked or restarted",
		Quick: 1200, Thorough: 2500,
	}, func(t *rapid.T, c *vlib.C) {
		g := types.ConsensusGroupInfo{Gid: types.SNAPSHOT_GID, NodeCount: uint8(rapid.SampledFrom([]int{2, 3, 5, 6}).Draw(t, "nodes")), Interval: int64(rapid.SampledFrom([]int{1, 3}).Draw(t, "interval")),
			PerCount: int64(rapid.SampledFrom([]int{1, 2, 3}).Draw(t, "per")), RandCount: uint8(rapid.IntRange(0, 2).Draw(t, "rand")), Repeat: uint16(rapid.SampledFrom([]int{1, 2}).Draw(t, "repeat")), CountingTokenId: ledger.ViteTokenId}
		g.RandRank = g.NodeCount + uint8(rapid.IntRange(0, 8).Draw(t, "rank"))
		if 3600%planSeconds(g) != 0 {
			g.PerCount, g.Interval = 1, 1
		}
		d := g
		d.Gid = types.DELEGATE_GID
		d.CheckLevel = uint8(rapid.SampledFrom([]int{1, 1, 0}).Draw(t, "level"))
		d.Interval = 3
		d.Repeat = uint16(rapid.SampledFrom([]int{1, 4}).Draw(t, "repeat2"))
		genesis := int64(1500000000)
		ch := &chain{groups: []*types.ConsensusGroupInfo{&g, &d}, byHash: map[types.Hash]int{}, state: map[types.Hash]*state{}, rnd: rand.New(rand.NewSource(rapid.Int64().Draw(t, "order")))}
		var err error
		if ch.db, err = sleveldb.Open(sstorage.NewMemStorage(), nil); err != nil {
			t.Fatalf("%v", err)
		}
		defer ch.db.Close()
		st := drawState(t, nil)
		ch.push(genesis, 99, st)
		r := &ref{c: ch, genesis: genesis, memo: map[string][]types.Address{}}
		start := func() consensus.Consensus {
			cs := consensus.NewConsensus(ch, &lock.EasyImpl{})
			if err := cs.Init(nil); err != nil {
				t.Fatalf("init: %v", err)
			}
			return cs
		}
		cs := start()
		forks, restarts := 0, 0
		per := planSeconds(g)
		lazy := map[types.Address]int{}

		grow := func() {
			for i := 0; i < 12; i++ {
				lazy[addrOf(i)] = rapid.SampledFrom([]int{0, 0, 0, 15, 30, 60, 100}).Draw(t, "lazy")
			}
			rnd := rand.New(rand.NewSource(rapid.Int64().Draw(t, "slots")))
			last := ch.GetLatestSnapshotBlock().Timestamp.Unix()
			if gap := rapid.SampledFrom([]int64{0, 0, 0, 0, per, 3 * per, 3600, 30000, 90000}).Draw(t, "gap"); gap > 0 {
				last += gap
			}
			first := uint64(r.idx(last))
			for i := first; i < first+uint64(rapid.IntRange(1, 7).Draw(t, "periods")); i++ {
				for _, s := range slots(g, genesis, i, r.snapshotMembers(i)) {
					if s.s > last && rnd.Intn(100) >= lazy[s.who] {
						sbp := 0
						for addrOf(sbp) != s.who {
							sbp++
						}
						if rnd.Intn(25) == 0 {
							sbp = rnd.Intn(14)
						}
						ch.push(s.s, sbp, st)
					}
				}
			}
		}
		check := func() {
			latest := ch.GetLatestSnapshotBlock().Timestamp.Unix()
			top := uint64(r.idx(latest))
			for n := 0; n < 4; n++ {
				i := uint64(rapid.Int64Range(0, int64(top)+2).Draw(t, "index"))
				if n == 0 {
					i = top + uint64(rapid.IntRange(0, 1).Draw(t, "next"))
				}
				want := slots(g, genesis, i, r.snapshotMembers(i))
				ev, at, err := cs.ReadByIndex(types.SNAPSHOT_GID, i)
				if err != nil || at != i || len(ev) != len(want) {
					t.Fatalf("plan of period %d: %d slots (%v), the rules give %d", i, len(ev), err, len(want))
				}
				for k, e := range ev {
					if e.Address != want[k].who || e.Stime.Unix() != want[k].s || e.Etime.Unix() != want[k].e {
						t.Fatalf("period %d slot %d: %s at %d, the rules give %s at %d", i, k, e.Address, e.Stime.Unix(), want[k].who, want[k].s)
					}
				}
				// verification of producers
				ts := genesis + int64(i)*per + rapid.Int64Range(0, per-1).Draw(t, "ts")
				who := rapid.IntRange(0, 12).Draw(t, "who")
				if len(want) > 0 && rapid.Bool().Draw(t, "slotOwner") {
					s := rapid.SampledFrom(want).Draw(t, "slot")
					ts = s.s
					if rapid.IntRange(0, 3).Draw(t, "right") > 0 {
						for who = 0; addrOf(who) != s.who; who++ {
						}
					}
				}
				ok := false
				for _, s := range want {
					if s.s == ts && s.who == addrOf(who) {
						ok = true
					}
				}
				tt := time.Unix(ts, 0)
				got, err := cs.VerifySnapshotProducer(&ledger.SnapshotBlock{Timestamp: &tt, PublicKey: pkOf(who)})
				if err != nil || got != ok {
					t.Fatalf("producer s%02d at %d (period %d): accepted %v (%v), the rules say %v", who, ts, i, got, err, ok)
				}
			}
			// contract group: judged at the latest snapshot block
			di := uint64((latest - genesis) / planSeconds(d))
			if members, exists := r.contractMembers(di); exists {
				var bs []*ledger.AccountBlock
				var wantBad, gotBad []string
				for who := 0; who < 13; who++ {
					in := false
					for _, a := range members {
						in = in || a == addrOf(who)
					}
					b := &ledger.AccountBlock{PublicKey: pkOf(who), BlockType: ledger.BlockTypeReceive}
					b.AccountAddress = types.CreateContractAddress([]byte{1})
					bs = append(bs, b)
					got, err := cs.VerifyAccountProducer(b)
					if err != nil || got != (in && d.CheckLevel == 1) {
						t.Fatalf("contract producer s%02d at index %d: %v (%v), elected %v, level %d", who, di, got, err, in, d.CheckLevel)
					}
					if !in {
						wantBad = append(wantBad, b.Producer().String())
					}
				}
				bad, err := cs.VerifyABsProducer(map[types.Gid][]*ledger.AccountBlock{types.DELEGATE_GID: bs})
				if err != nil {
					t.Fatalf("VerifyABsProducer: %v", err)
				}
				for _, b := range bad {
					gotBad = append(gotBad, b.Producer().String())
				}
				if fmt.Sprint(gotBad) != fmt.Sprint(wantBad) {
					t.Fatalf("blocks refused %v, want %v", gotBad, wantBad)
				}
			}
			// statistics
			i := uint64(rapid.Int64Range(0, int64(top)).Draw(t, "stat"))
			if rapid.Bool().Draw(t, "latestStat") {
				i = top
			}
			rates, err := cs.SBPReader().GetSuccessRateByHour(i)
			want := r.rates(i)
			if err != nil || len(rates) != len(want) {
				t.Fatalf("success rates at %d: %v (%v), want %v", i, rates, err, want)
			}
			for a, x := range want {
				if rates[a] != x {
					t.Fatalf("success rate of %s at %d is %d, want %d", a, i, rates[a], x)
				}
			}
			ps, err := cs.SBPReader().PeriodStats(i, i)
			if err != nil {
				t.Fatalf("period stats: %v", err)
			}
			comparePoints(t, "period", i, ps2base(ps), r.sum(i, i+1))
			hi := uint64(latest-genesis) / 3600
			if hi > 0 && rapid.Bool().Draw(t, "earlier") {
				hi = uint64(rapid.Int64Range(0, int64(hi)).Draw(t, "hour"))
			}
			rate := uint64(3600 / per)
			hs, err := cs.SBPReader().HourStats(hi, hi)
			if err != nil {
				t.Fatalf("hour stats: %v", err)
			}
			comparePoints(t, "hour", hi, hs2base(hs), r.sum(hi*rate, hi*rate+rate))
			if rapid.IntRange(0, 3).Draw(t, "day") == 0 {
				di := uint64(latest-genesis) / 86400
				if di > 0 && rapid.Bool().Draw(t, "earlierDay") {
					di--
				}
				ds, err := cs.SBPReader().DayStats(di, di)
				if err != nil {
					t.Fatalf("day stats: %v", err)
				}
				r.compareDay(t, di, ds)
			}
		}
		for n := rapid.IntRange(2, 8).Draw(t, "steps"); n > 0; n-- {
			switch rapid.IntRange(0, 5).Draw(t, "step") {
			case 0, 1, 2:
				grow()
			case 3:
				st = drawState(t, st)
				grow()
			case 4:
				if len(ch.blocks) > 1 {
					ch.cut(rapid.IntRange(1, len(ch.blocks)-1).Draw(t, "fork"))
					r.memo = map[string][]types.Address{}
					forks++
					if rapid.Bool().Draw(t, "regrow") {
						grow()
					}
				}
			case 5:
				cs = start()
				restarts++
			}
			check()
		}
		top := r.idx(ch.GetLatestSnapshotBlock().Timestamp.Unix())
		if top >= 4 && forks+restarts > 0 {
			c.NonTrivial(top, len(ch.blocks), forks, restarts, ch.serial)
		}
		c.Sample("%d blocks over %d periods of %d s, %d seats, %d forks, %d restarts", len(ch.blocks), top, per, g.NodeCount, forks, restarts)
	})
}

func ps2base(ps []*core.PeriodStats) (r []*core.BaseStats) {
	for _, p := range ps {
		r = append(r, p.BaseStats)
	}
	return
}

func hs2base(ps []*core.HourStats) (r []*core.BaseStats) {
	for _, p := range ps {
		r = append(r, p.BaseStats)
	}
	return
}

func comparePoints(t *rapid.T, what string, i uint64, got []*core.BaseStats, want map[types.Address]*count) {
	if len(want) == 0 {
		if len(got) != 0 {
			t.Fatalf("%s %d: statistics %v for no blocks", what, i, got[0].Stats)
		}
		return
	}
	if len(got) != 1 || got[0].Index != i || len(got[0].Stats) != len(want) {
		t.Fatalf("%s %d: %d entries, want one with %d producers", what, i, len(got), len(want))
	}
	for a, w := range want {
		s := got[0].Stats[a]
		if s == nil || s.BlockNum != w.made || s.ExceptedBlockNum != w.expected {
			t.Fatalf("%s %d: %s has %+v, want %+v", what, i, a, s, *w)
		}
	}
}

func (r *ref) compareDay(t *rapid.T, di uint64, got []*core.DayStats) {
	per := uint64(planSeconds(*r.c.groups[0]))
	rate := 3600 / per
	want := r.sum(di*24*rate, (di+1)*24*rate)
	if len(want) == 0 {
		if len(got) != 0 {
			t.Fatalf("day %d: statistics for no blocks", di)
		}
		return
	}
	if len(got) != 1 || got[0].Index != di {
		t.Fatalf("day %d: %d entries", di, len(got))
	}
	total := uint64(0)
	byName := map[string]*count{}
	regs := map[types.Address]string{}
	for _, g := range r.c.state[r.c.GetLatestSnapshotBlock().Hash].regs {
		regs[g.BlockProducingAddress] = g.Name
	}
	for a, w := range want {
		total += w.made
		if n := regs[a]; n != "" {
			byName[n] = w
		}
	}
	last := r.c.blocks[r.c.before(r.genesis+int64(di+1)*86400)]
	cs := r.candidates(last)
	byRank(cs)
	if len(cs) > int(r.c.groups[0].RandRank) {
		cs = cs[:r.c.groups[0].RandRank]
	}
	votes := big.NewInt(0)
	for _, x := range cs {
		votes.Add(votes, x.bal)
	}
	d := got[0]
	if d.BlockTotal != total || d.VoteSum.Cmp(votes) != 0 || len(d.Stats) != len(cs) {
		t.Fatalf("day %d: %d blocks, %v votes, %d producers; want %d, %v, %d", di, d.BlockTotal, d.VoteSum, len(d.Stats), total, votes, len(cs))
	}
	for _, x := range cs {
		s := d.Stats[x.name]
		w := byName[x.name]
		if w == nil {
			w = &count{}
		}
		if s == nil || s.VoteCnt.Cmp(x.bal) != 0 || s.BlockNum != w.made || s.ExceptedBlockNum != w.expected {
			t.Fatalf("day %d: %s has %+v, want %v votes and %+v", di, x.name, s, x.bal, *w)
		}
	}
}
