package c12

import (
	"bytes"
	"fmt"
	"math/big"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	ccore "github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/memchain"
	"verif/vlib"
)

const (
	users   = 4
	lock    = 20 // registration lock of the generated genesis
	day     = 86400
	genesis = memchain.GenesisTime
)

var (
	deposit     = memchain.Attov(1000000)
	perBlock    = big.NewInt(951293759512937595)
	stakeBefore = memchain.Attov(500000)
	goodNames   = []string{"s1", "s2", "alpha", "alpha b", "a", "b", "a.b", "abcdefghijklmnopqrstuvwxyzabcdefghijklmn"}
	badNames    = []string{"", "a,b", " a", "a ", "a  b", "é", "a\n", "abcdefghijklmnopqrstuvwxyzabcdefghijklmno"}
)

// stats is what the consensus layer reports per day: a fixed function of day and seed.
type stats struct{ seed uint64 }

func (s stats) rnd(d uint64, n string, k uint64) uint64 {
	h := types.DataHash([]byte(fmt.Sprint(s.seed, d, n, k)))
	return uint64(h[0])<<16 | uint64(h[1])<<8 | uint64(h[2])
}

func (s stats) day(d uint64) *ccore.DayStats {
	r := &ccore.DayStats{Index: d, Stats: map[string]*ccore.SbpStats{}, VoteSum: &ccore.BigInt{Int: new(big.Int)}}
	for _, n := range goodNames {
		if s.rnd(d, n, 0)%4 == 0 {
			continue
		}
		exp := s.rnd(d, n, 1) % 4
		if exp > 0 {
			exp = exp * 1000
		}
		num := uint64(0)
		if exp > 0 {
			num = s.rnd(d, n, 2) % (exp + 1)
		}
		vote := new(big.Int).Mul(big.NewInt(int64(s.rnd(d, n, 3))), big.NewInt(1e18))
		r.Stats[n] = &ccore.SbpStats{Index: d, BlockNum: num, ExceptedBlockNum: exp, VoteCnt: &ccore.BigInt{Int: vote}, Name: n}
		r.VoteSum.Add(r.VoteSum.Int, vote)
		r.BlockTotal += num
	}
	return r
}
func (s stats) DayStats(a, b uint64) (l []*ccore.DayStats, err error) {
	for d := a; d <= b; d++ {
		l = append(l, s.day(d))
	}
	return
}
func (s stats) GetDayTimeIndex() ccore.TimeIndex {
	return ccore.NewTimeIndex(time.Unix(genesis, 0), 24*time.Hour)
}

// reward of one day, by the published formula.
func (s stats) reward(d uint64, name string) *big.Int {
	x := s.day(d)
	me := x.Stats[name]
	if me == nil || me.ExceptedBlockNum == 0 {
		return new(big.Int)
	}
	stake := deposit
	if d == 0 { // the deposit before the upgrade at the first snapshot
		stake = stakeBefore
	}
	n := new(big.Int).Add(me.VoteCnt.Int, stake)
	for _, f := range []*big.Int{new(big.Int).SetUint64(x.BlockTotal), big.NewInt(50), perBlock, new(big.Int).SetUint64(me.BlockNum)} {
		n.Mul(n, f)
	}
	den := new(big.Int).Mul(stake, big.NewInt(int64(len(x.Stats))))
	den.Add(den, x.VoteSum.Int)
	n.Div(n, den)
	n.Div(n, new(big.Int).SetUint64(me.ExceptedBlockNum))
	n.Div(n, big.NewInt(100))
	b := new(big.Int).Mul(big.NewInt(50), perBlock)
	b.Mul(b, new(big.Int).SetUint64(me.BlockNum))
	return n.Add(n, b.Div(b, big.NewInt(100)))
}

type reg struct {
	name                  string
	prod, withdraw, owner types.Address
	amount                *big.Int
	exp                   uint64
	rewardTime, revoked   int64
	hist                  []types.Address
	paid                  map[uint64]bool
	moved                 bool // an out-of-order request moved the reward time back
	regDay                uint64
}

type op struct {
	method   string
	sender   types.Address
	gid      types.Gid
	name     string
	addr     types.Address
	withdraw types.Address
	amount   *big.Int
	token    types.TokenTypeId
	send     *core.AccountBlock
}

func (o *op) kind() string {
	switch o.method {
	case "Register", "RegisterSBP":
		return "register"
	case "UpdateRegistration", "UpdateBlockProducingAddress", "UpdateSBPBlockProducingAddress":
		return "producer"
	case "UpdateSBPRewardWithdrawAddress":
		return "withdrawAddr"
	case "CancelRegister", "Revoke", "RevokeSBP":
		return "revoke"
	case "Reward", "WithdrawReward", "WithdrawSBPReward":
		return "reward"
	case "Vote", "VoteForSBP":
		return "vote"
	}
	return "unvote"
}

func v3(m string) bool { return strings.Contains(m, "SBP") }

func (o *op) data() []byte {
	var args []interface{}
	if !v3(o.method) {
		args = append(args, o.gid)
	}
	switch o.kind() {
	case "unvote":
	default:
		args = append(args, o.name)
	}
	switch o.kind() {
	case "register":
		args = append(args, o.addr)
		if v3(o.method) {
			args = append(args, o.withdraw)
		}
	case "producer", "reward":
		args = append(args, o.addr)
	case "withdrawAddr":
		args = append(args, o.withdraw)
	}
	d, err := cabi.ABIGovernance.PackMethod(o.method, args...)
	if err != nil {
		panic(err)
	}
	return d
}

func goodName(s string) bool {
	if len(s) == 0 || len(s) > 40 || s[0] == ' ' || s[len(s)-1] == ' ' {
		return false
	}
	for i := 0; i < len(s); i++ {
		b := s[i]
		if b == ' ' {
			if s[i-1] == ' ' {
				return false
			}
		} else if !(b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b >= '0' && b <= '9' || b == '_' || b == '.') {
			return false
		}
	}
	return true
}

func (o *op) accepted(bal *big.Int) bool {
	if o.amount.Cmp(bal) > 0 {
		return false
	}
	if o.kind() != "register" && o.amount.Sign() > 0 {
		return false
	}
	switch o.kind() {
	case "reward":
		return o.gid == types.SNAPSHOT_GID
	case "unvote":
		return o.gid != types.DELEGATE_GID
	}
	return o.gid != types.DELEGATE_GID && goodName(o.name)
}

type world struct {
	rt      *rapid.T
	c       *memchain.Chain
	st      stats
	regs    map[string]*reg
	hisName map[types.Address]string
	votes   map[types.Address]string
	pending []*op
	log     []string
}

func (w *world) fail(f string, a ...interface{}) {
	w.rt.Helper()
	w.rt.Fatalf(f+"\nhistory:\n%s", append(a, fmt.Sprint(w.log))...)
}

func dayOf(t int64) int64 { return (t - genesis) / day }

func endOf(t int64) (idx int64, end int64, none bool) {
	if t < genesis || dayOf(t) == 0 {
		return 0, genesis, true
	}
	d := dayOf(t)
	return d - 1, genesis + d*day, false
}

func (r *reg) calc(st stats, now int64) (end int64, total *big.Int, drained bool, days []uint64) {
	total = new(big.Int)
	if r.rewardTime < 0 {
		return 0, total, true, nil
	}
	start := int64(0)
	if r.rewardTime > genesis {
		start = dayOf(r.rewardTime-1) + 1
	}
	limit := now - 3600
	idx, end, none := endOf(limit)
	if r.revoked != 0 {
		if i2, e2, n2 := endOf(r.revoked); e2 <= limit {
			idx, end, none, drained = i2, e2, n2, true
		}
	}
	if !none {
		for d := start; d <= idx; d++ {
			total.Add(total, st.reward(uint64(d), r.name))
			days = append(days, uint64(d))
		}
	}
	return end, total, drained, days
}

// apply runs the call on the model. pay: deposit returned; mint: reward minted.
func (w *world) apply(o *op, sb *core.SnapshotBlock) (ok bool, pay, mint *big.Int) {
	pay, mint = new(big.Int), new(big.Int)
	now, h := sb.Timestamp.Unix(), sb.Height
	r := w.regs[o.name]
	if o.gid != types.SNAPSHOT_GID {
		return o.kind() == "unvote", pay, mint // no such group: only a no-op cancel of a vote succeeds
	}
	switch o.kind() {
	case "register":
		if o.amount.Cmp(deposit) != 0 || o.token != memchain.Vite {
			return
		}
		n := &reg{name: o.name, prod: o.addr, withdraw: o.sender, owner: o.sender, amount: deposit, exp: h + lock, rewardTime: now, paid: map[uint64]bool{}}
		if v3(o.method) {
			n.withdraw = o.withdraw
		}
		if r != nil {
			if r.revoked == 0 || r.owner != o.sender {
				return
			}
			if _, total, drained, _ := r.calc(w.st, now); !drained || total.Sign() > 0 {
				return
			}
			n.hist, n.paid, n.moved = r.hist, r.paid, r.moved
		}
		if his, used := w.hisName[o.addr]; used {
			if his != o.name {
				return
			}
		} else {
			w.hisName[o.addr] = o.name
			n.hist = append(n.hist[:len(n.hist):len(n.hist)], o.addr)
		}
		w.regs[o.name] = n
		return true, pay, mint
	case "revoke":
		if r == nil || r.revoked != 0 || r.owner != o.sender || r.exp > h {
			return
		}
		if _, _, drained, _ := r.calc(w.st, now); drained {
			r.rewardTime = -1
		}
		pay = r.amount
		r.amount, r.exp, r.revoked = new(big.Int), 0, now
		return true, pay, mint
	case "producer":
		if r == nil || r.revoked != 0 || r.owner != o.sender || r.prod == o.addr {
			return
		}
		if his, used := w.hisName[o.addr]; used {
			if his != o.name {
				return
			}
		} else {
			w.hisName[o.addr] = o.name
			r.hist = append(r.hist[:len(r.hist):len(r.hist)], o.addr)
		}
		r.prod = o.addr
		return true, pay, mint
	case "withdrawAddr":
		if r == nil || r.revoked != 0 || r.owner != o.sender || r.withdraw == o.withdraw {
			return
		}
		r.withdraw = o.withdraw
		return true, pay, mint
	case "reward":
		if r == nil || r.rewardTime == -1 || o.sender != r.owner && o.sender != r.withdraw {
			return
		}
		end, total, drained, days := r.calc(w.st, now)
		if drained {
			end = -1
		}
		if end == r.rewardTime {
			return true, pay, mint
		}
		for _, d := range days {
			if r.paid[d] {
				if !r.moved {
					w.fail("day %d of %q is paid twice", d, r.name)
				}
				vlib.KnownFinding("reward-time-moves-back")
			}
			r.paid[d] = true
		}
		if end >= 0 && end < r.rewardTime {
			for d := range r.paid {
				if genesis+int64(d)*day >= end {
					r.moved = true // already paid days become payable again
				}
			}
		}
		r.rewardTime = end
		return true, pay, total
	case "vote":
		if r == nil || r.revoked != 0 {
			return
		}
		w.votes[o.sender] = o.name
		return true, pay, mint
	}
	delete(w.votes, o.sender)
	return true, pay, mint
}

func (w *world) drawOp() *op {
	rt := w.rt
	u := func(l string) types.Address { return memchain.User(rapid.IntRange(0, users-1).Draw(rt, l)) }
	o := &op{sender: u("sender"), gid: types.SNAPSHOT_GID, amount: new(big.Int), token: memchain.Vite, withdraw: u("withdraw")}
	o.method = rapid.SampledFrom([]string{"Register", "RegisterSBP", "RegisterSBP", "UpdateRegistration", "UpdateBlockProducingAddress", "UpdateSBPBlockProducingAddress", "UpdateSBPRewardWithdrawAddress", "UpdateSBPRewardWithdrawAddress",
		"CancelRegister", "Revoke", "RevokeSBP", "RevokeSBP", "Reward", "WithdrawReward", "WithdrawSBPReward", "WithdrawSBPReward", "Vote", "VoteForSBP", "CancelVote", "CancelSBPVoting"}).Draw(rt, "m")
	if rapid.IntRange(0, 19).Draw(rt, "bad") == 0 {
		o.name = rapid.SampledFrom(badNames).Draw(rt, "bn")
	} else {
		o.name = rapid.SampledFrom(goodNames).Draw(rt, "gn")
	}
	o.addr = memchain.User(500 + rapid.IntRange(0, 7).Draw(rt, "prod"))
	if o.kind() == "reward" {
		o.addr = u("receiver")
	}
	if r := w.regs[o.name]; r != nil && rapid.IntRange(0, 3).Draw(rt, "mine") > 0 {
		o.sender = r.owner
		if o.kind() == "reward" && rapid.Bool().Draw(rt, "byWithdraw") {
			o.sender = r.withdraw
		}
	}
	if o.kind() == "register" {
		o.amount = deposit
		switch rapid.IntRange(0, 11).Draw(rt, "amt") {
		case 0:
			o.amount = new(big.Int).Add(deposit, big.NewInt(1))
		case 1:
			o.amount = new(big.Int)
		case 2:
			o.amount = stakeBefore
		case 3:
			o.token, o.amount = memchain.Token(0), deposit
		}
	} else if rapid.IntRange(0, 29).Draw(rt, "att") == 0 {
		o.amount = big.NewInt(1)
	}
	if !v3(o.method) {
		switch rapid.IntRange(0, 14).Draw(rt, "gid") {
		case 0:
			o.gid = types.DELEGATE_GID
		case 1:
			o.gid = types.Gid{9, 9, 9}
		}
	}
	return o
}

func (w *world) submit(o *op, c *vlib.C) {
	bal, _ := w.c.GetBalance(o.sender, o.token)
	r := w.c.Send(memchain.Tx{From: o.sender, To: types.AddressGovernance, Amount: o.amount, Token: o.token, Data: o.data()})
	sb := w.c.Latest()
	w.log = append(w.log, fmt.Sprintf("h%d d%.3f send %s by %x %q addr %x withdraw %x amount %v gid %x: %v\n", sb.Height, float64(sb.Timestamp.Unix()-genesis)/day, o.method, o.sender[:3], o.name, o.addr[:3], o.withdraw[:3], o.amount, o.gid[:], r.Err))
	if r.Panic != nil {
		w.fail("send panicked: %v", r.Panic)
	}
	got := r.Err == nil && r.Block != nil
	if want := o.accepted(bal); got != want {
		w.fail("%s: accepted %v, the rules say %v (%v)", o.method, got, want, r.Err)
	}
	c.Label(fmt.Sprintf("send %s accepted=%v", o.kind(), got))
	if got {
		o.send = r.Block
		w.pending = append(w.pending, o)
	}
}

func (w *world) receive(i int, c *vlib.C) {
	o := w.pending[i]
	w.pending = append(w.pending[:i:i], w.pending[i+1:]...)
	h := w.c.ConfirmedAt[o.send.Hash]
	if h == 0 {
		h = w.c.Height()
	}
	sb := w.c.Snapshots[h-1]
	bal0, _ := w.c.GetBalance(types.AddressGovernance, memchain.Vite)
	r := w.c.Receive(o.send)
	if r.Panic != nil || r.Block == nil {
		w.fail("receive of %s: panic %v err %v", o.method, r.Panic, r.Err)
	}
	ok, pay, mint := w.apply(o, sb)
	w.log = append(w.log, fmt.Sprintf("receive %s by %x %q under h%d d%.3f: expected %v pay %v mint %v, err %v\n", o.method, o.sender[:3], o.name, h, float64(sb.Timestamp.Unix()-genesis)/day, ok, pay, mint, r.Err))
	if (r.Err == nil) != ok {
		w.fail("%s: succeeded %v, the rules say %v (%v)", o.method, r.Err == nil, ok, r.Err)
	}
	if n := len(r.Block.Data); n != 33 || (r.Block.Data[32] == 0) != ok {
		w.fail("%s: receipt %x does not say success=%v", o.method, r.Block.Data, ok)
	}
	c.Label(fmt.Sprintf("receive %s ok=%v", o.kind(), ok))
	back := pay
	if !ok {
		back = o.amount
	}
	n := 0
	if back.Sign() > 0 {
		n++
		if len(r.Block.SendBlockList) != 1 {
			w.fail("%s: %d triggered sends, expected one of %v", o.method, len(r.Block.SendBlockList), back)
		}
		s := r.Block.SendBlockList[0]
		if s.ToAddress != o.sender || s.Amount.Cmp(back) != 0 || s.TokenId != o.token && ok == false || ok && s.TokenId != memchain.Vite || len(s.Data) != 0 {
			w.fail("%s: triggered send %v to %v, expected %v to %v", o.method, s.Amount, s.ToAddress, back, o.sender)
		}
		if rr := w.c.Receive(s); rr.Err != nil || rr.Panic != nil {
			w.fail("cannot receive: %v %v", rr.Err, rr.Panic)
		}
	}
	if mint.Sign() > 0 {
		n++
		if len(r.Block.SendBlockList) != 1 {
			w.fail("reward: %d triggered sends", len(r.Block.SendBlockList))
		}
		s := r.Block.SendBlockList[0]
		d, _ := cabi.ABIAsset.PackMethod("ReIssue", memchain.Vite, mint, o.addr)
		if s.ToAddress != types.AddressAsset || s.Amount.Sign() != 0 || !bytes.Equal(s.Data, d) {
			w.fail("reward: triggered send to %v data %x, expected mint of %v to %v", s.ToAddress, s.Data, mint, o.addr)
		}
		rr := w.c.Receive(s)
		if rr.Err != nil || rr.Panic != nil || len(rr.Block.SendBlockList) != 1 {
			w.fail("the reward cannot be minted: %v %v", rr.Err, rr.Panic)
		}
		m := rr.Block.SendBlockList[0]
		if m.ToAddress != o.addr || m.Amount.Cmp(mint) != 0 || m.TokenId != memchain.Vite {
			w.fail("minted %v for %v, expected %v for %v", m.Amount, m.ToAddress, mint, o.addr)
		}
		if rr := w.c.Receive(m); rr.Err != nil || rr.Panic != nil {
			w.fail("cannot receive the reward: %v %v", rr.Err, rr.Panic)
		}
	}
	if n == 0 && len(r.Block.SendBlockList) > 0 {
		w.fail("%s: unexpected triggered sends", o.method)
	}
	bal1, _ := w.c.GetBalance(types.AddressGovernance, memchain.Vite)
	want := new(big.Int).Set(bal0)
	if o.token == memchain.Vite {
		want.Add(want, o.amount)
		want.Sub(want, back)
	}
	if bal1.Cmp(want) != 0 {
		w.fail("%s: the contract holds %v, expected %v", o.method, bal1, want)
	}
	if ok && (pay.Sign() > 0 || mint.Sign() > 0 || o.kind() == "producer" || o.kind() == "withdrawAddr") {
		c.NonTrivial(w.log)
		c.Sample("%v", w.log)
	}
}

func (w *world) check() {
	st := w.c.Storage(types.AddressGovernance)
	all, err := cabi.GetAllRegistrationList(st, types.SNAPSHOT_GID)
	if err != nil || len(all) != len(w.regs) {
		w.fail("%d registrations (%v), expected %d", len(all), err, len(w.regs))
	}
	held, active := new(big.Int), 0
	byW := map[types.Address]map[string]bool{}
	byOwner := map[types.Address]int{}
	for name, r := range w.regs {
		one, err := cabi.GetRegistration(st, types.SNAPSHOT_GID, name)
		if err != nil || one == nil {
			w.fail("registration %q is gone", name)
		}
		if one.Name != r.name || one.BlockProducingAddress != r.prod || one.RewardWithdrawAddress != r.withdraw || one.StakeAddress != r.owner || one.Amount.Cmp(r.amount) != 0 ||
			one.ExpirationHeight != r.exp || one.RewardTime != r.rewardTime || one.RevokeTime != r.revoked || len(one.HisAddrList) != len(r.hist) {
			w.fail("registration %q is %+v, expected %+v", name, *one, *r)
		}
		for i := range r.hist {
			if one.HisAddrList[i] != r.hist[i] {
				w.fail("registration %q: former producers %v, expected %v", name, one.HisAddrList, r.hist)
			}
		}
		held.Add(held, r.amount)
		act, err := cabi.IsActiveRegistration(st, name, types.SNAPSHOT_GID)
		if err != nil || act != (r.revoked == 0) {
			w.fail("%q active=%v", name, act)
		}
		if act {
			active++
			if r.amount.Sign() <= 0 {
				w.fail("%q is active without a deposit", name)
			}
		}
		if r.withdraw != r.owner {
			if byW[r.withdraw] == nil {
				byW[r.withdraw] = map[string]bool{}
			}
			byW[r.withdraw][name] = true
		}
		byOwner[r.owner]++
	}
	if bal, _ := w.c.GetBalance(types.AddressGovernance, memchain.Vite); bal.Cmp(held) != 0 {
		w.fail("the contract holds %v, active deposits are %v", bal, held)
	}
	cand, err := cabi.GetCandidateList(st, types.SNAPSHOT_GID)
	if err != nil || len(cand) != active {
		w.fail("%d candidates (%v), expected %d", len(cand), err, active)
	}
	for _, r := range cand {
		if w.regs[r.Name] == nil || w.regs[r.Name].revoked != 0 {
			w.fail("candidate %q is not registered", r.Name)
		}
	}
	for i := 0; i < users; i++ {
		a := memchain.User(i)
		l, err := cabi.GetRegistrationListByRewardWithdrawAddr(st, types.SNAPSHOT_GID, a)
		if err != nil || len(l) != len(byW[a]) {
			w.fail("%v withdraws for %d producers (%v), expected %d", a, len(l), err, len(byW[a]))
		}
		for _, r := range l {
			if r == nil || !byW[a][r.Name] {
				w.fail("%v listed as withdraw address of %+v", a, r)
			}
		}
		if l, err := cabi.GetRegistrationList(st, types.SNAPSHOT_GID, a); err != nil || len(l) != byOwner[a] {
			w.fail("%v owns %d registrations, expected %d", a, len(l), byOwner[a])
		}
		v, err := cabi.GetVote(st, types.SNAPSHOT_GID, a)
		if err != nil || (v == nil) != (w.votes[a] == "") || v != nil && v.SbpName != w.votes[a] {
			w.fail("vote of %v is %+v (%v), expected %q", a, v, err, w.votes[a])
		}
	}
	vl, err := cabi.GetVoteList(st, types.SNAPSHOT_GID)
	if err != nil || len(vl) != len(w.votes) {
		w.fail("%d votes listed, expected %d", len(vl), len(w.votes))
	}
	for _, v := range vl {
		if w.votes[v.VoteAddr] != v.SbpName {
			w.fail("listed vote %+v, expected %q", v, w.votes[v.VoteAddr])
		}
	}
}

var cfg = func() func() *memchain.Chain {
	var g = memchain.Genesis(memchain.GenesisOpt{Users: users, Tokens: 1, Sbps: 2, Balance: memchain.Attov(4000000)})
	g.GovernanceInfo.ConsensusGroupInfoMap[types.SNAPSHOT_GID.String()].RegisterConditionParam.StakeHeight = lock
	return func() *memchain.Chain { return memchain.New(g) }
}()

func newWorld(rt *rapid.T) *world {
	w := &world{rt: rt, c: cfg(), st: stats{uint64(rapid.IntRange(0, 5).Draw(rt, "statSeed"))}, regs: map[string]*reg{}, hisName: map[types.Address]string{}, votes: map[types.Address]string{}}
	w.c.StakeOverride = func(types.Address) *big.Int { return memchain.Attov(10000000) }
	w.c.Reader = util.NewVMConsensusReader(w.st)
	for i := 0; i < 2; i++ {
		n := []string{"s1", "s2"}[i]
		w.regs[n] = &reg{name: n, prod: memchain.User(500 + i), withdraw: memchain.User(i), owner: memchain.User(i), amount: memchain.Attov(100000), exp: 1, rewardTime: 1, hist: []types.Address{memchain.User(500 + i)}, paid: map[uint64]bool{}}
		w.hisName[memchain.User(500+i)] = n
	}
	return w
}

func (w *world) advance() {
	now := w.c.Latest().Timestamp.Unix()
	switch rapid.IntRange(0, 5).Draw(w.rt, "adv") {
	case 0:
		w.c.Snapshot(now + int64(rapid.IntRange(1, 3*day).Draw(w.rt, "secs")))
	case 1: // around the hour after a day's end, where that day's reward becomes due
		next := genesis + (dayOf(now)+1)*day + 3600 + int64(rapid.IntRange(-2, 2).Draw(w.rt, "edge"))
		w.c.Snapshot(max(next, now+1))
	case 2:
		next := genesis + (dayOf(now)+1)*day + int64(rapid.IntRange(-2, 2).Draw(w.rt, "edge"))
		w.c.Snapshot(max(next, now+1))
	case 3:
		w.c.Tick(rapid.IntRange(18, 22).Draw(w.rt, "lock"))
	default:
		w.c.Tick(1)
	}
}

func TestHistories(t *testing.T) {
	memchain.Init()
	vlib.Check(t, vlib.Opts{Rule: "histories of register, update, revoke, reward, vote and cancel-vote calls (all method generations) by 4 users, valid and invalid, at generated heights and days; non-trivial: a deposit was returned, a reward minted or a registration updated", Quick: 700, Thorough: 20000},
		func(rt *rapid.T, c *vlib.C) {
			w := newWorld(rt)
			w.check()
			for i, n := 0, rapid.IntRange(5, 60).Draw(rt, "n"); i < n; i++ {
				if rapid.IntRange(0, 2).Draw(rt, "step") == 0 {
					w.advance()
				} else {
					w.submit(w.drawOp(), c)
				}
				if len(w.pending) > 0 && rapid.IntRange(0, 3).Draw(rt, "rcv") > 0 {
					w.receive(rapid.IntRange(0, len(w.pending)-1).Draw(rt, "which"), c)
				}
				w.check()
			}
			for len(w.pending) > 0 {
				w.receive(0, c)
			}
			w.check()
		})
}

// TestRewards concentrates on one producer that registers, withdraws through
// both of its addresses, revokes and registers again over several days.
func TestRewards(t *testing.T) {
	memchain.Init()
	vlib.Check(t, vlib.Opts{Rule: "one producer with two withdrawing addresses over about a week, requests received in or out of order; non-trivial: a reward was minted", Quick: 700, Thorough: 20000},
		func(rt *rapid.T, c *vlib.C) {
			w := newWorld(rt)
			a, b := memchain.User(2), memchain.User(3)
			w.submit(&op{method: "RegisterSBP", sender: a, gid: types.SNAPSHOT_GID, name: "alpha", addr: memchain.User(600), withdraw: b, amount: deposit, token: memchain.Vite}, c)
			w.c.Tick(1)
			w.receive(0, c)
			for i, n := 0, rapid.IntRange(5, 30).Draw(rt, "n"); i < n; i++ {
				w.advance()
				o := &op{sender: a, gid: types.SNAPSHOT_GID, name: "alpha", addr: memchain.User(rapid.IntRange(0, 3).Draw(rt, "to")), withdraw: b, amount: new(big.Int), token: memchain.Vite}
				switch rapid.IntRange(0, 9).Draw(rt, "k") {
				case 0:
					o.method = "RevokeSBP"
				case 1:
					o.method, o.amount, o.addr = "RegisterSBP", deposit, memchain.User(600)
				default:
					o.method = "WithdrawSBPReward"
					if rapid.Bool().Draw(rt, "other") {
						o.sender = b
					}
				}
				w.submit(o, c)
				for len(w.pending) > 0 && rapid.IntRange(0, 4).Draw(rt, "rcv") > 0 {
					k := 0
					if rapid.IntRange(0, 9).Draw(rt, "ooo") == 0 {
						k = len(w.pending) - 1
					}
					w.receive(k, c)
				}
				w.check()
			}
		})
}
