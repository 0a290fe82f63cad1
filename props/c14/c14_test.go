package c14

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"math/rand"
	"sort"
	"testing"

	"google.golang.org/protobuf/proto"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"verif/dexworld"
	"verif/memchain"
	"verif/vlib"
)

type run struct {
	rt    *rapid.T
	c     *vlib.C
	w     *dexworld.World
	addrs []types.Address
	trace []string

	stakes   map[types.Hash]*stake
	openers  map[tok]types.Address
	grants   map[string]bool // agents, by market
	donated  map[tok]*big.Int
	unlocks  []pending
	cancels  []pending
	mining   map[types.Address]*big.Int
	miningAt map[types.Address]series
	lockedAt map[types.Address]series
	autoLock map[types.Address]bool
	inviter  map[types.Address]types.Address
	lastJob  map[uint8]uint64
	asked    [8]uint64
	userFees map[uint64]map[types.Address]map[int32]*big.Int
	jobPots  map[tok]*big.Int
	jobOps   map[types.Address]map[tok]*big.Int
	mineMin  map[int32]*big.Int

	normalMine bool
	firstMined uint64
	orders     []types.Hash
	markets    []*dexworld.Market
	now        int64 // last time sent, maybe not received yet
	labels     map[string]bool
	moved      int
	refused    int
	smallPot   bool
	lag        bool // jobs wait for the end of these days
	late       bool // the daily jobs of this history start late
}

func (r *run) label(s string) { r.labels[s] = true }

func (r *run) name(a types.Address) string {
	for i, u := range r.w.Users {
		if u == a {
			return fmt.Sprintf("user%d", i)
		}
	}
	return a.String()
}

func (r *run) tname(t tok) string {
	switch t {
	case vite:
		return "VITE"
	case vx:
		return "VX"
	}
	return fmt.Sprintf("token%d", t[9]-1)
}

func (r *run) fail(format string, args ...interface{}) {
	s := ""
	for _, t := range r.trace {
		s += "\n  " + t
	}
	r.rt.Fatalf("%s\nhistory:%s", fmt.Sprintf(format, args...), s)
}

func (r *run) logf(format string, args ...interface{}) {
	r.trace = append(r.trace, fmt.Sprintf(format, args...))
}

// conserved: what the exchange owes is what it holds.
func (r *run) conserved(s *state, what string) {
	for _, t := range r.w.Tokens {
		held, _ := r.w.Ch.GetBalance(types.AddressDexFund, t)
		owed := sum(s.owed(t), r.donated[t])
		if owed.Cmp(n0(held)) != 0 {
			r.fail("%s: the exchange holds %v of %s and owes %v (%v too much)", what, held, r.tname(t), owed, sub(held, owed))
		}
	}
}

// step receives the oldest pending send of a contract and judges what it did.
func (r *run) step(addr types.Address) {
	w := r.w
	from := w.Ch.Onroad[addr][0]
	m := method(from)
	if addr == types.AddressDexFund && m == "TriggerPeriodJob" {
		p := new(dex.ParamTriggerPeriodJob)
		r.unpack(p, m, from)
		r.beforeJob(p.PeriodId)
	}
	before := r.snap()
	var f core.AccountBlock
	var res memchain.Result
	if p := vlib.Catch(func() { f, res = w.Step(addr) }); p != nil {
		r.fail("receive of %s by %s: %v", m, addr, p)
	}
	after := r.snap()
	failed := memchain.Failed(res.Block)
	what := fmt.Sprintf("receive of %s of %s (failed %v)", m, r.name(f.AccountAddress), failed)
	r.logf("  %s", what)
	want, ok := before, true
	if addr == types.AddressDexFund {
		want, ok = r.expect(before, after, &f, res)
	} else {
		what = "receive of " + addr.String()
	}
	if !ok {
		r.fail("%s: refused, with funds %v", what, before.funds[f.AccountAddress])
	}
	if failed {
		r.refused++
	} else {
		r.moved++
	}
	if d := r.diff(after, want); d != "" {
		r.fail("%s: %s", what, d)
	}
	if addr == types.AddressDexFund && !failed {
		switch m {
		case "SwitchConfig":
			p := new(dex.ParamSwitchConfig)
			r.unpack(p, m, &f)
			r.autoLock[f.AccountAddress] = p.Enable
		case "BindInviteCode":
			var code uint32
			r.unpack(&code, m, &f)
			if by, err := dex.GetInviterByCode(w.Ch.Db(types.AddressDexFund), code); err == nil {
				r.inviter[f.AccountAddress] = *by
			}
		}
	}
	// what everyone has locked at the end of the day, as far as it counts
	for _, a := range r.addrs {
		if r.lockedAt[a] == nil {
			r.lockedAt[a] = series{}
		}
		r.lockedAt[a][w.Period()] = after.acct(a, vx).VxLocked
	}
	r.conserved(after, what)
}

func (r *run) drain() {
	for n := 0; ; n++ {
		p := r.w.Pending()
		if len(p) == 0 {
			break
		}
		if n > 3000 {
			r.fail("contracts keep sending")
		}
		r.step(p[0])
	}
	r.quiet()
}

// quiet: nothing is under way; locks are for resting orders, and the stakes
// are with the quota contract.
func (r *run) quiet() {
	w := r.w
	locks := map[types.Address]map[tok]*big.Int{}
	for _, a := range r.addrs {
		locks[a] = map[tok]*big.Int{}
	}
	for _, m := range r.markets {
		for _, sell := range []bool{false, true} {
			for _, o := range w.Book(m, sell) {
				a, _ := types.BytesToAddress(o.Address)
				if sell {
					inc(locks[a], m.Trade, sub(bb(o.Quantity), bb(o.ExecutedQuantity)))
				} else {
					inc(locks[a], m.Quote, sub(sum(bb(o.Amount), bb(o.LockedBuyFee)), sum(bb(o.ExecutedAmount), bb(o.ExecutedBaseFee), bb(o.ExecutedOperatorFee))))
				}
			}
		}
	}
	s := r.snap()
	for _, a := range r.addrs {
		for _, t := range w.Tokens {
			if got := s.acct(a, t).Locked; got.Cmp(n0(locks[a][t])) != 0 {
				r.fail("%s has %v of %s locked, its resting orders need %v", r.name(a), got, r.tname(t), locks[a][t])
			}
		}
	}
	staked := new(big.Int)
	for _, st := range r.stakes {
		if !st.confirmed {
			r.fail("stake %s never confirmed", st.id)
		}
		staked.Add(staked, st.amount)
	}
	held, _ := w.Ch.GetBalance(types.AddressQuota, vite)
	if n0(held).Cmp(staked) != 0 {
		r.fail("the quota contract holds %v, the exchange's stakes are %v", held, staked)
	}
	for _, a := range []types.Address{types.AddressDexTrade} {
		for _, t := range w.Tokens {
			if v, _ := w.Ch.GetBalance(a, t); v != nil && v.Sign() != 0 {
				r.fail("%s holds %v of %s", a, v, r.tname(t))
			}
		}
	}
}

func (r *run) sent(res memchain.Result, format string, args ...interface{}) *core.AccountBlock {
	what := fmt.Sprintf(format, args...)
	if res.Panic != nil {
		r.fail("%s: panic %v", what, res.Panic)
	}
	if res.Err != nil || res.Block == nil {
		r.logf("%s (not accepted: %v)", what, res.Err)
		return nil
	}
	r.logf("%s", what)
	return res.Block
}

// some part of v, all of it, or a bit more.
func (r *run) some(v *big.Int, lo *big.Int) *big.Int {
	rt := r.rt
	x := new(big.Int)
	switch rapid.IntRange(0, 6).Draw(rt, "howMuch") {
	case 0:
		x = sum(v)
	case 1:
		x = sum(v, big.NewInt(1))
	case 2:
		x = sum(lo)
	case 3:
		x = new(big.Int).Rsh(n0(v), uint(rapid.IntRange(1, 60).Draw(rt, "shift")))
	default:
		x = part(n0(v), int64(rapid.IntRange(1, 99).Draw(rt, "percent")), 100)
	}
	if x.Cmp(lo) < 0 {
		x = sum(lo)
	}
	return x
}

var one = big.NewInt(1)

// ops: which call, the more likely ones more often.
var ops = func() (l []int) {
	for k, n := range map[int]int{0: 3, 1: 3, 2: 3, 3: 3, 4: 3, 5: 28, 11: 6, 13: 3, 14: 4, 15: 2, 16: 8, 18: 5, 19: 3, 20: 4, 21: 2, 22: 3, 23: 4, 24: 2, 25: 2, 26: 2, 27: 2} {
		for ; n > 0; n-- {
			l = append(l, k)
		}
	}
	sort.Ints(l)
	rand.New(rand.NewSource(1)).Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return
}()

// op issues one call.
func (r *run) op() {
	rt, w := r.rt, r.w
	u := rapid.SampledFrom(w.Users).Draw(rt, "user")
	t := rapid.SampledFrom(w.Tokens).Draw(rt, "token")
	av := func(t tok) *big.Int { return full(w.Funds(u)[t]).Available }
	target := rapid.SampledFrom(r.addrs).Draw(rt, "target")
	db := w.Ch.Db(types.AddressDexFund)
	k := rapid.SampledFrom(ops).Draw(rt, "op")
	if (r.late || r.lag) && (k == 20 || rapid.Bool().Draw(rt, "unlockMuch")) {
		k = rapid.SampledFrom([]int{13, 14, 14, 16, 18, 18}).Draw(rt, "opLate")
	}
	switch k {
	case 0:
		bal, _ := w.Ch.GetBalance(u, t)
		v := r.some(part(n0(bal), 1, 50), one)
		r.sent(w.Pay(u, t, v, "Deposit"), "%s deposits %v %s", r.name(u), v, r.tname(t))
	case 1:
		bal, _ := w.Ch.GetBalance(u, t)
		v := r.some(part(n0(bal), 1, 50), one)
		r.sent(w.Pay(u, t, v, "AgentDeposit", target), "%s deposits %v %s for %s", r.name(u), v, r.tname(t), r.name(target))
	case 2:
		v := r.some(av(t), one)
		r.sent(w.Call(u, "Withdraw", t, v), "%s withdraws %v %s", r.name(u), v, r.tname(t))
	case 3:
		v := r.some(av(t), one)
		r.sent(w.Call(u, "Transfer", target, t, v), "%s transfers %v %s to %s", r.name(u), v, r.tname(t), r.name(target))
	case 4:
		v := r.some(av(t), one)
		to := rapid.SampledFrom(w.Users).Draw(rt, "to")
		label := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "label")
		r.sent(w.Call(u, "AssignedWithdraw", to, t, v, label), "%s withdraws %v %s to %s", r.name(u), v, r.tname(t), r.name(to))
	case 5:
		r.order(u)
	case 11:
		r.cancelOrder(u)
	case 13:
		v := r.some(av(vx), coin(1))
		r.sent(w.Call(u, "LockVxForDividend", uint8(1), v), "%s locks %v VX", r.name(u), v)
	case 14:
		v := r.some(full(w.Funds(u)[vx]).VxLocked, coin(1))
		if rapid.Bool().Draw(rt, "leaveTen") {
			if x := sub(full(w.Funds(u)[vx]).VxLocked, sum(minDividend, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(rt, "off"))))); x.Cmp(coin(1)) >= 0 {
				v = x
			}
		}
		r.sent(w.Call(u, "LockVxForDividend", uint8(2), v), "%s unlocks %v VX", r.name(u), v)
	case 15:
		on := rapid.Bool().Draw(rt, "auto")
		r.sent(w.Call(u, "SwitchConfig", uint8(1), on), "%s autolock %v", r.name(u), on)
	case 16:
		switch rapid.IntRange(0, 5).Draw(rt, "stake") {
		case 0:
			r.sent(w.Call(u, "StakeForVIP", uint8(1)), "%s stakes for VIP", r.name(u))
		case 1:
			r.sent(w.Call(u, "StakeForSVIP", uint8(1)), "%s stakes for SVIP", r.name(u))
		case 2:
			r.sent(w.Call(u, "StakeForPrincipalSVIP", target), "%s stakes for SVIP of %s", r.name(u), r.name(target))
		default:
			v := r.some(part(av(vite), 1, 20), minMining)
			r.sent(w.Call(u, "StakeForMining", uint8(1), v), "%s stakes %v for mining", r.name(u), v)
		}
	case 18:
		r.cancelStake()
	case 19:
		r.nextDay(u)
	case 20:
		r.runJob()
	case 21:
		v := coin(int64(rapid.SampledFrom([]int{1, 50, 150, 6000, 40000}).Draw(rt, "endorse")))
		r.sent(w.Pay(u, vx, v, "EndorseVx"), "%s endorses %v VX", r.name(u), v)
	case 22:
		r.makers()
	case 23:
		if code := r.anyCode(db); code != 0 && rapid.IntRange(0, 3).Draw(rt, "bind") > 0 {
			r.sent(w.Call(u, "BindInviteCode", code), "%s binds to %d", r.name(u), code)
		} else {
			r.sent(w.Call(u, "CreateNewInviter"), "%s becomes inviter", r.name(u))
		}
	case 24:
		x, q := rapid.SampledFrom(w.Tokens).Draw(rt, "newTrade"), rapid.SampledFrom([]tok{vite, r.markets[1].Quote}).Draw(rt, "newQuote")
		if x != q {
			r.sent(w.Call(u, "OpenNewMarket", x, q), "%s opens market %s/%s", r.name(u), r.tname(x), r.tname(q))
		}
	case 25:
		m := rapid.SampledFrom(r.markets).Draw(rt, "adminOf")
		mi, _ := dex.GetMarketInfo(db, m.Trade, m.Quote)
		owner, _ := types.BytesToAddress(mi.Owner)
		to := rapid.SampledFrom(w.Users).Draw(rt, "newOwner")
		r.sent(w.Call(owner, "MarketAdminConfig", uint8(rapid.IntRange(1, 7).Draw(rt, "what")), m.Trade, m.Quote, to, int32(rapid.IntRange(0, 200).Draw(rt, "taker")), int32(rapid.IntRange(0, 200).Draw(rt, "maker")), false), "market %d configured, new owner %s", m.Id, r.name(to))
	case 26:
		m := rapid.SampledFrom(r.markets).Draw(rt, "mineMarket")
		on := rapid.IntRange(0, 3).Draw(rt, "allow") > 0
		r.sent(w.Call(w.Users[0], "TradeAdminConfig", uint8(1), m.Trade, m.Quote, on, m.Trade, uint8(0), uint8(0), one, uint8(0), one), "mining on market %d: %v", m.Id, on)
	case 27:
		// money sent along with a call that asks for none stays with the exchange
		v := big.NewInt(int64(rapid.IntRange(1, 1000).Draw(rt, "gift")))
		r.sent(w.Pay(u, t, v, "Withdraw", t, r.some(av(t), one)), "%s withdraws %s sending %v along", r.name(u), r.tname(t), v)
	}
}

func (r *run) anyCode(db interface {
	GetValue([]byte) ([]byte, error)
}) uint32 {
	for _, u := range r.w.Users {
		if c := dex.GetCodeByInviter(r.w.Ch.Db(types.AddressDexFund), u); c != 0 {
			return c
		}
	}
	return 0
}

func (r *run) order(u types.Address) {
	rt, w := r.rt, r.w
	m := rapid.SampledFrom(r.markets).Draw(rt, "market")
	sell := rapid.Bool().Draw(rt, "sell")
	typ := uint8(rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 2, 3, 4}).Draw(rt, "type"))
	price := rapid.SampledFrom([]string{"1", "1.1", "0.9", "0.333333333333", "2", "0.01"}).Draw(rt, "price")
	f := w.Funds(u)
	q := full(f[m.Trade]).Available
	if !sell {
		q, _ = dexworld.QuantityF(full(f[m.Quote]).Available, price, m.QD-m.TD).Int(nil)
	}
	q = new(big.Int).Rsh(q, uint(rapid.IntRange(0, 8).Draw(rt, "part")))
	if q.Sign() == 0 {
		q = big.NewInt(5)
	}
	if l := w.Book(m, !sell); len(l) > 0 && rapid.IntRange(0, 3).Draw(rt, "cross") > 0 {
		// meet what is there, exactly, or nearly
		o := rapid.SampledFrom(l).Draw(rt, "meet")
		price = dex.BytesToPrice(o.Price)
		left := sub(bb(o.Quantity), bb(o.ExecutedQuantity))
		switch rapid.IntRange(0, 3).Draw(rt, "size") {
		case 0:
			q = left
		case 1:
			q = sum(left, left, one)
		case 2:
			q = sum(part(left, 1, 3), one)
		}
	}
	var b *core.AccountBlock
	agent := rapid.SampledFrom(w.Users).Draw(rt, "agent")
	for _, a := range w.Users { // one that has, or had, the right
		if _, ok := r.grants[fmt.Sprint(u, a, m.Trade, m.Quote)]; ok && rapid.Bool().Draw(rt, "thisAgent") {
			agent = a
			break
		}
	}
	if agent != u && rapid.IntRange(0, 3).Draw(rt, "byAgent") == 0 {
		if rapid.Bool().Draw(rt, "grant") {
			r.sent(w.Call(u, "ConfigMarketAgents", uint8(rapid.SampledFrom([]int{1, 2}).Draw(rt, "grantOp")), agent, []tok{m.Trade}, []tok{m.Quote}), "%s configures agent %s", r.name(u), r.name(agent))
		}
		b = r.sent(w.Call(agent, "PlaceAgentOrder", u, m.Trade, m.Quote, sell, typ, price, q), "%s orders for %s: market %d sell %v type %d %s x %v", r.name(agent), r.name(u), m.Id, sell, typ, price, q)
	} else {
		b = r.sent(w.Call(u, "PlaceOrder", m.Trade, m.Quote, sell, typ, price, q), "%s orders: market %d sell %v type %d %s x %v", r.name(u), m.Id, sell, typ, price, q)
	}
	if b != nil {
		r.orders = append(r.orders, b.Hash)
	}
}

func (r *run) cancelOrder(u types.Address) {
	rt, w := r.rt, r.w
	if rapid.Bool().Draw(rt, "resting") {
		m := rapid.SampledFrom(r.markets).Draw(rt, "cancelIn")
		l := append(w.Book(m, true), w.Book(m, false)...)
		if len(l) > 0 {
			o := rapid.SampledFrom(l).Draw(rt, "which")
			a, _ := types.BytesToAddress(o.Address)
			if rapid.IntRange(0, 5).Draw(rt, "stranger") == 0 {
				a = u
			}
			d, _ := cabi.ABIDexTrade.PackMethod("CancelOrder", o.Id)
			for i := rapid.IntRange(1, 2).Draw(rt, "times"); i > 0; i-- {
				r.sent(w.Send(memchain.Tx{From: a, To: types.AddressDexTrade, Token: vite, Data: d}), "%s cancels an order of market %d", r.name(a), m.Id)
			}
			return
		}
	}
	if len(r.orders) > 0 {
		h := rapid.SampledFrom(r.orders).Draw(rt, "hash")
		b, _ := w.Ch.GetAccountBlockByHash(h)
		a := u
		if b != nil && rapid.IntRange(0, 5).Draw(rt, "own") > 0 {
			a = b.AccountAddress
		}
		m := r.markets[0]
		r.sent(w.Call(a, "CancelOrderBySendHash", h, types.Address{}, m.Trade, m.Quote), "%s cancels order %s", r.name(a), h)
	}
}

func (r *run) cancelStake() {
	rt, w := r.rt, r.w
	var l []*stake
	for i := 0; i < 1000; i++ {
		for _, s := range r.stakes {
			if s.order == i {
				l = append(l, s)
			}
		}
		if len(l) == len(r.stakes) {
			break
		}
	}
	if len(l) == 0 {
		return
	}
	// stable whatever the map order: by id
	for i := range l {
		for j := i + 1; j < len(l); j++ {
			if bytes.Compare(l[j].id[:], l[i].id[:]) < 0 {
				l[i], l[j] = l[j], l[i]
			}
		}
	}
	s := l[rapid.IntRange(0, len(l)-1).Draw(rt, "stakeNo")]
	by := s.payer
	switch rapid.IntRange(0, 6).Draw(rt, "by") {
	case 0:
		by = rapid.SampledFrom(w.Users).Draw(rt, "other")
	case 1:
		if s.kind == "psvip" {
			by = s.principal
		}
	}
	if rapid.IntRange(0, 3).Draw(rt, "due") > 0 {
		w.Ch.Tick(601)
		r.logf("600 snapshots pass")
	}
	for i := rapid.SampledFrom([]int{1, 1, 1, 2}).Draw(rt, "times"); i > 0; i-- {
		r.sent(w.Call(by, "CancelStakeById", s.id), "%s cancels %s stake of %v of %s", r.name(by), s.kind, s.amount, r.name(s.payer))
	}
}

func (r *run) nextDay(u types.Address) {
	rt, w := r.rt, r.w
	by := w.Users[0]
	now := r.now
	switch rapid.IntRange(0, 7).Draw(rt, "time") {
	case 0:
		r.sent(w.Call(by, "NotifyTime", r.now-int64(rapid.IntRange(0, 1000).Draw(rt, "back"))), "time goes back")
		return
	case 1:
		by = u
		now += 3600
	case 2:
		now += int64(rapid.IntRange(1, 20000).Draw(rt, "seconds"))
	default:
		now += 86400
	}
	if b := r.sent(w.Call(by, "NotifyTime", now), "%s: time is %d", r.name(by), now); b != nil && by == w.Users[0] {
		r.now, w.Time = now, now
	}
}

// days lets days pass, with some calls every day, and jobs that may come late.
func (r *run) days(n int) {
	w := r.w
	lag := rapid.IntRange(0, 3).Draw(r.rt, "lag") == 0 || r.late
	r.lag = lag
	defer func() { r.lag = false }()
	for ; n > 0; n-- {
		r.now += 86400
		r.sent(w.Call(w.Users[0], "NotifyTime", r.now), "next day")
		if !lag || n == 1 && !r.late {
			r.jobs()
		}
		if rapid.Bool().Draw(r.rt, "drainDay") {
			r.drain()
		}
		for k := rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(r.rt, "daily"); k > 0; k-- {
			r.op()
		}
	}
	r.drain()
}

// jobs asks for every job of every day that is over.
func (r *run) jobs() {
	w := r.w
	today := dex.GetPeriodIdByTimestamp(w.Ch.Reader, r.now)
	if len(w.Pending()) == 0 {
		r.asked = [8]uint64{}
	}
	for biz := uint8(1); biz <= 7; biz++ {
		p := r.lastJob[biz] + 1
		if p == 1 {
			p = today - 1
		}
		if r.asked[biz] >= p {
			p = r.asked[biz] + 1
		}
		for ; p < today; p++ {
			r.asked[biz] = p
			r.sent(w.Call(w.Users[0], "TriggerPeriodJob", p, biz), "job %d of day %d", biz, p)
		}
	}
}

func (r *run) runJob() {
	rt, w := r.rt, r.w
	biz := uint8(rapid.IntRange(1, 7).Draw(rt, "biz"))
	p := r.lastJob[biz] + 1
	if p == 1 {
		p = w.Period() - uint64(rapid.IntRange(0, 2).Draw(rt, "first"))
	}
	if rapid.IntRange(0, 6).Draw(rt, "wrongDay") == 0 {
		p += uint64(rapid.IntRange(0, 3).Draw(rt, "later")) - 1
	}
	by := w.Users[0]
	if rapid.IntRange(0, 9).Draw(rt, "who") == 0 {
		by = rapid.SampledFrom(w.Users).Draw(rt, "jobBy")
	}
	if p == 0 {
		return
	}
	for i := rapid.SampledFrom([]int{1, 1, 2}).Draw(rt, "jobTimes"); i > 0; i-- {
		r.sent(w.Call(by, "TriggerPeriodJob", p, biz), "%s: job %d of day %d", r.name(by), biz, p)
	}
}

func (r *run) makers() {
	rt, w := r.rt, r.w
	s := r.snap()
	var p uint64
	for d := uint64(0); d <= w.Period(); d++ {
		if n0(s.maker[d]).Sign() > 0 {
			p = d
			break
		}
	}
	a := &dexproto.VxSettleActions{Period: p, Page: dex.GetLastSettledMakerMinedVxPage(w.Ch.Db(types.AddressDexFund)) + 1}
	left := n0(s.maker[p])
	for i := rapid.IntRange(1, 4).Draw(rt, "makers"); i > 0; i-- {
		u := rapid.SampledFrom(r.addrs).Draw(rt, "makerIs")
		a.Actions = append(a.Actions, &dexproto.VxSettleAction{Address: u.Bytes(), Amount: r.some(left, one).Bytes()})
	}
	d, _ := proto.Marshal(a)
	by := w.Users[0]
	if rapid.IntRange(0, 9).Draw(rt, "who") == 0 {
		by = rapid.SampledFrom(w.Users).Draw(rt, "settleBy")
	}
	r.sent(w.Call(by, "SettleMakerMinedVx", d), "%s settles makers of day %d", r.name(by), p)
}

func start(rt *rapid.T, c *vlib.C, users int) *run {
	w := dexworld.New(users, 3)
	var strange types.Address
	for i := range strange {
		strange[i] = byte(200 + i)
	}
	strange[20] = 0
	r := &run{rt: rt, c: c, w: w, addrs: append(append([]types.Address{}, w.Users...), types.AddressDexFund, strange), labels: map[string]bool{},
		stakes: map[types.Hash]*stake{}, openers: map[tok]types.Address{}, grants: map[string]bool{}, donated: map[tok]*big.Int{}, mining: map[types.Address]*big.Int{}, miningAt: map[types.Address]series{},
		lockedAt: map[types.Address]series{}, autoLock: map[types.Address]bool{}, inviter: map[types.Address]types.Address{}, lastJob: map[uint8]uint64{},
		userFees: map[uint64]map[types.Address]map[int32]*big.Int{}, mineMin: map[int32]*big.Int{}}
	w.Begin()
	r.now = w.Time
	q2 := memchain.Token(0)
	q2type := uint8(rapid.IntRange(2, 4).Draw(rt, "quoteType"))
	w.SetQuote(q2, q2type)
	for q := uint8(1); q <= 4; q++ {
		w.SetTradeThreshold(q, one)
		r.mineMin[int32(q)] = new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rapid.SampledFrom([]int{0, 3, 9, 15, 18, 20}).Draw(rt, "mineMin"))), nil)
		w.Must(w.Call(w.Users[0], "TradeAdminConfig", uint8(8), vite, vite, false, vite, uint8(0), uint8(0), one, q, r.mineMin[int32(q)]), "mine threshold")
	}
	for _, u := range w.Users {
		w.Deposit(u, vite, coin(int64(rapid.SampledFrom([]int{15000, 200000, 2500000}).Draw(rt, "vite"))))
		if v := rapid.SampledFrom([]int{5, 200, 100000, 0}).Draw(rt, "vx"); v > 0 {
			w.Deposit(u, vx, coin(int64(v)))
		}
	}
	w.Deposit(w.Users[0], vite, coin(100000))
	for _, p := range [][2]tok{{memchain.Token(1), vite}, {memchain.Token(1), q2}, {vx, vite}} {
		r.markets = append(r.markets, w.Open(p[0], p[1]))
		r.userFee(w.Users[0], 1, 18, coin(1000))
		r.label("market-opened")
	}
	for _, m := range r.markets {
		if rapid.Bool().Draw(rt, "rates") {
			w.Must(w.Call(w.Users[0], "MarketAdminConfig", uint8(2|4), m.Trade, m.Quote, w.Users[0], int32(rapid.IntRange(0, 200).Draw(rt, "taker")), int32(rapid.IntRange(0, 200).Draw(rt, "maker")), false), "rates")
		}
		if rapid.Bool().Draw(rt, "mined") {
			w.Must(w.Call(w.Users[0], "TradeAdminConfig", uint8(1), m.Trade, m.Quote, true, m.Trade, uint8(0), uint8(0), one, uint8(0), one), "mining")
		}
	}
	for _, u := range w.Users {
		for _, t := range []tok{memchain.Token(0), memchain.Token(1)} {
			w.Deposit(u, t, new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(rapid.SampledFrom([]int{15, 12, 10, 5, 2}).Draw(rt, "tokens"))), nil))
		}
	}
	for _, u := range w.Users {
		if v := rapid.SampledFrom([]int{0, 10, 11, 4000}).Draw(rt, "lockVx"); v > 0 && full(w.Funds(u)[vx]).Available.Cmp(coin(int64(v))) >= 0 {
			w.Must(w.Call(u, "LockVxForDividend", uint8(1), coin(int64(v))), "lock VX")
			r.lockedAt[u] = series{w.Period(): coin(int64(v))}
		}
	}
	if v := rapid.SampledFrom([]int{0, 120, 1050, 1100, 5060, 7000, 50000, 400000}).Draw(rt, "endorsed"); v > 0 {
		w.Must(w.Pay(w.Users[1], vx, coin(int64(v)), "EndorseVx"), "endorse")
	}
	s := r.snap()
	r.conserved(s, "after set-up")
	return r
}

func TestFunds(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 300, Thorough: 8000, Rule: "at least 15 receives moved funds, at least one was refused or several contracts were under way at once, and a trade or a daily job took place"}, func(rt *rapid.T, c *vlib.C) {
		r := start(rt, c, rapid.IntRange(2, 5).Draw(rt, "users"))
		overlap := 0
		if rapid.Bool().Draw(rt, "begun") {
			r.trade(r.w.Users[0], r.w.Users[1], big.NewInt(int64(rapid.IntRange(1000, 10000000).Draw(rt, "firstTrade"))))
		}
		r.late = rapid.IntRange(0, 4).Draw(rt, "late") == 0
		for n := rapid.IntRange(20, 70).Draw(rt, "ops"); n > 0; n-- {
			if rapid.IntRange(0, 30).Draw(rt, "days") == 9 {
				r.days(rapid.SampledFrom([]int{1, 1, 2, 8, 9}).Draw(rt, "howMany"))
			} else {
				r.op()
			}
			switch rapid.IntRange(0, 4).Draw(rt, "receive") {
			case 0: // leave it
			case 1, 2:
				for k := rapid.IntRange(1, 6).Draw(rt, "steps"); k > 0; k-- {
					p := r.w.Pending()
					if len(p) == 0 {
						break
					}
					if len(p) > 1 {
						overlap++
					}
					r.step(rapid.SampledFrom(p).Draw(rt, "contract"))
				}
			default:
				r.drain()
			}
			if !r.normalMine && r.lastJob[3] > 0 && r.lastJob[3] == r.lastJob[4] && r.lastJob[4] == r.lastJob[5] && len(r.w.Pending()) == 0 && rapid.IntRange(0, 3).Draw(rt, "normal") == 0 {
				if r.sent(r.w.Call(r.w.Users[0], "TradeAdminConfig", uint8(16), vite, vite, false, vite, uint8(0), uint8(0), one, uint8(0), one), "normal mining") != nil {
					r.drain()
					r.normalMine = true
					r.label("normal-mining")
				}
			}
		}
		r.drain()
		if r.late { // and then run once, on a day when much is due
			r.days(9)
			r.late = false
			r.jobs()
			r.drain()
		}
		if n := rapid.SampledFrom([]int{2, 9, 0}).Draw(rt, "after"); n > 0 {
			r.days(n)
		}
		for l := range r.labels {
			c.Label(l)
		}
		if overlap > 0 {
			c.Label("overlap")
		}
		if r.moved >= 15 && (r.refused > 0 || overlap > 0) && (r.labels["traded"] || r.lastJob[1]+r.lastJob[3]+r.lastJob[6] > 0) {
			c.NonTrivial(fmt.Sprint(r.trace))
			c.Sample("%d users, %d receives, %d refused: %v", len(r.w.Users), r.moved, r.refused, r.trace[len(r.trace)/2:min(len(r.trace), len(r.trace)/2+6)])
		}
	})
}

// trade lets b pay q units of the second market's quote token to s.
func (r *run) trade(s, b types.Address, q *big.Int) {
	w, m := r.w, r.markets[1]
	r.sent(w.Pay(b, m.Quote, sum(q, q), "Deposit"), "%s deposits", r.name(b))
	q = part(q, int64(math.Pow10(m.TD-m.QD)), 1)
	r.sent(w.Pay(s, m.Trade, q, "Deposit"), "%s deposits", r.name(s))
	r.sent(w.Call(s, "PlaceOrder", m.Trade, m.Quote, true, uint8(0), "1", q), "%s sells %v", r.name(s), q)
	r.sent(w.Call(b, "PlaceOrder", m.Trade, m.Quote, false, uint8(0), "1", q), "%s buys %v", r.name(b), q)
}

// TestSmallPots: many holders and stakers share a pot of a few units, where
// rounding is all there is.
func TestSmallPots(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 60, Thorough: 2000, Rule: "a dividend was paid, of at most 60 units, to at least 3 holders"}, func(rt *rapid.T, c *vlib.C) {
		r := start(rt, c, 8-rapid.IntRange(0, 5).Draw(rt, "users"))
		w := r.w
		equal := rapid.Bool().Draw(rt, "equal")
		for _, u := range w.Users {
			r.sent(w.Pay(u, vx, coin(100), "Deposit"), "%s deposits VX", r.name(u))
			v := coin(int64(rapid.SampledFrom([]int{10, 10, 10, 11, 20, 33}).Draw(rt, "lock")))
			if equal {
				v = sub(coin(40), full(w.Funds(u)[vx]).VxLocked)
			}
			r.sent(w.Call(u, "LockVxForDividend", uint8(1), v), "%s locks %v VX", r.name(u), v)
			if rapid.Bool().Draw(rt, "staker") {
				r.sent(w.Call(u, "StakeForMining", uint8(1), sum(minMining, big.NewInt(int64(rapid.IntRange(0, 3).Draw(rt, "more"))))), "%s stakes", r.name(u))
			}
		}
		r.drain()
		for d := rapid.IntRange(1, 3).Draw(rt, "rounds"); d > 0; d-- {
			for k := rapid.IntRange(1, 4).Draw(rt, "trades"); k > 0; k-- {
				s, b := w.Users[rapid.IntRange(0, len(w.Users)-1).Draw(rt, "seller")], w.Users[rapid.IntRange(0, len(w.Users)-1).Draw(rt, "buyer")]
				r.trade(s, b, big.NewInt(int64(rapid.IntRange(1, 400000).Draw(rt, "quantity"))))
			}
			r.days(1)
		}
		r.days(1)
		for l := range r.labels {
			c.Label(l)
		}
		if r.labels["dividend-shared"] && len(w.Users) > 2 && r.smallPot {
			c.NonTrivial(fmt.Sprint(r.trace))
			c.Sample("%d users: %v", len(w.Users), r.trace[:min(len(r.trace), 12)])
		}
	})
}

// TestForgedOrder: a withdrawal to the order book contract carries data the
// user chose, and the order book takes whatever the exchange sends it for an
// order whose funds are locked.
func TestForgedOrder(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 3, Thorough: 100, Rule: "the forged order reached the book with an order resting there to trade with"}, func(rt *rapid.T, c *vlib.C) {
		r := start(rt, c, 3)
		w, m := r.w, r.markets[0]
		victim, thief := w.Users[1], w.Users[2]
		q := big.NewInt(int64(rapid.IntRange(10000, 1000000).Draw(rt, "quantity")))
		r.sent(w.Call(victim, "PlaceOrder", m.Trade, m.Quote, false, uint8(0), "0.01", q), "victim buys %v", q)
		var real *core.AccountBlock
		w.OnReceive = func(from *core.AccountBlock, res memchain.Result) {
			if from.AccountAddress == thief && res.Block != nil {
				for _, s := range res.Block.SendBlockList {
					if s.ToAddress == types.AddressDexTrade {
						real = s
					}
				}
			}
		}
		r.sent(w.Pay(thief, m.Trade, big.NewInt(10), "Deposit"), "thief deposits 10")
		r.sent(w.Call(thief, "PlaceOrder", m.Trade, m.Quote, true, uint8(0), "0.01", big.NewInt(5)), "thief sells 5")
		r.drain()
		w.OnReceive = nil
		if real == nil || len(w.Book(m, false)) == 0 {
			rt.Skip("no order to copy or none resting")
		}
		d := new(dex.ParamSerializedData)
		o := &dex.Order{}
		if cabi.ABIDexTrade.UnpackMethod(d, "PlaceOrder", real.Data) != nil || o.DeSerialize(d.Data) != nil {
			rt.Skip("orders are sent on in another form")
		}
		o.Id[len(o.Id)-1]++
		o.Quantity = q.Bytes()
		data, err := o.Serialize()
		if err != nil {
			rt.Fatal(err)
		}
		label, err := cabi.ABIDexTrade.PackMethod("PlaceOrder", data)
		if err != nil {
			rt.Fatal(err)
		}
		have := r.snap()
		r.sent(w.Call(thief, "AssignedWithdraw", types.AddressDexTrade, m.Trade, one, label), "thief withdraws 1 to the order book, as an order selling %v", q)
		if p := vlib.Catch(func() { w.Drain() }); p != nil {
			rt.Fatalf("forged order: %v", p)
		}
		after := r.snap()
		c.NonTrivial(q, len(r.trace))
		c.Sample("forged order of %v: thief's VITE %v to %v, victim's tokens %v to %v", q, have.acct(thief, vite), after.acct(thief, vite), have.acct(victim, m.Trade), after.acct(victim, m.Trade))
		for _, t := range w.Tokens {
			held, _ := w.Ch.GetBalance(types.AddressDexFund, t)
			more := sub(after.owed(t), held)
			switch {
			case more.Sign() <= 0:
			case t == m.Trade && after.acct(thief, vite).Available.Cmp(have.acct(thief, vite).Available) > 0:
				vlib.KnownFinding("assigned-withdraw-forges-order")
				c.Label("forged")
			default:
				rt.Fatalf("after a forged order the exchange holds %v of %s and owes %v", held, r.tname(t), after.owed(t))
			}
		}
	})
}
