// Package c14: what the exchange owes its users, over generated histories of
// every kind of fund operation with contract receives interleaved at random.
package c14

import (
	"fmt"
	"math/big"

	"google.golang.org/protobuf/proto"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	dexproto "github.com/vitelabs/go-vite/v2/vm/contracts/dex/proto"
	"verif/dexworld"
	"verif/memchain"
)

type tok = types.TokenTypeId

// state is everything the exchange owes, and to whom.
type state struct {
	funds map[types.Address]map[tok]dexworld.Acct
	fee   map[tok]*big.Int    // collected fees not given out
	op    map[tok]*big.Int    // owed to market owners
	pool  *big.Int            // VX waiting to be mined
	maker map[uint64]*big.Int // VX for market makers by day
}

func n0(x *big.Int) *big.Int {
	if x == nil {
		return new(big.Int)
	}
	return x
}

func sum(l ...*big.Int) *big.Int {
	s := new(big.Int)
	for _, x := range l {
		s.Add(s, n0(x))
	}
	return s
}

func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(n0(a), n0(b)) }

func bb(x []byte) *big.Int { return new(big.Int).SetBytes(x) }

func full(a dexworld.Acct) dexworld.Acct {
	return dexworld.Acct{Available: sum(a.Available), Locked: sum(a.Locked), VxLocked: sum(a.VxLocked), VxUnlocking: sum(a.VxUnlocking), CancellingStake: sum(a.CancellingStake)}
}

func (r *run) snap() *state {
	w := r.w
	s := &state{funds: map[types.Address]map[tok]dexworld.Acct{}, fee: w.FeePool(), op: w.OperatorFees(w.Users), maker: map[uint64]*big.Int{}}
	for _, a := range r.addrs {
		s.funds[a] = w.Funds(a)
	}
	db := w.Ch.Db(types.AddressDexFund)
	s.pool = new(big.Int).Set(dex.GetVxMinePool(db))
	for p, cur := uint64(0), w.Period(); p <= cur; p++ {
		if v := dex.GetMakerMiningPoolByPeriodId(db, p); v != nil && v.Sign() > 0 {
			s.maker[p] = v
		}
	}
	return s
}

func (s *state) clone() *state {
	c := &state{funds: map[types.Address]map[tok]dexworld.Acct{}, fee: map[tok]*big.Int{}, op: map[tok]*big.Int{}, pool: sum(s.pool), maker: map[uint64]*big.Int{}}
	for a, m := range s.funds {
		c.funds[a] = map[tok]dexworld.Acct{}
		for t, x := range m {
			c.funds[a][t] = full(x)
		}
	}
	for t, v := range s.fee {
		c.fee[t] = sum(v)
	}
	for t, v := range s.op {
		c.op[t] = sum(v)
	}
	for p, v := range s.maker {
		c.maker[p] = sum(v)
	}
	return c
}

func (s *state) acct(a types.Address, t tok) dexworld.Acct { return full(s.funds[a][t]) }

func (s *state) set(a types.Address, t tok, x dexworld.Acct) {
	if s.funds[a] == nil {
		s.funds[a] = map[tok]dexworld.Acct{}
	}
	s.funds[a][t] = x
}

// avail adds v (may be negative) to what a has available.
func (s *state) avail(a types.Address, t tok, v *big.Int) {
	x := s.acct(a, t)
	x.Available.Add(x.Available, v)
	s.set(a, t, x)
}

func inc(m map[tok]*big.Int, t tok, v *big.Int) { m[t] = sum(m[t], v) }

// owed of a token in all.
func (s *state) owed(t tok) *big.Int {
	v := sum(s.fee[t], s.op[t])
	for _, m := range s.funds {
		if x, ok := m[t]; ok {
			v.Add(v, x.Total())
		}
	}
	if t == dex.VxTokenId {
		v.Add(v, s.pool)
		for _, m := range s.maker {
			v.Add(v, m)
		}
	}
	return v
}

func (r *run) diff(got, want *state) string {
	for _, a := range r.addrs {
		for _, t := range r.w.Tokens {
			if g, x := got.acct(a, t), want.acct(a, t); g.String() != x.String() {
				return fmt.Sprintf("%s of %s: %v, want %v", r.name(a), r.tname(t), g, x)
			}
		}
	}
	for _, t := range r.w.Tokens {
		if n0(got.fee[t]).Cmp(n0(want.fee[t])) != 0 {
			return fmt.Sprintf("collected fees of %s: %v, want %v", r.tname(t), got.fee[t], want.fee[t])
		}
		if n0(got.op[t]).Cmp(n0(want.op[t])) != 0 {
			return fmt.Sprintf("fees of market owners of %s: %v, want %v", r.tname(t), got.op[t], want.op[t])
		}
	}
	if got.pool.Cmp(want.pool) != 0 {
		return fmt.Sprintf("VX to mine: %v, want %v", got.pool, want.pool)
	}
	for p := uint64(0); p <= r.w.Period(); p++ {
		if n0(got.maker[p]).Cmp(n0(want.maker[p])) != 0 {
			return fmt.Sprintf("VX for makers of day %d: %v, want %v", p, got.maker[p], want.maker[p])
		}
	}
	return ""
}

// stake made by the exchange for a user.
type stake struct {
	id               types.Hash
	kind             string // mining, vip, svip, psvip
	payer, principal types.Address
	amount           *big.Int
	confirmed        bool
	order            int
}

type pending struct {
	user   types.Address
	period uint64
	amount *big.Int
}

// series is a value by day.
type series map[uint64]*big.Int

func (s series) at(p uint64) *big.Int {
	for k := int64(p); k >= 0; k-- {
		if v, ok := s[uint64(k)]; ok {
			return v
		}
	}
	return new(big.Int)
}

var selectors = map[string]string{}

func init() {
	for name, m := range cabi.ABIDexFund.Methods {
		selectors[string(m.Id())] = name
	}
}

func method(b *core.AccountBlock) string {
	if len(b.Data) < 4 {
		return ""
	}
	return selectors[string(b.Data[:4])]
}

func (r *run) unpack(v interface{}, m string, b *core.AccountBlock) {
	if err := cabi.ABIDexFund.UnpackMethod(v, m, b.Data); err != nil {
		r.fail("%s: own call does not unpack: %v", m, err)
	}
}

var (
	vx           = dex.VxTokenId
	vite         = memchain.Vite
	coin         = memchain.Attov
	minDividend  = coin(10)
	minMining    = coin(134)
	dust         = coin(100)
	vipAmount    = coin(10000)
	svipAmount   = coin(1000000)
	marketFee    = coin(10000)
	inviterFee   = coin(100)
	unlockPeriod = uint64(7)
)

func selfSend(sends []*core.AccountBlock, to types.Address) (l []*core.AccountBlock) {
	for _, s := range sends {
		if s.ToAddress == to {
			l = append(l, s)
		}
	}
	return
}

// expect is the state after the exchange received a call, from the state
// before, the call, and, where the exchange decides something else than
// funds (fees of an order, trades), what it sent out.
func (r *run) expect(before, after *state, from *core.AccountBlock, res memchain.Result) (*state, bool) {
	e := before.clone()
	m := method(from)
	failed := memchain.Failed(res.Block)
	who := from.AccountAddress
	sends := res.Block.SendBlockList
	if failed {
		return e, r.mayFail(before, m, from)
	}
	for i, s := range sends {
		if s.Amount != nil && s.Amount.Sign() > 0 && r.payout(m) == false {
			r.fail("%s: send %d of %v of %s to %s out of nothing", m, i, s.Amount, r.tname(s.TokenId), s.ToAddress)
		}
	}
	donate := from.Amount != nil && from.Amount.Sign() > 0
	one := func(to types.Address, t tok, v *big.Int) *core.AccountBlock {
		if len(sends) != 1 || sends[0].ToAddress != to || sends[0].TokenId != t || sends[0].Amount.Cmp(v) != 0 {
			r.fail("%s by %s: sends %v, want one of %v of %s to %s", m, r.name(who), show(sends), v, r.tname(t), to)
		}
		return sends[0]
	}
	switch m {
	case "SettleMakerMinedVx", "TriggerPeriodJob", "NotifyTime", "TradeAdminConfig", "DexAdminConfig":
		if who != r.w.Users[0] {
			r.fail("%s accepted from %s", m, r.name(who))
		}
	}
	switch m {
	case "ConfigMarketAgents":
		p := new(dex.ParamConfigMarketAgents)
		r.unpack(p, m, from)
		for i, t := range p.TradeTokens {
			r.grants[fmt.Sprint(who, p.Agent, t, p.QuoteTokens[i])] = p.ActionType == 1
		}
	case "Deposit":
		e.avail(who, from.TokenId, from.Amount)
		donate = false
	case "AgentDeposit":
		var to types.Address
		r.unpack(&to, m, from)
		e.avail(to, from.TokenId, from.Amount)
		donate = false
	case "EndorseVx":
		e.pool.Add(e.pool, from.Amount)
		donate = false
	case "Withdraw":
		p := new(dex.ParamWithdraw)
		r.unpack(p, m, from)
		r.enough(before, who, p.Token, p.Amount, m)
		e.avail(who, p.Token, new(big.Int).Neg(p.Amount))
		one(who, p.Token, p.Amount)
	case "AssignedWithdraw":
		p := new(dex.ParamAssignedWithdraw)
		r.unpack(p, m, from)
		r.enough(before, who, p.Token, p.Amount, m)
		e.avail(who, p.Token, new(big.Int).Neg(p.Amount))
		if s := one(p.Target, p.Token, p.Amount); string(s.Data) != string(p.Label) {
			r.fail("%s: label lost", m)
		}
	case "Transfer":
		p := new(dex.ParamTransferConfig)
		r.unpack(p, m, from)
		r.enough(before, who, p.Token, p.Amount, m)
		e.avail(who, p.Token, new(big.Int).Neg(p.Amount))
		e.avail(p.Target, p.Token, p.Amount)
	case "PlaceOrder", "PlaceAgentOrder":
		l := selfSend(sends, types.AddressDexTrade)
		if len(l) != 1 || len(sends) != 1 {
			r.fail("%s: sends %v", m, show(sends))
		}
		owner := who
		var pp dex.ParamPlaceOrder
		if m == "PlaceAgentOrder" {
			p := new(dex.ParamPlaceAgentOrder)
			r.unpack(p, m, from)
			owner, pp = p.Principal, p.ParamPlaceOrder
			if !r.grants[fmt.Sprint(owner, who, pp.TradeToken, pp.QuoteToken)] {
				r.fail("%s orders for %s in %s/%s, which did not let it", r.name(who), r.name(owner), r.tname(pp.TradeToken), r.tname(pp.QuoteToken))
			}
			r.label("agent-order")
		} else {
			r.unpack(&pp, m, from)
		}
		d := new(dex.ParamSerializedData)
		o := &dex.Order{}
		if err := cabi.ABIDexTrade.UnpackMethod(d, "PlaceOrder", l[0].Data); err != nil {
			r.fail("order sent on: %v", err)
		}
		if err := o.DeSerialize(d.Data); err != nil {
			r.fail("order sent on: %v", err)
		}
		if string(o.Address) != string(owner[:]) {
			r.fail("%s by %s for %s sent on in the name of %x", m, r.name(who), r.name(owner), o.Address)
		}
		if o.Side != pp.Side || bb(o.Quantity).Cmp(pp.Quantity) != 0 && o.Type != dex.Market {
			r.fail("order sent on as side %v quantity %v, want %v %v", o.Side, bb(o.Quantity), pp.Side, pp.Quantity)
		}
		t, v := pp.QuoteToken, sum(bb(o.Amount), bb(o.LockedBuyFee))
		if o.Side {
			t, v = pp.TradeToken, bb(o.Quantity)
		}
		r.enough(before, owner, t, v, m)
		x := e.acct(owner, t)
		x.Available.Sub(x.Available, v)
		x.Locked.Add(x.Locked, v)
		e.set(owner, t, x)
	case "SettleOrders":
		if who != types.AddressDexTrade {
			r.fail("trades settled for %s", who)
		}
		d := new(dex.ParamSerializedData)
		r.unpack(d, m, from)
		a := &dexproto.SettleActions{}
		if err := proto.Unmarshal(d.Data, a); err != nil {
			r.fail("settle actions: %v", err)
		}
		trade, _ := types.BytesToTokenTypeId(a.TradeToken)
		quote, _ := types.BytesToTokenTypeId(a.QuoteToken)
		for _, f := range a.FundActions {
			u, err := types.BytesToAddress(f.Address)
			if err != nil {
				r.fail("settle actions: %v", err)
			}
			for _, s := range f.AccountSettles {
				t := quote
				if s.IsTradeToken {
					t = trade
				}
				x := e.acct(u, t)
				x.Locked.Sub(x.Locked, bb(s.ReduceLocked))
				x.Locked.Sub(x.Locked, bb(s.ReleaseLocked))
				if x.Locked.Sign() < 0 {
					r.fail("trades take %v and release %v of %s locked by %s, which has locked %v", bb(s.ReduceLocked), bb(s.ReleaseLocked), r.tname(t), r.name(u), before.acct(u, t).Locked)
				}
				x.Available.Add(x.Available, bb(s.ReleaseLocked))
				x.Available.Add(x.Available, bb(s.IncAvailable))
				e.set(u, t, x)
			}
		}
		for _, f := range a.FeeActions {
			inc(e.fee, quote, bb(f.BaseFee))
			inc(e.op, quote, bb(f.OperatorFee))
			if bb(f.BaseFee).Sign() > 0 {
				r.label("traded")
			}
			if bb(f.OperatorFee).Sign() > 0 {
				r.label("operator-fee")
			}
			if u, _ := types.BytesToAddress(f.Address); len(f.BaseFee) > 0 {
				if mi, ok := dex.GetMarketInfo(r.w.Ch.Db(types.AddressDexFund), trade, quote); ok && mi.AllowMining {
					r.userFee(u, mi.QuoteTokenType, r.w.Decimals(quote), bb(f.BaseFee))
				}
			}
		}
	case "StakeForMining", "StakeForVIP", "StakeForSVIP", "StakeForPrincipalSVIP":
		st := &stake{payer: who, principal: who, order: len(r.stakes)}
		switch m {
		case "StakeForMining":
			p := new(dex.ParamStakeForMining)
			r.unpack(p, m, from)
			st.kind, st.amount = "mining", p.Amount
		case "StakeForVIP":
			st.kind, st.amount = "vip", vipAmount
		case "StakeForSVIP":
			st.kind, st.amount = "svip", svipAmount
		default:
			r.unpack(&st.principal, m, from)
			st.kind, st.amount = "psvip", svipAmount
		}
		r.enough(before, who, vite, st.amount, m)
		e.avail(who, vite, new(big.Int).Neg(st.amount))
		st.id = one(types.AddressQuota, vite, st.amount).Hash
		r.stakes[st.id] = st
	case "CancelStakeById":
		var id types.Hash
		r.unpack(&id, m, from)
		if st := r.stakes[id]; st == nil || !st.confirmed || st.payer != who {
			r.fail("cancel of stake %s accepted from %s", id, r.name(who))
		}
	case "StakeForQuotaWithCallbackCallback":
		p := new(dex.ParamDelegateStakeCallbackV2)
		r.unpack(p, m, from)
		st := r.stakes[p.Id]
		if who != types.AddressQuota || st == nil || st.confirmed || !p.Success {
			r.fail("stake callback from %s for %s success %v", who, p.Id, p.Success)
		}
		st.confirmed = true
		if st.kind == "mining" {
			r.mine(st.payer, st.amount)
		}
	case "CancelQuotaStakingWithCallbackCallback":
		p := new(dex.ParamDelegateStakeCallbackV2)
		r.unpack(p, m, from)
		st := r.stakes[p.Id]
		if who != types.AddressQuota || st == nil || !st.confirmed {
			r.fail("cancel callback from %s for %s", who, p.Id)
		}
		if p.Success {
			if from.Amount.Cmp(st.amount) != 0 || from.TokenId != vite {
				r.fail("stake of %v came back as %v", st.amount, from.Amount)
			}
			donate = false
			delete(r.stakes, p.Id)
			if st.kind == "mining" {
				x := e.acct(st.payer, vite)
				x.CancellingStake.Add(x.CancellingStake, st.amount)
				e.set(st.payer, vite, x)
				r.cancels = append(r.cancels, pending{st.payer, r.w.Period(), st.amount})
				r.mine(st.payer, new(big.Int).Neg(st.amount))
			} else {
				e.avail(st.payer, vite, st.amount)
			}
			r.label("stake-returned-" + st.kind)
		} else {
			r.label("cancel-refused")
		}
	case "CreateNewInviter":
		r.enough(before, who, vite, inviterFee, m)
		e.avail(who, vite, new(big.Int).Neg(inviterFee))
		inc(e.fee, vite, inviterFee)
	case "OpenNewMarket", "GetTokenInfoCallback":
		// a market that opens costs its opener the fee; without the money it does not open
		owner := who
		if m == "GetTokenInfoCallback" {
			p := new(dex.ParamGetTokenInfoCallback)
			r.unpack(p, m, from)
			owner = r.openers[p.TokenId]
		} else {
			p := new(dex.ParamOpenNewMarket)
			r.unpack(p, m, from)
			r.openers[p.TradeToken] = who
		}
		for range selfSend(sends, types.AddressDexTrade) {
			r.enough(e, owner, vite, marketFee, m)
			e.avail(owner, vite, new(big.Int).Neg(marketFee))
			inc(e.fee, vite, marketFee)
			r.userFee(owner, 1, 18, coin(1000))
			r.label("market-opened")
		}
	case "LockVxForDividend":
		p := new(dex.ParamLockVxForDividend)
		r.unpack(p, m, from)
		x := e.acct(who, vx)
		if p.ActionType == 1 {
			r.enough(before, who, vx, p.Amount, m)
			x.Available.Sub(x.Available, p.Amount)
			x.VxLocked.Add(x.VxLocked, p.Amount)
		} else {
			x.VxLocked.Sub(x.VxLocked, p.Amount)
			x.VxUnlocking.Add(x.VxUnlocking, p.Amount)
			if x.VxLocked.Sign() < 0 || x.VxLocked.Sign() > 0 && x.VxLocked.Cmp(minDividend) < 0 {
				r.fail("unlock of %v accepted with %v locked", p.Amount, before.acct(who, vx).VxLocked)
			}
			r.unlocks = append(r.unlocks, pending{who, r.w.Period(), p.Amount})
		}
		e.set(who, vx, x)
	case "SettleMakerMinedVx":
		d := new(dex.ParamSerializedData)
		r.unpack(d, m, from)
		a := &dexproto.VxSettleActions{}
		if err := proto.Unmarshal(d.Data, a); err != nil {
			r.fail("%v", err)
		}
		for _, x := range a.Actions {
			u, _ := types.BytesToAddress(x.Address)
			v := bb(x.Amount)
			if left := n0(e.maker[a.Period]); v.Cmp(left) > 0 {
				v = left
			}
			r.mined(e, u, v)
			e.maker[a.Period] = sub(e.maker[a.Period], v)
		}
	case "TriggerPeriodJob":
		p := new(dex.ParamTriggerPeriodJob)
		r.unpack(p, m, from)
		if p.PeriodId >= r.w.Period() {
			r.fail("job %d of day %d accepted on day %d", p.BizType, p.PeriodId, r.w.Period())
		}
		if last := r.lastJob[p.BizType]; last > 0 && p.PeriodId != last+1 {
			r.fail("job %d of day %d accepted after day %d", p.BizType, p.PeriodId, last)
		}
		r.lastJob[p.BizType] = p.PeriodId
		r.job(before, after, e, int(p.BizType), p.PeriodId, sends)
	}
	if donate {
		inc(r.donated, from.TokenId, from.Amount)
	}
	return e, true
}

func show(l []*core.AccountBlock) (s []string) {
	for _, b := range l {
		s = append(s, fmt.Sprintf("%v of %s to %s", b.Amount, b.TokenId, b.ToAddress))
	}
	return
}

// payout: methods that send tokens out of the exchange.
func (r *run) payout(m string) bool {
	switch m {
	case "Withdraw", "AssignedWithdraw", "StakeForMining", "StakeForVIP", "StakeForSVIP", "StakeForPrincipalSVIP", "TriggerPeriodJob":
		return true
	}
	return false
}

func (r *run) enough(s *state, a types.Address, t tok, v *big.Int, what string) {
	if have := s.acct(a, t).Available; have.Cmp(v) < 0 {
		r.fail("%s of %v of %s by %s accepted with %v available", what, v, r.tname(t), r.name(a), have)
	}
}

// mayFail: calls that have to succeed may not be refused.
func (r *run) mayFail(s *state, m string, from *core.AccountBlock) bool {
	who := from.AccountAddress
	has := func(t tok, v *big.Int) bool { return s.acct(who, t).Available.Cmp(v) >= 0 }
	switch m {
	case "Deposit", "AgentDeposit", "EndorseVx", "SettleOrders", "StakeForQuotaWithCallbackCallback", "SwitchConfig":
		return false
	case "CancelQuotaStakingWithCallbackCallback":
		// the answer to a second cancel of a stake that is already back
		p := new(dex.ParamDelegateStakeCallbackV2)
		r.unpack(p, m, from)
		return r.stakes[p.Id] == nil && !p.Success && from.Amount.Sign() == 0
	case "Withdraw":
		p := new(dex.ParamWithdraw)
		r.unpack(p, m, from)
		return !has(p.Token, p.Amount)
	case "AssignedWithdraw":
		p := new(dex.ParamAssignedWithdraw)
		r.unpack(p, m, from)
		return !has(p.Token, p.Amount)
	case "Transfer":
		p := new(dex.ParamTransferConfig)
		r.unpack(p, m, from)
		return !has(p.Token, p.Amount)
	case "StakeForMining":
		p := new(dex.ParamStakeForMining)
		r.unpack(p, m, from)
		return !has(vite, p.Amount) || p.ActionType != 1
	case "LockVxForDividend":
		p := new(dex.ParamLockVxForDividend)
		r.unpack(p, m, from)
		if p.ActionType == 1 {
			return !has(vx, p.Amount)
		}
		left := sub(s.acct(who, vx).VxLocked, p.Amount)
		return left.Sign() < 0 || left.Sign() > 0 && left.Cmp(minDividend) < 0
	case "CancelStakeById":
		var id types.Hash
		r.unpack(&id, m, from)
		st := r.stakes[id]
		return st == nil || !st.confirmed || st.payer != who
	case "TriggerPeriodJob":
		p := new(dex.ParamTriggerPeriodJob)
		r.unpack(p, m, from)
		mining := p.BizType >= 3 && p.BizType <= 5
		return who != r.w.Users[0] || p.PeriodId >= r.w.Period() || r.lastJob[p.BizType] > 0 && p.PeriodId != r.lastJob[p.BizType]+1 || mining && s.pool.Sign() == 0
	}
	return true
}

// mine changes what a user has staked for mining.
func (r *run) mine(u types.Address, v *big.Int) {
	r.mining[u] = sum(r.mining[u], v)
	if r.miningAt[u] == nil {
		r.miningAt[u] = series{}
	}
	r.miningAt[u][r.w.Period()] = sum(r.mining[u])
}

// mined pays mined VX.
func (r *run) mined(e *state, u types.Address, v *big.Int) {
	x := e.acct(u, vx)
	if r.autoLock[u] {
		x.VxLocked.Add(x.VxLocked, v)
		if v.Sign() > 0 {
			r.label("auto-locked")
		}
	} else {
		x.Available.Add(x.Available, v)
	}
	e.set(u, vx, x)
}

// gains compares what users got of pot with their weights: in proportion up
// to rounding, all of it, and nothing for anyone else. It moves e to what was
// seen, once that is found right.
func (r *run) gains(what string, e, after *state, t tok, pot *big.Int, weight map[types.Address]*big.Int, pay func(e *state, u types.Address, v *big.Int)) {
	total := new(big.Int)
	for _, v := range weight {
		total.Add(total, v)
	}
	got := new(big.Int)
	for _, a := range r.addrs {
		g := sub(after.acct(a, t).Total(), e.acct(a, t).Total())
		if g.Sign() < 0 {
			r.fail("%s: %s loses %v", what, r.name(a), g)
		}
		got.Add(got, g)
		wt := n0(weight[a])
		if wt.Sign() == 0 {
			if g.Sign() != 0 {
				r.fail("%s: %s has no share and gets %v of %s", what, r.name(a), g, r.tname(t))
			}
			continue
		}
		// |g - pot*wt/total| <= n
		d := sub(new(big.Int).Mul(g, total), new(big.Int).Mul(pot, wt))
		if lim := new(big.Int).Mul(total, big.NewInt(int64(len(weight)+1))); new(big.Int).Abs(d).Cmp(lim) > 0 {
			r.fail("%s: %s with %v of %v gets %v of %v of %s", what, r.name(a), wt, total, g, pot, r.tname(t))
		}
		pay(e, a, g)
	}
	if got.Cmp(pot) != 0 {
		r.fail("%s: %v of %v of %s given out", what, got, pot, r.tname(t))
	}
}

// daily VX to mine on a day.
func (r *run) daily(p uint64) *big.Int {
	base := coin(10000)
	if !r.normalMine {
		return base
	}
	if r.firstMined == 0 {
		r.firstMined = p
	}
	v := base
	f, _ := new(big.Float).SetString("1.0180435")
	for i := uint64(1); i <= p-r.firstMined; i++ { // never more than 90 days here
		v, _ = new(big.Float).Mul(new(big.Float).SetInt(v), f).Int(nil)
	}
	return v
}

func part(v *big.Int, num, den int64) *big.Int {
	x := new(big.Int).Mul(v, big.NewInt(num))
	return x.Div(x, big.NewInt(den))
}

// near: equal up to a little (the exchange multiplies as floats).
func near(a, b *big.Int) bool { return new(big.Int).Abs(sub(a, b)).Cmp(big.NewInt(1000)) <= 0 }

func (r *run) job(before, after, e *state, biz int, p uint64, sends []*core.AccountBlock) {
	what := fmt.Sprintf("job %d of day %d", biz, p)
	if biz != 1 && len(sends) != 0 {
		r.fail("%s: sends %v", what, show(sends))
	}
	switch biz {
	case 1:
		holders := map[types.Address]*big.Int{}
		for _, a := range r.addrs {
			if v := r.lockedAt[a].at(p); v.Cmp(minDividend) >= 0 {
				holders[a] = v
			}
		}
		if len(holders) == 0 {
			if len(sends) != 0 {
				r.fail("%s: sends %v, nobody holds VX", what, show(sends))
			}
			r.label("dividend-nobody")
			return
		}
		pots := r.jobPots
		burnt := new(big.Int)
		for _, s := range sends {
			if s.ToAddress != types.AddressAsset || s.TokenId != vite {
				r.fail("%s: sends %v", what, show(sends))
			}
			burnt.Add(burnt, s.Amount)
		}
		if burnt.Cmp(n0(pots[vite])) != 0 {
			r.fail("%s: burns %v VITE, collected %v", what, burnt, pots[vite])
		}
		for _, t := range r.w.Tokens {
			if v := n0(pots[t]); v.Sign() > 0 {
				e.fee[t] = sub(e.fee[t], v)
				if t == vite {
					r.label("dividend-burnt")
					continue
				}
				r.gains(what, e, after, t, v, holders, func(e *state, u types.Address, v *big.Int) { e.avail(u, t, v) })
				r.label("dividend-paid")
				if len(holders) > 1 {
					r.label("dividend-shared")
					if v.Cmp(big.NewInt(60)) <= 0 && len(holders) > 2 {
						r.smallPot = true
					}
				}
			}
		}
	case 2:
		for u, m := range r.jobOps {
			for t, v := range m {
				e.avail(u, t, v)
				e.op[t] = sub(e.op[t], v)
				if v.Sign() > 0 {
					r.label("operator-paid")
				}
			}
		}
	case 3:
		amount := part(r.daily(p), 1, 2)
		notEnough := amount.Cmp(before.pool) >= 0
		if notEnough {
			amount = sum(before.pool)
		}
		each := part(amount, 1, 4)
		per := map[int32]*big.Int{1: sum(each), 2: sum(each), 3: sum(each), 4: sum(each)}
		if left := sub(before.pool, part(each, 4, 1)); notEnough || left.Cmp(dust) <= 0 {
			per[1].Add(per[1], left)
		}
		paid := new(big.Int)
		weights := map[int32]map[types.Address]*big.Int{}
		want := map[types.Address]*big.Int{}
		for q := int32(1); q <= 4; q++ {
			weights[q] = map[types.Address]*big.Int{}
			total := new(big.Int)
			for u, m := range r.userFees[p] {
				if v := m[q]; v != nil && v.Sign() > 0 && v.Cmp(r.mineMin[q]) >= 0 {
					weights[q][u] = v
					total.Add(total, v)
				}
			}
			if total.Sign() == 0 {
				continue
			}
			paid.Add(paid, per[q])
			for u, v := range weights[q] {
				want[u] = sum(want[u], new(big.Int).Div(new(big.Int).Mul(per[q], v), total))
			}
		}
		got := new(big.Int)
		for _, a := range r.addrs {
			g := sub(after.acct(a, vx).Total(), e.acct(a, vx).Total())
			got.Add(got, g)
			if !near(g, n0(want[a])) || want[a] == nil && g.Sign() != 0 {
				r.fail("%s: %s gets %v VX, want %v", what, r.name(a), g, n0(want[a]))
			}
			r.mined(e, a, g)
		}
		if !near(got, paid) {
			r.fail("%s: %v VX given out, want %v", what, got, paid)
		}
		e.pool.Sub(e.pool, got)
		if got.Sign() > 0 {
			r.label("fee-mined")
			if len(want) > 1 {
				r.label("fee-mined-shared")
			}
		}
	case 4:
		amount := part(r.daily(p), 1, 10)
		if amount.Cmp(before.pool) > 0 {
			amount = sum(before.pool)
		}
		if left := sub(before.pool, amount); left.Cmp(dust) <= 0 {
			amount.Add(amount, left)
		}
		stakers := map[types.Address]*big.Int{}
		for u, s := range r.miningAt {
			if v := s.at(p); v.Cmp(minMining) >= 0 {
				stakers[u] = v
			}
		}
		if len(stakers) == 0 {
			return
		}
		paid := sub(before.pool, after.pool)
		if !near(paid, amount) {
			r.fail("%s: %v VX mined, want %v", what, paid, amount)
		}
		r.gains(what, e, after, vx, paid, stakers, r.mined)
		e.pool.Sub(e.pool, paid)
		r.label("stake-mined")
		if len(stakers) > 1 {
			r.label("stake-mined-shared")
		}
	case 5:
		amount := part(r.daily(p), 2, 5)
		notEnough := amount.Cmp(before.pool) >= 0
		if notEnough {
			amount = sum(before.pool)
		}
		unit := part(amount, 1, 8)
		mk, mt := part(unit, 3, 1), part(unit, 5, 1)
		if left := sub(before.pool, sum(mk, mt)); notEnough || left.Cmp(dust) <= 0 {
			mk.Add(mk, left)
		}
		// the split as the exchange rounds it, all of it accounted for
		gm := sub(after.maker[p], before.maker[p])
		gt := sub(after.acct(r.w.Users[0], vx).Total(), before.acct(r.w.Users[0], vx).Total())
		if !near(gm, mk) || !near(gt, mt) {
			r.fail("%s: %v VX for makers and %v for the maintainer, want %v and %v", what, gm, gt, mk, mt)
		}
		e.maker[p] = sum(e.maker[p], gm)
		r.mined(e, r.w.Users[0], gt)
		e.pool.Sub(e.pool, sum(gm, gt))
		r.label("maker-mined")
	case 6, 7:
		l := &r.unlocks
		if biz == 7 {
			l = &r.cancels
		}
		var rest []pending
		for _, x := range *l {
			if x.period+unlockPeriod > p {
				rest = append(rest, x)
				continue
			}
			if biz == 6 {
				a := e.acct(x.user, vx)
				a.VxUnlocking.Sub(a.VxUnlocking, x.amount)
				a.Available.Add(a.Available, x.amount)
				e.set(x.user, vx, a)
				r.label("vx-unlocked")
			} else {
				a := e.acct(x.user, vite)
				a.CancellingStake.Sub(a.CancellingStake, x.amount)
				a.Available.Add(a.Available, x.amount)
				e.set(x.user, vite, a)
				r.label("stake-released")
			}
		}
		*l = rest
	}
}

// userFee counts a fee for mining.
func (r *run) userFee(u types.Address, qtype int32, decimals int, fee *big.Int) {
	p := r.w.Period()
	add := func(a types.Address, v *big.Int) {
		if v.Sign() == 0 {
			return
		}
		if r.userFees[p] == nil {
			r.userFees[p] = map[types.Address]map[int32]*big.Int{}
		}
		if r.userFees[p][a] == nil {
			r.userFees[p][a] = map[int32]*big.Int{}
		}
		r.userFees[p][a][qtype] = sum(r.userFees[p][a][qtype], dexworld.Adjust(v, decimals-dexworld.QuoteDecimals[qtype]))
	}
	add(u, fee)
	if by, ok := r.inviter[u]; ok {
		add(u, dexworld.Rate(fee, 2500))
		add(by, dexworld.Rate(fee, 5000))
		r.label("invite-bonus")
	}
}

// beforeJob reads what a job of day p will give out.
func (r *run) beforeJob(p uint64) {
	db := r.w.Ch.Db(types.AddressDexFund)
	r.jobPots = map[tok]*big.Int{}
	for d := uint64(0); d <= p; d++ {
		f, ok := dex.GetDexFeesByPeriodId(db, d)
		if !ok || f.FinishDividend {
			continue
		}
		for _, x := range f.FeesForDividend {
			t, _ := types.BytesToTokenTypeId(x.Token)
			v := bb(x.DividendPoolAmount)
			if !x.NotRoll {
				v = dexworld.Rate(v, 1000)
			}
			inc(r.jobPots, t, v)
		}
	}
	r.jobOps = map[types.Address]map[tok]*big.Int{}
	for _, o := range r.w.Users {
		f, ok := dex.GetOperatorFeesByPeriodId(db, o.Bytes(), p)
		if !ok {
			continue
		}
		r.jobOps[o] = map[tok]*big.Int{}
		for _, x := range f.OperatorFees {
			t, _ := types.BytesToTokenTypeId(x.Token)
			for _, m := range x.MarketFees {
				inc(r.jobOps[o], t, bb(m.Amount))
			}
		}
	}
}
