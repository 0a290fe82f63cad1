// Package c13: the exchange's order matching, run end to end on the real
// contracts and compared with a reference model after every call.
package c13

import (
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	"verif/dexworld"
	"verif/memchain"
	"verif/vlib"
)

type run struct {
	rt     *rapid.T
	w      *dexworld.World
	md     *model
	mks    []*mk
	trace  []string
	orders []*order // all that ever rested
	grants map[string]bool
	ids    map[int][]byte

	newOrders []*dex.NewOrderEvent
	updates   []*dex.OrderUpdateEvent
	trades    []*dex.TransactionEvent
	nTrades   int
	nPartial  int
	nDust     int
	labels    map[string]bool
}

func (r *run) fail(format string, args ...interface{}) {
	s := ""
	for _, t := range r.trace {
		s += "\n  " + t
	}
	r.rt.Fatalf("%s\nhistory:%s", fmt.Sprintf(format, args...), s)
}

func (r *run) logf(format string, args ...interface{}) {
	r.trace = append(r.trace, fmt.Sprintf(format, args...))
}

func pow10(n int) *big.Int { return new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil) }

var basePrices = []string{"1", "3", "0.5", "0.333333333333", "12.5", "1000", "0.01", "2", "1.1", "25", "0.000001", "0.000000000007", "999999999990", "7.000000000003", "123456.789"}

// setup draws markets, fee situations and funds.
func setup(rt *rapid.T, users int) *run {
	w := dexworld.New(users, 5)
	r := &run{rt: rt, w: w, grants: map[string]bool{}, ids: map[int][]byte{}, labels: map[string]bool{}}
	w.OnReceive = func(from *core.AccountBlock, res memchain.Result) {
		if from.ToAddress == types.AddressDexTrade {
			a, b, c := w.Events(res.Block)
			r.newOrders = append(r.newOrders, a...)
			r.updates = append(r.updates, b...)
			r.trades = append(r.trades, c...)
		}
	}
	w.Begin()
	md := &model{w: w, funds: map[fkey]*pair{}, fees: map[types.TokenTypeId]*big.Int{}, ops: map[types.TokenTypeId]*big.Int{},
		minTrade: map[int32]*big.Int{}, maxMarket: map[int32]*big.Int{}, vip: map[types.Address]int32{}, invited: map[types.Address]bool{}}
	r.md = md
	// quote tokens: VITE (type 1) and one more
	q2 := memchain.Token(rapid.IntRange(0, 4).Draw(rt, "quote"))
	q2type := uint8(rapid.IntRange(2, 4).Draw(rt, "quoteType"))
	w.SetQuote(q2, q2type)
	for _, u := range w.Users {
		w.Deposit(u, memchain.Vite, memchain.Attov(2000000))
	}
	pairs := [][2]types.TokenTypeId{}
	t1 := memchain.Token(rapid.IntRange(0, 4).Draw(rt, "trade1"))
	if t1 == q2 {
		t1 = dex.VxTokenId
	}
	pairs = append(pairs, [2]types.TokenTypeId{t1, memchain.Vite}, [2]types.TokenTypeId{t1, q2})
	for _, p := range pairs {
		m := &mk{Market: w.Open(p[0], p[1])}
		r.mks = append(r.mks, m)
		if rapid.Bool().Draw(rt, "rates") {
			r.setRates(m, int32(rapid.IntRange(0, 200).Draw(rt, "taker")), int32(rapid.IntRange(0, 200).Draw(rt, "maker")))
		}
	}
	for _, typ := range []uint8{1, q2type} {
		lo := big.NewInt(rapid.SampledFrom([]int64{1, 2, 50, 10000}).Draw(rt, "minTrade"))
		w.SetTradeThreshold(typ, lo)
		md.minTrade[int32(typ)] = lo
		hi := new(big.Int).Mul(big.NewInt(rapid.SampledFrom([]int64{3, 500, 1000000}).Draw(rt, "maxMarket")), pow10(rapid.IntRange(0, 18).Draw(rt, "maxMarketExp")))
		if rapid.Bool().Draw(rt, "noLimit") {
			hi = pow10(40)
		}
		w.SetMarketOrderThreshold(int32(typ), hi)
		md.maxMarket[int32(typ)] = hi
	}
	// VIPs and invited users
	code := uint32(0)
	for i, u := range w.Users {
		switch rapid.IntRange(0, 5).Draw(rt, "vip") {
		case 0:
			w.Must(w.Call(u, "StakeForVIP", uint8(1)), "StakeForVIP")
			md.vip[u] = 100
		case 1:
			w.Must(w.Call(u, "StakeForSVIP", uint8(1)), "StakeForSVIP")
			md.vip[u] = 200
		}
		if i == 0 {
			if rapid.Bool().Draw(rt, "inviter") {
				w.Must(w.Call(u, "CreateNewInviter"), "CreateNewInviter")
				if code = dex.GetCodeByInviter(w.Ch.Db(types.AddressDexFund), u); code == 0 {
					r.fail("no invite code")
				}
			}
		} else if code != 0 && rapid.IntRange(0, 2).Draw(rt, "invited") == 0 {
			w.Must(w.Call(u, "BindInviteCode", code), "BindInviteCode")
			md.invited[u] = true
		}
	}
	for i, u := range w.Users {
		for _, t := range []types.TokenTypeId{t1, q2} {
			if i == len(w.Users)-1 && rapid.IntRange(0, 2).Draw(rt, "none") == 0 {
				continue
			}
			w.Deposit(u, t, pow10(rapid.SampledFrom([]int{17, 16, 15, 12, 9}).Draw(rt, "funds")))
		}
	}
	// the last two users keep little of the quote tokens, so that market orders run out of money
	for _, u := range w.Users[len(w.Users)-2:] {
		for _, t := range []types.TokenTypeId{memchain.Vite, q2} {
			a := w.Funds(u)[t]
			keep := pow10(rapid.IntRange(1, 16).Draw(rt, "keep"))
			if a.Available != nil && a.Available.Cmp(keep) > 0 && rapid.IntRange(0, 3).Draw(rt, "poor") > 0 {
				w.Must(w.Call(u, "Withdraw", t, sub(a.Available, keep)), "Withdraw")
			}
		}
	}
	// some agents
	for k := rapid.IntRange(0, 3).Draw(rt, "agents"); k > 0; k-- {
		p, a := rapid.SampledFrom(w.Users).Draw(rt, "principal"), rapid.SampledFrom(w.Users).Draw(rt, "agentIs")
		if p != a {
			m := rapid.SampledFrom(r.mks).Draw(rt, "agentMarket")
			w.Must(w.Call(p, "ConfigMarketAgents", uint8(1), a, []types.TokenTypeId{m.Trade}, []types.TokenTypeId{m.Quote}), "agent")
			r.grants[grantKey(p, a, m)] = true
			r.logf("%s agents 1 %s market %d", p, a, m.Id)
		}
	}
	// what is there now is where the model starts
	for _, u := range w.Users {
		for t, a := range w.Funds(u) {
			md.funds[fkey{u, t}] = &pair{a.Available, a.Locked}
		}
	}
	md.fees, md.ops = w.FeePool(), w.OperatorFees(w.Users)
	r.newOrders, r.updates, r.trades = nil, nil, nil
	return r
}

func (r *run) setRates(m *mk, taker, maker int32) {
	r.w.Must(r.w.Call(r.w.Users[0], "MarketAdminConfig", uint8(2|4), m.Trade, m.Quote, r.w.Users[0], taker, maker, false), "MarketAdminConfig")
	m.takerOp, m.makerOp = taker, maker
	r.logf("operator rates of market %d: %d %d", m.Id, taker, maker)
}

func (r *run) compare(what string) {
	md, w := r.md, r.w
	for _, m := range r.mks {
		var best [2]string
		for k, sell := range []bool{false, true} {
			got, want := w.Book(m.Market, sell), m.side(sell)
			if len(got) != len(want) {
				r.fail("%s: market %d side %v has %d resting orders, want %d: %v", what, m.Id, sell, len(got), len(want), want)
			}
			for i, g := range got {
				o := want[i]
				b := func(x []byte) *big.Int { return new(big.Int).SetBytes(x) }
				gs := order{n: o.n, sell: g.Side, typ: int(g.Type), price: dex.BytesToPrice(g.Price), qty: b(g.Quantity), amount: b(g.Amount), lockedFee: b(g.LockedBuyFee),
					execQ: b(g.ExecutedQuantity), execA: b(g.ExecutedAmount), execB: b(g.ExecutedBaseFee), execO: b(g.ExecutedOperatorFee), status: int(g.Status)}
				copy(gs.addr[:], g.Address)
				if gs.String() != o.String() || g.MarketId != m.Id {
					r.fail("%s: market %d: resting order %d is\n %v\nwant\n %v", what, m.Id, i, gs, *o)
				}
				if string(g.SendHash) != string(o.hash[:]) {
					r.fail("%s: market %d: resting order %d is another order than #%d", what, m.Id, i, o.n)
				}
				if gs.execQ.Cmp(gs.qty) >= 0 || !gs.sell && (gs.execA.Cmp(gs.amount) > 0 || sum(gs.execB, gs.execO).Cmp(gs.lockedFee) > 0) {
					r.fail("%s: resting order overfilled: %v", what, gs)
				}
				r.ids[o.n] = append([]byte{}, g.Id...)
				if i == 0 {
					best[k] = gs.price
				}
			}
		}
		if best[0] != "" && best[1] != "" && cmpPrice(best[0], best[1]) >= 0 {
			r.fail("%s: market %d is crossed: bid %s ask %s", what, m.Id, best[0], best[1])
		}
	}
	for _, u := range w.Users {
		got := w.Funds(u)
		for _, t := range w.Tokens {
			g, want := got[t], md.acct(u, t)
			if g.Available == nil {
				g.Available, g.Locked = new(big.Int), new(big.Int)
			}
			if g.Available.Cmp(want.avail) != 0 || g.Locked.Cmp(want.locked) != 0 {
				r.fail("%s: user %s has %v available %v locked of %s, want %v and %v", what, u, g.Available, g.Locked, t, want.avail, want.locked)
			}
		}
	}
	for name, p := range map[string][2]map[types.TokenTypeId]*big.Int{"fees": {w.FeePool(), md.fees}, "operator fees": {w.OperatorFees(w.Users), md.ops}} {
		for _, t := range w.Tokens {
			if a, b := sum0(p[0][t]), sum0(p[1][t]); a.Cmp(b) != 0 {
				r.fail("%s: collected %s of %s are %v, want %v", what, name, t, a, b)
			}
		}
	}
}

func sum0(x *big.Int) *big.Int {
	if x == nil {
		return new(big.Int)
	}
	return x
}

// place sends an order and compares everything it did.
func (r *run) place(u types.Address, agent types.Address, m *mk, sell bool, typ int, price string, qty *big.Int) *order {
	w, md := r.w, r.md
	r.newOrders, r.updates, r.trades = nil, nil, nil
	var res memchain.Result
	if agent != u {
		res = w.Call(agent, "PlaceAgentOrder", u, m.Trade, m.Quote, sell, uint8(typ), price, qty)
	} else {
		res = w.Call(u, "PlaceOrder", m.Trade, m.Quote, sell, uint8(typ), price, qty)
	}
	what := fmt.Sprintf("order by %s in market %d sell=%v type %d price %q quantity %v", u, m.Id, sell, typ, price, qty)
	r.logf("%s", what)
	if res.Panic != nil {
		r.fail("%s: panic %v", what, res.Panic)
	}
	okParam := qty.Sign() > 0 && typ <= 4 && (typ == market || validPrice(price))
	if (res.Err == nil) != okParam {
		r.fail("%s: accepted %v (%v), want %v", what, res.Err == nil, res.Err, okParam)
	}
	if !okParam {
		r.labels["bad-order"] = true
		return nil
	}
	var o *order
	if agent == u || r.grants[grantKey(u, agent, m)] {
		o = md.newOrder(m, u, sell, typ, price, qty)
	}
	if failed := w.Drain(); failed != (o == nil) {
		r.fail("%s: refused %v, want %v", what, failed, o == nil)
	}
	if o == nil {
		r.labels["refused"] = true
		r.compare(what + " (refused)")
		if len(r.newOrders)+len(r.trades)+len(r.updates) != 0 {
			r.fail("%s: refused but left events", what)
		}
		return nil
	}
	o.hash = res.Block.Hash
	// the same set of rates has to be on the order
	trades, touched := md.match(m, o)
	r.compare(what)
	if len(r.newOrders) != 1 {
		r.fail("%s: %d new order events", what, len(r.newOrders))
	}
	ev := r.newOrders[0].Order
	b := func(x []byte) *big.Int { return new(big.Int).SetBytes(x) }
	if int(ev.Status) != o.status || b(ev.ExecutedQuantity).Cmp(o.execQ) != 0 || b(ev.ExecutedAmount).Cmp(o.execA) != 0 ||
		b(ev.ExecutedBaseFee).Cmp(o.execB) != 0 || b(ev.ExecutedOperatorFee).Cmp(o.execO) != 0 || b(ev.RefundQuantity).Cmp(o.refund) != 0 {
		r.fail("%s: the exchange reports status %d executed %v/%v fee %v+%v refund %v, want %v refund %v", what, ev.Status, b(ev.ExecutedQuantity), b(ev.ExecutedAmount),
			b(ev.ExecutedBaseFee), b(ev.ExecutedOperatorFee), b(ev.RefundQuantity), *o, o.refund)
	}
	if ev.TakerFeeRate != o.takerRate || ev.MakerFeeRate != o.makerRate || ev.TakerOperatorFeeRate != o.takerOp || ev.MakerOperatorFeeRate != o.makerOp {
		r.fail("%s: fee rates %d %d %d %d, want %d %d %d %d", what, ev.TakerFeeRate, ev.MakerFeeRate, ev.TakerOperatorFeeRate, ev.MakerOperatorFeeRate, o.takerRate, o.makerRate, o.takerOp, o.makerOp)
	}
	if len(r.trades) != len(trades) {
		r.fail("%s: %d trades, want %v", what, len(r.trades), trades)
	}
	for i, t := range trades {
		g := r.trades[i]
		gt := trade{maker: t.maker, price: dex.BytesToPrice(g.Price), q: b(g.Quantity), a: b(g.Amount), tFee: b(g.TakerFee), tOp: b(g.TakerOperatorFee), mFee: b(g.MakerFee), mOp: b(g.MakerOperatorFee)}
		if gt.String() != t.String() || string(g.MakerId) != string(r.ids[t.maker.n]) || string(g.TakerId) != string(ev.Id) || g.TakerSide != sell {
			r.fail("%s: trade %d is %v, want %v", what, i, gt, t)
		}
	}
	if len(r.updates) != len(touched) {
		r.fail("%s: %d order updates, want %d", what, len(r.updates), len(touched))
	}
	for i, x := range touched {
		g := r.updates[i]
		if string(g.Id) != string(r.ids[x.n]) || int(g.Status) != x.status || b(g.RefundQuantity).Cmp(sum0(x.refund)) != 0 || b(g.ExecutedQuantity).Cmp(x.execQ) != 0 {
			r.fail("%s: update %d reports status %d executed %v refund %v, want %v refund %v", what, i, g.Status, b(g.ExecutedQuantity), b(g.RefundQuantity), *x, x.refund)
		}
	}
	if o.status == pending || o.status == partial {
		r.orders = append(r.orders, o)
	}
	r.nTrades += len(trades)
	if len(trades) > 0 {
		r.labels[fmt.Sprintf("trade-type%d", typ)] = true
		if o.status == partial {
			r.nPartial++
		}
		if len(trades) > 1 {
			r.labels["sweep"] = true
		}
		for _, x := range append([]*order{o}, touched...) {
			if x.status == full && x.refund.Sign() > 0 {
				r.labels["full-with-refund"] = true
			}
			if x.status == full && x.remQ().Sign() > 0 {
				r.nDust++
			}
		}
		for _, t := range trades {
			if t.maker.addr == u {
				r.labels["self-trade"] = true
			}
			if t.q.Sign() == 0 {
				r.labels["zero-quantity"] = true
			}
		}
	} else if typ == postOnly && o.status == cancelled {
		r.labels["post-only-cancelled"] = true
	} else if typ == fillOrKill && o.status == cancelled {
		r.labels["fok-killed"] = true
	} else if typ == market && o.status == cancelled && len(m.side(!sell)) > 0 {
		r.labels["market-void"] = true
	}
	return o
}

func grantKey(p, a types.Address, m *mk) string { return fmt.Sprint(p, a, m.Id) }

func (r *run) resting(o *order) *mk {
	for _, m := range r.mks {
		for _, x := range m.book {
			if x == o {
				return m
			}
		}
	}
	return nil
}

func (r *run) cancel() {
	if len(r.orders) == 0 {
		return
	}
	w := r.w
	o := rapid.SampledFrom(r.orders).Draw(r.rt, "which")
	m := r.resting(o)
	by := o.addr
	if rapid.IntRange(0, 4).Draw(r.rt, "stranger") == 0 {
		by = rapid.SampledFrom(w.Users).Draw(r.rt, "by")
	}
	may := by == o.addr
	var res memchain.Result
	how := rapid.IntRange(0, 2).Draw(r.rt, "how")
	r.newOrders, r.updates, r.trades = nil, nil, nil
	switch how {
	case 0:
		d, _ := cabi.ABIDexTrade.PackMethod("CancelOrder", r.ids[o.n])
		res = w.Ch.Send(memchain.Tx{From: by, To: types.AddressDexTrade, Token: memchain.Vite, Data: d})
	case 1:
		d, _ := cabi.ABIDexTrade.PackMethod("CancelOrderByTransactionHash", o.hash)
		res = w.Ch.Send(memchain.Tx{From: by, To: types.AddressDexTrade, Token: memchain.Vite, Data: d})
	case 2:
		mm := m
		if mm == nil {
			mm = r.mks[0]
		}
		principal := rapid.SampledFrom([]types.Address{o.addr, {}, by}).Draw(r.rt, "principal")
		may = by == o.addr && (principal == types.Address{} || principal == by)
		if principal != by && (principal != types.Address{}) {
			may = principal == o.addr && r.grants[grantKey(principal, by, mm)]
		}
		res = w.Call(by, "CancelOrderBySendHash", o.hash, principal, mm.Trade, mm.Quote)
	}
	what := fmt.Sprintf("cancel of #%d by %s way %d", o.n, by, how)
	r.logf("%s", what)
	if res.Err != nil || res.Panic != nil {
		r.fail("%s: %v %v", what, res.Err, res.Panic)
	}
	w.Drain()
	if m != nil && may {
		o.status = cancelled
		r.md.finish(m, o)
		m.drop(o)
		r.labels["cancelled"] = true
		if len(r.updates) != 1 || r.updates[0].Status != cancelled || new(big.Int).SetBytes(r.updates[0].RefundQuantity).Cmp(o.refund) != 0 {
			r.fail("%s: %d updates reported, want one cancellation with refund %v", what, len(r.updates), o.refund)
		}
	} else if m == nil {
		r.labels["cancel-finished"] = true
	} else {
		r.labels["cancel-by-stranger"] = true
	}
	r.compare(what)
}

func (r *run) price(m *mk, base string) string {
	rt := r.rt
	if rapid.IntRange(0, 39).Draw(rt, "badPrice") == 39 {
		return rapid.SampledFrom([]string{"0", "", "x", "-1", "1e5", "1.0000000000001", "1234567890123", "0.0", ".", "1.2.3", "+1", " 1", "0x1", "1_0", "inf", "0.000000000000", "000000000000001"}).Draw(rt, "bad")
	}
	if rapid.IntRange(0, 39).Draw(rt, "oddPrice") == 39 {
		return rapid.SampledFrom([]string{"01.50", ".5", "2.", "999999999999.999999999999", "0.000000000001", "000000000001", "1.000000000000"}).Draw(rt, "odd")
	}
	x, _ := new(big.Rat).SetString(base)
	k := rapid.SampledFrom([]int{0, 0, 0, 1, -1, 2, -2}).Draw(rt, "tick")
	tick := new(big.Rat).SetFrac(big.NewInt(1), pow10(12))
	if x.Cmp(new(big.Rat).SetInt64(1)) >= 0 {
		tick = new(big.Rat).SetFrac(big.NewInt(1), big.NewInt(rapid.SampledFrom([]int64{1, 2, 10}).Draw(rt, "tickSize")))
		if x.Cmp(new(big.Rat).SetInt64(3)) < 0 {
			tick = new(big.Rat).SetFrac(big.NewInt(1), big.NewInt(10))
		}
	} else if x.Cmp(new(big.Rat).SetFrac(big.NewInt(1), big.NewInt(100))) > 0 {
		tick = new(big.Rat).SetFrac(big.NewInt(1), big.NewInt(1000))
	}
	x.Add(x, tick.Mul(tick, new(big.Rat).SetInt64(int64(k))))
	return canon(x.FloatString(12))
}

// quantity for about amount units of the quote token.
func (r *run) quantity(m *mk, u types.Address, sell bool, price string) *big.Int {
	rt := r.rt
	p := price
	if !validPrice(p) {
		p = "1"
	}
	p = canon(p)
	p0 := p
	if rapid.IntRange(0, 3).Draw(rt, "affordable") > 1 {
		// a part of what the user can pay for, not below what the exchange takes
		q := r.md.acct(u, m.Trade).avail
		if !sell {
			q, _ = dexworld.QuantityF(r.md.acct(u, m.Quote).avail, p, -m.diff()).Int(nil)
		}
		lo, _ := dexworld.QuantityF(dexworld.Adjust(r.md.minTrade[m.QType], dexworld.QuoteDecimals[m.QType]-m.QD), p, -m.diff()).Int(nil)
		q = new(big.Int).Rsh(q, uint(rapid.IntRange(1, 45).Draw(rt, "part")))
		if q.Cmp(lo) < 0 {
			q = sum(lo, big.NewInt(int64(rapid.IntRange(0, 2).Draw(rt, "above"))))
		}
		if q.Sign() > 0 {
			return q
		}
	}
	switch rapid.IntRange(0, 3).Draw(rt, "qKind") {
	case 0:
		if rapid.IntRange(0, 3).Draw(rt, "few") > 0 {
			break
		}
		return big.NewInt(int64(rapid.IntRange(0, 30).Draw(rt, "tiny")))
	case 1, 2: // what is left of a resting order, give or take
		l := append(m.side(true), m.side(false)...)
		if len(l) > 0 {
			x := rapid.SampledFrom(l).Draw(rt, "like")
			q := x.remQ()
			if rapid.Bool().Draw(rt, "unitLeft") { // what is left is worth about one unit of the quote token
				unit, _ := dexworld.QuantityF(big.NewInt(int64(rapid.IntRange(1, 2).Draw(rt, "units"))), rapid.SampledFrom([]string{x.price, p0}).Draw(rt, "at"), -m.diff()).Int(nil)
				if rapid.Bool().Draw(rt, "minus") {
					unit.Neg(unit)
				}
				q.Add(q, unit)
			}
			q.Add(q, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(rt, "off"))))
			if q.Sign() > 0 {
				return q
			}
		}
	}
	a := big.NewInt(int64(rapid.IntRange(1, 20).Draw(rt, "amount")))
	a.Mul(a, pow10(rapid.SampledFrom([]int{0, 1, 1, 2, 5, 9, 14}).Draw(rt, "amountExp")))
	q, _ := dexworld.QuantityF(a, p, -m.diff()).Int(nil)
	if q.Sign() == 0 {
		q.SetInt64(1)
	}
	q.Add(q, big.NewInt(int64(rapid.IntRange(0, 3).Draw(rt, "extra"))))
	return q
}

// tighten moves the limit of market orders next to what the order will execute.
func (r *run) tighten(m *mk, u types.Address, sell bool, q *big.Int) {
	md, mm := r.md.clone(m)
	md.maxMarket = map[int32]*big.Int{m.QType: pow10(45)}
	o := md.newOrder(mm, u, sell, market, "1", q)
	if o == nil {
		return
	}
	md.match(mm, o)
	v := rapid.SampledFrom([]*big.Int{sum(o.execA, o.execB, o.execO), sum(o.execA, o.execB), o.execA}).Draw(r.rt, "parts")
	v = sum(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(r.rt, "near"))))
	v = dexworld.Adjust(v, m.QD-dexworld.QuoteDecimals[m.QType])
	if v.Sign() <= 0 {
		return
	}
	r.w.SetMarketOrderThreshold(m.QType, v)
	r.md.maxMarket[m.QType] = v
	r.logf("market orders of type %d limited to %v", m.QType, v)
	r.labels["tight-limit"] = true
}

func (r *run) step(bases []string) {
	rt, w := r.rt, r.w
	i := rapid.IntRange(0, len(r.mks)-1).Draw(rt, "market")
	m := r.mks[i]
	u := rapid.SampledFrom(w.Users).Draw(rt, "user")
	switch k := rapid.IntRange(0, 29).Draw(rt, "op"); {
	case k < 21:
		price := r.price(m, bases[i])
		typ := rapid.SampledFrom([]int{0, 0, 0, 0, 0, 1, 1, 2, 3, 3, 4, 4, 5}).Draw(rt, "type")
		agent := u
		if rapid.IntRange(0, 9).Draw(rt, "agent") == 9 {
			agent = rapid.SampledFrom(w.Users).Draw(rt, "agentIs")
		}
		sell := rapid.Bool().Draw(rt, "sell")
		q := r.quantity(m, u, sell, price)
		if typ == market && rapid.Bool().Draw(rt, "tight") {
			r.tighten(m, u, sell, q)
		}
		r.place(u, agent, m, sell, typ, price, q)
	case k < 25:
		r.cancel()
	case k == 25:
		w.NotifyTime(w.Time + int64(rapid.IntRange(1, 300).Draw(rt, "dt")))
		r.logf("time %d", w.Time)
		r.compare("time")
	case k == 26:
		switch rapid.IntRange(0, 2).Draw(rt, "config") {
		case 0:
			r.setRates(m, int32(rapid.IntRange(0, 200).Draw(rt, "taker")), int32(rapid.IntRange(0, 200).Draw(rt, "maker")))
		case 2:
			m.stopped = !m.stopped
			w.Must(w.Call(w.Users[0], "MarketAdminConfig", uint8(8), m.Trade, m.Quote, w.Users[0], int32(0), int32(0), m.stopped), "stop")
			r.logf("market %d stopped %v", m.Id, m.stopped)
		case 1:
			m.stable = !m.stable
			w.Must(w.Call(w.Users[0], "CommonAdminConfig", uint8(1), m.Trade, m.Quote, m.stable, int32(0), big.NewInt(0), w.Users[0]), "stable")
			r.logf("market %d stable %v", m.Id, m.stable)
		}
		r.compare("config")
	case k == 27:
		t := rapid.SampledFrom([]types.TokenTypeId{m.Trade, m.Quote}).Draw(rt, "token")
		a := pow10(rapid.IntRange(0, 16).Draw(rt, "exp"))
		w.Deposit(u, t, a)
		acc := r.md.acct(u, t)
		acc.avail.Add(acc.avail, a)
		r.logf("%s deposits %v of %s", u, a, t)
		r.compare("deposit")
	case k == 28:
		t := rapid.SampledFrom([]types.TokenTypeId{m.Trade, m.Quote}).Draw(rt, "token")
		acc := r.md.acct(u, t)
		a := rapid.SampledFrom([]*big.Int{big.NewInt(1), new(big.Int).Set(acc.avail), sum(acc.avail, big.NewInt(1)), new(big.Int).Rsh(acc.avail, 1)}).Draw(rt, "amount")
		if a.Sign() == 0 {
			return
		}
		res := w.Call(u, "Withdraw", t, a)
		r.logf("%s withdraws %v of %s", u, a, t)
		if res.Err != nil {
			r.fail("withdraw: %v", res.Err)
		}
		refused := w.Drain()
		if want := a.Cmp(acc.avail) > 0; refused != want {
			r.fail("withdrawal of %v with %v available: refused %v", a, acc.avail, refused)
		}
		if !refused {
			acc.avail.Sub(acc.avail, a)
		}
		r.compare("withdraw")
	case k == 29:
		agent := rapid.SampledFrom(w.Users).Draw(rt, "agentIs")
		if agent == u {
			return
		}
		action := uint8(rapid.IntRange(1, 2).Draw(rt, "action"))
		res := w.Call(u, "ConfigMarketAgents", action, agent, []types.TokenTypeId{m.Trade}, []types.TokenTypeId{m.Quote})
		r.logf("%s agents %d %s market %d", u, action, agent, m.Id)
		if res.Err != nil {
			r.fail("ConfigMarketAgents: %v", res.Err)
		}
		if !w.Drain() {
			r.grants[grantKey(u, agent, m)] = action == 1
		}
		r.compare("agents")
	}
}

func TestMatching(t *testing.T) {
	vlib.Check(t, vlib.Opts{Rule: "the history made at least 3 trades", Quick: 200, Thorough: 6000}, func(rt *rapid.T, c *vlib.C) {
		r := setup(rt, 4)
		r.compare("set-up")
		bases := []string{rapid.SampledFrom(basePrices).Draw(rt, "base1"), rapid.SampledFrom(basePrices).Draw(rt, "base2")}
		n := rapid.IntRange(40, 160).Draw(rt, "steps")
		for i := 0; i < n; i++ {
			r.step(bases)
		}
		for l := range r.labels {
			c.Label(l)
		}
		if r.nDust > 0 {
			c.Label("dust")
		}
		if r.nTrades >= 3 {
			c.NonTrivial(r.trace)
		}
		last := len(r.trace)
		if last > 3 {
			c.Sample("%d steps, %d trades, %d partly filled; last: %v", len(r.trace), r.nTrades, r.nPartial, r.trace[last-3:])
		}
	})
}

// ladder fills one side of a market with n resting orders of the first two users.
func (r *run) ladder(n int, sell bool) (m *mk, q *big.Int, made int) {
	m = r.mks[0]
	for _, t := range []types.TokenTypeId{m.Trade, m.Quote} {
		for _, u := range r.w.Users {
			r.w.Deposit(u, t, pow10(17))
			a := r.md.acct(u, t)
			a.avail.Add(a.avail, pow10(17))
		}
	}
	q, _ = dexworld.QuantityF(pow10(12), "2", -m.diff()).Int(nil)
	if q.Sign() == 0 {
		q.SetInt64(1)
	}
	for i := 0; i < n; i++ {
		price := fmt.Sprintf("2.0%02d", rapid.IntRange(0, 20).Draw(r.rt, "level"))
		u := rapid.SampledFrom(r.w.Users[:2]).Draw(r.rt, "maker")
		if r.place(u, u, m, sell, limited, price, q) != nil {
			made++
		}
	}
	return
}

// TestDeepBook sweeps a ladder of about a hundred resting orders.
func TestDeepBook(t *testing.T) {
	vlib.Check(t, vlib.Opts{Rule: "the sweep made at least 90 trades", Quick: 6, Thorough: 200}, func(rt *rapid.T, c *vlib.C) {
		r := setup(rt, 3)
		sell := rapid.Bool().Draw(rt, "makersSell")
		m, q, made := r.ladder(rapid.IntRange(95, 108).Draw(rt, "makers"), sell)
		taker := r.w.Users[2]
		k := int64(rapid.IntRange(made-3, made+3).Draw(rt, "times"))
		typ := rapid.SampledFrom([]int{limited, market, immediateOrCancel, fillOrKill, postOnly}).Draw(rt, "type")
		if typ == fillOrKill && k > 95 {
			k = 95 // the rest is TestFillOrKillDeep's
		}
		o := r.place(taker, taker, m, !sell, typ, takerPrice(sell), new(big.Int).Mul(q, big.NewInt(k)))
		if r.md.capped {
			c.Label("capped")
		}
		if o != nil && r.nTrades >= 90 {
			c.NonTrivial(typ, sell, made, k)
		}
		c.Label(fmt.Sprintf("type%d", typ))
		c.Sample("%d makers, taker type %d for %d of them: %d trades", made, typ, k, r.nTrades)
	})
}

func takerPrice(makersSell bool) string {
	if makersSell {
		return "3"
	}
	return "1"
}

// TestFillOrKillDeep: a fill-or-kill order that would need more than a hundred
// trades fills completely or not at all.
func TestFillOrKillDeep(t *testing.T) {
	vlib.Check(t, vlib.Opts{Rule: "the order reached the book of more than 100 resting orders", Quick: 1, Thorough: 20}, func(rt *rapid.T, c *vlib.C) {
		r := setup(rt, 3)
		sell := rapid.Bool().Draw(rt, "makersSell")
		m, q, made := r.ladder(rapid.IntRange(102, 108).Draw(rt, "makers"), sell)
		u := r.w.Users[2]
		qty := new(big.Int).Mul(q, big.NewInt(int64(rapid.IntRange(101, made).Draw(rt, "times"))))
		r.newOrders, r.updates, r.trades = nil, nil, nil
		res := r.w.Call(u, "PlaceOrder", m.Trade, m.Quote, !sell, uint8(fillOrKill), takerPrice(sell), qty)
		if res.Err != nil || r.w.Drain() || len(r.newOrders) != 1 {
			rt.Skip("the user could not pay")
		}
		c.NonTrivial(sell, made, qty)
		done := new(big.Int).SetBytes(r.newOrders[0].Order.ExecutedQuantity)
		c.Sample("fill-or-kill for %v of %d orders of %v: %d trades, executed %v", qty, made, q, len(r.trades), done)
		switch {
		case done.Cmp(qty) == 0:
			c.Label("filled")
		case done.Sign() == 0 && len(r.trades) == 0:
			c.Label("killed")
			r.compare("killed fill-or-kill order")
		case len(r.trades) == 100 && done.Cmp(new(big.Int).Mul(q, big.NewInt(100))) == 0 && r.newOrders[0].Order.Status == cancelled:
			vlib.KnownFinding("fok-hundred-trades")
			c.Label("stopped-at-hundred")
		default:
			r.fail("fill-or-kill order for %v executed %v in %d trades, status %d", qty, done, len(r.trades), r.newOrders[0].Order.Status)
		}
	})
}

// TestRounding: amounts of a few units, where every fill rounds: what is left
// of an order is worth about one unit, and the fees of many small fills use up
// what the buyer locked for them.
func TestRounding(t *testing.T) {
	vlib.Check(t, vlib.Opts{Rule: "at least 5 trades, and an order finished with some quantity left or with its locked fee used up", Quick: 300, Thorough: 8000}, func(rt *rapid.T, c *vlib.C) {
		r := setup(rt, 3)
		for _, m := range r.mks {
			r.w.SetTradeThreshold(uint8(m.QType), big.NewInt(1))
			r.md.minTrade[m.QType] = big.NewInt(1)
			r.w.SetMarketOrderThreshold(m.QType, pow10(40))
			r.md.maxMarket[m.QType] = pow10(40)
			for _, u := range r.w.Users {
				for _, t := range []types.TokenTypeId{m.Trade, m.Quote} {
					r.w.Deposit(u, t, pow10(14))
					a := r.md.acct(u, t)
					a.avail.Add(a.avail, pow10(14))
				}
			}
		}
		lockUsed := 0
		watch := func(os ...*order) {
			for _, o := range os {
				if o != nil && !o.sell && o.lockedFee != nil && o.lockedFee.Sign() > 0 && sum(o.execB, o.execO).Cmp(o.lockedFee) == 0 {
					lockUsed++
				}
			}
		}
		pick := func() types.Address { return rapid.SampledFrom(r.w.Users).Draw(rt, "user") }
		for k := rapid.IntRange(4, 14).Draw(rt, "rounds"); k > 0; k-- {
			m := rapid.SampledFrom(r.mks).Draw(rt, "market")
			qtyFor := func(a int64, p string) *big.Int {
				q, _ := dexworld.QuantityF(big.NewInt(a), p, -m.diff()).Int(nil)
				if q.Sign() == 0 {
					q.SetInt64(1)
				}
				return q
			}
			// clear the book
			for _, o := range append(m.side(true), m.side(false)...) {
				d, _ := cabi.ABIDexTrade.PackMethod("CancelOrderByTransactionHash", o.hash)
				if res := r.w.Ch.Send(memchain.Tx{From: o.addr, To: types.AddressDexTrade, Token: memchain.Vite, Data: d}); res.Err != nil {
					r.fail("cancel: %v", res.Err)
				}
				r.w.Drain()
				r.logf("cancel #%d", o.n)
				o.status = cancelled
				r.md.finish(m, o)
				m.drop(o)
				r.compare("cancel")
			}
			prices := []string{"0.1", "0.25", "0.3", "0.5", "1", "2", "3", "0.05", "0.7"}
			pm := rapid.SampledFrom(prices).Draw(rt, "makerPrice")
			if rapid.Bool().Draw(rt, "dust") {
				sell := rapid.Bool().Draw(rt, "makerSells")
				pt := rapid.SampledFrom(prices).Draw(rt, "takerPrice")
				if c := cmpPrice(pm, pt); sell && c > 0 || !sell && c < 0 {
					pm, pt = pt, pm
				}
				q := qtyFor(int64(rapid.IntRange(3, 3000).Draw(rt, "worth")), pm)
				u := pick()
				mo := r.place(u, u, m, sell, limited, pm, q)
				// the two orders differ by what is worth about 0, 1 or 2 units at one of the prices
				d := qtyFor(int64(rapid.IntRange(1, 2).Draw(rt, "units")), rapid.SampledFrom([]string{pm, pt}).Draw(rt, "at"))
				d.Add(d, big.NewInt(int64(rapid.IntRange(-2, 1).Draw(rt, "off"))))
				if rapid.Bool().Draw(rt, "half") {
					d.Rsh(d, 1)
				}
				if rapid.Bool().Draw(rt, "less") {
					d.Neg(d)
				}
				if d.Add(q, d); d.Sign() <= 0 {
					continue
				}
				u = pick()
				to := r.place(u, u, m, !sell, rapid.SampledFrom([]int{limited, limited, limited, market, immediateOrCancel, fillOrKill}).Draw(rt, "type"), pt, d)
				watch(mo, to)
			} else {
				n := rapid.IntRange(2, 12).Draw(rt, "fills")
				a := int64(rapid.IntRange(50, 1500).Draw(rt, "each"))
				q := qtyFor(a, pm)
				u := pick()
				total := new(big.Int).Mul(q, big.NewInt(int64(n)))
				if rapid.Bool().Draw(rt, "makerBuys") {
					mo := r.place(u, u, m, false, limited, pm, total)
					for i := 0; i < n; i++ {
						u := pick()
						r.place(u, u, m, true, limited, pm, q)
					}
					watch(mo)
				} else {
					for i := 0; i < n; i++ {
						u := pick()
						r.place(u, u, m, true, limited, pm, q)
					}
					to := r.place(u, u, m, false, rapid.SampledFrom([]int{limited, market, immediateOrCancel}).Draw(rt, "type"), pm, total)
					watch(to)
				}
			}
		}
		if r.nDust > 0 {
			c.Label("dust")
		}
		if lockUsed > 0 {
			c.Label("fee-lock-used-up")
		}
		for l := range r.labels {
			c.Label(l)
		}
		if r.nTrades >= 5 && (r.nDust > 0 || lockUsed > 0) {
			c.NonTrivial(r.trace)
		}
		c.Sample("%d trades, %d orders finished with a leftover, %d with the fee lock used up", r.nTrades, r.nDust, lockUsed)
	})
}
