// Package dexworld runs the exchange contracts (DexFund, DexTrade and the
// Quota and Asset contracts they talk to) on the in-memory ledger: set-up of
// markets and funds, calls, and readers of everything the exchange owes.
package dexworld

import (
	"bytes"
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/calls"
	"verif/memchain"
)

// Market is an open market.
type Market struct {
	Id           int32
	Trade, Quote types.TokenTypeId
	TD, QD       int // decimals
	QType        int32
}

// World is an exchange with users.
type World struct {
	Ch      *memchain.Chain
	Users   []types.Address
	Tokens  []types.TokenTypeId // Vite, VX, Token(0..)
	Markets []*Market
	Time    int64
	// OnReceive, when set, sees every receive block that was run.
	OnReceive func(from *core.AccountBlock, r memchain.Result)
}

// Decimals of a token of the world.
func (w *World) Decimals(t types.TokenTypeId) int {
	if t == memchain.Vite || t == dex.VxTokenId {
		return 18
	}
	return int(t[9]-1) * 4
}

// QuoteDecimals of the four quote token types.
var QuoteDecimals = map[int32]int{1: 18, 2: 18, 3: 8, 4: 6}

// New makes the ledger: n users holding VITE, VX and extra tokens.
func New(n, extra int) *World {
	memchain.Init()
	dex.InitFundOwner(memchain.User(0))
	g := memchain.Genesis(memchain.GenesisOpt{Users: n, Tokens: extra, Balance: memchain.Attov(20000000)})
	vx := memchain.Attov(30000000)
	g.AssetInfo.TokenInfoMap[dex.VxTokenId.String()] = &config.TokenInfo{TokenName: "ViteX Coin", TokenSymbol: "VX", Decimals: 18,
		TotalSupply: new(big.Int).Mul(vx, big.NewInt(int64(n))), MaxSupply: big.NewInt(0), Owner: memchain.User(0), IsOwnerBurnOnly: false}
	w := &World{Tokens: []types.TokenTypeId{memchain.Vite, dex.VxTokenId}}
	for i := 0; i < n; i++ {
		w.Users = append(w.Users, memchain.User(i))
		g.AccountBalanceMap[memchain.User(i).String()][dex.VxTokenId.String()] = new(big.Int).Set(vx)
	}
	for i := 0; i < extra; i++ {
		w.Tokens = append(w.Tokens, memchain.Token(i))
	}
	w.Ch = memchain.New(g)
	w.Ch.Reader = calls.Reader()
	w.Ch.StakeOverride = func(types.Address) *big.Int { return memchain.Attov(1000000000) }
	w.Time = memchain.GenesisTime + 5*86400 + 100 // not on day 0: the exchange takes that for "none"
	return w
}

// Data packs a DexFund call.
func Data(method string, args ...interface{}) []byte {
	d, err := cabi.ABIDexFund.PackMethod(method, args...)
	if err != nil {
		panic(method + ": " + err.Error())
	}
	return d
}

// Send sends, waiting for quota.
func (w *World) Send(tx memchain.Tx) memchain.Result {
	r := w.Ch.Send(tx)
	for i := 0; i < 80 && r.Panic == nil && r.Err == util.ErrOutOfQuota; i++ {
		w.Ch.Tick(1)
		r = w.Ch.Send(tx)
	}
	return r
}

// Call sends a DexFund call.
func (w *World) Call(from types.Address, method string, args ...interface{}) memchain.Result {
	return w.Send(memchain.Tx{From: from, To: types.AddressDexFund, Token: memchain.Vite, Data: Data(method, args...)})
}

// Pay sends a DexFund call with tokens attached.
func (w *World) Pay(from types.Address, token types.TokenTypeId, amount *big.Int, method string, args ...interface{}) memchain.Result {
	return w.Send(memchain.Tx{From: from, To: types.AddressDexFund, Token: token, Amount: amount, Data: Data(method, args...)})
}

// Contracts whose pending sends are received by Drain.
var Contracts = []types.Address{types.AddressDexFund, types.AddressDexTrade, types.AddressQuota, types.AddressAsset}

// Step receives the oldest pending send of a contract.
func (w *World) Step(addr types.Address) (core.AccountBlock, memchain.Result) {
	from := w.Ch.Onroad[addr][0]
	r := w.Ch.Receive(from)
	for i := 0; i < 80 && r.Panic == nil && r.Block == nil && r.Retry; i++ { // out of quota in this snapshot
		w.Ch.Tick(1)
		r = w.Ch.Receive(from)
	}
	if r.Panic != nil || r.Block == nil {
		panic(fmt.Sprintf("receive of %s on %s: panic %v err %v retry %v", from.Hash, addr, r.Panic, r.Err, r.Retry))
	}
	if w.OnReceive != nil {
		w.OnReceive(from, r)
	}
	return *from, r
}

// Pending tells whether any contract has something to receive.
func (w *World) Pending() []types.Address {
	var l []types.Address
	for _, a := range Contracts {
		if len(w.Ch.Onroad[a]) > 0 {
			l = append(l, a)
		}
	}
	return l
}

// Drain receives everything the contracts have pending; it tells whether the first receive failed.
func (w *World) Drain() (failed bool) {
	first := true
	for n := 0; ; n++ {
		if n > 3000 {
			panic("contracts keep sending")
		}
		p := w.Pending()
		if len(p) == 0 {
			return
		}
		_, r := w.Step(p[0])
		if first {
			failed = memchain.Failed(r.Block)
			first = false
		}
	}
}

// Must sends, drains and panics unless all went well.
func (w *World) Must(r memchain.Result, what string) {
	if r.Err != nil || r.Panic != nil || r.Block == nil {
		panic(fmt.Sprintf("set-up: %s refused: %v %v", what, r.Err, r.Panic))
	}
	if w.Drain() {
		panic("set-up: " + what + " failed")
	}
}

// Begin sets the administrators, the clock and VITE as a quote token.
func (w *World) Begin() {
	o := w.Users[0]
	w.Must(w.Call(o, "DexAdminConfig", uint8(2|4|16|32), o, o, o, false, o, o), "DexAdminConfig")
	w.NotifyTime(w.Time)
	w.SetQuote(memchain.Vite, 1)
}

// NotifyTime moves the exchange's clock.
func (w *World) NotifyTime(t int64) {
	w.Time = t
	w.Must(w.Call(w.Users[0], "NotifyTime", t), "NotifyTime")
}

// SetQuote makes token a quote token of the given type.
func (w *World) SetQuote(token types.TokenTypeId, typ uint8) {
	w.Must(w.Call(w.Users[0], "TradeAdminConfig", uint8(2), token, token, false, token, typ, uint8(0), big.NewInt(0), uint8(0), big.NewInt(0)), "quote token")
}

// SetTradeThreshold sets the smallest order of a quote type.
func (w *World) SetTradeThreshold(typ uint8, v *big.Int) {
	w.Must(w.Call(w.Users[0], "TradeAdminConfig", uint8(4), memchain.Vite, memchain.Vite, false, memchain.Vite, uint8(0), typ, v, uint8(0), big.NewInt(0)), "trade threshold")
}

// SetMarketOrderThreshold sets the largest execution of a market order.
func (w *World) SetMarketOrderThreshold(typ int32, v *big.Int) {
	w.Must(w.Call(w.Users[0], "CommonAdminConfig", uint8(2), memchain.Vite, memchain.Vite, false, typ, v, w.Users[0]), "market order threshold")
}

// Deposit moves tokens into the exchange.
func (w *World) Deposit(u types.Address, token types.TokenTypeId, amount *big.Int) {
	w.Must(w.Pay(u, token, amount, "Deposit"), "Deposit")
}

// Open opens a market; the trade token's owner pays.
func (w *World) Open(trade, quote types.TokenTypeId) *Market {
	w.Must(w.Call(w.Users[0], "OpenNewMarket", trade, quote), "OpenNewMarket")
	mi, ok := dex.GetMarketInfo(w.Ch.Db(types.AddressDexFund), trade, quote)
	if !ok || !mi.Valid {
		panic("set-up: market not opened")
	}
	m := &Market{Id: mi.MarketId, Trade: trade, Quote: quote, TD: w.Decimals(trade), QD: w.Decimals(quote), QType: mi.QuoteTokenType}
	w.Markets = append(w.Markets, m)
	return m
}

// Acct is what the exchange owes a user of one token.
type Acct struct {
	Available, Locked, VxLocked, VxUnlocking, CancellingStake *big.Int
}

func (a Acct) String() string {
	return fmt.Sprintf("available %v locked %v vxLocked %v vxUnlocking %v cancelling %v", a.Available, a.Locked, a.VxLocked, a.VxUnlocking, a.CancellingStake)
}

// Total of all parts.
func (a Acct) Total() *big.Int {
	s := new(big.Int).Add(a.Available, a.Locked)
	s.Add(s, a.VxLocked)
	s.Add(s, a.VxUnlocking)
	return s.Add(s, a.CancellingStake)
}

// Funds of a user by token.
func (w *World) Funds(u types.Address) map[types.TokenTypeId]Acct {
	res := map[types.TokenTypeId]Acct{}
	f, ok := dex.GetFund(w.Ch.Db(types.AddressDexFund), u)
	if !ok {
		return res
	}
	b := func(x []byte) *big.Int { return new(big.Int).SetBytes(x) }
	for _, a := range f.Accounts {
		t, _ := types.BytesToTokenTypeId(a.Token)
		x, dup := res[t], false
		if _, dup = res[t]; dup {
			panic("two fund entries of one token")
		}
		x = Acct{b(a.Available), b(a.Locked), b(a.VxLocked), b(a.VxUnlocking), b(a.CancellingStake)}
		res[t] = x
	}
	return res
}

// Period is the exchange's current day.
func (w *World) Period() uint64 {
	return dex.GetCurrentPeriodId(w.Ch.Db(types.AddressDexFund), w.Ch.Reader)
}

// FeePool is what the exchange collected and has not given out, by token.
func (w *World) FeePool() map[types.TokenTypeId]*big.Int {
	res := map[types.TokenTypeId]*big.Int{}
	db := w.Ch.Db(types.AddressDexFund)
	cur := w.Period()
	for p := uint64(0); p <= cur; p++ {
		f, ok := dex.GetDexFeesByPeriodId(db, p)
		if !ok || f.FinishDividend {
			continue
		}
		for _, d := range f.FeesForDividend {
			t, _ := types.BytesToTokenTypeId(d.Token)
			v := new(big.Int).SetBytes(d.DividendPoolAmount)
			if p != cur && !d.NotRoll {
				// a past day keeps one per cent, the rest rolled on
				v = Rate(v, 1000)
			}
			add(res, t, v)
		}
	}
	return res
}

// OperatorFees owed to market owners, by token.
func (w *World) OperatorFees(owners []types.Address) map[types.TokenTypeId]*big.Int {
	res := map[types.TokenTypeId]*big.Int{}
	db := w.Ch.Db(types.AddressDexFund)
	cur := w.Period()
	for p := uint64(0); p <= cur; p++ {
		for _, o := range owners {
			f, ok := dex.GetOperatorFeesByPeriodId(db, o.Bytes(), p)
			if !ok {
				continue
			}
			for _, x := range f.OperatorFees {
				t, _ := types.BytesToTokenTypeId(x.Token)
				for _, m := range x.MarketFees {
					add(res, t, new(big.Int).SetBytes(m.Amount))
				}
			}
		}
	}
	return res
}

// VxPools is VX waiting to be mined: the pool and the market makers' pools.
func (w *World) VxPools() *big.Int {
	db := w.Ch.Db(types.AddressDexFund)
	s := new(big.Int).Set(dex.GetVxMinePool(db))
	for p, cur := uint64(0), w.Period(); p <= cur; p++ {
		if v := dex.GetMakerMiningPoolByPeriodId(db, p); v != nil {
			s.Add(s, v)
		}
	}
	return s
}

const prec = 120 // the exchange's arithmetic is defined on 120-bit floats

func num(v *big.Int) *big.Float { return new(big.Float).SetPrec(prec).SetInt(v) }

func dec(s string) *big.Float {
	f, ok := new(big.Float).SetPrec(prec).SetString(s)
	if !ok {
		panic("not a number: " + s)
	}
	return f
}

// Half rounds half up.
func Half(f *big.Float) *big.Int {
	v, _ := new(big.Float).SetPrec(prec).Add(f, big.NewFloat(0.5)).Int(nil)
	return v
}

// Scale divides by 10^diff.
func Scale(f *big.Float, diff int) *big.Float {
	if diff == 0 {
		return f
	}
	n := diff
	if n < 0 {
		n = -n
	}
	p := num(new(big.Int).Exp(big.NewInt(10), big.NewInt(int64(n)), nil))
	r := new(big.Float).SetPrec(prec)
	if diff > 0 {
		return r.Quo(f, p)
	}
	return r.Mul(f, p)
}

// Rate is rate/100000 of v, rounded half up.
func Rate(v *big.Int, rate int32) *big.Int {
	if rate <= 0 {
		return new(big.Int)
	}
	return Half(new(big.Float).SetPrec(prec).Mul(num(v), dec(fmt.Sprintf("0.%05d", rate))))
}

// AmountF is quantity times price in units of the quote token.
func AmountF(q *big.Int, price string, diff int) *big.Float {
	return Scale(new(big.Float).SetPrec(prec).Mul(dec(price), num(q)), diff)
}

// QuantityF is amount over price in units of the trade token (diff: quote minus trade decimals).
func QuantityF(a *big.Int, price string, diff int) *big.Float {
	return Scale(new(big.Float).SetPrec(prec).Quo(num(a), dec(price)), diff)
}

// Adjust moves a whole amount by decimals.
func Adjust(v *big.Int, diff int) *big.Int { return Half(Scale(num(v), diff)) }

func add(m map[types.TokenTypeId]*big.Int, t types.TokenTypeId, v *big.Int) {
	if m[t] == nil {
		m[t] = new(big.Int)
	}
	m[t].Add(m[t], v)
}

// Book lists the resting orders of one side, best first.
func (w *World) Book(m *Market, side bool) []*dex.Order {
	mc, err := dex.NewMatcher(w.Ch.Db(types.AddressDexTrade), m.Id)
	if err != nil {
		panic(err)
	}
	l, _, err := mc.GetOrdersFromMarket(side, 0, 400)
	if err != nil {
		panic(err)
	}
	return l
}

// Events of a receive block by type.
func (w *World) Events(b *core.AccountBlock) (orders []*dex.NewOrderEvent, updates []*dex.OrderUpdateEvent, trades []*dex.TransactionEvent) {
	if b.LogHash == nil {
		return
	}
	for _, l := range w.Ch.Logs[*b.LogHash] {
		if len(l.Topics) == 0 {
			continue
		}
		switch t := l.Topics[0]; {
		case bytes.Equal(t[:], tid(&dex.NewOrderEvent{})):
			e := &dex.NewOrderEvent{}
			must(e.FromBytes(l.Data))
			orders = append(orders, e)
		case bytes.Equal(t[:], tid(&dex.OrderUpdateEvent{})):
			e := &dex.OrderUpdateEvent{}
			must(e.FromBytes(l.Data))
			updates = append(updates, e)
		case bytes.Equal(t[:], tid(&dex.TransactionEvent{})):
			e := &dex.TransactionEvent{}
			must(e.FromBytes(l.Data))
			trades = append(trades, e)
		}
	}
	return
}

func tid(e interface{ GetTopicId() types.Hash }) []byte { h := e.GetTopicId(); return h[:] }

func must(err error) {
	if err != nil {
		panic(err)
	}
}
