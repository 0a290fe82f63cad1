package c13

import (
	"fmt"
	"math/big"
	"sort"
	"strings"

	"github.com/vitelabs/go-vite/v2/common/types"
	"verif/dexworld"
)

const (
	limited = iota
	market
	postOnly
	fillOrKill
	immediateOrCancel
)

const (
	pending = iota
	partial
	full
	cancelled
)

// canon is the decimal form without needless zeros.
func canon(s string) string {
	i, d := s, ""
	if k := strings.IndexByte(s, '.'); k >= 0 {
		i, d = s[:k], s[k+1:]
	}
	i = strings.TrimLeft(i, "0")
	d = strings.TrimRight(d, "0")
	if i == "" {
		i = "0"
	}
	if d != "" {
		return i + "." + d
	}
	return i
}

// validPrice: decimal digits with at most one point, positive, at most 12 digits on each side.
func validPrice(s string) bool {
	if strings.Count(s, ".") > 1 || s == "" || s == "." {
		return false
	}
	i, d := s, ""
	if k := strings.IndexByte(s, '.'); k >= 0 {
		i, d = s[:k], s[k+1:]
	}
	if len(i) > 12 || len(d) > 12 {
		return false
	}
	pos := false
	for _, c := range i + d {
		if c < '0' || c > '9' {
			return false
		}
		pos = pos || c != '0'
	}
	return pos
}

func cmpPrice(a, b string) int {
	x, _ := new(big.Rat).SetString(a)
	y, _ := new(big.Rat).SetString(b)
	return x.Cmp(y)
}

type order struct {
	n                                      int // placement number: earlier is smaller
	hash                                   types.Hash
	addr                                   types.Address
	sell                                   bool
	typ                                    int
	price                                  string
	qty, amount, lockedFee                 *big.Int
	execQ, execA, execB, execO             *big.Int
	takerRate, takerOp, makerRate, makerOp int32
	threshold                              *big.Int
	status                                 int
	refund                                 *big.Int
}

func (o order) String() string {
	side := "buy"
	if o.sell {
		side = "sell"
	}
	return fmt.Sprintf("#%d %s type %d by %s price %s quantity %v/%v amount %v/%v fee %v+%v of %v status %d", o.n, side, o.typ, o.addr, o.price, o.execQ, o.qty, o.execA, o.amount, o.execB, o.execO, o.lockedFee, o.status)
}

func (o *order) remQ() *big.Int { return sub(o.qty, o.execQ) }
func (o *order) remA() *big.Int { return sub(o.amount, o.execA) }

func sub(a, b *big.Int) *big.Int { return new(big.Int).Sub(a, b) }
func sum(l ...*big.Int) *big.Int {
	s := new(big.Int)
	for _, x := range l {
		s.Add(s, x)
	}
	return s
}
func minI(a, b *big.Int) *big.Int {
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}

type trade struct {
	maker                *order
	price                string
	q, a                 *big.Int
	tFee, tOp, mFee, mOp *big.Int
}

func (t trade) String() string {
	return fmt.Sprintf("with #%d at %s: quantity %v amount %v taker fee %v+%v maker fee %v+%v", t.maker.n, t.price, t.q, t.a, t.tFee, t.tOp, t.mFee, t.mOp)
}

type pair struct{ avail, locked *big.Int }

type fkey struct {
	addr  types.Address
	token types.TokenTypeId
}

type mk struct {
	*dexworld.Market
	takerOp, makerOp int32
	stopped, stable  bool
	book             []*order
}

func (m *mk) diff() int { return m.TD - m.QD }

// side lists resting orders best first.
func (m *mk) side(sell bool) []*order {
	var l []*order
	for _, o := range m.book {
		if o.sell == sell {
			l = append(l, o)
		}
	}
	sort.SliceStable(l, func(i, j int) bool {
		c := cmpPrice(l[i].price, l[j].price)
		if c == 0 {
			return l[i].n < l[j].n
		}
		if sell {
			return c < 0
		}
		return c > 0
	})
	return l
}

func (m *mk) drop(o *order) {
	for i, x := range m.book {
		if x == o {
			m.book = append(append([]*order{}, m.book[:i]...), m.book[i+1:]...)
			return
		}
	}
}

type model struct {
	w         *dexworld.World
	funds     map[fkey]*pair
	fees, ops map[types.TokenTypeId]*big.Int
	minTrade  map[int32]*big.Int
	maxMarket map[int32]*big.Int
	vip       map[types.Address]int32 // reduction of the fee rate
	invited   map[types.Address]bool
	n         int
	capped    bool
}

func (md *model) acct(a types.Address, t types.TokenTypeId) *pair {
	k := fkey{a, t}
	if md.funds[k] == nil {
		md.funds[k] = &pair{new(big.Int), new(big.Int)}
	}
	return md.funds[k]
}

func (md *model) tooSmall(m *mk, v *big.Int) bool {
	return dexworld.Adjust(v, m.QD-dexworld.QuoteDecimals[m.QType]).Cmp(md.minTrade[m.QType]) < 0
}

func maxRate(o *order) int32 {
	a, b := o.takerRate+o.takerOp, o.makerRate+o.makerOp
	if a > b {
		return a
	}
	return b
}

// newOrder prices and locks; nil if the exchange has to refuse it.
func (md *model) newOrder(m *mk, addr types.Address, sell bool, typ int, price string, qty *big.Int) *order {
	if m.stopped {
		return nil
	}
	z := func() *big.Int { return new(big.Int) }
	o := &order{addr: addr, sell: sell, typ: typ, price: price, qty: new(big.Int).Set(qty), amount: z(), lockedFee: z(), execQ: z(), execA: z(), execB: z(), execO: z(), refund: z()}
	if !m.stable {
		o.takerRate, o.makerRate = 200-md.vip[addr], 200-md.vip[addr]
		o.takerOp, o.makerOp = m.takerOp, m.makerOp
		if md.invited[addr] {
			for _, r := range []*int32{&o.takerRate, &o.makerRate, &o.takerOp, &o.makerOp} {
				*r = *r * 9 / 10
			}
		}
	}
	if typ != market {
		o.price = canon(price)
		o.amount = dexworld.Half(dexworld.AmountF(qty, o.price, m.diff()))
		if !sell {
			o.lockedFee = dexworld.Rate(o.amount, maxRate(o))
		}
		if md.tooSmall(m, sum(o.amount, o.lockedFee)) {
			return nil
		}
	} else {
		o.threshold = dexworld.Adjust(md.maxMarket[m.QType], dexworld.QuoteDecimals[m.QType]-m.QD)
	}
	token, lock := m.Quote, sum(o.amount, o.lockedFee)
	if sell {
		token, lock = m.Trade, o.qty
	}
	a := md.acct(addr, token)
	if typ == market && !sell {
		lock = new(big.Int).Set(a.avail)
		if md.tooSmall(m, lock) {
			return nil
		}
		o.amount = new(big.Int).Set(lock)
		if f := maxRate(o); f > 0 {
			r := int32(float32(f)/(float32(100000)+float32(f))*float32(100000)) + 1
			o.lockedFee = dexworld.Rate(lock, r)
			o.amount = sub(lock, o.lockedFee)
		}
	}
	if a.avail.Cmp(lock) < 0 {
		return nil
	}
	a.avail.Sub(a.avail, lock)
	a.locked.Add(a.locked, lock)
	md.n++
	o.n = md.n
	return o
}

func crosses(o, maker *order) bool {
	if o.typ == market {
		return true
	}
	c := cmpPrice(o.price, maker.price)
	if o.sell {
		return c <= 0
	}
	return c >= 0
}

func fees(o *order, a *big.Int, rate, op int32) (f, g *big.Int) {
	f, g = new(big.Int), new(big.Int)
	left := true
	part := func(r int32, used *big.Int) *big.Int {
		if r == 0 {
			return new(big.Int)
		}
		v := dexworld.Rate(a, r)
		if !o.sell {
			room := sub(o.lockedFee, used)
			if room.Cmp(v) <= 0 {
				left = false
				if room.Sign() < 0 {
					room.SetInt64(0)
				}
				return room
			}
		}
		return v
	}
	f = part(rate, sum(o.execB, o.execO))
	if left {
		g = part(op, sum(o.execB, f, o.execO))
	}
	return
}

func (m *mk) fill(o *order, q, a, f, g *big.Int, price string) {
	one := big.NewFloat(1)
	switch {
	case o.remQ().Cmp(q) == 0:
		o.status = full
	case o.typ == market && !o.sell && (o.remA().Cmp(a) == 0 || dexworld.QuantityF(sub(o.remA(), a), price, -m.diff()).Cmp(one) < 0):
		o.status = full
	case o.typ != market && dexworld.AmountF(sub(o.remQ(), q), o.price, m.diff()).Cmp(one) < 0:
		o.status = full // what is left is worth less than one unit
	default:
		o.status = partial
	}
	o.execQ = sum(o.execQ, q)
	o.execA = sum(o.execA, a)
	o.execB = sum(o.execB, f)
	o.execO = sum(o.execO, g)
}

func (md *model) finish(m *mk, o *order) {
	token := m.Quote
	if o.sell {
		token = m.Trade
		o.refund = o.remQ()
	} else {
		o.refund = sum(o.remA(), sub(o.lockedFee, sum(o.execB, o.execO)))
	}
	a := md.acct(o.addr, token)
	a.locked.Sub(a.locked, o.refund)
	a.avail.Add(a.avail, o.refund)
}

// match runs a new order against the book.
func (md *model) match(m *mk, o *order) (trades []trade, touched []*order) {
	type undo struct {
		o *order
		v order
	}
	var saved []undo
	for _, maker := range m.side(!o.sell) {
		if !crosses(o, maker) {
			break
		}
		if o.typ == postOnly {
			o.status = cancelled
			break
		}
		saved = append(saved, undo{maker, *maker})
		q := o.remQ()
		if o.typ == market && !o.sell {
			fl, _ := dexworld.QuantityF(o.remA(), maker.price, -m.diff()).Int(nil)
			q = minI(q, fl)
		}
		q = minI(q, maker.remQ())
		a := dexworld.Half(dexworld.AmountF(q, maker.price, m.diff()))
		for _, x := range []*order{o, maker} {
			if !x.sell {
				a = minI(a, x.remA())
			}
		}
		t := trade{maker: maker, price: maker.price, q: q, a: a}
		t.tFee, t.tOp = fees(o, a, o.takerRate, o.takerOp)
		t.mFee, t.mOp = fees(maker, a, maker.makerRate, maker.makerOp)
		m.fill(o, q, a, t.tFee, t.tOp, maker.price)
		m.fill(maker, q, a, t.mFee, t.mOp, maker.price)
		trades = append(trades, t)
		touched = append(touched, maker)
		if o.status == partial && len(trades) >= 100 {
			o.status = cancelled
			md.capped = true
		}
		if o.status == full || o.status == cancelled {
			break
		}
	}
	void := false
	if o.typ == market && sum(o.execA, o.execB, o.execO).Cmp(o.threshold) > 0 {
		void = true
	}
	if o.typ == fillOrKill && (o.status == pending || o.status == partial) {
		void = true
	}
	if void {
		for _, s := range saved {
			*s.o = s.v
		}
		trades, touched = nil, nil
		o.status = cancelled
		o.execQ, o.execA, o.execB, o.execO = new(big.Int), new(big.Int), new(big.Int), new(big.Int)
	}
	if (o.typ == market || o.typ == immediateOrCancel) && (o.status == pending || o.status == partial) {
		o.status = cancelled
	}
	for _, t := range trades {
		md.settle(m, o, t.maker, t)
	}
	for _, x := range touched {
		if x.status == full {
			md.finish(m, x)
			m.drop(x)
		}
	}
	if o.status == full || o.status == cancelled {
		md.finish(m, o)
	} else {
		m.book = append(m.book, o)
	}
	return
}

func (md *model) settle(m *mk, o, maker *order, t trade) {
	one := func(x *order, fee *big.Int) {
		tr, qu := md.acct(x.addr, m.Trade), md.acct(x.addr, m.Quote)
		if x.sell {
			tr.locked.Sub(tr.locked, t.q)
			qu.avail.Add(qu.avail, sub(t.a, fee))
		} else {
			tr.avail.Add(tr.avail, t.q)
			qu.locked.Sub(qu.locked, sum(t.a, fee))
		}
	}
	one(o, sum(t.tFee, t.tOp))
	one(maker, sum(t.mFee, t.mOp))
	md.add(md.fees, m.Quote, sum(t.tFee, t.mFee))
	md.add(md.ops, m.Quote, sum(t.tOp, t.mOp))
}

func (md *model) add(x map[types.TokenTypeId]*big.Int, t types.TokenTypeId, v *big.Int) {
	if x[t] == nil {
		x[t] = new(big.Int)
	}
	x[t].Add(x[t], v)
}

// clone copies the model and one market for a trial.
func (md *model) clone(m *mk) (*model, *mk) {
	c, cm := *md, *m
	c.funds = map[fkey]*pair{}
	for k, v := range md.funds {
		c.funds[k] = &pair{new(big.Int).Set(v.avail), new(big.Int).Set(v.locked)}
	}
	c.fees, c.ops = map[types.TokenTypeId]*big.Int{}, map[types.TokenTypeId]*big.Int{}
	cm.book = nil
	for _, o := range m.book {
		x := *o
		cm.book = append(cm.book, &x)
	}
	return &c, &cm
}
