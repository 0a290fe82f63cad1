package c10

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"verif/gens"
	"verif/memchain"
	"verif/vlib"
)

const users = 4
const lock = 600 // stake lock of the test network parameters
const maxLock = 3600 * 24 * 365

var minStake = memchain.Attov(134)

// record is one live stake of the reference model.
type record struct {
	owner, ben types.Address
	amount     *big.Int
	exp        uint64
	delegated  bool
	delegate   types.Address
	bid        uint8
	id         *types.Hash // individually addressable (nil once topped up by an older-style stake)
	alias      []types.Hash
}

type op struct {
	method     string
	sender     types.Address
	owner, ben types.Address
	bid        uint8
	height     uint64
	amount     *big.Int // attached
	want       *big.Int // amount argument of a cancel
	token      types.TokenTypeId
	id         types.Hash
	garbled    bool
	send       *core.AccountBlock
}

type model struct {
	recs []*record
}

func (m *model) find(owner, ben types.Address, delegated bool, del types.Address, bid uint8) *record {
	for _, r := range m.recs {
		if r.owner == owner && r.ben == ben && r.delegated == delegated && r.delegate == del && r.bid == bid {
			return r
		}
	}
	return nil
}

func (m *model) remove(x *record) {
	for i, r := range m.recs {
		if r == x {
			m.recs = append(m.recs[:i:i], m.recs[i+1:]...)
			return
		}
	}
}

func (m *model) byAlias(h types.Hash) *record {
	for _, r := range m.recs {
		for _, a := range r.alias {
			if a == h {
				return r
			}
		}
	}
	return nil
}

func (o *op) kind() string {
	switch o.method {
	case "Pledge", "Stake":
		return "stake"
	case "StakeForQuota", "StakeForQuotaWithCallback":
		return "stakeId"
	case "AgentPledge", "DelegateStake":
		return "delegate"
	case "CancelPledge", "CancelStake":
		return "cancel"
	case "AgentCancelPledge", "CancelDelegateStake":
		return "cancelDelegate"
	}
	return "cancelId"
}

func (o *op) data() []byte {
	var d []byte
	var err error
	switch o.method {
	case "Pledge", "Stake", "StakeForQuota":
		d, err = cabi.ABIQuota.PackMethod(o.method, o.ben)
	case "StakeForQuotaWithCallback":
		d, err = cabi.ABIQuota.PackMethod(o.method, o.ben, o.height)
	case "AgentPledge", "DelegateStake":
		d, err = cabi.ABIQuota.PackMethod(o.method, o.owner, o.ben, o.bid, o.height)
	case "CancelPledge", "CancelStake":
		d, err = cabi.ABIQuota.PackMethod(o.method, o.ben, o.want)
	case "AgentCancelPledge", "CancelDelegateStake":
		d, err = cabi.ABIQuota.PackMethod(o.method, o.owner, o.ben, o.want, o.bid)
	default:
		d, err = cabi.ABIQuota.PackMethod(o.method, o.id)
	}
	if err != nil {
		panic(err)
	}
	return d
}

// accepted says whether the send itself has to be accepted.
func (o *op) accepted(balance *big.Int) bool {
	if o.garbled {
		return false
	}
	if o.amount.Cmp(balance) > 0 {
		return false
	}
	switch o.kind() {
	case "stake", "stakeId", "delegate":
		if o.token != memchain.Vite || o.amount.Cmp(minStake) < 0 {
			return false
		}
		if o.method == "StakeForQuotaWithCallback" || o.kind() == "delegate" {
			return o.height >= lock && o.height <= maxLock
		}
		return true
	case "cancel", "cancelDelegate":
		return o.amount.Sign() == 0 && o.want.Cmp(minStake) >= 0
	}
	return o.amount.Sign() == 0
}

// receive applies the call to the model; pay is what has to be returned to the sender.
func (m *model) receive(o *op, now uint64) (ok bool, pay *big.Int) {
	switch o.kind() {
	case "stake":
		if r := m.find(o.sender, o.ben, false, types.ZERO_ADDRESS, 0); r != nil {
			r.amount = new(big.Int).Add(r.amount, o.amount)
			r.exp = now + lock
			r.id = nil
		} else {
			m.recs = append(m.recs, &record{owner: o.sender, ben: o.ben, amount: o.amount, exp: now + lock})
		}
		return true, new(big.Int)
	case "stakeId":
		h := uint64(lock)
		if o.method == "StakeForQuotaWithCallback" {
			h = o.height
		}
		id := o.send.Hash
		m.recs = append(m.recs, &record{owner: o.sender, ben: o.ben, amount: o.amount, exp: now + h, id: &id, alias: []types.Hash{id}})
		return true, new(big.Int)
	case "delegate":
		if r := m.find(o.owner, o.ben, true, o.sender, o.bid); r != nil {
			r.amount = new(big.Int).Add(r.amount, o.amount)
			if now+o.height > r.exp {
				r.exp = now + o.height
			}
		} else {
			m.recs = append(m.recs, &record{owner: o.owner, ben: o.ben, amount: o.amount, exp: now + o.height, delegated: true, delegate: o.sender, bid: o.bid})
		}
		return true, new(big.Int)
	case "cancel", "cancelDelegate":
		var r *record
		if o.kind() == "cancel" {
			r = m.find(o.sender, o.ben, false, types.ZERO_ADDRESS, 0)
		} else {
			r = m.find(o.owner, o.ben, true, o.sender, o.bid)
		}
		if r == nil || r.exp > now || r.id != nil || r.amount.Cmp(o.want) < 0 {
			return false, nil
		}
		left := new(big.Int).Sub(r.amount, o.want)
		if left.Sign() > 0 && left.Cmp(minStake) < 0 {
			return false, nil
		}
		r.amount = left
		if left.Sign() == 0 {
			m.remove(r)
		}
		return true, o.want
	}
	r := m.byAlias(o.id)
	if r == nil || r.owner != o.sender || r.exp > now {
		return false, nil
	}
	m.remove(r)
	return true, r.amount
}

func hasCallback(method string) bool {
	switch method {
	case "Pledge", "Stake", "CancelPledge", "CancelStake", "StakeForQuota", "CancelQuotaStaking":
		return false
	}
	return true
}

// callback is the notification a caller of a callback method has to get.
func callback(o *op, ok bool) []byte {
	var d []byte
	var err error
	switch o.method {
	case "AgentPledge", "DelegateStake":
		d, err = cabi.ABIQuota.PackCallback(o.method, o.owner, o.ben, o.amount, o.bid, ok)
	case "AgentCancelPledge", "CancelDelegateStake":
		d, err = cabi.ABIQuota.PackCallback(o.method, o.owner, o.ben, o.want, o.bid, ok)
	case "StakeForQuotaWithCallback":
		d, err = cabi.ABIQuota.PackCallback(o.method, o.send.Hash, ok)
	case "CancelQuotaStakingWithCallback":
		d, err = cabi.ABIQuota.PackCallback(o.method, o.id, ok)
	}
	if err != nil {
		panic(err)
	}
	return d
}

type world struct {
	rt      *rapid.T
	c       *memchain.Chain
	m       *model
	pending []*op
	ids     []types.Hash
	log     []string
}

func (w *world) drawOp() *op {
	rt := w.rt
	u := func(l string) types.Address { return memchain.User(rapid.IntRange(0, users-1).Draw(rt, l)) }
	o := &op{sender: u("sender"), owner: u("owner"), ben: u("ben"), amount: new(big.Int), want: new(big.Int), token: memchain.Vite,
		bid: uint8(rapid.IntRange(0, 2).Draw(rt, "bid"))}
	if rapid.IntRange(0, 9).Draw(rt, "far") == 0 {
		o.ben = memchain.User(40)
	}
	amt := func(l string) *big.Int {
		switch rapid.IntRange(0, 9).Draw(rt, l) {
		case 0:
			return new(big.Int).Sub(minStake, big.NewInt(1))
		case 1, 2:
			return new(big.Int).Set(minStake)
		case 3:
			return new(big.Int).Add(minStake, big.NewInt(1))
		case 4:
			return memchain.Attov(20000000)
		case 5:
			return gens.Big(90).Draw(rt, l+"b")
		}
		return memchain.Attov(int64(rapid.IntRange(134, 1000).Draw(rt, l+"n")))
	}
	var live []*record
	live = w.m.recs
	cancelling := len(live) > 0 && rapid.IntRange(0, 99).Draw(rt, "cancel") < 45
	if !cancelling {
		o.method = rapid.SampledFrom([]string{"Pledge", "Stake", "StakeForQuota", "StakeForQuotaWithCallback", "AgentPledge", "DelegateStake"}).Draw(rt, "m")
		o.amount = amt("amt")
		o.height = rapid.SampledFrom([]uint64{lock - 1, lock, lock, lock + 1, 700, 1500, maxLock, maxLock + 1, ^uint64(0), 0}).Draw(rt, "h")
		if rapid.IntRange(0, 14).Draw(rt, "tok") == 0 {
			o.token = memchain.Token(0)
		}
	} else {
		r := live[rapid.IntRange(0, len(live)-1).Draw(rt, "rec")]
		o.owner, o.ben, o.bid = r.owner, r.ben, r.bid
		switch {
		case r.delegated:
			o.method = rapid.SampledFrom([]string{"AgentCancelPledge", "CancelDelegateStake"}).Draw(rt, "m")
			o.sender = r.delegate
		case len(r.alias) > 0 && rapid.IntRange(0, 3).Draw(rt, "old") > 0:
			o.method = rapid.SampledFrom([]string{"CancelQuotaStaking", "CancelQuotaStakingWithCallback"}).Draw(rt, "m")
			o.sender = r.owner
			o.id = r.alias[0]
		default:
			o.method = rapid.SampledFrom([]string{"CancelPledge", "CancelStake"}).Draw(rt, "m")
			o.sender = r.owner
		}
		switch rapid.IntRange(0, 5).Draw(rt, "want") {
		case 0, 1, 2:
			o.want = new(big.Int).Set(r.amount)
		case 3:
			o.want = new(big.Int).Sub(r.amount, minStake)
			if o.want.Sign() < 0 {
				o.want = new(big.Int)
			}
		case 4:
			o.want = new(big.Int).Add(r.amount, big.NewInt(int64(rapid.IntRange(0, 1).Draw(rt, "over"))))
		default:
			o.want = amt("wamt")
		}
		// wrong requests
		switch rapid.IntRange(0, 11).Draw(rt, "wrong") {
		case 0:
			o.sender = u("thief")
		case 1:
			o.owner = u("thief2")
		case 2:
			o.ben = u("wben")
		case 3:
			o.bid ^= 1
		case 4:
			if len(w.ids) > 0 {
				o.id = w.ids[rapid.IntRange(0, len(w.ids)-1).Draw(rt, "oldid")]
			} else {
				o.id = gens.Hash().Draw(rt, "rid")
			}
		case 5:
			o.amount = big.NewInt(1)
		}
	}
	if rapid.IntRange(0, 29).Draw(rt, "garble") == 0 {
		o.garbled = true
	}
	return o
}

func (w *world) fail(f string, a ...interface{}) {
	w.rt.Helper()
	w.rt.Fatalf(f+"\nhistory:\n%s", append(a, fmt.Sprint(w.log))...)
}

func (w *world) submit(c *vlib.C) {
	o := w.drawOp()
	data := o.data()
	if o.garbled {
		switch rapid.IntRange(0, 2).Draw(w.rt, "gk") {
		case 0:
			data = data[:rapid.IntRange(1, len(data)-1).Draw(w.rt, "cut")]
		case 1:
			data = append([]byte{}, data...)
			data[rapid.IntRange(0, 3).Draw(w.rt, "sel")] ^= 0xff
		default: // trailing padding is ignored
			data = append(append([]byte{}, data...), make([]byte, 32)...)
			o.garbled = false
		}
	}
	bal, _ := w.c.GetBalance(o.sender, o.token)
	r := w.c.Send(memchain.Tx{From: o.sender, To: types.AddressQuota, Amount: o.amount, Token: o.token, Data: data})
	w.log = append(w.log, fmt.Sprintf("h%d send %s from %x owner %x ben %x bid %d height %d amount %v want %v id %x garbled %v: %v\n", w.c.Height(), o.method, o.sender[:3], o.owner[:3], o.ben[:3], o.bid, o.height, o.amount, o.want, o.id[:4], o.garbled, r.Err))
	if r.Panic != nil {
		w.fail("send panicked: %v", r.Panic)
	}
	got := r.Err == nil && r.Block != nil
	if got != o.accepted(bal) {
		if o.garbled && got { // a longer or otherwise still decodable call: judge by what it says
			w.fail("undecodable call %x was accepted", data)
		}
		w.fail("%s: accepted %v, expected %v (error %v)", o.method, got, !got, r.Err)
	}
	c.Label(fmt.Sprintf("send %s accepted=%v", o.kind(), got))
	if got {
		o.send = r.Block
		w.pending = append(w.pending, o)
		if o.kind() == "stakeId" {
			w.ids = append(w.ids, r.Block.Hash)
		}
	}
}

func (w *world) receive(c *vlib.C) {
	if len(w.pending) == 0 {
		return
	}
	i := 0
	if len(w.pending) > 1 {
		i = rapid.IntRange(0, len(w.pending)-1).Draw(w.rt, "which")
	}
	o := w.pending[i]
	w.pending = append(w.pending[:i:i], w.pending[i+1:]...)
	now := w.c.ConfirmedAt[o.send.Hash]
	if now == 0 {
		now = w.c.Height()
	}
	bal0, _ := w.c.GetBalance(types.AddressQuota, memchain.Vite)
	r := w.c.Receive(o.send)
	if r.Panic != nil || r.Block == nil {
		w.fail("receive of %s: panic %v err %v", o.method, r.Panic, r.Err)
	}
	ok, pay := w.m.receive(o, now)
	w.log = append(w.log, fmt.Sprintf("h%d now %d receive %s from %x: expected %v, err %v\n", w.c.Height(), now, o.method, o.sender[:3], ok, r.Err))
	if (r.Err == nil) != ok {
		w.fail("%s by %v: succeeded %v, the rules say %v (%v)", o.method, o.sender, r.Err == nil, ok, r.Err)
	}
	if n := len(r.Block.Data); n != 33 || (r.Block.Data[32] == 0) != ok {
		w.fail("%s: receipt %x does not say success=%v", o.method, r.Block.Data, ok)
	}
	c.Label(fmt.Sprintf("receive %s ok=%v", o.kind(), ok))
	// money and notification to the caller
	back := pay
	var data []byte
	needed := false
	if !ok {
		back = o.amount
	}
	if hasCallback(o.method) {
		data, needed = callback(o, ok), true
	}
	if back.Sign() > 0 {
		needed = true
	}
	if !needed {
		if len(r.Block.SendBlockList) != 0 {
			w.fail("%s: unexpected triggered sends %v", o.method, r.Block.SendBlockList)
		}
	} else {
		if len(r.Block.SendBlockList) != 1 {
			w.fail("%s: %d triggered sends, expected 1", o.method, len(r.Block.SendBlockList))
		}
		s := r.Block.SendBlockList[0]
		if s.ToAddress != o.sender || s.Amount.Cmp(back) != 0 || s.TokenId != memchain.Vite || !bytes.Equal(s.Data, data) {
			w.fail("%s: triggered send to %v of %v data %x, expected %v to %v data %x", o.method, s.ToAddress, s.Amount, s.Data, back, o.sender, data)
		}
		if rr := w.c.Receive(s); rr.Err != nil || rr.Panic != nil {
			w.fail("%v cannot receive the payment: %v %v", o.sender, rr.Err, rr.Panic)
		}
	}
	bal1, _ := w.c.GetBalance(types.AddressQuota, memchain.Vite)
	want := new(big.Int).Add(bal0, o.amount)
	want.Sub(want, back)
	if bal1.Cmp(want) != 0 {
		w.fail("%s: contract holds %v, expected %v", o.method, bal1, want)
	}
	if ok && pay.Sign() > 0 {
		c.NonTrivial(w.log)
		c.Sample("%v", w.log)
	}
}

// check compares every observable of the contract with the model.
func (w *world) check() {
	st := w.c.Storage(types.AddressQuota)
	sum := new(big.Int)
	ben := map[types.Address]*big.Int{}
	for _, r := range w.m.recs {
		sum.Add(sum, r.amount)
		if ben[r.ben] == nil {
			ben[r.ben] = new(big.Int)
		}
		ben[r.ben].Add(ben[r.ben], r.amount)
	}
	if bal, _ := w.c.GetBalance(types.AddressQuota, memchain.Vite); bal.Cmp(sum) != 0 {
		w.fail("the contract holds %v, live stakes sum to %v", bal, sum)
	}
	for i := 0; i <= users; i++ {
		a := memchain.User(i)
		if i == users {
			a = memchain.User(40)
		}
		exp := ben[a]
		if exp == nil {
			exp = new(big.Int)
		}
		got, err := cabi.GetStakeBeneficialAmount(st, a)
		if err != nil || got.Cmp(exp) != 0 {
			w.fail("beneficial amount of %v is %v (%v), stakes for it sum to %v", a, got, err, exp)
		}
		list, total, err := cabi.GetStakeInfoList(st, a)
		if err != nil {
			w.fail("list: %v", err)
		}
		var mine []*record
		mt := new(big.Int)
		for _, r := range w.m.recs {
			if r.owner == a && !r.delegated {
				mine = append(mine, r)
				mt.Add(mt, r.amount)
			}
		}
		if len(mine) != len(list) || total.Cmp(mt) != 0 {
			w.fail("%v has %d stakes of %v listed, expected %d of %v", a, len(list), total, len(mine), mt)
		}
		for k, r := range mine {
			w.same(list[k], r, "list")
		}
	}
	for _, r := range w.m.recs {
		if r.delegated {
			got, err := cabi.GetStakeInfo(st, r.owner, r.ben, r.delegate, true, r.bid)
			if err != nil || got == nil {
				w.fail("delegated stake %+v not found: %v", r, err)
			}
			w.same(got, r, "delegated")
		}
		for _, a := range r.alias {
			got, err := cabi.GetStakeInfoById(st, a.Bytes())
			if err != nil {
				w.fail("stake %x not found by id: %v", a, err)
			}
			w.same(got, r, "by id")
		}
	}
	// pages enumerate all records
	page, _, err := cabi.GetStakeListByPage(st, nil, 1000)
	if err != nil || len(page) != len(w.m.recs) {
		w.fail("page lists %d stakes (%v), expected %d", len(page), err, len(w.m.recs))
	}
}

func (w *world) same(g *types.StakeInfo, r *record, what string) {
	if g.Amount.Cmp(r.amount) != 0 || g.ExpirationHeight != r.exp || g.Beneficiary != r.ben || g.IsDelegated != r.delegated || g.DelegateAddress != r.delegate || g.Bid != r.bid || (g.Id == nil) != (r.id == nil) || g.Id != nil && *g.Id != *r.id {
		w.fail("%s: stake is %+v, expected %+v", what, *g, *r)
	}
}

func TestHistories(t *testing.T) {
	memchain.Init()
	cfg := memchain.Genesis(memchain.GenesisOpt{Users: users, Tokens: 1, Stake: memchain.Attov(1000)})
	vlib.Check(t, vlib.Opts{Rule: "histories of stake, delegated stake, id stake and cancel calls by 4 users (valid and invalid ones), with snapshots and lock expiry in between; non-trivial: at least one stake was really returned", Quick: 2500, Thorough: 60000},
		func(rt *rapid.T, c *vlib.C) {
			w := &world{rt: rt, c: memchain.New(cfg), m: &model{}}
			w.c.StakeOverride = func(types.Address) *big.Int { return memchain.Attov(10000000) }
			for i := 0; i < users; i++ {
				u := memchain.User(i)
				w.m.recs = append(w.m.recs, &record{owner: u, ben: u, amount: memchain.Attov(1000), exp: 1})
			}
			w.check()
			n := rapid.IntRange(5, 60).Draw(rt, "n")
			for i := 0; i < n; i++ {
				switch rapid.IntRange(0, 9).Draw(rt, "step") {
				case 0, 1, 2, 3, 4:
					w.submit(c)
				case 5:
					w.c.Tick(1)
				case 6:
					w.c.Tick(rapid.SampledFrom([]int{1, 100, 597, 598, 599, 600, 601, 700, 900}).Draw(rt, "ticks"))
				}
				if rapid.IntRange(0, 3).Draw(rt, "rcv") > 0 {
					w.receive(c)
				}
				w.check()
			}
			for len(w.pending) > 0 {
				w.receive(c)
			}
			w.check()
		})
}
