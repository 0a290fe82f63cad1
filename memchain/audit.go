package memchain

import (
	"fmt"
	"math/big"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
)

type pair struct {
	a types.Address
	t types.TokenTypeId
}

// Audit follows the money: it keeps its own balances, computed from the blocks
// alone (amounts, fees, result flags), and compares them with the ledger's.
type Audit struct {
	c        *Chain
	bal      map[pair]*big.Int
	InFlight map[types.TokenTypeId]*big.Int
	Minted   map[types.TokenTypeId]*big.Int
	Burned   map[types.TokenTypeId]*big.Int // burned tokens and consumed fees
	Initial  map[types.TokenTypeId]*big.Int
	burn     map[string]bool // selectors of the asset contract's burn methods
}

func NewAudit(c *Chain, burnSelectors ...[]byte) *Audit {
	a := &Audit{c: c, bal: map[pair]*big.Int{}, InFlight: map[types.TokenTypeId]*big.Int{}, Minted: map[types.TokenTypeId]*big.Int{},
		Burned: map[types.TokenTypeId]*big.Int{}, Initial: map[types.TokenTypeId]*big.Int{}, burn: map[string]bool{}}
	for _, s := range burnSelectors {
		a.burn[string(s[:4])] = true
	}
	for addr, x := range c.Accts {
		for t, v := range x.Balance {
			a.bal[pair{addr, t}] = new(big.Int).Set(v)
		}
	}
	for t, v := range c.Totals() {
		a.Initial[t] = v
	}
	return a
}

func inc(m map[types.TokenTypeId]*big.Int, t types.TokenTypeId, v *big.Int) {
	if v == nil || v.Sign() == 0 {
		return
	}
	if m[t] == nil {
		m[t] = new(big.Int)
	}
	m[t].Add(m[t], v)
}

func (a *Audit) add(addr types.Address, t types.TokenTypeId, v *big.Int, sign int) error {
	if v == nil || v.Sign() == 0 {
		return nil
	}
	if v.Sign() < 0 {
		return fmt.Errorf("negative amount %v in a block", v)
	}
	p := pair{addr, t}
	if a.bal[p] == nil {
		a.bal[p] = new(big.Int)
	}
	if sign > 0 {
		a.bal[p].Add(a.bal[p], v)
	} else {
		a.bal[p].Sub(a.bal[p], v)
	}
	if a.bal[p].Sign() < 0 {
		return fmt.Errorf("%s spends more %s than it has (%v short)", addr, t, a.bal[p])
	}
	return nil
}

func neg(x *big.Int) *big.Int { return new(big.Int).Neg(x) }

func (a *Audit) sent(s *core.AccountBlock) error {
	if s.BlockType == core.BlockTypeSendReward { // mints
		if s.AccountAddress != types.AddressGovernance && s.AccountAddress != types.AddressAsset {
			return fmt.Errorf("%s created tokens", s.AccountAddress)
		}
		inc(a.Minted, s.TokenId, s.Amount)
		inc(a.InFlight, s.TokenId, s.Amount)
		return nil
	}
	if err := a.add(s.AccountAddress, s.TokenId, s.Amount, -1); err != nil {
		return err
	}
	if err := a.add(s.AccountAddress, Vite, s.Fee, -1); err != nil {
		return err
	}
	inc(a.InFlight, s.TokenId, s.Amount)
	inc(a.InFlight, Vite, s.Fee)
	return nil
}

// Failed tells from the block whether a contract's receive failed.
func Failed(r *core.AccountBlock) bool {
	return r.BlockType == core.BlockTypeReceiveError || (types.IsContractAddr(r.AccountAddress) && len(r.Data) == 33 && r.Data[32] != 0)
}

// Block books one inserted block (from: the send a receive block answers) and compares the ledger.
func (a *Audit) Block(b, from *core.AccountBlock) error {
	if b.IsSendBlock() {
		if err := a.sent(b); err != nil {
			return err
		}
	} else {
		inc(a.InFlight, from.TokenId, neg(from.Amount))
		failed := Failed(b)
		depth := failed && len(b.Data) == 33 && b.Data[32] == 2
		if err := a.add(b.AccountAddress, from.TokenId, from.Amount, 1); err != nil {
			return err
		}
		fee := from.Fee
		if fee == nil {
			fee = new(big.Int)
		}
		inc(a.InFlight, Vite, neg(fee))
		if failed && !depth { // everything goes back to the sender, the fee of a built-in call too
			want := map[types.TokenTypeId]*big.Int{}
			inc(want, from.TokenId, from.Amount)
			if from.BlockType != core.BlockTypeSendCreate {
				inc(want, Vite, fee)
				if err := a.add(b.AccountAddress, Vite, fee, 1); err != nil {
					return err
				}
			} else {
				inc(a.Burned, Vite, fee)
			}
			for _, s := range b.SendBlockList {
				if s.ToAddress != from.AccountAddress {
					return fmt.Errorf("a failed call sends %v to %s, not to the caller", s.Amount, s.ToAddress)
				}
				if s.BlockType == core.BlockTypeSendReward {
					return fmt.Errorf("a failed call mints")
				}
				inc(want, s.TokenId, neg(s.Amount))
			}
			for t, v := range want {
				if v.Sign() != 0 {
					return fmt.Errorf("a failed call returned the wrong amount of %s: %v missing", t, v)
				}
			}
		} else {
			inc(a.Burned, Vite, fee)
		}
		if depth && len(b.SendBlockList) > 0 {
			return fmt.Errorf("a receive over the depth limit sends blocks")
		}
		if !failed && b.AccountAddress == types.AddressAsset && len(from.Data) >= 4 && a.burn[string(from.Data[:4])] && from.BlockType == core.BlockTypeSendCall {
			if err := a.add(b.AccountAddress, from.TokenId, from.Amount, -1); err != nil {
				return err
			}
			inc(a.Burned, from.TokenId, from.Amount)
		}
		for _, s := range b.SendBlockList {
			if s.AccountAddress != b.AccountAddress {
				return fmt.Errorf("%s sends in the name of %s", b.AccountAddress, s.AccountAddress)
			}
			if err := a.sent(s); err != nil {
				return err
			}
		}
	}
	// the ledger agrees for every account that a block could have touched, and nothing else moved
	return a.Compare()
}

// Compare checks the ledger's balances against the books, and the totals.
func (a *Audit) Compare() error {
	seen := 0
	tot := map[types.TokenTypeId]*big.Int{}
	for addr, x := range a.c.Accts {
		for t, v := range x.Balance {
			if v.Sign() < 0 {
				return fmt.Errorf("balance of %s in %s is negative: %v", addr, t, v)
			}
			w := a.bal[pair{addr, t}]
			if w == nil {
				w = new(big.Int)
			} else {
				seen++
			}
			if v.Cmp(w) != 0 {
				return fmt.Errorf("balance of %s in %s is %v, the blocks account for %v", addr, t, v, w)
			}
			inc(tot, t, v)
		}
	}
	for p, w := range a.bal {
		if v := a.c.Acct(p.a).Balance[p.t]; w.Sign() != 0 && (v == nil || v.Cmp(w) != 0) {
			return fmt.Errorf("balance of %s in %s is %v, the blocks account for %v", p.a, p.t, v, w)
		}
	}
	fl := map[types.TokenTypeId]*big.Int{}
	for _, l := range a.c.Onroad {
		for _, s := range l {
			inc(fl, s.TokenId, s.Amount)
			inc(fl, Vite, s.Fee)
		}
	}
	keys := map[types.TokenTypeId]bool{}
	for _, m := range []map[types.TokenTypeId]*big.Int{tot, fl, a.Minted, a.Burned, a.Initial, a.InFlight} {
		for t := range m {
			keys[t] = true
		}
	}
	g := func(m map[types.TokenTypeId]*big.Int, t types.TokenTypeId) *big.Int {
		if m[t] == nil {
			return new(big.Int)
		}
		return m[t]
	}
	for t := range keys {
		l := new(big.Int).Add(g(tot, t), g(fl, t))
		r := new(big.Int).Add(g(a.Initial, t), g(a.Minted, t))
		r.Sub(r, g(a.Burned, t))
		if l.Cmp(r) != 0 {
			return fmt.Errorf("token %s: balances %v + in flight %v differ from initial %v + minted %v - burned %v", t, g(tot, t), g(fl, t), g(a.Initial, t), g(a.Minted, t), g(a.Burned, t))
		}
		if g(fl, t).Cmp(g(a.InFlight, t)) != 0 {
			return fmt.Errorf("token %s: %v in flight, the blocks account for %v", t, g(fl, t), g(a.InFlight, t))
		}
	}
	return nil
}
