package c08

import (
	"bytes"
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/contracts/dex"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/calls"
	"verif/memchain"
	"verif/refvm"
	"verif/vlib"
)

const users = 4

type world struct {
	*calls.World
	rt        *rapid.T
	c         *vlib.C
	audit     *memchain.Audit
	contracts []types.Address
	trace     []string
	ops       map[string]int
	lowQuota  bool
}

func (w *world) fail(format string, args ...interface{}) {
	s := ""
	for _, t := range w.trace {
		s += "\n  " + t
	}
	w.rt.Fatalf("%s\nhistory:%s", fmt.Sprintf(format, args...), s)
}

func (w *world) logf(format string, args ...interface{}) {
	w.trace = append(w.trace, fmt.Sprintf(format, args...))
}

// program draws contract code that mostly moves money, calls others and sometimes fails.
func (w *world) program() []byte {
	targets := append(append([]types.Address{}, w.Users...), w.contracts...)
	targets = append(targets, w.Users[0], types.AddressAsset)
	g := &refvm.Gen{T: w.rt, A: &refvm.Asm{}, Users: targets, Tokens: w.Tokens, Calls: true, State: true, Cost: 900000}
	n := rapid.IntRange(1, 5).Draw(w.rt, "n")
	for i := 0; i < n; i++ {
		if rapid.IntRange(0, 2).Draw(w.rt, "k") == 0 {
			g.Stmt(2)
			continue
		}
		// CALL to token amount offset size
		g.A.PushN(int64(rapid.IntRange(0, 8).Draw(w.rt, "size")))
		g.A.PushN(0)
		if rapid.IntRange(0, 4).Draw(w.rt, "own") == 0 {
			g.A.Op(0x34) // all it was sent
		} else {
			g.A.PushN(int64(rapid.IntRange(0, 300).Draw(w.rt, "amount")))
		}
		if rapid.IntRange(0, 3).Draw(w.rt, "tok") == 0 {
			g.A.Op(0x46) // the token it was sent
		} else {
			g.A.Push(new(big.Int).SetBytes(rapid.SampledFrom(w.Tokens).Draw(w.rt, "token").Bytes()))
		}
		if rapid.IntRange(0, 2).Draw(w.rt, "to") == 0 {
			g.A.Op(0x33) // the caller
		} else {
			g.A.Push(new(big.Int).SetBytes(rapid.SampledFrom(targets).Draw(w.rt, "target").Bytes()))
		}
		g.A.Op(0xf1)
	}
	switch rapid.IntRange(0, 5).Draw(w.rt, "end") {
	case 0:
		g.A.PushN(0)
		g.A.PushN(0)
		g.A.Op(0xfd)
	case 1:
		g.A.Op(0xfe)
	}
	return g.A.Finish()
}

func ctor(runtime []byte, pre []byte) []byte {
	a := &refvm.Asm{}
	a.Op(pre...)
	n := len(runtime)
	off := len(a.Code) + 3 + 1 + 3 + 2 + 1 + 2 + 1
	a.Op(0x61, byte(n>>8), byte(n), 0x80, 0x61, byte(off>>8), byte(off), 0x60, 0, 0x39, 0x60, 0, 0xf3)
	a.Op(runtime...)
	return a.Code
}

func burnSelectors() [][]byte {
	var l [][]byte
	l = append(l, cabi.ABIAsset.Methods["Burn"].Id(), cabi.ABIAsset.Methods["Burn2"].Id())
	return l
}

func snap(a *memchain.Account) string {
	return fmt.Sprint(len(a.Storage), a.Balance, a.Code, len(a.Blocks))
}

func (w *world) send(tx memchain.Tx, what string) *core.AccountBlock {
	ch := w.Chain
	bal := ch.Acct(tx.From).Balance[tx.Token]
	if bal == nil {
		bal = new(big.Int)
	}
	bal = new(big.Int).Set(bal)
	vite := new(big.Int)
	if v := ch.Acct(tx.From).Balance[memchain.Vite]; v != nil {
		vite.Set(v)
	}
	before := snap(ch.Acct(tx.From))
	r := ch.Send(tx)
	w.logf("%s sends %v %s to %s data %x (%s): err=%v", tx.From, tx.Amount, tx.Token, tx.To, tx.Data, what, r.Err)
	if r.Panic != nil {
		w.fail("send panicked: %v", r.Panic)
	}
	amount := tx.Amount
	if amount == nil {
		amount = new(big.Int)
	}
	if r.Block == nil {
		if after := snap(ch.Acct(tx.From)); after != before {
			w.fail("a refused send changed the account: %s -> %s", before, after)
		}
		// a plain transfer that is covered is never refused for lack of funds
		if r.Err == util.ErrInsufficientBalance && amount.Cmp(bal) <= 0 && !tx.Create && !types.IsBuiltinContractAddr(tx.To) {
			w.fail("a covered transfer of %v (balance %v) is refused", amount, bal)
		}
		w.ops["refused"]++
		return nil
	}
	b := r.Block
	if amount.Cmp(bal) > 0 {
		w.fail("a send of %v was accepted with a balance of %v", amount, bal)
	}
	if b.Amount.Cmp(amount) != 0 || b.TokenId != tx.Token {
		w.fail("the send block carries %v %s instead of %v %s", b.Amount, b.TokenId, amount, tx.Token)
	}
	fee := b.Fee
	if fee == nil {
		fee = new(big.Int)
	}
	wantFee := new(big.Int)
	if tx.Create {
		wantFee = memchain.Attov(10)
	} else if tx.To == types.AddressAsset && len(tx.Data) >= 4 && (bytes.Equal(tx.Data[:4], cabi.ABIAsset.Methods["Mint"].Id()) || bytes.Equal(tx.Data[:4], cabi.ABIAsset.Methods["IssueToken"].Id())) {
		wantFee = memchain.Attov(1000)
	}
	if fee.Cmp(wantFee) != 0 {
		w.fail("the fee is %v, expected %v", fee, wantFee)
	}
	need := new(big.Int).Set(fee)
	if tx.Token == memchain.Vite {
		need.Add(need, amount)
	}
	if need.Cmp(vite) > 0 {
		w.fail("a send costing %v VITE was accepted with %v VITE", need, vite)
	}
	if err := w.audit.Block(b, nil); err != nil {
		w.fail("%v", err)
	}
	w.Hashes = append(w.Hashes, b.Hash)
	w.ops["sent"]++
	return b
}

func (w *world) receive(from *core.AccountBlock) {
	ch := w.Chain
	if ch.Acct(from.ToAddress).Meta != nil && len(ch.Acct(from.ToAddress).Blocks) == 0 { // a contract's first block answers its creation
		for _, s := range ch.Onroad[from.ToAddress] {
			if s.BlockType == core.BlockTypeSendCreate {
				from = s
				break
			}
		}
	}
	acct := ch.Acct(from.ToAddress)
	store := fmt.Sprint(acct.Storage)
	r := ch.Receive(from)
	if r.Panic != nil && (from.ToAddress == types.AddressDexFund || from.ToAddress == types.AddressDexTrade) {
		// the exchange stops on unusual states by panicking; the node's generator recovers and no block results
		w.c.Label(fmt.Sprintf("exchange stopped by panic: %v", r.Panic))
		w.logf("receive by %s: panic %v", from.ToAddress, r.Panic)
		if err := w.audit.Compare(); err != nil {
			w.fail("%v", err)
		}
		return
	}
	if r.Panic != nil {
		w.fail("receive of %s (%v %s from %s to %s data %x) panicked: %v", from.Hash, from.Amount, from.TokenId, from.AccountAddress, from.ToAddress, from.Data, r.Panic)
	}
	if r.Block == nil {
		w.logf("receive by %s of %v from %s: no block, retry=%v err=%v", from.ToAddress, from.Amount, from.AccountAddress, r.Retry, r.Err)
		if err := w.audit.Compare(); err != nil {
			w.fail("%v", err)
		}
		w.ops["retry"]++
		if !r.Retry {
			w.c.Label("no block and no retry: " + fmt.Sprint(r.Err))
		} else {
			w.c.Label("retry: " + fmt.Sprint(r.Err))
		}
		return
	}
	w.logf("receive by %s of %v %s from %s data %x: err=%v sends=%d", from.ToAddress, from.Amount, from.TokenId, from.AccountAddress, from.Data, r.Err, len(r.Block.SendBlockList))
	if err := w.audit.Block(r.Block, from); err != nil {
		w.fail("%v", err)
	}
	if memchain.Failed(r.Block) {
		if s := fmt.Sprint(acct.Storage); s != store {
			w.fail("a failed receive changed storage")
		}
		w.ops["failed"]++
	} else if len(r.Block.SendBlockList) > 0 {
		w.ops["forwarding"]++
	}
	for _, s := range r.Block.SendBlockList {
		if s.BlockType == core.BlockTypeSendReward && from.BlockType == core.BlockTypeSendCall {
			w.ops["mint"]++
		}
		w.Hashes = append(w.Hashes, s.Hash)
	}
	if from.ToAddress == types.AddressAsset && r.Err == nil { // new tokens join the pool
		for _, s := range r.Block.SendBlockList {
			if s.BlockType == core.BlockTypeSendReward && len(w.Tokens) < 7 {
				w.Tokens = append(w.Tokens, s.TokenId)
			}
		}
	}
}

func TestHistories(t *testing.T) {
	memchain.Init()
	vlib.Check(t, vlib.Opts{Rule: "a history of transfers, contract creations, contract calls, built-in contract calls (any method) and receives over 4 users, 3 tokens and generated contracts; after each block the ledger's balances and totals are recomputed from the blocks alone; non-trivial: at least one refund or failed receive and one contract-made send happened",
		Quick: 2500, Thorough: 20000, Steps: 60}, func(rt *rapid.T, c *vlib.C) {
		dex.InitFundOwner(memchain.User(0))
		ch := memchain.New(memchain.Genesis(memchain.GenesisOpt{Users: users, Tokens: 2, Sbps: 2, Balance: memchain.Attov(3000000)}))
		ch.Reader = calls.Reader()
		w := &world{World: &calls.World{Chain: ch, Tokens: []types.TokenTypeId{memchain.Vite, memchain.Token(0), memchain.Token(1)}, Names: []string{"s1", "s2", "alpha", "Tok", "NEW", ""}},
			rt: rt, c: c, ops: map[string]int{}}
		for i := 0; i < users; i++ {
			w.Users = append(w.Users, memchain.User(i))
		}
		w.Users = append(w.Users, memchain.User(50)) // owns nothing at first
		w.lowQuota = rapid.IntRange(0, 3).Draw(rt, "low quota") == 0
		ch.StakeOverride = func(a types.Address) *big.Int {
			if w.lowQuota && types.IsContractAddr(a) && !types.IsBuiltinContractAddr(a) {
				return memchain.Attov(3000)
			}
			return memchain.Attov(1000000000)
		}
		w.audit = memchain.NewAudit(ch, burnSelectors()...)
		if rapid.IntRange(0, 3).Draw(rt, "dex ready") > 0 {
			o := memchain.User(0)
			d, err := cabi.ABIDexFund.PackMethod("DexAdminConfig", uint8(2|4|16|32), o, o, o, false, o, o)
			if err != nil {
				rt.Fatal(err)
			}
			if b := w.send(memchain.Tx{From: o, To: types.AddressDexFund, Token: memchain.Vite, Data: d}, "setup"); b != nil {
				w.receive(b)
			}
			d, _ = cabi.ABIDexFund.PackMethod("NotifyTime", ch.Latest().Timestamp.Unix())
			if b := w.send(memchain.Tx{From: o, To: types.AddressDexFund, Token: memchain.Vite, Data: d}, "setup"); b != nil {
				w.receive(b)
			}
			w.ops = map[string]int{}
		}
		user := rapid.SampledFrom(w.Users)
		focus := rapid.IntRange(0, 5).Draw(rt, "focus")
		bal := func(a types.Address, t types.TokenTypeId) *big.Int {
			if b := ch.Acct(a).Balance[t]; b != nil {
				return b
			}
			return new(big.Int)
		}
		pick := func() (types.Address, types.TokenTypeId, *big.Int) {
			from := user.Draw(rt, "from")
			tok := rapid.SampledFrom(w.Tokens).Draw(rt, "token")
			return from, tok, w.Amount(rt, bal(from, tok))
		}
		small := func() (types.Address, types.TokenTypeId, *big.Int) {
			from := user.Draw(rt, "from")
			tok := rapid.SampledFrom(w.Tokens).Draw(rt, "token")
			return from, tok, big.NewInt(int64(rapid.IntRange(0, 500).Draw(rt, "amount")))
		}
		actions := map[string]func(*rapid.T){
			"transfer": func(*rapid.T) {
				from, tok, amt := pick()
				to := rapid.SampledFrom(append(append([]types.Address{}, w.Users...), w.contracts...)).Draw(rt, "to")
				w.send(memchain.Tx{From: from, To: to, Token: tok, Amount: amt, Data: rapid.SliceOfN(rapid.Byte(), 0, 4).Draw(rt, "data")}, "transfer")
			},
			"create": func(*rapid.T) {
				from, tok, amt := small()
				if rapid.IntRange(0, 3).Draw(rt, "big") == 0 {
					amt = w.Amount(rt, bal(from, tok))
				}
				var pre []byte
				if rapid.IntRange(0, 3).Draw(rt, "pre") == 0 {
					pre = w.program()
				}
				code := ctor(w.program(), pre)
				if rapid.IntRange(0, 4).Draw(rt, "bad") == 0 {
					code = rapid.SampledFrom([][]byte{{0xfe}, {0x60, 0, 0x60, 0, 0xfd}, {}}).Draw(rt, "bad code")
				}
				b := w.send(memchain.Tx{From: from, Create: true, Token: tok, Amount: amt, Data: util.GetCreateContractData(code, 1, 0, 0, 10, types.DELEGATE_GID)}, "create")
				if b != nil && len(w.contracts) < 5 {
					w.contracts = append(w.contracts, b.ToAddress)
				}
			},
			"call": func(*rapid.T) {
				if len(w.contracts) == 0 {
					return
				}
				from, tok, amt := small()
				w.send(memchain.Tx{From: from, To: rapid.SampledFrom(w.contracts).Draw(rt, "contract"), Token: tok, Amount: amt, Data: rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "data")}, "call")
			},
			"builtin": func(*rapid.T) {
				from, tok, amt := pick()
				var con calls.Contract
				switch {
				case focus < 3:
					con = calls.Simple[focus]
				case focus == 3:
					con = rapid.SampledFrom(calls.Dex).Draw(rt, "contract")
				default:
					con = rapid.SampledFrom(calls.All).Draw(rt, "contract")
				}
				m, data := w.Data(rt, con)
				if con.Addr == types.AddressGovernance && (m == "Register" || m == "RegisterSBP") || con.Addr == types.AddressQuota && rapid.Bool().Draw(rt, "vite") {
					tok = memchain.Vite
					amt = memchain.Attov(int64(rapid.SampledFrom([]int{134, 1000, 1000000}).Draw(rt, "stake")))
				}
				if con.Addr == types.AddressAsset && rapid.IntRange(0, 2).Draw(rt, "free") > 0 {
					if m != "Burn" && m != "Burn2" {
						amt = new(big.Int)
					}
				}
				if rapid.IntRange(0, 2).Draw(rt, "noamt") == 0 {
					amt = new(big.Int)
				}
				if rapid.IntRange(0, 30).Draw(rt, "cut") == 0 {
					data = data[:rapid.IntRange(0, len(data)).Draw(rt, "len")]
				}
				b := w.send(memchain.Tx{From: from, To: con.Addr, Token: tok, Amount: amt, Data: data}, m)
				if b != nil {
					w.c.Label(m)
				}
			},
			"receive": func(*rapid.T) {
				var pend []*core.AccountBlock
				for _, a := range ch.OnroadAddrs {
					pend = append(pend, ch.Onroad[a]...)
				}
				if len(pend) == 0 {
					return
				}
				w.receive(pend[rapid.IntRange(0, len(pend)-1).Draw(rt, "which")])
			},
			"drain": func(*rapid.T) {
				for n := 0; n < 20; n++ {
					var from *core.AccountBlock
					for _, a := range ch.OnroadAddrs {
						if len(ch.Onroad[a]) > 0 {
							from = ch.Onroad[a][0]
							break
						}
					}
					if from == nil {
						return
					}
					k := len(ch.Onroad[from.ToAddress])
					w.receive(from)
					if len(ch.Onroad[from.ToAddress]) >= k && ch.Onroad[from.ToAddress][0].Hash == from.Hash {
						return
					}
				}
			},
			"snapshot": func(*rapid.T) {
				n := rapid.SampledFrom([]int{1, 1, 2, 10}).Draw(rt, "ticks")
				if rapid.IntRange(0, 9).Draw(rt, "day") == 0 {
					ch.Snapshot(ch.Latest().Timestamp.Unix() + 86400)
				}
				ch.Tick(n)
			},
		}
		actions["receive2"], actions["builtin2"], actions["receive3"], actions["builtin3"] = actions["receive"], actions["builtin"], actions["receive"], actions["builtin"]
		rt.Repeat(actions)
		if err := w.audit.Compare(); err != nil {
			w.fail("%v", err)
		}
		for k := range w.ops {
			c.Label("history with " + k)
		}
		if w.ops["failed"] > 0 && w.ops["forwarding"] > 0 {
			c.NonTrivial(fmt.Sprint(w.trace))
			c.Sample("%d steps, %v; last: %s", len(w.trace), w.ops, w.trace[len(w.trace)-1])
		}
	})
}
