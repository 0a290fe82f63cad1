package c06

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/gens"
	"verif/memchain"
	"verif/refvm"
	"verif/vlib"
)

var self = types.CreateContractAddress([]byte("c06"))

func newChain(users int) *memchain.Chain {
	memchain.Init()
	ch := memchain.New(memchain.Genesis(memchain.GenesisOpt{Users: users, Tokens: 2}))
	ch.StakeOverride = func(types.Address) *big.Int { return memchain.Attov(1000000000) }
	return ch
}

// install puts a contract account with the code at self.
func install(ch *memchain.Chain, code []byte) {
	a := ch.Acct(self)
	a.Code = append([]byte{1}, code...) // 1: the Solidity++ contract type
	a.Meta = &core.ContractMeta{Gid: types.DELEGATE_GID, QuotaRatio: 10, SendConfirmedTimes: 0, CreateBlockHash: ch.Acct(memchain.User(0)).Blocks[0].Hash}
}

var base *memchain.Chain

// TestOperators: one instruction, all operand shapes.
func TestOperators(t *testing.T) {
	ch := newChain(1)
	db0 := ch.Db(self)
	_ = db0
	vlib.Check(t, vlib.Opts{Rule: "one arithmetic/comparison/bitwise/shift instruction on boundary-biased 256-bit operands, run by the real VM and compared with big-integer arithmetic; non-trivial: not all operands below 4", Quick: 200000, Thorough: 4000000}, func(rt *rapid.T, c *vlib.C) {
		op := byte(rapid.IntRange(1, 0x1d).Draw(rt, "op"))
		for refvm.Arity(op) == 0 {
			op = (op + 1) & 0x1f
		}
		n := refvm.Arity(op)
		var a []*big.Int
		small := true
		for i := 0; i < n; i++ {
			x := gens.Big(256).Draw(rt, "x")
			if i == 0 && (op == 0x1a || op == 0x0b || op >= 0x1b) && rapid.Bool().Draw(rt, "small") {
				x = big.NewInt(int64(rapid.IntRange(0, 300).Draw(rt, "s")))
			}
			if i > 0 && rapid.IntRange(0, 7).Draw(rt, "same") == 0 {
				x = new(big.Int).Set(a[0])
			}
			if x.Cmp(big.NewInt(4)) > 0 {
				small = false
			}
			a = append(a, x)
		}
		as := &refvm.Asm{}
		as.PushN(0x5a5a) // a canary below the operands
		for i := n - 1; i >= 0; i-- {
			as.Push(a[i])
		}
		as.Op(op)
		as.PushN(0)
		as.Op(0x52)
		as.PushN(32)
		as.Op(0x52)
		as.PushN(64)
		as.PushN(0)
		as.Op(0xf3)
		want := refvm.Pure(op, a...)
		got, err := vm.NewVM(nil).OffChainReader(ch.Db(self), as.Finish(), nil)
		if err != nil || len(got) != 64 {
			rt.Fatalf("op %#x on %x: error %v result %x", op, a, err, got)
		}
		w := refvm.Word(want)
		canary := refvm.Word(big.NewInt(0x5a5a))
		if !bytes.Equal(got[32:], canary[:]) {
			rt.Fatalf("op %#x on %x changed the stack below its operands: %x", op, a, got[32:])
		}
		if !bytes.Equal(got[:32], w[:]) {
			if refvm.SarDefect(op, a) && bytes.Equal(got[:32], bytes.Repeat([]byte{0xff}, 32)) {
				vlib.KnownFinding("sar-zero-shift256")
				return
			}
			rt.Fatalf("op %#x on %x is %x, want %x", op, a, got[:32], w)
		}
		if !small {
			c.NonTrivial(op, fmt.Sprint(a))
			c.Label(fmt.Sprintf("op %#x", op))
			c.Sample("op %#x on %x = %x", op, a, want)
		}
	})
}

func words(rt *rapid.T, st map[[32]byte]*big.Int, a *memchain.Account) {
	n := rapid.IntRange(0, 4).Draw(rt, "nst")
	ks := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(2), new(big.Int).Lsh(big.NewInt(1), 200)}
	for i := 0; i < n; i++ {
		k := refvm.Word(rapid.SampledFrom(ks).Draw(rt, "sk"))
		v := gens.Big(256).Draw(rt, "sv")
		if v.Sign() == 0 {
			continue
		}
		st[k] = v
		a.Storage[string(k[:])] = v.Bytes()
	}
}

// TestPrograms: generated programs executed by a receive block on chain.
func TestPrograms(t *testing.T) {
	vlib.Check(t, vlib.Opts{Rule: "structured random programs (nested expressions, memory, storage, hashing, logs, sends, loops, conditional and invalid jumps, stack shuffles) run as a contract's receive block and by an independent interpreter; stack, memory, logs, storage and sends compared; non-trivial: at least 8 different instructions executed successfully", Quick: 25000, Thorough: 400000}, func(rt *rapid.T, c *vlib.C) {
		ch := newChain(3)
		users := []types.Address{memchain.User(0), memchain.User(1), memchain.User(2), memchain.User(77)}
		toks := []types.TokenTypeId{memchain.Vite, memchain.Token(0), memchain.Token(1)}
		g := &refvm.Gen{T: rt, A: &refvm.Asm{}, Users: users, Tokens: toks, Calls: true, State: true, Wild: true, Cost: 300000}
		for i, n := 0, rapid.IntRange(1, 12).Draw(rt, "n"); i < n; i++ {
			g.Stmt(2)
		}
		g.Dump(true)
		code := g.A.Finish()
		install(ch, code)
		a := ch.Acct(self)
		st := map[[32]byte]*big.Int{}
		words(rt, st, a)
		for i, tk := range toks {
			if rapid.Bool().Draw(rt, "bal") {
				a.Balance[tk] = big.NewInt(int64(rapid.IntRange(0, 3000).Draw(rt, fmt.Sprint("b", i))))
			}
		}
		data := gens.Bytes(80).Draw(rt, "data")
		tk := rapid.SampledFrom(toks).Draw(rt, "token")
		amount := big.NewInt(int64(rapid.IntRange(0, 2000).Draw(rt, "amount")))
		sr := ch.Send(memchain.Tx{From: memchain.User(1), To: self, Amount: amount, Token: tk, Data: data})
		if sr.Err != nil {
			rt.Fatalf("send: %v", sr.Err)
		}
		ch.Tick(rapid.IntRange(1, 3).Draw(rt, "ticks"))
		from := sr.Block
		bal := map[types.TokenTypeId]*big.Int{}
		for _, x := range toks {
			bal[x] = new(big.Int)
			if a.Balance[x] != nil {
				bal[x].Set(a.Balance[x])
			}
		}
		bal[tk].Add(bal[tk], amount)
		blk := ch.MakeReceive(from)
		sb := ch.Snapshots[ch.ConfirmedAt[from.Hash]-1]
		seed := sb.Seed ^ uint64(from.Hash[0])
		cnt := uint64(0)
		env := &refvm.Env{Code: code, Data: data, Self: self, Caller: memchain.User(1), Value: amount, Token: tk, Time: uint64(sb.Timestamp.Unix()), Height: sb.Height,
			AccHeight: blk.Height - 1, PrevHash: blk.PrevHash, FromHash: from.Hash, Seed: seed,
			Random: func() uint64 { cnt++; return seed*6364136223846793005 + cnt*1442695040888963407 }, Storage: st,
			Balance: func(k types.TokenTypeId) *big.Int {
				if bal[k] == nil {
					return new(big.Int)
				}
				return bal[k]
			}, Host: blk}
		o := refvm.Run(env)
		if o.Skip != "" {
			c.Label("skip " + o.Skip)
			return
		}
		// the sends leave after the code ran, one by one
		left := map[types.TokenTypeId]*big.Int{}
		for k, v := range bal {
			left[k] = new(big.Int).Set(v)
		}
		if o.Fail == "" {
			for _, s := range o.Sends {
				if left[s.Token].Cmp(s.Amount) < 0 {
					o.Fail = "send exceeds balance"
					break
				}
				left[s.Token].Sub(left[s.Token], s.Amount)
			}
		}
		r := ch.Run(blk, from)
		dis := hex.EncodeToString(code)
		if r.Panic != nil {
			rt.Fatalf("code %s: panic %v", dis, r.Panic)
		}
		if r.Err == util.ErrOutOfQuota {
			if o.Cost+30000 < 1000000 {
				rt.Fatalf("code %s: out of quota though it costs at most %d", dis, o.Cost)
			}
			c.Label("out of quota")
			return
		}
		if (r.Err != nil) != (o.Fail != "") {
			rt.Fatalf("code %s data %x: VM says %v, reference says %q after %d steps", dis, data, r.Err, o.Fail, o.Steps)
		}
		if r.Block == nil {
			rt.Fatalf("code %s: no block (%v)", dis, r.Err)
		}
		if o.Fail != "" {
			if len(r.Db.GetUnsavedStorage()) > 0 || len(r.Db.GetLogList()) > 0 {
				rt.Fatalf("code %s: a failed call (%v) kept storage %x logs %v", dis, r.Err, r.Db.GetUnsavedStorage(), r.Db.GetLogList())
			}
			c.Label("fails: " + o.Fail)
			return
		}
		logs := r.Db.GetLogList()
		if len(logs) != len(o.Logs) {
			rt.Fatalf("code %s: %d logs, want %d", dis, len(logs), len(o.Logs))
		}
		for i, l := range logs {
			if !bytes.Equal(l.Data, o.Logs[i].Data) || len(l.Topics) != len(o.Logs[i].Topics) {
				rt.Fatalf("code %s data %x: log %d is %v, want %x", dis, data, i, hex.EncodeToString(l.Data), o.Logs[i].Data)
			}
			for j := range l.Topics {
				if l.Topics[j] != types.Hash(o.Logs[i].Topics[j]) {
					rt.Fatalf("code %s: log %d topic %d is %v, want %x", dis, i, j, l.Topics[j], o.Logs[i].Topics[j])
				}
			}
		}
		us := r.Db.GetUnsavedStorage()
		if len(us) != len(o.Writes) {
			rt.Fatalf("code %s: %d storage writes, want %d", dis, len(us), len(o.Writes))
		}
		for _, kv := range us {
			var k [32]byte
			copy(k[:], kv[0])
			w, ok := o.Writes[k]
			if !ok || len(kv[0]) != 32 || !bytes.Equal(w.Bytes(), kv[1]) {
				rt.Fatalf("code %s: storage %x=%x, want %v", dis, kv[0], kv[1], w)
			}
		}
		if len(r.Block.SendBlockList) != len(o.Sends) {
			rt.Fatalf("code %s: %d sends, want %d", dis, len(r.Block.SendBlockList), len(o.Sends))
		}
		for i, s := range r.Block.SendBlockList {
			w := o.Sends[i]
			if s.ToAddress != w.To || s.TokenId != w.Token || s.Amount.Cmp(w.Amount) != 0 || !bytes.Equal(s.Data, w.Data) || s.BlockType != core.BlockTypeSendCall {
				rt.Fatalf("code %s: send %d is %v, want %v", dis, i, s, w)
			}
		}
		for _, x := range toks {
			x := x
			b, _ := r.Db.GetBalance(&x)
			if b.Cmp(left[x]) != 0 {
				rt.Fatalf("code %s: balance of %s is %v, want %v", dis, x, b, left[x])
			}
		}
		if len(o.Ops) >= 8 {
			c.NonTrivial(code, data)
			for op := range o.Ops {
				c.Label(fmt.Sprintf("executes %02x", op))
			}
			c.Sample("%d bytes, %d steps, %d logs, %d writes, %d sends: %s", len(code), o.Steps, len(o.Logs), len(o.Writes), len(o.Sends), dis)
		}
	})
}

// TestOffchain: the same programs without effects, through the off-chain reader.
func TestOffchain(t *testing.T) {
	ch := newChain(2)
	vlib.Check(t, vlib.Opts{Rule: "structured random programs through the off-chain reader compared with the reference in off-chain mode; non-trivial: at least 8 different instructions and a result", Quick: 25000, Thorough: 400000}, func(rt *rapid.T, c *vlib.C) {
		toks := []types.TokenTypeId{memchain.Vite, memchain.Token(0)}
		g := &refvm.Gen{T: rt, A: &refvm.Asm{}, Users: []types.Address{memchain.User(0)}, Tokens: toks, Calls: true, State: true, Wild: true, Cost: 300000}
		for i, n := 0, rapid.IntRange(1, 10).Draw(rt, "n"); i < n; i++ {
			g.Stmt(2)
		}
		g.Dump(false)
		code := g.A.Finish()
		a := ch.Acct(self)
		a.Storage = map[string][]byte{}
		st := map[[32]byte]*big.Int{}
		words(rt, st, a)
		data := gens.Bytes(80).Draw(rt, "data")
		db := ch.Db(self)
		env := &refvm.Env{Code: code, Data: data, Self: self, Value: new(big.Int), Random: func() uint64 { return 0 }, Storage: st,
			Balance: func(k types.TokenTypeId) *big.Int { return new(big.Int) }, Offchain: true}
		o := refvm.Run(env)
		if o.Skip != "" {
			c.Label("skip " + o.Skip)
			return
		}
		if o.Cost > 900000 {
			c.Label("costly")
			return
		}
		got, err := vm.NewVM(nil).OffChainReader(db, code, data)
		if (err != nil) != (o.Fail != "") {
			rt.Fatalf("code %x data %x: reader says %v, reference %q", code, data, err, o.Fail)
		}
		if o.Fail == "" && !bytes.Equal(got, o.Ret) {
			rt.Fatalf("code %x data %x: reader returns %x, want %x", code, data, got, o.Ret)
		}
		if len(db.GetUnsavedStorage()) > 0 || len(db.GetLogList()) > 0 {
			rt.Fatalf("code %x: reading changed the state", code)
		}
		if len(o.Ops) >= 8 && o.Fail == "" && len(got) > 0 {
			c.NonTrivial(code, data)
			c.Sample("%x -> %d bytes", code, len(got))
		}
	})
}

// TestStack: pushes, duplicates, swaps and pops on deep stacks.
func TestStack(t *testing.T) {
	ch := newChain(1)
	vlib.Check(t, vlib.Opts{Rule: "random PUSH/DUP/SWAP/POP sequences on stacks of up to 40 words compared word by word with a list; non-trivial: a DUP or SWAP reaching deeper than 4", Quick: 20000, Thorough: 500000}, func(rt *rapid.T, c *vlib.C) {
		as := &refvm.Asm{}
		var st []*big.Int
		push := func() {
			n := rapid.IntRange(1, 32).Draw(rt, "n")
			b := rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, "b")
			as.Op(byte(0x5f + n))
			as.Code = append(as.Code, b...)
			st = append(st, new(big.Int).SetBytes(b))
		}
		for i, n := 0, rapid.IntRange(1, 24).Draw(rt, "pre"); i < n; i++ {
			push()
		}
		deep := false
		for i, n := 0, rapid.IntRange(1, 12).Draw(rt, "ops"); i < n; i++ {
			switch k := rapid.IntRange(0, 5).Draw(rt, "k"); {
			case k <= 1 && len(st) > 0:
				m := len(st)
				if m > 16 {
					m = 16
				}
				d := rapid.IntRange(1, m).Draw(rt, "dup")
				as.Op(byte(0x7f + d))
				st = append(st, new(big.Int).Set(st[len(st)-d]))
				deep = deep || d > 4
			case k <= 3 && len(st) > 1:
				m := len(st) - 1
				if m > 16 {
					m = 16
				}
				d := rapid.IntRange(1, m).Draw(rt, "swap")
				as.Op(byte(0x8f + d))
				st[len(st)-1], st[len(st)-1-d] = st[len(st)-1-d], st[len(st)-1]
				deep = deep || d > 4
			case k == 4 && len(st) > 0:
				as.Op(0x50)
				st = st[:len(st)-1]
			default:
				push()
			}
		}
		var want []byte
		for i := 0; i < len(st); i++ {
			as.PushN(int64(32 * i))
			as.Op(0x52)
			w := refvm.Word(st[len(st)-1-i])
			want = append(want, w[:]...)
		}
		as.PushN(int64(len(want)))
		as.PushN(0)
		as.Op(0xf3)
		code := as.Finish()
		got, err := vm.NewVM(nil).OffChainReader(ch.Db(self), code, nil)
		if err != nil || !bytes.Equal(got, want) {
			rt.Fatalf("code %x: stack %x (%v), want %x", code, got, err, want)
		}
		if deep {
			c.NonTrivial(code)
			c.Sample("%x", code)
		}
	})
}
