package c07

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/gens"
	"verif/memchain"
	"verif/refvm"
	"verif/vlib"
)

var contracts = []types.Address{types.CreateContractAddress([]byte("c07a")), types.CreateContractAddress([]byte("c07b"))}

var validOps = func() []byte {
	var l []byte
	add := func(a, b int) {
		for i := a; i <= b; i++ {
			l = append(l, byte(i))
		}
	}
	add(0x00, 0x0b)
	add(0x10, 0x1d)
	add(0x20, 0x21)
	add(0x30, 0x31)
	add(0x33, 0x39)
	add(0x3d, 0x3e)
	add(0x42, 0x43)
	add(0x46, 0x4b)
	add(0x50, 0x59)
	add(0x5b, 0x5b)
	add(0x60, 0x9f)
	add(0xa0, 0xa4)
	add(0xf1, 0xf3)
	add(0xfd, 0xfd)
	return l
}()

// operand draws a word that instructions are likely to react to.
func operand() *rapid.Generator[*big.Int] {
	return rapid.Custom(func(t *rapid.T) *big.Int {
		switch rapid.IntRange(0, 7).Draw(t, "k") {
		case 0, 1, 2:
			return big.NewInt(int64(rapid.IntRange(0, 300).Draw(t, "s")))
		case 3:
			return big.NewInt(int64(rapid.IntRange(0, 70000).Draw(t, "m")))
		case 4: // around the word-size limits of sizes and offsets
			x := new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{5, 16, 31, 32, 37, 53, 63, 64, 65, 69, 128, 255}).Draw(t, "sh")))
			return x.Add(x, big.NewInt(int64(rapid.IntRange(-33, 33).Draw(t, "d")))).Mod(new(big.Int).Abs(x), refvm.M)
		case 5:
			return new(big.Int).SetBytes(memchain.Vite.Bytes())
		case 6:
			return new(big.Int).SetBytes(rapid.SampledFrom(append([]types.Address{memchain.User(0), memchain.User(9)}, contracts...)).Draw(t, "a").Bytes())
		}
		return gens.Big(256).Draw(t, "big")
	})
}

// soup draws code in which every instruction usually finds operands.
func soup(rt *rapid.T) []byte {
	a := &refvm.Asm{}
	n := rapid.IntRange(1, 25).Draw(rt, "n")
	var dests []int
	for i := 0; i < n; i++ {
		switch rapid.IntRange(0, 11).Draw(rt, "k") {
		case 0:
			a.Op(rapid.Byte().Draw(rt, "raw"))
		case 1: // jump target / backward jump
			if len(dests) > 0 && rapid.Bool().Draw(rt, "back") {
				a.PushN(int64(dests[rapid.IntRange(0, len(dests)-1).Draw(rt, "d")]))
				a.Op(rapid.SampledFrom([]byte{0x56, 0x57}).Draw(rt, "j"))
			} else {
				dests = append(dests, len(a.Code))
				a.Op(0x5b)
			}
		case 2: // a memory or log or call instruction with extreme operands
			op := rapid.SampledFrom([]byte{0x20, 0x21, 0x37, 0x39, 0x3e, 0x51, 0x52, 0x53, 0xa0, 0xa1, 0xa4, 0xf1, 0xf2, 0xf3, 0xfd, 0x35}).Draw(rt, "mop")
			for j := 0; j < 6; j++ {
				a.Push(operand().Draw(rt, "x"))
			}
			a.Op(op)
		default:
			op := rapid.SampledFrom(validOps).Draw(rt, "op")
			for j, m := 0, rapid.IntRange(0, 3).Draw(rt, "args"); j < m; j++ {
				a.Push(operand().Draw(rt, "x"))
			}
			a.Op(op)
			if op >= 0x60 && op <= 0x7f {
				a.Op(gens.Bytes(int(op-0x5f)).Draw(rt, "pd")...)
			}
		}
	}
	return a.Finish()
}

// looping draws an endless loop around a small body.
func looping(rt *rapid.T) []byte {
	a := &refvm.Asm{}
	pre := rapid.IntRange(0, 2).Draw(rt, "pre")
	for i := 0; i < pre; i++ {
		a.Push(operand().Draw(rt, "p"))
	}
	at := len(a.Code)
	a.Op(0x5b)
	switch rapid.IntRange(0, 6).Draw(rt, "body") {
	case 0:
	case 1:
		a.Push(operand().Draw(rt, "x"))
		a.Push(operand().Draw(rt, "x"))
		a.Op(byte(rapid.IntRange(1, 0x0b).Draw(rt, "op")), 0x50)
	case 2: // growing memory
		a.Op(0x59, 0x51, 0x50)
	case 3:
		a.Op(0x59, 0x59, 0x52)
	case 4:
		a.PushN(32)
		a.Op(0x59, 0xa0)
	case 5:
		a.Op(0x59, 0x54, 0x50)
	case 6:
		a.PushN(1)
		a.Op(0x01, 0x80, 0x80, 0x55)
	}
	a.PushN(int64(at))
	a.Op(0x56)
	return a.Finish()
}

func structured(rt *rapid.T) []byte {
	g := &refvm.Gen{T: rt, A: &refvm.Asm{}, Users: append([]types.Address{memchain.User(0), memchain.User(1)}, contracts...), Tokens: []types.TokenTypeId{memchain.Vite, memchain.Token(0)}, Calls: true, State: true, Wild: true, Cost: 900000}
	for i, n := 0, rapid.IntRange(1, 8).Draw(rt, "n"); i < n; i++ {
		g.Stmt(2)
	}
	switch rapid.IntRange(0, 3).Draw(rt, "end") {
	case 0:
		g.A.PushN(0)
		g.A.PushN(0)
		g.A.Op(0xfd)
	case 1:
		g.A.Op(0xfe)
	}
	return g.A.Finish()
}

func code(rt *rapid.T) []byte {
	switch rapid.IntRange(0, 7).Draw(rt, "code kind") {
	case 0:
		return gens.Bytes(60).Draw(rt, "bytes")
	case 1, 2, 3:
		return soup(rt)
	case 4:
		return looping(rt)
	case 5:
		c := structured(rt)
		for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "mut"); i < n && len(c) > 0; i++ {
			c[rapid.IntRange(0, len(c)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "b")
		}
		return c
	}
	return structured(rt)
}

// deploy draws constructor code: often one that returns runtime code.
func constructor(rt *rapid.T, runtime []byte) []byte {
	if rapid.IntRange(0, 3).Draw(rt, "ctor") == 0 {
		return code(rt)
	}
	a := &refvm.Asm{}
	if rapid.Bool().Draw(rt, "pre") {
		a.PushN(7)
		a.PushN(3)
		a.Op(0x55)
	}
	n := len(runtime)
	// PUSH2 n DUP1 PUSH2 off PUSH1 0 CODECOPY PUSH1 0 RETURN
	off := len(a.Code) + 3 + 1 + 3 + 2 + 1 + 2 + 1
	a.Op(0x61, byte(n>>8), byte(n), 0x80, 0x61, byte(off>>8), byte(off), 0x60, 0, 0x39, 0x60, 0, 0xf3)
	a.Op(runtime...)
	return a.Code
}

type step struct {
	kind   int // 0 call, 1 create, 2 snapshot, 3 receive
	user   int
	to     types.Address
	amount int64
	token  types.TokenTypeId
	data   []byte
	pick   int
	ticks  int
}

type world struct {
	ch    *memchain.Chain
	code  [2][]byte
	stake int64
}

func newWorld(code [2][]byte, stake int64) *world {
	memchain.Init()
	ch := memchain.New(memchain.Genesis(memchain.GenesisOpt{Users: 3, Tokens: 2}))
	w := &world{ch: ch, code: code, stake: stake}
	ch.StakeOverride = func(a types.Address) *big.Int {
		if types.IsContractAddr(a) {
			return memchain.Attov(w.stake)
		}
		return memchain.Attov(1000000000)
	}
	for i, c := range contracts {
		a := ch.Acct(c)
		a.Code = append([]byte{1}, code[i]...)
		a.Meta = &core.ContractMeta{Gid: types.DELEGATE_GID, QuotaRatio: 10, CreateBlockHash: ch.Acct(memchain.User(0)).Blocks[0].Hash}
		a.Balance[memchain.Vite] = big.NewInt(5000)
		a.Balance[memchain.Token(0)] = big.NewInt(500)
		a.Storage[string(make([]byte, 32))] = []byte{9}
	}
	return w
}

// dump prints the whole state.
func dump(ch *memchain.Chain) string {
	var out []string
	for a, x := range ch.Accts {
		if len(x.Blocks) == 0 && len(x.Balance) == 0 && len(x.Storage) == 0 {
			continue
		}
		s := fmt.Sprintf("%s code=%x", a, x.Code)
		var l []string
		for k, v := range x.Balance {
			l = append(l, fmt.Sprintf("%s:%v", k, v))
		}
		for k, v := range x.Storage {
			l = append(l, fmt.Sprintf("%x=%x", k, v))
		}
		for _, b := range x.Blocks {
			l = append(l, fmt.Sprintf("b %06d %s", b.Height, b.Hash))
		}
		sort.Strings(l)
		out = append(out, s+" "+fmt.Sprint(l))
	}
	for h, l := range ch.Logs {
		s := "log " + h.String()
		for _, x := range l {
			s += fmt.Sprintf(" %v/%x", x.Topics, x.Data)
		}
		out = append(out, s)
	}
	sort.Strings(out)
	return fmt.Sprint(out)
}

func changes(db interface {
	GetUnsavedStorage() [][2][]byte
	GetLogList() core.VmLogList
	GetUnsavedContractCode() []byte
}) string {
	var l []string
	for _, kv := range db.GetUnsavedStorage() {
		l = append(l, fmt.Sprintf("%x=%x", kv[0], kv[1]))
	}
	sort.Strings(l)
	for _, x := range db.GetLogList() {
		l = append(l, fmt.Sprintf("log %v/%x", x.Topics, x.Data))
	}
	if code := db.GetUnsavedContractCode(); len(code) > 0 {
		l = append(l, "code "+hex.EncodeToString(code))
	}
	return fmt.Sprint(l)
}

func balances(ch *memchain.Chain, a types.Address) map[types.TokenTypeId]*big.Int {
	m := map[types.TokenTypeId]*big.Int{}
	for k, v := range ch.Acct(a).Balance {
		m[k] = new(big.Int).Set(v)
	}
	return m
}

// receive runs one pending block with all the checks and inserts the outcome.
func (w *world) receive(rt *rapid.T, c *vlib.C, from *core.AccountBlock, again bool) memchain.Result {
	ch := w.ch
	addr := from.ToAddress
	what := fmt.Sprintf("codes %x / %x stake %d: receive of %s from %s to %s data %x amount %v", w.code[0], w.code[1], w.stake, from.Hash, from.AccountAddress, addr, from.Data, from.Amount)
	avail := uint64(quota.QuotaForCreateContractResponse)
	if from.BlockType != core.BlockTypeSendCreate {
		db := ch.Db(addr)
		stake, _ := ch.GetStakeBeneficialAmount(addr)
		q, _, err := quota.GetQuotaForBlock(db, addr, stake, big.NewInt(0), ch.Height())
		if err == nil {
			avail = q
		}
	}
	before := balances(ch, addr)
	blk := ch.MakeReceive(from)
	input := fmt.Sprintf("%+v", *blk)
	r := ch.Run(blk, from)
	if r.Panic != nil {
		rt.Fatalf("%s: panic %v", what, r.Panic)
	}
	if fmt.Sprintf("%+v", *blk) != input {
		rt.Fatalf("%s: the given block was changed", what)
	}
	if again {
		r2 := ch.Run(ch.MakeReceive(from), from)
		if (r2.Block == nil) != (r.Block == nil) || r2.Retry != r.Retry || r2.Err != r.Err {
			rt.Fatalf("%s: first run %v %v %v, second run %v %v %v", what, r.Block, r.Retry, r.Err, r2.Block, r2.Retry, r2.Err)
		}
		if r.Block != nil {
			if r.Block.Hash != r2.Block.Hash {
				rt.Fatalf("%s: two runs made different blocks %v and %v", what, r.Block, r2.Block)
			}
			if r.Block.Quota != r2.Block.Quota || r.Block.QuotaUsed != r2.Block.QuotaUsed {
				rt.Fatalf("%s: two runs used different quota", what)
			}
			if x, y := changes(r.Db), changes(r2.Db); x != y {
				rt.Fatalf("%s: two runs changed different state: %s and %s", what, x, y)
			}
			if fmt.Sprint(r.Db.GetUnsavedBalanceMap()) != fmt.Sprint(r2.Db.GetUnsavedBalanceMap()) {
				rt.Fatalf("%s: two runs left different balances", what)
			}
		}
	}
	if r.Block == nil {
		if r.Err == nil {
			rt.Fatalf("%s: neither a block nor an error", what)
		}
		if dumpBal(before) != dumpBal(balances(ch, addr)) {
			rt.Fatalf("%s: no block but balances changed", what)
		}
		c.Label("no block: " + r.Err.Error())
		return r
	}
	if types.IsContractAddr(addr) {
		if r.Block.QuotaUsed > avail || r.Block.Quota > r.Block.QuotaUsed {
			rt.Fatalf("%s: used quota %d (%d from stake) of %d", what, r.Block.QuotaUsed, r.Block.Quota, avail)
		}
		ok := len(r.Block.Data) == 33 && r.Block.Data[32] == 0
		if from.BlockType != core.BlockTypeSendRefund && ok != (r.Err == nil) {
			rt.Fatalf("%s: error %v but result data %x", what, r.Err, r.Block.Data)
		}
		if (r.Block.BlockType == core.BlockTypeReceiveError) && r.Err == nil {
			rt.Fatalf("%s: succeeded with an error block", what)
		}
		if r.Err != nil {
			if s := changes(r.Db); s != "[]" {
				rt.Fatalf("%s: failed with %v but changed %s", what, r.Err, s)
			}
			want := map[types.TokenTypeId]*big.Int{}
			for k, v := range before {
				want[k] = v
			}
			if from.Amount.Sign() > 0 && r.Err != util.ErrDepth {
				if len(r.Block.SendBlockList) != 1 {
					rt.Fatalf("%s: failed with %v and sent %d blocks", what, r.Err, len(r.Block.SendBlockList))
				}
				s := r.Block.SendBlockList[0]
				if s.ToAddress != from.AccountAddress || s.TokenId != from.TokenId || s.Amount.Cmp(from.Amount) != 0 || s.BlockType != core.BlockTypeSendRefund {
					rt.Fatalf("%s: failed with %v but returned %v", what, r.Err, s)
				}
			} else if len(r.Block.SendBlockList) != 0 {
				rt.Fatalf("%s: failed with %v and sent %v", what, r.Err, r.Block.SendBlockList[0])
			}
			for k, v := range want {
				k := k
				if r.Err == util.ErrDepth && k == from.TokenId {
					continue
				}
				if b, _ := r.Db.GetBalance(&k); b.Cmp(v) != 0 {
					rt.Fatalf("%s: failed with %v but the balance of %s went from %v to %v", what, r.Err, k, v, b)
				}
			}
			c.Label("fails: " + r.Err.Error())
		} else {
			c.Label("succeeds")
			if len(r.Block.SendBlockList) > 0 {
				c.Label("succeeds and sends")
			}
		}
	}
	ch.Insert(r)
	return r
}

func dumpBal(m map[types.TokenTypeId]*big.Int) string {
	var l []string
	for k, v := range m {
		l = append(l, k.String()+v.String())
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func drawSteps(rt *rapid.T) []step {
	n := rapid.IntRange(1, 10).Draw(rt, "steps")
	var l []step
	for i := 0; i < n; i++ {
		k := rapid.SampledFrom([]int{0, 0, 0, 1, 2, 3, 3, 3, 3}).Draw(rt, "step")
		if i == 0 {
			k = 0
		}
		s := step{kind: k}
		switch k {
		case 0, 1:
			s.user = rapid.IntRange(0, 2).Draw(rt, "user")
			s.to = rapid.SampledFrom(contracts).Draw(rt, "to")
			s.amount = int64(rapid.IntRange(0, 3).Draw(rt, "amt") * rapid.IntRange(0, 1000).Draw(rt, "amount"))
			s.token = rapid.SampledFrom([]types.TokenTypeId{memchain.Vite, memchain.Token(0)}).Draw(rt, "token")
			if k == 0 {
				s.data = gens.Bytes(70).Draw(rt, "data")
			} else {
				s.data = util.GetCreateContractData(constructor(rt, code(rt)), 1, 1, 0, 10, types.DELEGATE_GID)
			}
		case 2:
			s.ticks = rapid.SampledFrom([]int{1, 1, 2, 80}).Draw(rt, "ticks")
		case 3:
			s.pick = rapid.IntRange(0, 1000).Draw(rt, "pick")
		}
		l = append(l, s)
	}
	return l
}

func (w *world) pending(pick int) *core.AccountBlock {
	var l []*core.AccountBlock
	for _, a := range w.ch.OnroadAddrs {
		if p := w.ch.Onroad[a]; len(p) > 0 {
			l = append(l, p[0])
		}
	}
	if len(l) == 0 {
		return nil
	}
	return l[pick%len(l)]
}

func (w *world) run(rt *rapid.T, c *vlib.C, steps []step, again bool) (executed int) {
	for _, s := range steps {
		switch s.kind {
		case 0, 1:
			r := w.ch.Send(memchain.Tx{From: memchain.User(s.user), To: s.to, Amount: big.NewInt(s.amount), Token: s.token, Data: s.data, Create: s.kind == 1})
			if r.Panic != nil {
				rt.Fatalf("send with data %x: panic %v", s.data, r.Panic)
			}
			if s.kind == 0 && r.Err != nil {
				rt.Fatalf("plain call refused: %v", r.Err)
			}
			if r.Err != nil {
				c.Label("create refused: " + r.Err.Error())
			}
			if r.Err == nil && s.kind == 1 {
				// a contract answers once its creation is confirmed
				w.ch.Tick(1)
			}
		case 2:
			w.ch.Tick(s.ticks)
		case 3:
			if f := w.pending(s.pick); f != nil {
				w.receive(rt, c, f, again)
				executed++
			}
		}
	}
	for i := 0; i < 6; i++ { // deliver what is left, in part
		if f := w.pending(i); f != nil {
			w.receive(rt, c, f, again)
			executed++
		}
	}
	return
}

// TestHistories: calls, creations and contract-made sends over arbitrary code.
func TestHistories(t *testing.T) {
	vlib.Check(t, vlib.Opts{Rule: "two contracts with random, mutated, looping or structured bytecode, histories of calls, creations, snapshots and receives with low or high stake; every execution runs twice, and the whole history again on a second ledger; non-trivial: at least two contract executions", Quick: 5000, Thorough: 120000}, func(rt *rapid.T, c *vlib.C) {
		codes := [2][]byte{code(rt), code(rt)}
		stake := int64(rapid.SampledFrom([]int{134, 1000, 100000, 1000000000}).Draw(rt, "stake"))
		steps := drawSteps(rt)
		w := newWorld(codes, stake)
		n := w.run(rt, c, steps, true)
		w2 := newWorld(codes, stake)
		w2.run(rt, &vlib.C{}, steps, false)
		if a, b := dump(w.ch), dump(w2.ch); a != b {
			rt.Fatalf("the same history gave different ledgers:\n%s\n%s", a, b)
		}
		if n >= 2 {
			c.NonTrivial(codes[0], codes[1], stake, fmt.Sprint(steps))
			c.Sample("codes %x and %x, stake %d, %d executions", codes[0], codes[1], stake, n)
		}
	})
}

// TestMessages: every memory-reading instruction with extreme offsets and sizes.
func TestMemoryBounds(t *testing.T) {
	ops := []struct {
		op      byte
		off, sz int // operand positions from the top, -1: none
		n       int
	}{{0x20, 0, 1, 2}, {0x21, 0, 1, 2}, {0x37, 0, 2, 3}, {0x39, 0, 2, 3}, {0x3e, 0, 2, 3}, {0x51, 0, -1, 1}, {0x52, 0, -1, 2}, {0x53, 0, -1, 2},
		{0xa0, 0, 1, 2}, {0xa2, 0, 1, 4}, {0xf1, 3, 4, 5}, {0xf2, 3, 4, 5}, {0xf3, 0, 1, 2}, {0xfd, 0, 1, 2}}
	vlib.Check(t, vlib.Opts{Rule: "one memory-touching instruction with extreme offset and size after a small memory prefix, on chain and off chain; non-trivial: offset or size at least 2^16", Quick: 12000, Thorough: 300000}, func(rt *rapid.T, c *vlib.C) {
		o := ops[rapid.IntRange(0, len(ops)-1).Draw(rt, "op")]
		a := &refvm.Asm{}
		for i, n := 0, rapid.IntRange(0, 3).Draw(rt, "prefix"); i < n; i++ {
			a.Push(operand().Draw(rt, "v"))
			a.PushN(int64(rapid.IntRange(0, 100).Draw(rt, "at")))
			a.Op(0x52)
		}
		args := make([]*big.Int, o.n)
		big_ := false
		for i := range args {
			args[i] = operand().Draw(rt, "arg")
			if (i == o.off || i == o.sz) && args[i].BitLen() > 16 {
				big_ = true
			}
		}
		if o.op == 0xf1 || o.op == 0xf2 {
			args[0] = new(big.Int).SetBytes(memchain.User(0).Bytes())
			args[1] = new(big.Int).SetBytes(memchain.Vite.Bytes())
			args[2] = big.NewInt(int64(rapid.IntRange(0, 3).Draw(rt, "value")))
		}
		for i := o.n - 1; i >= 0; i-- {
			a.Push(args[i])
		}
		a.Op(o.op)
		code := a.Finish()
		w := newWorld([2][]byte{code, nil}, 1000000000)
		s := w.ch.Send(memchain.Tx{From: memchain.User(0), To: contracts[0], Amount: big.NewInt(2), Token: memchain.Vite})
		if s.Err != nil {
			rt.Fatal(s.Err)
		}
		w.ch.Tick(1)
		r := w.receive(rt, c, s.Block, true)
		if r.Err == nil && len(r.Block.SendBlockList) > 0 {
			sz := args[o.sz]
			if !sz.IsUint64() || uint64(len(r.Block.SendBlockList[0].Data)) != sz.Uint64() {
				rt.Fatalf("code %x: sent %d bytes of data", code, len(r.Block.SendBlockList[0].Data))
			}
		}
		if big_ {
			c.NonTrivial(code)
			c.Sample("%x: %v", code, r.Err)
		}
		_ = bytes.Equal
	})
}
