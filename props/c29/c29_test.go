// Package c29: block acceptance, on the real ledger, of blocks the real generator made and of forgeries of them.
package c29

import (
	"bytes"
	"fmt"
	"math/big"
	"reflect"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"verif/memchain"
	"verif/vlib"
)

// what the check of one proposed block says: "" is acceptance
func (w *world) judge(b *core.AccountBlock, rpc bool) (vb *interfaces.VmAccountBlock, why string) {
	var err error
	p := vlib.Catch(func() {
		sb := w.c.GetLatestSnapshotBlock()
		if rpc {
			vb, err = w.v.VerifyRPCAccountBlock(b, sb)
			return
		}
		if err = w.v.VerifyNetAccountBlock(b); err != nil {
			return
		}
		var task interface{}
		task, vb, err = w.v.VerifyPoolAccountBlock(b, sb)
		if err == nil && vb == nil {
			err = fmt.Errorf("pending: %v", task)
		}
	})
	if p != nil {
		w.t.Fatalf("verification panicked: %v\nblock: %s\nhistory: %s", p, show(b), w.hist())
	}
	// VerifyRPCAccountBlock returns a typed nil error value on success paths of helpers: go by reflection
	if err != nil && !(reflect.ValueOf(err).Kind() == reflect.Ptr && reflect.ValueOf(err).IsNil()) {
		return nil, err.Error()
	}
	if vb == nil {
		return nil, "no block"
	}
	return vb, ""
}

func show(b *core.AccountBlock) string {
	s := fmt.Sprintf("{type %d addr %s height %d prev %x from %x to %s amount %v token %s fee %v data %x log %v nonce %x diff %v hash %x", b.BlockType,
		b.AccountAddress, b.Height, b.PrevHash[:4], b.FromBlockHash[:4], b.ToAddress, b.Amount, b.TokenId, b.Fee, b.Data, b.LogHash, b.Nonce, b.Difficulty, b.Hash[:4])
	for _, x := range b.SendBlockList {
		s += fmt.Sprintf(" sub{type %d to %s amount %v token %s data %x hash %x}", x.BlockType, x.ToAddress, x.Amount, x.TokenId, x.Data, x.Hash[:4])
	}
	return s + "}"
}

func (w *world) hist() string { return strings.Join(w.trace, "; ") }

func wire(b *core.AccountBlock) *core.AccountBlock {
	raw, err := b.Serialize()
	if err != nil {
		return nil
	}
	n := &core.AccountBlock{}
	if n.Deserialize(raw) != nil {
		return nil
	}
	return n
}

// dup is a copy that shares nothing.
func dup(b *core.AccountBlock) *core.AccountBlock {
	n := *b
	cp := func(x *big.Int) *big.Int {
		if x == nil {
			return nil
		}
		return new(big.Int).Set(x)
	}
	n.Amount, n.Fee, n.Difficulty = cp(b.Amount), cp(b.Fee), cp(b.Difficulty)
	n.Data, n.Nonce = append([]byte{}, b.Data...), append([]byte(nil), b.Nonce...)
	n.Signature, n.PublicKey = append([]byte(nil), b.Signature...), append([]byte(nil), b.PublicKey...)
	if b.LogHash != nil {
		h := *b.LogHash
		n.LogHash = &h
	}
	n.SendBlockList = nil
	for _, s := range b.SendBlockList {
		n.SendBlockList = append(n.SendBlockList, dup(s))
	}
	return &n
}

// rehash makes the block consistent with itself again.
func rehash(b *core.AccountBlock) {
	if b.IsReceiveBlock() {
		for i, s := range b.SendBlockList {
			s.Hash = s.ComputeSendHash(b, uint8(i))
		}
	}
	b.Hash = b.ComputeHash()
}

func sign(b *core.AccountBlock, k key) {
	rehash(b)
	b.PublicKey, b.Signature = k.pub, k.sign(b.Hash.Bytes())
}

func flip(t *rapid.T, b []byte) {
	b[rapid.IntRange(0, len(b)-1).Draw(t, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(t, "bit")
}

// bound changes one field the hash binds.
func (w *world) bound(t *rapid.T, b *core.AccountBlock) string {
	ks := []string{"prev", "height", "data", "nothing", "fee", "loghash", "nonce", "subs"}
	if b.IsSendBlock() {
		ks = append(ks, "to", "amount", "token", "to", "amount")
	} else {
		ks = append(ks, "from", "from")
	}
	if len(b.SendBlockList) > 0 {
		ks = append([]string{"sub content", "sub content"}, ks...)
	}
	k := rapid.SampledFrom(ks).Draw(t, "field")
	switch k {
	case "prev":
		flip(t, b.PrevHash[:])
	case "height":
		b.Height += uint64(rapid.SampledFrom([]int{1, 2, 1 << 40}).Draw(t, "dh"))
	case "data":
		if len(b.Data) == 0 {
			b.Data = []byte{1}
		} else {
			b.Data = append([]byte{}, b.Data...)
			flip(t, b.Data)
		}
	case "fee":
		f := big.NewInt(1)
		if b.Fee != nil {
			f.Add(f, b.Fee)
		}
		b.Fee = f
	case "loghash":
		h := types.Hash{9}
		if b.LogHash != nil {
			h = *b.LogHash
			flip(t, h[:])
		}
		b.LogHash = &h
	case "nonce":
		b.Nonce = append([]byte{}, b.Nonce...)
		if len(b.Nonce) == 0 {
			b.Nonce = []byte{0, 0, 0, 0, 0, 0, 0, 1}
		} else {
			flip(t, b.Nonce)
		}
	case "subs":
		b.SendBlockList = append(b.SendBlockList, w.forged(t, b.AccountAddress))
	case "sub content":
		x := rapid.SampledFrom(b.SendBlockList).Draw(t, "which")
		switch rapid.IntRange(0, 2).Draw(t, "content") {
		case 0:
			x.Amount = new(big.Int).Add(x.Amount, big.NewInt(1))
		case 1:
			flip(t, x.ToAddress[:20])
		case 2:
			x.Data = append(append([]byte{}, x.Data...), 1)
		}
	case "to":
		if b.ToAddress = w.user(t).addr; rapid.Bool().Draw(t, "flip") {
			flip(t, b.ToAddress[:20])
		}
	case "amount":
		b.Amount = new(big.Int).Add(b.Amount, big.NewInt(int64(rapid.SampledFrom([]int{1, 1000, 1 << 50}).Draw(t, "da"))))
	case "token":
		flip(t, b.TokenId[:])
	case "from":
		flip(t, b.FromBlockHash[:])
	}
	return k
}

// forged is a request nobody's execution made.
func (w *world) forged(t *rapid.T, from types.Address) *core.AccountBlock {
	s := &core.AccountBlock{BlockType: rapid.SampledFrom([]byte{core.BlockTypeSendCall, core.BlockTypeSendRefund, core.BlockTypeSendReward}).Draw(t, "subtype"),
		AccountAddress: from, ToAddress: w.user(t).addr, Amount: memchain.Attov(int64(rapid.IntRange(0, 5).Draw(t, "mint"))),
		TokenId: memchain.Vite, Fee: big.NewInt(0), Data: []byte{}}
	s.Hash = types.DataHash([]byte{byte(rapid.IntRange(0, 255).Draw(t, "h"))})
	return s
}

// forge makes an unacceptable block out of an acceptable one, and says how.
func (w *world) forge(t *rapid.T, good *core.AccountBlock, owner key) (*core.AccountBlock, string) {
	b := dup(good)
	attacker := rapid.SampledFrom(w.others(owner)).Draw(t, "attacker")
	switch mode := rapid.SampledFrom([]string{"bare", "rehashed", "attacker", "attackerAsOwner", "sig", "owner", "owner", "owner", "owner", "owner"}).Draw(t, "mode"); mode {
	case "bare": // content changed, hash and signature kept
		k := w.bound(t, b)
		if k == "nothing" {
			h := b.Hash
			flip(t, h[:])
			b.Hash = h
		} else if n := dup(b); true {
			if rehash(n); n.Hash == good.Hash {
				return nil, ""
			}
		}
		return b, "bare " + k
	case "rehashed": // content changed, hash right, signature of the original
		k := w.bound(t, b)
		rehash(b)
		if b.Hash == good.Hash {
			return nil, ""
		}
		return b, "rehashed " + k
	case "attacker": // signed by somebody who does not own the account (or is not elected for the contract)
		k := w.bound(t, b)
		sign(b, attacker)
		return b, "attacker " + k
	case "attackerAsOwner":
		k := w.bound(t, b)
		rehash(b)
		b.PublicKey, b.Signature = owner.pub, attacker.sign(b.Hash.Bytes())
		return b, "attackerAsOwner " + k
	case "sig":
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			b.Signature = nil
		case 1:
			b.PublicKey = nil
		case 2:
			b.Signature = append([]byte{}, b.Signature...)
			flip(t, b.Signature)
		case 3:
			b.PublicKey, b.Signature = attacker.pub, attacker.sign(b.Hash.Bytes())
		}
		return b, "sig"
	}
	// the rightful producer cheats
	var k string
	if b.IsSendBlock() {
		k = rapid.SampledFrom([]string{"height", "prev", "amount", "amount", "amount", "token", "from", "type", "fee", "subs", "subs", "subs", "loghash", "loghash", "nonce", "nonce", "create"}).Draw(t, "cheat")
	} else if types.IsContractAddr(b.AccountAddress) {
		k = rapid.SampledFrom([]string{"height", "prev", "data", "data", "loghash", "loghash", "subs", "subs", "subs", "subs", "subs", "subs", "from", "from", "type", "nonce", "rvalue"}).Draw(t, "cheat")
	} else {
		k = rapid.SampledFrom([]string{"height", "prev", "data", "loghash", "subs", "from", "from", "from", "from", "type", "nonce", "nonce", "nonce", "rvalue"}).Draw(t, "cheat")
	}
	desc := "owner " + k
	bal := func(tok types.TokenTypeId) *big.Int {
		x, err := w.c.GetBalance(b.AccountAddress, tok)
		if err != nil {
			w.t.Fatalf("GetBalance: %v", err)
		}
		return x
	}
	switch k {
	case "height":
		h := rapid.SampledFrom([]uint64{0, 1, b.Height - 1, b.Height + 1, 1 << 63}).Draw(t, "height")
		if h == b.Height {
			return nil, ""
		}
		b.Height = h
	case "prev":
		switch rapid.IntRange(0, 2).Draw(t, "prev") {
		case 0:
			flip(t, b.PrevHash[:])
		case 1:
			b.PrevHash = types.Hash{}
		case 2:
			b.PrevHash = rapid.SampledFrom(w.all).Draw(t, "old").Hash
		}
		if b.PrevHash == good.PrevHash {
			return nil, ""
		}
	case "data": // receives only: the result of the execution
		switch rapid.IntRange(0, 2).Draw(t, "data") {
		case 0:
			b.Data = append(append([]byte{}, b.Data...), 0)
		case 1:
			if len(b.Data) == 0 {
				return nil, ""
			}
			b.Data = append([]byte{}, b.Data...)
			flip(t, b.Data)
		case 2:
			if len(b.Data) == 0 {
				return nil, ""
			}
			b.Data = nil
		}
	case "loghash":
		if b.LogHash != nil && rapid.Bool().Draw(t, "drop") {
			b.LogHash = nil
			break
		}
		h := types.Hash{7}
		if len(w.logs) > 0 && rapid.Bool().Draw(t, "existing") {
			h = rapid.SampledFrom(w.logs).Draw(t, "log")
		}
		if b.LogHash != nil && *b.LogHash == h {
			return nil, ""
		}
		b.LogHash = &h
	case "subs":
		n := len(b.SendBlockList)
		op := 0
		if n > 0 {
			op = rapid.IntRange(0, 5).Draw(t, "subop")
		}
		i := 0
		if n > 0 {
			i = rapid.IntRange(0, n-1).Draw(t, "sub")
		}
		desc += fmt.Sprintf(" op %d of %d", op, n)
		switch op {
		case 0:
			at := rapid.IntRange(0, n).Draw(t, "at")
			l := append([]*core.AccountBlock{}, b.SendBlockList[:at]...)
			l = append(l, w.forged(t, b.AccountAddress))
			b.SendBlockList = append(l, b.SendBlockList[at:]...)
		case 1:
			b.SendBlockList = append(append([]*core.AccountBlock{}, b.SendBlockList[:i]...), b.SendBlockList[i+1:]...)
		case 2:
			b.SendBlockList[i].Amount = new(big.Int).Add(b.SendBlockList[i].Amount, big.NewInt(1))
		case 3:
			a := w.user(t).addr
			if a == b.SendBlockList[i].ToAddress {
				return nil, ""
			}
			b.SendBlockList[i].ToAddress = a
		case 4:
			b.SendBlockList[i].Data = append(append([]byte{}, b.SendBlockList[i].Data...), 7)
		case 5: // a request inside a request
			b.SendBlockList[i].SendBlockList = []*core.AccountBlock{w.forged(t, b.AccountAddress)}
		}
		if op == 0 && b.IsSendBlock() && rapid.Bool().Draw(t, "ownhash") {
			s := b.SendBlockList[0]
			s.Hash = s.ComputeSendHash(b, 0)
		}
	case "amount":
		switch rapid.IntRange(0, 2).Draw(t, "amount") {
		case 0:
			b.Amount = new(big.Int).Add(bal(b.TokenId), big.NewInt(int64(rapid.SampledFrom([]int{1, 2, 1 << 40}).Draw(t, "over"))))
		case 1:
			b.Amount = new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{128, 255, 256, 257, 300}).Draw(t, "bits")))
		case 2:
			b.Amount = big.NewInt(-int64(rapid.IntRange(1, 1000).Draw(t, "neg")))
		}
		if rapid.Bool().Draw(t, "plain") { // a plain transfer: nothing but the balance can refuse it
			b.BlockType, b.ToAddress, b.Data, b.Fee = core.BlockTypeSendCall, w.users[1].addr, nil, big.NewInt(0)
		}
	case "token":
		if b.Amount.Sign() == 0 {
			b.Amount = big.NewInt(1)
		}
		if rapid.Bool().Draw(t, "zero") {
			b.TokenId = types.ZERO_TOKENID
		} else {
			b.TokenId = types.TokenTypeId{1, 2, 3}
		}
	case "from":
		if b.IsSendBlock() {
			flip(t, b.FromBlockHash[:])
			break
		}
		var l []types.Hash
		switch rapid.IntRange(0, 4).Draw(t, "which") {
		case 0:
			l = []types.Hash{{}, {1}}
		case 1: // received already
			for h := range w.done {
				l = append(l, h)
			}
		case 2: // somebody else's
			for _, s := range w.pend {
				if s.ToAddress != b.AccountAddress {
					l = append(l, s.Hash)
				}
			}
		case 3: // not the turn of this one
			if types.IsContractAddr(b.AccountAddress) {
				for _, s := range w.pend {
					if s.ToAddress == b.AccountAddress && w.front(s) != s {
						l = append(l, s.Hash)
					}
				}
			}
		case 4: // not a request at all
			for _, x := range w.all {
				if x.IsReceiveBlock() {
					l = append(l, x.Hash)
				}
			}
		}
		if len(l) == 0 {
			return nil, ""
		}
		sortHashes(l)
		b.FromBlockHash = rapid.SampledFrom(l).Draw(t, "fromhash")
		// do it right in everything else: let the generator run the other request
		if s := w.sends[b.FromBlockHash]; s != nil && rapid.Bool().Draw(t, "run") {
			x := dup(s)
			x.ToAddress = b.AccountAddress
			if vb, err := w.gen(b.AccountAddress, func(g interfaces.Generator) (*interfaces.GenResult, error) {
				return g.GenerateWithOnRoad(x, &owner.addr, owner.signFunc, nil)
			}); err == nil {
				b = vb.AccountBlock
				desc += " run"
			}
		}
	case "type":
		ts := []byte{0, 1, 2, 3, 4, 5, 6, 7, 8, 200}
		b.BlockType = rapid.SampledFrom(ts).Draw(t, "type")
		if b.BlockType == good.BlockType {
			return nil, ""
		}
		if b.Amount == nil && b.IsSendBlock() {
			b.Amount, b.Fee = big.NewInt(0), big.NewInt(0)
		}
		// 1 and 2 (create, call) may both be sound for a request with the right data
		if good.IsSendBlock() && (b.BlockType == core.BlockTypeSendCall || b.BlockType == core.BlockTypeSendCreate) {
			return nil, ""
		}
		// a plain transfer of nothing is sound too
		if good.IsReceiveBlock() && b.BlockType == core.BlockTypeSendCall {
			b.Amount, b.TokenId = new(big.Int).Add(bal(memchain.Vite), big.NewInt(1)), memchain.Vite
		}
	case "fee":
		f := big.NewInt(int64(rapid.SampledFrom([]int{1, 1000}).Draw(t, "fee")))
		if good.Fee != nil {
			f.Add(f, good.Fee)
			if good.Fee.Sign() > 0 && rapid.Bool().Draw(t, "nofee") {
				f = big.NewInt(0)
			}
		}
		b.Fee = f
	case "nonce":
		switch rapid.SampledFrom([]int{3, 0, 1, 2, 4, 3}).Draw(t, "pow") {
		case 0:
			b.Nonce, b.Difficulty = []byte{0, 0, 0, 0, 0, 0, 0, 1}, nil
		case 1:
			b.Nonce, b.Difficulty = nil, big.NewInt(1)
		case 2:
			b.Nonce, b.Difficulty = make([]byte, rapid.SampledFrom([]int{1, 7, 9, 16}).Draw(t, "len")), big.NewInt(1)
		case 3:
			b.Nonce, b.Difficulty = []byte{0, 0, 0, 0, 0, 0, 0, 1}, new(big.Int).Lsh(big.NewInt(1), uint(rapid.IntRange(60, 255).Draw(t, "hard")))
		case 4:
			if !types.IsContractAddr(b.AccountAddress) {
				return nil, ""
			}
			b.Nonce, b.Difficulty = []byte{0, 0, 0, 0, 0, 0, 0, 1}, big.NewInt(1)
		}
	case "create": // the address of a new contract is not the creator's choice
		if b.BlockType != core.BlockTypeSendCreate {
			return nil, ""
		}
		flip(t, b.ToAddress[:20])
	case "rvalue":
		switch rapid.IntRange(0, 3).Draw(t, "rv") {
		case 0:
			b.Amount = big.NewInt(1)
		case 1:
			b.Fee = big.NewInt(1)
		case 2:
			b.ToAddress = w.users[0].addr
		case 3:
			b.TokenId = memchain.Vite
		}
	}
	if k == "subs" && b.IsSendBlock() {
		h := b.SendBlockList[0].Hash
		sign(b, owner)
		b.SendBlockList[0].Hash = h
		b.Hash = b.ComputeHash()
		b.Signature = owner.sign(b.Hash.Bytes())
		return b, desc
	}
	sign(b, owner)
	return b, desc
}

func sameDb(a, b interfaces.VmDb) string {
	if x, y := a.GetUnsavedBalanceMap(), b.GetUnsavedBalanceMap(); fmt.Sprint(x) != fmt.Sprint(y) {
		return fmt.Sprintf("balances %v, %v", x, y)
	}
	if x, y := a.GetUnsavedStorage(), b.GetUnsavedStorage(); fmt.Sprint(sortKV(x)) != fmt.Sprint(sortKV(y)) {
		return fmt.Sprintf("storage %v, %v", x, y)
	}
	if x, y := a.GetUnsavedContractCode(), b.GetUnsavedContractCode(); !bytes.Equal(x, y) {
		return "code"
	}
	if x, y := a.GetLogListHash(), b.GetLogListHash(); !reflect.DeepEqual(x, y) {
		return "logs"
	}
	return ""
}

// offer proposes the block, after forgeries of it.
func (w *world) offer(vb *interfaces.VmAccountBlock, owner key, kind string) {
	good := vb.AccountBlock
	w.kinds[kind]++
	i := 0
	if !w.quiet {
		i = rapid.IntRange(0, 6).Draw(w.t, "forgeries")
	}
	for ; i > 0; i-- {
		bad, how := w.forge(w.t, good, owner)
		if bad == nil {
			continue
		}
		w.tried++
		w.kinds["forged "+strings.SplitN(how, " op", 2)[0]]++
		before := dup(bad)
		if _, why := w.judge(bad, rapid.Bool().Draw(w.t, "rpc")); why == "" {
			w.t.Fatalf("accepted a forged block (%s: %s)\nvalid:  %s\nforged: %s\nhistory: %s", kind, how, show(good), show(before), w.hist())
		}
	}
	if !w.quiet && rapid.IntRange(0, 2).Draw(w.t, "noise") == 0 { // damaged on the wire
		raw, err := good.Serialize()
		if err != nil {
			w.t.Fatalf("Serialize: %v", err)
		}
		for i := rapid.IntRange(1, 3).Draw(w.t, "flips"); i > 0; i-- {
			flip(w.t, raw)
		}
		b := &core.AccountBlock{}
		var derr error
		if p := vlib.Catch(func() { derr = b.Deserialize(raw) }); p != nil {
			w.t.Fatalf("Deserialize panicked: %v", p)
		}
		if derr == nil {
			w.kinds["damaged"]++
			if vb, why := w.judge(b, false); why == "" && vb.AccountBlock.Hash != good.Hash {
				w.t.Fatalf("accepted a damaged block with another content\nvalid:  %s\ndamaged: %s\nhistory: %s", show(good), show(b), w.hist())
			}
		}
	}
	in := wire(good)
	if in == nil || in.Hash != good.Hash {
		w.t.Fatalf("a generated block does not survive the wire: %s", show(good))
	}
	first := rapid.Bool().Draw(w.t, "rpcFirst")
	for _, rpc := range []bool{first, !first} {
		got, why := w.judge(wire(good), rpc)
		if why != "" {
			w.t.Fatalf("refused the generator's own block (%s, rpc %v): %s\nblock: %s\nhistory: %s", kind, rpc, why, show(good), w.hist())
		}
		if got.AccountBlock.Hash != good.Hash || got.AccountBlock.ComputeHash() != good.Hash {
			w.t.Fatalf("verification returned another block: %s for %s", show(got.AccountBlock), show(good))
		}
		if d := sameDb(vb.VmDb, got.VmDb); d != "" {
			w.t.Fatalf("verifier and producer computed different effects (%s): %s\nhistory: %s", show(good), d, w.hist())
		}
		vb2 := got
		if rpc != first {
			w.insert(vb2)
		}
	}
	w.log("%s %s#%d", kind, w.name(good.AccountAddress), good.Height)
}

func TestAcceptance(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 80, Thorough: 1500, Rule: "at least one generated block was accepted, at least 10 forgeries were tried and a contract answered a request"}, func(rt *rapid.T, c *vlib.C) {
		w := newWorld(rt)
		defer w.close()
		w.prelude()
		n := rapid.IntRange(10, 45).Draw(rt, "ops")
		for i := 0; i < n && !w.over; i++ {
			switch rapid.SampledFrom([]string{"send", "send", "send", "receive", "receive", "contract", "contract", "contract", "snapshot", "early", "turn"}).Draw(rt, "op") {
			case "send":
				w.send()
			case "receive":
				w.receive()
			case "contract":
				w.contract()
			case "snapshot":
				w.snapshot()
			case "early":
				w.early()
			case "turn":
				w.outOfTurn()
			}
		}
		for k := range w.kinds {
			c.Label(k)
		}
		if w.tried >= 10 && w.kinds["contract receive"] > 0 {
			c.NonTrivial(w.hist())
			c.Sample("%d ops, %d forgeries refused: %s", n, w.tried, w.hist())
		}
	})
}

// ---- snapshot blocks ----

func (w *world) judgeSb(b *core.SnapshotBlock) (why string) {
	p := vlib.Catch(func() {
		if err := w.v.VerifyNetSnapshotBlock(b); err != nil {
			why = err.Error()
			return
		}
		if err := w.v.VerifySnapshotBlockHash(b); err != nil {
			why = "hash: " + err.Error()
			w.t.Fatalf("VerifyNetSnapshotBlock passed but VerifySnapshotBlockHash says %v", err)
		}
		if err := w.v.VerifySnapshotBlockSignature(b); err != nil {
			w.t.Fatalf("VerifyNetSnapshotBlock passed but VerifySnapshotBlockSignature says %v", err)
		}
		st := w.v.VerifyReferred(b)
		if st.VerifyResult() != success {
			why = fmt.Sprintf("result %d %s", st.VerifyResult(), st.ErrMsg())
		}
	})
	if p != nil {
		w.t.Fatalf("snapshot verification panicked: %v\nhistory: %s", p, w.hist())
	}
	return
}

func copySb(b *core.SnapshotBlock) *core.SnapshotBlock {
	n := *b
	ts := *b.Timestamp
	n.Timestamp = &ts
	if b.SnapshotContent != nil {
		n.SnapshotContent = core.SnapshotContent{}
		for a, h := range b.SnapshotContent {
			hh := *h
			n.SnapshotContent[a] = &hh
		}
	}
	if b.SeedHash != nil {
		h := *b.SeedHash
		n.SeedHash = &h
	}
	return &n
}

func signSb(b *core.SnapshotBlock, k key) {
	b.Hash = b.ComputeHash()
	b.PublicKey, b.Signature = k.pub, k.sign(b.Hash.Bytes())
}

func (w *world) forgeSb(good *core.SnapshotBlock, k key) (*core.SnapshotBlock, string) {
	t, b := w.t, copySb(good)
	var addrs []types.Address
	for _, a := range w.addrs() {
		if b.SnapshotContent[a] != nil {
			addrs = append(addrs, a)
		}
	}
	change := func(how string) bool {
		switch how {
		case "height":
			b.Height = rapid.SampledFrom([]uint64{0, 1, b.Height - 1, b.Height + 1, 1 << 63}).Draw(t, "height")
		case "prev":
			if rapid.Bool().Draw(t, "old") && b.Height > 2 {
				x, _ := w.c.GetSnapshotBlockByHeight(b.Height - 2)
				b.PrevHash = x.Hash
			} else {
				flip(t, b.PrevHash[:])
			}
		case "time":
			head := w.c.GetLatestSnapshotBlock().Timestamp
			ts := head.Add(time.Duration(rapid.SampledFrom([]int{0, -1, -1000}).Draw(t, "dt")) * time.Second)
			if rapid.IntRange(0, 2).Draw(t, "future") == 0 {
				ts = time.Now().Add(2 * time.Hour)
			}
			b.Timestamp = &ts
		case "content-hash":
			if len(addrs) == 0 {
				return false
			}
			x := b.SnapshotContent[rapid.SampledFrom(addrs).Draw(t, "addr")]
			flip(t, x.Hash[:])
		case "content-height":
			if len(addrs) == 0 {
				return false
			}
			b.SnapshotContent[rapid.SampledFrom(addrs).Draw(t, "addr")].Height += uint64(rapid.SampledFrom([]int{1, 2, 1 << 30}).Draw(t, "dh"))
		case "content-unknown":
			if b.SnapshotContent == nil {
				b.SnapshotContent = core.SnapshotContent{}
			}
			b.SnapshotContent[types.Address{0x66, 1}] = &core.HashHeight{Height: 1, Hash: types.Hash{4}}
		case "seed":
			b.Seed++
		}
		return true
	}
	any := []string{"height", "prev", "time", "content-hash", "content-height", "content-unknown"}
	switch mode := rapid.SampledFrom([]string{"bare", "rehashed", "attacker", "sig", "owner", "owner", "owner"}).Draw(t, "mode"); mode {
	case "bare":
		how := rapid.SampledFrom(append(any, "seed")).Draw(t, "how")
		if !change(how) || b.ComputeHash() == good.Hash {
			return nil, ""
		}
		return b, "bare " + how
	case "rehashed":
		how := rapid.SampledFrom(append(any, "seed")).Draw(t, "how")
		if !change(how) {
			return nil, ""
		}
		b.Hash = b.ComputeHash()
		if b.Hash == good.Hash {
			return nil, ""
		}
		return b, "rehashed " + how
	case "attacker":
		signSb(b, rapid.SampledFrom(w.others(k)).Draw(t, "attacker"))
		return b, "attacker"
	case "sig":
		switch rapid.IntRange(0, 3).Draw(t, "how") {
		case 0:
			b.Signature = nil
		case 1:
			b.PublicKey = nil
		case 2:
			b.Signature = append([]byte{}, b.Signature...)
			flip(t, b.Signature)
		case 3:
			o := rapid.SampledFrom(w.others(k)).Draw(t, "attacker")
			b.Signature = o.sign(b.Hash.Bytes())
		}
		return b, "sig"
	}
	how := rapid.SampledFrom(any).Draw(t, "how")
	if !change(how) {
		return nil, ""
	}
	// the producer of the height the block claims signs it
	signSb(b, w.producer(b.Height))
	if b.Hash == good.Hash {
		return nil, ""
	}
	return b, "owner " + how
}
