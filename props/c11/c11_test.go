package c11

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"verif/gens"
	"verif/memchain"
	"verif/vlib"
)

const users = 3

var (
	issueFee = memchain.Attov(1000)
	max256   = new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1))
	mod256   = new(big.Int).Lsh(big.NewInt(1), 256)
)

type token struct {
	id           types.TokenTypeId
	name, symbol string
	supply, max  *big.Int
	dec          uint8
	owner        types.Address
	reissuable   bool
	ownerBurn    bool
	index        uint16
}

type op struct {
	method       string
	sender       types.Address
	amount       *big.Int
	token        types.TokenTypeId // attached token
	id           types.TokenTypeId // argument
	mint         *big.Int
	to           types.Address
	name, symbol string
	supply, max  *big.Int
	dec, bid     uint8
	re, ownerB   bool
	send         *core.AccountBlock
}

func (o *op) kind() string {
	switch o.method {
	case "Mint", "IssueToken":
		return "new"
	case "Issue", "ReIssue":
		return "mint"
	case "TransferOwner", "TransferOwnership":
		return "transfer"
	case "ChangeTokenType", "DisableReIssue":
		return "disable"
	case "GetTokenInfo", "GetTokenInformation":
		return "info"
	}
	return o.method
}

func (o *op) data() []byte {
	var d []byte
	var err error
	switch o.kind() {
	case "new":
		d, err = cabi.ABIAsset.PackMethod(o.method, o.re, o.name, o.symbol, o.supply, o.dec, o.max, o.ownerB)
	case "mint":
		d, err = cabi.ABIAsset.PackMethod(o.method, o.id, o.mint, o.to)
	case "Burn":
		d, err = cabi.ABIAsset.PackMethod(o.method)
	case "Burn2":
		d, err = cabi.ABIAsset.PackMethod(o.method, big.NewInt(1), []byte("x"))
	case "transfer":
		d, err = cabi.ABIAsset.PackMethod(o.method, o.id, o.to)
	case "disable":
		d, err = cabi.ABIAsset.PackMethod(o.method, o.id)
	case "info":
		if o.method == "GetTokenInfo" {
			d, err = cabi.ABIAsset.PackMethod(o.method, o.id, o.bid)
		} else {
			d, err = cabi.ABIAsset.PackMethod(o.method, o.id)
		}
	}
	if err != nil {
		panic(err)
	}
	return d
}

func letter(b byte) bool { return b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '_' }

func goodName(s string) bool {
	if len(s) == 0 || len(s) > 40 || s[0] == ' ' || s[len(s)-1] == ' ' {
		return false
	}
	for i := 0; i < len(s); i++ {
		if s[i] == ' ' {
			if s[i-1] == ' ' {
				return false
			}
		} else if !letter(s[i]) {
			return false
		}
	}
	return true
}

func goodSymbol(s string) bool {
	if len(s) == 0 || len(s) > 10 || s == "VITE" || s == "VCP" || s == "VX" {
		return false
	}
	for i := 0; i < len(s); i++ {
		if !(s[i] >= 'A' && s[i] <= 'Z' || s[i] >= '0' && s[i] <= '9') {
			return false
		}
	}
	return true
}

func (o *op) accepted(bal func(types.TokenTypeId) *big.Int) bool {
	if o.amount.Cmp(bal(o.token)) > 0 {
		return false
	}
	switch o.kind() {
	case "new":
		if o.amount.Sign() > 0 || bal(memchain.Vite).Cmp(issueFee) < 0 || !goodName(o.name) || !goodSymbol(o.symbol) {
			return false
		}
		if !o.re {
			return o.supply.Sign() > 0 && o.max.Sign() == 0 && !o.ownerB
		}
		return o.max.Cmp(o.supply) >= 0
	case "mint":
		return o.mint.Sign() > 0 && o.amount.Sign() == 0
	case "Burn":
		return o.amount.Sign() > 0
	case "Burn2":
		return false
	case "transfer":
		return o.amount.Sign() == 0 && o.to != o.sender
	}
	return o.amount.Sign() == 0
}

type world struct {
	rt      *rapid.T
	c       *memchain.Chain
	toks    map[types.TokenTypeId]*token
	order   []types.TokenTypeId
	lists   map[types.Address]map[types.TokenTypeId]bool
	next    map[string]uint16
	pending []*op
	log     []string
}

func (w *world) fail(f string, a ...interface{}) {
	w.rt.Helper()
	w.rt.Fatalf(f+"\nhistory:\n%s", append(a, fmt.Sprint(w.log))...)
}

func (w *world) drawToken() types.TokenTypeId {
	if rapid.IntRange(0, 24).Draw(w.rt, "unknown") == 0 {
		return gens.TokenId().Draw(w.rt, "tid")
	}
	n := len(w.order)
	return w.order[n-1-rapid.IntRange(0, min(n-1, 5)).Draw(w.rt, "tok")]
}

func (w *world) drawOp() *op {
	rt := w.rt
	u := func(l string) types.Address { return memchain.User(rapid.IntRange(0, users-1).Draw(rt, l)) }
	o := &op{sender: u("sender"), amount: new(big.Int), token: memchain.Vite, to: u("to")}
	if rapid.IntRange(0, 9).Draw(rt, "far") == 0 {
		o.to = memchain.User(40)
	}
	o.method = rapid.SampledFrom([]string{"Mint", "IssueToken", "IssueToken", "Issue", "ReIssue", "ReIssue", "Burn", "Burn", "Burn", "Burn2", "TransferOwner", "TransferOwnership", "ChangeTokenType", "DisableReIssue", "GetTokenInfo", "GetTokenInformation"}).Draw(rt, "m")
	o.id = w.drawToken()
	tk := w.toks[o.id]
	// the owner usually acts on its own token
	if tk != nil && rapid.IntRange(0, 3).Draw(rt, "asOwner") > 0 {
		for i := 0; i < users; i++ {
			if memchain.User(i) == tk.owner {
				o.sender = tk.owner
			}
		}
	}
	big0 := func(l string) *big.Int {
		switch rapid.IntRange(0, 6).Draw(rt, l) {
		case 0:
			return new(big.Int)
		case 1:
			return new(big.Int).Set(max256)
		case 2:
			return gens.Big(256).Draw(rt, l+"b")
		case 3:
			return new(big.Int).Sub(max256, gens.Big(20).Draw(rt, l+"b"))
		}
		return big.NewInt(int64(rapid.IntRange(1, 1000).Draw(rt, l+"s")))
	}
	switch o.kind() {
	case "new":
		o.re, o.ownerB = rapid.Bool().Draw(rt, "re"), rapid.IntRange(0, 3).Draw(rt, "ob") == 0
		o.name = rapid.SampledFrom([]string{"My Token", "a", "_", "A_b c", "bad  two", " lead", "trail ", "", "dig1t", "nl\n", "é", "abcdefghijklmnopqrstuvwxyzabcdefghijklmn", "abcdefghijklmnopqrstuvwxyzabcdefghijklmno"}).Draw(rt, "name")
		if rapid.IntRange(0, 2).Draw(rt, "gn") > 0 {
			o.name = "Coin"
		}
		o.symbol = rapid.SampledFrom([]string{"VITE", "VCP", "VX", "", "abc", "A B", "ABCDEFGHIJ", "ABCDEFGHIJK", "9", "A\n"}).Draw(rt, "symbol")
		if rapid.IntRange(0, 2).Draw(rt, "gs") > 0 {
			o.symbol = rapid.SampledFrom([]string{"AAA", "BBB", "TOKA"}).Draw(rt, "symbol2")
		}
		o.supply = big0("supply")
		o.dec = rapid.Byte().Draw(rt, "dec")
		switch rapid.IntRange(0, 5).Draw(rt, "maxk") {
		case 0:
			o.max = big0("max")
		case 1:
			o.max = new(big.Int).Set(o.supply)
		case 2:
			o.max = new(big.Int).Sub(o.supply, big.NewInt(1))
			if o.max.Sign() < 0 {
				o.max = new(big.Int)
			}
		default:
			if o.re {
				o.max = new(big.Int).Add(o.supply, big.NewInt(int64(rapid.IntRange(0, 2000).Draw(rt, "room"))))
				if o.max.Cmp(max256) > 0 {
					o.max = new(big.Int).Set(max256)
				}
			} else {
				o.max, o.ownerB = new(big.Int), false
			}
		}
	case "mint":
		o.mint = big0("mint")
		if tk != nil && rapid.IntRange(0, 2).Draw(rt, "edge") > 0 {
			room := new(big.Int).Sub(tk.max, tk.supply)
			room.Add(room, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(rt, "d"))))
			if room.Sign() >= 0 {
				o.mint = room
			}
			if o.mint.Cmp(max256) > 0 {
				o.mint = new(big.Int).Set(max256)
			}
		}
	case "Burn", "Burn2":
		o.token = o.id
		bal, _ := w.c.GetBalance(o.sender, o.token)
		if bal.Sign() == 0 { // prefer a holder
			for i := 0; i < users; i++ {
				if b, _ := w.c.GetBalance(memchain.User(i), o.token); b.Sign() > 0 {
					o.sender, bal = memchain.User(i), b
				}
			}
		}
		switch rapid.IntRange(0, 4).Draw(rt, "bk") {
		case 0:
			o.amount = new(big.Int).Set(bal)
		case 1:
			o.amount = new(big.Int).Add(bal, big.NewInt(1))
		case 2:
			o.amount = new(big.Int)
		default:
			o.amount = new(big.Int).Rsh(bal, uint(rapid.IntRange(0, 8).Draw(rt, "rs")))
		}
	case "info":
		o.bid = rapid.Byte().Draw(rt, "bid")
	}
	if o.kind() != "Burn" && rapid.IntRange(0, 24).Draw(rt, "attach") == 0 {
		o.amount = big.NewInt(1)
	}
	return o
}

func (w *world) submit(c *vlib.C) {
	o := w.drawOp()
	bal := func(t types.TokenTypeId) *big.Int { b, _ := w.c.GetBalance(o.sender, t); return b }
	want := o.accepted(bal)
	v0 := bal(memchain.Vite)
	r := w.c.Send(memchain.Tx{From: o.sender, To: types.AddressAsset, Amount: o.amount, Token: o.token, Data: o.data()})
	w.log = append(w.log, fmt.Sprintf("send %s by %x token %x id %x amount %v mint %v to %x name %q symbol %q supply %v max %v re %v ob %v: %v\n", o.method, o.sender[:3], o.token, o.id, o.amount, o.mint, o.to[:3], o.name, o.symbol, o.supply, o.max, o.re, o.ownerB, r.Err))
	if r.Panic != nil {
		w.fail("send panicked: %v", r.Panic)
	}
	got := r.Err == nil && r.Block != nil
	if got != want {
		w.fail("%s: accepted %v, the rules say %v (%v)", o.method, got, want, r.Err)
	}
	if got && o.kind() == "new" {
		if d := new(big.Int).Sub(v0, bal(memchain.Vite)); d.Cmp(issueFee) != 0 {
			w.fail("issuing costs %v, not %v", d, issueFee)
		}
	}
	c.Label(fmt.Sprintf("send %s accepted=%v", o.kind(), got))
	if got {
		o.send = r.Block
		w.pending = append(w.pending, o)
	}
}

// apply runs the call on the model: whether it succeeds and what is minted to whom.
func (w *world) apply(o *op) (ok bool, minted *big.Int, to types.Address, tk *token) {
	switch o.kind() {
	case "new":
		idx := w.next[o.symbol]
		if idx >= 1000 {
			return
		}
		w.next[o.symbol] = idx + 1
		tk = &token{name: o.name, symbol: o.symbol, supply: o.supply, max: o.max, dec: o.dec, owner: o.sender, reissuable: o.re, ownerBurn: o.ownerB, index: idx}
		return true, o.supply, o.sender, tk
	case "mint":
		tk = w.toks[o.id]
		if tk == nil || !tk.reissuable || tk.owner != o.sender || new(big.Int).Add(tk.supply, o.mint).Cmp(tk.max) > 0 {
			return
		}
		tk.supply = new(big.Int).Add(tk.supply, o.mint)
		return true, o.mint, o.to, tk
	case "Burn":
		tk = w.toks[o.token]
		if tk == nil || tk.ownerBurn && tk.owner != o.sender {
			return
		}
		tk.supply = new(big.Int).Sub(tk.supply, o.amount)
		return true, nil, o.to, tk
	case "transfer", "disable":
		tk = w.toks[o.id]
		if tk == nil || !tk.reissuable || tk.owner != o.sender {
			return
		}
		if o.kind() == "disable" {
			tk.reissuable, tk.ownerBurn, tk.max = false, false, new(big.Int)
		} else {
			delete(w.lists[tk.owner], tk.id)
			tk.owner = o.to
			w.own(o.to, tk.id)
		}
		return true, nil, o.to, tk
	}
	return true, nil, o.to, w.toks[o.id]
}

func (w *world) own(a types.Address, id types.TokenTypeId) {
	if w.lists[a] == nil {
		w.lists[a] = map[types.TokenTypeId]bool{}
	}
	w.lists[a][id] = true
}

func (w *world) receive(c *vlib.C) {
	if len(w.pending) == 0 {
		return
	}
	i := rapid.IntRange(0, len(w.pending)-1).Draw(w.rt, "which")
	o := w.pending[i]
	w.pending = append(w.pending[:i:i], w.pending[i+1:]...)
	r := w.c.Receive(o.send)
	if r.Panic != nil || r.Block == nil {
		w.fail("receive of %s: panic %v err %v", o.method, r.Panic, r.Err)
	}
	ok, minted, to, tk := w.apply(o)
	w.log = append(w.log, fmt.Sprintf("receive %s by %x: expected %v, err %v\n", o.method, o.sender[:3], ok, r.Err))
	if (r.Err == nil) != ok {
		w.fail("%s by %v: succeeded %v, the rules say %v (%v)", o.method, o.sender, r.Err == nil, ok, r.Err)
	}
	if n := len(r.Block.Data); n != 33 || (r.Block.Data[32] == 0) != ok {
		w.fail("%s: receipt %x does not say success=%v", o.method, r.Block.Data, ok)
	}
	c.Label(fmt.Sprintf("receive %s ok=%v", o.kind(), ok))
	type out struct {
		to     types.Address
		amount *big.Int
		token  types.TokenTypeId
		data   []byte
		typ    byte
	}
	var exp []out
	var logs int
	switch {
	case !ok:
		if o.amount.Sign() > 0 {
			exp = append(exp, out{o.sender, o.amount, o.token, nil, core.BlockTypeSendCall})
		}
		if o.kind() == "new" {
			exp = append(exp, out{o.sender, issueFee, memchain.Vite, nil, core.BlockTypeSendCall})
		}
	case o.kind() == "info":
		var d []byte
		x := tk
		if x == nil {
			x = &token{supply: new(big.Int), max: new(big.Int)}
		}
		if o.method == "GetTokenInfo" {
			d, _ = cabi.ABIAsset.PackCallback(o.method, o.id, o.bid, tk != nil, x.dec, x.symbol, x.index, x.owner)
		} else {
			d, _ = cabi.ABIAsset.PackCallback(o.method, o.send.Hash, o.id, tk != nil, x.reissuable, x.name, x.symbol, x.supply, x.dec, x.max, x.ownerBurn, x.index, x.owner)
		}
		exp = append(exp, out{o.sender, new(big.Int), memchain.Vite, d, core.BlockTypeSendCall})
	case o.kind() == "new":
		if len(r.Block.SendBlockList) != 1 {
			w.fail("issue minted nothing")
		}
		tk.id = r.Block.SendBlockList[0].TokenId
		if w.toks[tk.id] != nil {
			w.fail("the new token reuses id %x", tk.id)
		}
		w.toks[tk.id] = tk
		w.order = append(w.order, tk.id)
		w.own(o.sender, tk.id)
		fallthrough
	case o.kind() == "mint":
		exp = append(exp, out{to, minted, tk.id, nil, core.BlockTypeSendReward})
		logs = 1
	default:
		logs = 1
	}
	if len(exp) != len(r.Block.SendBlockList) {
		w.fail("%s: %d triggered sends, expected %d", o.method, len(r.Block.SendBlockList), len(exp))
	}
	for k, s := range r.Block.SendBlockList {
		e := exp[k]
		if s.ToAddress != e.to || s.Amount.Cmp(e.amount) != 0 || s.TokenId != e.token || !bytes.Equal(s.Data, e.data) || s.BlockType != e.typ {
			w.fail("%s: triggered send type %d to %v of %v %x data %x, expected %+v", o.method, s.BlockType, s.ToAddress, s.Amount, s.TokenId, s.Data, e)
		}
	}
	if n := len(r.Db.GetLogList()); n != logs {
		w.fail("%s: %d events, expected %d", o.method, n, logs)
	}
	if logs == 1 {
		l := r.Db.GetLogList()[0]
		tid := tk.id
		if len(l.Topics) != 2 || !bytes.Equal(l.Topics[1].Bytes()[32-10:], tid.Bytes()) {
			w.fail("%s: event %x does not name token %x", o.method, l.Topics, tid)
		}
	}
	for _, s := range r.Block.SendBlockList {
		if rapid.IntRange(0, 4).Draw(w.rt, "now") > 0 {
			if rr := w.c.Receive(s); rr.Err != nil || rr.Panic != nil {
				w.fail("%v cannot receive: %v %v", s.ToAddress, rr.Err, rr.Panic)
			}
		}
	}
	if ok && o.kind() != "info" && o.kind() != "new" {
		c.NonTrivial(w.log)
		c.Sample("%v", w.log)
	}
}

func (w *world) check() {
	st := w.c.Storage(types.AddressAsset)
	all, err := cabi.GetTokenMap(st)
	if err != nil {
		w.fail("token map: %v", err)
	}
	if len(all) != len(w.toks) {
		w.fail("%d tokens recorded, expected %d", len(all), len(w.toks))
	}
	sums := w.c.Totals()
	for _, a := range w.c.OnroadAddrs {
		for _, s := range w.c.Onroad[a] {
			if sums[s.TokenId] == nil {
				sums[s.TokenId] = new(big.Int)
			}
			sums[s.TokenId].Add(sums[s.TokenId], s.Amount)
		}
	}
	for id, tk := range w.toks {
		one, err := cabi.GetTokenByID(st, id)
		if err != nil || one == nil {
			w.fail("token %x not found: %v", id, err)
		}
		for _, g := range []*types.TokenInfo{one, all[id]} {
			if g == nil || g.TokenName != tk.name || g.TokenSymbol != tk.symbol || g.TotalSupply.Cmp(tk.supply) != 0 || g.MaxSupply.Cmp(tk.max) != 0 || g.Decimals != tk.dec ||
				g.Owner != tk.owner || g.IsReIssuable != tk.reissuable || g.OwnerBurnOnly != tk.ownerBurn || g.Index != tk.index {
				w.fail("token %x is recorded as %+v, expected %+v", id, g, *tk)
			}
			if g.IsReIssuable && g.TotalSupply.Cmp(g.MaxSupply) > 0 {
				w.fail("token %x: supply %v exceeds its maximum %v", id, g.TotalSupply, g.MaxSupply)
			}
		}
		if id != memchain.Vite { // VITE is also destroyed by fees
			s := sums[id]
			if s == nil {
				s = new(big.Int)
			}
			if s.Cmp(tk.supply) != 0 {
				w.fail("token %x: recorded supply %v, in existence %v", id, tk.supply, s)
			}
		}
	}
	for i := 0; i <= users; i++ {
		a := memchain.User(i)
		if i == users {
			a = memchain.User(40)
		}
		m, err := cabi.GetTokenMapByOwner(st, a)
		if err != nil || len(m) != len(w.lists[a]) {
			w.fail("%v owns %d listed tokens (%v), expected %d", a, len(m), err, len(w.lists[a]))
		}
		for id := range w.lists[a] {
			if m[id] == nil {
				w.fail("%v: owned token %x is not listed", a, id)
			}
		}
	}
	for t, b := range w.c.Acct(types.AddressAsset).Balance {
		if b.Sign() != 0 {
			w.fail("the asset contract keeps %v of %x", b, t)
		}
	}
}

func TestHistories(t *testing.T) {
	memchain.Init()
	cfg := memchain.Genesis(memchain.GenesisOpt{Users: users, Tokens: 1})
	vlib.Check(t, vlib.Opts{Rule: "histories of issue, re-issue, burn, ownership transfer, disable and query calls by 3 users, valid and invalid, amounts around 0, the remaining room and 2^256; non-trivial: at least one mint, burn, transfer or disable succeeded", Quick: 1000, Thorough: 25000},
		func(rt *rapid.T, c *vlib.C) {
			w := &world{rt: rt, c: memchain.New(cfg), toks: map[types.TokenTypeId]*token{}, lists: map[types.Address]map[types.TokenTypeId]bool{}, next: map[string]uint16{}}
			w.c.StakeOverride = func(types.Address) *big.Int { return memchain.Attov(10000000) }
			all, _ := cabi.GetTokenMap(w.c.Storage(types.AddressAsset))
			for id, g := range all {
				tk := &token{id: id, name: g.TokenName, symbol: g.TokenSymbol, supply: g.TotalSupply, max: g.MaxSupply, dec: g.Decimals, owner: g.Owner, reissuable: g.IsReIssuable, ownerBurn: g.OwnerBurnOnly, index: g.Index}
				w.toks[id] = tk
				w.order = append(w.order, id)
				w.next[tk.symbol] = tk.index + 1
			}
			sort.Slice(w.order, func(i, j int) bool { return w.order[i].Hex() < w.order[j].Hex() })
			if rapid.IntRange(0, 3).Draw(rt, "nearLimit") == 0 { // a symbol used almost as often as allowed
				n := uint16(rapid.IntRange(997, 1000).Draw(rt, "used"))
				v, _ := cabi.ABIAsset.PackVariable(cabi.VariableNameTokenIndex, n)
				w.c.Acct(types.AddressAsset).Storage[string(cabi.GetNextTokenIndexKey("AAA"))] = v
				w.next["AAA"] = n
			}
			w.check()
			for i, n := 0, rapid.IntRange(5, 60).Draw(rt, "n"); i < n; i++ {
				switch rapid.IntRange(0, 6).Draw(rt, "step") {
				case 0:
					w.c.Tick(rapid.IntRange(1, 3).Draw(rt, "t"))
				case 1:
					for _, a := range w.c.OnroadAddrs { // late receives of minted tokens
						if l := w.c.Onroad[a]; a != types.AddressAsset && len(l) > 0 {
							if rr := w.c.Receive(l[0]); rr.Err != nil || rr.Panic != nil {
								w.fail("%v cannot receive: %v %v", a, rr.Err, rr.Panic)
							}
						}
					}
				default:
					w.submit(c)
				}
				if rapid.IntRange(0, 3).Draw(rt, "rcv") > 0 {
					w.receive(c)
				}
				w.check()
			}
			for len(w.pending) > 0 {
				w.receive(c)
			}
			w.check()
		})
}
