package c32

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"testing"
	"time"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/pool"
	"github.com/vitelabs/go-vite/v2/log15"
	"github.com/vitelabs/go-vite/v2/net"
	"verif/memchain"
	"verif/vlib"
)

// peers is what the node sees of the network: it answers questions for blocks.
type peers struct {
	w     *network
	queue []item
	chunk *net.Chunk
	asked int
	sent  int
	deaf  bool // questions get lost
}

func (p *peers) BroadcastSnapshotBlock(*core.SnapshotBlock)    { p.sent++ }
func (p *peers) BroadcastSnapshotBlocks([]*core.SnapshotBlock) { p.sent++ }
func (p *peers) BroadcastAccountBlock(*core.AccountBlock)      { p.sent++ }
func (p *peers) BroadcastAccountBlocks([]*core.AccountBlock)   { p.sent++ }

func (p *peers) fetch(h types.Hash, count uint64, account bool) {
	p.asked++
	if p.deaf {
		return
	}
	if count == 0 {
		count = 1
	}
	for ; count > 0; count-- {
		i, ok := p.w.known[h]
		if !ok {
			return
		}
		it := p.w.items[i]
		if (it.ab != nil) != account {
			return
		}
		p.queue = append(p.queue, it)
		if it.ab != nil {
			h = it.ab.PrevHash
		} else {
			h = it.sb.PrevHash
		}
	}
}
func (p *peers) FetchSnapshotBlocks(h types.Hash, n uint64) { p.fetch(h, n, false) }
func (p *peers) FetchSnapshotBlocksWithHeight(h types.Hash, _ uint64, n uint64) {
	p.fetch(h, n, false)
}
func (p *peers) FetchAccountBlocks(h types.Hash, n uint64, _ *types.Address) { p.fetch(h, n, true) }
func (p *peers) FetchAccountBlocksWithHeight(h types.Hash, n uint64, _ *types.Address, _ uint64) {
	p.fetch(h, n, true)
}
func (p *peers) SubscribeAccountBlock(net.AccountBlockCallback) int   { return 1 }
func (p *peers) UnsubscribeAccountBlock(int)                          {}
func (p *peers) SubscribeSnapshotBlock(net.SnapshotBlockCallback) int { return 1 }
func (p *peers) UnsubscribeSnapshotBlock(int)                         {}
func (p *peers) SubscribeSyncStatus(net.SyncStateCallback) int        { return 1 }
func (p *peers) UnsubscribeSyncStatus(int)                            {}
func (p *peers) SyncState() net.SyncState                             { return net.SyncDone }
func (p *peers) Peek() *net.Chunk                                     { return p.chunk }
func (p *peers) Pop(types.Hash)                                       { p.chunk = nil }

// local is the node under test.
type local struct {
	t     *rapid.T
	w     *network
	n     *node
	st    stats
	p     *pool.VNode
	peers *peers
	head  *core.SnapshotBlock
	own   map[types.Hash]bool
	mine  map[types.Hash]*core.SnapshotBlock
	firm  []*core.SnapshotBlock // blocks reported as irreversible
	trace []string
	kinds map[string]int
}

func (q *local) log(f string, a ...interface{}) { q.trace = append(q.trace, fmt.Sprintf(f, a...)) }

func (q *local) hist() string {
	return "\nnetwork: " + strings.Join(q.w.trace, "; ") + "\nnode: " + strings.Join(q.trace, "; ")
}

func (q *local) do(what string, f func()) {
	var stack string
	if p := vlib.Catch(func() {
		defer func() {
			if r := recover(); r != nil {
				stack = string(debug.Stack())
				panic(r)
			}
		}()
		f()
	}); p != nil {
		q.t.Fatalf("%s: panic %v%s\n%s", what, p, q.hist(), stack)
	}
	q.observe(what)
}

// observe checks what must hold at any time.
func (q *local) observe(what string) {
	h := q.n.c.GetLatestSnapshotBlock()
	if h.Hash == q.head.Hash {
		return
	}
	i, ok := q.w.known[h.Hash]
	if !ok && !q.own[h.Hash] {
		q.t.Fatalf("%s: the node's head %d is a block nobody made%s", what, h.Height, q.hist())
	}
	if ok && q.w.items[i].bad {
		q.t.Fatalf("%s: the node's head %d is an invalid block%s", what, h.Height, q.hist())
	}
	if f := q.settled(h); h.Height <= q.head.Height && !(f != nil && !q.contains(q.head, f)) {
		// a shorter branch is only taken if enough producers built on it
		q.t.Fatalf("%s: the node went from height %d to %d%s", what, q.head.Height, h.Height, q.hist())
	}
	old, err := q.n.c.GetSnapshotHashByHeight(q.head.Height)
	if h.Height > q.head.Height && (err != nil || old == nil) {
		q.t.Fatalf("%s: no snapshot at height %d below the head %d (%v)%s", what, q.head.Height, h.Height, err, q.hist())
	}
	if old == nil || *old != q.head.Hash {
		q.kinds["switch"]++
		q.log("SWITCH %d -> %d", q.head.Height, h.Height)
		if f := q.settled(q.head); f != nil {
			x, err := q.n.c.GetSnapshotHashByHeight(f.Height)
			if err != nil || x == nil || *x != f.Hash {
				q.t.Fatalf("%s: two thirds of the producers had built on the block at height %d within a period, and it is gone (%v)%s", what, f.Height, err, q.hist())
			}
			q.kinds["switch above an irreversible block"]++
		}
		for _, f := range q.firm {
			x, err := q.n.c.GetSnapshotHashByHeight(f.Height)
			if err != nil || x == nil || *x != f.Hash {
				q.t.Fatalf("%s: the block at height %d had been reported as irreversible and is gone (%v)%s", what, f.Height, err, q.hist())
			}
		}
	}
	q.head = h
}

func (q *local) at(h uint64) *types.Hash {
	x, err := q.n.c.GetSnapshotHashByHeight(h)
	if err != nil {
		q.t.Fatalf("GetSnapshotHashByHeight: %v%s", err, q.hist())
	}
	if x == nil {
		x = &types.Hash{}
	}
	return x
}

func (q *local) get(h types.Hash) *core.SnapshotBlock {
	if b := q.mine[h]; b != nil {
		return b
	}
	if i, ok := q.w.known[h]; ok {
		return q.w.items[i].sb
	}
	return nil // genesis
}

// settled is the first block of the latest period in which enough producers built on each other, in the chain that ends in head.
func (q *local) settled(head *core.SnapshotBlock) *core.SnapshotBlock {
	return settled(q.st, head, q.get)
}

func settled(st stats, head *core.SnapshotBlock, get func(types.Hash) *core.SnapshotBlock) *core.SnapshotBlock {
	if st.nodes < 3 {
		return nil
	}
	need := st.nodes/3*2 + 1
	ti := st.GetPeriodTimeIndex()
	var first *core.SnapshotBlock
	seen := map[types.Address]bool{}
	for b := get(head.Hash); b != nil; b = get(b.PrevHash) {
		if first == nil || ti.Time2Index(*b.Timestamp) != ti.Time2Index(*first.Timestamp) {
			if first != nil && len(seen) >= need {
				return first
			}
			if b.Height <= uint64(need) {
				return nil
			}
			seen = map[types.Address]bool{}
		}
		first = b
		seen[b.Producer()] = true
	}
	return nil
}

func (q *local) contains(head, f *core.SnapshotBlock) bool {
	for b := q.get(head.Hash); b != nil; b = q.get(b.PrevHash) {
		if b.Hash == f.Hash {
			return true
		}
	}
	return false
}

func (q *local) push(i item) {
	q.deliver(i, rapid.SampledFrom([]types.BlockSource{types.RemoteFetch, types.RemoteBroadcast, types.RemoteSync}).Draw(q.t, "source"))
}

func (q *local) deliver(i item, src types.BlockSource) {
	q.do("deliver", func() {
		if i.sb != nil {
			if q.n.v.VerifyNetSnapshotBlock(i.sb) == nil {
				q.p.Snapshot(wireSb(i.sb), src)
			}
			return
		}
		b := wire(i.ab)
		if q.n.v.VerifyNetAccountBlock(b) == nil {
			q.p.Account(b, src)
		}
	})
}

func (q *local) answers() {
	l := q.peers.queue
	q.peers.queue = nil
	seen := map[types.Hash]bool{}
	for _, i := range l {
		if !seen[i.hash()] {
			seen[i.hash()] = true
			q.deliver(i, types.RemoteFetch)
		}
	}
}

// direct: a user of this node makes a block, as its wallet would.
func (q *local) direct() {
	t := q.t
	u := rapid.SampledFrom(userKeys).Draw(t, "localUser")
	to := rapid.SampledFrom(userKeys).Draw(t, "to").addr
	tok := memchain.Vite
	m := &interfaces.IncomingMessage{BlockType: core.BlockTypeSendCall, AccountAddress: u.addr, ToAddress: &to, TokenId: &tok, Amount: memchain.Attov(int64(rapid.IntRange(0, 3).Draw(t, "amount")))}
	m.Data = []byte{0xff, byte(rapid.IntRange(0, 255).Draw(t, "tag"))}
	vb, err := q.n.gen(u.addr, q.st, func(g interfaces.Generator) (*interfaces.GenResult, error) {
		return g.GenerateWithMessage(m, &u.addr, u.signFunc)
	})
	if err != nil {
		return
	}
	b := vb.AccountBlock
	sent := q.peers.sent
	q.do("AddDirectAccountBlock", func() { err = q.p.Pool().AddDirectAccountBlock(u.addr, vb) })
	if err != nil {
		q.t.Fatalf("the node refuses the block of its own user: %v%s", err, q.hist())
	}
	got, _ := q.n.c.GetAccountBlockByHash(b.Hash)
	if got == nil || q.peers.sent == sent {
		q.t.Fatalf("the block of a local user is not in the ledger or was not broadcast%s", q.hist())
	}
	q.own[b.Hash] = true
	q.kinds["own block"]++
	q.log("own %s#%d", q.w.name(u.addr), b.Height)
}

// produce: the node is a producer and makes a snapshot of all its unconfirmed blocks.
func (q *local) produce(limit uint64) {
	prev := q.n.c.GetLatestSnapshotBlock()
	if prev.Height+1 > limit {
		return
	}
	ts := prev.Timestamp.Add(time.Duration(rapid.IntRange(1, 4).Draw(q.t, "dt")) * time.Second)
	b := &core.SnapshotBlock{PrevHash: prev.Hash, Height: prev.Height + 1, Timestamp: &ts}
	b.SnapshotContent = q.n.c.GetContentNeedSnapshot()
	if len(b.SnapshotContent) == 0 {
		b.SnapshotContent = nil
	}
	k := producerKeys[(prev.Height+uint64(rapid.SampledFrom([]int{0, 0, 0, 1, 2}).Draw(q.t, "producer")))%nProducers]
	b.Hash = b.ComputeHash()
	b.Signature, b.PublicKey, _ = k.signFunc(b.Hash.Bytes())
	q.own[b.Hash] = true
	q.mine[b.Hash] = b
	var err error
	q.do("AddDirectSnapshotBlock", func() {
		q.p.Pool().LockInsert()
		defer q.p.Pool().UnLockInsert()
		err = q.p.Pool().AddDirectSnapshotBlock(b)
	})
	if err != nil {
		q.t.Fatalf("the node refuses its own snapshot: %v%s", err, q.hist())
	}
	q.kinds["own snapshot"]++
	q.log("own snapshot %d (%d)", b.Height, len(b.SnapshotContent))
}

func (q *local) chunk() {
	best := q.w.head().Height
	from := rapid.Uint64Range(1, best-1).Draw(q.t, "from")
	to := rapid.Uint64Range(from+1, best).Draw(q.t, "to")
	cs, err := q.w.n.c.GetSubLedger(from, to)
	if err != nil {
		q.t.Fatalf("GetSubLedger: %v", err)
	}
	var l []core.SnapshotChunk
	for _, c := range cs[1:] {
		x := core.SnapshotChunk{SnapshotBlock: wireSb(c.SnapshotBlock)}
		for _, b := range c.AccountBlocks {
			x.AccountBlocks = append(x.AccountBlocks, wire(b))
		}
		l = append(l, x)
	}
	q.peers.chunk = net.NewChunk(l, types.RemoteSync)
	before := q.head
	q.do("chunk", func() {
		if q.p.Chunk(q.peers) {
			q.kinds["chunk inserted"]++
		}
	})
	q.peers.chunk = nil
	q.kinds["chunk"]++
	q.log("chunk %d-%d (head %d -> %d)", from+1, to, before.Height, q.head.Height)
}

func (q *local) step(i int) {
	switch i {
	case 0:
		q.do("compact accounts", func() { q.p.CompactAccounts(true) })
	case 1:
		q.do("compact all accounts", func() { q.p.CompactAccounts(false) })
	case 2:
		q.do("compact snapshots", func() { q.p.CompactSnapshots() })
	case 3, 4:
		q.do("insert", func() { q.p.Insert() })
	case 5:
		q.do("check forks", func() { q.p.CheckFork() })
	case 6:
		q.do("drop useless branches", func() { q.p.DropUseless() })
	case 7:
		q.do("time", func() { q.p.Pass(time.Minute) })
	case 10:
		q.do("time", func() { q.p.Pass(6 * time.Second) })
	case 8:
		q.answers()
	case 9:
		q.irreversible()
	}
}

func (q *local) irreversible() {
	var b *core.SnapshotBlock
	q.do("GetIrreversibleBlock", func() { b = q.p.Pool().GetIrreversibleBlock() })
	if b == nil {
		return
	}
	x, err := q.n.c.GetSnapshotHashByHeight(b.Height)
	if err != nil || x == nil || *x != b.Hash {
		q.t.Fatalf("the irreversible block (height %d) is not in the ledger (%v)%s", b.Height, err, q.hist())
	}
	if n := len(q.firm); n > 0 && q.firm[n-1].Height > b.Height {
		// an older block is irreversible all the more
		return
	}
	// two thirds of the producers built on it
	seen := map[types.Address]bool{}
	for h := b.Height; h <= q.head.Height; h++ {
		s, err := q.n.c.GetSnapshotBlockByHeight(h)
		if err != nil || s == nil {
			q.t.Fatalf("GetSnapshotBlockByHeight(%d): %v", h, err)
		}
		seen[s.Producer()] = true
	}
	if len(seen) < q.st.nodes/3*2+1 {
		q.t.Fatalf("height %d is reported as irreversible, with %d producers since (head %d)%s", b.Height, len(seen), q.head.Height, q.hist())
	}
	q.firm = append(q.firm, b)
	q.kinds["irreversible"]++
	q.log("irreversible %d", b.Height)
}

// settle works until the node has the network's ledger.
func (q *local) settle(want *core.SnapshotBlock) bool {
	for r := 0; r < 40; r++ {
		if r == 37 && os.Getenv("C32_LOG") != "" {
			log15.Root().SetHandler(log15.LvlFilterHandler(log15.LvlInfo, log15.StreamHandler(os.Stdout, log15.TerminalFormat())))
			j, _ := json.MarshalIndent(q.p.Pool().Info(), "", " ")
			fmt.Println(string(j))
		}
		if q.n.c.GetLatestSnapshotBlock().Hash == want.Hash {
			return true
		}
		for _, i := range []int{7, 1, 2, 8, 1, 2, 3, 9, 4, 10, 5, 3} {
			q.step(i)
		}
	}
	return q.n.c.GetLatestSnapshotBlock().Hash == want.Hash
}

func (q *local) compare() {
	p := q.w.n.c
	for h := uint64(1); h <= q.w.head().Height; h++ {
		a, err := p.GetSnapshotHashByHeight(h)
		b, err2 := q.n.c.GetSnapshotHashByHeight(h)
		if err != nil || err2 != nil || a == nil || b == nil || *a != *b {
			q.t.Fatalf("snapshots at height %d differ: %v %v %v %v%s", h, a, b, err, err2, q.hist())
		}
	}
	addrs := append([]types.Address{types.AddressQuota}, q.w.contracts...)
	for _, u := range userKeys {
		addrs = append(addrs, u.addr)
	}
	for _, a := range addrs {
		top, err := p.GetLatestAccountBlock(a)
		if err != nil {
			q.t.Fatalf("GetLatestAccountBlock: %v", err)
		}
		if top == nil {
			continue
		}
		for h := uint64(1); h <= top.Height; h++ {
			x, _ := p.GetAccountBlockByHeight(a, h)
			y, err := q.n.c.GetAccountBlockByHeight(a, h)
			if err != nil || y == nil || x == nil || x.Hash != y.Hash {
				q.t.Fatalf("account blocks of %s at height %d differ (%v)%s", q.w.name(a), h, err, q.hist())
			}
			n, err := p.GetConfirmedTimes(x.Hash)
			m, err2 := q.n.c.GetConfirmedTimes(x.Hash)
			if err != nil || err2 != nil || n != m {
				q.t.Fatalf("block %d of %s: confirmed %d times in the network, %d here (%v %v)%s", h, q.w.name(a), n, m, err, err2, q.hist())
			}
		}
		y, err := q.n.c.GetLatestAccountBlock(a)
		if err != nil || y == nil {
			q.t.Fatalf("GetLatestAccountBlock: %v", err)
		}
		for h := top.Height + 1; h <= y.Height; h++ {
			x, err := q.n.c.GetAccountBlockByHeight(a, h)
			if err != nil || x == nil {
				q.t.Fatalf("block %d of %s below the head %d is missing (%v)%s", h, q.w.name(a), y.Height, err, q.hist())
			}
			if i, ok := q.w.known[x.Hash]; (!ok && !q.own[x.Hash]) || ok && q.w.items[i].bad {
				q.t.Fatalf("block %d of %s is nobody's%s", h, q.w.name(a), q.hist())
			}
		}
		if y.Hash == top.Hash {
			m, err := p.GetBalance(a, memchain.Vite)
			n, err2 := q.n.c.GetBalance(a, memchain.Vite)
			if err != nil || err2 != nil || m.Cmp(n) != 0 {
				q.t.Fatalf("balance of %s: %v in the network, %v here (%v %v)%s", q.w.name(a), m, n, err, err2, q.hist())
			}
		}
	}
}

func TestConverge(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "a network's ledger grown by users, contracts and producers, with abandoned branches, second blocks at a height and properly signed invalid blocks; its blocks reach a node in any order, repeated, partly only on request, in chunks, while it makes its own blocks; the node must end with the longest ledger, never go back in height, never undo what it called irreversible; non-trivial: the node switched branches",
		Quick: 150, Thorough: 3000,
	}, func(t *rapid.T, c *vlib.C) {
		rand.Seed(int64(rapid.Uint32().Draw(t, "rand")))
		st := stats{nodes: 1, period: 30 * time.Second}
		firm := rapid.IntRange(0, 2).Draw(t, "irreversible") == 0
		if firm {
			st.nodes = nProducers
			st.period = time.Duration(rapid.SampledFrom([]int{6, 9, 12}).Draw(t, "period")) * time.Second
		}
		if firm {
			c.Label("several producers")
		}
		w := newNetwork(t, st)
		w.snapshot(true)
		if firm && rapid.IntRange(0, 2).Draw(t, "aim") > 0 {
			// a branch long enough for an irreversible block, and another one that starts near it
			w.grow(rapid.IntRange(2, 10).Draw(t, "before"), 0, 3)
			for i := 0; i < 20 && w.settled() == nil; i++ {
				w.snapshot(false)
			}
			w.rollback(true)
		}
		w.grow(rapid.IntRange(5, 40).Draw(t, "steps"), rapid.IntRange(0, 3).Draw(t, "forks"), 3)
		w.snapshot(true)
		w.snapshot(true)
		if len(w.unconfirmed()) > 0 {
			t.Fatalf("harness: unconfirmed blocks are left")
		}
		best := w.head()
		q := &local{t: t, w: w, st: st, own: map[types.Hash]bool{}, mine: map[types.Hash]*core.SnapshotBlock{}, kinds: map[string]int{}}
		q.n = newNode(t, st)
		// the network and the node share the first snapshot above genesis: the pool does not leave a branch that starts there
		if _, err := q.n.c.InsertSnapshotBlock(wireSb(w.items[0].sb)); err != nil {
			t.Fatalf("InsertSnapshotBlock: %v", err)
		}
		q.peers = &peers{w: w}
		q.p = pool.VNewNode(q.n.c, q.peers, q.n.v, st)
		q.head = q.n.c.GetLatestSnapshotBlock()
		limit := uint64(0)
		if best.Height > 3 {
			limit = best.Height - 3
		}
		// what is pushed, in which order
		var order []int
		hold := rapid.SampledFrom([]int{0, 0, 20, 60}).Draw(t, "withheld")
		jitter := rapid.SampledFrom([]int{0, 0, 3, 1000}).Draw(t, "jitter")
		type at struct{ i, k int }
		var l []at
		for i := range w.items {
			if rapid.IntRange(0, 99).Draw(t, "hold") < hold && i != w.known[best.Hash] {
				continue
			}
			l = append(l, at{i, i + rapid.IntRange(0, jitter).Draw(t, "late")})
			if rapid.IntRange(0, 9).Draw(t, "twice") == 0 {
				l = append(l, at{i, i + rapid.IntRange(0, 1000).Draw(t, "later")})
			}
		}
		for len(l) > 0 {
			m := 0
			for j := range l {
				if l[j].k < l[m].k {
					m = j
				}
			}
			order = append(order, l[m].i)
			l = append(l[:m], l[m+1:]...)
		}
		q.peers.deaf = rapid.IntRange(0, 3).Draw(t, "deaf") == 0
		busy := rapid.IntRange(0, 3).Draw(t, "busy")
		for _, i := range order {
			q.push(w.items[i])
			if w.marks[i] && rapid.IntRange(0, 3).Draw(t, "catchUp") > 0 {
				// the node has the branch before the one that replaces its irreversible block comes
				for _, s := range []int{7, 1, 2, 8, 1, 2, 3, 9} {
					q.step(s)
				}
			}
			for j := rapid.IntRange(0, busy).Draw(t, "n"); j > 0; j-- {
				steps := 15
				if firm {
					steps = 17
				}
				switch x := rapid.IntRange(0, steps).Draw(t, "step"); x {
				case 15:
					q.direct()
				case 11, 16, 17:
					q.produce(limit)
				case 12, 13:
					q.chunk()
				case 14:
					q.step(3)
				default:
					q.step(x)
				}
			}
		}
		q.peers.deaf = false
		ok := q.settle(best)
		for k, n := range w.kinds {
			if n > 0 {
				c.Label(k)
			}
		}
		for k, n := range q.kinds {
			if n > 0 {
				c.Label("node: " + k)
			}
		}
		if !ok {
			if f := q.settled(q.head); f != nil {
				if x, err := w.n.c.GetSnapshotHashByHeight(f.Height + 1); err != nil || x == nil || *x != *q.at(f.Height + 1) {
					c.Label("stays on its irreversible branch")
					return
				}
			}
			t.Fatalf("the node is at height %d (%x), the network at %d (%x)%s", q.head.Height, q.head.Hash[:4], best.Height, best.Hash[:4], q.hist())
		}
		q.compare()
		if q.kinds["switch"] > 0 {
			c.NonTrivial(best.Hash)
		}
		c.Sample("%s%s", strings.Join(q.trace, "; "), "")
	})
}
