package c09

import (
	"bytes"
	"compress/gzip"
	_ "embed"
	"fmt"
	"io"
	"math/big"
	"sort"
	"strings"
	"testing"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/quota"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/gens"
	"verif/memchain"
	"verif/vlib"
)

//go:embed tables.txt.gz
var packed []byte

const (
	section  = 280
	blockMax = 1000000
	gap      = 21000 * 74
	qcMin    = 51
	qcMax    = 500
	window   = 75
)

// the published stake and difficulty schedules and congestion ratios
var stakeT, powT [2][]*big.Int
var qcT []*big.Int
var e18 = big.NewInt(1e18)

func init() {
	z, err := gzip.NewReader(bytes.NewReader(packed))
	if err != nil {
		panic(err)
	}
	b, err := io.ReadAll(z)
	if err != nil {
		panic(err)
	}
	var l [][]*big.Int
	for _, line := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		var x []*big.Int
		for _, f := range strings.Fields(line) {
			v, _ := new(big.Int).SetString(f, 10)
			x = append(x, v)
		}
		l = append(l, x)
	}
	stakeT[0], stakeT[1], powT[0], powT[1], qcT = l[0], l[1], l[2], l[3], l[4]
}

// ratio is the congestion factor for a global usage, nil when there is no congestion.
func ratio(global uint64) *big.Int {
	i := (global + gap - 1) / gap
	if i < qcMin {
		return nil
	}
	if i > qcMax {
		i = qcMax
	}
	return qcT[i-qcMin]
}

func scaled(x, qc *big.Int) *big.Int {
	if qc == nil {
		return x
	}
	y := new(big.Int).Mul(x, qc)
	return y.Div(y, e18)
}

// level: the largest index whose threshold is reached (lo: the smallest equal one where the schedule has plateaus).
func level(list []*big.Int, x *big.Int) (lo, hi uint64) {
	if x == nil || x.Sign() <= 0 {
		return 0, 0
	}
	n := sort.Search(len(list), func(i int) bool { return list[i].Cmp(x) > 0 })
	m := sort.Search(len(list), func(i int) bool { return list[i].Cmp(x) >= 0 })
	hi = uint64(n - 1)
	lo = hi
	if m < n { // equal thresholds
		lo = uint64(m)
	}
	return lo * section, hi * section
}

type fakeDb struct {
	global  uint64
	list    []types.QuotaInfo
	pending []*core.AccountBlock
	latest  *core.AccountBlock
	conf    uint64
}

func (d *fakeDb) GetGlobalQuota() types.QuotaInfo {
	return types.QuotaInfo{QuotaUsedTotal: d.global, BlockCount: 7, QuotaTotal: 3}
}
func (d *fakeDb) GetQuotaUsedList(types.Address) []types.QuotaInfo        { return d.list }
func (d *fakeDb) GetUnconfirmedBlocks(types.Address) []*core.AccountBlock { return d.pending }
func (d *fakeDb) GetLatestAccountBlock(types.Address) (*core.AccountBlock, error) {
	return d.latest, nil
}
func (d *fakeDb) GetConfirmedTimes(h types.Hash) (uint64, error) { return d.conf, nil }

func drawGlobal(rt *rapid.T) uint64 {
	switch rapid.IntRange(0, 3).Draw(rt, "load") {
	case 0:
		return rapid.Uint64Range(0, qcMin*gap).Draw(rt, "global")
	case 1:
		x := rapid.Uint64Range(qcMin-2, qcMax+3).Draw(rt, "sections") * gap
		return x + uint64(rapid.IntRange(0, 2).Draw(rt, "d")) - 1
	case 2:
		return rapid.Uint64Range(qcMin*gap, (qcMax+20)*gap).Draw(rt, "global")
	}
	return 0
}

// near draws a value around a threshold of the list, or any value.
func near(rt *rapid.T, list []*big.Int, qc *big.Int, l string) *big.Int {
	switch rapid.IntRange(0, 3).Draw(rt, l+" kind") {
	case 0:
		return big.NewInt(0)
	case 1:
		return gens.Big(100).Draw(rt, l)
	}
	x := new(big.Int).Set(list[rapid.IntRange(0, len(list)-1).Draw(rt, l+" row")])
	if qc != nil && rapid.Bool().Draw(rt, l+" scaled") { // the smallest value that still reaches the row
		x.Mul(x, e18)
		x.Add(x, new(big.Int).Sub(qc, big.NewInt(1)))
		x.Div(x, qc)
	}
	x.Add(x, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(rt, l+" d"))))
	if x.Sign() < 0 {
		x.SetInt64(0)
	}
	return x
}

func drawList(rt *rapid.T, per uint64) []types.QuotaInfo {
	n := rapid.SampledFrom([]int{0, 1, 2, 5, 40, 74, 75}).Draw(rt, "window")
	l := make([]types.QuotaInfo, n)
	busy := rapid.IntRange(0, 3).Draw(rt, "busy")
	for i := range l {
		if rapid.IntRange(0, 3).Draw(rt, "use") < busy {
			q := rapid.Uint64Range(0, 3*per+1000).Draw(rt, "used")
			if rapid.Bool().Draw(rt, "small") {
				q = rapid.Uint64Range(0, per).Draw(rt, "used")
			}
			c := rapid.Uint64Range(1, 4).Draw(rt, "blocks")
			l[i] = types.QuotaInfo{QuotaTotal: q, QuotaUsedTotal: q + rapid.Uint64Range(0, 50000).Draw(rt, "pow used"), BlockCount: c}
		}
	}
	return l
}

// model of the available quota.
func available(list []types.QuotaInfo, per uint64) (current, snapshotCurrent, avg uint64, over bool) {
	var used, count uint64
	for i, q := range list {
		current += per
		used += q.QuotaUsedTotal
		count += q.BlockCount
		if i == len(list)-1 {
			snapshotCurrent = current
			if current < q.QuotaTotal {
				over = true
				current = 0
			} else {
				current -= q.QuotaTotal
			}
		} else if current < q.QuotaTotal {
			current = 0
		} else {
			current -= q.QuotaTotal
		}
	}
	if count > 0 {
		avg = used / count
	}
	return
}

func TestAvailable(t *testing.T) {
	memchain.Init()
	vlib.Check(t, vlib.Opts{Rule: "stake, difficulty (around the schedule's thresholds), global load (around congestion steps), usage window and pending blocks; compared with the schedule and a window model; non-trivial: stake or work gives a positive quota and the window has usage or there is congestion", Quick: 6000, Thorough: 60000}, func(rt *rapid.T, c *vlib.C) {
		net := rapid.IntRange(0, 4).Draw(rt, "net") / 4
		quota.InitQuotaConfig(false, net == 1)
		db := &fakeDb{global: drawGlobal(rt)}
		qc := ratio(db.global)
		stake := near(rt, stakeT[net], qc, "stake")
		work := near(rt, powT[net], qc, "work")
		lo, hi := level(stakeT[net], scaled(stake, qc))
		plo, phi := level(powT[net], scaled(work, qc))
		db.list = drawList(rt, hi)
		addr := memchain.User(1)
		contract := rapid.Bool().Draw(rt, "contract")
		if contract {
			addr = types.CreateContractAddress([]byte("x"))
		}
		blocked := false
		switch rapid.IntRange(0, 3).Draw(rt, "latest") {
		case 1:
			db.latest = &core.AccountBlock{BlockType: core.BlockTypeReceive}
		case 2, 3:
			db.latest = &core.AccountBlock{BlockType: core.BlockTypeReceiveError}
			db.conf = rapid.SampledFrom([]uint64{0, 1, 73, 74, 75, 76, 1000}).Draw(rt, "confirmed")
			blocked = contract && db.conf < window
		}
		pending := rapid.IntRange(0, 3).Draw(rt, "pending")
		powDone := false
		for i := 0; i < pending; i++ {
			b := &core.AccountBlock{BlockType: core.BlockTypeSendCall}
			if rapid.IntRange(0, 2).Draw(rt, "pow") == 0 {
				b.Nonce = []byte{1, 2, 3, 4, 5, 6, 7, 8}
				b.Difficulty = big.NewInt(5)
				powDone = true
			}
			db.pending = append(db.pending, b)
		}
		if got := quota.CanPoW(db, addr); got == powDone {
			rt.Fatalf("CanPoW is %v with pending work %v", got, powDone)
		}
		total, add, err := quota.GetQuotaForBlock(db, addr, stake, work, 100)
		what := fmt.Sprintf("net %d stake %v work %v global %d list %v blocked %v powDone %v: total %d addition %d err %v", net, stake, work, db.global, db.list, blocked, powDone, total, add, err)
		if work.Sign() > 0 && powDone {
			if err == nil || total != 0 || add != 0 {
				rt.Fatalf("%s: work was done twice in one snapshot", what)
			}
			c.Label("second work refused")
		} else {
			ok := false
			var cur, snap, avg uint64
			var over bool
			for per := lo; per <= hi && !ok; per += section {
				cur, snap, avg, over = available(db.list, per)
				for pw := plo; pw <= phi && !ok; pw += section {
					if over {
						ok = err == util.ErrInvalidUnconfirmedQuota && total == 0
						continue
					}
					if blocked {
						ok = err == nil && total == 0 && add == 0
						continue
					}
					w := cur + pw
					if w > blockMax {
						w = blockMax
					}
					a := pw
					if a > blockMax {
						a = blockMax
					}
					ok = err == nil && total == w && add == a
				}
			}
			if !ok {
				rt.Fatalf("%s: expected total %d (over %v) addition %d..%d stake level %d..%d", what, cur, over, plo, phi, lo, hi)
			}
			if total > blockMax || add > blockMax {
				rt.Fatalf("%s: over the block limit", what)
			}
			if lo == hi {
				q, err := quota.GetQuota(db, addr, stake, 100)
				if (err != nil) != over {
					rt.Fatalf("%s: GetQuota err %v", what, err)
				}
				wantCur := cur
				if over || blocked {
					wantCur = 0
				}
				if q.Current() != wantCur || q.SnapshotCurrent() != snap || q.Avg() != avg || q.StakeQuotaPerSnapshotBlock() != lo || q.Blocked() != blocked {
					rt.Fatalf("%s: GetQuota gives %+v, expected current %d snapshot %d avg %d per %d blocked %v", what, q, wantCur, snap, avg, lo, blocked)
				}
				if blocked && q.BlockReleaseHeight() != window-db.conf {
					rt.Fatalf("%s: released in %d, expected %d", what, q.BlockReleaseHeight(), window-db.conf)
				}
				enough, wait := quota.CheckQuota(db, q, addr)
				if enough != (!blocked && wantCur >= avg) || (enough && wait != 0) || (!enough && wait == 0) {
					rt.Fatalf("%s: CheckQuota %v %d", what, enough, wait)
				}
				s, err := quota.GetSnapshotCurrentQuota(db, addr, stake, 100)
				if err != nil || s != snap {
					rt.Fatalf("%s: GetSnapshotCurrentQuota %d %v, expected %d", what, s, err, snap)
				}
			}
			// more stake or more work never gives less
			if err == nil {
				s2 := new(big.Int).Add(stake, gens.Big(90).Draw(rt, "more stake"))
				w2 := work
				if work.Sign() > 0 || !powDone {
					w2 = new(big.Int).Add(work, gens.Big(40).Draw(rt, "more work"))
				}
				t2, _, err2 := quota.GetQuotaForBlock(db, addr, s2, w2, 100)
				if err2 != nil || t2 < total {
					rt.Fatalf("%s: with stake %v and work %v only %d %v", what, s2, w2, t2, err2)
				}
			}
		}
		if (hi > 0 || phi > 0) && (len(db.list) > 2 || qc != nil) {
			c.NonTrivial(what)
			c.Sample("%s", what)
		}
	})
}

func TestRequired(t *testing.T) {
	memchain.Init()
	vlib.Check(t, vlib.Opts{Rule: "a required quota (any, around section boundaries and limits) under any congestion: the computed difficulty / stake provides it and one unit less does not; non-trivial: a positive difficulty is required", Quick: 12000, Thorough: 100000}, func(rt *rapid.T, c *vlib.C) {
		net := rapid.IntRange(0, 4).Draw(rt, "net") / 4
		quota.InitQuotaConfig(false, net == 1)
		db := &fakeDb{global: drawGlobal(rt), list: []types.QuotaInfo{{}}}
		addr := memchain.User(1)
		var need uint64
		switch rapid.IntRange(0, 3).Draw(rt, "k") {
		case 0:
			need = rapid.Uint64Range(0, blockMax+2000).Draw(rt, "need")
		case 1:
			need = rapid.Uint64Range(0, 3573).Draw(rt, "row")*section + uint64(rapid.IntRange(0, 2).Draw(rt, "d"))
			if need > 0 {
				need--
			}
		case 2:
			need = rapid.SampledFrom([]uint64{0, 1, 279, 280, 281, 21000, 999879, 999880, 999881, 1000000, 1000001, 1 << 40, 1<<64 - 1}).Draw(rt, "need")
		case 3:
			need = 21000 + 68*rapid.Uint64Range(0, 2000).Draw(rt, "data")
		}
		cur := uint64(0)
		if rapid.IntRange(0, 4).Draw(rt, "cur") == 0 {
			cur = rapid.Uint64Range(0, 50000).Draw(rt, "current")
		}
		q := types.NewQuota(0, cur, 0, cur, false, 0)
		d, err := quota.CalcPoWDifficulty(db, need, q, 100)
		what := fmt.Sprintf("net %d global %d need %d current %d: difficulty %v %v", net, db.global, need, cur, d, err)
		switch {
		case need > blockMax:
			if err == nil {
				rt.Fatalf("%s: a quota over the block limit cannot be provided", what)
			}
		case cur >= need:
			if err != nil || d.Sign() != 0 {
				rt.Fatalf("%s: enough quota is there", what)
			}
		case need > 3571*section:
			if err == nil {
				rt.Fatalf("%s: no difficulty provides that", what)
			}
		default:
			if err != nil {
				rt.Fatalf("%s", what)
			}
			got, _, err := quota.GetQuotaForBlock(db, addr, nil, d, 100)
			if err != nil || got < need {
				rt.Fatalf("%s: but that gives only %d %v", what, got, err)
			}
			if d.Sign() > 0 {
				less := new(big.Int).Sub(d, big.NewInt(1))
				got, _, err = quota.GetQuotaForBlock(db, addr, nil, less, 100)
				if err != nil || got >= need {
					rt.Fatalf("%s: but %v gives %d already", what, less, got)
				}
			}
			rows := (need + section - 1) / section
			base := powT[net][rows]
			if ratio(db.global) == nil && d.Cmp(base) != 0 {
				rt.Fatalf("%s: the schedule says %v", what, base)
			}
			c.NonTrivial(what)
			c.Sample("%s", what)
		}
		s, err := quota.CalcStakeAmountByQuota(need)
		if need > 3571*section {
			if err == nil {
				rt.Fatalf("stake for quota %d: %v", need, s)
			}
			return
		}
		if err != nil || s.Cmp(stakeT[net][(need+section-1)/section]) != 0 {
			rt.Fatalf("stake for quota %d (net %d) is %v %v, the schedule says %v", need, net, s, err, stakeT[net][(need+section-1)/section])
		}
		if db.global = 0; need > 0 && net == 0 {
			got, _, err := quota.GetQuotaForBlock(db, addr, s, nil, 100)
			if err != nil || got < need {
				rt.Fatalf("the stake %v for quota %d gives only %d", s, need, got)
			}
			got, _, err = quota.GetQuotaForBlock(db, addr, new(big.Int).Sub(s, big.NewInt(1)), nil, 100)
			if err != nil || got >= need {
				rt.Fatalf("the stake %v for quota %d is not minimal", s, need)
			}
		}
	})
}

// TestSpending runs real blocks: what is accepted, what is booked, and the window's total.
func TestSpending(t *testing.T) {
	memchain.Init()
	vlib.Check(t, vlib.Opts{Rule: "histories of sends with data (with and without work) and snapshots under a fixed stake; each is accepted exactly when the window model has quota left; the last k snapshots never use more stake quota than 75+k snapshots accumulate; non-trivial: at least one send was refused for quota and one accepted", Quick: 600, Thorough: 6000, Steps: 60}, func(rt *rapid.T, c *vlib.C) {
		quota.InitQuotaConfig(false, false)
		ch := memchain.New(memchain.Genesis(memchain.GenesisOpt{Users: 2}))
		table := util.QuotaTableByHeight(100)
		row := rapid.IntRange(0, 1200).Draw(rt, "row")
		if rapid.Bool().Draw(rt, "low") {
			row = rapid.IntRange(0, 80).Draw(rt, "row")
		}
		stake := stakeT[0][row]
		ch.StakeOverride = func(a types.Address) *big.Int { return stake }
		ch.ExtraGlobal = 0
		if rapid.IntRange(0, 3).Draw(rt, "congested") == 0 {
			ch.ExtraGlobal = drawGlobal(rt)
		}
		u := memchain.User(0)
		// usage per snapshot, last: unconfirmed; the genesis snapshot comes first
		type use struct{ stake, all, n uint64 }
		base := ch.GetQuotaUsedList(u)
		var hist []use
		for _, q := range base {
			hist = append(hist, use{q.QuotaTotal, q.QuotaUsedTotal, q.BlockCount})
		}
		worked := false
		acc, ref := 0, 0
		var trace []string
		fail := func(f string, a ...interface{}) {
			rt.Fatalf("%s\nstake row %d, extra load %d\n%s", fmt.Sprintf(f, a...), row, ch.ExtraGlobal, strings.Join(trace, "\n"))
		}
		rt.Repeat(map[string]func(*rapid.T){
			"send": func(*rapid.T) {
				n := rapid.IntRange(0, 300).Draw(rt, "data")
				if rapid.IntRange(0, 3).Draw(rt, "large") == 0 {
					n = rapid.IntRange(0, 16000).Draw(rt, "data")
				}
				data := make([]byte, n)
				var diff *big.Int
				if rapid.IntRange(0, 2).Draw(rt, "work") == 0 {
					diff = powT[0][rapid.IntRange(0, 300).Draw(rt, "diff")]
					if diff.Sign() == 0 {
						diff = nil
					}
				}
				g := ch.GetGlobalQuota().QuotaUsedTotal
				qc := ratio(g)
				_, per := level(stakeT[0], scaled(stake, qc))
				_, pow := level(powT[0], func() *big.Int {
					if diff == nil {
						return nil
					}
					return scaled(diff, qc)
				}())
				var l []types.QuotaInfo
				for _, x := range hist[max(0, len(hist)-window):] {
					l = append(l, types.QuotaInfo{QuotaTotal: x.stake, QuotaUsedTotal: x.all, BlockCount: x.n})
				}
				cur, _, _, over := available(l, per)
				avail := cur + pow
				if avail > blockMax {
					avail = blockMax
				}
				add := min(pow, blockMax)
				cost := table.TxQuota + uint64(n)*table.TxDataQuota
				want := !over && cost <= avail && !(diff != nil && worked)
				r := ch.Send(memchain.Tx{From: u, To: memchain.User(1), Token: memchain.Vite, Amount: big.NewInt(1), Data: data, Difficulty: diff})
				trace = append(trace, fmt.Sprintf("send cost %d work %v avail %d (+%d): %v", cost, diff, cur, pow, r.Err))
				if r.Panic != nil {
					fail("panic %v", r.Panic)
				}
				if (r.Block != nil) != want {
					fail("cost %d, available %d (over %v, work pending %v): accepted %v, err %v", cost, avail, over, worked, r.Block != nil, r.Err)
				}
				if r.Block == nil {
					ref++
					return
				}
				acc++
				wantStake := uint64(0)
				if cost > add {
					wantStake = cost - add
				}
				if r.Block.QuotaUsed != cost || r.Block.Quota != wantStake {
					fail("the block books %d of %d, expected %d of %d", r.Block.Quota, r.Block.QuotaUsed, wantStake, cost)
				}
				hist[len(hist)-1].stake += wantStake
				hist[len(hist)-1].all += cost
				hist[len(hist)-1].n++
				if diff != nil {
					worked = true
				}
			},
			"snapshot": func(*rapid.T) {
				for i, n := 0, rapid.SampledFrom([]int{1, 1, 1, 2, 10, 80}).Draw(rt, "n"); i < n; i++ {
					ch.Tick(1)
					hist = append(hist, use{})
				}
				worked = false
				trace = append(trace, fmt.Sprintf("snapshot, height %d", ch.Height()))
			},
			"": func(*rapid.T) {
				if ch.ExtraGlobal > 0 {
					return
				}
				_, per := level(stakeT[0], stake)
				var sum uint64
				for k := 1; k <= len(hist) && k <= 2*window; k++ {
					sum += hist[len(hist)-k].stake
					if sum > uint64(window+k-1)*per {
						fail("the last %d snapshots use %d stake quota, the stake gives %d each", k, sum, per)
					}
				}
			},
		})
		if acc > 0 && ref > 0 {
			c.NonTrivial(fmt.Sprint(trace))
			c.Sample("row %d: %s", row, strings.Join(trace[:min(5, len(trace))], "; "))
		}
	})
}
