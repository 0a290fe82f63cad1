package c30

import (
	"bytes"
	"fmt"
	"math/big"
	"sort"
	"testing"

	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/gens"
	"verif/memchain"
	"verif/vlib"
)

var toks = []types.TokenTypeId{memchain.Vite, memchain.Token(0), memchain.Token(1), memchain.Token(2)}

// state is the reference: what the account looks like.
type state struct {
	bal  map[types.TokenTypeId]*big.Int
	st   map[string][]byte
	code []byte
	meta *core.ContractMeta
	logs core.VmLogList
}

func (s *state) clone() *state {
	n := &state{bal: map[types.TokenTypeId]*big.Int{}, st: map[string][]byte{}, code: s.code, meta: s.meta, logs: append(core.VmLogList{}, s.logs...)}
	for k, v := range s.bal {
		n.bal[k] = new(big.Int).Set(v)
	}
	for k, v := range s.st {
		n.st[k] = v
	}
	return n
}

// keys are short and share prefixes, so that overwriting, deleting and prefix iteration collide often.
func key() *rapid.Generator[string] {
	return rapid.Custom(func(t *rapid.T) string {
		n := rapid.IntRange(1, 4).Draw(t, "klen")
		b := make([]byte, n)
		for i := range b {
			b[i] = rapid.SampledFrom([]byte{0, 1, 0x7f, 0xff}).Draw(t, "k")
		}
		if rapid.IntRange(0, 19).Draw(t, "long") == 0 {
			b = append(b, make([]byte, 32-len(b))...)
		}
		return string(b)
	})
}

func sorted(m map[string][]byte, prefix string) []string {
	var ks []string
	for k := range m {
		if len(k) >= len(prefix) && k[:len(prefix)] == prefix {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

func walk(rt *rapid.T, it interfaces.StorageIterator, ks []string, m map[string][]byte, first, rest func() bool, what string) {
	for i, k := range ks {
		ok := false
		if i == 0 {
			ok = first()
		} else {
			ok = rest()
		}
		if !ok {
			rt.Fatalf("%s: iterator ended after %d of %d entries (err %v)", what, i, len(ks), it.Error())
		}
		if string(it.Key()) != k || !bytes.Equal(it.Value(), m[k]) {
			rt.Fatalf("%s: entry %d is %x=%x, want %x=%x", what, i, it.Key(), it.Value(), k, m[k])
		}
	}
	ok := false
	if len(ks) == 0 {
		ok = first()
	} else {
		ok = rest()
	}
	if ok {
		rt.Fatalf("%s: iterator shows extra entry %x=%x after %d entries", what, it.Key(), it.Value(), len(ks))
	}
	if it.Error() != nil {
		rt.Fatalf("%s: iterator error %v", what, it.Error())
	}
}

func compare(rt *rapid.T, db interfaces.VmDb, s *state, base *state, writes map[string][]byte) {
	for _, tk := range toks {
		tk := tk
		b, err := db.GetBalance(&tk)
		want := s.bal[tk]
		if want == nil {
			want = new(big.Int)
		}
		if err != nil || b.Cmp(want) != 0 {
			rt.Fatalf("balance of %s is %v (%v), want %v", tk, b, err, want)
		}
		b.Add(b, big.NewInt(7)) // the returned value is the caller's: changing it must not show
	}
	seen := map[string]bool{}
	for _, m := range []map[string][]byte{s.st, base.st, writes} {
		for k := range m {
			if seen[k] {
				continue
			}
			seen[k] = true
			v, err := db.GetValue([]byte(k))
			if err != nil || !bytes.Equal(v, s.st[k]) {
				rt.Fatalf("value of %x is %x (%v), want %x", k, v, err, s.st[k])
			}
			v, err = db.GetOriginalValue([]byte(k))
			if err != nil || !bytes.Equal(v, base.st[k]) {
				rt.Fatalf("original value of %x is %x (%v), want %x", k, v, err, base.st[k])
			}
		}
	}
	code, err := db.GetContractCode()
	if err != nil || !bytes.Equal(code, s.code) {
		rt.Fatalf("code %x (%v), want %x", code, err, s.code)
	}
	meta, err := db.GetContractMeta()
	if err != nil || (meta == nil) != (s.meta == nil) || meta != nil && (meta.Gid != s.meta.Gid || meta.QuotaRatio != s.meta.QuotaRatio) {
		rt.Fatalf("meta %v (%v), want %v", meta, err, s.meta)
	}
	if fmt.Sprint(len(db.GetLogList())) != fmt.Sprint(len(s.logs)) {
		rt.Fatalf("%d logs, want %d", len(db.GetLogList()), len(s.logs))
	}
	for i, l := range db.GetLogList() {
		if !bytes.Equal(l.Data, s.logs[i].Data) || len(l.Topics) != len(s.logs[i].Topics) {
			rt.Fatalf("log %d is %v, want %v", i, l, s.logs[i])
		}
	}
	// the change set: every key written since the start (or the last discard), in key order, deletions empty
	us := db.GetUnsavedStorage()
	ks := sorted(writes, "")
	if len(us) != len(ks) {
		rt.Fatalf("change set has %d entries, want %d", len(us), len(ks))
	}
	var src []byte
	for i, k := range ks {
		if string(us[i][0]) != k || !bytes.Equal(us[i][1], writes[k]) {
			rt.Fatalf("change %d is %x=%x, want %x=%x", i, us[i][0], us[i][1], k, writes[k])
		}
		src = append(append(src, k...), writes[k]...)
	}
	want := types.Hash{}
	if len(ks) > 0 {
		want = types.Hash(blake2b.Sum256(src))
	}
	if h := db.GetReceiptHash(); *h != want {
		rt.Fatalf("receipt hash %s, want %s", h, want)
	}
}

// TestOverlay runs one execution: writes, reads, iteration, discards; then commits it to the base state.
func TestOverlay(t *testing.T) {
	memchain.Init()
	vlib.Check(t, vlib.Opts{Rule: "random base state and random sequence of storage/balance/code/meta/log writes, discards and reads through the real vm_db; non-trivial: the execution both overwrites or deletes a committed key and iterates", Quick: 25000, Thorough: 600000, Steps: 25}, func(rt *rapid.T, c *vlib.C) {
		cfg := memchain.Genesis(memchain.GenesisOpt{Users: 1})
		ch := memchain.New(cfg)
		addr := types.CreateContractAddress([]byte("c30"))
		acct := ch.Acct(addr)
		base := &state{bal: map[types.TokenTypeId]*big.Int{}, st: map[string][]byte{}}
		for i, n := 0, rapid.IntRange(0, 12).Draw(rt, "nbase"); i < n; i++ {
			k := key().Draw(rt, "bk")
			v := rapid.SliceOfN(rapid.Byte(), 1, 6).Draw(rt, "bv")
			base.st[k] = v
			acct.Storage[k] = append([]byte{}, v...)
		}
		for _, tk := range toks[:rapid.IntRange(0, 3).Draw(rt, "nbal")] {
			v := gens.Big(128).Draw(rt, "bal")
			base.bal[tk] = v
			acct.Balance[tk] = new(big.Int).Set(v)
		}
		if rapid.Bool().Draw(rt, "hascode") {
			base.code = rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "code")
			acct.Code = base.code
			base.meta = &core.ContractMeta{Gid: types.DELEGATE_GID, QuotaRatio: 10}
			m := *base.meta
			acct.Meta = &m
		}
		snap := base.clone()
		db := ch.Db(addr)
		cur := base.clone()
		writes := map[string][]byte{}
		over, iterated, deleted := false, false, false
		var ops []string
		rt.Repeat(map[string]func(*rapid.T){
			"": func(rt *rapid.T) {},
			"set": func(rt *rapid.T) {
				k := key().Draw(rt, "k")
				if bk := sorted(base.st, ""); len(bk) > 0 && rapid.Bool().Draw(rt, "committed") {
					k = rapid.SampledFrom(bk).Draw(rt, "bk")
				}
				v := rapid.SliceOfN(rapid.Byte(), 0, 6).Draw(rt, "v")
				if err := db.SetValue([]byte(k), v); err != nil {
					rt.Fatalf("SetValue(%x): %v", k, err)
				}
				if base.st[k] != nil {
					over = true
				}
				writes[k] = append([]byte{}, v...)
				if len(v) == 0 {
					delete(cur.st, k)
					deleted = true
				} else {
					cur.st[k] = append([]byte{}, v...)
				}
				for i := range v { // the caller may reuse its buffer
					v[i] ^= 0xa5
				}
				ops = append(ops, fmt.Sprintf("set %x", k))
			},
			"setlong": func(rt *rapid.T) {
				k := append([]byte(key().Draw(rt, "k")), make([]byte, 32)...)
				if err := db.SetValue(k, []byte{1}); err == nil {
					rt.Fatalf("a %d byte key was accepted", len(k))
				}
			},
			"balance": func(rt *rapid.T) {
				tk := rapid.SampledFrom(toks).Draw(rt, "tk")
				v := gens.Big(130).Draw(rt, "v")
				switch rapid.IntRange(0, 2).Draw(rt, "how") {
				case 0:
					db.SetBalance(&tk, new(big.Int).Set(v))
					cur.bal[tk] = v
				case 1:
					util.AddBalance(db, &tk, v)
					if cur.bal[tk] == nil {
						cur.bal[tk] = new(big.Int)
					}
					cur.bal[tk].Add(cur.bal[tk], v)
				case 2:
					have := cur.bal[tk]
					if have == nil || have.Cmp(v) < 0 {
						return // the caller checks first
					}
					util.SubBalance(db, &tk, v)
					cur.bal[tk].Sub(have, v)
				}
				ops = append(ops, "balance")
			},
			"code": func(rt *rapid.T) {
				code := rapid.SliceOfN(rapid.Byte(), 1, 20).Draw(rt, "code")
				db.SetContractCode(code)
				cur.code = code
			},
			"meta": func(rt *rapid.T) {
				m := &core.ContractMeta{Gid: types.DELEGATE_GID, QuotaRatio: uint8(rapid.IntRange(10, 100).Draw(rt, "ratio"))}
				a := addr
				if rapid.Bool().Draw(rt, "other") {
					a = types.CreateContractAddress([]byte("other"))
				} else {
					cur.meta = m
				}
				db.SetContractMeta(a, m)
			},
			"log": func(rt *rapid.T) {
				l := &core.VmLog{Data: rapid.SliceOfN(rapid.Byte(), 0, 5).Draw(rt, "d"), Topics: []types.Hash{gens.Hash().Draw(rt, "t")}}
				db.AddLog(l)
				cur.logs = append(cur.logs, l)
			},
			"reset": func(rt *rapid.T) {
				if rapid.IntRange(0, 2).Draw(rt, "really") != 0 {
					return
				}
				db.Reset()
				cur = base.clone()
				writes = map[string][]byte{}
				ops = append(ops, "discard")
			},
			"iterate": func(rt *rapid.T) {
				p := ""
				if rapid.IntRange(0, 2).Draw(rt, "pfx") > 0 {
					p = key().Draw(rt, "p")
					p = p[:rapid.IntRange(1, min(len(p), 3)).Draw(rt, "pl")]
				}
				it, err := db.NewStorageIterator([]byte(p))
				if err != nil {
					rt.Fatal(err)
				}
				defer it.Release()
				ks := sorted(cur.st, p)
				switch rapid.IntRange(0, 2).Draw(rt, "dir") {
				case 0:
					walk(rt, it, ks, cur.st, it.Next, it.Next, fmt.Sprintf("forward prefix %x", p))
				case 1:
					for i, j := 0, len(ks)-1; i < j; i, j = i+1, j-1 {
						ks[i], ks[j] = ks[j], ks[i]
					}
					walk(rt, it, ks, cur.st, it.Last, it.Prev, fmt.Sprintf("backward prefix %x", p))
				case 2:
					k := p + key().Draw(rt, "seek")
					i := sort.SearchStrings(ks, k)
					walk(rt, it, ks[i:], cur.st, func() bool { return it.Seek([]byte(k)) }, it.Next, fmt.Sprintf("seek %x prefix %x", k, p))
				}
				iterated = true
				ops = append(ops, "iterate")
			},
			"check": func(rt *rapid.T) { compare(rt, db, cur, base, writes) },
		})
		compare(rt, db, cur, base, writes)
		// nothing reaches the committed state before the commit
		for k, v := range snap.st {
			if !bytes.Equal(acct.Storage[k], v) {
				rt.Fatalf("committed value of %x changed to %x before the commit", k, acct.Storage[k])
			}
		}
		if len(acct.Storage) != len(snap.st) {
			rt.Fatalf("committed state gained entries before the commit")
		}
		for k, v := range snap.bal {
			if acct.Balance[k].Cmp(v) != 0 {
				rt.Fatalf("committed balance changed before the commit")
			}
		}
		// commit
		db.Finish()
		ms := map[string][]byte{}
		for k, v := range acct.Storage {
			ms[k] = v
		}
		for _, kv := range db.GetUnsavedStorage() {
			if len(kv[1]) == 0 {
				delete(ms, string(kv[0]))
			} else {
				ms[string(kv[0])] = kv[1]
			}
		}
		if len(ms) != len(cur.st) {
			rt.Fatalf("committing the change set gives %d entries, the execution saw %d", len(ms), len(cur.st))
		}
		for k, v := range cur.st {
			if !bytes.Equal(ms[k], v) {
				rt.Fatalf("committing the change set gives %x=%x, the execution saw %x", k, ms[k], v)
			}
		}
		mb := map[types.TokenTypeId]*big.Int{}
		for k, v := range acct.Balance {
			mb[k] = v
		}
		for k, v := range db.GetUnsavedBalanceMap() {
			mb[k] = v
		}
		for k, v := range cur.bal {
			if mb[k] == nil || mb[k].Cmp(v) != 0 {
				rt.Fatalf("committing the balances gives %s=%v, the execution saw %v", k, mb[k], v)
			}
		}
		if len(db.GetUnsavedContractCode()) > 0 && !bytes.Equal(db.GetUnsavedContractCode(), cur.code) {
			rt.Fatalf("committed code differs")
		}
		if over && iterated {
			c.NonTrivial(ops)
			if deleted {
				c.Label("deletes")
			}
			c.Sample("base %d keys; ops %v", len(base.st), ops)
		}
	})
}
