// Package c28: proof-of-work acceptance against an exact rational-arithmetic
// reference of the target and an independent comparison of the work value.
package c28

import (
	"encoding/binary"
	"math/big"
	"testing"

	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/ledger/verifier"
	"github.com/vitelabs/go-vite/v2/pow"
	"verif/gens"
	"verif/vlib"
)

var (
	two256 = new(big.Int).Lsh(big.NewInt(1), 256)
	one    = big.NewInt(1)
)

// round64 rounds a positive rational to 64 significant bits, ties to even.
func round64(r *big.Rat) *big.Rat {
	n, d := r.Num(), r.Denom()
	shift := 64 - (n.BitLen() - d.BitLen()) // puts the quotient at 63..65 bits
	for {
		nn, dd := new(big.Int).Set(n), new(big.Int).Set(d)
		if shift >= 0 {
			nn.Lsh(nn, uint(shift))
		} else {
			dd.Lsh(dd, uint(-shift))
		}
		q, rem := new(big.Int).QuoRem(nn, dd, new(big.Int))
		if q.BitLen() > 64 {
			shift--
			continue
		}
		if q.BitLen() < 64 {
			shift++
			continue
		}
		c := new(big.Int).Lsh(rem, 1).Cmp(dd)
		if c > 0 || (c == 0 && q.Bit(0) == 1) {
			q.Add(q, one)
		}
		out := new(big.Rat).SetInt(q)
		s := new(big.Rat).SetInt(new(big.Int).Lsh(one, uint(abs(shift))))
		if shift >= 0 {
			return out.Quo(out, s)
		}
		return out.Mul(out, s)
	}
}

func abs(i int) int {
	if i < 0 {
		return -i
	}
	return i
}

// roundInt rounds to the nearest integer, ties to even.
func roundInt(r *big.Rat) *big.Int {
	q, rem := new(big.Int).QuoRem(r.Num(), r.Denom(), new(big.Int))
	c := new(big.Int).Lsh(rem, 1).Cmp(r.Denom())
	if c > 0 || (c == 0 && q.Bit(0) == 1) {
		q.Add(q, one)
	}
	return q
}

// refTarget is 2^256/(1+1/d), each operation rounded to 64 bits.
func refTarget(d *big.Int) *big.Int {
	r := round64(new(big.Rat).SetInt(d))
	r = round64(new(big.Rat).Inv(r))
	r = round64(new(big.Rat).Add(r, new(big.Rat).SetInt64(1)))
	r = round64(new(big.Rat).Quo(new(big.Rat).SetInt(two256), r))
	return roundInt(r)
}

func refDifficulty(t *big.Int) *big.Int {
	r := round64(new(big.Rat).SetInt(t))
	r = round64(new(big.Rat).Quo(new(big.Rat).SetInt(two256), r))
	r = new(big.Rat).Sub(r, new(big.Rat).SetInt64(1))
	if r.Sign() == 0 {
		return nil
	}
	r = round64(r)
	r = round64(new(big.Rat).Inv(r))
	return roundInt(r)
}

func work(nonce, data []byte) *big.Int {
	h := blake2b.Sum256(append(append([]byte{}, nonce...), data...))
	return new(big.Int).SetBytes(h[:])
}

func refAccept(d *big.Int, nonce, data []byte) bool {
	t := refTarget(d)
	if t.BitLen() > 256 {
		return false
	}
	return work(nonce, data).Cmp(t) >= 0
}

func genDifficulty(t *rapid.T) *big.Int {
	switch rapid.IntRange(0, 4).Draw(t, "dkind") {
	case 0:
		return big.NewInt(rapid.Int64Range(1, 300).Draw(t, "d"))
	case 1:
		return big.NewInt(rapid.Int64Range(1, 1<<20).Draw(t, "d"))
	case 2:
		return new(big.Int).SetUint64(rapid.Uint64Range(1, 1<<63).Draw(t, "d"))
	case 3: // around a power of two
		d := new(big.Int).Lsh(one, uint(rapid.IntRange(0, 80).Draw(t, "bit")))
		d.Add(d, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "off"))))
		if d.Sign() <= 0 {
			return big.NewInt(1)
		}
		return d
	default:
		return new(big.Int).SetUint64(rapid.Uint64Range(60000000, 9000000000).Draw(t, "d"))
	}
}

// nearDifficulty returns the difficulty whose target is closest to w, moved a little.
func nearDifficulty(t *rapid.T, w *big.Int) *big.Int {
	gap := new(big.Int).Sub(two256, w)
	d := new(big.Int).Quo(w, gap)
	d.Add(d, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "near"))))
	if d.Sign() <= 0 {
		d.SetInt64(1)
	}
	return d
}

var ver = verifier.NewVerifier(nil).Init(nil, nil, nil)

func TestAccept(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "difficulty (small, 64-bit, powers of two, network range, or next to the work value) x nonce x data: CheckPowNonce against exact arithmetic, directly and through the block verifier; non-trivial: the difficulty lies within 2 of the nonce's own work value or the nonce is accepted",
		Quick: 4000, Thorough: 60000,
	}, func(t *rapid.T, c *vlib.C) {
		pow.Init(false)
		nonce := gens.Fixed(8).Draw(t, "nonce")
		addr := gens.Address().Draw(t, "addr")
		addr[20] = 0
		prev := gens.Hash().Draw(t, "prev")
		dh := blake2b.Sum256(append(append([]byte{}, addr.Bytes()...), prev.Bytes()...))
		data := dh[:]
		near := rapid.Bool().Draw(t, "nearWork")
		var d *big.Int
		if near {
			// a few tries for a good nonce so that the difficulty is not always 1
			best := work(nonce, data)
			for i := 0; i < 64; i++ {
				n2 := append([]byte{}, nonce...)
				binary.BigEndian.PutUint64(n2, binary.BigEndian.Uint64(nonce)+uint64(i))
				if w := work(n2, data); w.Cmp(best) > 0 {
					best, nonce = w, n2
				}
			}
			d = nearDifficulty(t, best)
		} else {
			d = genDifficulty(t)
		}
		want := refAccept(d, nonce, data)
		got := pow.CheckPowNonce(d, nonce, data)
		if got != want {
			t.Fatalf("CheckPowNonce(difficulty %v, nonce %x, data %x) = %v, reference %v", d, nonce, data, got, want)
		}
		if near || got {
			c.NonTrivial(d.String(), nonce)
		}
		if got {
			c.Label("accepted")
		} else {
			c.Label("rejected")
		}
		b := &core.AccountBlock{BlockType: core.BlockTypeSendCall, AccountAddress: addr, PrevHash: prev, Height: 7, Nonce: nonce, Difficulty: d}
		kind := rapid.IntRange(0, 5).Draw(t, "block")
		ok := want
		switch kind {
		case 1:
			b.AccountAddress[20] = 1
			ok = false
		case 2:
			b.Difficulty = nil
			ok = false
		case 3:
			b.Nonce = nil
			ok = false
		case 4:
			b.Nonce, b.Difficulty = nil, nil
			ok = true
		case 5:
			l := rapid.SampledFrom([]int{1, 7, 9, 16}).Draw(t, "len")
			b.Nonce = gens.Fixed(l).Draw(t, "odd")
			if rapid.Bool().Draw(t, "extends") { // the acceptable nonce with something behind it, or cut
				copy(b.Nonce, nonce)
			}
			ok = false
			// no shorter or longer nonce passes without the work either
			if pow.CheckPowNonce(d, b.Nonce, data) && !refAccept(d, b.Nonce, data) {
				t.Fatalf("CheckPowNonce(difficulty %v, nonce %x, data %x) accepts, the work is too low", d, b.Nonce, data)
			}
		}
		if err := ver.VerifyAccountBlockNonce(b); (err == nil) != ok {
			t.Fatalf("block verifier on case %d (difficulty %v nonce %x addr %v): %v, want accepted=%v", kind, b.Difficulty, b.Nonce, b.AccountAddress, err, ok)
		}
		c.Sample("difficulty %v nonce %x data %x accepted %v", d, nonce, data[:4], got)
	})
}

func TestCompare(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "pairs of 32-byte values, often equal up to a chosen byte: QuickGreater against big-integer comparison; non-trivial: the values share a prefix of at least one byte",
		Quick: 20000, Thorough: 300000,
	}, func(t *rapid.T, c *vlib.C) {
		x := gens.Fixed(32).Draw(t, "x")
		y := append([]byte{}, x...)
		i := rapid.IntRange(0, 32).Draw(t, "at")
		if i < 32 {
			y[i] = rapid.Byte().Draw(t, "b")
			if i < 31 && rapid.Bool().Draw(t, "rest") {
				copy(y[i+1:], gens.Fixed(31-i).Draw(t, "tail"))
			}
		}
		want := new(big.Int).SetBytes(x).Cmp(new(big.Int).SetBytes(y)) >= 0
		if got := pow.QuickGreater(x, y); got != want {
			t.Fatalf("QuickGreater(%x, %x) = %v", x, y, got)
		}
		inc := new(big.Int).Add(new(big.Int).SetBytes(x), one)
		inc.Mod(inc, two256)
		if got := new(big.Int).SetBytes(pow.QuickInc(append([]byte{}, x...))); got.Cmp(inc) != 0 {
			t.Fatalf("QuickInc(%x) = %x", x, got)
		}
		if i > 0 {
			c.NonTrivial(x, y)
		}
		c.Sample("%x vs %x", x, y)
	})
}

func TestConvert(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "difficulties and targets: both conversions against exact rational arithmetic rounded to 64 bits, monotonicity, and the round trip within the stated precision; non-trivial: difficulty below 2^63",
		Quick: 8000, Thorough: 150000,
	}, func(t *rapid.T, c *vlib.C) {
		d := genDifficulty(t)
		tg := pow.DifficultyToTarget(d)
		if want := refTarget(d); tg == nil || tg.Cmp(want) != 0 {
			t.Fatalf("DifficultyToTarget(%v) = %v, reference %v", d, tg, want)
		}
		e := genDifficulty(t)
		te := pow.DifficultyToTarget(e)
		if d.Cmp(e) <= 0 && tg.Cmp(te) > 0 || d.Cmp(e) >= 0 && tg.Cmp(te) < 0 {
			t.Fatalf("not monotone: %v -> %x, %v -> %x", d, tg, e, te)
		}
		if d.BitLen() < 64 {
			c.NonTrivial(d.String(), e.String())
			if want := refDifficulty(tg); want != nil {
				back := pow.TargetToDifficulty(tg)
				if back == nil || back.Cmp(want) != 0 {
					t.Fatalf("TargetToDifficulty(%x) = %v, reference %v", tg, back, want)
				}
				if d.BitLen() <= 30 && back.Cmp(d) != 0 {
					t.Fatalf("round trip of difficulty %v gives %v", d, back)
				}
			}
		}
		raw := new(big.Int).SetBytes(gens.Fixed(32).Draw(t, "target"))
		if raw.Sign() > 0 {
			if want := refDifficulty(raw); want != nil {
				if got := pow.TargetToDifficulty(raw); got.Cmp(want) != 0 {
					t.Fatalf("TargetToDifficulty(%x) = %v, reference %v", raw, got, want)
				}
			}
		}
		c.Sample("difficulty %v target %x", d, tg)
	})
}

func TestSolve(t *testing.T) {
	vlib.Check(t, vlib.Opts{
		Rule:  "difficulties up to 2^9 and search ranges: a solver's nonce is always accepted, MapPowNonce returns the first acceptable counter of its half-open range and fails exactly when there is none; non-trivial: difficulty above 4",
		Quick: 800, Thorough: 10000,
	}, func(t *rapid.T, c *vlib.C) {
		pow.Init(false)
		d := big.NewInt(rapid.Int64Range(1, 512).Draw(t, "d"))
		dh := gens.Hash().Draw(t, "data")
		if d.Int64() > 4 {
			c.NonTrivial(d.String(), dh.Hex())
		}
		n, err := pow.GetPowNonce(d, dh)
		if err != nil || len(n) != 8 || !refAccept(d, n, dh.Bytes()) {
			t.Fatalf("GetPowNonce(%v): %x, %v", d, n, err)
		}
		from := rapid.Uint64().Draw(t, "from")
		span := uint64(rapid.IntRange(0, 600).Draw(t, "span"))
		if from+span < from {
			span = ^uint64(0) - from
		}
		var want []byte
		at := from
		for ; at < from+span; at++ {
			b := make([]byte, 8)
			binary.BigEndian.PutUint64(b, at)
			if refAccept(d, b, dh.Bytes()) {
				want = b
				break
			}
		}
		got, idx, err := pow.MapPowNonce(d, dh, from, from+span)
		if want == nil {
			c.Label("range without solution")
			if err == nil {
				t.Fatalf("MapPowNonce(%v, [%d,%d)) found %x where no counter is acceptable", d, from, from+span, got)
			}
		} else {
			c.Label("range with solution")
			if err != nil || idx != at || string(got) != string(want) {
				t.Fatalf("MapPowNonce(%v, [%d,%d)) = %x at %d (%v), want %x at %d", d, from, from+span, got, idx, err, want, at)
			}
		}
		if n2, tries, err := pow.MapPowNonce2(d, dh, span); err == nil && (tries >= span || !refAccept(d, n2, dh.Bytes())) {
			t.Fatalf("MapPowNonce2(%v, %d): %x after %d", d, span, n2, tries)
		}
		if _, err := pow.GetPowNonce(nil, types.Hash{}); err == nil {
			t.Fatalf("nil difficulty accepted")
		}
		c.Sample("difficulty %v data %v nonce %x", d, dh, n)
	})
}
