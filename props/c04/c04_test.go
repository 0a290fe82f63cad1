package c04

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"strings"
	"testing"

	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/hexutil"
	"github.com/vitelabs/go-vite/v2/common/types"
	"verif/gens"
	"verif/vlib"
)

func sum(n int, b ...[]byte) []byte {
	h, err := blake2b.New(n, nil)
	if err != nil {
		panic(err)
	}
	for _, x := range b {
		h.Write(x)
	}
	return h.Sum(nil)
}

// refAddress parses an address text independently of the implementation.
func refAddress(s string) (types.Address, bool) {
	var a types.Address
	if len(s) != 55 || !strings.HasPrefix(s, "vite_") {
		return a, false
	}
	b, err := hex.DecodeString(s[5:])
	if err != nil {
		return a, false
	}
	cs := sum(5, b[:20])
	copy(a[:], b[:20])
	if bytes.Equal(cs, b[20:]) {
		return a, true
	}
	for i := range cs {
		cs[i] = ^cs[i]
	}
	if bytes.Equal(cs, b[20:]) {
		a[20] = 1
		return a, true
	}
	return types.Address{}, false
}

func refToken(s string) (types.TokenTypeId, bool) {
	var t types.TokenTypeId
	if len(s) != 28 || !strings.HasPrefix(s, "tti_") {
		return t, false
	}
	b, err := hex.DecodeString(s[4:])
	if err != nil || !bytes.Equal(sum(2, b[:10]), b[10:]) {
		return t, false
	}
	copy(t[:], b)
	return t, true
}

func refFixed(s string, n int) ([]byte, bool) {
	if len(s) != 2*n {
		return nil, false
	}
	b, err := hex.DecodeString(s)
	return b, err == nil
}

// corrupt changes a text in a way a typo or truncation would.
func corrupt(rt *rapid.T, s string) string {
	b := []byte(s)
	const alpha = "0123456789abcdefABCDEFgxviet_ \"\x00\xff"
	n := rapid.IntRange(1, 2).Draw(rt, "n")
	for i := 0; i < n && len(b) > 0; i++ {
		p := rapid.IntRange(0, len(b)-1).Draw(rt, "pos")
		ch := alpha[rapid.IntRange(0, len(alpha)-1).Draw(rt, "ch")]
		switch rapid.IntRange(0, 5).Draw(rt, "op") {
		case 0, 1, 2:
			b[p] = ch
		case 3:
			b = append(b[:p], b[p+1:]...)
		case 4:
			b = append(b[:p], append([]byte{ch}, b[p:]...)...)
		case 5:
			q := rapid.IntRange(0, len(b)-1).Draw(rt, "q")
			b[p], b[q] = b[q], b[p]
		}
	}
	return string(b)
}

func text(rt *rapid.T, valid string) string {
	switch rapid.IntRange(0, 9).Draw(rt, "textkind") {
	case 0:
		return valid
	case 1:
		return strings.ToUpper(valid)
	case 2:
		return rapid.String().Draw(rt, "str")
	case 3:
		i := strings.IndexByte(valid, '_') + 1
		return valid[:i] + strings.ToUpper(valid[i:])
	default:
		return corrupt(rt, valid)
	}
}

func TestAddress(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 4000, Thorough: 100000, Rule: "random address: text/JSON round trip; corrupted text must be accepted exactly when an independent parser accepts it; non-trivial: corrupted text differs from the original"},
		func(rt *rapid.T, c *vlib.C) {
			a := gens.Address().Draw(rt, "addr")
			s := a.String()
			if b, err := types.HexToAddress(s); err != nil || b != a || a.Hex() != s {
				rt.Fatalf("%s parses to %v, %v", s, b, err)
			}
			if ref, ok := refAddress(s); !ok || ref != a {
				rt.Fatalf("text form %s of %x is not the documented one", s, a[:])
			}
			if !types.IsValidHexAddress(s) {
				rt.Fatalf("%s reported invalid", s)
			}
			js, err := json.Marshal(a)
			var back types.Address
			if err != nil || json.Unmarshal(js, &back) != nil || back != a {
				rt.Fatalf("JSON round trip of %s: %s %v", s, js, err)
			}
			m := map[types.Address]int{a: 7}
			js, err = json.Marshal(m)
			m2 := map[types.Address]int{}
			if err != nil || json.Unmarshal(js, &m2) != nil || m2[a] != 7 {
				rt.Fatalf("JSON round trip as object key: %s %v", js, err)
			}
			if types.IsContractAddr(a) != (a[20] == 1) {
				rt.Fatalf("contract predicate wrong")
			}
			if b, err := types.BytesToAddress(a.Bytes()); err != nil || b != a {
				rt.Fatal("bytes round trip")
			}
			bad := text(rt, s)
			want, ok := refAddress(bad)
			if bad != s {
				c.NonTrivial(bad)
				c.Sample("%q accepted=%v", bad, ok)
			}
			got, err := types.HexToAddress(bad)
			if (err == nil) != ok || got != want {
				rt.Fatalf("%q parses to %v, %v; reference %v %v", bad, got, err, want, ok)
			}
			if types.IsValidHexAddress(bad) != ok {
				rt.Fatalf("validity of %q is not %v", bad, ok)
			}
			var j types.Address
			q, _ := json.Marshal(bad)
			if string(q) == `"`+bad+`"` {
				if err := json.Unmarshal(q, &j); (err == nil) != ok || j != want {
					rt.Fatalf("JSON %s: %v %v", q, j, err)
				}
			}
			raw := gens.Bytes(40).Draw(rt, "raw")
			if _, err := types.BytesToAddress(raw); (err == nil) != (len(raw) == 21) {
				rt.Fatalf("%d bytes accepted as address: %v", len(raw), err)
			}
			// order is byte order
			b := gens.Address().Draw(rt, "other")
			if a.Compare(b) != bytes.Compare(a[:], b[:]) {
				rt.Fatal("order")
			}
			// derived addresses
			d1, d2 := gens.Bytes(30).Draw(rt, "d1"), gens.Bytes(30).Draw(rt, "d2")
			ca := types.CreateContractAddress(d1, d2)
			if !bytes.Equal(ca[:20], sum(20, d1, d2)) || ca[20] != 1 || !types.IsContractAddr(ca) {
				rt.Fatal("contract address derivation")
			}
			if ua := types.PubkeyToAddress(d1); !bytes.Equal(ua[:20], sum(20, d1)) || ua[20] != 0 {
				rt.Fatal("user address derivation")
			}
			// number form used by contracts
			if b, err := types.BigToAddress(new(big.Int).SetBytes(a[:])); err != nil || b != a {
				rt.Fatalf("BigToAddress: %v %v", b, err)
			}
		})
}

func TestTokenHashGid(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 4000, Thorough: 100000, Rule: "random token id, hash, group id: text/JSON round trip, acceptance of corrupted text equals an independent parser; non-trivial: corrupted text"},
		func(rt *rapid.T, c *vlib.C) {
			tk := gens.TokenId().Draw(rt, "token")
			s := tk.String()
			if ref, ok := refToken(s); !ok || ref != tk {
				rt.Fatalf("text form %s of %x is not the documented one", s, tk[:])
			}
			if b, err := types.HexToTokenTypeId(s); err != nil || b != tk || !types.IsValidHexTokenTypeId(s) {
				rt.Fatalf("%s: %v %v", s, b, err)
			}
			js, err := json.Marshal(tk)
			var back types.TokenTypeId
			if err != nil || json.Unmarshal(js, &back) != nil || back != tk {
				rt.Fatalf("JSON %s", js)
			}
			m := map[types.TokenTypeId]int{tk: 7}
			js, err = json.Marshal(m)
			m2 := map[types.TokenTypeId]int{}
			if err != nil || json.Unmarshal(js, &m2) != nil || m2[tk] != 7 {
				rt.Fatalf("JSON round trip as object key: %s %v", js, err)
			}
			bad := text(rt, s)
			want, ok := refToken(bad)
			if bad != s {
				c.NonTrivial(bad)
				c.Sample("%q accepted=%v", bad, ok)
			}
			if got, err := types.HexToTokenTypeId(bad); (err == nil) != ok || got != want || types.IsValidHexTokenTypeId(bad) != ok {
				rt.Fatalf("%q: %v %v, reference %v", bad, got, err, ok)
			}
			if b, err := types.BigToTokenTypeId(new(big.Int).SetBytes(tk[:])); err != nil || b != tk {
				rt.Fatal("BigToTokenTypeId")
			}
			d1, d2 := gens.Bytes(30).Draw(rt, "d1"), gens.Bytes(30).Draw(rt, "d2")
			if id := types.CreateTokenTypeId(d1, d2); !bytes.Equal(id[:], sum(10, d1, d2)) {
				rt.Fatal("token id derivation")
			}
			if g := types.DataToGid(d1, d2); !bytes.Equal(g[:], sum(10, d1, d2)) {
				rt.Fatal("gid derivation")
			}
			if h := types.DataListHash(d1, d2); !bytes.Equal(h[:], sum(32, d1, d2)) || types.DataHash(d1) != types.Hash(blake2b.Sum256(d1)) {
				rt.Fatal("hash derivation")
			}

			h := gens.Hash().Draw(rt, "hash")
			if b, err := types.HexToHash(h.String()); err != nil || b != h || h.String() != hex.EncodeToString(h[:]) {
				rt.Fatal("hash text")
			}
			var hb types.Hash
			js, err = json.Marshal(h)
			if err != nil || json.Unmarshal(js, &hb) != nil || hb != h {
				rt.Fatalf("hash JSON %s", js)
			}
			if b, err := types.BigToHash(h.Big()); err != nil || b != h {
				rt.Fatal("hash big")
			}
			badh := text(rt, h.String())
			wb, ok := refFixed(badh, 32)
			if got, err := types.HexToHash(badh); (err == nil) != ok || ok && !bytes.Equal(got[:], wb) {
				rt.Fatalf("%q: %v %v", badh, got, err)
			}
			h2 := gens.Hash().Draw(rt, "hash2")
			if h.Cmp(h2) != bytes.Compare(h[:], h2[:]) {
				rt.Fatal("hash order")
			}
			raw := gens.Bytes(50).Draw(rt, "raw")
			if _, err := types.BytesToHash(raw); (err == nil) != (len(raw) == 32) {
				rt.Fatal("hash size")
			}
			if _, err := types.BytesToTokenTypeId(raw); (err == nil) != (len(raw) == 10) {
				rt.Fatal("token size")
			}
			if _, err := types.BytesToGid(raw); (err == nil) != (len(raw) == 10) {
				rt.Fatal("gid size")
			}
			var g types.Gid
			copy(g[:], gens.Fixed(10).Draw(rt, "gid"))
			if b, err := types.HexToGid(g.String()); err != nil || b != g {
				rt.Fatal("gid text")
			}
			if b, err := types.BigToGid(new(big.Int).SetBytes(g[:])); err != nil || b != g {
				rt.Fatal("gid big")
			}
			var gb types.Gid
			js, err = json.Marshal(g)
			if err != nil || json.Unmarshal(js, &gb) != nil || gb != g {
				rt.Fatalf("gid JSON %s", js)
			}
			badg := text(rt, g.String())
			wb, ok = refFixed(badg, 10)
			if got, err := types.HexToGid(badg); (err == nil) != ok || ok && !bytes.Equal(got[:], wb) {
				rt.Fatalf("%q: %v %v", badg, got, err)
			}
		})
}

func validHexNumber(s string) bool {
	if len(s) < 3 || s[:2] != "0x" && s[:2] != "0X" {
		return false
	}
	d := s[2:]
	if len(d) > 1 && d[0] == '0' {
		return false
	}
	for _, c := range d {
		if !strings.ContainsRune("0123456789abcdefABCDEF", c) {
			return false
		}
	}
	return true
}

func TestHexQuantities(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 4000, Thorough: 100000, Rule: "random byte strings and 0..2^256 quantities: 0x round trip; corrupted text accepted iff an independent grammar accepts; non-trivial: corrupted text"},
		func(rt *rapid.T, c *vlib.C) {
			b := gens.Bytes(50).Draw(rt, "b")
			if d, err := hexutil.Decode(hexutil.Encode(b)); err != nil || !bytes.Equal(d, b) {
				rt.Fatalf("bytes %x: %x %v", b, d, err)
			}
			v := gens.Big(256).Draw(rt, "v")
			s := hexutil.EncodeBig(v)
			if d, err := hexutil.DecodeBig(s); err != nil || d.Cmp(v) != 0 || s != "0x"+v.Text(16) {
				rt.Fatalf("%v: %s %v %v", v, s, d, err)
			}
			u := gens.Uint64().Draw(rt, "u")
			if d, err := hexutil.DecodeUint64(hexutil.EncodeUint64(u)); err != nil || d != u {
				rt.Fatalf("%d: %v", u, err)
			}
			js, err := json.Marshal((*hexutil.Big)(v))
			var hb hexutil.Big
			if err != nil || json.Unmarshal(js, &hb) != nil || hb.ToInt().Cmp(v) != 0 {
				rt.Fatalf("Big JSON %s", js)
			}
			js, err = json.Marshal(hexutil.Uint64(u))
			var hu hexutil.Uint64
			if err != nil || json.Unmarshal(js, &hu) != nil || uint64(hu) != u {
				rt.Fatalf("Uint64 JSON %s", js)
			}
			js, err = json.Marshal(hexutil.Bytes(b))
			var hbs hexutil.Bytes
			if err != nil || json.Unmarshal(js, &hbs) != nil || !bytes.Equal(hbs, b) {
				rt.Fatalf("Bytes JSON %s", js)
			}
			bad := corrupt(rt, s)
			c.NonTrivial(bad)
			c.Sample("%q", bad)
			ok := validHexNumber(bad) && len(bad) <= 66
			d, err := hexutil.DecodeBig(bad)
			if (err == nil) != ok {
				rt.Fatalf("quantity %q accepted=%v, want %v", bad, err == nil, ok)
			}
			if ok {
				w, _ := new(big.Int).SetString(bad[2:], 16)
				if d.Cmp(w) != 0 {
					rt.Fatalf("quantity %q decoded as %v", bad, d)
				}
			}
			bu := corrupt(rt, hexutil.EncodeUint64(u))
			ok = validHexNumber(bu) && len(bu) <= 18
			du, err := hexutil.DecodeUint64(bu)
			if (err == nil) != ok {
				rt.Fatalf("uint64 %q accepted=%v, want %v", bu, err == nil, ok)
			}
			if ok {
				w, _ := new(big.Int).SetString(bu[2:], 16)
				if du != w.Uint64() {
					rt.Fatalf("uint64 %q decoded as %v", bu, du)
				}
			}
		})
}
