package c01

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"testing"

	"github.com/golang/protobuf/proto"
	"golang.org/x/crypto/blake2b"
	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/common/vitepb"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"verif/gens"
	"verif/vlib"
)

func pad(b []byte, n int) []byte {
	if len(b) >= n {
		return b
	}
	return append(make([]byte, n-len(b)), b...)
}

func isSend(t byte) bool { return t == 1 || t == 2 || t == 3 || t == 6 }

// refSource is the signed content of a block, written from the documented field
// numbering (1..13) and independent of the implementation.
func refSource(b *ledger.AccountBlock, extra []byte) []byte {
	var s []byte
	s = append(s, b.BlockType)
	s = append(s, b.PrevHash[:]...)
	var h [8]byte
	binary.BigEndian.PutUint64(h[:], b.Height)
	s = append(s, h[:]...)
	s = append(s, b.AccountAddress[:]...)
	if isSend(b.BlockType) {
		s = append(s, b.ToAddress[:]...)
		s = append(s, pad(b.Amount.Bytes(), 32)...)
		s = append(s, b.TokenId[:]...)
	} else {
		s = append(s, b.FromBlockHash[:]...)
	}
	if len(b.Data) > 0 {
		d := blake2b.Sum256(b.Data)
		s = append(s, d[:]...)
	}
	var fee []byte
	if b.Fee != nil {
		fee = b.Fee.Bytes()
	}
	s = append(s, pad(fee, 32)...)
	if b.LogHash != nil {
		s = append(s, b.LogHash[:]...)
	}
	s = append(s, pad(b.Nonce, 8)...)
	for _, sb := range b.SendBlockList {
		s = append(s, sb.Hash[:]...)
	}
	return append(s, extra...)
}

func refHash(b *ledger.AccountBlock, extra []byte) types.Hash {
	return types.Hash(blake2b.Sum256(refSource(b, extra)))
}

func bigEq(a, b *big.Int) bool {
	if a == nil {
		a = new(big.Int)
	}
	if b == nil {
		b = new(big.Int)
	}
	return a.Cmp(b) == 0
}

func diff(a, b *ledger.AccountBlock) string {
	switch {
	case a.BlockType != b.BlockType:
		return "BlockType"
	case a.Hash != b.Hash:
		return "Hash"
	case a.PrevHash != b.PrevHash:
		return "PrevHash"
	case a.Height != b.Height:
		return "Height"
	case a.AccountAddress != b.AccountAddress:
		return "AccountAddress"
	case !bytes.Equal(a.PublicKey, b.PublicKey):
		return "PublicKey"
	case a.ToAddress != b.ToAddress:
		return "ToAddress"
	case !bigEq(a.Amount, b.Amount):
		return "Amount"
	case a.TokenId != b.TokenId:
		return "TokenId"
	case a.FromBlockHash != b.FromBlockHash:
		return "FromBlockHash"
	case !bytes.Equal(a.Data, b.Data):
		return "Data"
	case a.Quota != b.Quota:
		return "Quota"
	case a.QuotaUsed != b.QuotaUsed:
		return "QuotaUsed"
	case !bigEq(a.Fee, b.Fee):
		return "Fee"
	case (a.LogHash == nil) != (b.LogHash == nil) || a.LogHash != nil && *a.LogHash != *b.LogHash:
		return "LogHash"
	case !bigEq(a.Difficulty, b.Difficulty):
		return "Difficulty"
	case !bytes.Equal(a.Nonce, b.Nonce):
		return "Nonce"
	case !bytes.Equal(a.Signature, b.Signature):
		return "Signature"
	case len(a.SendBlockList) != len(b.SendBlockList):
		return "SendBlockList length"
	}
	for i := range a.SendBlockList {
		if d := diff(a.SendBlockList[i], b.SendBlockList[i]); d != "" {
			return fmt.Sprintf("SendBlockList[%d].%s", i, d)
		}
	}
	return ""
}

// clone is a deep copy independent of AccountBlock.Copy.
func clone(b *ledger.AccountBlock) *ledger.AccountBlock {
	n := *b
	cb := func(x *big.Int) *big.Int {
		if x == nil {
			return nil
		}
		return new(big.Int).Set(x)
	}
	n.Amount, n.Fee, n.Difficulty = cb(b.Amount), cb(b.Fee), cb(b.Difficulty)
	n.Data = append([]byte(nil), b.Data...)
	n.Nonce = append([]byte(nil), b.Nonce...)
	n.Signature = append([]byte(nil), b.Signature...)
	n.PublicKey = append([]byte(nil), b.PublicKey...)
	if b.LogHash != nil {
		h := *b.LogHash
		n.LogHash = &h
	}
	n.SendBlockList = nil
	for _, s := range b.SendBlockList {
		n.SendBlockList = append(n.SendBlockList, clone(s))
	}
	return &n
}

func short(b *ledger.AccountBlock) string {
	return fmt.Sprintf("type=%d h=%d addr=%x to=%x amount=%v fee=%v data=%dB log=%v nonce=%x diff=%v sends=%d", b.BlockType, b.Height, b.AccountAddress[:4], b.ToAddress[:4], b.Amount, b.Fee, len(b.Data), b.LogHash != nil, b.Nonce, b.Difficulty, len(b.SendBlockList))
}

func TestRoundTrip(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 2500, Thorough: 60000, Rule: "random account block of any type, nested send blocks; non-trivial: has data, fee, amount>0 or nested blocks"},
		func(rt *rapid.T, c *vlib.C) {
			b := gens.AccountBlock(1).Draw(rt, "block")
			if len(b.Data) > 0 || len(b.SendBlockList) > 0 || (b.Amount != nil && b.Amount.Sign() > 0) {
				c.NonTrivial(b.Hash)
				c.Sample("%s", short(b))
			}
			c.Label(fmt.Sprintf("type%d", b.BlockType))
			orig := clone(b)
			buf, err := b.Serialize()
			if err != nil {
				rt.Fatalf("serialize: %v", err)
			}
			if d := diff(orig, b); d != "" {
				rt.Fatalf("Serialize changed %s", d)
			}
			got := &ledger.AccountBlock{}
			if err := got.Deserialize(buf); err != nil {
				rt.Fatalf("deserialize own encoding: %v", err)
			}
			if d := diff(b, got); d != "" {
				rt.Fatalf("field %s not preserved: %+v vs %+v", d, b, got)
			}
			if got.ComputeHash() != b.Hash || b.ComputeHash() != b.Hash {
				rt.Fatalf("hash changed over round trip")
			}
			// the encoding is canonical: stored and transmitted bytes are stable
			buf2, err := got.Serialize()
			if err != nil || !bytes.Equal(buf, buf2) {
				rt.Fatalf("re-encoding differs (err %v)", err)
			}
			// the proto path used by network messages is the same codec
			got2 := &ledger.AccountBlock{}
			if err := got2.DeProto(b.Proto()); err != nil || diff(b, got2) != "" {
				rt.Fatalf("Proto/DeProto differ: %v %s", err, diff(b, got2))
			}
		})
}

// mutators: each changes exactly one field to a different value. signed tells
// whether the hash must change for the given block.
type mutator struct {
	name   string
	signed func(b *ledger.AccountBlock) bool
	apply  func(rt *rapid.T, b *ledger.AccountBlock)
}

func yes(*ledger.AccountBlock) bool      { return true }
func no(*ledger.AccountBlock) bool       { return false }
func onSend(b *ledger.AccountBlock) bool { return isSend(b.BlockType) }
func onRecv(b *ledger.AccountBlock) bool { return !isSend(b.BlockType) }

func flip(rt *rapid.T, b []byte) {
	b[rapid.IntRange(0, len(b)-1).Draw(rt, "byte")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
}
func flipBig(rt *rapid.T, b *big.Int) *big.Int {
	if b == nil {
		b = new(big.Int)
	}
	i := rapid.IntRange(0, 255).Draw(rt, "bit")
	return new(big.Int).SetBit(b, i, b.Bit(i)^1)
}

var mutators = []mutator{
	{"BlockType", yes, func(rt *rapid.T, b *ledger.AccountBlock) {
		set := gens.ReceiveTypes
		if isSend(b.BlockType) {
			set = gens.SendTypes
		}
		var o []byte
		for _, x := range set {
			if x != b.BlockType {
				o = append(o, x)
			}
		}
		b.BlockType = rapid.SampledFrom(o).Draw(rt, "newtype")
	}},
	{"PrevHash", yes, func(rt *rapid.T, b *ledger.AccountBlock) { flip(rt, b.PrevHash[:]) }},
	{"Height", yes, func(rt *rapid.T, b *ledger.AccountBlock) { b.Height ^= 1 << uint(rapid.IntRange(0, 63).Draw(rt, "bit")) }},
	{"AccountAddress", yes, func(rt *rapid.T, b *ledger.AccountBlock) { flip(rt, b.AccountAddress[:]) }},
	{"ToAddress", onSend, func(rt *rapid.T, b *ledger.AccountBlock) { flip(rt, b.ToAddress[:]) }},
	{"Amount", onSend, func(rt *rapid.T, b *ledger.AccountBlock) { b.Amount = flipBig(rt, b.Amount) }},
	{"TokenId", onSend, func(rt *rapid.T, b *ledger.AccountBlock) { flip(rt, b.TokenId[:]) }},
	{"FromBlockHash", onRecv, func(rt *rapid.T, b *ledger.AccountBlock) { flip(rt, b.FromBlockHash[:]) }},
	{"Data", yes, func(rt *rapid.T, b *ledger.AccountBlock) {
		if len(b.Data) == 0 || rapid.Bool().Draw(rt, "grow") {
			b.Data = append(append([]byte(nil), b.Data...), rapid.Byte().Draw(rt, "b"))
		} else {
			flip(rt, b.Data)
		}
	}},
	{"Fee", yes, func(rt *rapid.T, b *ledger.AccountBlock) { b.Fee = flipBig(rt, b.Fee) }},
	{"LogHash", yes, func(rt *rapid.T, b *ledger.AccountBlock) {
		if b.LogHash == nil {
			h := gens.Hash().Draw(rt, "newlog")
			b.LogHash = &h
		} else {
			flip(rt, b.LogHash[:])
		}
	}},
	{"Nonce", yes, func(rt *rapid.T, b *ledger.AccountBlock) {
		if len(b.Nonce) == 0 {
			b.Nonce = make([]byte, 8)
		}
		flip(rt, b.Nonce)
	}},
	{"SendBlockList", yes, func(rt *rapid.T, b *ledger.AccountBlock) {
		if len(b.SendBlockList) == 0 || rapid.Bool().Draw(rt, "grow") {
			b.SendBlockList = append(b.SendBlockList, gens.AccountBlock(0).Draw(rt, "extra"))
		} else {
			i := rapid.IntRange(0, len(b.SendBlockList)-1).Draw(rt, "i")
			flip(rt, b.SendBlockList[i].Hash[:])
		}
	}},
	{"PublicKey", no, func(rt *rapid.T, b *ledger.AccountBlock) {
		b.PublicKey = append(append([]byte(nil), b.PublicKey...), 1)
	}},
	{"Signature", no, func(rt *rapid.T, b *ledger.AccountBlock) {
		b.Signature = append(append([]byte(nil), b.Signature...), 1)
	}},
	{"Quota", no, func(rt *rapid.T, b *ledger.AccountBlock) { b.Quota++ }},
	{"QuotaUsed", no, func(rt *rapid.T, b *ledger.AccountBlock) { b.QuotaUsed++ }},
	{"Difficulty", no, func(rt *rapid.T, b *ledger.AccountBlock) { b.Difficulty = flipBig(rt, b.Difficulty) }},
	{"Hash", no, func(rt *rapid.T, b *ledger.AccountBlock) { flip(rt, b.Hash[:]) }},
}

func TestHashBinding(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 3000, Thorough: 80000, Rule: "random block and one random single-field change; every case is non-trivial (hash must change iff the field is signed; hash equals an independent reference)"},
		func(rt *rapid.T, c *vlib.C) {
			b := gens.AccountBlock(1).Draw(rt, "block")
			if got, want := b.ComputeHash(), refHash(b, nil); got != want {
				rt.Fatalf("hash %v, reference %v for %+v", got, want, b)
			}
			// contract-generated sends: the hash also binds host block and index
			host := gens.AccountBlock(0).Draw(rt, "host")
			idx := rapid.Byte().Draw(rt, "idx")
			var h [8]byte
			binary.BigEndian.PutUint64(h[:], host.Height)
			extra := append(append(append([]byte(nil), host.PrevHash[:]...), h[:]...), idx)
			if got, want := b.ComputeSendHash(host, idx), refHash(b, extra); got != want {
				rt.Fatalf("send hash %v, reference %v", got, want)
			}
			m := rapid.SampledFrom(mutators).Draw(rt, "mutator")
			n := clone(b)
			m.apply(rt, n)
			signed := m.signed(b)
			c.Label(fmt.Sprintf("%s signed=%v", m.name, signed))
			c.NonTrivial(b.Hash, m.name)
			c.Sample("change %s of %s", m.name, short(b))
			if changed := n.ComputeHash() != b.ComputeHash(); changed != signed {
				rt.Fatalf("changing %s: hash changed=%v, expected %v", m.name, changed, signed)
			}
		})
}

func badLen(rt *rapid.T, want int, allowEmpty bool) []byte {
	n := rapid.IntRange(1, 70).Draw(rt, "badlen")
	if n == want {
		n = want + 1
	}
	if allowEmpty && rapid.IntRange(0, 3).Draw(rt, "empty") == 0 {
		n = 0
	}
	return rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, "bad")
}

func TestMalformed(t *testing.T) {
	vlib.Check(t, vlib.Opts{Quick: 2500, Thorough: 80000, Rule: "valid encodings with one identifier field of impossible size (must be rejected), byte-level mutations and arbitrary bytes (must not panic; if accepted, decoding is stable)"},
		func(rt *rapid.T, c *vlib.C) {
			b := gens.AccountBlock(1).Draw(rt, "block")
			var buf []byte
			mustReject := false
			switch rapid.IntRange(0, 3).Draw(rt, "mode") {
			case 0, 1:
				pb := b.Proto()
				target := pb
				if len(pb.SendBlockList) > 0 && rapid.Bool().Draw(rt, "nested") {
					target = pb.SendBlockList[rapid.IntRange(0, len(pb.SendBlockList)-1).Draw(rt, "which")]
				}
				send := isSend(byte(target.BlockType))
				fields := []string{"hash", "account", "log"}
				if target.Height > 1 {
					fields = append(fields, "prev")
				}
				if send {
					fields = append(fields, "to")
				} else {
					fields = append(fields, "from")
				}
				if send || byte(target.BlockType) == ledger.BlockTypeGenesisReceive {
					fields = append(fields, "token")
				}
				f := rapid.SampledFrom(fields).Draw(rt, "field")
				switch f {
				case "hash":
					target.Hash = badLen(rt, 32, true)
				case "prev":
					target.PrevHash = badLen(rt, 32, true)
				case "account":
					target.AccountAddress = badLen(rt, types.AddressSize, true)
				case "to":
					target.ToAddress = badLen(rt, types.AddressSize, true)
				case "from":
					target.FromBlockHash = badLen(rt, 32, true)
				case "token":
					target.TokenId = badLen(rt, types.TokenTypeIdSize, true)
				case "log":
					target.LogHash = badLen(rt, 32, false)
				}
				var err error
				if buf, err = proto.Marshal(pb); err != nil {
					panic(err)
				}
				mustReject = true
				c.Label("bad size " + f)
				c.NonTrivial(buf)
				c.Sample("impossible size of %s in %s", f, short(b))
			case 2:
				good, _ := b.Serialize()
				buf = gens.Mutate(rt, good)
				c.Label("mutated")
				c.NonTrivial(buf)
			case 3:
				buf = gens.Bytes(200).Draw(rt, "bytes")
				c.Label("arbitrary")
			}
			got := &ledger.AccountBlock{}
			err := got.Deserialize(buf)
			if mustReject {
				if err == nil {
					rt.Fatalf("malformed block accepted: %x -> %+v", buf, got)
				}
				return
			}
			if err == nil {
				_ = got.ComputeHash()
				buf2, err := got.Serialize()
				if err != nil {
					return // e.g. invalid enum; nothing claimed
				}
				again := &ledger.AccountBlock{}
				if err := again.Deserialize(buf2); err != nil {
					rt.Fatalf("accepted block does not decode again: %v", err)
				}
				if d := diff(got, again); d != "" {
					rt.Fatalf("accepted block is not stable: %s", d)
				}
				c.Label("accepted mutation")
			}
		})
}

func TestVmLogs(t *testing.T) {
	upgrade.InitUpgradeBox(upgrade.NewEmptyUpgradeBox().AddPoint(1, 100))
	defer upgrade.CleanupUpgradeBox()
	vlib.Check(t, vlib.Opts{Quick: 1500, Thorough: 40000, Rule: "random event log lists; non-trivial: >=1 log with a topic or data; round trip, reference hash, order and content binding, malformed topics rejected"},
		func(rt *rapid.T, c *vlib.C) {
			n := rapid.IntRange(0, 4).Draw(rt, "n")
			var l ledger.VmLogList
			for i := 0; i < n; i++ {
				l = append(l, &ledger.VmLog{Topics: rapid.SliceOfN(gens.Hash(), 0, 3).Draw(rt, "topics"), Data: gens.Bytes(40).Draw(rt, "data")})
			}
			addr, prev := gens.Address().Draw(rt, "addr"), gens.Hash().Draw(rt, "prev")
			height := rapid.SampledFrom([]uint64{1, 99, 100, 101, 1 << 40}).Draw(rt, "height")
			buf, err := l.Serialize()
			if err != nil {
				rt.Fatal(err)
			}
			got := ledger.VmLogList{&ledger.VmLog{Data: []byte("stale")}}
			if err := got.Deserialize(buf); err != nil {
				rt.Fatal(err)
			}
			if len(got) != len(l) {
				rt.Fatalf("%d logs became %d", len(l), len(got))
			}
			var src []byte
			for i := range l {
				if len(l[i].Topics) != len(got[i].Topics) || !bytes.Equal(l[i].Data, got[i].Data) {
					rt.Fatalf("log %d changed", i)
				}
				for j := range l[i].Topics {
					if l[i].Topics[j] != got[i].Topics[j] {
						rt.Fatalf("topic changed")
					}
					src = append(src, l[i].Topics[j][:]...)
				}
				src = append(src, l[i].Data...)
			}
			h := l.Hash(height, addr, prev)
			if len(l) == 0 {
				if h != nil {
					rt.Fatal("empty log list has a hash")
				}
				return
			}
			if height >= 100 {
				src = append(append(src, addr[:]...), prev[:]...)
			}
			c.NonTrivial(buf)
			c.Sample("%d logs, %d source bytes, height %d", len(l), len(src), height)
			if want := types.Hash(blake2b.Sum256(src)); h == nil || *h != want {
				rt.Fatalf("log hash %v, reference %v", h, want)
			}
			if h2 := got.Hash(height, addr, prev); *h2 != *h {
				rt.Fatal("log hash changed over round trip")
			}
			pb := l.Proto()
			pb.List[0].Topics = append(pb.List[0].Topics, badLen(rt, 32, true))
			bad, _ := proto.Marshal(pb)
			if err := new(ledger.VmLogList).Deserialize(bad); err == nil {
				rt.Fatalf("log with malformed topic accepted")
			}
			_ = new(ledger.VmLogList).Deserialize(gens.Mutate(rt, buf))
		})
}

var _ = vitepb.AccountBlock{}
