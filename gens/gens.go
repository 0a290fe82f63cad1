// Package gens holds the generators shared by the checks.
package gens

import (
	"math/big"
	"time"

	"github.com/vitelabs/go-vite/v2/common/types"
	ledger "github.com/vitelabs/go-vite/v2/interfaces/core"
	"pgregory.net/rapid"
)

var tt256 = new(big.Int).Lsh(big.NewInt(1), 256)

// Max256 is 2^256-1.
var Max256 = new(big.Int).Sub(tt256, big.NewInt(1))

// Fixed draws exactly n bytes, biased to all-zero/all-ff/sparse values.
func Fixed(n int) *rapid.Generator[[]byte] {
	return rapid.Custom(func(t *rapid.T) []byte {
		b := make([]byte, n)
		switch rapid.IntRange(0, 7).Draw(t, "kind") {
		case 0:
		case 1:
			for i := range b {
				b[i] = 0xff
			}
		case 2:
			b[rapid.IntRange(0, n-1).Draw(t, "pos")] = rapid.Byte().Draw(t, "b")
		case 3:
			// low entropy, many collisions of prefixes
			for i := range b {
				b[i] = byte(rapid.IntRange(0, 1).Draw(t, "bit"))
			}
		default:
			copy(b, rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes"))
		}
		return b
	})
}

func Hash() *rapid.Generator[types.Hash] {
	return rapid.Custom(func(t *rapid.T) types.Hash {
		h, err := types.BytesToHash(Fixed(types.HashSize).Draw(t, "hash"))
		if err != nil {
			panic(err)
		}
		return h
	})
}

// Address draws user and contract addresses.
func Address() *rapid.Generator[types.Address] {
	return rapid.Custom(func(t *rapid.T) types.Address {
		core := Fixed(types.AddressCoreSize).Draw(t, "addr")
		var a types.Address
		copy(a[:], core)
		if rapid.Bool().Draw(t, "contract") {
			a[types.AddressSize-1] = 1
		}
		return a
	})
}

func TokenId() *rapid.Generator[types.TokenTypeId] {
	return rapid.Custom(func(t *rapid.T) types.TokenTypeId {
		id, err := types.BytesToTokenTypeId(Fixed(types.TokenTypeIdSize).Draw(t, "token"))
		if err != nil {
			panic(err)
		}
		return id
	})
}

// Big draws integers in [0, 2^bits), biased to word boundaries.
func Big(bits int) *rapid.Generator[*big.Int] {
	return rapid.Custom(func(t *rapid.T) *big.Int {
		max := new(big.Int).Lsh(big.NewInt(1), uint(bits))
		v := new(big.Int)
		switch rapid.IntRange(0, 6).Draw(t, "kind") {
		case 0:
			v.SetInt64(int64(rapid.IntRange(0, 3).Draw(t, "small")))
		case 1:
			v.Sub(max, big.NewInt(int64(rapid.IntRange(1, 4).Draw(t, "fromtop"))))
		case 2, 3:
			sh := uint(rapid.IntRange(0, bits-1).Draw(t, "shift"))
			v.Lsh(big.NewInt(1), sh)
			v.Add(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(t, "delta"))))
		default:
			n := rapid.IntRange(1, (bits+7)/8).Draw(t, "len")
			v.SetBytes(rapid.SliceOfN(rapid.Byte(), n, n).Draw(t, "bytes"))
		}
		if v.Sign() < 0 {
			v.SetInt64(0)
		}
		return v.Mod(v, max)
	})
}

// MaybeBig is Big or nil.
func MaybeBig(bits int) *rapid.Generator[*big.Int] {
	return rapid.Custom(func(t *rapid.T) *big.Int {
		if rapid.IntRange(0, 4).Draw(t, "nil") == 0 {
			return nil
		}
		return Big(bits).Draw(t, "big")
	})
}

// Uint64 is biased to boundaries.
func Uint64() *rapid.Generator[uint64] {
	return rapid.OneOf(rapid.Uint64(), rapid.Uint64Range(0, 5), rapid.Map(rapid.Uint64Range(0, 5), func(x uint64) uint64 { return ^x }),
		rapid.Custom(func(t *rapid.T) uint64 { return uint64(1) << uint(rapid.IntRange(0, 63).Draw(t, "sh")) }))
}

func Bytes(max int) *rapid.Generator[[]byte] {
	return rapid.SliceOfN(rapid.Byte(), 0, max)
}

var SendTypes = []byte{ledger.BlockTypeSendCreate, ledger.BlockTypeSendCall, ledger.BlockTypeSendReward, ledger.BlockTypeSendRefund}
var ReceiveTypes = []byte{ledger.BlockTypeReceive, ledger.BlockTypeReceiveError, ledger.BlockTypeGenesisReceive}

// AccountBlock draws a well-formed account block of any type whose hash is its
// computed hash; depth bounds nested send blocks.
func AccountBlock(depth int) *rapid.Generator[*ledger.AccountBlock] {
	return rapid.Custom(func(t *rapid.T) *ledger.AccountBlock {
		b := &ledger.AccountBlock{}
		send := rapid.Bool().Draw(t, "send")
		if send {
			b.BlockType = rapid.SampledFrom(SendTypes).Draw(t, "type")
			b.ToAddress = Address().Draw(t, "to")
			b.Amount = Big(256).Draw(t, "amount")
			b.TokenId = TokenId().Draw(t, "token")
		} else {
			b.BlockType = rapid.SampledFrom(ReceiveTypes).Draw(t, "type")
			b.FromBlockHash = Hash().Draw(t, "from")
			if b.BlockType == ledger.BlockTypeGenesisReceive {
				b.Amount = Big(256).Draw(t, "amount")
				b.TokenId = TokenId().Draw(t, "token")
			}
		}
		b.Height = Uint64().Draw(t, "height")
		if b.Height == 0 {
			b.Height = 1
		}
		if b.Height > 1 {
			b.PrevHash = Hash().Draw(t, "prev")
		}
		b.AccountAddress = Address().Draw(t, "account")
		b.Fee = MaybeBig(256).Draw(t, "fee")
		b.Data = Bytes(100).Draw(t, "data")
		if rapid.Bool().Draw(t, "hasLog") {
			h := Hash().Draw(t, "log")
			b.LogHash = &h
		}
		if rapid.Bool().Draw(t, "hasPow") {
			b.Difficulty = Big(256).Draw(t, "difficulty")
			b.Nonce = Fixed(8).Draw(t, "nonce")
		}
		b.Quota = Uint64().Draw(t, "quota")
		b.QuotaUsed = Uint64().Draw(t, "quotaUsed")
		if rapid.Bool().Draw(t, "signed") {
			b.PublicKey = Fixed(32).Draw(t, "pk")
			b.Signature = Fixed(64).Draw(t, "sig")
		}
		if depth > 0 && !send {
			n := rapid.IntRange(0, 3).Draw(t, "nsend")
			for i := 0; i < n; i++ {
				b.SendBlockList = append(b.SendBlockList, AccountBlock(0).Draw(t, "sendblock"))
			}
		}
		b.Hash = b.ComputeHash()
		return b
	})
}

// SnapshotBlock draws a well-formed snapshot block.
func SnapshotBlock() *rapid.Generator[*ledger.SnapshotBlock] {
	return rapid.Custom(func(t *rapid.T) *ledger.SnapshotBlock {
		b := &ledger.SnapshotBlock{}
		b.PrevHash = Hash().Draw(t, "prev")
		b.Height = Uint64().Draw(t, "height")
		ts := time.Unix(rapid.Int64Range(0, 1<<33-1).Draw(t, "sec"), rapid.Int64Range(0, 999999999).Draw(t, "nsec"))
		b.Timestamp = &ts
		b.Seed = Uint64().Draw(t, "seed")
		if rapid.Bool().Draw(t, "hasSeedHash") {
			h := Hash().Draw(t, "seedHash")
			b.SeedHash = &h
		}
		n := rapid.IntRange(0, 6).Draw(t, "n")
		if n > 0 {
			b.SnapshotContent = ledger.SnapshotContent{}
			for i := 0; i < n; i++ {
				b.SnapshotContent[Address().Draw(t, "addr")] = &ledger.HashHeight{Hash: Hash().Draw(t, "h"), Height: Uint64().Draw(t, "hh")}
			}
		}
		b.Version = rapid.Uint32().Draw(t, "version")
		if rapid.Bool().Draw(t, "signed") {
			b.PublicKey = Fixed(32).Draw(t, "pk")
			b.Signature = Fixed(64).Draw(t, "sig")
		}
		return b
	})
}

// Mutate flips, inserts, deletes or truncates bytes of in.
func Mutate(t *rapid.T, in []byte) []byte {
	b := append([]byte(nil), in...)
	n := rapid.IntRange(1, 3).Draw(t, "nmut")
	for i := 0; i < n; i++ {
		if len(b) == 0 {
			return append(b, rapid.Byte().Draw(t, "only"))
		}
		p := rapid.IntRange(0, len(b)-1).Draw(t, "pos")
		switch rapid.IntRange(0, 4).Draw(t, "mut") {
		case 0:
			b[p] ^= byte(1) << uint(rapid.IntRange(0, 7).Draw(t, "bit"))
		case 1:
			b[p] = rapid.Byte().Draw(t, "val")
		case 2:
			b = b[:p]
		case 3:
			b = append(b[:p], b[p+1:]...)
		case 4:
			b = append(b[:p], append([]byte{rapid.Byte().Draw(t, "ins")}, b[p:]...)...)
		}
	}
	return b
}
