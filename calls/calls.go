// Package calls generates calls of the built-in contracts: any method, with
// arguments drawn by ABI type and parameter name so that many of them mean something.
package calls

import (
	"math/big"
	"sort"
	"time"

	"pgregory.net/rapid"

	"github.com/vitelabs/go-vite/v2/common/types"
	ccore "github.com/vitelabs/go-vite/v2/ledger/consensus/core"
	"github.com/vitelabs/go-vite/v2/vm/abi"
	cabi "github.com/vitelabs/go-vite/v2/vm/contracts/abi"
	"github.com/vitelabs/go-vite/v2/vm/util"
	"verif/memchain"
)

// World is what argument generators draw from.
type World struct {
	Chain  *memchain.Chain
	Users  []types.Address
	Tokens []types.TokenTypeId
	Hashes []types.Hash // block hashes and ids seen
	Names  []string
	Blobs  [][]byte // order ids and other byte strings
}

// Contract is one of the built-in contracts.
type Contract struct {
	Addr types.Address
	Abi  abi.ABIContract
}

var (
	Simple = []Contract{{types.AddressQuota, cabi.ABIQuota}, {types.AddressGovernance, cabi.ABIGovernance}, {types.AddressAsset, cabi.ABIAsset}}
	Dex    = []Contract{{types.AddressDexFund, cabi.ABIDexFund}, {types.AddressDexTrade, cabi.ABIDexTrade}}
	All    = append(append([]Contract{}, Simple...), Dex...)
)

// Amount draws an amount that contracts react to.
func (w *World) Amount(t *rapid.T, bal *big.Int) *big.Int {
	switch rapid.IntRange(0, 9).Draw(t, "amt") {
	case 0:
		return big.NewInt(0)
	case 1:
		return big.NewInt(int64(rapid.IntRange(1, 1000).Draw(t, "small")))
	case 2:
		return memchain.Attov(int64(rapid.SampledFrom([]int{1, 10, 100, 134, 1000, 10000, 1000000}).Draw(t, "vite")))
	case 3: // around the balance
		x := new(big.Int).Add(bal, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(t, "d"))))
		if x.Sign() < 0 {
			x.SetInt64(0)
		}
		return x
	case 4:
		return new(big.Int).Div(bal, big.NewInt(int64(rapid.IntRange(1, 10).Draw(t, "q"))))
	case 5:
		return new(big.Int).Lsh(big.NewInt(1), uint(rapid.SampledFrom([]int{63, 64, 127, 255}).Draw(t, "sh")))
	}
	return new(big.Int).Div(new(big.Int).Mul(bal, big.NewInt(int64(rapid.IntRange(0, 1000).Draw(t, "permille")))), big.NewInt(20000))
}

func (w *World) arg(t *rapid.T, name, typ string) interface{} {
	u64 := func(max uint64) uint64 {
		if rapid.IntRange(0, 3).Draw(t, "k"+name) > 0 {
			return rapid.Uint64Range(0, 8).Draw(t, name)
		}
		return rapid.Uint64Range(0, max).Draw(t, name)
	}
	if rapid.IntRange(0, 7).Draw(t, "hint") > 0 {
		switch name {
		case "tokenName":
			return rapid.SampledFrom([]string{"Tok", "My Token", "a", "A.b_c"}).Draw(t, name)
		case "tokenSymbol":
			return rapid.SampledFrom([]string{"AAA", "TOKA", "X9", "VITE"}).Draw(t, name)
		case "decimals":
			if typ == "uint8" {
				return uint8(rapid.SampledFrom([]int{0, 1, 8, 18}).Draw(t, name))
			}
		case "totalSupply":
			return big.NewInt(int64(rapid.IntRange(1, 100000).Draw(t, name)))
		case "maxSupply":
			return big.NewInt(int64(rapid.SampledFrom([]int{0, 100000, 1000000}).Draw(t, name)))
		case "sbpName":
			return rapid.SampledFrom(w.Names).Draw(t, name)
		case "actionType":
			if typ == "uint8" {
				return uint8(rapid.IntRange(1, 2).Draw(t, name))
			}
		}
	}
	switch typ {
	case "tokenId":
		return rapid.SampledFrom(w.Tokens).Draw(t, name)
	case "tokenId[]":
		return rapid.SliceOfN(rapid.SampledFrom(w.Tokens), 0, 3).Draw(t, name)
	case "address":
		return rapid.SampledFrom(append(append([]types.Address{}, w.Users...), types.AddressAsset, types.AddressDexFund, types.ZERO_ADDRESS)).Draw(t, name)
	case "gid":
		return rapid.SampledFrom([]types.Gid{types.SNAPSHOT_GID, types.SNAPSHOT_GID, types.DELEGATE_GID, {}}).Draw(t, name)
	case "bool":
		return rapid.Bool().Draw(t, name)
	case "uint8":
		return uint8(u64(255))
	case "uint16":
		return uint16(u64(1<<16 - 1))
	case "uint32":
		return uint32(u64(1<<32 - 1))
	case "uint64":
		return u64(1<<64 - 1)
	case "int32":
		return int32(u64(100000))
	case "int64":
		if name == "timestamp" {
			return w.Chain.Latest().Timestamp.Unix() + int64(rapid.IntRange(-10, 1000000).Draw(t, name))
		}
		return int64(u64(1<<63 - 1))
	case "uint256":
		return w.Amount(t, memchain.Attov(10000))
	case "bytes32":
		if len(w.Hashes) > 0 && rapid.IntRange(0, 9).Draw(t, "known") > 0 {
			return rapid.SampledFrom(w.Hashes).Draw(t, name)
		}
		return types.DataHash([]byte{byte(rapid.IntRange(0, 9).Draw(t, name))})
	case "string":
		if name == "price" {
			return rapid.SampledFrom([]string{"1", "0.5", "2", "10", "0.000000000001", "999999999999", "1.5", "100.25", "0", "x"}).Draw(t, name)
		}
		return rapid.SampledFrom(w.Names).Draw(t, name)
	case "bytes":
		if len(w.Blobs) > 0 && rapid.IntRange(0, 9).Draw(t, "known") > 0 {
			return rapid.SampledFrom(w.Blobs).Draw(t, name)
		}
		return rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(t, name)
	}
	panic("argument type " + typ)
}

// Data draws call data for any method of c.
func (w *World) Data(t *rapid.T, c Contract) (method string, data []byte) {
	var names []string
	for n := range c.Abi.Methods {
		names = append(names, n)
	}
	sort.Strings(names)
	method = rapid.SampledFrom(names).Draw(t, "method")
	return method, w.DataOf(t, c, method)
}

// DataOf draws call data for the method.
func (w *World) DataOf(t *rapid.T, c Contract, method string) []byte {
	m := c.Abi.Methods[method]
	var args []interface{}
	for _, in := range m.Inputs {
		args = append(args, w.arg(t, in.Name, in.Type.String()))
	}
	d, err := c.Abi.PackMethod(method, args...)
	if err != nil {
		panic(method + ": " + err.Error())
	}
	return d
}

type stats struct{}

func (stats) DayStats(a, b uint64) (l []*ccore.DayStats, err error) {
	for d := a; d <= b; d++ {
		r := &ccore.DayStats{Index: d, Stats: map[string]*ccore.SbpStats{}, VoteSum: &ccore.BigInt{Int: new(big.Int)}}
		for i, n := range []string{"s1", "s2", "alpha"} {
			v := memchain.Attov(int64(1000 * (i + 1)))
			r.Stats[n] = &ccore.SbpStats{Index: d, BlockNum: 900 + uint64(i), ExceptedBlockNum: 1000, VoteCnt: &ccore.BigInt{Int: v}, Name: n}
			r.VoteSum.Add(r.VoteSum.Int, v)
			r.BlockTotal += 900 + uint64(i)
		}
		l = append(l, r)
	}
	return
}
func (stats) GetDayTimeIndex() ccore.TimeIndex {
	return ccore.NewTimeIndex(time.Unix(memchain.GenesisTime, 0), 24*time.Hour)
}

// Reader is a fixed consensus statistics source.
func Reader() util.ConsensusReader { return util.NewVMConsensusReader(stats{}) }
