package memchain

import (
	"github.com/vitelabs/go-vite/v2/log15"
	"math/big"
	"sync"

	"github.com/vitelabs/go-vite/v2/common/config"
	"github.com/vitelabs/go-vite/v2/common/types"
	"github.com/vitelabs/go-vite/v2/common/upgrade"
	"github.com/vitelabs/go-vite/v2/interfaces/core"
	"github.com/vitelabs/go-vite/v2/vm"
)

// User is the i-th user address (its bytes are not derived from a key: the VM never looks at signatures).
func User(i int) types.Address {
	var a types.Address
	a[0] = 0x10
	a[1] = byte(i >> 8)
	a[2] = byte(i)
	a[19] = byte(i*37 + 11)
	return a
}

// Token is the i-th extra token of the genesis.
func Token(i int) types.TokenTypeId {
	var t types.TokenTypeId
	t[0] = 0x77
	t[9] = byte(i + 1)
	return t
}

// Attov is n VITE.
func Attov(n int64) *big.Int { return new(big.Int).Mul(big.NewInt(n), big.NewInt(1e18)) }

var once sync.Once

// Init prepares the VM's process-wide configuration (all upgrades active, test parameters).
func Init() {
	once.Do(func() {
		log15.Root().SetHandler(log15.DiscardHandler())
		upgrade.CleanupUpgradeBox()
		upgrade.InitUpgradeBox(upgrade.NewLatestUpgradeBox())
		vm.InitVMConfig(false, true, true, false, "")
	})
}

// GenesisOpt tells the size of the genesis ledger.
type GenesisOpt struct {
	Users   int
	Tokens  int
	Balance *big.Int                // VITE per user
	Stake   *big.Int                // genesis stake of each user for itself (nil: none)
	Sbps    int                     // registered producers in SNAPSHOT group
	User    func(int) types.Address // addresses of the users (nil: User)
}

// Genesis builds a configuration: users with VITE and extra tokens, the two built-in consensus groups.
func Genesis(o GenesisOpt) *config.Genesis {
	User := User
	if o.User != nil {
		User = o.User
	}
	owner := User(0)
	g := &config.Genesis{GenesisAccountAddress: &owner, UpgradeCfg: &config.Upgrade{Level: "latest"}}
	group := func(nodeCount, perCount int) *config.ConsensusGroupInfo {
		return &config.ConsensusGroupInfo{NodeCount: uint8(nodeCount), Interval: 1, PerCount: int64(perCount), RandCount: 2, RandRank: 100, Repeat: 1,
			CountingTokenId: Vite, RegisterConditionId: 1, RegisterConditionParam: config.RegisterConditionParam{
				StakeAmount: Attov(100000), StakeToken: Vite, StakeHeight: 1}, VoteConditionId: 1, Owner: owner, StakeAmount: big.NewInt(0), ExpirationHeight: 1}
	}
	regs := map[string]*config.RegistrationInfo{}
	held := new(big.Int)
	for i := 0; i < o.Sbps; i++ {
		p, s := User(500+i), User(i%max(o.Users, 1))
		amount := Attov(100000)
		regs["s"+string(rune('1'+i))] = &config.RegistrationInfo{BlockProducingAddress: &p, StakeAddress: &s, Amount: amount,
			ExpirationHeight: 1, RewardTime: 1, RevokeTime: 0, HistoryAddressList: []types.Address{p}}
		held.Add(held, amount)
	}
	g.GovernanceInfo = &config.GovernanceContractInfo{
		ConsensusGroupInfoMap: map[string]*config.ConsensusGroupInfo{types.SNAPSHOT_GID.String(): group(25, 3), types.DELEGATE_GID.String(): group(25, 3)},
		RegistrationInfoMap:   map[string]map[string]*config.RegistrationInfo{types.SNAPSHOT_GID.String(): regs},
	}
	total := new(big.Int)
	g.AccountBalanceMap = map[string]map[string]*big.Int{}
	put := func(a types.Address, t types.TokenTypeId, v *big.Int) {
		m := g.AccountBalanceMap[a.String()]
		if m == nil {
			m = map[string]*big.Int{}
			g.AccountBalanceMap[a.String()] = m
		}
		m[t.String()] = v
		if t == Vite {
			total.Add(total, v)
		}
	}
	bal := o.Balance
	if bal == nil {
		bal = Attov(10000000)
	}
	toks := new(big.Int).SetUint64(1e18)
	for i := 0; i < o.Users; i++ {
		put(User(i), Vite, new(big.Int).Set(bal))
		for k := 0; k < o.Tokens; k++ {
			put(User(i), Token(k), new(big.Int).Set(toks))
		}
	}
	if held.Sign() > 0 {
		put(types.AddressGovernance, Vite, held)
	}
	if o.Stake != nil {
		g.QuotaInfo = &config.QuotaContractInfo{StakeInfoMap: map[string][]*config.StakeInfo{}, StakeBeneficialMap: map[string]*big.Int{}}
		sum := new(big.Int)
		for i := 0; i < o.Users; i++ {
			u := User(i)
			g.QuotaInfo.StakeInfoMap[u.String()] = []*config.StakeInfo{{Amount: o.Stake, ExpirationHeight: 1, Beneficiary: &u}}
			g.QuotaInfo.StakeBeneficialMap[u.String()] = o.Stake
			sum.Add(sum, o.Stake)
		}
		put(types.AddressQuota, Vite, sum)
	}
	g.AssetInfo = &config.AssetContractInfo{TokenInfoMap: map[string]*config.TokenInfo{
		Vite.String(): {TokenName: "Vite Token", TokenSymbol: "VITE", TotalSupply: total, Decimals: 18, Owner: types.AddressGovernance,
			MaxSupply: new(big.Int).Set(core256()), IsReIssuable: true},
	}}
	for k := 0; k < o.Tokens; k++ {
		g.AssetInfo.TokenInfoMap[Token(k).String()] = &config.TokenInfo{TokenName: "Tok", TokenSymbol: "TOK" + string(rune('A'+k)),
			TotalSupply: new(big.Int).Mul(toks, big.NewInt(int64(o.Users))), Decimals: uint8(k * 4), Owner: User(0), MaxSupply: big.NewInt(0)}
	}
	return g
}

func core256() *big.Int { return new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), 256), big.NewInt(1)) }

var _ = core.ViteTokenId
