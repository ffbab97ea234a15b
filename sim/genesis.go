package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"cosmossdk.io/math"
	"github.com/KYVENetwork/chain/app"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
	abci "github.com/cometbft/cometbft/abci/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/ed25519"
	cryptotypes "github.com/cosmos/cosmos-sdk/crypto/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	minttypes "github.com/cosmos/cosmos-sdk/x/mint/types"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
)

// User indexes. Every user may send anything; the ranges only say what the
// workload mostly uses them for.
const (
	uGov        = 0
	uFoundation = 1
	uBCP        = 2
	uStaker     = 3  // .. 3+cfg.Stakers
	uDelegator  = 70 // .. 70+cfg.Delegators
	uFunder     = 80 // .. 80+cfg.Funders
	uVal        = 150
	uCount      = 150 + 70*3
)

// Cfg is the configuration of one run. Everything random in it is drawn from
// the run seed (swarm style: each run has its own sizes, parameters, enabled
// activities and fault kinds).
type Cfg struct {
	Seed    uint64
	Profile string // property the workload is biased towards
	T0      int64
	TGE     uint64

	Stakers, Delegators, Funders, Pools int
	Blocks                              int
	Scale                               uint64 // typical stake
	Denoms                              []string
	Bal                                 uint64
	Exp                                 int // base units of the additional coins are 10^Exp times smaller

	B bundlestypes.Params
	D delegationtypes.Params
	F funderstypes.Params
	G globaltypes.Params
	P pooltypes.Params
	S stakerstypes.Params

	PoolList []pooltypes.Pool

	Inflation  math.LegacyDec
	BlocksYear uint64
	VotingSecs int64

	// the consensus layer: two validators, operated by governance operator and
	// BCP, and a delegator of the first
	Cons, Cons2, ConsDel uint64
	Quorum               string
	Signed               bool // blocks carry the validators' signatures (fees reach them)
	ConsFault            int  // the second validator: 1 misses blocks, 2 signs two blocks (only with Signed)
	ConsSlash            math.LegacyDec

	Upgrade  bool   // the run crosses the software upgrade v1.5.0
	FirstGov uint64 // id of the first governance proposal

	Big int // crowded pools (slot displacement): 1 validators, 2 funders
}

func dec(s string) math.LegacyDec { return math.LegacyMustNewDecFromStr(s) }

func rdec(r *RNG, max float64) math.LegacyDec {
	switch r.Intn(6) {
	case 0:
		return math.LegacyZeroDec()
	case 1:
		return math.LegacyNewDecWithPrec(int64(r.F()*max*1e2), 2)
	case 2:
		return math.LegacyNewDecWithPrec(int64(r.F()*max*1e4), 4)
	}
	return math.LegacyNewDecWithPrec(int64(r.F()*max*1e18), 18)
}

var extraDenoms = []string{"acoin", "ibc/C0FFEE254729296A45A3885639AC7E10F9D54979", "zcoin"}

// versions is the version map of finalized bundles (no state change touches it).
func (c *Cfg) versions() (l []*bundlestypes.BundleVersionEntry) {
	r := NewRNG(c.Seed).Fork("versions")
	if r.P(0.5) {
		l = append(l, &bundlestypes.BundleVersionEntry{Height: uint64(r.Intn(4)), Version: 1})
	}
	if r.P(0.6) {
		l = append(l, &bundlestypes.BundleVersionEntry{Height: uint64(r.Intn(60)), Version: 2})
	}
	return
}

func setTeamVars(cfg *Cfg) {
	teamtypes.FOUNDATION_ADDRESS = account(uFoundation).Addr
	teamtypes.BCP_ADDRESS = account(uBCP).Addr
	teamtypes.TGE = cfg.TGE
}

// NewCfg draws a configuration.
func NewCfg(seed uint64, profile string) *Cfg {
	r := NewRNG(seed).Fork("cfg")
	c := &Cfg{Seed: seed, Profile: profile}
	c.T0 = 1_700_000_000 + int64(r.U64n(100_000_000))
	c.TGE = uint64(c.T0) - r.U64n(3*365*86400)
	if r.P(0.3) {
		c.TGE = uint64(c.T0) + r.U64n(365*86400)
	}
	c.Stakers = r.Range(2, 7)
	c.Delegators = r.Range(1, 6)
	c.Funders = r.Range(1, 5)
	c.Pools = r.Range(1, 3)
	c.Scale = pick(r, []uint64{10, 1000, 1_000_000, 100_000_000, 1_000_000_000_000})
	c.Blocks = r.Range(40, 110)
	c.Bal = 100_000_000_000_000
	c.Denoms = append([]string{denom}, extraDenoms[:r.Range(0, 3)]...)
	if x := NewRNG(seed).Fork("units"); x.P(0.45) {
		c.Exp = pick(x, []int{6, 12, 16, 18, 18})
	}
	c.FirstGov = 1
	if x := NewRNG(seed).Fork("upgrade"); profile == "X08" || (profile == "" || profile == "X01" || profile == "X02" || profile == "X04") && x.P(0.1) {
		c.Upgrade = true
		c.Denoms = []string{denom}
		if x.P(0.7) {
			c.FirstGov = 1000
		}
	}

	c.B = bundlestypes.Params{
		UploadTimeout: uint64(r.Range(5, 120)),
		NetworkFee:    rdec(r, 0.5),
		MaxPoints:     uint64(r.Range(1, 6)),
	}
	for i := 1; i <= 3; i++ {
		if r.P(0.8) {
			c.B.StorageCosts = append(c.B.StorageCosts, bundlestypes.StorageCost{StorageProviderId: uint32(i), Cost: rstorage(r)})
		}
	}
	c.D = delegationtypes.Params{
		UnbondingDelegationTime: uint64(r.Range(0, 300)),
		RedelegationCooldown:    uint64(r.Range(0, 300)),
		RedelegationMaxAmount:   uint64(r.Range(1, 4)),
		VoteSlash:               rslash(r), UploadSlash: rslash(r), TimeoutSlash: rslash(r),
	}
	c.F = funderstypes.Params{MinFundingMultiple: uint64(r.Range(0, 5))}
	for i, d := range c.Denoms {
		if i > 0 && r.P(0.15) {
			continue
		}
		c.F.CoinWhitelist = append(c.F.CoinWhitelist, c.rwhitelist(r, d))
	}
	c.G = rglobal(r)
	c.P = pooltypes.Params{
		ProtocolInflationShare:  rdec(r, 1),
		PoolInflationPayoutRate: rdec(r, 1),
		MaxVotingPowerPerPool:   pick(r, []math.LegacyDec{dec("1"), dec("1"), dec("1"), dec("0.5"), dec("0.6"), dec("0.8"), dec("0.34")}),
	}
	c.S = stakerstypes.Params{CommissionChangeTime: uint64(r.Range(0, 200)), LeavePoolTime: uint64(r.Range(0, 200))}
	plans, planned := NewRNG(seed).Fork("plans"), 0.1
	if profile == "P01" {
		planned = 0.4
	}
	for i := 0; i < c.Pools; i++ {
		p := rpool(r, c, uint64(i))
		if plans.P(planned) && p.UpgradePlan.ScheduledAt == 0 {
			p.UpgradePlan = &pooltypes.UpgradePlan{Version: "1.1.0", Binaries: `{"planned":"x"}`, ScheduledAt: uint64(c.T0) + 60 + plans.Log(10_000_000), Duration: plans.Log(10_000)}
		}
		c.PoolList = append(c.PoolList, p)
	}
	c.Inflation = pick(r, []math.LegacyDec{dec("0.1"), dec("0.1"), dec("0.5"), dec("0.01"), dec("0")})
	c.BlocksYear = pick(r, []uint64{6_000_000, 100_000_000, 6_000_000_000_000, 100_000, 7_777_777_777})
	c.VotingSecs = int64(r.Range(2, 30))
	if x := NewRNG(seed).Fork("big"); x.P(bigShare(profile)) {
		c.Big = 1 + x.Intn(2)
		switch profile {
		case "S01", "S02", "B04":
			c.Big = 1
		case "F01", "F02":
			c.Big = 2
		}
		if c.Big == 1 {
			c.Stakers = x.Range(51, 60)
		} else {
			c.Funders = x.Range(51, 60)
		}
		c.Blocks = x.Range(25, 45)
	}
	c.consensus()
	return c
}

func bigShare(profile string) float64 {
	switch profile {
	case "S01", "F01":
		return 0.25
	case "S02", "F02", "X06":
		return 0.1
	}
	return 0.03
}

func rstorage(r *RNG) math.LegacyDec {
	switch r.Intn(4) {
	case 0:
		return math.LegacyZeroDec()
	case 1:
		return math.LegacyNewDecWithPrec(int64(r.U64n(1_000_000)), 6)
	case 2:
		return math.LegacyNewDecWithPrec(int64(r.U64n(1_000_000)), 12)
	}
	return math.LegacyNewDecWithPrec(int64(r.U64n(1000)), 2)
}

func rslash(r *RNG) math.LegacyDec {
	switch r.Intn(12) {
	case 0:
		return math.LegacyZeroDec()
	case 1:
		return math.LegacyNewDecWithPrec(int64(r.U64n(100)), 2)
	case 2:
		return pick(r, []math.LegacyDec{dec("0.5"), dec("0.9"), dec("0.333333333333333333"), dec("0.999999999999999999")})
	}
	return rdec(r, 0.3)
}

// unit is one of the simulator's units of a coin in base units: amounts of
// additional coins may exceed 64 bits.
func (c *Cfg) unit(d string) math.Int {
	if d == denom || c.Exp == 0 {
		return math.OneInt()
	}
	return math.NewIntWithDecimal(1, c.Exp)
}

// units is an amount in whole units, rounded down and at most 2^63-1.
func (c *Cfg) units(d string, a math.Int) uint64 {
	if a = a.Quo(c.unit(d)); a.IsInt64() {
		return a.Uint64()
	}
	return 1<<63 - 1
}

func (c *Cfg) rwhitelist(r *RNG, d string) *funderstypes.WhitelistCoinEntry {
	e := &funderstypes.WhitelistCoinEntry{
		CoinDenom:                 d,
		CoinDecimals:              pick(r, []uint32{6, 6, 6, 0, 8, 12, 18}),
		MinFundingAmount:          math.NewIntFromUint64(r.Log(100_000)),
		MinFundingAmountPerBundle: math.NewIntFromUint64(r.Log(5_000)),
		CoinWeight:                pick(r, []math.LegacyDec{dec("1"), dec("0.06"), dec("2.5"), dec("0"), dec("0.333333333333333333"), dec("1000")}),
	}
	if d == denom {
		e.CoinDecimals = 6
	}
	if d != denom && c.Exp > 0 {
		e.CoinDecimals = uint32(6 + c.Exp)
		e.MinFundingAmount = e.MinFundingAmount.Mul(c.unit(d))
		e.MinFundingAmountPerBundle = e.MinFundingAmountPerBundle.Mul(c.unit(d))
	}
	// a coin without minimums
	switch r.Intn(12) {
	case 0:
		e.MinFundingAmount = math.ZeroInt()
	case 1:
		e.MinFundingAmountPerBundle = math.ZeroInt()
	case 2:
		e.MinFundingAmount, e.MinFundingAmountPerBundle = math.ZeroInt(), math.ZeroInt()
	}
	return e
}

var refundMsgs = []string{
	"/kyve.bundles.v1beta1.MsgSubmitBundleProposal", "/kyve.bundles.v1beta1.MsgVoteBundleProposal",
	"/kyve.bundles.v1beta1.MsgSkipUploaderRole", "/kyve.bundles.v1beta1.MsgClaimUploaderRole",
	"/kyve.delegation.v1beta1.MsgDelegate", "/kyve.delegation.v1beta1.MsgUndelegate", "/kyve.delegation.v1beta1.MsgWithdrawRewards",
	"/kyve.stakers.v1beta1.MsgCreateStaker", "/kyve.funders.v1beta1.MsgFundPool", "/kyve.funders.v1beta1.MsgCreateFunder",
	"/cosmos.bank.v1beta1.MsgSend",
}

func rglobal(r *RNG) globaltypes.Params {
	g := globaltypes.Params{
		MinGasPrice: pick(r, []math.LegacyDec{dec("0"), dec("0.02"), dec("0.001"), dec("1.5")}),
		BurnRatio:   pick(r, []math.LegacyDec{dec("0"), dec("1"), rdec(r, 1), rdec(r, 1)}),
	}
	for _, m := range refundMsgs {
		if r.P(0.35) {
			g.GasRefunds = append(g.GasRefunds, globaltypes.GasRefund{Type: m, Fraction: pick(r, []math.LegacyDec{dec("1"), dec("0.5"), rdec(r, 1)})})
		}
		if r.P(0.25) {
			// above what a transaction uses by itself, so that its absence shows
			n := pick(r, []uint64{r.Log(500_000), 1_000_000 + r.U64n(1_500_000)})
			g.GasAdjustments = append(g.GasAdjustments, globaltypes.GasAdjustment{Type: m, Amount: n})
			if r.P(0.1) {
				g.GasAdjustments = append(g.GasAdjustments, globaltypes.GasAdjustment{Type: m, Amount: r.Log(3_000_000)})
			}
		}
	}
	return g
}

// runtimes are the data sources pools validate.
func (c *Cfg) runtimes() []string {
	if c.Upgrade {
		return []string{"@kyve/evm", "@kyvejs/tendermint", "@kyvejs/tendermint-bsync", "@kyvejs/tendermint-ssync"}
	}
	return []string{"@kyve/evm", "@kyve/bitcoin"}
}

func rpool(r *RNG, c *Cfg, id uint64) pooltypes.Pool {
	p := pooltypes.Pool{
		Id: id, Name: fmt.Sprintf("Pool %d", id), Runtime: pick(r, c.runtimes()), Logo: "ar://x", Config: "ar://c",
		StartKey: "0", UploadInterval: uint64(r.Range(1, 60)),
		InflationShareWeight:     pick(r, []math.LegacyDec{dec("1"), dec("3"), dec("0"), dec("0.7"), math.LegacyNewDec(int64(r.Log(10_000_000)))}),
		MinDelegation:            r.U64n(c.Scale + 1),
		MaxBundleSize:            uint64(r.Range(1, 100)),
		Protocol:                 &pooltypes.Protocol{Version: "1.0.0", Binaries: "{}", LastUpgrade: uint64(c.T0)},
		UpgradePlan:              &pooltypes.UpgradePlan{},
		CurrentStorageProviderId: uint32(r.Range(0, 3)), CurrentCompressionId: uint32(r.Range(0, 2)),
	}
	if r.P(0.3) {
		p.MinDelegation = 0
	}
	if c.Upgrade {
		p.InflationShareWeight = p.InflationShareWeight.Ceil() // version 1.4 knows no fractions
	}
	if r.P(0.15) {
		p.EndKey = fmt.Sprintf("%d", r.Range(20, 400))
	}
	if c.Upgrade && r.P(0.2) {
		p.UpgradePlan = &pooltypes.UpgradePlan{Version: "1.1.0", Binaries: "{}", ScheduledAt: uint64(c.T0) + r.U64n(600), Duration: r.U64n(2000)}
	}
	return p
}

func (c *Cfg) consensus() {
	r := NewRNG(c.Seed).Fork("consensus")
	c.Cons = 1_000_000_000_000
	c.Quorum = "0.000000000000000001"
	p := 0.25
	if c.Profile == "G02" || c.Profile == "X05" {
		p = 0.7
	}
	if !r.P(p) {
		return
	}
	c.Cons = pick(r, []uint64{1_000_000, 10_000_000, 1_000_000_000, 1_000_000_000_000, 1_000_000 + r.U64n(c.Scale*10)})
	c.Quorum = pick(r, []string{"0.000000000000000001", "0.2", "0.334", "0.5", "0.9"})
	if r.P(0.7) {
		c.Cons2 = 1_000_000 + r.U64n(c.Cons)
	}
	if r.P(0.7) {
		c.ConsDel = 1 + r.U64n(c.Cons)
	}
	c.Signed = r.P(0.5)
	c.ConsSlash = math.LegacyZeroDec()
	if q := r.F(); c.Signed && c.Cons2 > 0 && q < 0.8 {
		c.ConsFault = 1 + r.Intn(2)
		c.ConsSlash = rdec(r, 1)
	}
}

// consDelegator holds ConsDel of the first consensus validator.
const consDelegator = uDelegator

var (
	valPriv  = ed25519.GenPrivKeyFromSecret([]byte("kyve-sim-consensus-validator"))
	valPriv2 = ed25519.GenPrivKeyFromSecret([]byte("kyve-sim-consensus-validator-2"))
)

// commit is what CometBFT reports about the signatures under the last block
// and about misbehaviour of the validators.
func (w *World) commit(h int64, b *BlockStep) (ci abci.CommitInfo, mis []abci.Misbehavior) {
	c := w.cfg
	if !c.Signed || h < 3 {
		return
	}
	power := w.power2.at(h - 1)
	add := func(k cryptotypes.PrivKey, power int64, absent bool) abci.Validator {
		v := abci.Validator{Address: k.PubKey().Address(), Power: power}
		flag := cmtproto.BlockIDFlagCommit
		if absent {
			flag = cmtproto.BlockIDFlagAbsent
		}
		ci.Votes = append(ci.Votes, abci.VoteInfo{Validator: v, BlockIdFlag: flag})
		return v
	}
	add(valPriv, int64((c.Cons+c.ConsDel)/1_000_000), false)
	if power > 0 {
		v := add(valPriv2, power, b.Absent)
		if b.Absent {
			w.stats.fault("consensus validator misses a block")
		}
		if b.Double {
			w.stats.fault("consensus validator signs two blocks")
			mis = []abci.Misbehavior{{Type: abci.MisbehaviorType_DUPLICATE_VOTE, Validator: v, Height: h - 1, Time: w.blocks[len(w.blocks)-1].req.Time, TotalVotingPower: v.Power + ci.Votes[0].Validator.Power}}
		}
	}
	return
}

// powers follows the voting power of a validator: what a block decides applies
// two blocks later.
type powers []struct{ from, power int64 }

func (p powers) at(h int64) (r int64) {
	for _, x := range p {
		if x.from <= h {
			r = x.power
		}
	}
	return
}

func (w *World) valUpdates(h int64, us []abci.ValidatorUpdate) {
	for _, u := range us {
		if bytes.Equal(u.PubKey.GetEd25519(), valPriv2.PubKey().Bytes()) {
			w.power2 = append(w.power2, struct{ from, power int64 }{h + 2, u.Power})
		}
	}
}

func buildGenesis(a *app.App, c *Cfg) *abci.RequestInitChain {
	cdc := a.AppCodec()
	gs := a.DefaultGenesis()

	// auth + bank
	var accs []authtypes.GenesisAccount
	var bals []banktypes.Balance
	coins := sdk.NewCoins()
	for _, d := range append([]string{denom}, extraDenoms...) {
		coins = coins.Add(sdk.NewCoin(d, math.NewIntFromUint64(c.Bal).Mul(c.unit(d))))
	}
	for i := 0; i < uCount; i++ {
		if !userExists(c, i) {
			continue
		}
		u := account(i)
		accs = append(accs, authtypes.NewBaseAccount(u.Acc, nil, uint64(i), 0))
		cs := coins
		if i >= uVal {
			cs = sdk.NewCoins(sdk.NewCoin(denom, math.NewInt(1_000_000_000_000)))
		}
		bals = append(bals, banktypes.Balance{Address: u.Addr, Coins: cs})
	}
	if c.ConsDel > 0 {
		// something is being unbonded until after the end of all runs
		bals = append(bals, banktypes.Balance{Address: moduleAddr(stakingtypes.NotBondedPoolName), Coins: sdk.NewCoins(sdk.NewInt64Coin(denom, 1000))})
	}
	bals = append(bals,
		banktypes.Balance{Address: moduleAddr(stakingtypes.BondedPoolName), Coins: sdk.NewCoins(sdk.NewCoin(denom, math.NewIntFromUint64(c.Cons+c.ConsDel+c.Cons2)))},
		banktypes.Balance{Address: moduleAddr(teamtypes.ModuleName), Coins: sdk.NewCoins(sdk.NewCoin(denom, math.NewIntFromUint64(teamtypes.TEAM_ALLOCATION)))},
	)
	sort.Slice(bals, func(i, j int) bool { return bals[i].Address < bals[j].Address })
	gs[authtypes.ModuleName] = cdc.MustMarshalJSON(authtypes.NewGenesisState(authtypes.DefaultParams(), accs))
	gs[banktypes.ModuleName] = cdc.MustMarshalJSON(banktypes.NewGenesisState(banktypes.DefaultParams(), bals, nil, nil, nil))

	// staking
	sp := stakingtypes.DefaultParams()
	sp.BondDenom = denom
	sgen := stakingtypes.NewGenesisState(sp, nil, nil)
	slg := slashingtypes.DefaultGenesisState()
	validator := func(operator int, key cryptotypes.PrivKey, self, others uint64, commission string) string {
		tokens := math.NewIntFromUint64(self + others)
		pkAny, _ := codectypes.NewAnyWithValue(key.PubKey())
		a := sdk.ValAddress(account(operator).Acc).String()
		sgen.Validators = append(sgen.Validators, stakingtypes.Validator{
			OperatorAddress: a, ConsensusPubkey: pkAny, Status: stakingtypes.Bonded, Tokens: tokens,
			DelegatorShares: math.LegacyNewDecFromInt(tokens), UnbondingTime: time.Unix(0, 0).UTC(),
			Commission: stakingtypes.NewCommission(dec(commission), math.LegacyOneDec(), math.LegacyOneDec()), MinSelfDelegation: math.OneInt(),
		})
		sgen.Delegations = append(sgen.Delegations, stakingtypes.NewDelegation(account(operator).Addr, a, math.LegacyNewDecFromInt(math.NewIntFromUint64(self))))
		if c.Signed {
			cons := sdk.ConsAddress(key.PubKey().Address())
			slg.SigningInfos = append(slg.SigningInfos, slashingtypes.SigningInfo{Address: cons.String(), ValidatorSigningInfo: slashingtypes.NewValidatorSigningInfo(cons, 1, 0, time.Unix(0, 0).UTC(), false, 0)})
		}
		return a
	}
	v1 := validator(uGov, valPriv, c.Cons, c.ConsDel, "0")
	if c.ConsDel > 0 {
		d := account(consDelegator).Addr
		sgen.Delegations = append(sgen.Delegations, stakingtypes.NewDelegation(d, v1, math.LegacyNewDecFromInt(math.NewIntFromUint64(c.ConsDel))))
		never := time.Unix(c.T0+int64(200*year), 0).UTC()
		sgen.UnbondingDelegations = append(sgen.UnbondingDelegations, stakingtypes.UnbondingDelegation{DelegatorAddress: d, ValidatorAddress: v1, Entries: []stakingtypes.UnbondingDelegationEntry{
			{CreationHeight: 1, CompletionTime: never, InitialBalance: math.NewInt(1000), Balance: math.NewInt(1000), UnbondingId: 1}}})
	}
	if c.Cons2 > 0 {
		v2 := validator(uBCP, valPriv2, c.Cons2, 0, "0.1")
		if c.ConsDel > 0 {
			sgen.Redelegations = append(sgen.Redelegations, stakingtypes.Redelegation{DelegatorAddress: account(consDelegator).Addr, ValidatorSrcAddress: v2, ValidatorDstAddress: v1,
				Entries: []stakingtypes.RedelegationEntry{{CreationHeight: 1, CompletionTime: time.Unix(c.T0+int64(200*year), 0).UTC(), InitialBalance: math.NewInt(1), SharesDst: math.LegacyOneDec(), UnbondingId: 2}}})
		}
	}
	gs[stakingtypes.ModuleName] = cdc.MustMarshalJSON(sgen)
	if c.ConsFault > 0 {
		slg.Params = slashingtypes.NewParams(6, dec("0.5"), 10*time.Minute, c.ConsSlash, c.ConsSlash)
	}
	gs[slashingtypes.ModuleName] = cdc.MustMarshalJSON(slg)

	mg := minttypes.DefaultGenesisState()
	mg.Params = minttypes.NewParams(denom, math.LegacyZeroDec(), c.Inflation, c.Inflation, dec("0.67"), c.BlocksYear)
	mg.Minter = minttypes.InitialMinter(c.Inflation)
	gs[minttypes.ModuleName] = cdc.MustMarshalJSON(mg)

	dg := distrtypes.DefaultGenesisState()
	dg.Params.CommunityTax = math.LegacyZeroDec()
	gs[distrtypes.ModuleName] = cdc.MustMarshalJSON(dg)

	vp, ep := time.Duration(c.VotingSecs)*time.Second, time.Second
	gp := govv1.DefaultParams()
	gp.VotingPeriod, gp.ExpeditedVotingPeriod = &vp, &ep
	gp.MinDeposit = sdk.NewCoins(sdk.NewInt64Coin(denom, 10))
	gp.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin(denom, 20))
	gp.Quorum = c.Quorum
	gp.BurnVoteQuorum, gp.BurnVoteVeto, gp.BurnProposalDepositPrevote = false, false, false
	gs["gov"] = cdc.MustMarshalJSON(govv1.NewGenesisState(c.FirstGov, gp))

	// protocol modules
	bg := bundlestypes.DefaultGenesis()
	bg.BundleVersionMap.Versions = c.versions()
	bg.Params = c.B
	gs[bundlestypes.ModuleName] = cdc.MustMarshalJSON(bg)
	dlg := delegationtypes.DefaultGenesis()
	dlg.Params = c.D
	gs[delegationtypes.ModuleName] = cdc.MustMarshalJSON(dlg)
	fg := funderstypes.DefaultGenesis()
	fg.Params = c.F
	for _, p := range c.PoolList {
		fg.FundingStateList = append(fg.FundingStateList, funderstypes.FundingState{PoolId: p.Id})
	}
	gs[funderstypes.ModuleName] = cdc.MustMarshalJSON(fg)
	gg := globaltypes.DefaultGenesisState()
	gg.Params = c.G
	gs[globaltypes.ModuleName] = cdc.MustMarshalJSON(gg)
	pg := pooltypes.DefaultGenesis()
	pg.Params, pg.PoolList, pg.PoolCount = c.P, c.PoolList, uint64(len(c.PoolList))
	gs[pooltypes.ModuleName] = cdc.MustMarshalJSON(pg)
	sg := stakerstypes.DefaultGenesis()
	sg.Params = c.S
	gs[stakerstypes.ModuleName] = cdc.MustMarshalJSON(sg)
	gs[teamtypes.ModuleName] = cdc.MustMarshalJSON(teamtypes.DefaultGenesis())

	b, err := json.Marshal(gs)
	if err != nil {
		panic(err)
	}
	return &abci.RequestInitChain{
		ChainId: chainID, Time: time.Unix(c.T0, 0).UTC(), InitialHeight: 1,
		ConsensusParams: app.DefaultConsensusParams, AppStateBytes: b,
	}
}

// userExists says whether user i has a genesis account.
func userExists(c *Cfg, i int) bool {
	switch {
	case i < uStaker:
		return true
	case i < uDelegator:
		return i < uStaker+c.Stakers+2
	case i < uFunder:
		return i < uDelegator+c.Delegators+1
	case i < uVal:
		return i < uFunder+c.Funders+1
	}
	s := (i - uVal) / 3
	return s < c.Stakers+2
}

func valUser(staker, pool int) int { return uVal + (staker-uStaker)*3 + pool%3 }
