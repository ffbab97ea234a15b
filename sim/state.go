package main

import (
	"sort"
	"time"

	"cosmossdk.io/collections"
	"cosmossdk.io/math"
	feegrant "cosmossdk.io/x/feegrant"
	"github.com/KYVENetwork/chain/app"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
	cmtproto "github.com/cometbft/cometbft/proto/tendermint/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
)

type bk struct{ A, D string } // address, denom
type sd struct{ S, D string } // staker, delegator
type vk struct {              // pool, staker
	P uint64
	S string
}
type fk struct { // pool, funder
	P uint64
	F string
}

// PoolS is a pool with its nested messages held by value.
type PoolS struct {
	pooltypes.Pool
	Proto pooltypes.Protocol
	Plan  pooltypes.UpgradePlan
}

type Unb struct {
	Staker, Delegator string
	Amount, Created   uint64
}
type CommE struct {
	Staker     string
	Commission math.LegacyDec
	Created    int64
}
type LeaveE struct {
	Staker  string
	Pool    uint64
	Created int64
}

// State is the complete observable protocol state. Values in the maps are
// never mutated in place, so Clone is shallow.
type State struct {
	H int64
	T int64

	B bundlestypes.Params
	D delegationtypes.Params
	F funderstypes.Params
	G globaltypes.Params
	P pooltypes.Params
	S stakerstypes.Params

	Cons2   math.Int // stake of the second consensus validator, if it is active
	Bal     map[bk]math.Int
	Supply  map[string]math.Int
	ComPool map[string]math.Int

	Pools     map[uint64]*PoolS
	PoolCount uint64
	Props     map[uint64]*bundlestypes.BundleProposal
	Fin       map[uint64][]bundlestypes.FinalizedBundle
	RR        map[uint64][]rrEntry

	Stakers map[string]*stakerstypes.Staker
	Vals    map[vk]*stakerstypes.Valaccount
	CommQ   []CommE
	LeaveQ  []LeaveE

	Del      map[sd]uint64
	Rew      map[sd]sdk.Coins
	DelTotal map[string]uint64
	DelCount map[string]uint64
	UnbQ     []Unb
	Cool     map[string][]uint64

	Funders  map[string]*funderstypes.Funder
	Fundings map[fk]*funderstypes.Funding
	FState   map[uint64][]string

	Auth  teamtypes.Authority
	Team  []teamtypes.TeamVestingAccount
	TeamN uint64

	Gov map[uint64]*GovP // proposals in their voting period

	Seq    map[string]uint64 // account sequences (simulated users)
	Num    map[string]uint64 // account numbers
	Auths  map[authKey]int64 // who may send which messages for whom; until when in nanoseconds, 0 is for ever
	Grants map[sd]*sdk.Coins // basic fee allowances granter,grantee (nil limit = unlimited)
}

type rrEntry struct {
	A string
	P int64
}

func cmap[K comparable, V any](m map[K]V) map[K]V {
	c := make(map[K]V, len(m)+4)
	for k, v := range m {
		c[k] = v
	}
	return c
}

func full[T any](s []T) []T { return s[:len(s):len(s)] }

// Clone returns an independent copy.
func (s *State) Clone() *State {
	c := *s
	c.Bal, c.Supply, c.ComPool = cmap(s.Bal), cmap(s.Supply), cmap(s.ComPool)
	c.Pools, c.Props, c.Fin, c.RR = cmap(s.Pools), cmap(s.Props), cmap(s.Fin), cmap(s.RR)
	for k, v := range c.Fin {
		c.Fin[k] = full(v)
	}
	c.Stakers, c.Vals = cmap(s.Stakers), cmap(s.Vals)
	c.CommQ, c.LeaveQ, c.UnbQ = full(s.CommQ), full(s.LeaveQ), full(s.UnbQ)
	c.Del, c.Rew, c.DelTotal, c.DelCount, c.Cool = cmap(s.Del), cmap(s.Rew), cmap(s.DelTotal), cmap(s.DelCount), cmap(s.Cool)
	c.Funders, c.Fundings, c.FState = cmap(s.Funders), cmap(s.Fundings), cmap(s.FState)
	c.Team = append([]teamtypes.TeamVestingAccount(nil), s.Team...)
	c.Seq, c.Grants, c.Gov, c.Auths = cmap(s.Seq), cmap(s.Grants), cmap(s.Gov), cmap(s.Auths)
	return &c
}

// queryCtx is a read context on the committed state of the last block.
func queryCtx(a *app.App, h, t int64) sdk.Context {
	return a.BaseApp.NewUncachedContext(false, cmtproto.Header{ChainID: chainID, Height: h, Time: time.Unix(t, 0).UTC()})
}

func coinsMap(cs sdk.Coins) map[string]math.Int {
	m := map[string]math.Int{}
	for _, c := range cs {
		m[c.Denom] = c.Amount
	}
	return m
}

// Snapshot reads the complete state through the exported getters.
func Snapshot(a *app.App, h, t int64) *State {
	ctx := queryCtx(a, h, t)
	s := &State{H: h, T: t}
	s.B, s.D, s.F = a.BundlesKeeper.GetParams(ctx), a.DelegationKeeper.GetParams(ctx), a.FundersKeeper.GetParams(ctx)
	s.G, s.P, s.S = a.GlobalKeeper.GetParams(ctx), a.PoolKeeper.GetParams(ctx), a.StakersKeeper.GetParams(ctx)

	s.Cons2 = math.ZeroInt()
	if v, err := a.StakingKeeper.GetValidator(ctx, sdk.ValAddress(account(uBCP).Acc)); err == nil && v.IsBonded() && !v.Jailed {
		s.Cons2 = v.Tokens
	}
	s.Bal, s.Supply, s.ComPool = map[bk]math.Int{}, map[string]math.Int{}, map[string]math.Int{}
	a.BankKeeper.IterateAllBalances(ctx, func(ad sdk.AccAddress, c sdk.Coin) bool {
		if !c.Amount.IsZero() {
			s.Bal[bk{addrStr(ad), c.Denom}] = c.Amount
		}
		return false
	})
	a.BankKeeper.IterateTotalSupply(ctx, func(c sdk.Coin) bool { s.Supply[c.Denom] = c.Amount; return false })
	fp, err := a.DistributionKeeper.FeePool.Get(ctx)
	if err != nil {
		panic(err)
	}
	com := fp.CommunityPool
	// what is kept for the consensus validators stays in the same account
	a.DistributionKeeper.IterateValidatorOutstandingRewards(ctx, func(_ sdk.ValAddress, r distrtypes.ValidatorOutstandingRewards) bool {
		com = com.Add(r.Rewards...)
		return false
	})
	for _, c := range com {
		s.ComPool[c.Denom] = c.Amount.TruncateInt()
	}

	s.Pools, s.PoolCount = map[uint64]*PoolS{}, a.PoolKeeper.GetPoolCount(ctx)
	s.Props, s.Fin, s.RR = map[uint64]*bundlestypes.BundleProposal{}, map[uint64][]bundlestypes.FinalizedBundle{}, map[uint64][]rrEntry{}
	for _, p := range a.PoolKeeper.GetAllPools(ctx) {
		ps := &PoolS{Pool: p}
		if p.Protocol != nil {
			ps.Proto = *p.Protocol
		}
		if p.UpgradePlan != nil {
			ps.Plan = *p.UpgradePlan
		}
		ps.Pool.Protocol, ps.Pool.UpgradePlan = nil, nil
		s.Pools[p.Id] = ps
	}
	for _, p := range a.BundlesKeeper.GetAllBundleProposals(ctx) {
		p := p
		s.Props[p.PoolId] = &p
	}
	for _, f := range a.BundlesKeeper.GetAllFinalizedBundles(ctx) {
		s.Fin[f.PoolId] = append(s.Fin[f.PoolId], f)
	}
	for _, rr := range a.BundlesKeeper.GetAllRoundRobinProgress(ctx) {
		l := make([]rrEntry, 0, len(rr.ProgressList))
		for _, e := range rr.ProgressList {
			l = append(l, rrEntry{e.Address, e.Progress})
		}
		s.RR[rr.PoolId] = l
	}

	s.Stakers, s.Vals = map[string]*stakerstypes.Staker{}, map[vk]*stakerstypes.Valaccount{}
	for _, x := range a.StakersKeeper.GetAllStakers(ctx) {
		x := x
		s.Stakers[x.Address] = &x
	}
	for _, v := range a.StakersKeeper.GetAllValaccounts(ctx) {
		v := v
		s.Vals[vk{v.PoolId, v.Staker}] = &v
	}
	ce := a.StakersKeeper.GetAllCommissionChangeEntries(ctx)
	sort.SliceStable(ce, func(i, j int) bool { return ce[i].Index < ce[j].Index })
	for _, e := range ce {
		s.CommQ = append(s.CommQ, CommE{e.Staker, e.Commission, e.CreationDate})
	}
	le := a.StakersKeeper.GetAllLeavePoolEntries(ctx)
	sort.SliceStable(le, func(i, j int) bool { return le[i].Index < le[j].Index })
	for _, e := range le {
		s.LeaveQ = append(s.LeaveQ, LeaveE{e.Staker, e.PoolId, e.CreationDate})
	}

	s.Del, s.Rew, s.DelTotal, s.DelCount = map[sd]uint64{}, map[sd]sdk.Coins{}, map[string]uint64{}, map[string]uint64{}
	for _, d := range a.DelegationKeeper.GetAllDelegators(ctx) {
		k := sd{d.Staker, d.Delegator}
		s.Del[k] = a.DelegationKeeper.GetDelegationAmountOfDelegator(ctx, d.Staker, d.Delegator)
		s.Rew[k] = a.DelegationKeeper.GetOutstandingRewards(ctx, d.Staker, d.Delegator)
	}
	for _, d := range a.DelegationKeeper.GetAllDelegationData(ctx) {
		s.DelTotal[d.Staker] = d.TotalDelegation
		s.DelCount[d.Staker] = d.DelegatorCount
	}
	ue := a.DelegationKeeper.GetAllUnbondingDelegationQueueEntries(ctx)
	sort.SliceStable(ue, func(i, j int) bool { return ue[i].Index < ue[j].Index })
	for _, e := range ue {
		s.UnbQ = append(s.UnbQ, Unb{e.Staker, e.Delegator, e.Amount, e.CreationTime})
	}
	s.Cool = map[string][]uint64{}
	for _, e := range a.DelegationKeeper.GetAllRedelegationCooldownEntries(ctx) {
		s.Cool[e.Address] = append(s.Cool[e.Address], e.CreationDate)
	}
	for _, l := range s.Cool {
		sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	}

	s.Funders, s.Fundings, s.FState = map[string]*funderstypes.Funder{}, map[fk]*funderstypes.Funding{}, map[uint64][]string{}
	for _, f := range a.FundersKeeper.GetAllFunders(ctx) {
		f := f
		s.Funders[f.Address] = &f
	}
	for _, f := range a.FundersKeeper.GetAllFundings(ctx) {
		f := f
		s.Fundings[fk{f.PoolId, f.FunderAddress}] = &f
	}
	for _, f := range a.FundersKeeper.GetAllFundingStates(ctx) {
		s.FState[f.PoolId] = f.ActiveFunderAddresses
	}

	s.Auth = a.TeamKeeper.GetAuthority(ctx)
	s.Team = a.TeamKeeper.GetTeamVestingAccounts(ctx)
	s.TeamN = a.TeamKeeper.GetTeamVestingAccountCount(ctx)

	s.Seq, s.Num, s.Grants = map[string]uint64{}, map[string]uint64{}, map[sd]*sdk.Coins{}
	_ = a.FeeGrantKeeper.IterateAllFeeAllowances(ctx, func(g feegrant.Grant) bool {
		al, err := g.GetGrant()
		if err != nil {
			return false
		}
		if b, ok := al.(*feegrant.BasicAllowance); ok {
			c := b.SpendLimit
			if c == nil {
				s.Grants[sd{g.Granter, g.Grantee}] = nil
			} else {
				s.Grants[sd{g.Granter, g.Grantee}] = &c
			}
		}
		return false
	})
	s.Auths = map[authKey]int64{}
	a.AuthzKeeper.IterateGrants(ctx, func(granter, grantee sdk.AccAddress, g authz.Grant) bool {
		if x, err := g.GetAuthorization(); err == nil {
			k := authKey{granter.String(), grantee.String(), x.MsgTypeURL()}
			s.Auths[k] = 0
			if g.Expiration != nil {
				s.Auths[k] = g.Expiration.UnixNano()
			}
		}
		return false
	})
	for _, ac := range a.AccountKeeper.GetAllAccounts(ctx) {
		if ad := addrStr(ac.GetAddress()); simUser(ad) >= 0 {
			s.Seq[ad] = ac.GetSequence()
			s.Num[ad] = ac.GetAccountNumber()
		}
	}
	s.Gov = map[uint64]*GovP{}
	must(a.GovKeeper.Proposals.Walk(ctx, nil, func(id uint64, p govv1.Proposal) (bool, error) {
		if p.Status != govv1.StatusVotingPeriod {
			return false, nil
		}
		msgs, err := p.GetMsgs()
		if err != nil {
			return false, err
		}
		s.Gov[id] = &GovP{ID: id, End: p.VotingEndTime.UnixNano(), Deposits: map[string]sdk.Coins{}, Msgs: msgs, Votes: map[string]govv1.VoteOption{}}
		return false, nil
	}))
	if len(s.Gov) > 0 {
		must(a.GovKeeper.Deposits.Walk(ctx, nil, func(_ collections.Pair[uint64, sdk.AccAddress], d govv1.Deposit) (bool, error) {
			if p := s.Gov[d.ProposalId]; p != nil {
				p.Deposits[d.Depositor] = d.Amount
			}
			return false, nil
		}))
		must(a.GovKeeper.Votes.Walk(ctx, nil, func(_ collections.Pair[uint64, sdk.AccAddress], v govv1.Vote) (bool, error) {
			if p := s.Gov[v.ProposalId]; p != nil && len(v.Options) == 1 {
				p.Votes[v.Voter] = v.Options[0].Option
			}
			return false, nil
		}))
	}
	return s
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// govResults reads how proposals ended.
func govResults(a *app.App, h, t int64, ids map[uint64]*GovP) map[uint64]govResult {
	r := map[uint64]govResult{}
	if len(ids) == 0 {
		return r
	}
	ctx := queryCtx(a, h, t)
	for id := range ids {
		p, err := a.GovKeeper.Proposals.Get(ctx, id)
		if err != nil || p.Status == govv1.StatusVotingPeriod {
			continue
		}
		g := govResult{Status: p.Status}
		if p.FinalTallyResult != nil {
			g.Tally = *p.FinalTallyResult
		}
		r[id] = g
	}
	return r
}

var addrCache = map[string]string{}

func addrStr(a sdk.AccAddress) string {
	if s, ok := addrCache[string(a)]; ok {
		return s
	}
	s := a.String()
	addrCache[string(a)] = s
	return s
}
