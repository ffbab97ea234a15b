package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"time"

	"cosmossdk.io/math"
	storetypes "cosmossdk.io/store/types"
	upgradetypes "cosmossdk.io/x/upgrade/types"
	"github.com/KYVENetwork/chain/app"
	v14bundles "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/bundles"
	v14delegation "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/delegation"
	v14funders "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/funders"
	v14pool "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/pool"
	v14stakers "github.com/KYVENetwork/chain/app/upgrades/v1_5/v1_4_types/stakers"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	govtypes "github.com/cosmos/cosmos-sdk/x/gov/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
)

// The software upgrade v1.5.0. A block marked Old ends the life of the old
// software: what the chain holds after it is written the way version 1.4
// wrote it (stub: the old binary itself cannot be run), the upgrade is planned
// for the next height, and every node continues with a new process of the
// real application which finds the upgrade on its disk.

const upgradeName = "v1.5.0"

// what the new parameters and runtimes are
var (
	upWeights = []funderstypes.WhitelistCoinEntry{
		{CoinDenom: denom, CoinDecimals: 6, CoinWeight: dec("0.0358")},
		{CoinDenom: "ibc/58EDC95E791161D711F4CF012ACF30A5DA8DDEB40A484F293A52B1968903F643", CoinDecimals: 6, MinFundingAmount: math.NewInt(1_000_000_000), MinFundingAmountPerBundle: math.NewInt(100_000), CoinWeight: dec("0.1007")},
		{CoinDenom: "ibc/0D2ABDF58A5DBA3D2A90398F8737D16ECAC0DDE58F9792B2918495D499400672", CoinDecimals: 6, MinFundingAmount: math.NewInt(1_000_000_000), MinFundingAmountPerBundle: math.NewInt(100_000), CoinWeight: dec("0.0207")},
	}
	upCosts = []bundlestypes.StorageCost{
		{StorageProviderId: 1, Cost: dec("0.000000004194")},
		{StorageProviderId: 2, Cost: dec("0.000000006288")},
		{StorageProviderId: 3, Cost: dec("0")},
	}
	upRuntimes = []string{"@kyvejs/tendermint", "@kyvejs/tendermint-bsync", "@kyvejs/tendermint-ssync"}
)

func upFunders(old funderstypes.Params) funderstypes.Params {
	n := funderstypes.Params{MinFundingMultiple: old.MinFundingMultiple}
	for i := range upWeights {
		e := upWeights[i]
		if e.CoinDenom == denom {
			for _, o := range old.CoinWhitelist {
				if o.CoinDenom == denom {
					e.MinFundingAmount, e.MinFundingAmountPerBundle = o.MinFundingAmount, o.MinFundingAmountPerBundle
				}
			}
		}
		n.CoinWhitelist = append(n.CoinWhitelist, &e)
	}
	return n
}

func upBundles(old bundlestypes.Params) bundlestypes.Params {
	return bundlestypes.Params{UploadTimeout: old.UploadTimeout, NetworkFee: old.NetworkFee, MaxPoints: old.MaxPoints, StorageCosts: upCosts}
}

func upPool(old pooltypes.Params) pooltypes.Params {
	old.MaxVotingPowerPerPool = dec("0.5")
	return old
}

func upPlan(runtime, binaries string, now int64) pooltypes.UpgradePlan {
	return pooltypes.UpgradePlan{Version: "1.2.0", Binaries: binaries, ScheduledAt: uint64(now), Duration: 600}
}

// upBinaries: the release files of a runtime.
func upBinaries(runtime string) string {
	name := runtime[len("@kyvejs/"):]
	s := "{"
	for i, p := range []string{"linux-arm64", "linux-x64", "macos-x64"} {
		if i > 0 {
			s += ","
		}
		s += fmt.Sprintf(`"kyve-%s":"https://github.com/KYVENetwork/kyvejs/releases/download/%%40kyvejs%%2F%s%%401.2.0/kyve-%s.zip"`, p, name, p)
	}
	return s + "}"
}

// upgrade is the specification of the migration on the model's state.
func (m *M) upgrade() {
	m.op("migration")
	of := m.F
	m.F, m.B, m.P = upFunders(of), upBundles(m.B), upPool(m.P)
	m.Evs = append(m.Evs, &funderstypes.EventUpdateParams{NewParams: m.F, Payload: "{}"}, &bundlestypes.EventUpdateParams{NewParams: m.B, Payload: "{}"})
	for _, id := range m.poolIds() {
		p := *m.Pools[id]
		p.InflationShareWeight = math.LegacyOneDec()
		m.setPool(p)
	}
	for _, rt := range upRuntimes {
		for _, id := range m.poolIds() {
			p := *m.Pools[id]
			if p.Runtime != rt || p.Plan.ScheduledAt != 0 {
				continue
			}
			p.Plan = upPlan(rt, upBinaries(rt), m.now)
			m.setPool(p)
		}
	}
}

// ---------------------------------------------------------------- the old software's disk

type dump map[string]map[string][]byte

func dumpStores(a *app.App, ctx sdk.Context) dump {
	d := dump{}
	for _, k := range a.GetStoreKeys() {
		kv, ok := k.(*storetypes.KVStoreKey)
		if !ok {
			continue
		}
		m := map[string][]byte{}
		it := ctx.KVStore(kv).Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			m[string(it.Key())] = append([]byte(nil), it.Value()...)
		}
		it.Close()
		d[kv.Name()] = m
	}
	return d
}

func onlyKyve(cs sdk.Coins) bool {
	return len(cs) == 0 || len(cs) == 1 && cs[0].Denom == denom && cs[0].Amount.IsUint64()
}

// oldFormat says whether version 1.4 could have had the present state.
func (w *World) oldFormat() bool {
	if w.shadow != nil || w.h < 1 {
		return false
	}
	a := w.nodes[0].app
	ctx := queryCtx(a, w.h+1, w.now())
	if (&M{State: w.st}).whitelist(denom) == nil {
		return false
	}
	for _, f := range a.FundersKeeper.GetAllFundings(ctx) {
		if !onlyKyve(f.Amounts) || !onlyKyve(f.AmountsPerBundle) || !onlyKyve(f.TotalFunded) {
			return false
		}
	}
	for _, d := range a.DelegationKeeper.GetAllDelegationData(ctx) {
		if !onlyKyve(d.CurrentRewards) {
			return false
		}
	}
	for _, e := range a.DelegationKeeper.GetAllDelegationEntries(ctx) {
		if len(e.Value) > 1 || len(e.Value) == 1 && e.Value[0].Denom != denom {
			return false
		}
	}
	for _, s := range a.StakersKeeper.GetAllStakers(ctx) {
		if !onlyKyve(s.CommissionRewards) {
			return false
		}
	}
	ok := true
	must(a.GovKeeper.Proposals.Walk(ctx, nil, func(id uint64, p govv1.Proposal) (bool, error) {
		ms, err := p.GetMsgs()
		must(err)
		for _, x := range ms {
			if c, is := x.(*pooltypes.MsgCreatePool); is {
				q := c.InflationShareWeight
				ok = ok && c.EndKey == "" && !q.IsNil() && !q.IsNegative() && q.IsInteger() && q.TruncateInt().IsUint64()
			}
		}
		return false, nil
	}))
	return ok
}

// toOld rewrites what the application is about to commit in the encoding of
// version 1.4 and plans the upgrade.
func (w *World) toOld(n *nodeState, h int64, now int64) {
	d := n.enter(func() {
		a := n.app
		ctx := queryCtx(a, h, now)
		put := func(store string, key []byte, m interface{ Marshal() ([]byte, error) }) {
			b, err := m.Marshal()
			must(err)
			ctx.KVStore(a.GetKey(store)).Set(key, b)
		}
		amt := func(cs sdk.Coins) uint64 { return cs.AmountOf(denom).Uint64() }

		bp := a.BundlesKeeper.GetParams(ctx)
		cost := math.LegacyZeroDec()
		if len(bp.StorageCosts) > 0 {
			cost = bp.StorageCosts[0].Cost
		}
		put("bundles", bundlestypes.ParamsPrefix.Bytes(), &v14bundles.Params{UploadTimeout: bp.UploadTimeout, StorageCost: cost, NetworkFee: bp.NetworkFee, MaxPoints: bp.MaxPoints})

		for _, e := range a.DelegationKeeper.GetAllDelegationEntries(ctx) {
			put("delegation", append(cp(delegationtypes.DelegationEntriesKeyPrefix), delegationtypes.DelegationEntriesKey(e.Staker, e.KIndex)...),
				&v14delegation.DelegationEntry{Staker: e.Staker, KIndex: e.KIndex, Value: e.Value.AmountOf(denom)})
		}
		for _, e := range a.DelegationKeeper.GetAllDelegationData(ctx) {
			put("delegation", append(cp(delegationtypes.DelegationDataKeyPrefix), delegationtypes.DelegationDataKey(e.Staker)...),
				&v14delegation.DelegationData{Staker: e.Staker, CurrentRewards: amt(e.CurrentRewards), TotalDelegation: e.TotalDelegation, LatestIndexK: e.LatestIndexK,
					DelegatorCount: e.DelegatorCount, LatestIndexWasUndelegation: e.LatestIndexWasUndelegation})
		}

		fp := a.FundersKeeper.GetParams(ctx)
		op := &v14funders.Params{MinFundingMultiple: fp.MinFundingMultiple}
		for _, e := range fp.CoinWhitelist {
			if e.CoinDenom == denom {
				op.MinFundingAmount, op.MinFundingAmountPerBundle = e.MinFundingAmount.Uint64(), e.MinFundingAmountPerBundle.Uint64()
			}
		}
		put("funders", funderstypes.ParamsKey, op)
		for _, f := range a.FundersKeeper.GetAllFundings(ctx) {
			o := &v14funders.Funding{FunderAddress: f.FunderAddress, PoolId: f.PoolId, Amount: amt(f.Amounts), AmountPerBundle: amt(f.AmountsPerBundle), TotalFunded: amt(f.TotalFunded)}
			put("funders", append(cp(funderstypes.FundingKeyPrefixByFunder), funderstypes.FundingKeyByFunder(f.FunderAddress, f.PoolId)...), o)
			put("funders", append(cp(funderstypes.FundingKeyPrefixByPool), funderstypes.FundingKeyByPool(f.FunderAddress, f.PoolId)...), o)
		}

		for _, s := range a.StakersKeeper.GetAllStakers(ctx) {
			put("stakers", append(cp(stakerstypes.StakerKeyPrefix), stakerstypes.StakerKey(s.Address)...),
				&v14stakers.Staker{Address: s.Address, Commission: s.Commission, Moniker: s.Moniker, Website: s.Website, Identity: s.Identity,
					SecurityContact: s.SecurityContact, Details: s.Details, CommissionRewards: amt(s.CommissionRewards)})
		}

		pp := a.PoolKeeper.GetParams(ctx)
		put("pool", pooltypes.ParamsKey, &v14pool.Params{ProtocolInflationShare: pp.ProtocolInflationShare, PoolInflationPayoutRate: pp.PoolInflationPayoutRate})
		for _, p := range a.PoolKeeper.GetAllPools(ctx) {
			o := &v14pool.Pool{
				Id: p.Id, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, Config: p.Config, StartKey: p.StartKey, CurrentKey: p.CurrentKey, CurrentSummary: p.CurrentSummary,
				CurrentIndex: p.CurrentIndex, TotalBundles: p.TotalBundles, UploadInterval: p.UploadInterval, InflationShareWeight: oldWeight(p.InflationShareWeight), MinDelegation: p.MinDelegation,
				MaxBundleSize: p.MaxBundleSize, Disabled: p.Disabled, CurrentStorageProviderId: p.CurrentStorageProviderId, CurrentCompressionId: p.CurrentCompressionId, EndKey: p.EndKey,
			}
			if x := p.Protocol; x != nil {
				o.Protocol = &v14pool.Protocol{Version: x.Version, Binaries: x.Binaries, LastUpgrade: x.LastUpgrade}
			}
			if x := p.UpgradePlan; x != nil {
				o.UpgradePlan = &v14pool.UpgradePlan{Version: x.Version, Binaries: x.Binaries, ScheduledAt: x.ScheduledAt, Duration: x.Duration}
			}
			put("pool", append(cp(pooltypes.PoolKey), pooltypes.PoolKeyPrefix(p.Id)...), o)
		}

		pre := govtypes.ProposalsKeyPrefix.Bytes()
		gk := a.GetKey(govtypes.StoreKey)
		it := storetypes.KVStorePrefixIterator(ctx.KVStore(gk), pre)
		type rec struct{ k, v []byte }
		var recs []rec
		for ; it.Valid(); it.Next() {
			recs = append(recs, rec{cp(it.Key()), cp(it.Value())})
		}
		it.Close()
		for _, x := range recs {
			var p govv1.Proposal
			must(p.Unmarshal(x.v))
			for _, any := range p.Messages {
				if any.TypeUrl != createPoolURL {
					continue
				}
				var c pooltypes.MsgCreatePool
				must(c.Unmarshal(any.Value))
				o := v14pool.MsgCreatePool{
					Authority: c.Authority, Name: c.Name, Runtime: c.Runtime, Logo: c.Logo, Config: c.Config, StartKey: c.StartKey, UploadInterval: c.UploadInterval,
					InflationShareWeight: c.InflationShareWeight.TruncateInt().Uint64(), MinDelegation: c.MinDelegation, MaxBundleSize: c.MaxBundleSize, Version: c.Version,
					Binaries: c.Binaries, StorageProviderId: c.StorageProviderId, CompressionId: c.CompressionId,
				}
				b, err := o.Marshal()
				must(err)
				any.Value = b
			}
			b, err := p.Marshal()
			must(err)
			ctx.KVStore(gk).Set(x.k, b)
		}
		must(a.UpgradeKeeper.ScheduleUpgrade(ctx, upgradetypes.Plan{Name: upgradeName, Height: h + 1, Info: "{}"}))
	})
	if d != nil {
		panic("the state cannot be written in the old format: " + deathMsg(d))
	}
}

// oldWeight: version 1.4 had whole weights.
func oldWeight(d math.LegacyDec) uint64 {
	if i := d.TruncateInt(); i.IsUint64() {
		return i.Uint64()
	}
	return 1_000_000
}

const createPoolURL = "/kyve.pool.v1beta1.MsgCreatePool"

// upgradeHome is a node's home directory with the note the old software left.
func (w *World) upgradeHome(h int64) string {
	d := filepath.Join(w.scratch, fmt.Sprintf("upgrade-%d", h))
	f := filepath.Join(d, "data", "upgrade-info.json")
	if _, err := os.Stat(f); err != nil {
		must(os.MkdirAll(filepath.Dir(f), 0o755))
		b, err := json.Marshal(upgradetypes.Plan{Name: upgradeName, Height: h, Info: "{}"})
		must(err)
		must(os.WriteFile(f, b, 0o644))
	}
	return d
}

// swap replaces a node's software: a new process on the same disk.
func (w *World) swap(n *nodeState) bool {
	n.home = w.upgradeHome(w.oldAt + 1)
	n.swapped = true
	n.app = nil
	if d := n.start(); d != nil {
		w.violate("X08", "node %d does not start with the new software: %s", n.id, deathMsg(d))
		return false
	}
	n.fresh = true
	return true
}

// ---------------------------------------------------------------- oracle

// expectUpgrade is what the stores have to contain after the migration, given
// what they contained before they were put into the old format.
func (w *World) expectUpgrade(a *app.App, pre dump, now int64) dump {
	x := dump{}
	for s, m := range pre {
		x[s] = m
	}
	cow := func(s string) map[string][]byte { // copy on write
		m := cmap(x[s])
		x[s] = m
		return m
	}
	mar := func(m interface{ Marshal() ([]byte, error) }) []byte {
		b, err := m.Marshal()
		must(err)
		return b
	}
	bun := cow("bundles")
	b := upBundles(w.st.B)
	bun[string(bundlestypes.ParamsPrefix.Bytes())] = mar(&b)
	fun := cow("funders")
	f := upFunders(w.st.F)
	fun[string(funderstypes.ParamsKey)] = mar(&f)
	pl := cow("pool")
	p := upPool(w.st.P)
	pl[string(pooltypes.ParamsKey)] = mar(&p)
	for k, v := range pl {
		if !bytes.HasPrefix([]byte(k), pooltypes.PoolKey) || len(k) != len(pooltypes.PoolKey)+8 {
			continue
		}
		var q pooltypes.Pool
		must(q.Unmarshal(v))
		q.InflationShareWeight = math.LegacyOneDec()
		for _, rt := range upRuntimes {
			if q.Runtime == rt && (q.UpgradePlan == nil || q.UpgradePlan.ScheduledAt == 0) {
				plan := upPlan(rt, upBinaries(rt), now)
				q.UpgradePlan = &plan
			}
		}
		pl[k] = mar(&q)
	}
	gv := cow(govtypes.StoreKey)
	key := string(govtypes.ParamsKey.Bytes())
	var gp govv1.Params
	must(gp.Unmarshal(gv[key]))
	gp.ExpeditedMinDeposit = sdk.NewCoins(sdk.NewInt64Coin(denom, 50_000_000_000))
	t := 30 * time.Minute
	gp.ExpeditedVotingPeriod = &t
	gv[key] = mar(&gp)
	return x
}

// proposalText removes what the upgrade is allowed to rewrite in the first
// governance proposals (their texts were lost before version 1.5).
func proposalText(v []byte) ([]byte, bool) {
	var p govv1.Proposal
	if p.Unmarshal(v) != nil {
		return v, false
	}
	ok := p.Title != "" && p.Summary != ""
	if _, err := sdk.AccAddressFromBech32(p.Proposer); err != nil {
		ok = false
	}
	p.Title, p.Summary, p.Proposer = "", "", ""
	b, err := p.Marshal()
	must(err)
	return b, ok
}

const rewrittenProposals = 100 // ids below may get their texts restored

// tryUpgrade runs the migration on a branch of node 0's state and compares
// every store with what it has to contain.
func (w *World) tryUpgrade(now int64) {
	n := w.nodes[0]
	var got dump
	var want dump
	var perr error
	d := n.enter(func() {
		a := n.app
		ctx, _ := queryCtx(a, w.h+1, now).CacheContext()
		want = w.expectUpgrade(a, w.preUp, now)
		plan, err := a.UpgradeKeeper.GetUpgradePlan(ctx)
		must(err)
		if perr = a.UpgradeKeeper.ApplyUpgrade(ctx, plan); perr != nil {
			return
		}
		got = dumpStores(a, ctx)
		if _, err := a.UpgradeKeeper.GetUpgradePlan(ctx); err == nil {
			w.violate("X08", "the upgrade is still planned after it ran")
		}
		delete(got, upgradetypes.StoreKey)
		delete(want, upgradetypes.StoreKey)
	})
	if d != nil || perr != nil {
		w.violate("X08", "the migration fails: %v %s", perr, deathMsg(d))
		return
	}
	w.stats.Probes["upgrade: state compared byte by byte"]++
	var stores []string
	for s := range want {
		stores = append(stores, s)
	}
	sort.Strings(stores)
	propKey := string(govtypes.ProposalsKeyPrefix.Bytes())
	n0 := 0
	for _, s := range stores {
		keys := map[string]bool{}
		for k := range want[s] {
			keys[k] = true
		}
		for k := range got[s] {
			keys[k] = true
		}
		var l []string
		for k := range keys {
			l = append(l, k)
		}
		sort.Strings(l)
		for _, k := range l {
			n0++
			x, y := want[s][k], got[s][k]
			if bytes.Equal(x, y) && (x == nil) == (y == nil) {
				continue
			}
			if s == govtypes.StoreKey && len(k) == len(propKey)+8 && k[:len(propKey)] == propKey && x != nil && y != nil && sdk.BigEndianToUint64([]byte(k[len(propKey):])) < rewrittenProposals {
				a, _ := proposalText(x)
				b, ok := proposalText(y)
				if ok && bytes.Equal(a, b) {
					continue
				}
			}
			w.violate("X08", "the upgrade leaves something else in store %s: %s", s, describe(n.app, s, k, x, y))
		}
	}
	w.stats.Probes["upgrade: keys compared"] += n0
}

// describe renders a difference between two stored values.
func describe(a *app.App, store, key string, want, got []byte) string {
	var m interface {
		Unmarshal([]byte) error
		String() string
	}
	has := func(p []byte) bool { return bytes.HasPrefix([]byte(key), p) }
	mk := func() bool {
		switch {
		case store == "bundles" && has(bundlestypes.ParamsPrefix.Bytes()):
			m = &bundlestypes.Params{}
		case store == "funders" && has(funderstypes.ParamsKey):
			m = &funderstypes.Params{}
		case store == "funders" && (has(funderstypes.FundingKeyPrefixByFunder) || has(funderstypes.FundingKeyPrefixByPool)):
			m = &funderstypes.Funding{}
		case store == "delegation" && has(delegationtypes.DelegationEntriesKeyPrefix):
			m = &delegationtypes.DelegationEntry{}
		case store == "delegation" && has(delegationtypes.DelegationDataKeyPrefix):
			m = &delegationtypes.DelegationData{}
		case store == "stakers" && has(stakerstypes.StakerKeyPrefix):
			m = &stakerstypes.Staker{}
		case store == "pool" && has(pooltypes.ParamsKey):
			m = &pooltypes.Params{}
		case store == "pool" && has(pooltypes.PoolKey):
			m = &pooltypes.Pool{}
		default:
			return false
		}
		return true
	}
	txt := func(b []byte) string {
		if b == nil {
			return "nothing"
		}
		if !mk() || m.Unmarshal(b) != nil {
			return fmt.Sprintf("%x", b)
		}
		return m.String()
	}
	return fmt.Sprintf("key %x has %.300s, expected %.300s", key, txt(got), txt(want))
}
