package main

import (
	"sort"

	"cosmossdk.io/math"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

type runErr int

const (
	runOK runErr = iota
	runNoPool
	runUpgrading
	runDisabled
	runEnd
	runMinDel
	runPower
)

// dirty: a decision uses a stake the model only knows up to rounding.
func (m *M) dirty(s string) {
	if m.fuzz[fzTot(s)] > 0 {
		m.poison = true
	}
}

func (m *M) power(s string) uint64 {
	m.dirty(s)
	return m.DelTotal[s]
}

// canRun decides whether a pool is runnable.
func (m *M) canRun(id uint64) runErr {
	p, ok := m.Pools[id]
	if !ok {
		return runNoPool
	}
	if p.Plan.ScheduledAt > 0 && uint64(m.now) >= p.Plan.ScheduledAt {
		return runUpgrading
	}
	if p.Disabled {
		return runDisabled
	}
	if p.EndKey != "" && p.CurrentKey == p.EndKey {
		return runEnd
	}
	var tot, high uint64
	for _, s := range m.members(id) {
		v := m.power(s)
		tot += v
		if v > high {
			high = v
		}
	}
	if tot < p.MinDelegation {
		return runMinDel
	}
	if math.NewIntFromUint64(high).GT(decMulTrunc(m.P.MaxVotingPowerPerPool, math.NewIntFromUint64(tot))) {
		return runPower
	}
	return runOK
}

func (m *M) addPoint(id uint64, s string) {
	v := *m.Vals[vk{id, s}]
	v.Points++
	m.Vals[vk{id, s}] = &v
	m.op("point", s, poolSubj(id))
	m.Evs = append(m.Evs, &bundlestypes.EventPointIncreased{PoolId: id, Staker: s, CurrentPoints: v.Points})
	if v.Points >= m.B.MaxPoints {
		m.cell("maxpoints")
		m.slash(id, s, delegationtypes.SLASH_TYPE_TIMEOUT)
		m.leavePool(id, s)
	}
}

func (m *M) resetPoints(id uint64, s string) {
	v := *m.Vals[vk{id, s}]
	if v.Points > 0 {
		v.Points = 0
		m.Vals[vk{id, s}] = &v
		m.op("points0", s, poolSubj(id))
		m.Evs = append(m.Evs, &bundlestypes.EventPointsReset{PoolId: id, Staker: s})
	}
}

func (m *M) nonVoters(id uint64) {
	p := m.proposal(id)
	for _, s := range m.members(id) {
		if !has(p.VotersValid, s) && !has(p.VotersInvalid, s) && !has(p.VotersAbstain, s) {
			m.addPoint(id, s)
		}
	}
}

func (m *M) distribution(id uint64) (d bundlestypes.VoteDistribution) {
	p := m.proposal(id)
	sum := func(l []string) (t uint64) {
		for _, s := range l {
			if m.isMember(id, s) {
				t += m.power(s)
			}
		}
		return
	}
	d.Valid, d.Invalid, d.Abstain = sum(p.VotersValid), sum(p.VotersInvalid), sum(p.VotersAbstain)
	d.Total = sum(m.members(id))
	switch {
	case d.Total == 0:
		d.Status = bundlestypes.BUNDLE_STATUS_NO_QUORUM
	case d.Valid > d.Total-d.Valid:
		d.Status = bundlestypes.BUNDLE_STATUS_VALID
	case d.Invalid >= d.Total-d.Invalid:
		d.Status = bundlestypes.BUNDLE_STATUS_INVALID
	default:
		d.Status = bundlestypes.BUNDLE_STATUS_NO_QUORUM
	}
	return
}

func (m *M) storageCost(provider uint32) math.LegacyDec {
	for _, c := range m.B.StorageCosts {
		if c.StorageProviderId == provider {
			return c.Cost
		}
	}
	return math.LegacyZeroDec()
}

type reward struct{ total, treasury, storage, commission, delegation sdk.Coins }

func (m *M) payouts(p bundlestypes.BundleProposal, total sdk.Coins) (r reward) {
	s, ok := m.Stakers[p.Uploader]
	if !ok || total.IsZero() {
		return
	}
	r.total = total
	r.treasury = mulDecTrunc(total, m.B.NetworkFee)
	left := total.Sub(r.treasury...)
	if left.IsZero() {
		return
	}
	share := m.storageCost(p.StorageProviderId).MulInt(math.NewIntFromUint64(p.DataSize)).QuoInt64(int64(len(left)))
	want := sdk.Coins{}
	for _, c := range left {
		e := m.whitelist(c.Denom)
		if e == nil || e.CoinWeight.IsZero() {
			continue
		}
		want = want.Add(one(c.Denom, share.Mul(pow10(e.CoinDecimals)).Quo(e.CoinWeight).TruncateInt())...)
	}
	r.storage = coinsMin(left, want)
	if left = left.Sub(r.storage...); left.IsZero() {
		return
	}
	r.commission = mulDecTrunc(left, s.Commission)
	if left = left.Sub(r.commission...); left.IsZero() {
		return
	}
	if m.DelTotal[p.Uploader] > 0 {
		r.delegation = left
	} else {
		r.commission = r.commission.Add(left...)
	}
	return
}

type verdict struct {
	d       bundlestypes.VoteDistribution
	funders sdk.Coins
	infl    uint64
	r       reward
}

// tally closes the voting of the current bundle.
func (m *M) tally(id uint64) (v verdict) {
	m.nonVoters(id)
	v.d = m.distribution(id)
	p := m.proposal(id)
	m.cell("tally/%s/vi=%d/vv=%d/va=%d", v.d.Status, min(len(p.VotersInvalid), 2), min(len(p.VotersValid), 3), min(len(p.VotersAbstain), 1))
	m.op("tally", poolSubj(id), p.Uploader)
	switch v.d.Status {
	case bundlestypes.BUNDLE_STATUS_VALID:
		v.funders = m.chargeFunders(id)
		infl := decMulTrunc(m.P.PoolInflationPayoutRate, m.bal(poolAcc(id), denom))
		v.infl = infl.Uint64()
		m.send(poolAcc(id), mod(mPool), one(denom, infl))
		v.r = m.payouts(p, sdk.Coins{}.Add(v.funders...).Add(one(denom, infl)...))
		m.cell("payout/f=%v/i=%v/t=%v/s=%v/c=%v/d=%v/mixed=%v", v.funders.IsZero(), infl.IsZero(), v.r.treasury.IsZero(), v.r.storage.IsZero(), v.r.commission.IsZero(), v.r.delegation.IsZero(), len(v.r.total))
		m.treasury(mod(mPool), v.r.treasury)
		up := sdk.Coins{}.Add(v.r.storage...).Add(v.r.commission...)
		if s, ok := m.Stakers[p.Uploader]; ok && !up.IsZero() {
			m.send(mod(mPool), mod(mStakers), up)
			c := *s
			c.CommissionRewards = sdk.Coins{}.Add(s.CommissionRewards...).Add(up...)
			m.Stakers[p.Uploader] = &c
			m.op("commissionpaid", p.Uploader)
		}
		m.payout(p.Uploader, v.r.delegation, mod(mPool))
		for _, s := range p.VotersInvalid {
			m.slash(id, s, delegationtypes.SLASH_TYPE_VOTE)
			m.leavePool(id, s)
		}
	case bundlestypes.BUNDLE_STATUS_INVALID:
		for _, s := range p.VotersValid {
			if s == p.Uploader {
				m.slash(id, s, delegationtypes.SLASH_TYPE_UPLOAD)
			} else {
				m.slash(id, s, delegationtypes.SLASH_TYPE_VOTE)
			}
			m.leavePool(id, s)
		}
	}
	return
}

func (m *M) finalize(id uint64, v verdict, next string) {
	p := m.proposal(id)
	pool := *m.Pools[id]
	m.op("finalize", poolSubj(id), p.Uploader)
	m.Fin[id] = append(full(m.Fin[id]), bundlestypes.FinalizedBundle{
		PoolId: id, Id: pool.TotalBundles, StorageId: p.StorageId, Uploader: p.Uploader,
		FromIndex: pool.CurrentIndex, ToIndex: pool.CurrentIndex + p.BundleSize, FromKey: p.FromKey, ToKey: p.ToKey,
		BundleSummary: p.BundleSummary, DataHash: p.DataHash,
		FinalizedAt:       &bundlestypes.FinalizedAt{Height: uint64(m.h), Timestamp: uint64(m.now)},
		StorageProviderId: p.StorageProviderId, CompressionId: p.CompressionId,
		StakeSecurity: &bundlestypes.StakeSecurity{ValidVotePower: v.d.Valid, TotalVotePower: v.d.Total},
	})
	m.Evs = append(m.Evs, &bundlestypes.EventBundleFinalized{
		PoolId: id, Id: pool.TotalBundles, Valid: v.d.Valid, Invalid: v.d.Invalid, Abstain: v.d.Abstain, Total: v.d.Total, Status: v.d.Status,
		FundersPayout: v.funders.String(), InflationPayout: v.infl,
		RewardTreasury: v.r.treasury.String(), RewardUploader: sdk.Coins{}.Add(v.r.commission...).Add(v.r.storage...).String(),
		RewardDelegation: v.r.delegation.String(), RewardTotal: v.r.total.String(), FinalizedAt: uint64(m.now),
		Uploader: p.Uploader, NextUploader: next,
		RewardUploaderCommission: v.r.commission.String(), RewardUploaderStorageCost: v.r.storage.String(),
	})
	pool.CurrentIndex += p.BundleSize
	pool.CurrentKey, pool.CurrentSummary = p.ToKey, p.BundleSummary
	pool.TotalBundles++
	m.setPool(pool)
	m.round(id, p, "finalized")
}

func (m *M) drop(id uint64, d bundlestypes.VoteDistribution, next string) {
	p := m.proposal(id)
	m.op("drop", poolSubj(id))
	m.Evs = append(m.Evs, &bundlestypes.EventBundleFinalized{
		PoolId: id, Id: m.Pools[id].TotalBundles, Valid: d.Valid, Invalid: d.Invalid, Abstain: d.Abstain, Total: d.Total, Status: d.Status,
		FinalizedAt: uint64(m.now), Uploader: p.Uploader,
	})
	m.setProposal(bundlestypes.BundleProposal{PoolId: id, NextUploader: next, UpdatedAt: uint64(m.now)})
	m.round(id, p, "dropped/"+d.Status.String())
}

// round counts how voting rounds end.
func (m *M) round(id uint64, p bundlestypes.BundleProposal, how string) {
	m.cell("round/%s/votes=%d", how, min(len(p.VotersValid)+len(p.VotersInvalid)+len(p.VotersAbstain), 6))
}

// ---------------------------------------------------------------- messages

func (m *M) authorized(id uint64, staker, creator string) bool {
	v, ok := m.Vals[vk{id, staker}]
	return ok && v.Valaddress == creator
}

func (m *M) vote(x *bundlestypes.MsgVoteBundleProposal) *merr {
	id := x.PoolId
	if m.canRun(id) != runOK {
		return fail("P02", "vote in pool that cannot run")
	}
	if !m.authorized(id, x.Staker, x.Creator) {
		return fail("B03", "vote without authorisation")
	}
	p := m.proposal(id)
	if p.StorageId == "" || p.StorageId != x.StorageId {
		return fail("B03", "vote on another bundle")
	}
	if has(p.VotersValid, x.Staker) || has(p.VotersInvalid, x.Staker) {
		return fail("B03", "voted twice")
	}
	if has(p.VotersAbstain, x.Staker) {
		if x.Vote == bundlestypes.VOTE_TYPE_ABSTAIN {
			return fail("B03", "abstained twice")
		}
		p.VotersAbstain = without(p.VotersAbstain, x.Staker)
		m.cell("vote/change")
	}
	switch x.Vote {
	case bundlestypes.VOTE_TYPE_VALID:
		p.VotersValid = append(full(p.VotersValid), x.Staker)
	case bundlestypes.VOTE_TYPE_INVALID:
		p.VotersInvalid = append(full(p.VotersInvalid), x.Staker)
	case bundlestypes.VOTE_TYPE_ABSTAIN:
		p.VotersAbstain = append(full(p.VotersAbstain), x.Staker)
	default:
		return fail("B03", "unknown vote")
	}
	m.op("vote", poolSubj(id), x.Staker)
	m.setProposal(p)
	m.resetPoints(id, x.Staker)
	return nil
}

func (m *M) canPropose(id uint64, staker, creator string, from uint64) *merr {
	if m.canRun(id) != runOK {
		return fail("P02", "propose in pool that cannot run")
	}
	if !m.authorized(id, staker, creator) {
		return fail("B03", "propose without authorisation")
	}
	p, pool := m.proposal(id), m.Pools[id]
	if p.NextUploader != staker {
		return fail("B03", "not the designated uploader")
	}
	if uint64(m.now) < p.UpdatedAt+pool.UploadInterval {
		return fail("B03", "upload interval not over")
	}
	if pool.CurrentIndex+p.BundleSize != from {
		return fail("B01", "wrong from index")
	}
	return nil
}

func (m *M) submit(x *bundlestypes.MsgSubmitBundleProposal) *merr {
	id := x.PoolId
	if e := m.canPropose(id, x.Staker, x.Creator, x.FromIndex); e != nil {
		return e
	}
	p, pool := m.proposal(id), m.Pools[id]
	if x.StorageId == "" || x.BundleSize == 0 || x.BundleSize > pool.MaxBundleSize || x.FromKey == "" || x.ToKey == "" {
		return fail("B01", "malformed bundle")
	}
	m.op("submit", poolSubj(id), x.Staker)
	m.resetPoints(id, x.Staker)
	next := ""
	if p.StorageId == "" {
		next = m.choose(id, nil, nil)
	} else {
		v := m.tally(id)
		switch v.d.Status {
		case bundlestypes.BUNDLE_STATUS_VALID:
			next = m.choose(id, p.VotersValid, nil)
			m.finalize(id, v, next)
		case bundlestypes.BUNDLE_STATUS_INVALID:
			keep := p.NextUploader
			if !m.isMember(id, keep) {
				// the uploader was removed by the verdict and cannot submit again
				keep = m.choose(id, nil, nil)
				m.cell("submit/invalid/removed")
			}
			m.drop(id, v.d, keep)
			return nil
		default:
			return fail("B02", "no quorum yet")
		}
	}
	m.setProposal(bundlestypes.BundleProposal{
		PoolId: id, Uploader: x.Staker, NextUploader: next, StorageId: x.StorageId, DataSize: x.DataSize, BundleSize: x.BundleSize,
		UpdatedAt: uint64(m.now), VotersValid: []string{x.Staker}, FromKey: x.FromKey, ToKey: x.ToKey,
		BundleSummary: x.BundleSummary, DataHash: x.DataHash,
		StorageProviderId: m.Pools[id].CurrentStorageProviderId, CompressionId: m.Pools[id].CurrentCompressionId,
	})
	return nil
}

func (m *M) skip(x *bundlestypes.MsgSkipUploaderRole) *merr {
	id := x.PoolId
	if e := m.canPropose(id, x.Staker, x.Creator, x.FromIndex); e != nil {
		return e
	}
	m.op("skip", poolSubj(id), x.Staker)
	p := m.proposal(id)
	m.resetPoints(id, x.Staker)
	var v verdict
	if p.StorageId != "" {
		v = m.tally(id)
	} else {
		v.d.Status = bundlestypes.BUNDLE_STATUS_NO_QUORUM // nothing to vote on
	}
	next := m.choose(id, nil, []string{x.Staker})
	m.cell("skip/%s/bundle=%v", v.d.Status, p.StorageId != "")
	switch v.d.Status {
	case bundlestypes.BUNDLE_STATUS_VALID:
		m.finalize(id, v, next)
		m.setProposal(bundlestypes.BundleProposal{PoolId: id, NextUploader: next, UpdatedAt: uint64(m.now)})
	case bundlestypes.BUNDLE_STATUS_INVALID:
		m.drop(id, v.d, next)
	default:
		p.NextUploader, p.UpdatedAt = next, uint64(m.now)
		m.setProposal(p)
	}
	m.Evs = append(m.Evs, &bundlestypes.EventSkippedUploaderRole{PoolId: id, Id: m.Pools[id].TotalBundles, PreviousUploader: x.Staker, NewUploader: next})
	return nil
}

func (m *M) claim(x *bundlestypes.MsgClaimUploaderRole) *merr {
	id := x.PoolId
	if m.canRun(id) != runOK {
		return fail("P02", "claim in pool that cannot run")
	}
	if !m.authorized(id, x.Staker, x.Creator) {
		return fail("B03", "claim without authorisation")
	}
	p := m.proposal(id)
	if p.NextUploader != "" {
		return fail("B03", "uploader role already taken")
	}
	m.op("claim", poolSubj(id), x.Staker)
	p.PoolId, p.NextUploader, p.UpdatedAt = id, x.Staker, uint64(m.now)
	m.setProposal(p)
	m.Evs = append(m.Evs, &bundlestypes.EventClaimedUploaderRole{PoolId: id, Id: m.Pools[id].TotalBundles, NewUploader: x.Staker})
	return nil
}

// uploadTimeout runs at the end of every block.
func (m *M) uploadTimeout() {
	for _, id := range m.poolIds() {
		run := m.canRun(id)
		p := m.proposal(id)
		m.cell("pool/run=%d/bundle=%v/next=%v", run, p.StorageId != "", p.NextUploader != "")
		if run != runOK {
			if run == runDisabled && p.StorageId != "" {
				m.drop(id, bundlestypes.VoteDistribution{Status: bundlestypes.BUNDLE_STATUS_DISABLED}, "")
			} else if p.NextUploader != "" {
				p.NextUploader = ""
				m.setProposal(p)
				m.op("nouploader", poolSubj(id))
			}
			continue
		}
		pool := m.Pools[id]
		due := p.UpdatedAt + pool.UploadInterval
		if uint64(m.now) < due {
			continue
		}
		if p.StorageId != "" {
			if d := m.distribution(id); d.Status == bundlestypes.BUNDLE_STATUS_NO_QUORUM {
				m.nonVoters(id)
				m.drop(id, d, m.choose(id, nil, nil))
				m.cell("timeout/noquorum")
				continue
			}
		}
		if uint64(m.now) < due+m.B.UploadTimeout {
			continue
		}
		late := p.NextUploader
		m.op("timeout", poolSubj(id), late)
		if p.StorageId != "" {
			v := m.tally(id)
			if v.d.Status == bundlestypes.BUNDLE_STATUS_VALID {
				next := m.choose(id, p.VotersValid, nil)
				m.finalize(id, v, next)
				m.setProposal(bundlestypes.BundleProposal{PoolId: id, NextUploader: next, UpdatedAt: uint64(m.now)})
			} else {
				m.drop(id, v.d, m.choose(id, nil, nil))
			}
			m.cell("timeout/%s", v.d.Status)
		} else {
			p.NextUploader, p.UpdatedAt = m.choose(id, nil, nil), uint64(m.now)
			m.setProposal(p)
			m.cell("timeout/nobundle")
		}
		if m.isMember(id, late) {
			m.addPoint(id, late)
		}
	}
}

// ---------------------------------------------------------------- uploader selection

type rrVal struct {
	a    string
	w, p int64
}

// choose picks the next uploader by weighted round robin. included restricts
// the choice to a list (nil = everybody), excluded removes candidates.
func (m *M) choose(id uint64, included, excluded []string) string {
	stored := map[string]int64{}
	for _, e := range m.RR[id] {
		stored[e.A] += e.P
	}
	var vs []rrVal
	var total int64
	for _, s := range m.members(id) {
		if w := int64(m.power(s)); w > 0 {
			vs = append(vs, rrVal{a: s, w: w})
			total += w
		}
	}
	for i := range vs {
		if p, ok := stored[vs[i].a]; ok {
			vs[i].p = p
		} else {
			vs[i].p = math.LegacyMustNewDecFromStr("-1.125").MulInt64(total).TruncateInt64()
		}
	}
	m.op("rr", poolSubj(id))
	if len(vs) == 0 {
		m.RR[id] = []rrEntry{}
		return ""
	}
	rrNormalize(vs, total)
	rrNormalize(vs, total)
	out := map[string]bool{}
	for _, s := range excluded {
		out[s] = true
	}
	if included != nil {
		for _, v := range vs {
			if !has(included, v.a) {
				out[v.a] = true
			}
		}
	}
	n := 0
	for _, v := range vs {
		if out[v.a] {
			n++
		}
	}
	// a skipper which is not a candidate itself counts nevertheless
	if n == len(vs) || (included == nil && len(excluded) == len(vs)) {
		out = map[string]bool{}
	}
	m.cell("rr/n=%d/out=%d", min(len(vs), 6), min(len(out), 4))
	best := -1
	var excl int64
	for i := range vs {
		if out[vs[i].a] {
			excl += vs[i].w
			continue
		}
		vs[i].p += vs[i].w
		if best < 0 || vs[i].p > vs[best].p {
			best = i
		}
	}
	vs[best].p -= total - excl
	l := make([]rrEntry, 0, len(vs))
	for _, v := range vs {
		l = append(l, rrEntry{v.a, v.p})
	}
	sort.Slice(l, func(i, j int) bool { return l[i].A < l[j].A })
	m.RR[id] = l
	return vs[best].a
}

func rrNormalize(vs []rrVal, total int64) {
	lo, hi, sum := vs[0].p, vs[0].p, int64(0)
	for _, v := range vs {
		lo, hi, sum = min(lo, v.p), max(hi, v.p), sum+v.p
	}
	if diff, th := hi-lo, 2*total; diff > th {
		sum = 0
		for i := range vs {
			vs[i].p = math.NewInt(vs[i].p).Mul(math.NewInt(th)).Quo(math.NewInt(diff)).Int64()
			sum += vs[i].p
		}
	}
	avg := sum / int64(len(vs))
	for i := range vs {
		vs[i].p -= avg
	}
}

// ---------------------------------------------------------------- inflation

// splitInflation moves the protocol's share of the block provision to the
// pools; rest is the provision left after the team's share. What the division
// leaves over may stay for the chain or go to one pool that can run; which of
// the two is observed.
func (m *M) splitInflation(rest math.Int, moved map[string]math.Int) {
	protocol := decMulTrunc(m.P.ProtocolInflationShare, rest)
	if protocol.IsZero() {
		return
	}
	var run, idle []uint64
	w := math.LegacyZeroDec()
	for _, id := range m.poolIds() {
		if m.canRun(id) == runOK {
			run = append(run, id)
			w = w.Add(m.Pools[id].InflationShareWeight)
		} else {
			idle = append(idle, id)
		}
	}
	if w.IsZero() {
		m.cell("inflation/none")
		return
	}
	left := protocol
	extra := map[uint64]math.Int{}
	for _, id := range run {
		a := m.Pools[id].InflationShareWeight.Quo(w).MulInt(protocol).TruncateInt()
		m.send(mod(mFeeCollector), poolAcc(id), one(denom, a))
		m.op("inflation", poolSubj(id))
		left = left.Sub(a)
		extra[id] = orZero(moved[poolAcc(id)]).Sub(a)
	}
	m.cell("inflation/pools=%d/idle=%d/rest=%v", min(len(run), 4), min(len(idle), 3), left.IsPositive())
	if !left.IsPositive() {
		return
	}
	var got []uint64
	for _, id := range run {
		if extra[id].Equal(left) {
			got = append(got, id)
		}
	}
	switch {
	case len(got) == 1:
		m.send(mod(mFeeCollector), poolAcc(got[0]), one(denom, left))
	case len(got) == 0 && len(idle) > 0 && orZero(moved[poolAcc(idle[0])]).Equal(left):
		m.known = append(m.known, knownInflationRest)
		m.send(mod(mFeeCollector), poolAcc(idle[0]), one(denom, left))
	}
}
