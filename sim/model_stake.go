package main

import (
	"cosmossdk.io/math"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// ---------------------------------------------------------------- delegation

func (m *M) delegatorsOf(s string) []sd {
	var l []sd
	for k := range m.Del {
		if k.S == s {
			l = append(l, k)
		}
	}
	return l
}

// withdraw pays out all rewards of a delegator.
func (m *M) withdraw(s, d string) {
	k := sd{s, d}
	r := m.Rew[k]
	m.send(mod(mDelegation), d, r)
	// rewards are exact only up to rounding: 1 unit per accounting period
	f := m.fuzz["rew/"+s] + 2
	of := func(dn string) int64 { return f + m.fuzz["rewof/"+s+"/"+dn] }
	for _, c := range r {
		m.fz(fzBal(d, c.Denom), of(c.Denom))
		m.fz(fzBal(mod(mDelegation), c.Denom), of(c.Denom))
	}
	if f > 2 {
		for _, dn := range simDenoms {
			m.fz(fzBal(d, dn), of(dn))
			m.fz(fzBal(mod(mDelegation), dn), of(dn))
		}
	} else {
		// fractions of earlier periods may add up to a whole unit of a coin not shown yet
		for _, dn := range simDenoms {
			if r.AmountOf(dn).IsZero() {
				m.fz(fzBal(d, dn), 1)
				m.fz(fzBal(mod(mDelegation), dn), 1)
			}
		}
	}
	m.Rew[k] = sdk.Coins{}
	m.fz("rew/"+s+"/"+d, 2)
	m.op("withdraw", s, d)
}

var simDenoms = append([]string{denom}, extraDenoms...)

// removeDelegator ends a delegation entry and returns its stake.
func (m *M) removeDelegator(s, d string) uint64 {
	k := sd{s, d}
	a, ok := m.Del[k]
	if !ok {
		return 0
	}
	delete(m.Del, k)
	delete(m.Rew, k)
	m.DelTotal[s] -= a
	m.fz(fzTot(s), m.fuzz[fzDel(s, d)])
	m.DelCount[s]--
	if m.DelCount[s] == 0 {
		m.DelTotal[s] = 0 // rounding dust of slashes belongs to nobody
		delete(m.fuzz, fzTot(s))
	}
	return a
}

func (m *M) createDelegator(s, d string, a uint64) {
	if a == 0 {
		return
	}
	k := sd{s, d}
	m.Del[k] = a
	m.Rew[k] = sdk.Coins{}
	m.DelTotal[s] += a
	m.DelCount[s]++
}

func (m *M) performDelegation(s, d string, a uint64) {
	k := sd{s, d}
	if _, ok := m.Del[k]; ok {
		m.withdraw(s, d)
		f := m.fuzz[fzDel(s, d)]
		old := m.removeDelegator(s, d)
		m.createDelegator(s, d, old+a)
		m.fz(fzTot(s), f)
	} else {
		m.createDelegator(s, d, a)
	}
}

func (m *M) performUndelegation(s, d string, a uint64) uint64 {
	k := sd{s, d}
	cur, ok := m.Del[k]
	if !ok {
		return 0
	}
	m.withdraw(s, d)
	f := m.fuzz[fzDel(s, d)]
	m.removeDelegator(s, d)
	if cur > a {
		m.createDelegator(s, d, cur-a)
		m.fz(fzTot(s), f)
		return a
	}
	if f > 0 {
		m.fz(fzBal(d, denom), f)
		m.fz(fzBal(mod(mDelegation), denom), f)
		m.fz(fzTot(s), f)
	}
	return cur
}

func (m *M) delegate(creator, staker string, a uint64) *merr {
	if _, ok := m.Stakers[staker]; !ok {
		return fail("D01", "delegate to unknown staker")
	}
	m.op("delegate", staker, creator)
	m.performDelegation(staker, creator, a)
	if tooBig(a) || !m.send(creator, mod(mDelegation), kyve(a)) {
		return fail("D01", "delegate without funds")
	}
	return nil
}

func (m *M) undelegate(creator, staker string, a uint64) *merr {
	cur, ok := m.Del[sd{staker, creator}]
	if !ok {
		return fail("D03", "undelegate by non-delegator")
	}
	if f := m.fuzz[fzDel(staker, creator)]; f > 0 && a+uint64(f) >= cur && a <= cur+uint64(f) {
		m.ambig = true
	}
	if a > cur {
		return fail("D03", "undelegate more than delegated")
	}
	m.op("unbond", staker, creator)
	m.UnbQ = append(full(m.UnbQ), Unb{staker, creator, a, uint64(m.now)})
	return nil
}

func (m *M) redelegate(creator, from, to string, a uint64) *merr {
	cur, ok := m.Del[sd{from, creator}]
	if !ok {
		return fail("D04", "redelegate by non-delegator")
	}
	if _, ok := m.Stakers[to]; !ok {
		return fail("D04", "redelegate to unknown staker")
	}
	active := false
	for k := range m.Vals {
		if k.S == to {
			active = true
		}
	}
	if !active {
		return fail("D04", "redelegate to inactive staker")
	}
	if f := m.fuzz[fzDel(from, creator)]; f > 0 && a+uint64(f) >= cur && a <= cur+uint64(f) {
		m.ambig = true
	}
	if a > cur {
		return fail("D04", "redelegate more than delegated")
	}
	m.op("redelegate", from, to, creator)
	var live []uint64
	for _, t := range m.Cool[creator] {
		if m.now-int64(t) <= int64(m.D.RedelegationCooldown) {
			live = append(live, t)
		}
	}
	if len(live) >= int(m.D.RedelegationMaxAmount) {
		return fail("D04", "no redelegation slot")
	}
	if n := len(live); n > 0 && live[n-1] == uint64(m.now) {
		return fail("D04", "second redelegation in the same second")
	}
	m.Cool[creator] = append(full(live), uint64(m.now))
	m.performUndelegation(from, creator, a)
	m.performDelegation(to, creator, a)
	return nil
}

func (m *M) withdrawMsg(creator, staker string) *merr {
	if _, ok := m.Del[sd{staker, creator}]; !ok {
		return fail("D02", "withdraw by non-delegator")
	}
	m.withdraw(staker, creator)
	return nil
}

// payout credits rewards to the delegators of a staker.
func (m *M) payout(s string, cs sdk.Coins, from string) bool {
	if len(cs) == 0 {
		return true
	}
	tot, ok := m.DelTotal[s]
	if !ok || tot == 0 {
		return false
	}
	if !m.send(from, mod(mDelegation), cs) {
		return false
	}
	m.op("payout", s)
	m.fz("rew/"+s, 2)
	if m.slashed[s] {
		// the chain pays on the exact slashed stake, of which only the integer
		// part is visible
		for _, c := range cs {
			e := c.Amount.MulRaw(2 + 2*m.fuzz[fzTot(s)]).Quo(math.NewIntFromUint64(tot)).AddRaw(1)
			if e.GT(math.NewInt(1 << 50)) {
				m.poison = true
				continue
			}
			m.fz("rewof/"+s+"/"+c.Denom, e.Int64())
		}
	}
	for _, k := range m.delegatorsOf(s) {
		r := m.Rew[k]
		for _, c := range cs {
			r = r.Add(one(c.Denom, c.Amount.Mul(math.NewIntFromUint64(m.Del[k])).Quo(math.NewIntFromUint64(tot)))...)
		}
		m.Rew[k] = r
	}
	return true
}

func (m *M) slash(pool uint64, s string, t delegationtypes.SlashType) {
	tot, ok := m.DelTotal[s]
	if !ok {
		return
	}
	var f math.LegacyDec
	switch t {
	case delegationtypes.SLASH_TYPE_TIMEOUT:
		f = m.D.TimeoutSlash
	case delegationtypes.SLASH_TYPE_VOTE:
		f = m.D.VoteSlash
	default:
		f = m.D.UploadSlash
	}
	amt := decMulTrunc(f, math.NewIntFromUint64(tot)).Uint64()
	m.DelTotal[s] = tot - amt
	for _, k := range m.delegatorsOf(s) {
		cur := m.Del[k]
		m.Del[k] = cur - f.MulInt(math.NewIntFromUint64(cur)).Ceil().TruncateInt().Uint64()
		m.fz(fzDel(k.S, k.D), 2)
	}
	m.fz("rew/"+s, 2)
	m.treasury(mod(mDelegation), kyve(amt))
	m.op("slash", s, poolSubj(pool))
	m.slashed[s] = true
	m.cell("slash/%s/f0=%v/f1=%v", t, f.IsZero(), f.Equal(math.LegacyOneDec()))
	m.Evs = append(m.Evs, &delegationtypes.EventSlash{PoolId: pool, Staker: s, Amount: amt, SlashType: t})
}

func (m *M) processUnbonding() {
	for len(m.UnbQ) > 0 && m.UnbQ[0].Created+m.D.UnbondingDelegationTime <= uint64(m.now) {
		e := m.UnbQ[0]
		m.UnbQ = full(m.UnbQ[1:])
		m.op("unbonded", e.Staker, e.Delegator)
		cur := m.Del[sd{e.Staker, e.Delegator}]
		m.cell("unbonded/full=%v/short=%v", cur == e.Amount, cur < e.Amount)
		a := m.performUndelegation(e.Staker, e.Delegator, e.Amount)
		m.send(mod(mDelegation), e.Delegator, kyve(a))
	}
}

// ---------------------------------------------------------------- stakers

// Published slot limits of a pool.
const (
	maxStakers = 50
	maxFunders = 50
)

func (m *M) createStaker(creator string, amount uint64, commission math.LegacyDec) *merr {
	if _, ok := m.Stakers[creator]; ok {
		return fail("S03", "staker created twice")
	}
	m.op("createstaker", creator)
	m.Stakers[creator] = &stakerstypes.Staker{Address: creator, Commission: commission}
	return m.delegate(creator, creator, amount)
}

func (m *M) leavePool(pool uint64, s string) {
	m.op("left", s, poolSubj(pool))
	delete(m.Vals, vk{pool, s})
	// a pending leave request for a membership which ended otherwise is void
	for i, e := range m.LeaveQ {
		if e.Staker == s && e.Pool == pool {
			m.LeaveQ = append(full(m.LeaveQ[:i]), m.LeaveQ[i+1:]...)
			break
		}
	}
}

func (m *M) joinPool(x *stakerstypes.MsgJoinPool) *merr {
	p, ok := m.Pools[x.PoolId]
	if !ok {
		return fail("S01", "join unknown pool")
	}
	if p.Disabled {
		return fail("S01", "join disabled pool")
	}
	if _, ok := m.Stakers[x.Creator]; !ok {
		return fail("S01", "join by non-staker")
	}
	if x.Creator == x.Valaddress {
		return fail("S01", "own address as pool address")
	}
	if m.isMember(x.PoolId, x.Creator) {
		return fail("S01", "joined twice")
	}
	m.op("join", x.Creator, poolSubj(x.PoolId))
	if mem := m.members(x.PoolId); len(mem) >= maxStakers {
		low := mem[0]
		for _, s := range mem {
			if m.DelTotal[s] < m.DelTotal[low] {
				low = s
			}
		}
		m.cell("join/full/cmp=%d", cmpU(m.DelTotal[x.Creator], m.DelTotal[low]))
		if m.DelTotal[x.Creator] <= m.DelTotal[low] {
			return fail("S01", "pool full and not stronger than the weakest")
		}
		m.op("displaced", low, poolSubj(x.PoolId))
		m.leavePool(x.PoolId, low)
	}
	for k, v := range m.Vals {
		if v.Valaddress == x.Valaddress && (k.S == x.Creator || k.P == x.PoolId) {
			return fail("S01", "pool address already used")
		}
	}
	m.Vals[vk{x.PoolId, x.Creator}] = &stakerstypes.Valaccount{PoolId: x.PoolId, Staker: x.Creator, Valaddress: x.Valaddress}
	if tooBig(x.Amount) || !m.send(x.Creator, x.Valaddress, kyve(x.Amount)) {
		return fail("S01", "join without funds")
	}
	return nil
}

func cmpU(a, b uint64) int {
	if a < b {
		return -1
	} else if a > b {
		return 1
	}
	return 0
}

func (m *M) leaveMsg(creator string, pool uint64) *merr {
	v, ok := m.Vals[vk{pool, creator}]
	if !ok {
		return fail("S02", "leave without membership")
	}
	for _, e := range m.LeaveQ {
		if e.Staker == creator && e.Pool == pool {
			return fail("S02", "leave already pending")
		}
	}
	m.op("leaving", creator, poolSubj(pool))
	c := *v
	c.IsLeaving = true
	m.Vals[vk{pool, creator}] = &c
	m.LeaveQ = append(full(m.LeaveQ), LeaveE{creator, pool, m.now})
	return nil
}

func (m *M) updateCommission(creator string, c math.LegacyDec) *merr {
	if _, ok := m.Stakers[creator]; !ok {
		return fail("S03", "commission change by non-staker")
	}
	m.op("commissionreq", creator)
	var q []CommE
	for _, e := range m.CommQ {
		if e.Staker != creator {
			q = append(q, e)
		}
	}
	m.CommQ = append(q, CommE{creator, c, m.now})
	return nil
}

func (m *M) processCommissionQueue() {
	for len(m.CommQ) > 0 && m.CommQ[0].Created+int64(m.S.CommissionChangeTime) <= m.now {
		e := m.CommQ[0]
		m.CommQ = full(m.CommQ[1:])
		if s, ok := m.Stakers[e.Staker]; ok {
			c := *s
			c.Commission = e.Commission
			m.Stakers[e.Staker] = &c
		}
		m.op("commission", e.Staker)
	}
}

func (m *M) processLeaveQueue() {
	for len(m.LeaveQ) > 0 && m.LeaveQ[0].Created+int64(m.S.LeavePoolTime) <= m.now {
		e := m.LeaveQ[0]
		m.op("leavedue", e.Staker, poolSubj(e.Pool))
		m.leavePool(e.Pool, e.Staker)
		if len(m.LeaveQ) > 0 && m.LeaveQ[0] == e {
			m.LeaveQ = full(m.LeaveQ[1:])
		}
	}
}

func (m *M) claimCommission(creator string, cs sdk.Coins) *merr {
	s, ok := m.Stakers[creator]
	if !ok {
		return fail("S03", "claim by non-staker")
	}
	if !cs.IsAllLTE(s.CommissionRewards) {
		return fail("S03", "claim more than earned")
	}
	m.op("claimcommission", creator)
	if !m.send(mod(mStakers), creator, cs) {
		return fail("S03", "stakers module cannot pay")
	}
	c := *s
	c.CommissionRewards = s.CommissionRewards.Sub(cs...)
	m.Stakers[creator] = &c
	return nil
}
