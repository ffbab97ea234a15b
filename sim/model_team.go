package main

import (
	"cosmossdk.io/math"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
)

// Vesting schedule as published: one year cliff, three years vesting, two
// years unlocking.
const year = uint64(365 * 24 * 3600)

func teamVested(a *teamtypes.TeamVestingAccount, t uint64) uint64 {
	end := t
	if a.Clawback > 0 && a.Clawback < t {
		end = a.Clawback
	}
	if end <= a.Commencement {
		return 0
	}
	d := end - a.Commencement
	switch {
	case d < year:
		return 0
	case d < (3 * year):
		return muldiv(a.TotalAllocation, d, (3 * year))
	}
	return a.TotalAllocation
}

func muldiv(a, b, c uint64) uint64 {
	return math.NewIntFromUint64(a).Mul(math.NewIntFromUint64(b)).Quo(math.NewIntFromUint64(c)).Uint64()
}

// teamMax is what the account can vest at most.
func teamMax(a *teamtypes.TeamVestingAccount) uint64 {
	return teamVested(a, a.Commencement+(3*year))
}

func teamUnlocked(a *teamtypes.TeamVestingAccount, t uint64) uint64 {
	start := max(a.Commencement, teamtypes.TGE) + year
	if t < start {
		return 0
	}
	if t-start < (2 * year) {
		return muldiv(teamVested(a, t), t-start, (2 * year))
	}
	return teamMax(a)
}

func teamClaimable(a *teamtypes.TeamVestingAccount, t uint64) uint64 {
	if u := teamUnlocked(a, t); u > a.UnlockedClaimed {
		return u - a.UnlockedClaimed
	}
	return 0
}

func teamIssued(s *State) math.Int {
	t := math.ZeroInt()
	for i := range s.Team {
		t = t.Add(math.NewIntFromUint64(teamMax(&s.Team[i])))
	}
	return t
}

// teamRequired is what the team module has to hold.
func teamRequired(s *State) math.Int {
	u := math.NewIntFromUint64
	t := u(teamtypes.TEAM_ALLOCATION).Add(u(s.Auth.TotalRewards)).Sub(u(s.Auth.RewardsClaimed))
	for i := range s.Team {
		a := &s.Team[i]
		t = t.Add(u(a.TotalRewards)).Sub(u(a.RewardsClaimed)).Sub(u(a.UnlockedClaimed))
	}
	return t
}

// teamProvision is the team's share of the coins minted in this block.
func (m *M) teamProvision(minted math.Int) math.Int {
	supply := m.Supply[denom].Sub(minted)
	return math.LegacyNewDecFromInt(teamRequired(m.State)).Quo(math.LegacyNewDecFromInt(supply)).MulInt(minted).TruncateInt()
}

func (m *M) teamInflation(minted math.Int) {
	prov := m.teamProvision(minted)
	rest := prov
	for i := range m.Team {
		a := &m.Team[i]
		open := math.LegacyNewDecFromInt(math.NewIntFromUint64(teamVested(a, uint64(m.now)) - a.UnlockedClaimed))
		r := open.Quo(math.LegacyNewDecFromInt(math.NewIntFromUint64(teamtypes.TEAM_ALLOCATION))).MulInt(prov).TruncateInt()
		a.TotalRewards += r.Uint64()
		rest = rest.Sub(r)
		m.cell("team/vesting=%v/claimed=%v/claw=%v", cmpU(teamVested(a, uint64(m.now)), teamMax(a)), a.UnlockedClaimed > 0, a.Clawback > 0)
	}
	m.Auth.TotalRewards += rest.Uint64()
	m.send(mod(mFeeCollector), mod(mTeam), one(denom, prov))
}

func teamAuth(a string, bcp bool) bool {
	return a == teamtypes.FOUNDATION_ADDRESS || (bcp && a == teamtypes.BCP_ADDRESS)
}

func (m *M) teamAccount(id uint64) *teamtypes.TeamVestingAccount {
	for i := range m.Team {
		if m.Team[i].Id == id {
			return &m.Team[i]
		}
	}
	return nil
}

func (m *M) teamPay(to string, amount uint64) *merr {
	if tooBig(amount) || blockedAddr(to) || !validAddr(to) || !m.send(mod(mTeam), to, kyve(amount)) {
		return fail("T01", "team module cannot pay")
	}
	return nil
}

func (m *M) teamCreate(x *teamtypes.MsgCreateTeamVestingAccount) *merr {
	if !teamAuth(x.Authority, true) {
		return fail("T01", "not a team authority")
	}
	if x.TotalAllocation == 0 || x.Commencement == 0 {
		return fail("T01", "empty vesting account")
	}
	if teamIssued(m.State).Add(math.NewIntFromUint64(x.TotalAllocation)).GT(math.NewIntFromUint64(teamtypes.TEAM_ALLOCATION)) {
		return fail("T01", "more than the team allocation")
	}
	m.op("team")
	m.Team = append(m.Team, teamtypes.TeamVestingAccount{Id: m.TeamN, TotalAllocation: x.TotalAllocation, Commencement: x.Commencement})
	m.TeamN++
	return nil
}

func (m *M) teamClawback(x *teamtypes.MsgClawback) *merr {
	if !teamAuth(x.Authority, true) {
		return fail("T01", "not a team authority")
	}
	a := m.teamAccount(x.Id)
	if a == nil {
		return fail("T01", "unknown vesting account")
	}
	if x.Clawback > 0 && (x.Clawback < a.Commencement || x.Clawback < a.LastClaimedTime) {
		return fail("T01", "clawback before start or last claim")
	}
	m.cell("team/clawback/reset=%v/later=%d", x.Clawback == 0, cmpU(x.Clawback, a.Clawback))
	a.Clawback = x.Clawback
	if teamIssued(m.State).GT(math.NewIntFromUint64(teamtypes.TEAM_ALLOCATION)) {
		return fail("T01", "revoked clawback exceeds the team allocation")
	}
	m.op("team")
	return nil
}

func (m *M) teamClaimUnlocked(x *teamtypes.MsgClaimUnlocked) *merr {
	if !teamAuth(x.Authority, true) {
		return fail("T01", "not a team authority")
	}
	a := m.teamAccount(x.Id)
	if a == nil {
		return fail("T01", "unknown vesting account")
	}
	if x.Amount > teamClaimable(a, uint64(m.now)) {
		return fail("T01", "claims more than unlocked")
	}
	m.op("team")
	m.cell("team/claimunlocked/all=%v", x.Amount == teamClaimable(a, uint64(m.now)))
	a.UnlockedClaimed += x.Amount
	a.LastClaimedTime = uint64(m.now)
	return m.teamPay(x.Recipient, x.Amount)
}

func (m *M) teamClaimRewards(x *teamtypes.MsgClaimAccountRewards) *merr {
	if !teamAuth(x.Authority, true) {
		return fail("T02", "not a team authority")
	}
	a := m.teamAccount(x.Id)
	if a == nil {
		return fail("T02", "unknown vesting account")
	}
	if x.Amount > a.TotalRewards-a.RewardsClaimed {
		return fail("T02", "claims more rewards than credited")
	}
	m.op("teamrew")
	a.RewardsClaimed += x.Amount
	return m.teamPay(x.Recipient, x.Amount)
}

func (m *M) teamClaimAuthority(x *teamtypes.MsgClaimAuthorityRewards) *merr {
	if !teamAuth(x.Authority, false) {
		return fail("T02", "not the foundation")
	}
	if x.Amount > m.Auth.TotalRewards-m.Auth.RewardsClaimed {
		return fail("T02", "claims more authority rewards than credited")
	}
	m.op("teamrew")
	m.Auth.RewardsClaimed += x.Amount
	return m.teamPay(x.Recipient, x.Amount)
}
