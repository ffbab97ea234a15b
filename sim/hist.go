package main

import (
	"fmt"
	"reflect"
	"sort"

	"cosmossdk.io/math"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

// Hist holds what the history checks need. They do not use the model; they
// only look at what the chain shows after every block.
type Hist struct {
	redel   map[string][]int64 // successful redelegations by delegator
	dPar    string
	turns   map[uint64]*turnWin
	calmW   map[uint64]*calmWin
	prevUnb map[string]int
}

// turnWin is a window of rounds with unchanged members and stakes.
type turnWin struct {
	key   string
	n     int
	count map[string]int
	stake map[string]uint64
	clean bool
}

type calmWin struct {
	start, bundles, blocks int
	ok                     bool
}

func newHist() *Hist {
	return &Hist{redel: map[string][]int64{}, turns: map[uint64]*turnWin{}, calmW: map[uint64]*calmWin{}}
}

func (hs *Hist) observe(w *World, prev, st *State, ins []*TxIn, res *abci.ResponseFinalizeBlock, slashed bool) {
	now := w.now()
	v := &M{State: st, h: w.h, now: now, fuzz: map[string]int64{}} // only used for canRun

	// B01: append-only, gap-free bundle chain
	for id, p := range st.Pools {
		fin := st.Fin[id]
		old := prev.Fin[id]
		if len(fin) < len(old) {
			w.violate("B01", "pool %d lost finalized bundles: %d -> %d", id, len(old), len(fin))
		}
		for i := range fin {
			if i < len(old) && !pbEq(&fin[i], &old[i]) {
				w.violate("B01", "pool %d finalized bundle %d changed", id, i)
			}
			if fin[i].Id != uint64(i) {
				w.violate("B01", "pool %d finalized bundle at position %d has id %d", id, i, fin[i].Id)
			}
			var from uint64
			if i > 0 {
				from = fin[i-1].ToIndex
			}
			if fin[i].FromIndex != from || fin[i].ToIndex <= from {
				w.violate("B01", "pool %d bundle %d covers %d..%d after %d", id, i, fin[i].FromIndex, fin[i].ToIndex, from)
			}
			if s := fin[i].StakeSecurity; s != nil && i >= len(old) {
				if s.ValidVotePower*2 <= s.TotalVotePower {
					w.violate("B02", "pool %d bundle %d finalized with %d of %d stake", id, i, s.ValidVotePower, s.TotalVotePower)
				}
			}
		}
		if n := len(fin); n > 0 {
			l := fin[n-1]
			if p.TotalBundles != uint64(n) || p.CurrentIndex != l.ToIndex || p.CurrentKey != l.ToKey || p.CurrentSummary != l.BundleSummary {
				w.violate("B01", "pool %d progress (%d bundles, index %d, key %s) is not the end of its bundle chain (%d, %d, %s)", id, p.TotalBundles, p.CurrentIndex, p.CurrentKey, n, l.ToIndex, l.ToKey)
			}
		} else if p.TotalBundles != 0 || p.CurrentIndex != 0 || p.CurrentKey != "" {
			w.violate("B01", "pool %d has progress without finalized bundles", id)
		}
	}

	// B03: one vote per validator
	for id, p := range st.Props {
		seen := map[string]bool{}
		for _, l := range [][]string{p.VotersValid, p.VotersInvalid, p.VotersAbstain} {
			for _, s := range l {
				if seen[s] {
					w.violate("B03", "pool %d: %s votes twice in a round", id, s)
				}
				seen[s] = true
			}
		}
		if p.StorageId == "" && len(seen) > 0 {
			w.violate("B03", "pool %d has votes without a bundle", id)
		}
	}

	// B05: no stuck round
	for id, pool := range st.Pools {
		if v.canRun(id) != runOK || slashed {
			continue
		}
		p := v.proposal(id)
		if uint64(now) >= p.UpdatedAt+pool.UploadInterval+st.B.UploadTimeout {
			w.violate("B05", "pool %d is stuck: round of %d not ended at %d (interval %d, timeout %d, next uploader %q)", id, p.UpdatedAt, now, pool.UploadInterval, st.B.UploadTimeout, p.NextUploader)
		}
	}
	hs.fairness(w, prev, st, v)

	// S01: slots and addresses
	byVal := map[string]string{}
	cnt := map[uint64]int{}
	for _, k := range sortedVals(st) {
		val := st.Vals[k]
		cnt[k.P]++
		if _, ok := st.Stakers[k.S]; !ok {
			w.violate("S01", "pool %d has member %s which is no staker", k.P, k.S)
		}
		for _, key := range []string{fmt.Sprint("p", k.P, val.Valaddress), "s" + k.S + val.Valaddress} {
			if _, ok := byVal[key]; ok {
				w.violate("S01", "pool address %s used twice in pool %d or by staker %s", val.Valaddress, k.P, k.S)
			}
			byVal[key] = k.S
		}
		if val.Points >= st.B.MaxPoints && prev.B.MaxPoints == st.B.MaxPoints && prevPoints(prev, k) < val.Points {
			w.violate("B06", "pool %d member %s has %d points with a limit of %d", k.P, k.S, val.Points, st.B.MaxPoints)
		}
		if p := st.Pools[k.P]; p == nil || p.Disabled {
			w.violate("P02", "member %s of pool %d which does not exist or is disabled", k.S, k.P)
		}
		if val.IsLeaving {
			ok := false
			for _, e := range st.LeaveQ {
				ok = ok || e.Staker == k.S && e.Pool == k.P
			}
			if !ok {
				w.violate("S02", "member %s of pool %d is leaving without a leave request", k.S, k.P)
			}
		}
	}
	for id, n := range cnt {
		if n > maxStakers {
			w.violate("S01", "pool %d has %d validators", id, n)
		}
	}
	for i, e := range st.LeaveQ {
		if now >= e.Created+int64(st.S.LeavePoolTime) && e.Created < now && i == 0 && prev.S.LeavePoolTime == st.S.LeavePoolTime {
			w.violate("S02", "leave request of %s in pool %d is overdue", e.Staker, e.Pool)
		}
	}
	for i, e := range st.CommQ {
		if now >= e.Created+int64(st.S.CommissionChangeTime) && e.Created < now && i == 0 && prev.S.CommissionChangeTime == st.S.CommissionChangeTime {
			w.violate("S02", "commission change of %s is overdue", e.Staker)
		}
	}
	for i, e := range st.UnbQ {
		if uint64(now) >= e.Created+st.D.UnbondingDelegationTime && e.Created < uint64(now) && i == 0 && prev.D.UnbondingDelegationTime == st.D.UnbondingDelegationTime {
			w.violate("D03", "unbonding of %s at %s is overdue", e.Delegator, e.Staker)
		}
	}
	for _, s := range st.Stakers {
		if s.Commission.IsNil() || s.Commission.IsNegative() || s.Commission.GT(math.LegacyOneDec()) {
			w.violate("S03", "commission of %s is %s", s.Address, s.Commission)
		}
	}

	// F01: slots and active funders
	for id, l := range st.FState {
		if len(l) > maxFunders {
			w.violate("F01", "pool %d has %d active funders", id, len(l))
		}
		for i, a := range l {
			if has(l[:i], a) {
				w.violate("F01", "funder %s active twice in pool %d", a, id)
			}
		}
	}
	held := sdk.Coins{}
	for _, k := range sortedFundings(st) {
		f := st.Fundings[k]
		if f.Amounts.IsAnyNegative() {
			w.violate("F01", "negative funding %v", f)
		}
		held = held.Add(clampCoins(f.Amounts)...)
		if has(st.FState[k.P], k.F) != !f.Amounts.IsZero() {
			w.violate("F01", "funder %s of pool %d: active=%v with %s left", k.F, k.P, has(st.FState[k.P], k.F), f.Amounts)
		}
	}

	// D04: redelegation slots
	par := fmt.Sprint(st.D.RedelegationCooldown, st.D.RedelegationMaxAmount)
	if par != hs.dPar {
		hs.dPar, hs.redel = par, map[string][]int64{}
	}
	for i, in := range ins {
		if res.TxResults[i].Code != 0 {
			continue
		}
		for _, m := range leaves(in.Msgs) {
			if x, ok := m.(*delegationtypes.MsgRedelegate); ok {
				hs.redel[x.Creator] = append(hs.redel[x.Creator], now)
			}
		}
	}
	for who, l := range hs.redel {
		n := 0
		for _, t := range l {
			if t > now-int64(st.D.RedelegationCooldown) {
				n++
			}
		}
		if n > int(st.D.RedelegationMaxAmount) {
			w.violate("D04", "%s redelegated %d times within %d seconds", who, n, st.D.RedelegationCooldown)
		}
	}

	// backing of what the modules owe
	bal := func(a, d string) math.Int { return orZero(st.Bal[bk{a, d}]) }
	owe := sdk.Coins{}
	for _, s := range sortedKeys(st.Stakers) {
		owe = owe.Add(clampCoins(st.Stakers[s].CommissionRewards)...)
	}
	del := map[string]math.Int{denom: math.ZeroInt()}
	sum := map[string]uint64{}
	num := map[string]uint64{}
	for k, a := range st.Del {
		del[denom] = del[denom].Add(math.NewIntFromUint64(a))
		sum[k.S] += a
		num[k.S]++
		for _, c := range st.Rew[k] {
			del[c.Denom] = orZero(del[c.Denom]).Add(c.Amount)
		}
	}
	for _, d := range keys2(st.Supply, nil) {
		if b := bal(mod(mFunders), d); b.LT(held.AmountOf(d)) {
			w.violate("F01", "funders module holds %s %s but owes %s", b, d, held.AmountOf(d))
			w.violate("X07", "funders module holds %s %s but owes %s", b, d, held.AmountOf(d))
		}
		if b := bal(mod(mStakers), d); b.LT(owe.AmountOf(d)) {
			w.violate("S03", "stakers module holds %s %s but owes %s commission", b, d, owe.AmountOf(d))
			w.violate("X07", "stakers module holds %s %s but owes %s commission", b, d, owe.AmountOf(d))
		}
		if b := bal(mod(mDelegation), d); b.LT(orZero(del[d])) {
			w.violate("D01", "delegation module holds %s %s but owes %s", b, d, del[d])
			w.violate("D02", "delegation module holds %s %s but owes %s", b, d, del[d])
			w.violate("X07", "delegation module holds %s %s but owes %s", b, d, del[d])
		}
		t := math.ZeroInt()
		for k, a := range st.Bal {
			if k.D == d {
				t = t.Add(a)
			}
		}
		if !t.Equal(st.Supply[d]) {
			w.violate("X07", "balances of %s add up to %s but the supply is %s", d, t, st.Supply[d])
		}
	}
	for _, s := range keys2(st.DelTotal, num) {
		// a slash may leave one unit of rounding dust per delegator and slash
		if st.DelCount[s] != num[s] {
			w.violate("D01", "%s has %d delegators, recorded are %d", s, num[s], st.DelCount[s])
		}
		if st.DelTotal[s] < sum[s] {
			w.violate("D01", "total delegation %d of %s is less than the sum %d of its delegations", st.DelTotal[s], s, sum[s])
		}
		if num[s] == 0 && st.DelTotal[s] != 0 {
			w.violate("D01", "%s has total delegation %d without delegators", s, st.DelTotal[s])
		}
	}

	// team
	if b := bal(mod(mTeam), denom); b.LT(teamRequired(st)) {
		w.violate("T01", "team module holds %s but owes %s", b, teamRequired(st))
		w.violate("T02", "team module holds %s but owes %s", b, teamRequired(st))
	}
	for i := range st.Team {
		a := &st.Team[i]
		if a.UnlockedClaimed > teamUnlocked(a, uint64(now)) {
			w.violate("T01", "team account %d claimed %d with %d unlocked", a.Id, a.UnlockedClaimed, teamUnlocked(a, uint64(now)))
		}
		if a.RewardsClaimed > a.TotalRewards {
			w.violate("T02", "team account %d claimed more rewards than it has", a.Id)
		}
	}
	if st.Auth.RewardsClaimed > st.Auth.TotalRewards {
		w.violate("T02", "team authority claimed more rewards than it has")
	}

	// X07: the pool module only forwards
	for d := range st.Supply {
		if b := bal(mod(mPool), d); !b.IsZero() {
			w.violate("B07", "pool module keeps %s %s", b, d)
		}
	}
	hs.calmObserve(w, prev, st, ins, res)
}

func prevPoints(s *State, k vk) uint64 {
	if v := s.Vals[k]; v != nil {
		return v.Points
	}
	return 0
}

func clampCoins(cs sdk.Coins) sdk.Coins {
	o := sdk.Coins{}
	for _, c := range cs {
		if c.Amount.IsPositive() {
			o = append(o, c)
		}
	}
	return o
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func sortedVals(s *State) []vk {
	var l []vk
	for k := range s.Vals {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].P < l[j].P || l[i].P == l[j].P && l[i].S < l[j].S })
	return l
}

func sortedFundings(s *State) []fk {
	var l []fk
	for k := range s.Fundings {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].P < l[j].P || l[i].P == l[j].P && l[i].F < l[j].F })
	return l
}

// fairness: while members and stakes of a pool stay the same, the numbers of
// turns stay close to the stake shares.
func (hs *Hist) fairness(w *World, prev, st *State, v *M) {
	for id := range st.Pools {
		p, o := st.Props[id], prev.Props[id]
		key := ""
		mem := membersOf(st, id)
		stake := map[string]uint64{}
		for _, s := range mem {
			stake[s] = st.DelTotal[s]
			key += fmt.Sprintf("%s:%d;", s, st.DelTotal[s])
		}
		t := hs.turns[id]
		if t == nil || t.key != key {
			t = &turnWin{key: key, count: map[string]int{}, stake: stake, clean: true}
			hs.turns[id] = t
		}
		if p == nil || o == nil || p.UpdatedAt == o.UpdatedAt {
			continue
		}
		// a new round began; selections with restricted candidates (not all
		// members voted valid, skips) do not count for proportionality
		if p.NextUploader == "" || v.canRun(id) != runOK {
			hs.turns[id] = nil
			continue
		}
		if stake[p.NextUploader] == 0 {
			if has(mem, p.NextUploader) {
				hs.turns[id] = nil // claimed by a validator without stake
			}
			continue
		}
		if len(st.Fin[id]) == len(prev.Fin[id]) && o.StorageId != "" || len(o.VotersValid) != len(mem) && o.StorageId != "" || o.NextUploader == "" {
			hs.turns[id] = nil
			continue
		}
		t.n++
		t.count[p.NextUploader]++
		w.stats.Probes["fairness rounds"]++
		var total float64
		for _, x := range t.stake {
			total += float64(x)
		}
		n := float64(len(mem))
		for s, x := range t.stake {
			want := float64(x) / total * float64(t.n)
			if d := float64(t.count[s]) - want; d > n+3 || d < -(n+3) {
				w.violate("B04", "pool %d: %s had %d of %d turns with a stake share of %.4f", id, s, t.count[s], t.n, float64(x)/total)
			}
		}
	}
}

// ---------------------------------------------------------------- liveness

// calm opens a window in which no faults are injected: from now on every
// obligation of every validator that the chain state shows is met in the next
// block. If that remains true (checked here, not assumed), every pool that can
// run during the whole window has to make progress.
func (hs *Hist) calm(w *World) {
	hs.calmW = map[uint64]*calmWin{}
	for id := range w.st.Pools {
		hs.calmW[id] = &calmWin{ok: true, bundles: len(w.st.Fin[id])}
	}
}

// obligations lists what honest validators do next in a pool.
type duty struct {
	kind   string // claim, submit, vote
	pool   uint64
	staker string
}

func duties(s *State, id uint64, now int64) []duty {
	v := &M{State: s, now: now, fuzz: map[string]int64{}}
	if v.canRun(id) != runOK {
		return nil
	}
	p, pool := v.proposal(id), s.Pools[id]
	mem := membersOf(s, id)
	var l []duty
	if p.NextUploader == "" {
		for _, a := range mem {
			if s.DelTotal[a] > 0 {
				return []duty{{"claim", id, a}}
			}
		}
		return nil
	}
	if p.StorageId != "" {
		for _, a := range mem {
			if !has(p.VotersValid, a) && !has(p.VotersInvalid, a) {
				l = append(l, duty{"vote", id, a})
			}
		}
	}
	if uint64(now) >= p.UpdatedAt+pool.UploadInterval && has(mem, p.NextUploader) {
		if p.StorageId == "" || v.distribution(id).Status != bundlestypes.BUNDLE_STATUS_NO_QUORUM {
			l = append(l, duty{"submit", id, p.NextUploader})
		}
	}
	return l
}

func (hs *Hist) calmObserve(w *World, prev, st *State, ins []*TxIn, res *abci.ResponseFinalizeBlock) {
	for id, c := range hs.calmW {
		if !c.ok {
			continue
		}
		v := &M{State: prev, now: w.now(), fuzz: map[string]int64{}}
		v2 := &M{State: st, now: w.now(), fuzz: map[string]int64{}}
		if v.canRun(id) != runOK || v2.canRun(id) != runOK {
			c.ok = false
			continue
		}
		if uint64(st.T-prev.T) < st.Pools[id].UploadInterval || !reflect.DeepEqual(membersOf(prev, id), membersOf(st, id)) {
			c.ok = false
			continue
		}
		var stake uint64
		for _, a := range membersOf(prev, id) {
			stake += prev.DelTotal[a]
		}
		if stake == 0 {
			c.ok = false // nobody has any stake, so there is no majority of it
			continue
		}
		done := map[duty]bool{}
		for i, in := range ins {
			if res.TxResults[i].Code != 0 {
				continue
			}
			for _, m := range leaves(in.Msgs) {
				switch x := m.(type) {
				case *bundlestypes.MsgClaimUploaderRole:
					done[duty{"claim", x.PoolId, x.Staker}] = true
				case *bundlestypes.MsgSubmitBundleProposal:
					done[duty{"submit", x.PoolId, x.Staker}] = true
				case *bundlestypes.MsgVoteBundleProposal:
					if x.Vote == bundlestypes.VOTE_TYPE_VALID {
						done[duty{"vote", x.PoolId, x.Staker}] = true
					}
				}
			}
		}
		for _, d := range duties(prev, id, w.now()) {
			if !done[d] {
				c.ok = false
			}
		}
		c.blocks++
		if w.verbose {
			fmt.Printf("    calm pool %d h%d: prev prop %v duties %v fin %d T %d\n", id, w.h, prev.Props[id], duties(prev, id, w.now()), len(st.Fin[id]), w.now())
		}
		if c.blocks >= calmBlocks {
			c.ok = false
			w.stats.Calm++
			if len(st.Fin[id]) == c.bundles {
				w.violate("B05", "pool %d made no progress although all its validators behaved for %d blocks", id, c.blocks)
			}
		}
	}
}

// calmBlocks is how long a pool may take, with blocks of at least an upload
// interval and every obligation met in the next block: finish the current round (dropped or evaluated), claim, submit,
// vote, evaluate.
const calmBlocks = 16
