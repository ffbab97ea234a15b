package main

import (
	"fmt"
	"reflect"
	"sort"
	"strings"

	"cosmossdk.io/math"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/gogoproto/proto"
)

// Diff is a difference between the predicted and the actual state.
type Diff struct {
	Props []string // properties concerned in any case
	Subj  []string // subjects, used to find the operations concerned
	Msg   string
}

// Violation is a broken property.
type Violation struct {
	Prop   string `json:"property"`
	Msg    string `json:"message"`
	Step   int    `json:"step"`
	Height int64  `json:"height"`
}

// opProps says which properties an operation is about.
var opProps = map[string]string{
	"delegate": "D01", "unbond": "D03", "unbonded": "D03 D01", "redelegate": "D04 D01", "withdraw": "D02", "payout": "D02 B07",
	"slash": "B06 D01", "join": "S01", "displaced": "S01", "left": "S01", "leaving": "S02", "leavedue": "S02",
	"commissionreq": "S02", "commission": "S02 S03", "commissionpaid": "B07 S03", "claimcommission": "S03",
	"createstaker": "S03", "metadata": "S03", "funder": "F01", "fund": "F01 F02", "fundkick": "F01", "defund": "F01",
	"charged": "F02 B07", "team": "T01", "teamrew": "T02", "createpool": "P01", "updatepool": "P01", "enable": "P01 P02",
	"disable": "P02 P01", "upgrade": "P02 P01", "upgrading": "P02", "point": "B06", "points0": "B06", "tally": "B02",
	"finalize": "B01 B02", "drop": "B02 B05", "vote": "B03", "submit": "B03 B01", "skip": "B03 B04", "claim": "B05 B03",
	"rr": "B04", "timeout": "B05", "nouploader": "B05 P02", "inflation": "P03", "send": "X07", "authz": "X03", "grant": "G01", "refund": "G01",
	"params": "P01", "proposal": "G02", "govvote": "G02",
}

// attribute lists the properties a difference breaks.
func attribute(m *M, d Diff) []string {
	set := map[string]bool{}
	for _, p := range d.Props {
		set[p] = true
	}
	subj := map[string]bool{}
	for _, s := range d.Subj {
		subj[s] = true
	}
	hit := func(o Op) bool {
		for _, s := range o.Subj {
			if subj[s] {
				return true
			}
		}
		return false
	}
	for _, o := range m.Ops {
		if hit(o) {
			for _, p := range strings.Fields(opProps[o.Kind]) {
				set[p] = true
			}
		}
	}
	for _, o := range m.Failed {
		if hit(o) {
			set["X03"] = true
		}
	}
	for _, o := range m.GovFailed {
		if hit(o) {
			set["G02"] = true
		}
	}
	delete(set, "")
	var l []string
	for p := range set {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

type differ struct {
	out []Diff
}

func (d *differ) add(props, msg string, subj ...string) {
	d.out = append(d.out, Diff{strings.Fields(props), subj, msg})
}

func (d *differ) eq(props, what string, want, got interface{}, subj ...string) {
	if !same(want, got) {
		d.add(props, fmt.Sprintf("%s: expected %s, chain has %s", what, show(want), show(got)), subj...)
	}
}

func show(v interface{}) string {
	if p, ok := v.(proto.Message); ok && !reflect.ValueOf(v).IsNil() {
		return proto.CompactTextString(p)
	}
	s := fmt.Sprintf("%v", v)
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return s
}

// same compares values; nil and empty slices are equal.
func same(a, b interface{}) bool {
	switch x := a.(type) {
	case math.Int:
		return x.Equal(b.(math.Int))
	case sdk.Coins:
		return coinsEq(x, b.(sdk.Coins))
	case proto.Message:
		y := b.(proto.Message)
		if reflect.ValueOf(a).IsNil() || reflect.ValueOf(b).IsNil() {
			return reflect.ValueOf(a).IsNil() == reflect.ValueOf(b).IsNil()
		}
		return pbEq(x, y)
	}
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.Kind() == reflect.Slice && va.Len() == 0 && vb.Len() == 0 {
		return true
	}
	return reflect.DeepEqual(a, b)
}

func pbEq(a, b proto.Message) bool {
	x, err := proto.Marshal(a)
	must(err)
	y, err := proto.Marshal(b)
	must(err)
	return string(x) == string(y)
}

func coinsEq(a, b sdk.Coins) bool {
	na, nb := 0, 0
	for _, c := range a {
		if !c.Amount.IsZero() {
			na++
			if !b.AmountOf(c.Denom).Equal(c.Amount) {
				return false
			}
		}
	}
	for _, c := range b {
		if !c.Amount.IsZero() {
			nb++
		}
	}
	return na == nb
}

func keys2[K comparable, V any](a, b map[K]V) []K {
	var l []K
	for k := range a {
		l = append(l, k)
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			l = append(l, k)
		}
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return l
}

func within(a, b math.Int, tol int64) bool {
	return a.Sub(b).Abs().LTE(math.NewInt(tol))
}

func u64within(a, b uint64, tol int64) bool {
	d := a - b
	if b > a {
		d = b - a
	}
	return d <= uint64(tol)
}

func sorted(l []string) []string {
	c := append([]string(nil), l...)
	sort.Strings(c)
	return c
}

// compare lists the differences between the model's prediction and the chain.
func compare(m *M, g *State) []Diff {
	d := &differ{}
	w := m.State
	fz := m.fuzz

	d.eq("P01", "bundles params", &w.B, &g.B, "params bundles")
	d.eq("P01", "delegation params", &w.D, &g.D, "params delegation")
	d.eq("P01", "funders params", &w.F, &g.F, "params funders")
	d.eq("P01", "global params", &w.G, &g.G, "params global")
	d.eq("P01", "pool params", &w.P, &g.P, "params pool")
	d.eq("P01", "stakers params", &w.S, &g.S, "params stakers")

	// pools and bundles
	d.eq("P01", "number of pools", w.PoolCount, g.PoolCount)
	for _, id := range keys2(w.Pools, g.Pools) {
		a, b, s := w.Pools[id], g.Pools[id], poolSubj(id)
		if a == nil || b == nil {
			d.add("P01", fmt.Sprintf("pool %d: expected to exist=%v, exists=%v", id, a != nil, b != nil), s)
			continue
		}
		what := func(f string) string { return fmt.Sprintf("pool %d %s", id, f) }
		d.eq("B01 B02", what("current key"), a.CurrentKey, b.CurrentKey, s)
		d.eq("B01 B02", what("current summary"), a.CurrentSummary, b.CurrentSummary, s)
		d.eq("B01 B02", what("current index"), a.CurrentIndex, b.CurrentIndex, s)
		d.eq("B01 B02", what("total bundles"), a.TotalBundles, b.TotalBundles, s)
		d.eq("P02 P01", what("disabled"), a.Disabled, b.Disabled, s)
		d.eq("P02", what("protocol"), &a.Proto, &b.Proto, s)
		d.eq("P02", what("upgrade plan"), &a.Plan, &b.Plan, s)
		x, y := a.Pool, b.Pool
		x.CurrentKey, x.CurrentSummary, x.CurrentIndex, x.TotalBundles, x.Disabled = y.CurrentKey, y.CurrentSummary, y.CurrentIndex, y.TotalBundles, y.Disabled
		d.eq("P01", what("settings"), &x, &y, s)
	}
	for _, id := range keys2(w.Props, g.Props) {
		s := poolSubj(id)
		if w.Props[id] == nil || g.Props[id] == nil {
			d.add("B03", fmt.Sprintf("pool %d bundle proposal record: expected=%v, exists=%v", id, w.Props[id] != nil, g.Props[id] != nil), s)
			continue
		}
		a, b := *w.Props[id], *g.Props[id]
		what := func(f string) string { return fmt.Sprintf("pool %d proposal %s", id, f) }
		d.eq("B04 B05", what("next uploader"), a.NextUploader, b.NextUploader, s)
		d.eq("B05", what("updated at"), a.UpdatedAt, b.UpdatedAt, s)
		d.eq("B02 B03", what("storage id"), a.StorageId, b.StorageId, s)
		d.eq("B02 B03", what("valid votes"), a.VotersValid, b.VotersValid, s)
		d.eq("B02 B03", what("invalid votes"), a.VotersInvalid, b.VotersInvalid, s)
		d.eq("B02 B03", what("abstain votes"), a.VotersAbstain, b.VotersAbstain, s)
		a.NextUploader, a.UpdatedAt, a.StorageId = b.NextUploader, b.UpdatedAt, b.StorageId
		a.VotersValid, a.VotersInvalid, a.VotersAbstain = b.VotersValid, b.VotersInvalid, b.VotersAbstain
		d.eq("B01 B03", what("content"), &a, &b, s)
	}
	for _, id := range keys2(w.Fin, g.Fin) {
		a, b, s := w.Fin[id], g.Fin[id], poolSubj(id)
		d.eq("B01 B02", fmt.Sprintf("pool %d number of finalized bundles", id), len(a), len(b), s)
		for i := 0; i < len(a) && i < len(b); i++ {
			d.eq("B01 B02", fmt.Sprintf("pool %d finalized bundle %d", id, i), &a[i], &b[i], s)
		}
	}
	for _, id := range keys2(w.RR, g.RR) {
		d.eq("B04", fmt.Sprintf("pool %d round robin progress", id), w.RR[id], g.RR[id], poolSubj(id))
	}

	// stakers
	for _, k := range keys2(w.Stakers, g.Stakers) {
		a, b := w.Stakers[k], g.Stakers[k]
		if a == nil || b == nil {
			d.add("S03", fmt.Sprintf("staker %s: expected to exist=%v, exists=%v", k, a != nil, b != nil), k)
			continue
		}
		d.eq("S02 S03", "staker "+k+" commission", a.Commission.String(), b.Commission.String(), k)
		d.eq("S03 B07", "staker "+k+" commission rewards", a.CommissionRewards, b.CommissionRewards, k)
		x, y := *a, *b
		x.Commission, x.CommissionRewards = y.Commission, y.CommissionRewards
		d.eq("S03", "staker "+k+" profile", &x, &y, k)
	}
	for _, k := range keys2(w.Vals, g.Vals) {
		a, b, s := w.Vals[k], g.Vals[k], poolSubj(k.P)
		if a == nil || b == nil {
			p := "S01"
			if a != nil {
				p = "S01 B06" // lost a member
			}
			d.add(p, fmt.Sprintf("pool %d member %s: expected=%v, is=%v", k.P, k.S, a != nil, b != nil), s, k.S)
			continue
		}
		d.eq("B06", fmt.Sprintf("pool %d member %s points", k.P, k.S), a.Points, b.Points, s, k.S)
		d.eq("S02", fmt.Sprintf("pool %d member %s leaving", k.P, k.S), a.IsLeaving, b.IsLeaving, s, k.S)
		x, y := *a, *b
		x.Points, x.IsLeaving = y.Points, y.IsLeaving
		d.eq("S01 B03", fmt.Sprintf("pool %d member %s", k.P, k.S), &x, &y, s, k.S)
	}
	d.eq("S02", "commission change queue", commStr(w.CommQ), commStr(g.CommQ))
	d.eq("S02", "leave queue", w.LeaveQ, g.LeaveQ)

	// delegation
	for _, k := range keys2(w.Del, g.Del) {
		a, oka := w.Del[k]
		b, okb := g.Del[k]
		tol := fz[fzDel(k.S, k.D)]
		if oka != okb && !u64within(a, b, tol) {
			d.add("D01", fmt.Sprintf("delegation %s -> %s: expected %d (%v), chain has %d (%v)", k.D, k.S, a, oka, b, okb), k.S, k.D)
		} else if !u64within(a, b, tol) {
			d.add("D01", fmt.Sprintf("delegation %s -> %s: expected %d, chain has %d", k.D, k.S, a, b), k.S, k.D)
		}
	}
	for _, k := range keys2(w.Rew, g.Rew) {
		a, b := w.Rew[k], g.Rew[k]
		tol := fz["rew/"+k.S] + fz["rew/"+k.S+"/"+k.D]
		for _, dn := range simDenoms {
			if !within(a.AmountOf(dn), b.AmountOf(dn), tol+fz["rewof/"+k.S+"/"+dn]) {
				d.add("D02", fmt.Sprintf("outstanding rewards of %s at %s in %s: expected %s, chain has %s", k.D, k.S, dn, a.AmountOf(dn), b.AmountOf(dn)), k.S, k.D)
			}
		}
	}
	for _, k := range keys2(w.DelTotal, g.DelTotal) {
		if a, b := w.DelTotal[k], g.DelTotal[k]; !u64within(a, b, fz[fzTot(k)]) {
			d.add("D01", fmt.Sprintf("total delegation of %s: expected %d, chain has %d", k, a, b), k)
		}
		if a, b := w.DelCount[k], g.DelCount[k]; a != b && fz[fzTot(k)] == 0 {
			d.add("D01", fmt.Sprintf("delegator count of %s: expected %d, chain has %d", k, a, b), k)
		}
	}
	d.eq("D03", "unbonding queue", w.UnbQ, g.UnbQ)
	for _, k := range keys2(w.Cool, g.Cool) {
		d.eq("D04", "redelegation cooldown of "+k, w.Cool[k], g.Cool[k], k)
	}

	// funders
	for _, k := range keys2(w.Funders, g.Funders) {
		d.eq("F01", "funder "+k, w.Funders[k], g.Funders[k], k)
	}
	for _, k := range keys2(w.Fundings, g.Fundings) {
		a, b, s := w.Fundings[k], g.Fundings[k], poolSubj(k.P)
		if a == nil || b == nil {
			d.add("F01", fmt.Sprintf("funding %v: expected to exist=%v, exists=%v", k, a != nil, b != nil), s, k.F)
			continue
		}
		what := fmt.Sprintf("funding of %s in pool %d ", k.F, k.P)
		d.eq("F01 F02", what+"remaining", a.Amounts, b.Amounts, s, k.F)
		d.eq("F01 F02", what+"per bundle", a.AmountsPerBundle, b.AmountsPerBundle, s, k.F)
		d.eq("F01 F02", what+"total funded", a.TotalFunded, b.TotalFunded, s, k.F)
	}
	for _, id := range keys2(w.FState, g.FState) {
		d.eq("F01 F02", fmt.Sprintf("active funders of pool %d", id), sorted(w.FState[id]), sorted(g.FState[id]), poolSubj(id))
	}

	// team
	d.eq("T02", "team authority", &w.Auth, &g.Auth)
	d.eq("T01", "team account count", w.TeamN, g.TeamN)
	d.eq("T01", "team accounts", len(w.Team), len(g.Team))
	for i := 0; i < len(w.Team) && i < len(g.Team); i++ {
		a, b := w.Team[i], g.Team[i]
		d.eq("T02", fmt.Sprintf("team account %d rewards", a.Id), a.TotalRewards, b.TotalRewards)
		d.eq("T02", fmt.Sprintf("team account %d claimed rewards", a.Id), a.RewardsClaimed, b.RewardsClaimed)
		a.TotalRewards, a.RewardsClaimed = b.TotalRewards, b.RewardsClaimed
		d.eq("T01", fmt.Sprintf("team account %d", a.Id), &a, &b)
	}

	// money
	for _, dn := range keys2(w.Supply, g.Supply) {
		a, b := orZero(w.Supply[dn]), orZero(g.Supply[dn])
		d.eq("X07 G01", "supply of "+dn, a, b)
	}
	for _, k := range keys2(w.Bal, g.Bal) {
		a, b := orZero(w.Bal[k]), orZero(g.Bal[k])
		if !within(a, b, fz[fzBal(k.A, k.D)]) {
			props, subj, who := balProps(w, k.A)
			d.add(props+" X07", fmt.Sprintf("balance of %s in %s: expected %s, chain has %s (%s)", who, k.D, a, b, b.Sub(a)), subj...)
		}
	}
	for _, dn := range keys2(w.ComPool, g.ComPool) {
		if a, b := orZero(w.ComPool[dn]), orZero(g.ComPool[dn]); !a.Equal(b) {
			d.add("X07", fmt.Sprintf("community pool in %s: expected %s, chain has %s", dn, a, b), opSubjects(m, "slash", "tally", "disable")...)
		}
	}
	for _, k := range keys2(w.Seq, g.Seq) {
		d.eq("X03 G01", "sequence number of "+k, w.Seq[k], g.Seq[k], k)
	}
	if !reflect.DeepEqual(liveAuths(w.Auths, m.ns), liveAuths(g.Auths, m.ns)) {
		d.add("X03", fmt.Sprintf("authorizations: expected %v, chain has %v", w.Auths, g.Auths))
	}
	for _, k := range keys2(w.Grants, g.Grants) {
		a, oka := w.Grants[k]
		b, okb := g.Grants[k]
		if oka != okb || (a == nil) != (b == nil) || (a != nil && !coinsEq(*a, *b)) {
			d.add("G01", fmt.Sprintf("fee allowance %v: expected %v %v, chain has %v %v", k, oka, a, okb, b), k.S, k.D)
		}
	}
	for _, id := range keys2(w.Gov, g.Gov) {
		if w.Gov[id] == nil {
			continue // created in this block
		}
		if g.Gov[id] == nil {
			d.add("G02 P01", fmt.Sprintf("proposal %d ended early", id))
			continue
		}
		if !reflect.DeepEqual(w.Gov[id].Votes, g.Gov[id].Votes) {
			d.add("G02", fmt.Sprintf("votes on proposal %d differ", id))
		}
	}
	return d.out
}

// opSubjects lists the subjects of all operations of some kinds.
func opSubjects(m *M, kinds ...string) []string {
	var l []string
	for _, o := range m.Ops {
		if has(kinds, o.Kind) {
			l = append(l, o.Subj...)
		}
	}
	return l
}

func commStr(q []CommE) []string {
	var l []string
	for _, e := range q {
		l = append(l, fmt.Sprintf("%s %s %d", e.Staker, e.Commission, e.Created))
	}
	return l
}

func orZero(i math.Int) math.Int {
	if i.IsNil() {
		return math.ZeroInt()
	}
	return i
}

// balProps: what a wrong balance of an account concerns.
func balProps(s *State, a string) (props string, subj []string, who string) {
	switch a {
	case mod(mTeam):
		return "T01 T02", nil, "team module"
	case mod(mFunders):
		return "F01 F02", nil, "funders module"
	case mod(mStakers):
		return "S03 B07", nil, "stakers module"
	case mod(mDelegation):
		return "D01", nil, "delegation module"
	case mod(mPool):
		return "B07", nil, "pool module"
	case mod(mFeeCollector):
		return "G01 P03", nil, "fee collector"
	case mod(mDistribution):
		return "", nil, "distribution module"
	case govAddr:
		return "G02", nil, "gov module"
	}
	for id := range s.Pools {
		if poolAcc(id) == a {
			return "P03 B07", []string{poolSubj(id)}, fmt.Sprintf("pool %d account", id)
		}
	}
	who = a
	if i := simUser(a); i >= 0 {
		who = fmt.Sprintf("user %d %s", i, a)
	}
	return "", []string{a}, who
}

// ---------------------------------------------------------------- events

var eventProps = map[string]string{
	"kyve.bundles.v1beta1.EventBundleFinalized":     "B02 B07 B01",
	"kyve.delegation.v1beta1.EventSlash":            "B06",
	"kyve.funders.v1beta1.EventPoolOutOfFunds":      "F02",
	"kyve.bundles.v1beta1.EventPointIncreased":      "B06",
	"kyve.bundles.v1beta1.EventPointsReset":         "B06",
	"kyve.bundles.v1beta1.EventSkippedUploaderRole": "B04",
	"kyve.bundles.v1beta1.EventClaimedUploaderRole": "B05",
}

// compareEvents compares the predicted typed events with the emitted ones.
func compareEvents(want, got []proto.Message) []Diff {
	d := &differ{}
	cnt := map[string]int{}
	msg := map[string]proto.Message{}
	key := func(e proto.Message) string {
		b, err := proto.Marshal(e)
		must(err)
		return proto.MessageName(e) + "\x00" + string(b)
	}
	for _, e := range want {
		k := key(e)
		cnt[k]++
		msg[k] = e
	}
	for _, e := range got {
		k := key(e)
		cnt[k]--
		msg[k] = e
	}
	var ks []string
	for k := range cnt {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		n := cnt[k]
		if n == 0 {
			continue
		}
		e := msg[k]
		how := "missing"
		if n < 0 {
			how = "unexpected"
		}
		d.add(eventProps[proto.MessageName(e)], fmt.Sprintf("%s event %s: %s", how, proto.MessageName(e), proto.CompactTextString(e)))
	}
	return d.out
}
