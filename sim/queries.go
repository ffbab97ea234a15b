package main

import (
	"context"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"time"

	sdkmath "cosmossdk.io/math"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	qt "github.com/KYVENetwork/chain/x/query/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/query"
	"github.com/cosmos/gogoproto/proto"
)

// The query battery: asks one node through ABCI what a client would ask and
// compares the answers with what the (verified) state says.

type asker struct {
	w    *World
	n    *nodeState
	r    *RNG
	m    *M
	s    *State
	hash []byte
	asks int
	mute bool // only collect answers
	log  []string
}

func (w *World) newAsker(n *nodeState, seed uint64) *asker {
	s := w.st.Clone()
	return &asker{w: w, n: n, r: NewRNG(seed), s: s, m: &M{State: s, h: w.h, now: w.now(), cdc: w.nodes[0].app.AppCodec(), fuzz: map[string]int64{}}}
}

func (w *World) queries(n *nodeState, seed uint64) {
	if w.h == 0 {
		return
	}
	q := w.newAsker(n, seed)
	q.battery(false)
	w.stats.Calls["query answers"] += q.asks
	w.note(q.hash)
}

// compareAnswers asks all nodes the same questions.
func (w *World) compareAnswers() {
	var ref *asker
	for _, n := range w.nodes {
		if n.dead || n.app == nil || n.height() != w.h || n.fresh {
			continue
		}
		q := w.newAsker(n, w.cfg.Seed^uint64(w.h))
		q.mute = ref != nil
		q.battery(true)
		w.stats.Calls["query answers"] += q.asks
		if ref == nil {
			ref = q
			w.note(q.hash)
			continue
		}
		if string(q.hash) != string(ref.hash) {
			for i := range ref.log {
				if i >= len(q.log) || ref.log[i] != q.log[i] {
					d := "(no answer)"
					if i < len(q.log) {
						d = q.log[i]
					}
					w.violate("X02", "node %d answers %s, node %d answers %s", ref.n.id, clip(ref.log[i]), n.id, clip(d))
					break
				}
			}
		}
	}
}

func clip(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func (q *asker) bad(f string, a ...interface{}) {
	if !q.mute {
		q.w.violate("X06", "node %d: %s", q.n.id, fmt.Sprintf(f, a...))
	}
}

// ask sends one request; the error is the query's error ("" = success).
func (q *asker) ask(path string, req, resp proto.Message) (e string) {
	data, err := proto.Marshal(req)
	must(err)
	q.asks++
	beat()
	var res *abci.ResponseQuery
	d := q.n.enter(func() { res, err = q.n.app.Query(context.Background(), &abci.RequestQuery{Path: path, Data: data}) })
	switch {
	case d != nil:
		q.w.violate("X04", "node %d died answering %s %v: %s", q.n.id, path, req, deathMsg(d))
		panic(stopQueries{})
	case err != nil:
		e = err.Error()
	case res.Code != 0:
		e = res.Log
		if e == "" {
			e = fmt.Sprint("code ", res.Code)
		}
	}
	if strings.Contains(e, "panic") || strings.Contains(e, "runtime error") {
		q.bad("%s %v: %s", path, req, clip(e))
	}
	v := ""
	if e == "" {
		must(proto.Unmarshal(res.Value, resp))
		v = hex.EncodeToString(res.Value)
	}
	l := fmt.Sprintf("%s %v: %s", path, req, v)
	if e != "" {
		l += "error"
	} else {
		l += resp.String()
	}
	h := sha256.Sum256(append(q.hash, l...))
	q.hash = h[:]
	if len(q.log) < 5000 {
		q.log = append(q.log, l)
	}
	return e
}

type stopQueries struct{}

func enc(p proto.Message) string {
	b, err := proto.Marshal(p)
	must(err)
	return string(b)
}

// is asks and compares the whole answer.
func (q *asker) is(path string, req, resp, want proto.Message) {
	if e := q.ask(path, req, resp); e != "" {
		q.bad("%s %v fails: %s", path, req, clip(e))
		return
	}
	if enc(resp) != enc(want) {
		q.bad("%s %v answers %s, the state says %s", path, req, clip(resp.String()), clip(want.String()))
	}
}

func (q *asker) refused(path string, req, resp proto.Message) {
	if e := q.ask(path, req, resp); e == "" {
		q.bad("%s %v answers %s although there is no such entity", path, req, clip(resp.String()))
	}
}

// paging: the features a paginated query has.
type paging struct {
	keys    bool // continuing with keys
	reverse bool
	total   bool                   // the total is always given
	order   func(a, b string) bool // a may come before b (nil: exactly the given order)
	fetch   func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string)
	name    string
	want    []proto.Message
}

// walk reads a paginated list in a drawn way.
func (q *asker) walk(p paging) {
	want := make([]string, len(p.want))
	for i, x := range p.want {
		want[i] = enc(x)
	}
	rev := p.reverse && q.r.P(0.35)
	if rev {
		for i, j := 0, len(want)-1; i < j; i, j = i+1, j-1 {
			want[i], want[j] = want[j], want[i]
		}
	}
	n := uint64(len(want))
	limit := uint64(q.r.Range(1, 5))
	if q.r.P(0.3) {
		limit = n + uint64(q.r.Intn(3))
	}
	if q.r.P(0.05) {
		limit = math.MaxInt32
	}
	var got []proto.Message
	mode := q.r.Intn(4)
	desc := ""
	page := func(pr *query.PageRequest) ([]proto.Message, *query.PageResponse, bool) {
		var c *query.PageRequest
		if pr != nil {
			x := *pr
			c = &x
		}
		l, res, e := p.fetch(c)
		desc = fmt.Sprintf("%s page %v", p.name, pr)
		if e != "" {
			q.bad("%s fails: %s", desc, clip(e))
			return nil, nil, false
		}
		lim := uint64(100)
		if pr != nil && pr.Limit > 0 {
			lim = pr.Limit
		}
		if uint64(len(l)) > lim {
			q.bad("%s has %d entries", desc, len(l))
			return nil, nil, false
		}
		if (p.total || pr == nil || pr.CountTotal && len(pr.Key) == 0) && (res == nil || res.Total != n) {
			q.bad("%s says total %v, there are %d", desc, res, n)
			return nil, nil, false
		}
		return l, res, true
	}
	lo, hi := uint64(0), n
	switch {
	case mode == 0 && n <= 100: // everything at once
		var pr *query.PageRequest
		if rev || q.r.P(0.5) {
			pr = &query.PageRequest{Reverse: rev}
		}
		l, _, ok := page(pr)
		if !ok {
			return
		}
		got = l
	case mode == 1: // some page
		off := uint64(q.r.Intn(int(n) + 3))
		l, _, ok := page(&query.PageRequest{Offset: off, Limit: limit, Reverse: rev, CountTotal: q.r.P(0.5)})
		if !ok {
			return
		}
		got = l
		lo, hi = min(off, n), min(off+limit, n)
	case mode == 2 || !p.keys: // by offset
		off := uint64(q.r.Intn(2)) * uint64(q.r.Intn(int(n)+1))
		lo = min(off, n)
		for i := 0; ; i++ {
			l, _, ok := page(&query.PageRequest{Offset: off, Limit: limit, Reverse: rev, CountTotal: q.r.P(0.3)})
			if !ok {
				return
			}
			got = append(got, l...)
			off += limit
			if off >= n || i > 200 {
				break
			}
			limit = max(1, min(limit, n))
			if q.r.P(0.2) {
				break
			}
		}
		hi = min(off, n)
	default: // by key
		pr := &query.PageRequest{Limit: limit, Reverse: rev, CountTotal: q.r.P(0.3)}
		for i := 0; ; i++ {
			l, res, ok := page(pr)
			if !ok {
				return
			}
			got = append(got, l...)
			if res == nil || len(res.NextKey) == 0 {
				break
			}
			if i > 200 {
				q.bad("%s does not end", p.name)
				return
			}
			pr = &query.PageRequest{Key: res.NextKey, Limit: uint64(q.r.Range(1, 5)), Reverse: rev}
		}
	}
	exp := want[lo:hi]
	if len(got) != len(exp) {
		q.bad("%s: %d entries instead of %d (%d in total)", desc, len(got), len(exp), n)
		return
	}
	if p.order == nil {
		for i := range got {
			if enc(got[i]) != exp[i] {
				q.bad("%s: entry %d is %s, expected %s", desc, int(lo)+i, clip(got[i].String()), clip(showWant(p, exp[i])))
				return
			}
		}
		return
	}
	left := map[string]int{}
	for _, x := range want {
		left[x]++
	}
	last := ""
	for i, g := range got {
		e := enc(g)
		if left[e]--; left[e] < 0 {
			q.bad("%s: entry %d %s is not (or not any more) expected", desc, i, clip(g.String()))
			return
		}
		if i > 0 && !p.order(last, e) {
			q.bad("%s: entry %d out of order", desc, i)
			return
		}
		// the position decides the rank
		if p.order(exp[i], e) != true || p.order(e, exp[i]) != true {
			q.bad("%s: entry %d %s does not belong there", desc, i, clip(g.String()))
			return
		}
		last = e
	}
}

func showWant(p paging, e string) string {
	for _, x := range p.want {
		if enc(x) == e {
			return x.String()
		}
	}
	return "?"
}

func msgs[T any, P interface {
	*T
	proto.Message
}](l []T) []proto.Message {
	o := make([]proto.Message, len(l))
	for i := range l {
		o[i] = P(&l[i])
	}
	return o
}

// ---------------------------------------------------------------- expected answers

func (q *asker) total(id uint64) (t uint64) {
	for _, x := range membersOf(q.s, id) {
		t += q.s.DelTotal[x]
	}
	return
}

func (q *asker) active(id uint64) sdk.Coins {
	t := sdk.Coins{}
	for k, f := range q.s.Fundings {
		if k.P == id && !f.Amounts.IsZero() {
			t = t.Add(f.Amounts...)
		}
	}
	return t
}

func (q *asker) poolStatus(id uint64) pooltypes.PoolStatus {
	switch q.m.canRun(id) {
	case runUpgrading:
		return pooltypes.POOL_STATUS_UPGRADING
	case runDisabled:
		return pooltypes.POOL_STATUS_DISABLED
	case runEnd:
		return pooltypes.POOL_STATUS_END_KEY_REACHED
	case runMinDel:
		return pooltypes.POOL_STATUS_NOT_ENOUGH_DELEGATION
	case runPower:
		return pooltypes.POOL_STATUS_VOTING_POWER_TOO_HIGH
	}
	if q.active(id).IsZero() {
		return pooltypes.POOL_STATUS_NO_FUNDS
	}
	return pooltypes.POOL_STATUS_ACTIVE
}

func (q *asker) basicPool(id uint64) *qt.BasicPool {
	p := q.s.Pools[id]
	return &qt.BasicPool{
		Id: id, Name: p.Name, Runtime: p.Runtime, Logo: p.Logo, InflationShareWeight: p.InflationShareWeight,
		UploadInterval: p.UploadInterval, TotalFunds: q.active(id), TotalDelegation: q.total(id), Status: q.poolStatus(id),
	}
}

func (q *asker) balance(a string) uint64 { return q.m.bal(canon(a), denom).Uint64() }

func (q *asker) fullStaker(a string) *qt.FullStaker {
	x, ok := q.s.Stakers[a]
	if !ok {
		x = &stakerstypes.Staker{}
	}
	md := &qt.StakerMetadata{
		Commission: x.Commission, Moniker: x.Moniker, Website: x.Website, Identity: x.Identity,
		SecurityContact: x.SecurityContact, Details: x.Details, CommissionRewards: x.CommissionRewards,
	}
	for _, e := range q.s.CommQ {
		if ok && e.Staker == a {
			md.PendingCommissionChange = &qt.CommissionChangeEntry{Commission: e.Commission, CreationDate: e.Created}
		}
	}
	f := &qt.FullStaker{Address: x.Address, Metadata: md, SelfDelegation: q.s.Del[sd{a, a}], TotalDelegation: q.s.DelTotal[x.Address], DelegatorCount: q.s.DelCount[x.Address]}
	for _, u := range q.s.UnbQ {
		if u.Staker == a && u.Delegator == a {
			f.SelfDelegationUnbonding += u.Amount
		}
	}
	for _, id := range q.m.poolIds() {
		if v, ok := q.s.Vals[vk{id, a}]; ok {
			f.Pools = append(f.Pools, &qt.PoolMembership{Pool: q.basicPool(id), Points: v.Points, IsLeaving: v.IsLeaving, Valaddress: v.Valaddress, Balance: q.balance(v.Valaddress)})
		}
	}
	return f
}

func (q *asker) fundings(keep func(f *funderstypes.Funding) bool, byPool bool) []*funderstypes.Funding {
	var l []*funderstypes.Funding
	for _, f := range q.s.Fundings {
		if keep(f) {
			l = append(l, f)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if byPool && a.PoolId != b.PoolId || a.FunderAddress == b.FunderAddress {
			return a.PoolId < b.PoolId
		}
		return a.FunderAddress < b.FunderAddress
	})
	return l
}

func (q *asker) qFunding(f *funderstypes.Funding) qt.Funding {
	return qt.Funding{FunderAddress: f.FunderAddress, PoolId: f.PoolId, Amounts: f.Amounts, AmountsPerBundle: f.AmountsPerBundle, TotalFunded: f.TotalFunded, Score: q.m.score(f.Amounts)}
}

func (q *asker) qFundings(l []*funderstypes.Funding) (o []qt.Funding) {
	for _, f := range l {
		o = append(o, q.qFunding(f))
	}
	return
}

func fundStatus(st qt.FundingStatus, f *funderstypes.Funding) bool {
	switch st {
	case qt.FUNDING_STATUS_ACTIVE:
		return !f.Amounts.IsZero()
	case qt.FUNDING_STATUS_INACTIVE:
		return f.Amounts.IsZero()
	}
	return true
}

func (q *asker) qFunder(a string) qt.Funder {
	f := q.s.Funders[a]
	st := &qt.FundingStats{}
	for _, x := range q.fundings(func(x *funderstypes.Funding) bool { return x.FunderAddress == a }, false) {
		if !x.Amounts.IsZero() {
			st.TotalAmountPerBundle = st.TotalAmountPerBundle.Add(x.AmountsPerBundle...)
		}
		st.TotalUsedFunds = st.TotalUsedFunds.Add(x.TotalFunded...)
		st.TotalAllocatedFunds = st.TotalAllocatedFunds.Add(x.Amounts...)
		st.Score += q.m.score(x.Amounts)
		st.PoolsFunded = append(st.PoolsFunded, x.PoolId)
	}
	return qt.Funder{Address: f.Address, Moniker: f.Moniker, Identity: f.Identity, Website: f.Website, Contact: f.Contact, Description: f.Description, Stats: st}
}

func (q *asker) qPool(id uint64) qt.PoolResponse {
	p := q.s.Pools[id]
	data := p.Pool
	proto1, plan := p.Proto, p.Plan
	data.Protocol, data.UpgradePlan = &proto1, &plan
	prop := q.m.proposal(id)
	r := qt.PoolResponse{Id: id, Data: &data, BundleProposal: &prop, Stakers: membersOf(q.s, id), TotalDelegation: q.total(id), Status: q.poolStatus(id), Account: poolAcc(id), AccountBalance: q.balance(poolAcc(id))}
	for _, s := range r.Stakers {
		r.TotalSelfDelegation += q.s.Del[sd{s, s}]
	}
	r.Fundings = q.fundings(func(f *funderstypes.Funding) bool { return f.PoolId == id }, true)
	return r
}

func (q *asker) qBundle(b *bundlestypes.FinalizedBundle) qt.FinalizedBundle {
	h := sdkmath.NewInt(int64(b.FinalizedAt.Height))
	o := qt.FinalizedBundle{
		PoolId: b.PoolId, Id: b.Id, StorageId: b.StorageId, Uploader: b.Uploader, FromIndex: b.FromIndex, ToIndex: b.ToIndex,
		FromKey: b.FromKey, ToKey: b.ToKey, BundleSummary: b.BundleSummary, DataHash: b.DataHash,
		FinalizedAt:       &qt.FinalizedAt{Height: &h, Timestamp: time.Unix(int64(b.FinalizedAt.Timestamp), 0).Format(time.RFC3339)},
		StorageProviderId: uint64(b.StorageProviderId), CompressionId: uint64(b.CompressionId), StakeSecurity: &qt.StakeSecurity{},
	}
	since := uint64(0)
	for _, e := range q.w.cfg.versions() {
		if e.Version == 2 {
			since = e.Height
		}
	}
	if b.FinalizedAt.Height >= since {
		v, t := sdkmath.NewInt(int64(b.StakeSecurity.ValidVotePower)), sdkmath.NewInt(int64(b.StakeSecurity.TotalVotePower))
		o.StakeSecurity = &qt.StakeSecurity{ValidVotePower: &v, TotalVotePower: &t}
	}
	return o
}

func (q *asker) stakersByDelegation(keep func(a string) bool) []string {
	var l []string
	for a := range q.s.Stakers {
		if keep(a) {
			l = append(l, a)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := q.s.DelTotal[l[i]], q.s.DelTotal[l[j]]
		if a != b {
			return a > b
		}
		return l[i] < l[j]
	})
	return l
}

func (q *asker) poolCount(a string) (n int) {
	for k := range q.s.Vals {
		if k.S == a {
			n++
		}
	}
	return
}

// ---------------------------------------------------------------- battery

func keysOf[V any](m map[string]V) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// some address: one of the list, or any user
func (q *asker) addr(l []string) string {
	if len(l) > 0 && q.r.P(0.8) {
		return l[q.r.Intn(len(l))]
	}
	return account(q.r.Intn(40)).Addr
}

func (q *asker) fragment(l []string) string {
	if len(l) == 0 || q.r.P(0.3) {
		return ""
	}
	s := l[q.r.Intn(len(l))]
	if len(s) == 0 {
		return ""
	}
	i := q.r.Intn(len(s))
	j := min(len(s), i+1+q.r.Intn(4))
	s = s[i:j]
	if q.r.P(0.5) {
		s = strings.ToUpper(s)
	}
	return s
}

func contains(s, f string) bool { return strings.Contains(strings.ToLower(s), strings.ToLower(f)) }

func (q *asker) battery(all bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(stopQueries); !ok {
				panic(r)
			}
		}
	}()
	const (
		pool = "/kyve.query.v1beta1.QueryPool/"
		stk  = "/kyve.query.v1beta1.QueryStakers/"
		bun  = "/kyve.query.v1beta1.QueryBundles/"
		del  = "/kyve.query.v1beta1.QueryDelegation/"
		fun  = "/kyve.query.v1beta1.QueryFunders/"
		acc  = "/kyve.query.v1beta1.QueryAccount/"
		tm   = "/kyve.team.v1beta1.Query/"
	)
	s, r := q.s, q.r
	ids := q.m.poolIds()
	stakers := keysOf(s.Stakers)
	users := append([]string{}, stakers...)
	for k := range s.Del {
		users = append(users, k.D)
	}
	for k := range s.Fundings {
		users = append(users, k.F)
	}
	sort.Strings(users)
	yes := func(p float64) bool { return all || r.P(p) }

	// pools
	for _, id := range ids {
		if yes(0.6) {
			p := q.qPool(id)
			q.is(pool+"Pool", &qt.QueryPoolRequest{Id: id}, &qt.QueryPoolResponse{}, &qt.QueryPoolResponse{Pool: p})
		}
	}
	q.refused(pool+"Pool", &qt.QueryPoolRequest{Id: uint64(len(ids)) + uint64(r.Intn(3))}, &qt.QueryPoolResponse{})
	{
		var names, rts []string
		for _, id := range ids {
			names, rts = append(names, s.Pools[id].Name), append(rts, s.Pools[id].Runtime)
		}
		req := qt.QueryPoolsRequest{Search: q.fragment(names), Disabled: r.P(0.3)}
		if r.P(0.3) && len(rts) > 0 {
			req.Runtime = rts[r.Intn(len(rts))]
		}
		if r.P(0.3) {
			req.StorageProviderId = uint32(r.Intn(4))
		}
		var want []qt.PoolResponse
		for _, id := range ids {
			p := s.Pools[id]
			if contains(p.Name, req.Search) && (req.Runtime == "" || p.Runtime == req.Runtime) && p.Disabled == req.Disabled && (req.StorageProviderId == 0 || p.CurrentStorageProviderId == req.StorageProviderId) {
				want = append(want, q.qPool(id))
			}
		}
		q.walk(paging{name: fmt.Sprintf("pools %v", &req), want: msgs(want), keys: true, reverse: true, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
			x, resp := req, &qt.QueryPoolsResponse{}
			x.Pagination = p
			e := q.ask(pool+"Pools", &x, resp)
			return msgs(resp.Pools), resp.Pagination, e
		}})
	}

	// stakers
	for _, a := range stakers {
		if yes(0.4) {
			q.is(stk+"Staker", &qt.QueryStakerRequest{Address: a}, &qt.QueryStakerResponse{}, &qt.QueryStakerResponse{Staker: *q.fullStaker(a)})
		}
	}
	if a := q.addr(nil); s.Stakers[a] == nil {
		q.refused(stk+"Staker", &qt.QueryStakerRequest{Address: a}, &qt.QueryStakerResponse{})
	}
	for _, id := range append(ids, uint64(len(ids))) {
		if !yes(0.4) {
			continue
		}
		req := &qt.QueryStakersByPoolRequest{PoolId: id}
		if s.Pools[id] == nil {
			q.refused(stk+"StakersByPool", req, &qt.QueryStakersByPoolResponse{})
			continue
		}
		want := &qt.QueryStakersByPoolResponse{}
		for _, a := range membersOf(s, id) {
			want.Stakers = append(want.Stakers, qt.StakerPoolResponse{Staker: q.fullStaker(a), Valaccount: s.Vals[vk{id, a}]})
		}
		q.is(stk+"StakersByPool", req, &qt.QueryStakersByPoolResponse{}, want)
	}
	{
		full := map[string]*qt.FullStaker{}
		byEnc := map[string]string{}
		var monikers []string
		for _, a := range stakers {
			full[a] = q.fullStaker(a)
			byEnc[enc(full[a])] = a
			monikers = append(monikers, s.Stakers[a].Moniker, a)
		}
		list := func(l []string) (o []proto.Message) {
			for _, a := range l {
				o = append(o, full[a])
			}
			return
		}
		req := qt.QueryStakersRequest{Status: qt.StakerStatus(r.Intn(3)), Search: q.fragment(monikers)}
		l := q.stakersByDelegation(func(a string) bool {
			if req.Status == qt.STAKER_STATUS_ACTIVE && q.poolCount(a) == 0 || req.Status == qt.STAKER_STATUS_INACTIVE && q.poolCount(a) > 0 {
				return false
			}
			return contains(a, req.Search) || contains(s.Stakers[a].Moniker, req.Search)
		})
		pg := paging{name: fmt.Sprintf("stakers %v", &req), want: list(l), keys: true, reverse: true, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
			x, resp := req, &qt.QueryStakersResponse{}
			x.Pagination = p
			e := q.ask(stk+"Stakers", &x, resp)
			return msgs(resp.Stakers), resp.Pagination, e
		}}
		if req.Status == qt.STAKER_STATUS_ACTIVE {
			pg.keys, pg.reverse, pg.total = false, false, true
			pg.order = func(a, b string) bool { return s.DelTotal[byEnc[a]] >= s.DelTotal[byEnc[b]] }
		}
		q.walk(pg)

		c := q.stakersByDelegation(func(a string) bool { return q.poolCount(a) > 0 })
		sort.SliceStable(c, func(i, j int) bool { return q.poolCount(c[i]) > q.poolCount(c[j]) })
		q.walk(paging{name: "stakers by pool count", want: list(c), total: true, order: func(a, b string) bool {
			x, y := q.poolCount(byEnc[a]), q.poolCount(byEnc[b])
			return x > y || x == y && s.DelTotal[byEnc[a]] >= s.DelTotal[byEnc[b]]
		}, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
			resp := &qt.QueryStakersByPoolCountResponse{}
			e := q.ask(stk+"StakersByPoolCount", &qt.QueryStakersByPoolCountRequest{Pagination: p}, resp)
			return msgs(resp.Stakers), resp.Pagination, e
		}})
	}

	// delegation
	for i := 0; i < 3; i++ {
		a, d := q.addr(stakers), q.addr(users)
		if q.r.P(0.3) {
			d = a
		}
		q.is(del+"Delegator", &qt.QueryDelegatorRequest{Staker: a, Delegator: d}, &qt.QueryDelegatorResponse{}, &qt.QueryDelegatorResponse{Delegator: &qt.StakerDelegatorResponse{
			Delegator: d, Staker: a, CurrentRewards: s.Rew[sd{a, d}], DelegationAmount: s.Del[sd{a, d}],
		}})
		var ds []qt.StakerDelegatorResponse
		for _, k := range q.m.delegatorsOf(a) {
			ds = append(ds, qt.StakerDelegatorResponse{Delegator: k.D, Staker: a, CurrentRewards: s.Rew[k], DelegationAmount: s.Del[k]})
		}
		sort.Slice(ds, func(i, j int) bool { return ds[i].Delegator < ds[j].Delegator })
		q.walk(paging{name: "delegators of " + a, want: msgs(ds), keys: true, reverse: true, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
			resp := &qt.QueryDelegatorsByStakerResponse{}
			e := q.ask(del+"DelegatorsByStaker", &qt.QueryDelegatorsByStakerRequest{Pagination: p, Staker: a}, resp)
			if e == "" && (resp.TotalDelegation != s.DelTotal[a] || resp.TotalDelegatorCount != s.DelCount[a]) {
				q.bad("delegators of %s: %d from %d, the state says %d from %d", a, resp.TotalDelegation, resp.TotalDelegatorCount, s.DelTotal[a], s.DelCount[a])
			}
			return msgs(resp.Delegators), resp.Pagination, e
		}})
		var sl []qt.DelegationForStakerResponse
		var of []string
		for k := range s.Del {
			if k.D == d {
				of = append(of, k.S)
			}
		}
		sort.Strings(of)
		for _, a := range of {
			sl = append(sl, qt.DelegationForStakerResponse{Staker: q.fullStaker(a), CurrentRewards: s.Rew[sd{a, d}], DelegationAmount: s.Del[sd{a, d}]})
		}
		q.walk(paging{name: "stakers of delegator " + d, want: msgs(sl), keys: true, reverse: true, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
			resp := &qt.QueryStakersByDelegatorResponse{}
			e := q.ask(del+"StakersByDelegator", &qt.QueryStakersByDelegatorRequest{Pagination: p, Delegator: d}, resp)
			if e == "" && resp.Delegator != d {
				q.bad("stakers of delegator %s: names %s", d, resp.Delegator)
			}
			return msgs(resp.Stakers), resp.Pagination, e
		}})
	}

	// accounts
	for i := 0; i < 3; i++ {
		a := q.addr(users)
		as := &qt.QueryAccountAssetsResponse{Balance: q.balance(a), ProtocolSelfDelegation: s.Del[sd{a, a}]}
		for k, v := range s.Del {
			if k.D == a {
				as.ProtocolDelegation += v
				as.ProtocolRewards = as.ProtocolRewards.Add(s.Rew[k]...)
			}
		}
		var un []qt.DelegationUnbonding
		for _, u := range s.UnbQ {
			if u.Delegator == a {
				as.ProtocolDelegationUnbonding += u.Amount
				if u.Staker == a {
					as.ProtocolSelfDelegationUnbonding += u.Amount
				}
				un = append(un, qt.DelegationUnbonding{Amount: u.Amount, CreationTime: u.Created, Staker: q.fullStaker(u.Staker)})
			}
		}
		fl := &qt.QueryAccountFundedListResponse{}
		for _, f := range q.fundings(func(f *funderstypes.Funding) bool { return f.FunderAddress == a }, false) {
			as.ProtocolFunding = as.ProtocolFunding.Add(f.Amounts...)
			if !f.Amounts.IsZero() {
				fl.Funded = append(fl.Funded, qt.Funded{Amounts: f.Amounts, Pool: q.basicPool(f.PoolId)})
			}
		}
		q.is(acc+"AccountAssets", &qt.QueryAccountAssetsRequest{Address: a}, &qt.QueryAccountAssetsResponse{}, as)
		q.is(acc+"AccountFundedList", &qt.QueryAccountFundedListRequest{Address: a}, &qt.QueryAccountFundedListResponse{}, fl)
		q.walk(paging{name: "unbondings of " + a, want: msgs(un), keys: true, reverse: true, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
			resp := &qt.QueryAccountDelegationUnbondingsResponse{}
			e := q.ask(acc+"AccountDelegationUnbondings", &qt.QueryAccountDelegationUnbondingsRequest{Pagination: p, Address: a}, resp)
			return msgs(resp.Unbondings), resp.Pagination, e
		}})
		cd := &qt.QueryAccountRedelegationResponse{}
		for _, t := range s.Cool[a] {
			if q.m.now-int64(t) <= int64(s.D.RedelegationCooldown) {
				cd.RedelegationCooldownEntries = append(cd.RedelegationCooldownEntries, qt.RedelegationEntry{CreationDate: t, FinishDate: t + s.D.RedelegationCooldown})
			}
		}
		if n := uint64(len(cd.RedelegationCooldownEntries)); n < s.D.RedelegationMaxAmount {
			cd.AvailableSlots = s.D.RedelegationMaxAmount - n
		}
		q.is(acc+"AccountRedelegation", &qt.QueryAccountRedelegationRequest{Address: a}, &qt.QueryAccountRedelegationResponse{}, cd)
	}

	// funders
	{
		fs := keysOf(s.Funders)
		var mon []string
		for _, a := range fs {
			mon = append(mon, s.Funders[a].Moniker)
		}
		req := qt.QueryFundersRequest{Search: q.fragment(mon)}
		var want []qt.Funder
		for _, a := range fs {
			if contains(s.Funders[a].Moniker, req.Search) {
				want = append(want, q.qFunder(a))
			}
		}
		q.walk(paging{name: fmt.Sprintf("funders %v", &req), want: msgs(want), keys: true, reverse: true, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
			x, resp := req, &qt.QueryFundersResponse{}
			x.Pagination = p
			e := q.ask(fun+"Funders", &x, resp)
			return msgs(resp.Funders), resp.Pagination, e
		}})
		for i := 0; i < 2; i++ {
			a := q.addr(fs)
			st := qt.FundingStatus(r.Intn(3))
			mine := func(f *funderstypes.Funding) bool { return f.FunderAddress == a && fundStatus(st, f) }
			req := &qt.QueryFunderRequest{Address: a, Status: st}
			if s.Funders[a] == nil {
				q.refused(fun+"Funder", req, &qt.QueryFunderResponse{})
			} else {
				f := q.qFunder(a)
				q.is(fun+"Funder", req, &qt.QueryFunderResponse{}, &qt.QueryFunderResponse{Funder: &f, Fundings: q.qFundings(q.fundings(mine, false))})
			}
			q.walk(paging{name: fmt.Sprintf("fundings of %s %v", a, st), want: msgs(q.qFundings(q.fundings(mine, false))), keys: true, reverse: true, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
				resp := &qt.QueryFundingsByFunderResponse{}
				e := q.ask(fun+"FundingsByFunder", &qt.QueryFundingsByFunderRequest{Pagination: p, Address: a, Status: st}, resp)
				return msgs(resp.Fundings), resp.Pagination, e
			}})
			if len(ids) > 0 {
				id := ids[r.Intn(len(ids))]
				of := func(f *funderstypes.Funding) bool { return f.PoolId == id && fundStatus(st, f) }
				q.walk(paging{name: fmt.Sprintf("fundings of pool %d %v", id, st), want: msgs(q.qFundings(q.fundings(of, true))), keys: true, reverse: true, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
					resp := &qt.QueryFundingsByPoolResponse{}
					e := q.ask(fun+"FundingsByPool", &qt.QueryFundingsByPoolRequest{Pagination: p, PoolId: id, Status: st}, resp)
					return msgs(resp.Fundings), resp.Pagination, e
				}})
			}
		}
	}

	// bundles
	for _, id := range ids {
		if !yes(0.5) {
			continue
		}
		fin := s.Fin[id]
		var want []qt.FinalizedBundle
		for i := range fin {
			want = append(want, q.qBundle(&fin[i]))
		}
		q.walk(paging{name: fmt.Sprintf("finalized bundles of pool %d", id), want: msgs(want), keys: true, reverse: true, total: true, fetch: func(p *query.PageRequest) ([]proto.Message, *query.PageResponse, string) {
			resp := &qt.QueryFinalizedBundlesResponse{}
			e := q.ask(bun+"FinalizedBundlesQuery", &qt.QueryFinalizedBundlesRequest{Pagination: p, PoolId: id}, resp)
			return msgs(resp.FinalizedBundles), resp.Pagination, e
		}})
		top := s.Pools[id].CurrentIndex
		ix := []uint64{0, top, top + 1, uint64(r.Intn(int(top) + 2)), uint64(r.Intn(int(top) + 2)), math.MaxUint64}
		if len(fin) > 0 {
			b := fin[r.Intn(len(fin))]
			ix = append(ix, b.FromIndex, b.ToIndex, b.ToIndex-1)
		}
		for _, i := range ix {
			w := &qt.QueryFinalizedBundlesResponse{}
			for j := range fin {
				if fin[j].FromIndex <= i && i < fin[j].ToIndex {
					w.FinalizedBundles = append(w.FinalizedBundles, want[j])
				}
			}
			q.is(bun+"FinalizedBundlesQuery", &qt.QueryFinalizedBundlesRequest{PoolId: id, Index: strconv.FormatUint(i, 10)}, &qt.QueryFinalizedBundlesResponse{}, w)
		}
		bid := uint64(r.Intn(len(fin) + 2))
		breq := &qt.QueryFinalizedBundleRequest{PoolId: id, Id: bid}
		if bid < uint64(len(fin)) {
			x := want[bid]
			q.is(bun+"FinalizedBundleQuery", breq, &qt.QueryFinalizedBundleResponse{}, &qt.QueryFinalizedBundleResponse{
				PoolId: x.PoolId, Id: x.Id, StorageId: x.StorageId, Uploader: x.Uploader, FromIndex: x.FromIndex, ToIndex: x.ToIndex,
				FromKey: x.FromKey, ToKey: x.ToKey, BundleSummary: x.BundleSummary, DataHash: x.DataHash, FinalizedAt: x.FinalizedAt,
				StorageProviderId: x.StorageProviderId, CompressionId: x.CompressionId, StakeSecurity: x.StakeSecurity,
			})
		} else {
			q.refused(bun+"FinalizedBundleQuery", breq, &qt.QueryFinalizedBundleResponse{})
		}
		var d bundlestypes.VoteDistribution
		if s.Props[id] != nil { // before the first claim there is nothing to vote on
			d = q.m.distribution(id)
		}
		q.is(bun+"CurrentVoteStatus", &qt.QueryCurrentVoteStatusRequest{PoolId: id}, &qt.QueryCurrentVoteStatusResponse{}, &qt.QueryCurrentVoteStatusResponse{Valid: d.Valid, Invalid: d.Invalid, Abstain: d.Abstain, Total: d.Total})
	}

	// what protocol nodes ask before they act
	for _, id := range append(ids, uint64(len(ids))) {
		if !yes(0.6) {
			continue
		}
		p := q.m.proposal(id)
		who := append(membersOf(s, id), q.addr(stakers))
		if p.NextUploader != "" {
			who = append(who, p.NextUploader)
		}
		for _, a := range who {
			va := account(r.Intn(40)).Addr
			if v, ok := s.Vals[vk{id, a}]; ok && r.P(0.8) {
				va = v.Valaddress
			}
			vreq, vres := &qt.QueryCanValidateRequest{PoolId: id, Valaddress: va}, &qt.QueryCanValidateResponse{}
			can := map[string]bool{}
			for k, v := range s.Vals {
				if k.P == id && v.Valaddress == va {
					can[k.S] = true
				}
			}
			if e := q.ask(bun+"CanValidate", vreq, vres); e != "" {
				q.bad("can validate %v: %s", vreq, e)
			} else if vres.Possible != (len(can) > 0) || vres.Possible && !can[vres.Reason] {
				q.bad("can validate %v: %v, the state says %v", vreq, vres, keysOf(can))
			}
			sid := p.StorageId
			if r.P(0.15) {
				sid = "other"
			}
			oreq, ores := &qt.QueryCanVoteRequest{PoolId: id, Staker: a, Voter: va, StorageId: sid}, &qt.QueryCanVoteResponse{}
			sv := q.m.save()
			ve := q.m.vote(&bundlestypes.MsgVoteBundleProposal{PoolId: id, Staker: a, Creator: va, StorageId: sid, Vote: bundlestypes.VOTE_TYPE_VALID})
			q.m.restore(sv)
			q.s = q.m.State
			s = q.s
			wantReason := ""
			if ve == nil && has(p.VotersAbstain, a) {
				wantReason = "KYVE_VOTE_NO_ABSTAIN_ALLOWED"
			}
			if e := q.ask(bun+"CanVote", oreq, ores); e != "" {
				q.bad("can vote %v: %s", oreq, e)
			} else if ores.Possible != (ve == nil) {
				q.bad("can vote %v: %v, a vote would give %v", oreq, ores, ve)
			} else if ve == nil && ores.Reason != wantReason {
				q.bad("can vote %v: %v, expected the reason %q", oreq, ores, wantReason)
			}
			var from uint64
			if pl := s.Pools[id]; pl != nil {
				from = pl.CurrentIndex + p.BundleSize
			}
			if r.P(0.15) {
				from += uint64(r.Intn(3))
			}
			preq, pres := &qt.QueryCanProposeRequest{PoolId: id, Staker: a, Proposer: va, FromIndex: from}, &qt.QueryCanProposeResponse{}
			pe := q.m.canPropose(id, a, va, from)
			if e := q.ask(bun+"CanPropose", preq, pres); e != "" {
				q.bad("can propose %v: %s", preq, e)
			} else if pres.Possible != (pe == nil) {
				q.bad("can propose %v: %v, a proposal would give %v", preq, pres, pe)
			}
		}
	}

	// params
	{
		resp := &qt.QueryParamsResponse{}
		if e := q.ask("/kyve.query.v1beta1.QueryParams/Params", &qt.QueryParamsRequest{}, resp); e != "" {
			q.bad("params: %s", e)
		} else {
			for _, x := range []struct {
				n         string
				got, want proto.Message
			}{{"bundles", resp.BundlesParams, &s.B}, {"delegation", resp.DelegationParams, &s.D}, {"funders", resp.FundersParams, &s.F},
				{"global", resp.GlobalParams, &s.G}, {"pool", resp.PoolParams, &s.P}, {"stakers", resp.StakersParams, &s.S}} {
				if enc(x.got) != enc(x.want) {
					q.bad("params: %s are %v, the state says %v", x.n, x.got, x.want)
				}
			}
		}
	}

	q.is("/kyve.bundles.v1beta1.Query/Params", &bundlestypes.QueryParamsRequest{}, &bundlestypes.QueryParamsResponse{}, &bundlestypes.QueryParamsResponse{Params: s.B})
	q.is("/kyve.delegation.v1beta1.Query/Params", &delegationtypes.QueryParamsRequest{}, &delegationtypes.QueryParamsResponse{}, &delegationtypes.QueryParamsResponse{Params: s.D})
	q.is("/kyve.funders.v1beta1.Query/Params", &funderstypes.QueryParamsRequest{}, &funderstypes.QueryParamsResponse{}, &funderstypes.QueryParamsResponse{Params: s.F})
	q.is("/kyve.global.v1beta1.Query/Params", &globaltypes.QueryParamsRequest{}, &globaltypes.QueryParamsResponse{}, &globaltypes.QueryParamsResponse{Params: s.G})
	q.is("/kyve.pool.v1beta1.Query/Params", &pooltypes.QueryParamsRequest{}, &pooltypes.QueryParamsResponse{}, &pooltypes.QueryParamsResponse{Params: s.P})
	q.is("/kyve.stakers.v1beta1.Query/Params", &stakerstypes.QueryParamsRequest{}, &stakerstypes.QueryParamsResponse{}, &stakerstypes.QueryParamsResponse{Params: s.S})

	// team
	q.team(tm)
}

func (q *asker) team(tm string) {
	s, r := q.s, q.r
	info := &teamtypes.QueryTeamInfoResponse{
		FoundationAuthority: teamtypes.FOUNDATION_ADDRESS, BcpAuthority: teamtypes.BCP_ADDRESS, TotalTeamAllocation: teamtypes.TEAM_ALLOCATION,
		IssuedTeamAllocation: teamIssued(s).Uint64(), AvailableTeamAllocation: teamtypes.TEAM_ALLOCATION - teamIssued(s).Uint64(),
		TotalAuthorityRewards: s.Auth.TotalRewards, ClaimedAuthorityRewards: s.Auth.RewardsClaimed, AvailableAuthorityRewards: s.Auth.TotalRewards - s.Auth.RewardsClaimed,
		RequiredModuleBalance: teamRequired(s).Uint64(), TeamModuleBalance: q.balance(mod(mTeam)),
	}
	for i := range s.Team {
		a := &s.Team[i]
		info.TotalAccountRewards += a.TotalRewards
		info.ClaimedAccountRewards += a.RewardsClaimed
		info.AvailableAccountRewards += a.TotalRewards - a.RewardsClaimed
	}
	q.is(tm+"TeamInfo", &teamtypes.QueryTeamInfoRequest{}, &teamtypes.QueryTeamInfoResponse{}, info)
	q.is(tm+"TeamVestingAccounts", &teamtypes.QueryTeamVestingAccountsRequest{}, &teamtypes.QueryTeamVestingAccountsResponse{}, &teamtypes.QueryTeamVestingAccountsResponse{Accounts: s.Team})
	none := s.TeamN + uint64(r.Intn(3))
	q.refused(tm+"TeamVestingAccount", &teamtypes.QueryTeamVestingAccountRequest{Id: none}, &teamtypes.QueryTeamVestingAccountResponse{})
	q.refused(tm+"TeamVestingStatus", &teamtypes.QueryTeamVestingStatusRequest{Id: none}, &teamtypes.QueryTeamVestingStatusResponse{})
	u := func(t uint64) string { return time.Unix(int64(t), 0).String() }
	for i := range s.Team {
		if i > 5 && r.P(0.7) {
			continue
		}
		a := &s.Team[i]
		q.is(tm+"TeamVestingAccount", &teamtypes.QueryTeamVestingAccountRequest{Id: a.Id}, &teamtypes.QueryTeamVestingAccountResponse{}, &teamtypes.QueryTeamVestingAccountResponse{Account: *a})
		ref := max(a.Commencement, teamtypes.TGE) + year
		if a.Commencement > 1<<40 {
			continue // recorded: dates beyond what can be added
		}
		plan := &teamtypes.QueryVestingPlan{
			Commencement: u(a.Commencement), TokenVestingStart: u(a.Commencement + year), TokenVestingFinished: u(a.Commencement + 3*year),
			TokenUnlockStart: u(ref), TokenUnlockFinished: u(ref + 2*year), Clawback: a.Clawback,
			ClawbackAmount: a.TotalAllocation - teamMax(a), MaximumVestingAmount: teamMax(a),
		}
		status := func(t uint64) *teamtypes.QueryVestingStatus {
			return &teamtypes.QueryVestingStatus{
				TotalVestedAmount: teamVested(a, t), TotalUnlockedAmount: teamUnlocked(a, t), CurrentClaimableAmount: teamClaimable(a, t),
				LockedVestedAmount: teamVested(a, t) - teamUnlocked(a, t), RemainingUnvestedAmount: teamMax(a) - teamVested(a, t),
				ClaimedAmount: a.UnlockedClaimed, TotalRewards: a.TotalRewards, ClaimedRewards: a.RewardsClaimed, AvailableRewards: a.TotalRewards - a.RewardsClaimed,
			}
		}
		now := uint64(q.m.now)
		q.is(tm+"TeamVestingStatus", &teamtypes.QueryTeamVestingStatusRequest{Id: a.Id}, &teamtypes.QueryTeamVestingStatusResponse{}, &teamtypes.QueryTeamVestingStatusResponse{RequestDate: u(now), Plan: plan, Status: status(now)})
		for _, t := range []uint64{0, a.Commencement + uint64(r.Intn(int(6*year))), pick(r, []uint64{a.Commencement, a.Commencement + year, a.Commencement + year - 1, a.Commencement + 3*year, ref, ref + 2*year, a.Clawback, a.Clawback + 1, math.MaxUint64})} {
			q.is(tm+"TeamVestingStatusByTime", &teamtypes.QueryTeamVestingStatusByTimeRequest{Id: a.Id, Time: t}, &teamtypes.QueryTeamVestingStatusByTimeResponse{}, &teamtypes.QueryTeamVestingStatusByTimeResponse{RequestDate: u(now), Plan: plan, Status: status(t)})
		}
	}
}
