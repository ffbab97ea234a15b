package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"cosmossdk.io/math"
	feegrant "cosmossdk.io/x/feegrant"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
)

// Gen plays the clients, the network, the consensus engine and the operators
// of the nodes. It only sees what real ones see: committed state and time.
// Every choice comes from the run's generator, so a seed fixes the execution.
type Gen struct {
	w   *World
	cfg *Cfg
	r   *RNG // workload
	rn  *RNG // network and nodes
	rc  *RNG // faults of the consensus validators
	ra  *RNG // authorizations and forgeries

	wt      map[string]float64
	id      int
	absent  int // blocks the second consensus validator is still going to miss
	net     []inFlight
	act     map[string]float64 // how often a validator does its duty
	evil    map[string]float64 // how often it misbehaves when it does
	upAt    int                // from which block on the old software may end
	last    bool               // the next block is the last of the old software
	loss    float64
	delay   float64
	dup     float64
	faults  bool
	at      int64 // expected time of the next block
	bad     int   // pretend-corrupt data ids
	sharpP  float64
	badRate float64 // how often a proposed bundle is wrong
	authP   float64 // how often another user sends a message
}

type inFlight struct {
	id  int
	due int64 // height
	off int
}

var categories = []string{"duty", "bchaos", "deleg", "stake", "fund", "team", "gov", "bank", "garbage"}

// bias lists the workload categories which matter most for a property.
var bias = map[string]string{
	"B01": "duty duty bchaos", "B02": "duty duty", "B03": "duty bchaos", "B04": "duty duty", "B05": "duty bchaos", "B06": "duty bchaos deleg",
	"B07": "duty fund", "D01": "deleg duty", "D02": "deleg duty", "D03": "deleg deleg", "D04": "deleg deleg stake", "S01": "stake stake",
	"S02": "stake stake", "S03": "stake duty", "F01": "fund fund", "F02": "fund duty", "P01": "gov gov", "P02": "gov gov duty", "P03": "duty gov",
	"T01": "team team", "T02": "team team", "G01": "bank duty", "G02": "gov gov deleg", "X03": "bchaos fund gov gov", "X04": "garbage bchaos", "X08": "gov fund deleg stake duty",
}

// NewGen prepares a run.
func NewGen(w *World) *Gen {
	c := w.cfg
	root := NewRNG(c.Seed)
	g := &Gen{w: w, cfg: c, r: root.Fork("workload"), rn: root.Fork("network"), rc: root.Fork("consensus faults"), ra: root.Fork("authorizations"), wt: map[string]float64{}, act: map[string]float64{}, evil: map[string]float64{}}
	r := g.r
	for _, k := range categories {
		g.wt[k] = pick(r, []float64{0.2, 0.6, 1, 1, 2})
	}
	g.wt["team"] = pick(r, []float64{0, 0.2, 0.5})
	g.wt["gov"] = pick(r, []float64{0, 0.2, 0.5, 0.8})
	g.wt["bank"] = pick(r, []float64{0, 0.2, 0.5})
	g.wt["garbage"] = pick(r, []float64{0, 0.1, 0.4})
	g.wt["bchaos"] = pick(r, []float64{0.1, 0.3, 0.8})
	g.wt["duty"] = pick(r, []float64{0.8, 1, 1, 1})
	for _, k := range strings.Fields(bias[c.Profile]) {
		if k == "duty" {
			g.wt[k] = 1
		} else {
			g.wt[k] = g.wt[k]*1.5 + 0.6
		}
	}
	g.sharpP = pick(r, []float64{0, 0.3, 0.5, 0.8})
	if len(sharpKinds[c.Profile]) > 0 && r.P(0.5) {
		g.wt["gov"] = max(g.wt["gov"], 0.7)
		g.sharpP = max(g.sharpP, 0.5)
	}
	lazy := r.P(0.4)
	lying := r.P(0.5)
	g.badRate = pick(r, []float64{0, 0, 0.05, 0.15, 0.4})
	for i := 0; i < 70; i++ {
		a := account(uStaker + i).Addr
		g.act[a] = pick(r, []float64{1, 1, 0.98, 0.95})
		if lazy {
			g.act[a] = pick(r, []float64{1, 1, 0.95, 0.7, 0.3, 0})
		}
		if lying {
			g.evil[a] = pick(r, []float64{0, 0, 0, 0.05, 0.3, 0.8})
		}
	}
	g.loss = pick(g.rn, []float64{0, 0, 0.02, 0.1})
	g.delay = pick(g.rn, []float64{0, 0.05, 0.2, 0.5})
	g.dup = pick(g.rn, []float64{0, 0.02, 0.1})
	g.authP = pick(g.ra, []float64{0, 0.02, 0.1})
	g.faults = w.nExtra > 0
	return g
}

func addr(i int) string { return account(i).Addr }

// ---------------------------------------------------------------- sending

func (g *Gen) pack(m sdk.Msg) json.RawMessage {
	b, err := g.w.nodes[0].app.AppCodec().MarshalInterfaceJSON(m)
	must(err)
	return b
}

// send signs and broadcasts a transaction; the network may lose, delay,
// duplicate and reorder it.
func (g *Gen) send(signer int, calm bool, msgs ...sdk.Msg) int {
	if !calm {
		signer, msgs = g.wrap(signer, msgs)
	}
	g.id++
	t := &TxStep{ID: g.id, Signer: signer, Gas: 20_000_000}
	for _, m := range msgs {
		t.Msgs = append(t.Msgs, g.pack(m))
	}
	need := g.cfg.G.MinGasPrice
	if g.w.st.G.MinGasPrice.IsNil() == false {
		need = g.w.st.G.MinGasPrice
	}
	if !calm && g.ra.P(0.008) {
		t.Forge = pick(g.ra, []string{"key", "pub", "chain", "accnum", "late", "memo"})
		g.w.stats.fault("forged tx")
	}
	if !calm {
		switch {
		case g.r.P(0.03):
			t.LowGas = true
			t.Gas = 1 + g.r.Log(200_000)
		case g.r.P(0.02):
			t.Gas = 20_000_000 + g.r.U64n(3)
		}
	}
	fee := math.ZeroInt()
	if need.IsPositive() {
		fee = need.MulInt(math.NewIntFromUint64(t.Gas)).Ceil().TruncateInt()
	}
	cs := one(denom, fee)
	if !calm {
		switch g.r.Intn(24) {
		case 0:
			cs = one(denom, fee.SubRaw(int64(g.r.Range(1, 3))))
			if fee.LT(math.NewInt(3)) {
				cs = nil
			}
		case 1:
			cs = sdk.Coins{}
		case 2:
			cs = one(denom, fee.Add(math.NewIntFromUint64(g.r.Log(1_000_000_000))))
		case 3, 4:
			cs = sdk.NewCoins(cs...).Add(sdk.NewCoin(pick(g.r, extraDenoms), math.NewIntFromUint64(g.r.Log(1_000_000))))
		case 5:
			if g.r.P(0.2) {
				cs = one(denom, math.NewIntFromUint64(g.cfg.Bal+g.r.Log(1000)))
			} else {
				cs = sdk.NewCoins(sdk.NewCoin(pick(g.r, extraDenoms), fee.AddRaw(1)))
			}
		case 6, 7:
			cs = one(denom, fee.Add(math.NewIntFromUint64(g.r.Log(1000))))
		}
		// a fee payer
		if grs := g.granters(addr(signer)); len(grs) > 0 && g.r.P(0.6) {
			t.Granter = pick(g.r, grs)
		} else if g.r.P(0.004) {
			t.Granter = g.anyUser()
		}
	}
	if !calm && g.ra.P(0.015) {
		t.Payer = 1 + pick(g.ra, []int{uGov, uFunder, uFunder + 1, uStaker, uStaker + 1, uDelegator})
		if grs := g.granters(addr(t.Payer - 1)); len(grs) > 0 && g.ra.P(0.5) {
			t.Granter = pick(g.ra, grs)
		}
	}
	t.Fee = cs.String()
	g.w.Do(Step{Tx: t})
	if calm {
		g.net = append(g.net, inFlight{g.id, g.w.h + 1, 0})
		return g.id
	}
	if g.rn.P(g.loss) {
		g.w.stats.fault("tx lost")
		return g.id
	}
	f := inFlight{g.id, g.w.h + 1, 0}
	if g.rn.P(g.delay) {
		f.due += int64(g.rn.Range(1, 6))
		g.w.stats.fault("tx delayed")
	}
	if g.rn.P(0.01) {
		f.off = pick(g.rn, []int{-1, 1, 2})
		g.w.stats.fault("tx with wrong sequence")
	}
	g.net = append(g.net, f)
	if g.rn.P(g.dup) {
		g.net = append(g.net, inFlight{g.id, f.due + int64(g.rn.Range(0, 5)), 0})
	}
	return g.id
}

func (g *Gen) granters(who string) []string {
	var l []string
	for k := range g.w.st.Grants {
		if k.D == who {
			l = append(l, k.S)
		}
	}
	sort.Strings(l)
	return l
}

// ---------------------------------------------------------------- choices

func (g *Gen) user(lo, n int) int {
	if n <= 0 {
		n = 1
	}
	return lo + g.r.Intn(n)
}

func (g *Gen) anyUserIdx() int {
	c := g.cfg
	switch g.r.Intn(8) {
	case 0:
		return g.r.Intn(3)
	case 1, 2:
		return g.user(uDelegator, c.Delegators+1)
	case 3, 4:
		return g.user(uFunder, c.Funders+1)
	case 5:
		return valUser(g.user(uStaker, c.Stakers), g.r.Intn(3))
	}
	return g.user(uStaker, c.Stakers+2)
}

func (g *Gen) anyUser() string { return addr(g.anyUserIdx()) }

func (g *Gen) stakers() []string { return sortedKeys(g.w.st.Stakers) }

func (g *Gen) staker() string {
	l := g.stakers()
	if len(l) == 0 || g.r.P(0.03) {
		return addr(g.user(uStaker, g.cfg.Stakers+2))
	}
	return pick(g.r, l)
}

func (g *Gen) pool() uint64 {
	n := g.w.st.PoolCount
	if g.r.P(0.02) {
		return n
	}
	return g.r.U64n(max(n, 1))
}

func (g *Gen) balance(a, d string) uint64 {
	return g.cfg.units(d, orZero(g.w.st.Bal[bk{a, d}]))
}

// amt turns units of a coin into base units.
func (g *Gen) amt(d string, n uint64) math.Int {
	u := g.cfg.unit(d)
	a := math.NewIntFromUint64(n).Mul(u)
	if u.GT(math.OneInt()) && n > 0 && g.ra.P(0.4) {
		a = a.Add(math.NewIntFromUint64(g.ra.U64n(u.Uint64())))
	}
	return a
}

// amount draws an amount with boundary values around have.
func (g *Gen) amount(have, scale uint64) uint64 {
	switch g.r.Intn(40) {
	case 0:
		return 0
	case 1:
		return have
	case 2:
		return have + 1
	case 3:
		return 1
	case 4:
		return g.r.U64n(have + 1)
	case 5:
		return pick(g.r, []uint64{1<<63 - 1, 1 << 63, 1<<64 - 1, 1<<64 - 2})
	case 6, 7, 8:
		return scale
	case 9, 10, 11:
		return g.r.Log(have)
	case 12:
		if have > 0 {
			return have - 1
		}
	}
	return 1 + g.r.U64n(scale*2)
}

func (g *Gen) coins(who string, scale uint64) sdk.Coins {
	var cs sdk.Coins
	for _, d := range g.cfg.Denoms {
		if g.r.P(0.6) {
			a := g.amount(g.balance(who, d), scale)
			if a == 0 && g.r.P(0.8) {
				continue
			}
			cs = append(cs, sdk.Coin{Denom: d, Amount: g.amt(d, a)})
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i].Denom < cs[j].Denom })
	if len(cs) > 1 && g.r.P(0.01) {
		cs[0], cs[1] = cs[1], cs[0]
	}
	if g.r.P(0.01) {
		cs = append(cs, sdk.Coin{Denom: "zzz", Amount: math.NewInt(5)})
	}
	return cs
}

func (g *Gen) decimal(maxv float64) math.LegacyDec {
	if g.r.P(0.03) {
		return pick(g.r, []math.LegacyDec{dec("-0.1"), dec("1.000000000000000001"), dec("2"), dec("-1")})
	}
	return rdec(g.r, maxv)
}

// ---------------------------------------------------------------- validators

func (g *Gen) valIdx(pool uint64, staker string) (int, string) {
	v := g.w.st.Vals[vk{pool, staker}]
	if v == nil {
		return g.anyUserIdx(), ""
	}
	if i := simUser(v.Valaddress); i >= 0 {
		return i, v.Valaddress
	}
	return g.anyUserIdx(), v.Valaddress
}

// submitMsg proposes a bundle; its storage id tells the other validators whether
// its data is wrong.
func (g *Gen) submitMsg(id uint64, staker, creator string) (m *bundlestypes.MsgSubmitBundleProposal) {
	s := g.w.st
	pool := s.Pools[id]
	if g.r.P(g.badRate) || g.r.P(g.evil[staker]/2) {
		defer func() { m.StorageId = "bad" + m.StorageId }()
	}
	if pool == nil {
		pool = &PoolS{}
		pool.MaxBundleSize = 10
	}
	p := s.Props[id]
	from := pool.CurrentIndex
	key := pool.CurrentKey
	if p != nil {
		from += p.BundleSize
		if p.ToKey != "" {
			key = p.ToKey
		}
	}
	if key == "" {
		key = pool.StartKey
	}
	g.bad++
	size := 1 + g.r.U64n(pool.MaxBundleSize)
	m = &bundlestypes.MsgSubmitBundleProposal{
		Creator: creator, Staker: staker, PoolId: id, StorageId: fmt.Sprintf("s%d", g.bad), DataSize: g.r.Log(1 << 30), DataHash: fmt.Sprintf("h%d", g.bad),
		FromIndex: from, BundleSize: size, FromKey: key, ToKey: fmt.Sprint(from + size), BundleSummary: fmt.Sprintf("sum%d", g.bad),
	}
	if pool.EndKey != "" && g.r.P(0.1) {
		m.ToKey = pool.EndKey
	}
	if g.r.P(0.08) { // unusual but allowed
		switch g.r.Intn(4) {
		case 0:
			m.BundleSummary = ""
		case 1:
			m.BundleSummary, m.DataHash = m.StorageId, ""
		case 2:
			m.ToKey = key
		case 3:
			m.FromKey = fmt.Sprintf("k%d", g.bad)
		}
	}
	if g.r.P(0.02) || g.cfg.Profile == "B07" && g.r.P(0.03) {
		m.DataSize = pick(g.r, []uint64{0, 1 << 40, 1 << 50, 1<<63 - 1, 1 << 63, 1<<64 - 1})
	}
	return m
}

// choice is what a validator votes; over some bundles many are unsure.
func (g *Gen) choice(staker string, bad, unsure bool) bundlestypes.VoteType {
	if g.r.P(g.evil[staker]) {
		return pick(g.r, []bundlestypes.VoteType{bundlestypes.VOTE_TYPE_INVALID, bundlestypes.VOTE_TYPE_INVALID, bundlestypes.VOTE_TYPE_ABSTAIN})
	}
	if g.r.P(0.03) || unsure && g.r.P(0.5) {
		return bundlestypes.VOTE_TYPE_ABSTAIN
	}
	if bad {
		return bundlestypes.VOTE_TYPE_INVALID
	}
	return bundlestypes.VOTE_TYPE_VALID
}

// duty lets every validator of every pool do what the committed state asks of it.
func (g *Gen) duty(calm bool) {
	for _, id := range poolIDs(g.w.st) {
		for _, d := range g.openDuties(id, calm) {
			idx, creator := g.valIdx(id, d.staker)
			if creator == "" {
				continue
			}
			if !calm && !g.r.P(g.act[d.staker]*g.wt["duty"]*g.busy(d.kind)) {
				continue
			}
			switch d.kind {
			case "claim":
				if !calm && !g.r.P(0.8) {
					continue
				}
				g.send(idx, calm, &bundlestypes.MsgClaimUploaderRole{Creator: creator, Staker: d.staker, PoolId: id})
			case "vote":
				v := bundlestypes.VOTE_TYPE_VALID
				if !calm {
					p := g.w.st.Props[id]
					v = g.choice(d.staker, strings.HasPrefix(p.StorageId, "bad"), p.BundleSize%8 == 3)
					if has(p.VotersAbstain, d.staker) && g.r.P(0.2) {
						v = bundlestypes.VOTE_TYPE_ABSTAIN // must be refused
					}
				}
				g.send(idx, calm, &bundlestypes.MsgVoteBundleProposal{Creator: creator, Staker: d.staker, PoolId: id, StorageId: g.w.st.Props[id].StorageId, Vote: v})
			case "submit":
				skips := 0.08
				if p := g.w.st.Props[id]; p.StorageId != "" {
					if v := (&M{State: g.w.st, now: g.at, fuzz: map[string]int64{}}); v.distribution(id).Status == bundlestypes.BUNDLE_STATUS_INVALID {
						skips = 0.3
					}
				}
				if !calm && g.r.P(skips) {
					m := g.submitMsg(id, d.staker, creator)
					g.send(idx, calm, &bundlestypes.MsgSkipUploaderRole{Creator: creator, Staker: d.staker, PoolId: id, FromIndex: m.FromIndex})
				} else {
					m := g.submitMsg(id, d.staker, creator)
					if calm {
						m.DataSize = 1000
						if e := g.w.st.Pools[id].EndKey; m.ToKey == e {
							m.ToKey += "x"
						}
					}
					g.send(idx, calm, m)
				}
			}
		}
	}
}

// stuck: the designated uploader of a round without a majority skips.
func (g *Gen) stuck() {
	for _, id := range poolIDs(g.w.st) {
		p := g.w.st.Props[id]
		if p == nil || p.StorageId == "" || p.NextUploader == "" || uint64(g.at) < p.UpdatedAt+g.w.st.Pools[id].UploadInterval || !g.r.P(0.06) {
			continue
		}
		if i, creator := g.valIdx(id, p.NextUploader); creator != "" {
			m := g.submitMsg(id, p.NextUploader, creator)
			g.send(i, false, &bundlestypes.MsgSkipUploaderRole{Creator: creator, Staker: p.NextUploader, PoolId: id, FromIndex: m.FromIndex})
		}
	}
}

// even: a delegation brings the votes of a round to half of the stake, or
// next to it.
func (g *Gen) even() {
	s := g.w.st
	rate := 0.03
	if g.cfg.Profile == "B02" {
		rate = 0.4
	}
	for _, id := range poolIDs(s) {
		p := s.Props[id]
		if p == nil || p.StorageId == "" || !g.r.P(rate) || !g.r.P(0.1) && 2*(uint64(g.at)-p.UpdatedAt) < s.Pools[id].UploadInterval {
			continue
		}
		side := p.VotersValid
		if len(p.VotersInvalid) > 0 && g.r.P(0.7) {
			side = p.VotersInvalid
		}
		var on, off []string
		var x, t uint64
		for _, a := range membersOf(s, id) {
			t += s.DelTotal[a]
			if has(side, a) {
				x += s.DelTotal[a]
				on = append(on, a)
			} else {
				off = append(off, a)
			}
		}
		if t == 0 || t > 1<<60 || len(on) == 0 || len(off) == 0 {
			continue
		}
		// 2x' = t' + k after the delegation
		k := pick(g.r, []int64{-2, -1, -1, 0, 0, 1})
		d, to := int64(t)+k-2*int64(x), on
		if d < 0 {
			d, to = -d, off
		}
		i := g.delegator()
		if d > 0 && uint64(d) < g.balance(addr(i), denom) {
			g.send(i, false, &delegationtypes.MsgDelegate{Creator: addr(i), Staker: pick(g.r, to), Amount: uint64(d)})
		}
	}
}

// busy: in a crowd not everybody votes every time.
func (g *Gen) busy(kind string) float64 {
	if g.cfg.Big == 1 && kind == "vote" {
		return 0.3
	}
	return 1
}

// crowd: who wants a slot of a full pool, and who is about to lose one.
func (g *Gen) crowd() {
	s := g.w.st
	r := g.r
	if g.cfg.Big == 1 {
		mem := membersOf(s, 0)
		if len(mem) == 0 {
			return
		}
		low := mem[0]
		for _, a := range mem {
			if s.DelTotal[a] < s.DelTotal[low] {
				low = a
			}
		}
		var out []int
		for i := 0; i < g.cfg.Stakers; i++ {
			a := addr(uStaker + i)
			if _, ok := s.Stakers[a]; ok && s.Vals[vk{0, a}] == nil {
				out = append(out, uStaker+i)
			}
		}
		switch k := r.Intn(8); {
		case k < 4 && len(out) > 0:

			i := pick(r, out)
			g.send(i, r.P(0.7), g.joinMsg(i, 0))
		case k < 6 && len(out) > 0:
			i := pick(r, out)
			have, want := s.DelTotal[addr(i)], s.DelTotal[low]+r.U64n(3)
			if want > have && want-have < g.balance(addr(i), denom) {
				g.send(i, true, &delegationtypes.MsgDelegate{Creator: addr(i), Staker: addr(i), Amount: max(1, want-have)})
				if r.P(0.5) {
					g.send(i, true, g.joinMsg(i, 0))
				}
			}
		case k < 7:
			a := low
			if r.P(0.5) {
				a = pick(r, mem)
			}
			if d := s.Del[sd{a, a}]; d > 0 && simUser(a) >= 0 {
				g.send(simUser(a), true, &delegationtypes.MsgUndelegate{Creator: a, Staker: a, Amount: 1 + r.U64n(d)})
			}
		default:
			a := pick(r, mem)
			if r.P(0.5) {
				a = low
			}
			if simUser(a) >= 0 {
				g.send(simUser(a), true, &stakerstypes.MsgLeavePool{Creator: a, PoolId: 0})
			}
		}
		return
	}
	act := s.FState[0]
	var out []int
	for i := 0; i < g.cfg.Funders; i++ {
		if a := addr(uFunder + i); !has(act, a) {
			out = append(out, uFunder+i)
		}
	}
	for n := 50 - len(act); n > 0 && len(out) > 0 && r.P(0.8); n-- {
		i := pick(r, out)
		g.send(i, true, g.plainFund(addr(i)))
	}
	switch k := r.Intn(5); {
	case k < 2 && len(out) > 0:
		i := pick(r, out)
		g.send(i, true, g.plainFund(addr(i)))
	case k < 3 && len(out) > 0:
		i := pick(r, out)
		g.send(i, true, g.fundMsg(addr(i), 0))
	case k < 4 && len(act) > 0:
		a := pick(r, act)
		if simUser(a) >= 0 {
			g.send(simUser(a), true, g.fundMsg(a, 0))
		}
	case len(act) > 0 && r.P(0.3):
		a := pick(r, act)
		if f := s.Fundings[fk{0, a}]; f != nil && simUser(a) >= 0 {
			g.send(simUser(a), true, &funderstypes.MsgDefundPool{Creator: a, PoolId: 0, Amounts: f.Amounts})
		}
	}
}

// plainFund is a small funding which is acceptable for pool 0.
func (g *Gen) plainFund(a string) *funderstypes.MsgFundPool {
	m := &funderstypes.MsgFundPool{Creator: a}
	l := g.w.st.F.CoinWhitelist
	if len(l) == 0 {
		return m
	}
	n := g.r.Intn(len(l))
	for i, e := range l {
		if i != n && !g.r.P(0.15) {
			continue
		}
		min, per := g.cfg.units(e.CoinDenom, e.MinFundingAmount), g.cfg.units(e.CoinDenom, e.MinFundingAmountPerBundle)
		if per == 0 {
			per = 1
		}
		if e.CoinDenom != denom && g.cfg.Exp > 0 {
			per += 20 + g.ra.Log(1000)
		}
		m.Amounts = m.Amounts.Add(sdk.NewCoin(e.CoinDenom, g.amt(e.CoinDenom, max(min, per*max(g.w.st.F.MinFundingMultiple, 8))+g.r.U64n(4))))
		m.AmountsPerBundle = m.AmountsPerBundle.Add(sdk.NewCoin(e.CoinDenom, math.NewIntFromUint64(per).Mul(g.cfg.unit(e.CoinDenom))))
	}
	return m
}

func poolIDs(s *State) []uint64 {
	var l []uint64
	for id := range s.Pools {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (g *Gen) openDuties(id uint64, calm bool) []duty {
	l := duties(g.w.st, id, g.at)
	if calm {
		return l
	}
	// honest validators also answer rounds which are not due yet in any order
	for i := len(l) - 1; i > 0; i-- {
		j := g.r.Intn(i + 1)
		l[i], l[j] = l[j], l[i]
	}
	return l
}

// bchaos: bundle messages which may or may not be allowed.
func (g *Gen) bchaos() {
	s := g.w.st
	id := g.pool()
	mem := membersOf(s, id)
	staker := g.staker()
	if len(mem) > 0 && g.r.P(0.85) {
		staker = pick(g.r, mem)
	}
	p := s.Props[id]
	if p != nil && p.NextUploader != "" && g.r.P(0.4) {
		staker = p.NextUploader
	}
	idx, creator := g.valIdx(id, staker)
	if creator == "" || g.r.P(0.1) {
		// somebody else's key, or the staker's own
		if g.r.P(0.5) && simUser(staker) >= 0 {
			idx = simUser(staker)
		} else {
			idx = g.anyUserIdx()
		}
		creator = addr(idx)
	}
	switch g.r.Intn(5) {
	case 0:
		g.send(idx, false, &bundlestypes.MsgClaimUploaderRole{Creator: creator, Staker: staker, PoolId: id})
	case 1:
		m := g.submitMsg(id, staker, creator)
		switch g.r.Intn(14) {
		case 0:
			m.FromIndex++
		case 1:
			m.FromIndex = 0
		case 2:
			m.BundleSize = 0
		case 3:
			if q := s.Pools[id]; q != nil {
				m.BundleSize = q.MaxBundleSize + 1
			}
		case 4:
			m.FromKey = ""
		case 5:
			m.ToKey = ""
		case 6:
			m.StorageId = ""
		case 7:
			if p != nil {
				m.StorageId = p.StorageId
			}
		}
		g.send(idx, false, m)
	case 2:
		m := g.submitMsg(id, staker, creator)
		if g.r.P(0.1) {
			m.FromIndex++
		}
		g.send(idx, false, &bundlestypes.MsgSkipUploaderRole{Creator: creator, Staker: staker, PoolId: id, FromIndex: m.FromIndex})
	default:
		m := &bundlestypes.MsgVoteBundleProposal{Creator: creator, Staker: staker, PoolId: id, Vote: bundlestypes.VoteType(g.r.Range(1, 3))}
		if p != nil {
			m.StorageId = p.StorageId
		}
		if g.r.P(0.05) {
			m.StorageId = pick(g.r, []string{"", "other"})
		}
		if g.r.P(0.03) {
			m.Vote = bundlestypes.VoteType(pick(g.r, []int{0, 4, 99}))
		}
		g.send(idx, false, m)
	}
}

// ---------------------------------------------------------------- delegation

func (g *Gen) delegator() int {
	switch g.r.Intn(5) {
	case 0:
		return g.user(uStaker, g.cfg.Stakers)
	case 1:
		return g.anyUserIdx()
	}
	return g.user(uDelegator, g.cfg.Delegators)
}

// pairs lists all delegations in order.
func (g *Gen) pairs() []sd {
	var l []sd
	for k := range g.w.st.Del {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].S < l[j].S || l[i].S == l[j].S && l[i].D < l[j].D })
	return l
}

func (g *Gen) deleg() (int, sdk.Msg) {
	s := g.w.st
	ps := g.pairs()
	have := len(ps) > 0
	switch k := g.r.Intn(10); {
	case k < 3 || !have:
		i := g.delegator()
		return i, &delegationtypes.MsgDelegate{Creator: addr(i), Staker: g.staker(), Amount: g.amount(g.balance(addr(i), denom), g.cfg.Scale)}
	case k < 6:
		p := pick(g.r, ps)
		i, creator, st := simUser(p.D), p.D, p.S
		if g.r.P(0.05) || i < 0 {
			i = g.anyUserIdx()
			creator = addr(i)
		}
		a := s.Del[p]
		amt := pick(g.r, []uint64{a, a, a / 2, a/3 + 1, g.r.U64n(a + 1), g.r.U64n(a + 1), a - min(a, 1), g.amount(a, g.cfg.Scale)})
		return i, &delegationtypes.MsgUndelegate{Creator: creator, Staker: st, Amount: amt}
	case k < 8:
		p := pick(g.r, ps)
		i, creator := simUser(p.D), p.D
		if g.r.P(0.1) || i < 0 {
			i = g.anyUserIdx()
			creator = addr(i)
		}
		return i, &delegationtypes.MsgWithdrawRewards{Creator: creator, Staker: p.S}
	default:
		p := pick(g.r, ps)
		i, creator := simUser(p.D), p.D
		if g.r.P(0.05) || i < 0 {
			i = g.anyUserIdx()
			creator = addr(i)
		}
		a := s.Del[p]
		to := g.staker()
		if mem := sortedVals(s); len(mem) > 0 && g.r.P(0.7) {
			to = pick(g.r, mem).S
		}
		amt := pick(g.r, []uint64{a, a / 2, g.r.U64n(a + 1), 1, g.amount(a, g.cfg.Scale)})
		return i, &delegationtypes.MsgRedelegate{Creator: creator, FromStaker: p.S, ToStaker: to, Amount: amt}
	}
}

// ---------------------------------------------------------------- stakers

func (g *Gen) joinMsg(i int, pool uint64) *stakerstypes.MsgJoinPool {
	v := addr(valUser(i, int(pool)))
	switch g.r.Intn(30) {
	case 0:
		v = addr(i)
	case 1:
		v = addr(valUser(g.user(uStaker, g.cfg.Stakers), int(pool)))
	case 2:
		v = g.anyUser()
	case 3:
		v = addr(valUser(i, int(pool)+1))
	}
	if g.cfg.Profile == "S01" && g.r.P(0.12) {
		if mem := membersOf(g.w.st, pool); len(mem) > 0 { // taken, or free since somebody left
			v = g.w.st.Vals[vk{pool, pick(g.r, mem)}].Valaddress
		}
	}
	amt := 1 + g.r.U64n(1000)
	if g.r.P(0.1) {
		amt = g.amount(g.balance(addr(i), denom), g.cfg.Scale)
	}
	return &stakerstypes.MsgJoinPool{Creator: addr(i), PoolId: pool, Valaddress: v, Amount: amt}
}

// moniker is a name, some with capitals, some too long or missing.
func (g *Gen) moniker() string {
	switch g.r.Intn(12) {
	case 0:
		return strings.Repeat("m", pick(g.r, []int{0, 0, 255, 256}))
	case 1:
		return "Zürich ÄÖ"
	}
	return pick(g.r, []string{"Node", "node", "KYVE", "kYve node", "x", "Bcd", "abc"})
}

func (g *Gen) createStakerMsg(i int) *stakerstypes.MsgCreateStaker {
	amt := 1 + g.r.U64n(g.cfg.Scale*2)
	if g.r.P(0.1) {
		amt = g.amount(g.balance(addr(i), denom), g.cfg.Scale)
	} else if g.r.P(0.05) {
		amt = 0
	}
	return &stakerstypes.MsgCreateStaker{Creator: addr(i), Amount: amt, Commission: g.decimal(1)}
}

func (g *Gen) stake() (int, sdk.Msg) {
	s := g.w.st
	i := g.user(uStaker, g.cfg.Stakers)
	if g.r.P(0.05) {
		i = g.anyUserIdx()
	}
	if i >= uDelegator || g.r.P(0.01) {
		switch g.r.Intn(6) {
		case 0:
			return i, &stakerstypes.MsgUpdateCommission{Creator: addr(i), Commission: g.decimal(1)}
		case 1:
			return i, &stakerstypes.MsgUpdateMetadata{Creator: addr(i), Moniker: "m"}
		case 2:
			return i, g.joinMsg(i, g.pool())
		case 3:
			return i, &stakerstypes.MsgLeavePool{Creator: addr(i), PoolId: g.pool()}
		}
		return i, &stakerstypes.MsgClaimCommissionRewards{Creator: addr(i), Amounts: sdk.NewCoins(sdk.NewInt64Coin(denom, 1))}
	}
	st := s.Stakers[addr(i)]
	if st == nil {
		return i, g.createStakerMsg(i)
	}
	if s.DelTotal[addr(i)] == 0 && g.r.P(0.35) {
		m := g.joinMsg(i, g.pool())
		m.Amount = 0
		return i, m
	}
	switch g.r.Intn(12) {
	case 0:
		long := func(c string) string {
			return strings.Repeat(c, pick(g.r, []int{0, 3, 3, 3, 3, 3, 255, 256}))
		}
		return i, &stakerstypes.MsgUpdateMetadata{Creator: addr(i), Moniker: g.moniker(), Website: long("w"),
			Identity: pick(g.r, []string{"", "0123456789abcdef", "012345", "zz23456789abcdef"}), SecurityContact: long("c"), Details: long("d")}
	case 1, 2:
		return i, &stakerstypes.MsgUpdateCommission{Creator: addr(i), Commission: g.decimal(1)}
	case 3, 4:
		if st.CommissionRewards.IsZero() && g.r.P(0.7) {
			return i, g.joinMsg(i, g.pool())
		}
		var cs sdk.Coins
		for _, c := range st.CommissionRewards {
			if g.r.P(0.7) && c.Amount.IsPositive() {
				a := pick(g.r, []math.Int{c.Amount, c.Amount, c.Amount.AddRaw(1), c.Amount.QuoRaw(2), math.OneInt()})
				if a.IsPositive() {
					cs = append(cs, sdk.Coin{Denom: c.Denom, Amount: a})
				}
			}
		}
		if g.r.P(0.05) {
			cs = g.coins(addr(i), 100)
		}
		return i, &stakerstypes.MsgClaimCommissionRewards{Creator: addr(i), Amounts: cs}
	case 5:
		return i, g.createStakerMsg(i)
	case 6, 7, 8:
		return i, g.joinMsg(i, g.pool())
	default:
		id := g.pool()
		for _, k := range sortedVals(s) {
			if k.S == addr(i) && g.r.P(0.6) {
				id = k.P
			}
		}
		return i, &stakerstypes.MsgLeavePool{Creator: addr(i), PoolId: id}
	}
}

// ---------------------------------------------------------------- funders

func (g *Gen) fund() (int, sdk.Msg) {
	s := g.w.st
	i := g.user(uFunder, g.cfg.Funders)
	if g.r.P(0.04) {
		i = g.anyUserIdx()
	}
	a := addr(i)
	if s.Funders[a] == nil && g.r.P(0.9) {
		return i, &funderstypes.MsgCreateFunder{Creator: a, Moniker: g.moniker(), Description: "d"}
	}
	id := g.pool()
	f := s.Fundings[fk{id, a}]
	switch k := g.r.Intn(10); {
	case k == 0 && g.r.P(0.3):
		if g.r.P(0.5) {
			id = g.w.st.PoolCount + g.r.U64n(2)
		}
		if g.r.P(0.5) {
			return i, &funderstypes.MsgDefundPool{Creator: a, PoolId: id, Amounts: sdk.NewCoins(sdk.NewInt64Coin(denom, 1))}
		}
		m := g.plainFund(a)
		m.PoolId = id
		if g.r.P(0.5) {
			m.AmountsPerBundle = append(m.AmountsPerBundle, sdk.NewInt64Coin("zzz", 3))
		}
		return i, m
	case k == 0:
		return i, &funderstypes.MsgCreateFunder{Creator: a, Moniker: "again"}
	case k == 1:
		return i, &funderstypes.MsgUpdateFunder{Creator: a, Moniker: g.moniker(), Identity: "i", Website: "w", Contact: "c", Description: "d"}
	case k < 5 && f != nil && !f.Amounts.IsZero():
		var cs sdk.Coins
		for _, c := range f.Amounts {
			if g.r.P(0.7) && c.Amount.IsPositive() {
				x := pick(g.r, []math.Int{c.Amount, c.Amount, c.Amount.AddRaw(1), c.Amount.QuoRaw(2), math.OneInt(), c.Amount.SubRaw(1), math.NewIntFromUint64(g.r.Log(1 << 40))})
				if x.IsPositive() {
					cs = append(cs, sdk.Coin{Denom: c.Denom, Amount: x})
				}
			}
		}
		if g.r.P(0.05) {
			cs = g.coins(a, 1000)
		}
		return i, &funderstypes.MsgDefundPool{Creator: a, PoolId: id, Amounts: cs}
	}
	return i, g.fundMsg(a, id)
}

func (g *Gen) fundMsg(a string, id uint64) *funderstypes.MsgFundPool {
	s := g.w.st
	m := &funderstypes.MsgFundPool{Creator: a, PoolId: id}
	f := s.Fundings[fk{id, a}]
	for _, d := range g.cfg.Denoms {
		if !g.r.P(0.55) {
			continue
		}
		var e *funderstypes.WhitelistCoinEntry
		for _, x := range s.F.CoinWhitelist {
			if x.CoinDenom == d {
				e = x
			}
		}
		min, minb := uint64(10), uint64(1)
		if e != nil {
			min, minb = g.cfg.units(d, e.MinFundingAmount), g.cfg.units(d, e.MinFundingAmountPerBundle)
		}
		per := minb + g.r.U64n(minb*3+2)
		if d != denom && g.cfg.Exp > 0 && g.ra.P(0.6) {
			per += 20 + g.ra.Log(10_000)
		}
		amt := max(min, per*s.F.MinFundingMultiple) + g.r.Log(20*(per+1))
		if g.r.P(0.1) {
			amt = g.amount(g.balance(a, d), amt)
		}
		if g.r.P(0.06) {
			per = pick(g.r, []uint64{0, minb - 1, 1, amt, amt + 1, 1<<64 - 1})
		}
		if f != nil && g.r.P(0.3) {
			// top up or change only the rate
			if g.r.P(0.5) {
				per = 0
			} else {
				amt = 0
			}
		}
		if amt > 0 {
			m.Amounts = append(m.Amounts, sdk.Coin{Denom: d, Amount: g.amt(d, amt)})
		}
		if per > 0 {
			m.AmountsPerBundle = append(m.AmountsPerBundle, sdk.Coin{Denom: d, Amount: g.amt(d, per)})
		}
	}
	if g.r.P(0.03) {
		m.Amounts = append(m.Amounts, sdk.Coin{Denom: pick(g.r, []string{"ukyve", "zzz", denom}), Amount: math.NewInt(1000)})
	}
	sort.Slice(m.Amounts, func(i, j int) bool { return m.Amounts[i].Denom < m.Amounts[j].Denom })
	sort.Slice(m.AmountsPerBundle, func(i, j int) bool { return m.AmountsPerBundle[i].Denom < m.AmountsPerBundle[j].Denom })
	return m
}

// ---------------------------------------------------------------- team

func (g *Gen) team() (int, sdk.Msg) {
	s := g.w.st
	i := pick(g.r, []int{uFoundation, uFoundation, uFoundation, uBCP, uBCP, g.anyUserIdx()})
	a := addr(i)
	n := len(s.Team)
	now := uint64(g.at)
	if n == 0 || g.r.P(0.12) {
		alloc := pick(g.r, []uint64{1, g.r.Log(1_000_000), 1_000_000_000_000, g.r.Log(teamtypes.TEAM_ALLOCATION), teamtypes.TEAM_ALLOCATION / 3, teamtypes.TEAM_ALLOCATION, teamtypes.TEAM_ALLOCATION + 1, 0, 1<<64 - 1})
		if is := teamIssued(s); g.r.P(0.2) && is.IsUint64() && is.Uint64() <= teamtypes.TEAM_ALLOCATION {
			alloc = teamtypes.TEAM_ALLOCATION - is.Uint64() + g.r.U64n(2)
		}
		com := pick(g.r, []uint64{s64(int64(now) - int64(g.r.U64n(5*year))), s64(int64(now) - int64(g.r.U64n(2*year))), now, now + g.r.U64n(year), s64(int64(g.cfg.TGE) - int64(g.r.U64n(3*year))), 0})
		return i, &teamtypes.MsgCreateTeamVestingAccount{Authority: a, TotalAllocation: alloc, Commencement: com}
	}
	acc := s.Team[g.r.Intn(n)]
	id := acc.Id
	if g.r.P(0.03) {
		id = s.TeamN + g.r.U64n(2)
	}
	to := g.anyUser()
	switch g.r.Intn(8) {
	case 0, 1:
		cb := pick(g.r, []uint64{0, now, acc.Commencement, acc.Commencement - 1, acc.Commencement + g.r.U64n(4*year), acc.LastClaimedTime, acc.LastClaimedTime - 1, now + g.r.U64n(year), acc.Commencement + year - 1})
		return i, &teamtypes.MsgClawback{Authority: a, Id: id, Clawback: cb}
	case 2, 3, 4:
		c := teamClaimable(&acc, now)
		return i, &teamtypes.MsgClaimUnlocked{Authority: a, Id: id, Amount: pick(g.r, []uint64{c, c, c + 1, c / 2, 1, 0, g.r.Log(c + 1)}), Recipient: to}
	case 5, 6:
		c := acc.TotalRewards - acc.RewardsClaimed
		return i, &teamtypes.MsgClaimAccountRewards{Authority: a, Id: id, Amount: pick(g.r, []uint64{c, c, c + 1, c / 2, 1}), Recipient: to}
	}
	c := s.Auth.TotalRewards - s.Auth.RewardsClaimed
	return i, &teamtypes.MsgClaimAuthorityRewards{Authority: a, Amount: pick(g.r, []uint64{c, c, c + 1, c / 2, 1}), Recipient: to}
}

func s64(x int64) uint64 {
	if x < 0 {
		return 0
	}
	return uint64(x)
}

// ---------------------------------------------------------------- governance

func mustJSON(v interface{}) string {
	b, err := json.Marshal(v)
	must(err)
	return string(b)
}

// govMsg is a message only governance may execute.
func (g *Gen) govMsg(auth string) sdk.Msg {
	s := g.w.st
	r := g.r
	now := uint64(g.at)
	if len(s.Pools) > 0 && r.P(g.sharpP) {
		return g.sharp(auth)
	}
	switch r.Intn(16) {
	case 0, 1:
		p := rpool(r, g.cfg, 0)
		if r.P(0.04) {
			p.InflationShareWeight = pick(r, []math.LegacyDec{dec("-0.000000000000000001"), dec("-5"), {}})
		}
		if g.old() {
			p.EndKey = ""
			if p.InflationShareWeight.IsNil() || p.InflationShareWeight.IsNegative() {
				p.InflationShareWeight = dec("7")
			}
			if r.P(0.05) {
				p.InflationShareWeight = dec("18446744073709551615")
			}
		}
		return &pooltypes.MsgCreatePool{Authority: auth, Name: "New", Runtime: p.Runtime, Logo: "l", Config: "c", StartKey: "0", UploadInterval: pick(r, []uint64{p.UploadInterval, p.UploadInterval, p.UploadInterval, 0}),
			InflationShareWeight: p.InflationShareWeight, MinDelegation: p.MinDelegation, MaxBundleSize: pick(r, []uint64{p.MaxBundleSize, p.MaxBundleSize, p.MaxBundleSize, p.MaxBundleSize, p.MaxBundleSize, 0}), Version: "1.0.0",
			Binaries: pick(r, []string{"{}", "{}", `{"linux":"x"}`, "", "no json"}), StorageProviderId: p.CurrentStorageProviderId, CompressionId: p.CurrentCompressionId, EndKey: p.EndKey}
	case 2, 3, 4:
		u := map[string]interface{}{}
		p := rpool(r, g.cfg, 0)
		if r.P(0.3) {
			u["Name"] = fmt.Sprint("n", r.Intn(99))
		}
		if r.P(0.3) {
			u["UploadInterval"] = p.UploadInterval
		}
		if r.P(0.2) {
			u["Runtime"] = p.Runtime
		}
		if r.P(0.2) {
			u["Logo"], u["Config"] = "l2", "c2"
		}
		if r.P(0.3) {
			u["MinDelegation"] = p.MinDelegation
		}
		if r.P(0.3) {
			u["MaxBundleSize"] = p.MaxBundleSize
		}
		if r.P(0.3) {
			u["InflationShareWeight"] = p.InflationShareWeight.String()
		}
		if r.P(0.2) {
			u["StorageProviderId"], u["CompressionId"] = p.CurrentStorageProviderId, p.CurrentCompressionId
		}
		if r.P(0.2) {
			u["EndKey"] = pick(r, []string{"", "1000000", fmt.Sprint(r.Range(10, 300))})
		}
		pl := mustJSON(u)
		if r.P(0.06) {
			pl = pick(r, []string{"", "{", `{"UploadInterval":0}`, `{"MaxBundleSize":-1}`, `{"MaxBundleSize":0}`, `{"MinDelegation":-1}`, `{"InflationShareWeight":"-1"}`, `{"InflationShareWeight":"-0.000000000000000001"}`, `{"Name":5}`, `[]`, `null`})
		}
		id := g.pool()
		if g.ra.P(0.4) {
			// a pool in the middle of something, for which it must not matter
			for _, k := range poolIDs(s) {
				q := s.Pools[k]
				if q.UpgradePlan != nil && q.UpgradePlan.ScheduledAt > 0 && g.ra.P(0.7) || q.Disabled && g.ra.P(0.3) {
					id = k
					break
				}
			}
			if len(u) > 0 && !g.old() && g.ra.P(0.5) {
				k := pick(g.ra, []string{"Runtime", "Name", "Logo", "Config"})
				u[k] = pick(g.ra, []string{"", "x", pick(g.ra, g.cfg.runtimes())})
				pl = mustJSON(u)
			}
		}
		return &pooltypes.MsgUpdatePool{Authority: auth, Id: id, Payload: pl}
	case 5:
		return &pooltypes.MsgDisablePool{Authority: auth, Id: g.pool()}
	case 6, 7:
		id := g.pool()
		for _, k := range poolIDs(s) {
			if s.Pools[k].Disabled && g.r.P(0.8) {
				id = k
				break
			}
		}
		return &pooltypes.MsgEnablePool{Authority: auth, Id: id}
	case 8, 9:
		return &pooltypes.MsgScheduleRuntimeUpgrade{Authority: auth, Runtime: pick(r, append(g.cfg.runtimes(), "@kyve/none")), Version: pick(r, []string{"2.0.0", "2.0.1", "1.0.0", ""}), ScheduledAt: pick(r, []uint64{0, now + 10, now + r.U64n(200), now + r.U64n(200), now - 100}),
			Duration: pick(r, []uint64{0, 1, r.U64n(200), r.U64n(50)}), Binaries: pick(r, []string{"{}", `{"a":"b"}`, "xx"})}
	case 10:
		return &pooltypes.MsgCancelRuntimeUpgrade{Authority: auth, Runtime: pick(r, g.cfg.runtimes())}
	}
	pl := g.params()
	switch r.Intn(6) {
	case 0:
		return &bundlestypes.MsgUpdateParams{Authority: auth, Payload: pl["bundles"]}
	case 1:
		return &delegationtypes.MsgUpdateParams{Authority: auth, Payload: pl["delegation"]}
	case 2:
		return &stakerstypes.MsgUpdateParams{Authority: auth, Payload: pl["stakers"]}
	case 3:
		return &funderstypes.MsgUpdateParams{Authority: auth, Payload: pl["funders"]}
	case 4:
		return &globaltypes.MsgUpdateParams{Authority: auth, Payload: pl["global"]}
	}
	return &pooltypes.MsgUpdateParams{Authority: auth, Payload: pl["pool"]}
}

// badParams are values which parameters must not take.
var badParams = map[string][]string{
	"bundles": {`{"upload_timeout":0}`, `{"max_points":0}`, `{"network_fee":"1.1"}`, `{"network_fee":"-0.000000000000000001"}`, `{"network_fee":null}`, `{"upload_timeout":-1}`,
		`{"storage_costs":[{"storage_provider_id":1,"cost":"-0.1"}]}`, `{"storage_costs":[{"storage_provider_id":1,"cost":"1"},{"storage_provider_id":2}]}`},
	"delegation": {`{"vote_slash":"-0.1"}`, `{"vote_slash":"1.000000000000000001"}`, `{"upload_slash":"-0.000000000000000001"}`, `{"upload_slash":"2"}`, `{"timeout_slash":"-1"}`,
		`{"timeout_slash":"1.01"}`, `{"redelegation_cooldown":-1}`, `{"unbonding_delegation_time":"5"}`, `{"redelegation_max_amount":1.5}`},
	"stakers": {`{"commission_change_time":-1}`, `{"leave_pool_time":"5"}`, `{"leave_pool_time":-1}`},
	"funders": {`{"coin_whitelist":[]}`, `{"coin_whitelist":[{"coin_denom":"ibc/x","min_funding_amount":"1","min_funding_amount_per_bundle":"1","coin_weight":"1"}]}`,
		`{"coin_whitelist":[{"coin_denom":"tkyve","min_funding_amount":"-1","min_funding_amount_per_bundle":"1","coin_weight":"1"}]}`,
		`{"coin_whitelist":[{"coin_denom":"tkyve","min_funding_amount":"1","min_funding_amount_per_bundle":"-1","coin_weight":"1"}]}`,
		`{"coin_whitelist":[{"coin_denom":"tkyve","min_funding_amount":"1","min_funding_amount_per_bundle":"1","coin_weight":"-1"}]}`,
		`{"coin_whitelist":[{"coin_denom":"tkyve","min_funding_amount":"1","min_funding_amount_per_bundle":"1"}]}`, `{"coin_whitelist":[{"coin_denom":"tkyve","min_funding_amount":"1"}]}`,
		`{"coin_whitelist":[{"coin_denom":"","min_funding_amount":"1","min_funding_amount_per_bundle":"1","coin_weight":"1"}]}`, `{"min_funding_multiple":-1}`},
	"global": {`{"burn_ratio":"2"}`, `{"burn_ratio":"-0.1"}`, `{"min_gas_price":"-0.1"}`, `{"min_gas_price":null}`, `{"gas_refunds":[{"type":"x","fraction":"1.1"}]}`,
		`{"gas_refunds":[{"type":"x","fraction":"-0.1"}]}`, `{"gas_refunds":[{"type":"x"}]}`, `{"gas_adjustments":[{"type":"x","amount":9223372036854775808}]}`},
	"pool": {`{"protocol_inflation_share":"-1"}`, `{"protocol_inflation_share":"1.000000000000000001"}`, `{"pool_inflation_payout_rate":"1.1"}`, `{"pool_inflation_payout_rate":"-0.1"}`,
		`{"max_voting_power_per_pool":"1.1"}`, `{"max_voting_power_per_pool":"-0.1"}`, `{"max_voting_power_per_pool":null}`},
}

func (g *Gen) params() map[string]string {
	r := g.r
	n := NewCfg(r.U64(), "")
	part := func(which string, v interface{}) string {
		var m map[string]json.RawMessage
		must(json.Unmarshal([]byte(mustJSON(v)), &m))
		all := r.P(0.2)
		keys := []string{}
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		o := map[string]json.RawMessage{}
		for _, k := range keys {
			if all || r.P(0.4) {
				o[k] = m[k]
			}
		}
		if r.P(0.06) {
			l := badParams[which]
			if r.P(0.25) {
				l = []string{"", "{", "[]", "null", `{"unknown":1}`}
			}
			return pick(r, l)
		}
		return mustJSON(o)
	}
	// lists are given completely
	n.F.CoinWhitelist = nil
	for _, d := range g.cfg.Denoms {
		if d == denom || r.P(0.7) {
			n.F.CoinWhitelist = append(n.F.CoinWhitelist, g.cfg.rwhitelist(r, d))
		}
	}
	return map[string]string{"bundles": part("bundles", n.B), "delegation": part("delegation", n.D), "stakers": part("stakers", n.S), "funders": part("funders", n.F), "global": part("global", n.G), "pool": part("pool", n.P)}
}

func (g *Gen) gov() {
	s := g.w.st
	ids := []uint64{}
	for id := range s.Gov {
		ids = append(ids, id)
	}
	sort.Slice(ids, func(i, j int) bool { return ids[i] < ids[j] })
	if len(ids) > 0 && g.r.P(0.75) {
		id := pick(g.r, ids)
		voter := uGov
		switch g.r.Intn(5) {
		case 0:
			voter = g.user(uStaker, g.cfg.Stakers)
		case 1:
			voter = g.user(uDelegator, g.cfg.Delegators)
		case 2:
			voter = g.anyUserIdx()
		}
		for _, k := range sortedVals(s) {
			if n := simUser(k.S); n >= 0 && s.DelTotal[k.S] == 0 && g.r.P(0.3) {
				voter = n
				break
			}
		}
		opt := pick(g.r, []govv1.VoteOption{govv1.OptionYes, govv1.OptionYes, govv1.OptionYes, govv1.OptionYes, govv1.OptionNo, govv1.OptionAbstain, govv1.OptionNoWithVeto})
		if voter == uGov && g.r.P(0.7) {
			opt = govv1.OptionYes
		}
		g.send(voter, false, &govv1.MsgVote{ProposalId: id, Voter: addr(voter), Option: opt})
		return
	}
	if len(ids) > 4 {
		return
	}
	if g.r.P(0.08) {
		// somebody tries without governance
		i := g.anyUserIdx()
		if g.r.P(0.5) {
			g.send(i, false, g.govMsg(govAddr)) // forged authority
		} else {
			g.send(i, false, g.govMsg(addr(i)))
		}
		return
	}
	n := pick(g.r, []int{1, 1, 1, 2, 3})
	var anys []*codectypes.Any
	for k := 0; k < n; k++ {
		auth := govAddr
		if g.r.P(0.02) {
			auth = g.anyUser()
		}
		a, err := codectypes.NewAnyWithValue(g.govMsg(auth))
		must(err)
		anys = append(anys, a)
	}
	if late := map[string]float64{"X03": 0.5, "G02": 0.25, "P01": 0.25, "X02": 0.25}[g.cfg.Profile]; g.r.P(max(late, 0.08)) {
		// everything fails because of the last message
		a, err := codectypes.NewAnyWithValue(&pooltypes.MsgDisablePool{Authority: govAddr, Id: 1 << 40})
		must(err)
		anys = append(anys, a)
	}
	i := uGov
	if g.r.P(0.3) {
		i = g.anyUserIdx()
	}
	dep := sdk.NewCoins(sdk.NewInt64Coin(denom, int64(g.r.Range(10, 30))))
	g.send(i, false, &govv1.MsgSubmitProposal{Messages: anys, InitialDeposit: dep, Proposer: addr(i), Title: "t", Summary: "s"})
}

// ---------------------------------------------------------------- bank and fee grants

func (g *Gen) bank() (int, sdk.Msg) {
	i := g.anyUserIdx()
	if g.r.P(0.25) {
		j := g.anyUserIdx()
		b := &feegrant.BasicAllowance{}
		if g.r.P(0.7) {
			b.SpendLimit = sdk.NewCoins(sdk.NewCoin(denom, math.NewIntFromUint64(g.r.Log(100_000_000)+1)))
			if g.r.P(0.3) {
				b.SpendLimit = b.SpendLimit.Add(sdk.NewInt64Coin(extraDenoms[0], 1_000_000))
			}
		}
		m, err := feegrant.NewMsgGrantAllowance(b, account(i).Acc, account(j).Acc)
		must(err)
		return i, m
	}
	to := g.anyUser()
	if g.r.P(0.15) {
		to = pick(g.r, []string{poolAcc(g.pool()), mod(mFunders), mod(mPool), govAddr, mod(mFeeCollector)})
		if to == govAddr && g.cfg.Profile == "X05" {
			to = g.anyUser() // would make the exported state useless
		}
	}
	cs := g.coins(addr(i), 1000)
	if len(cs) == 0 {
		cs = sdk.NewCoins(sdk.NewInt64Coin(denom, 1))
	}
	return i, &banktypes.MsgSend{FromAddress: addr(i), ToAddress: to, Amount: cs}
}

// garbage: syntactically broken or absurd messages.
func (g *Gen) garbage() {
	i := g.anyUserIdx()
	a := addr(i)
	r := g.r
	weird := pick(r, []string{"", "kyve1", "cosmos1qqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqqnrql8a", strings.ToUpper(a), a + "x", g.anyUser()})
	huge := pick(r, []uint64{1<<64 - 1, 1 << 63, 1<<63 - 1, 0})
	var m sdk.Msg
	switch r.Intn(16) {
	case 0:
		m = &delegationtypes.MsgDelegate{Creator: a, Staker: weird, Amount: huge}
	case 1:
		m = &delegationtypes.MsgUndelegate{Creator: a, Staker: weird, Amount: huge}
	case 2:
		m = &delegationtypes.MsgUndelegate{Creator: a, Staker: g.staker(), Amount: pick(r, []uint64{0, huge})}
	case 3:
		m = &delegationtypes.MsgRedelegate{Creator: a, FromStaker: g.staker(), ToStaker: g.staker(), Amount: huge}
	case 4:
		m = &delegationtypes.MsgRedelegate{Creator: a, FromStaker: weird, ToStaker: weird, Amount: 1}
	case 5:
		m = &stakerstypes.MsgCreateStaker{Creator: a, Amount: huge, Commission: dec("0.1")}
	case 6:
		m = &stakerstypes.MsgJoinPool{Creator: a, PoolId: huge, Valaddress: weird, Amount: huge}
	case 7:
		m = &stakerstypes.MsgLeavePool{Creator: a, PoolId: huge}
	case 8:
		m = &funderstypes.MsgDefundPool{Creator: a, PoolId: g.pool(), Amounts: sdk.Coins{{Denom: denom, Amount: math.NewInt(-5)}}}
	case 9:
		m = &funderstypes.MsgFundPool{Creator: a, PoolId: huge, Amounts: sdk.Coins{{Denom: denom, Amount: math.NewIntFromUint64(huge)}}}
	case 10:
		m = &funderstypes.MsgFundPool{Creator: a, PoolId: g.pool(), Amounts: g.coins(a, 1000), AmountsPerBundle: sdk.Coins{{Denom: "x!", Amount: math.NewInt(1)}}}
	case 11:
		m = &bundlestypes.MsgVoteBundleProposal{Creator: a, Staker: weird, PoolId: huge, StorageId: weird, Vote: 1}
	case 12:
		m = &bundlestypes.MsgSubmitBundleProposal{Creator: a, Staker: weird, PoolId: g.pool(), StorageId: "x", DataSize: huge, BundleSize: huge, FromIndex: huge, FromKey: "a", ToKey: "b"}
	case 13:
		m = &teamtypes.MsgClaimUnlocked{Authority: a, Id: huge, Amount: huge, Recipient: weird}
	case 14:
		m = &delegationtypes.MsgWithdrawRewards{Creator: a, Staker: weird}
	default:
		m = &banktypes.MsgSend{FromAddress: a, ToAddress: weird, Amount: g.coins(a, 100)}
	}
	g.send(i, false, m)
}

// forged: a message in the name of somebody else.
func (g *Gen) forged() {
	_, m := g.some()
	g.send(g.anyUserIdx(), false, m)
}

func (g *Gen) some() (int, sdk.Msg) {
	switch g.r.Intn(5) {
	case 0:
		return g.stake()
	case 1:
		return g.fund()
	case 2:
		return g.team()
	case 3:
		return g.bank()
	}
	return g.deleg()
}

// multi: several messages of one signer in one transaction.
func (g *Gen) multi() {
	i, m := g.some()
	ms := []sdk.Msg{m}
	for k := 0; k < 12 && len(ms) < 4; k++ {
		j, x := g.some()
		if j == i {
			ms = append(ms, x)
		} else if g.r.P(0.1) {
			break
		}
	}
	if i >= uStaker && i < uDelegator && g.r.P(0.4) {
		ms = append(ms, &delegationtypes.MsgDelegate{Creator: addr(i), Staker: g.staker(), Amount: g.amount(1, g.cfg.Scale)})
	}
	if g.r.P(0.15) {
		ms = append(ms, &banktypes.MsgSend{FromAddress: addr(i), ToAddress: g.anyUser(), Amount: sdk.NewCoins(sdk.NewCoin(denom, math.NewIntFromUint64(pick(g.r, []uint64{1, g.cfg.Bal * 3}))))})
	}
	g.send(i, false, ms...)
}

// ---------------------------------------------------------------- the run

// deadlines lists moments at which something becomes due.
func (g *Gen) deadlines() []int64 {
	s := g.w.st
	var l []int64
	add := func(t uint64) {
		if t < 1<<62 {
			l = append(l, int64(t))
		}
	}
	for _, id := range poolIDs(s) {
		p := s.Pools[id]
		if b := s.Props[id]; b != nil {
			add(b.UpdatedAt + p.UploadInterval)
			add(b.UpdatedAt + p.UploadInterval)
			add(b.UpdatedAt + p.UploadInterval + s.B.UploadTimeout)
		}
		if p.Plan.ScheduledAt > 0 {
			add(p.Plan.ScheduledAt)
			add(p.Plan.ScheduledAt + p.Plan.Duration)
		}
	}
	for _, e := range s.UnbQ {
		add(e.Created + s.D.UnbondingDelegationTime)
	}
	for _, e := range s.CommQ {
		add(uint64(e.Created) + s.S.CommissionChangeTime)
	}
	for _, e := range s.LeaveQ {
		add(uint64(e.Created) + s.S.LeavePoolTime)
	}
	for _, k := range sortedKeys(s.Cool) {
		for _, t := range s.Cool[k] {
			add(t + s.D.RedelegationCooldown)
		}
	}
	for _, p := range s.Gov {
		add(uint64(p.End / 1e9))
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (g *Gen) dt() int64 {
	r := g.rn
	nowMs := g.w.cfg.T0*1000 + g.w.ms
	switch k := r.Intn(20); {
	case k < 7:
		var next []int64
		for _, t := range g.deadlines() {
			if t*1000 > nowMs {
				next = append(next, t)
			}
		}
		if len(next) > 0 {
			t := next[min(r.Intn(len(next)), r.Intn(len(next)))]
			d := t*1000 + int64(r.Range(-1, 1))*1000 + int64(pick(r, []int{0, 0, 500, 999})) - nowMs
			if d > 0 {
				if d > 600_000 {
					g.w.stats.fault("clock jump")
				}
				return d
			}
		}
	case k == 7:
		return int64(r.Range(1, 900))
	case k == 8:
		g.w.stats.fault("slow block")
		return int64(r.Range(30_000, 400_000))
	case k == 9 && r.P(0.15):
		g.w.stats.fault("clock jump")
		return int64(r.U64n(400*86400)) * 1000
	case k == 10 && (g.wt["team"] > 0.6 || r.P(0.05)):
		g.w.stats.fault("clock jump")
		return int64(r.U64n(120*86400)) * 1000
	}
	return int64(r.Range(1000, 10_000))
}

// setup creates validators, funders and members in the first blocks.
func (g *Gen) setup(stage int) {
	c := g.cfg
	r := g.r
	switch stage {
	case 0:
		for i := 0; i < c.Stakers; i++ {
			if r.P(0.95) || c.Big == 1 {
				g.send(uStaker+i, true, g.createStakerMsg(uStaker+i))
			}
		}
		for i := 0; i < c.Funders; i++ {
			if r.P(0.9) || c.Big == 2 {
				a := uFunder + i
				g.send(a, true, &funderstypes.MsgCreateFunder{Creator: addr(a), Moniker: "f"})
			}
		}
	case 1:
		pools := poolIDs(g.w.st)
		for _, id := range pools {
			for i := 0; i < c.Stakers; i++ {
				if c.Big == 1 && id > 0 && r.P(0.9) {
					continue
				}
				if r.P(0.85) || c.Big == 1 {
					m := g.joinMsg(uStaker+i, id)
					m.Valaddress = addr(valUser(uStaker+i, int(id)))
					g.send(uStaker+i, true, m)
				}
			}
			if i := g.user(uStaker, c.Stakers); r.P(0.25) {
				v := valUser(i, int(id))
				g.send(v, true, &bundlestypes.MsgClaimUploaderRole{Creator: addr(v), Staker: addr(i), PoolId: id})
			}
			for i := 0; i < c.Funders; i++ {
				if r.P(0.7) || c.Big == 2 && id == 0 {
					g.send(uFunder+i, true, g.fundMsg(addr(uFunder+i), id))
				}
			}
		}
	case 2:
		for i := 0; i < c.Delegators; i++ {
			for k := r.Intn(3); k >= 0; k-- {
				a := uDelegator + i
				g.send(a, true, &delegationtypes.MsgDelegate{Creator: addr(a), Staker: g.staker(), Amount: 1 + r.U64n(c.Scale)})
			}
		}
		if r.P(0.3 + g.wt["team"]) {
			for k := r.Intn(4); k >= 0; k-- {
				i, m := g.team()
				g.send(i, true, m)
			}
		}
	}
}

func (g *Gen) workload() {
	n := func(w float64) int {
		k := int(w)
		if g.r.P(w - float64(k)) {
			k++
		}
		return k
	}
	g.duty(false)
	g.stuck()
	g.even()
	if g.cfg.Big > 0 {
		for i := g.r.Range(1, 4); i > 0; i-- {
			g.crowd()
		}
	}
	for i := n(g.wt["bchaos"]); i > 0; i-- {
		g.bchaos()
	}
	one := func(cat string, f func() (int, sdk.Msg)) {
		for i := n(g.wt[cat]); i > 0; i-- {
			k, m := f()
			g.send(k, false, m)
		}
	}
	one("deleg", g.deleg)
	one("stake", g.stake)
	one("fund", g.fund)
	one("team", g.team)
	one("bank", g.bank)
	for i := n(g.wt["gov"]); i > 0; i-- {
		g.gov()
	}
	for i := n(g.wt["garbage"]); i > 0; i-- {
		g.garbage()
	}
	if g.r.P(0.03) {
		g.forged()
	}
	if g.r.P(0.12) {
		g.multi()
	}
}

// nodeFaults plays the operators and the hardware of the other nodes.
func (g *Gen) nodeFaults(rate float64) {
	r := g.rn
	w := g.w
	for _, n := range w.nodes[1:] {
		seed := r.U64()
		if n.dead {
			switch {
			case r.P(0.15):
				w.Do(Step{Node: &NodeStep{Node: n.id, Kind: "crash-in-start", Seed: seed}})
			case r.P(0.05):
				w.Do(Step{Node: &NodeStep{Node: n.id, Kind: "state-sync", K: r.Intn(12)}})
			case r.P(0.45):
				w.Do(Step{Node: &NodeStep{Node: n.id, Kind: "restart"}})
			}
			continue
		}
		if r.P(rate) {
			k := pick(r, []string{"kill", "crash-before-finalize", "crash-after-finalize", "crash-in-commit", "crash-in-commit", "crash-in-commit", "io-error", "disk-full", "lag"})
			w.Do(Step{Node: &NodeStep{Node: n.id, Kind: k, K: r.Range(1, 14), Seed: seed}})
		}
		if r.P(rate / 4) {
			w.Do(Step{Node: &NodeStep{Node: n.id, Kind: "clock", K: r.Intn(len(skews))}})
		}
		if r.P(rate / 5) {
			w.Do(Step{Node: &NodeStep{Node: n.id, Kind: pick(r, []string{"state-sync", "rollback"}), K: r.Intn(12)}})
		}
		for k := r.Intn(3); k > 0; k-- {
			if len(w.txs) == 0 {
				break
			}
			s := &NodeStep{Node: n.id, Kind: pick(r, []string{"check", "check", "recheck", "simulate", "propose", "speculate", "catchup"})}
			s.Tx = g.id - r.Intn(min(g.id, 30))
			w.Do(Step{Node: s})
		}
	}
}

func (g *Gen) block(dt int64) {
	g.block2(dt, false)
}

func (g *Gen) block2(dt int64, calm bool) {
	var refs []TxRef
	var rest []inFlight
	h := g.w.h + 1
	for _, f := range g.net {
		if f.due <= h {
			refs = append(refs, TxRef{f.id, f.off})
		} else {
			rest = append(rest, f)
		}
	}
	g.net = rest
	if !calm && g.rn.P(0.5) {
		p := g.rn.Perm(len(refs))
		o := make([]TxRef, len(refs))
		for i, j := range p {
			o[i] = refs[j]
		}
		if len(o) > 1 {
			g.w.stats.fault("txs reordered")
		}
		refs = o
	}
	b := &BlockStep{Dt: dt, Txs: refs, Old: g.last}
	if r := g.rc; g.cfg.ConsFault == 1 {
		if g.w.st.Cons2.IsZero() && g.ra.P(0.1) { // perhaps it may come back
			g.send(uBCP, true, &slashingtypes.MsgUnjail{ValidatorAddr: sdk.ValAddress(account(uBCP).Acc).String()})
		}
		if g.absent == 0 && r.P(0.08) {
			g.absent = r.Range(1, 12)
		}
		b.Absent = g.absent > 0
		g.absent = max(g.absent-1, 0)
	} else if g.cfg.ConsFault == 2 {
		b.Double = r.P(0.03)
	}
	g.w.Do(Step{Block: b})
}

// old: the software upgrade is still to come.
func (g *Gen) old() bool { return g.cfg.Upgrade && g.w.oldAt == 0 }

// Run plays the whole execution.
func (g *Gen) Run() {
	w := g.w
	r := g.rn
	nodeRate := pick(r, []float64{0.02, 0.08, 0.2})
	qRate := 0.01
	switch g.cfg.Profile {
	case "", "X01", "X02", "X04":
		qRate = 0.05
	}
	if g.cfg.Profile == "X06" {
		qRate = 0.35
	}
	aRate := 0.01
	if g.cfg.Profile == "X02" {
		aRate = 0.1
	}
	exports := 0
	switch {
	case g.cfg.Profile == "X05":
		exports = r.Range(1, 2)
	case r.P(0.08):
		exports = 1
	}
	exAt := map[int]bool{}
	for i := 0; i < exports; i++ {
		exAt[r.Range(6, g.cfg.Blocks-1)] = true
	}
	if g.cfg.Upgrade {
		g.upAt = r.Range(6, max(g.cfg.Blocks*2/3, 8))
		for b := range exAt {
			if b <= g.upAt+2 {
				delete(exAt, b)
			}
		}
	}
	calm := r.P(0.35) || g.cfg.Profile == "B05" && r.P(0.7)
	w.Do(Step{Block: &BlockStep{Dt: 1000}})
	for b := 1; b < g.cfg.Blocks && !w.halted; b++ {
		dt := g.dt()
		g.at = (g.cfg.T0*1000 + w.ms + dt) / 1000
		if b <= 3 {
			g.setup(b - 1)
		} else {
			g.workload()
		}
		if g.faults {
			rate := nodeRate
			if w.oldAt > 0 && w.h <= w.oldAt+1 || g.old() && b == g.upAt {
				rate = max(rate, 0.5)
			}
			g.nodeFaults(rate)
		}
		if g.old() && b >= g.upAt && b+4 < g.cfg.Blocks {
			// tried again should the state not fit version 1.4
			g.last = true
		}
		g.block(dt)
		g.last = false
		edge := false // something is due or ends right now
		if qRate > 0.1 {
			for _, t := range g.deadlines() {
				edge = edge || t == w.now()
			}
		}
		if r.P(qRate) || edge && r.P(0.5) {
			w.Do(Step{Check: &CheckStep{Kind: "query", Node: r.Intn(len(w.nodes)), Seed: r.U64()}})
		}
		if g.faults && len(w.nodes) > 1 && r.P(aRate) {
			w.Do(Step{Check: &CheckStep{Kind: "answers"}})
		}
		if exAt[b] {
			w.Do(Step{Check: &CheckStep{Kind: "export", Seed: r.U64(), N: r.Range(2, 20), Node: r.Intn(5) / 4}})
		}
	}
	if calm && !w.halted {
		g.net = nil
		w.Do(Step{Check: &CheckStep{Kind: "calm"}})
		for b := 0; b < calmBlocks && !w.halted; b++ {
			var dt uint64 = 1
			for _, p := range w.st.Pools {
				dt = max(dt, p.UploadInterval)
			}
			d := int64(dt)*1000 + int64(r.Intn(3000)) + 1000
			g.at = (g.cfg.T0*1000 + w.ms + d) / 1000
			g.duty(true)
			g.block2(d, true)
		}
	}
	// nodes which just restarted are compared once they executed a block
	late := false
	for _, n := range w.nodes[1:] {
		if n.dead && !w.halted {
			w.Do(Step{Node: &NodeStep{Node: n.id, Kind: "restart"}})
		}
		late = late || n.fresh || n.lag > 0
	}
	if late && !w.halted {
		w.Do(Step{Block: &BlockStep{Dt: 1000}})
	}
}

// sharp is a governance message which changes something just when it matters
// for what is going on.
func (g *Gen) sharp(auth string) sdk.Msg {
	s := g.w.st
	r := g.r
	js := func(k string, v interface{}) string { return mustJSON(map[string]interface{}{k: v}) }
	around := func(v uint64) uint64 {
		d := r.U64n(3)
		if r.P(0.5) {
			if v <= d {
				return 1
			}
			return v - d
		}
		return v + d
	}
	bun := func(k string, v interface{}) sdk.Msg {
		return &bundlestypes.MsgUpdateParams{Authority: auth, Payload: js(k, v)}
	}
	del := func(k string, v interface{}) sdk.Msg {
		return &delegationtypes.MsgUpdateParams{Authority: auth, Payload: js(k, v)}
	}
	stk := func(k string, v interface{}) sdk.Msg {
		return &stakerstypes.MsgUpdateParams{Authority: auth, Payload: js(k, v)}
	}
	upd := func(id uint64, k string, v interface{}) sdk.Msg {
		return &pooltypes.MsgUpdatePool{Authority: auth, Id: id, Payload: js(k, v)}
	}
	kinds := sharpKinds[g.cfg.Profile]
	if kinds == nil || r.P(0.4) {
		kinds = sharpAll
	}
	id := g.pool()
	p := s.Pools[id]
	if p == nil {
		return &globaltypes.MsgUpdateParams{Authority: auth, Payload: js("burn_ratio", g.decimal(1).String())}
	}
	switch pick(r, kinds) {
	case "points":
		var most uint64
		for _, v := range s.Vals {
			most = max(most, v.Points)
		}
		return bun("max_points", max(1, around(most)))
	case "timeout":
		return bun("upload_timeout", pick(r, []uint64{1, uint64(r.Range(1, 20)), uint64(r.Range(100, 400))}))
	case "fee":
		return bun("network_fee", pick(r, []string{"0", "1", "0.000000000000000001", g.decimal(1).String()}))
	case "costs":
		var l []bundlestypes.StorageCost
		for i := 1; i <= 3; i++ {
			if r.P(0.7) {
				l = append(l, bundlestypes.StorageCost{StorageProviderId: uint32(i), Cost: rstorage(r)})
			}
		}
		return bun("storage_costs", l)
	case "redelegations":
		var most uint64
		for _, l := range s.Cool {
			most = max(most, uint64(len(l)))
		}
		if g.cfg.Profile == "X06" && r.P(0.5) {
			return del("redelegation_max_amount", 1)
		}
		return del("redelegation_max_amount", max(1, around(most)))
	case "cooldown":
		return del("redelegation_cooldown", pick(r, []uint64{0, r.U64n(20), r.U64n(100), 400 + r.U64n(1000)}))
	case "unbonding":
		return del("unbonding_delegation_time", pick(r, []uint64{0, r.U64n(20), r.U64n(100), 400 + r.U64n(1000)}))
	case "slash":
		return del(pick(r, []string{"vote_slash", "upload_slash", "timeout_slash"}), rslash(r).String())
	case "commission":
		return stk("commission_change_time", pick(r, []uint64{0, r.U64n(20), r.U64n(100), 400 + r.U64n(1000)}))
	case "leave":
		return stk("leave_pool_time", pick(r, []uint64{0, r.U64n(20), r.U64n(100), 400 + r.U64n(1000)}))
	case "whitelist":
		var l []*funderstypes.WhitelistCoinEntry
		drop := pick(r, g.cfg.Denoms)
		for _, d := range g.cfg.Denoms {
			if d == drop && d != denom {
				continue
			}
			e := (&M{State: s}).whitelist(d)
			if e == nil || r.P(0.3) {
				e = g.cfg.rwhitelist(r, d)
			}
			l = append(l, e)
		}
		return &funderstypes.MsgUpdateParams{Authority: auth, Payload: js("coin_whitelist", l)}
	case "multiple":
		return &funderstypes.MsgUpdateParams{Authority: auth, Payload: js("min_funding_multiple", r.U64n(30))}
	case "power":
		return &pooltypes.MsgUpdateParams{Authority: auth, Payload: js("max_voting_power_per_pool", pick(r, []string{"1", "0.5", "0.34", "0.6", "0.999999999999999999", "0.75"}))}
	case "inflation":
		k := pick(r, []string{"protocol_inflation_share", "pool_inflation_payout_rate"})
		return &pooltypes.MsgUpdateParams{Authority: auth, Payload: js(k, pick(r, []string{"0", "1", g.decimal(1).String(), g.decimal(1).String()}))}
	case "mindel":
		var t uint64
		for _, a := range membersOf(s, id) {
			t += s.DelTotal[a]
		}
		return upd(id, "MinDelegation", around(t))
	case "endkey":
		k := p.CurrentKey
		if b := s.Props[id]; b != nil && b.ToKey != "" && r.P(0.7) {
			k = b.ToKey
		}
		return upd(id, "EndKey", k)
	case "provider":
		return &pooltypes.MsgUpdatePool{Authority: auth, Id: id, Payload: mustJSON(map[string]interface{}{"StorageProviderId": r.Intn(4), "CompressionId": r.Intn(3)})}
	case "interval":
		return upd(id, "UploadInterval", pick(r, []uint64{1, 5, 20, 90, 300}))
	case "weight":
		return upd(id, "InflationShareWeight", pick(r, []string{"0", "1", "0.5", "1000000"}))
	case "bundlesize":
		return upd(id, "MaxBundleSize", pick(r, []uint64{0, 1, 3, 50}))
	case "disable":
		if p.Disabled {
			return &pooltypes.MsgEnablePool{Authority: auth, Id: id}
		}
		return &pooltypes.MsgDisablePool{Authority: auth, Id: id}
	case "create":
		if g.old() {
			break
		}
		n := rpool(r, g.cfg, 0)
		start := pick(r, []string{"0", "", "7"})
		return &pooltypes.MsgCreatePool{Authority: auth, Name: g.moniker(), Runtime: n.Runtime, Logo: pick(r, []string{"", "l"}), Config: pick(r, []string{"", "c"}),
			StartKey: start, EndKey: pick(r, []string{"", start, n.EndKey}), UploadInterval: pick(r, []uint64{0, 1, n.UploadInterval}),
			InflationShareWeight: n.InflationShareWeight, MinDelegation: pick(r, []uint64{0, n.MinDelegation}), MaxBundleSize: pick(r, []uint64{0, 1, n.MaxBundleSize}),
			Version: pick(r, []string{"", "1.2.3"}), Binaries: pick(r, []string{"{}", `{"linux":"x"}`}), StorageProviderId: n.CurrentStorageProviderId, CompressionId: n.CurrentCompressionId}
	case "schedule":
		now := uint64(g.at)
		return &pooltypes.MsgScheduleRuntimeUpgrade{Authority: auth, Runtime: p.Runtime, Version: fmt.Sprintf("2.%d.0", r.Intn(3)),
			ScheduledAt: now + pick(r, []uint64{0, 30, r.U64n(400), 3000}), Duration: pick(r, []uint64{0, r.U64n(100), 2000}), Binaries: "{}"}
	case "cancel":
		return &pooltypes.MsgCancelRuntimeUpgrade{Authority: auth, Runtime: pick(r, g.cfg.runtimes())}
	}
	return &globaltypes.MsgUpdateParams{Authority: auth, Payload: js("burn_ratio", g.decimal(1).String())}
}

var sharpAll = []string{"points", "timeout", "fee", "costs", "redelegations", "cooldown", "unbonding", "slash", "commission", "leave", "whitelist", "multiple",
	"power", "inflation", "mindel", "endkey", "provider", "interval", "weight", "bundlesize", "disable", "burn", "create", "schedule", "cancel"}

// sharpKinds are the changes which matter most for a property.
var sharpKinds = map[string][]string{
	"B01": {"provider", "endkey", "bundlesize"}, "B02": {"mindel", "power"}, "B03": {"interval", "bundlesize", "disable"}, "B04": {"mindel", "disable"},
	"B05": {"timeout", "interval", "disable", "points"}, "B06": {"points", "slash", "timeout"}, "B07": {"fee", "costs", "provider", "whitelist", "inflation"},
	"D01": {"slash", "points"}, "D02": {"fee", "slash"}, "D03": {"unbonding", "slash"}, "D04": {"redelegations", "cooldown"},
	"S01": {"power", "leave"}, "S02": {"commission"}, "S03": {"leave", "disable", "points"}, "F01": {"whitelist", "multiple", "disable"},
	"F02": {"whitelist", "multiple", "disable"}, "P01": {"create", "create", "schedule", "cancel", "disable"}, "P02": {"mindel", "power", "endkey", "disable", "schedule", "cancel"}, "P03": {"inflation", "weight", "disable", "create"},
	"T01": nil, "G01": {"burn"}, "X06": {"whitelist", "provider", "mindel", "redelegations"},
}
