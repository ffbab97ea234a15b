package main

import (
	"fmt"
	"sort"
	"strings"

	"cosmossdk.io/math"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	"github.com/cosmos/cosmos-sdk/codec"
	sdk "github.com/cosmos/cosmos-sdk/types"
	distrtypes "github.com/cosmos/cosmos-sdk/x/distribution/types"
	"github.com/cosmos/gogoproto/proto"
)

// The reference model: a small executable specification of the protocol
// working on State. It predicts, from the state after block h-1 and the
// content of block h, the state after block h. It shares only plain data
// types and fixed-point arithmetic with the code under test.

// Op records that something happened in a block, with the subjects it
// concerns; it is used to attribute differences to properties.
type Op struct {
	Kind string
	Subj []string
}

type M struct {
	*State
	cfg    *Cfg
	h, now int64
	ns     int64    // block time in nanoseconds
	bonded math.Int // total stake of the consensus validators when votes are counted
	cdc    codec.Codec

	Ops       []Op
	Failed    []Op // operations of failed transactions and proposals
	GovFailed []Op // operations of failed proposals
	Evs       []proto.Message
	fuzz      map[string]int64 // tolerated absolute difference per component key
	ambig     bool             // the outcome of the current tx depends on rounding the model does not track
	poison    bool             // a decision in this block depended on rounding the model does not track
	cells     map[string]int   // coverage cells reached
	slashed   map[string]bool  // stakers slashed so far
	known     []string         // ids of known findings this block shows
}

type merr struct {
	prop string
	msg  string
}

func (e *merr) Error() string { return e.prop + ": " + e.msg }

func fail(prop, f string, a ...interface{}) *merr { return &merr{prop, fmt.Sprintf(f, a...)} }

func (m *M) op(kind string, subj ...string) { m.Ops = append(m.Ops, Op{kind, subj}) }

func (m *M) cell(f string, a ...interface{}) {
	if m.cells != nil {
		m.cells[fmt.Sprintf(f, a...)]++
	}
}

func (m *M) fz(key string, n int64) {
	if n != 0 {
		m.fuzz[key] += n
	}
}

func fzBal(a, d string) string { return "bal/" + a + "/" + d }
func fzDel(s, d string) string { return "del/" + s + "/" + d }
func fzTot(s string) string    { return "tot/" + s }

func poolSubj(id uint64) string { return fmt.Sprintf("pool:%d", id) }

const (
	mDelegation   = "delegation"
	mStakers      = "stakers"
	mFunders      = "funders"
	mPool         = "pool"
	mTeam         = "team"
	mFeeCollector = "fee_collector"
	mDistribution = distrtypes.ModuleName
)

var modAddrs = map[string]string{}

func mod(name string) string {
	if a, ok := modAddrs[name]; ok {
		return a
	}
	a := moduleAddr(name)
	modAddrs[name] = a
	return a
}

func poolAcc(id uint64) string { return mod(fmt.Sprintf("pool/%d", id)) }

var blockedMods = []string{mFeeCollector, mDistribution, "mint", "bonded_tokens_pool", "not_bonded_tokens_pool", "transfer",
	"bundles", mDelegation, mPool, mStakers, mTeam, mFunders}

func blockedAddr(a string) bool {
	for _, n := range blockedMods {
		if mod(n) == canon(a) {
			return true
		}
	}
	return false
}

func one(d string, a math.Int) sdk.Coins {
	if a.IsZero() {
		return sdk.Coins{}
	}
	return sdk.Coins{sdk.Coin{Denom: d, Amount: a}}
}

func kyve(a uint64) sdk.Coins { return one(denom, math.NewIntFromUint64(a)) }

// tooBig: amounts above 2^63-1 cannot be transferred.
func tooBig(a uint64) bool { return a > 1<<63-1 }

func (m *M) bal(a, d string) math.Int {
	if v, ok := m.Bal[bk{a, d}]; ok {
		return v
	}
	return math.ZeroInt()
}

func (m *M) setBal(a, d string, v math.Int) {
	if v.IsZero() {
		delete(m.Bal, bk{a, d})
	} else {
		m.Bal[bk{a, d}] = v
	}
}

func (m *M) credit(a string, cs sdk.Coins) {
	for _, c := range cs {
		m.setBal(a, c.Denom, m.bal(a, c.Denom).Add(c.Amount))
	}
}

// canon is the account an address (in either case) stands for.
func canon(a string) string { return strings.ToLower(a) }

// send moves coins; it fails without effect if the sender has not enough.
func (m *M) send(from, to string, cs sdk.Coins) bool {
	from, to = canon(from), canon(to)
	for _, c := range cs {
		b := m.bal(from, c.Denom)
		f := m.fuzz[fzBal(from, c.Denom)]
		if b.LT(c.Amount) {
			if f > 0 && !b.AddRaw(f).LT(c.Amount) {
				m.ambig = true
			}
			return false
		}
		if f > 0 && b.SubRaw(f).LT(c.Amount) {
			m.ambig = true
		}
	}
	for _, c := range cs {
		m.setBal(from, c.Denom, m.bal(from, c.Denom).Sub(c.Amount))
	}
	m.credit(to, cs)
	return true
}

// treasury moves coins into the community pool.
func (m *M) treasury(from string, cs sdk.Coins) bool {
	if !m.send(from, mod(mDistribution), cs) {
		return false
	}
	for _, c := range cs {
		v, ok := m.ComPool[c.Denom]
		if !ok {
			v = math.ZeroInt()
		}
		m.ComPool[c.Denom] = v.Add(c.Amount)
	}
	return true
}

func decMulTrunc(d math.LegacyDec, i math.Int) math.Int { return d.MulInt(i).TruncateInt() }

// ---------------------------------------------------------------- snapshots

type saved struct {
	st   *State
	ops  int
	evs  int
	fuzz map[string]int64
}

func (m *M) save() saved {
	return saved{m.State.Clone(), len(m.Ops), len(m.Evs), cmap(m.fuzz)}
}

func (m *M) restore(s saved) {
	m.State = s.st
	m.Failed = append(m.Failed, m.Ops[s.ops:]...)
	m.Ops = m.Ops[:s.ops]
	m.Evs = m.Evs[:s.evs]
	m.fuzz = s.fuzz
}

// ---------------------------------------------------------------- helpers

func (m *M) poolIds() []uint64 {
	var l []uint64
	for id := range m.Pools {
		l = append(l, id)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

func (m *M) setPool(p PoolS) { m.Pools[p.Id] = &p }

// members lists a pool's validators in address order.
func (m *M) members(id uint64) []string { return membersOf(m.State, id) }

func membersOf(s *State, id uint64) []string {
	var l []string
	for k := range s.Vals {
		if k.P == id {
			l = append(l, k.S)
		}
	}
	sort.Strings(l)
	return l
}

func (m *M) isMember(id uint64, s string) bool { _, ok := m.Vals[vk{id, s}]; return ok }

func (m *M) proposal(id uint64) bundlestypes.BundleProposal {
	if p, ok := m.Props[id]; ok {
		return *p
	}
	return bundlestypes.BundleProposal{PoolId: id}
}

func (m *M) setProposal(p bundlestypes.BundleProposal) { m.Props[p.PoolId] = &p }

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func without(l []string, s string) []string {
	var o []string
	for _, x := range l {
		if x != s {
			o = append(o, x)
		}
	}
	return o
}

func minInt(a, b math.Int) math.Int {
	if a.LT(b) {
		return a
	}
	return b
}

func coinsMin(a, b sdk.Coins) sdk.Coins {
	o := sdk.Coins{}
	for _, c := range a {
		if v := minInt(c.Amount, b.AmountOf(c.Denom)); v.IsPositive() {
			o = append(o, sdk.Coin{Denom: c.Denom, Amount: v})
		}
	}
	return o
}

func mulDecTrunc(cs sdk.Coins, d math.LegacyDec) sdk.Coins {
	o := sdk.Coins{}
	for _, c := range cs {
		if v := decMulTrunc(d, c.Amount); v.IsPositive() {
			o = append(o, sdk.Coin{Denom: c.Denom, Amount: v})
		}
	}
	return o
}
