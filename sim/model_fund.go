package main

import (
	"cosmossdk.io/math"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
)

func (m *M) whitelist(d string) *funderstypes.WhitelistCoinEntry {
	var r *funderstypes.WhitelistCoinEntry
	for _, e := range m.F.CoinWhitelist {
		if e.CoinDenom == d {
			r = e
		}
	}
	return r
}

func (m *M) score(cs sdk.Coins) uint64 {
	var t uint64
	for _, c := range cs {
		if e := m.whitelist(c.Denom); e != nil {
			t += e.CoinWeight.MulInt(c.Amount).Quo(pow10(e.CoinDecimals)).TruncateInt().Uint64()
		}
	}
	return t
}

func pow10(n uint32) math.LegacyDec {
	return math.LegacyNewDecFromInt(math.NewIntWithDecimal(1, int(n)))
}

// clean drops per-bundle amounts of coins the funder has none of.
func clean(f *funderstypes.Funding) {
	o := sdk.Coins{}
	for _, c := range f.AmountsPerBundle {
		if f.Amounts.AmountOf(c.Denom).IsPositive() {
			o = append(o, c)
		}
	}
	f.AmountsPerBundle = o
}

// compatible checks a funding against the funding parameters.
func (m *M) compatible(f *funderstypes.Funding) *merr {
	clean(f)
	for _, c := range f.Amounts {
		if !f.AmountsPerBundle.AmountOf(c.Denom).IsPositive() {
			return fail("F02", "coin without amount per bundle")
		}
		e := m.whitelist(c.Denom)
		if e == nil {
			return fail("F02", "coin not whitelisted")
		}
		if m.minOf(c.Denom, false).GT(c.Amount) {
			return fail("F02", "below minimum amount")
		}
		pb := f.AmountsPerBundle.AmountOf(c.Denom)
		if m.minOf(c.Denom, true).GT(pb) {
			return fail("F02", "below minimum amount per bundle")
		}
		if m.F.MinFundingMultiple > 0 && pb.Mul(math.NewIntFromUint64(m.F.MinFundingMultiple)).GT(c.Amount) {
			return fail("F02", "below minimum multiple")
		}
	}
	return nil
}

// minOf: the minimums of one coin (several entries of a coin add up).
func (m *M) minOf(d string, perBundle bool) math.Int {
	t := math.ZeroInt()
	for _, e := range m.F.CoinWhitelist {
		if e.CoinDenom == d {
			if perBundle {
				t = t.Add(e.MinFundingAmountPerBundle)
			} else {
				t = t.Add(e.MinFundingAmount)
			}
		}
	}
	return t
}

func (m *M) setFunding(f funderstypes.Funding) { m.Fundings[fk{f.PoolId, f.FunderAddress}] = &f }

func (m *M) setInactive(pool uint64, funder string) {
	l := append([]string(nil), m.FState[pool]...)
	for i, a := range l {
		if a == funder {
			l[i] = l[len(l)-1]
			l = l[:len(l)-1]
			break
		}
	}
	m.FState[pool] = l
}

func (m *M) createFunder(x *funderstypes.MsgCreateFunder) *merr {
	if _, ok := m.Funders[x.Creator]; ok {
		return fail("F01", "funder created twice")
	}
	m.op("funder", x.Creator)
	m.Funders[x.Creator] = &funderstypes.Funder{Address: x.Creator, Moniker: x.Moniker, Identity: x.Identity, Website: x.Website, Contact: x.Contact, Description: x.Description}
	return nil
}

func (m *M) updateFunder(x *funderstypes.MsgUpdateFunder) *merr {
	if _, ok := m.Funders[x.Creator]; !ok {
		return fail("F01", "unknown funder updated")
	}
	m.op("funder", x.Creator)
	m.Funders[x.Creator] = &funderstypes.Funder{Address: x.Creator, Moniker: x.Moniker, Identity: x.Identity, Website: x.Website, Contact: x.Contact, Description: x.Description}
	return nil
}

func (m *M) fundPool(x *funderstypes.MsgFundPool) *merr {
	if _, ok := m.Funders[x.Creator]; !ok {
		return fail("F01", "fund by unknown funder")
	}
	if _, ok := m.Pools[x.PoolId]; !ok {
		return fail("F01", "fund unknown pool")
	}
	act, ok := m.FState[x.PoolId]
	if !ok {
		return fail("F01", "no funding state")
	}
	f := funderstypes.Funding{FunderAddress: x.Creator, PoolId: x.PoolId}
	pb := sdk.Coins(nil).Add(x.AmountsPerBundle...)
	if o, ok := m.Fundings[fk{x.PoolId, x.Creator}]; ok {
		f = *o
		for _, c := range f.AmountsPerBundle {
			if !pb.AmountOf(c.Denom).IsPositive() {
				pb = pb.Add(c)
			}
		}
	}
	f.Amounts = sdk.Coins(nil).Add(f.Amounts...).Add(x.Amounts...)
	f.AmountsPerBundle = pb
	if e := m.compatible(&f); e != nil {
		return e
	}
	if f.Amounts.IsZero() {
		return fail("F01", "funding without funds")
	}
	m.op("fund", x.Creator, poolSubj(x.PoolId))
	isActive := has(act, x.Creator)
	if len(act) >= maxFunders && !isActive {
		low := act[0]
		for _, a := range act {
			if m.score(m.Fundings[fk{x.PoolId, a}].Amounts) < m.score(m.Fundings[fk{x.PoolId, low}].Amounts) {
				low = a
			}
		}
		lf := *m.Fundings[fk{x.PoolId, low}]
		if m.score(f.Amounts) < m.score(lf.Amounts) {
			return fail("F01", "pool full and less than the lowest funder")
		}
		m.op("fundkick", low, poolSubj(x.PoolId))
		m.cell("fundkick")
		if !m.send(mod(mFunders), low, lf.Amounts) {
			return fail("F01", "funders module cannot refund")
		}
		lf.Amounts, lf.AmountsPerBundle = sdk.Coins{}, sdk.Coins{}
		m.setFunding(lf)
		m.setInactive(x.PoolId, low)
	}
	if !m.send(x.Creator, mod(mFunders), x.Amounts) {
		return fail("F01", "fund without balance")
	}
	if !isActive {
		m.FState[x.PoolId] = append(full(m.FState[x.PoolId]), x.Creator)
	}
	m.setFunding(f)
	return nil
}

func (m *M) defundPool(x *funderstypes.MsgDefundPool) *merr {
	o, ok := m.Fundings[fk{x.PoolId, x.Creator}]
	if !ok {
		return fail("F01", "defund without funding")
	}
	f := *o
	d := coinsMin(f.Amounts, x.Amounts)
	if d.IsZero() {
		return fail("F01", "nothing to defund")
	}
	f.Amounts = f.Amounts.Sub(d...)
	if e := m.compatible(&f); e != nil {
		return fail("F01", "defund leaves incompatible rest")
	}
	m.op("defund", x.Creator, poolSubj(x.PoolId))
	m.cell("defund/full=%v", f.Amounts.IsZero())
	if f.Amounts.IsZero() {
		m.setInactive(x.PoolId, x.Creator)
	}
	if !m.send(mod(mFunders), x.Creator, d) {
		return fail("F01", "funders module cannot pay")
	}
	m.setFunding(f)
	return nil
}

// chargeFunders collects one bundle from every active funder.
func (m *M) chargeFunders(pool uint64) sdk.Coins {
	act := append([]string(nil), m.FState[pool]...)
	total := sdk.Coins{}
	for _, a := range act {
		f := *m.Fundings[fk{pool, a}]
		pay := sdk.Coins{}
		for _, c := range coinsMin(f.Amounts, f.AmountsPerBundle) {
			if m.whitelist(c.Denom) != nil {
				pay = append(pay, c)
			}
		}
		f.TotalFunded = sdk.Coins(nil).Add(f.TotalFunded...).Add(pay...)
		f.Amounts = f.Amounts.Sub(pay...)
		clean(&f)
		total = total.Add(pay...)
		if f.Amounts.IsZero() {
			m.setInactive(pool, a)
			m.cell("charge/exhausted")
		}
		m.setFunding(f)
		m.op("charged", a, poolSubj(pool))
	}
	if len(act) > 0 && len(m.FState[pool]) == 0 {
		m.Evs = append(m.Evs, &funderstypes.EventPoolOutOfFunds{PoolId: pool})
	}
	m.cell("charge/n=%d/coins=%d", len(act), len(total))
	m.send(mod(mFunders), mod(mPool), total)
	return total
}
