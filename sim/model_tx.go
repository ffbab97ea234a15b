package main

import (
	"encoding/hex"
	"encoding/json"
	abci "github.com/cometbft/cometbft/abci/types"
	stakingtypes "github.com/cosmos/cosmos-sdk/x/staking/types"
	"sort"
	"strings"

	"cosmossdk.io/math"
	feegrant "cosmossdk.io/x/feegrant"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	funderstypes "github.com/KYVENetwork/chain/x/funders/types"
	globaltypes "github.com/KYVENetwork/chain/x/global/types"
	pooltypes "github.com/KYVENetwork/chain/x/pool/types"
	stakerstypes "github.com/KYVENetwork/chain/x/stakers/types"
	teamtypes "github.com/KYVENetwork/chain/x/team/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	banktypes "github.com/cosmos/cosmos-sdk/x/bank/types"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	slashingtypes "github.com/cosmos/cosmos-sdk/x/slashing/types"
)

// TxIn is a transaction as included in a block.
type TxIn struct {
	Signer  int
	Msgs    []sdk.Msg
	Fee     sdk.Coins
	Gas     uint64
	Granter string
	Seq     uint64 // sequence number it was signed with
	NoAcc   bool   // its account did not exist when it was signed
	LowGas  bool   // the gas limit may be too low
	Size    int    // bytes
	Payer   int    // user who pays the fee and signs too, or -1
	PaySeq  uint64
	Forge   string // why its signature is not valid
}

// TxOut is what the chain answered.
type TxOut struct {
	OK       bool
	OutOfGas bool
	Ante     bool // the transaction was accepted (fee taken)
	Log      string
}

func validAddr(s string) bool { _, err := sdk.AccAddressFromBech32(s); return err == nil }

func validCoins(cs sdk.Coins) bool { return len(cs) > 0 && cs.Validate() == nil }

func pct(d math.LegacyDec) bool {
	return !d.IsNil() && !d.IsNegative() && !d.GT(math.LegacyOneDec())
}
func nonneg(d math.LegacyDec) bool { return !d.IsNil() && !d.IsNegative() }

// basic is the stateless validity of a message.
func basic(msg sdk.Msg) *merr {
	bad := func(prop, why string) *merr { return fail(prop, "malformed message: %s", why) }
	addr := func(prop string, as ...string) *merr {
		for _, a := range as {
			if !validAddr(a) {
				return bad(prop, "address")
			}
		}
		return nil
	}
	switch x := msg.(type) {
	case *bundlestypes.MsgSubmitBundleProposal:
		return addr("B03", x.Creator)
	case *bundlestypes.MsgVoteBundleProposal:
		return addr("B03", x.Creator)
	case *bundlestypes.MsgSkipUploaderRole:
		return addr("B03", x.Creator)
	case *bundlestypes.MsgClaimUploaderRole:
		return addr("B03", x.Creator)
	case *delegationtypes.MsgDelegate:
		return addr("D01", x.Creator, x.Staker)
	case *delegationtypes.MsgUndelegate:
		return addr("D03", x.Creator, x.Staker)
	case *delegationtypes.MsgWithdrawRewards:
		return addr("D02", x.Creator, x.Staker)
	case *delegationtypes.MsgRedelegate:
		return addr("D04", x.Creator)
	case *stakerstypes.MsgCreateStaker:
		if !x.Commission.IsNil() && !pct(x.Commission) {
			return bad("S03", "commission")
		}
		return addr("S03", x.Creator)
	case *stakerstypes.MsgUpdateCommission:
		if !pct(x.Commission) {
			return bad("S03", "commission")
		}
		return addr("S03", x.Creator)
	case *stakerstypes.MsgUpdateMetadata:
		if x.Identity != "" {
			if b, err := hex.DecodeString(x.Identity); err != nil || len(b) != 8 {
				return bad("S03", "identity")
			}
		}
		if len(x.Website) > 255 || len(x.Moniker) > 255 || len(x.SecurityContact) > 255 || len(x.Details) > 255 {
			return bad("S03", "too long")
		}
		return addr("S03", x.Creator)
	case *stakerstypes.MsgJoinPool:
		return addr("S01", x.Creator, x.Valaddress)
	case *stakerstypes.MsgLeavePool:
		return addr("S02", x.Creator)
	case *stakerstypes.MsgClaimCommissionRewards:
		if !validCoins(x.Amounts) {
			return bad("S03", "coins")
		}
		return addr("S03", x.Creator)
	case *funderstypes.MsgCreateFunder:
		if x.Moniker == "" {
			return bad("F01", "moniker")
		}
		return addr("F01", x.Creator)
	case *funderstypes.MsgUpdateFunder:
		if x.Moniker == "" {
			return bad("F01", "moniker")
		}
		return addr("F01", x.Creator)
	case *funderstypes.MsgFundPool:
		if len(x.Amounts)+len(x.AmountsPerBundle) == 0 || x.Amounts.Validate() != nil || x.AmountsPerBundle.Validate() != nil {
			return bad("F01", "coins")
		}
		return addr("F01", x.Creator)
	case *funderstypes.MsgDefundPool:
		if !validCoins(x.Amounts) {
			return bad("F01", "coins")
		}
		return addr("F01", x.Creator)
	case *teamtypes.MsgCreateTeamVestingAccount:
		return addr("T01", x.Authority)
	case *teamtypes.MsgClawback:
		return addr("T01", x.Authority)
	case *teamtypes.MsgClaimUnlocked:
		return addr("T01", x.Authority, x.Recipient)
	case *teamtypes.MsgClaimAccountRewards:
		return addr("T02", x.Authority, x.Recipient)
	case *teamtypes.MsgClaimAuthorityRewards:
		return addr("T02", x.Authority, x.Recipient)
	case *pooltypes.MsgCreatePool:
		if x.UploadInterval == 0 || x.MaxBundleSize == 0 || !nonneg(x.InflationShareWeight) {
			return bad("P01", "pool")
		}
		return addr("P01", x.Authority)
	case *pooltypes.MsgUpdatePool:
		var u pooltypes.PoolUpdate
		if json.Unmarshal([]byte(x.Payload), &u) != nil {
			return bad("P01", "payload")
		}
		if u.UploadInterval != nil && *u.UploadInterval == 0 || u.MaxBundleSize != nil && *u.MaxBundleSize == 0 ||
			u.InflationShareWeight != nil && !nonneg(*u.InflationShareWeight) {
			return bad("P01", "pool")
		}
		return addr("P01", x.Authority)
	case *pooltypes.MsgDisablePool:
		return addr("P01", x.Authority)
	case *pooltypes.MsgEnablePool:
		return addr("P01", x.Authority)
	case *pooltypes.MsgScheduleRuntimeUpgrade:
		return addr("P01", x.Authority)
	case *pooltypes.MsgCancelRuntimeUpgrade:
		return addr("P01", x.Authority)
	case *bundlestypes.MsgUpdateParams:
		p := bundlestypes.DefaultParams()
		if json.Unmarshal([]byte(x.Payload), &p) != nil || p.UploadTimeout == 0 || p.MaxPoints == 0 || !pct(p.NetworkFee) {
			return bad("P01", "params")
		}
		for _, c := range p.StorageCosts {
			if !nonneg(c.Cost) {
				return bad("P01", "params")
			}
		}
		return addr("P01", x.Authority)
	case *delegationtypes.MsgUpdateParams:
		p := delegationtypes.DefaultParams()
		if json.Unmarshal([]byte(x.Payload), &p) != nil || !pct(p.VoteSlash) || !pct(p.UploadSlash) || !pct(p.TimeoutSlash) {
			return bad("P01", "params")
		}
		return addr("P01", x.Authority)
	case *pooltypes.MsgUpdateParams:
		p := pooltypes.DefaultParams()
		if json.Unmarshal([]byte(x.Payload), &p) != nil || !pct(p.ProtocolInflationShare) || !pct(p.PoolInflationPayoutRate) || !pct(p.MaxVotingPowerPerPool) {
			return bad("P01", "params")
		}
		return addr("P01", x.Authority)
	case *stakerstypes.MsgUpdateParams:
		p := stakerstypes.DefaultParams()
		if json.Unmarshal([]byte(x.Payload), &p) != nil {
			return bad("P01", "params")
		}
		return addr("P01", x.Authority)
	case *funderstypes.MsgUpdateParams:
		p := funderstypes.DefaultParams()
		if json.Unmarshal([]byte(x.Payload), &p) != nil {
			return bad("P01", "params")
		}
		ok := false
		for _, e := range p.CoinWhitelist {
			if e == nil || e.CoinDenom == "" || e.MinFundingAmount.IsNil() || e.MinFundingAmount.IsNegative() ||
				e.MinFundingAmountPerBundle.IsNil() || e.MinFundingAmountPerBundle.IsNegative() || !nonneg(e.CoinWeight) {
				return bad("P01", "params")
			}
			ok = ok || e.CoinDenom == denom
		}
		if !ok {
			return bad("P01", "params")
		}
		return addr("P01", x.Authority)
	case *globaltypes.MsgUpdateParams:
		p := globaltypes.DefaultParams()
		if json.Unmarshal([]byte(x.Payload), &p) != nil || !nonneg(p.MinGasPrice) || !pct(p.BurnRatio) {
			return bad("P01", "params")
		}
		for _, r := range p.GasRefunds {
			if !pct(r.Fraction) {
				return bad("P01", "params")
			}
		}
		for _, r := range p.GasAdjustments {
			if tooBig(r.Amount) {
				return bad("P01", "params")
			}
		}
		return addr("P01", x.Authority)
	}
	return nil
}

// author is the account whose signature a message needs.
func author(msg sdk.Msg) string {
	switch x := msg.(type) {
	case interface{ GetCreator() string }:
		return x.GetCreator()
	case interface{ GetAuthority() string }:
		return x.GetAuthority()
	case *bundlestypes.MsgSubmitBundleProposal:
		return x.Creator
	case *bundlestypes.MsgVoteBundleProposal:
		return x.Creator
	case *bundlestypes.MsgSkipUploaderRole:
		return x.Creator
	case *bundlestypes.MsgClaimUploaderRole:
		return x.Creator
	case *delegationtypes.MsgDelegate:
		return x.Creator
	case *delegationtypes.MsgUndelegate:
		return x.Creator
	case *delegationtypes.MsgWithdrawRewards:
		return x.Creator
	case *delegationtypes.MsgRedelegate:
		return x.Creator
	case *stakerstypes.MsgCreateStaker:
		return x.Creator
	case *stakerstypes.MsgUpdateCommission:
		return x.Creator
	case *stakerstypes.MsgUpdateMetadata:
		return x.Creator
	case *stakerstypes.MsgJoinPool:
		return x.Creator
	case *stakerstypes.MsgLeavePool:
		return x.Creator
	case *stakerstypes.MsgClaimCommissionRewards:
		return x.Creator
	case *funderstypes.MsgCreateFunder:
		return x.Creator
	case *funderstypes.MsgUpdateFunder:
		return x.Creator
	case *funderstypes.MsgFundPool:
		return x.Creator
	case *funderstypes.MsgDefundPool:
		return x.Creator
	case *teamtypes.MsgCreateTeamVestingAccount:
		return x.Authority
	case *teamtypes.MsgClawback:
		return x.Authority
	case *teamtypes.MsgClaimUnlocked:
		return x.Authority
	case *teamtypes.MsgClaimAccountRewards:
		return x.Authority
	case *teamtypes.MsgClaimAuthorityRewards:
		return x.Authority
	case *pooltypes.MsgCreatePool:
		return x.Authority
	case *pooltypes.MsgUpdatePool:
		return x.Authority
	case *pooltypes.MsgDisablePool:
		return x.Authority
	case *pooltypes.MsgEnablePool:
		return x.Authority
	case *pooltypes.MsgScheduleRuntimeUpgrade:
		return x.Authority
	case *pooltypes.MsgCancelRuntimeUpgrade:
		return x.Authority
	case *pooltypes.MsgUpdateParams:
		return x.Authority
	case *bundlestypes.MsgUpdateParams:
		return x.Authority
	case *delegationtypes.MsgUpdateParams:
		return x.Authority
	case *stakerstypes.MsgUpdateParams:
		return x.Authority
	case *funderstypes.MsgUpdateParams:
		return x.Authority
	case *globaltypes.MsgUpdateParams:
		return x.Authority
	case *banktypes.MsgSend:
		return x.FromAddress
	case *feegrant.MsgGrantAllowance:
		return x.Granter
	case *govv1.MsgSubmitProposal:
		return x.Proposer
	case *govv1.MsgVote:
		return x.Voter
	case *authz.MsgGrant:
		return x.Granter
	case *authz.MsgRevoke:
		return x.Granter
	case *authz.MsgExec:
		return x.Grantee
	case *slashingtypes.MsgUnjail:
		if a, err := sdk.ValAddressFromBech32(x.ValidatorAddr); err == nil {
			return sdk.AccAddress(a).String()
		}
	}
	return ""
}

// exec applies one message.
func (m *M) exec(msg sdk.Msg, out *TxOut) *merr {
	switch x := msg.(type) {
	case *bundlestypes.MsgSubmitBundleProposal:
		return m.submit(x)
	case *bundlestypes.MsgVoteBundleProposal:
		return m.vote(x)
	case *bundlestypes.MsgSkipUploaderRole:
		return m.skip(x)
	case *bundlestypes.MsgClaimUploaderRole:
		return m.claim(x)
	case *delegationtypes.MsgDelegate:
		return m.delegate(x.Creator, x.Staker, x.Amount)
	case *delegationtypes.MsgUndelegate:
		return m.undelegate(x.Creator, x.Staker, x.Amount)
	case *delegationtypes.MsgWithdrawRewards:
		return m.withdrawMsg(x.Creator, x.Staker)
	case *delegationtypes.MsgRedelegate:
		return m.redelegate(x.Creator, x.FromStaker, x.ToStaker, x.Amount)
	case *stakerstypes.MsgCreateStaker:
		c := x.Commission
		if c.IsNil() {
			c = stakerstypes.DefaultCommission
		}
		return m.createStaker(x.Creator, x.Amount, c)
	case *stakerstypes.MsgUpdateCommission:
		return m.updateCommission(x.Creator, x.Commission)
	case *stakerstypes.MsgUpdateMetadata:
		return m.updateMetadata(x)
	case *stakerstypes.MsgJoinPool:
		return m.joinPool(x)
	case *stakerstypes.MsgLeavePool:
		return m.leaveMsg(x.Creator, x.PoolId)
	case *stakerstypes.MsgClaimCommissionRewards:
		return m.claimCommission(x.Creator, x.Amounts)
	case *funderstypes.MsgCreateFunder:
		return m.createFunder(x)
	case *funderstypes.MsgUpdateFunder:
		return m.updateFunder(x)
	case *funderstypes.MsgFundPool:
		return m.fundPool(x)
	case *funderstypes.MsgDefundPool:
		return m.defundPool(x)
	case *teamtypes.MsgCreateTeamVestingAccount:
		return m.teamCreate(x)
	case *teamtypes.MsgClawback:
		return m.teamClawback(x)
	case *teamtypes.MsgClaimUnlocked:
		return m.teamClaimUnlocked(x)
	case *teamtypes.MsgClaimAccountRewards:
		return m.teamClaimRewards(x)
	case *teamtypes.MsgClaimAuthorityRewards:
		return m.teamClaimAuthority(x)
	case *pooltypes.MsgCreatePool:
		return m.createPool(x)
	case *pooltypes.MsgUpdatePool:
		return m.updatePool(x)
	case *pooltypes.MsgDisablePool:
		return m.disablePool(x)
	case *pooltypes.MsgEnablePool:
		return m.enablePool(x)
	case *pooltypes.MsgScheduleRuntimeUpgrade:
		return m.scheduleUpgrade(x)
	case *pooltypes.MsgCancelRuntimeUpgrade:
		return m.cancelUpgrade(x)
	case *banktypes.MsgSend:
		return m.bankSend(x)
	case *feegrant.MsgGrantAllowance:
		return m.grant(x)
	case *govv1.MsgSubmitProposal:
		return m.govSubmit(x, out)
	case *govv1.MsgVote:
		return m.govVote(x)
	case *slashingtypes.MsgUnjail:
		m.cell("unjail/ok=%v", out.OK)
		if !out.OK { // the rules of the slashing module are not modelled
			return fail("", "slashing")
		}
		return nil
	case *authz.MsgGrant:
		return m.authorize(x)
	case *authz.MsgRevoke:
		return m.revoke(x)
	case *authz.MsgExec:
		return m.execFor(x, out)
	}
	if author(msg) != govAddr {
		return fail("P01", "parameters changed without governance")
	}
	m.op("params", "params "+moduleOf(msg))
	switch x := msg.(type) {
	case *bundlestypes.MsgUpdateParams:
		m.B = overlay(m.B, x.Payload)
	case *delegationtypes.MsgUpdateParams:
		m.D = overlay(m.D, x.Payload)
	case *stakerstypes.MsgUpdateParams:
		m.S = overlay(m.S, x.Payload)
	case *funderstypes.MsgUpdateParams:
		m.F = overlay(m.F, x.Payload)
	case *globaltypes.MsgUpdateParams:
		m.G = overlay(m.G, x.Payload)
	case *pooltypes.MsgUpdateParams:
		m.P = overlay(m.P, x.Payload)
	default:
		panic("model: unknown message " + sdk.MsgTypeURL(msg))
	}
	return nil
}

func (m *M) updateMetadata(x *stakerstypes.MsgUpdateMetadata) *merr {
	s, ok := m.Stakers[x.Creator]
	if !ok {
		return fail("S03", "profile of unknown staker")
	}
	m.op("metadata", x.Creator)
	c := *s
	c.Moniker, c.Website, c.Identity, c.SecurityContact, c.Details = x.Moniker, x.Website, x.Identity, x.SecurityContact, x.Details
	m.Stakers[x.Creator] = &c
	return nil
}

func (m *M) bankSend(x *banktypes.MsgSend) *merr {
	if !validAddr(x.FromAddress) || !validAddr(x.ToAddress) || !validCoins(x.Amount) || blockedAddr(x.ToAddress) {
		return fail("X07", "invalid transfer")
	}
	m.op("send", x.FromAddress, x.ToAddress)
	if !m.send(x.FromAddress, x.ToAddress, x.Amount) {
		return fail("X07", "transfer without balance")
	}
	return nil
}

func (m *M) grant(x *feegrant.MsgGrantAllowance) *merr {
	k := sd{x.Granter, x.Grantee}
	if _, ok := m.Grants[k]; ok || x.Granter == x.Grantee {
		return fail("G01", "allowance exists")
	}
	a, err := x.GetFeeAllowanceI()
	b, ok := a.(*feegrant.BasicAllowance)
	if err != nil || !ok {
		return fail("G01", "unsupported allowance")
	}
	m.op("grant", x.Granter, x.Grantee)
	if b.SpendLimit == nil {
		m.Grants[k] = nil
	} else {
		c := b.SpendLimit
		m.Grants[k] = &c
	}
	return nil
}

// useGrant takes a fee from an allowance.
func (m *M) useGrant(granter, grantee string, fee sdk.Coins) bool {
	k := sd{granter, grantee}
	l, ok := m.Grants[k]
	if !ok {
		return false
	}
	if l == nil {
		return true
	}
	left, neg := l.SafeSub(fee...)
	if neg {
		return false
	}
	if left.IsZero() {
		delete(m.Grants, k)
	} else {
		m.Grants[k] = &left
	}
	return true
}

// tx executes a transaction; it returns the reason if it must fail.
func (m *M) tx(t *TxIn, out *TxOut) (e *merr) {
	if !out.Ante && out.OutOfGas && t.LowGas {
		m.cell("tx/outofgas/ante")
		return fail("X03", "out of gas")
	}
	pay := account(t.Signer).Addr
	signer := pay
	var malformed *merr
	for _, msg := range t.Msgs {
		if x := basic(msg); x != nil {
			if !out.Ante {
				return x
			}
			malformed = x // noticed during execution
		}
		if !strings.EqualFold(author(msg), signer) {
			return fail(ownerProp(msg), "signed by somebody else")
		}
	}
	if t.NoAcc {
		m.cell("tx/noaccount")
		return fail("X03", "unknown account")
	}
	if m.h > 1 && m.G.MinGasPrice.IsPositive() {
		need := m.G.MinGasPrice.MulInt(math.NewIntFromUint64(t.Gas)).Ceil().TruncateInt()
		if need.IsPositive() && t.Fee.AmountOf(denom).LT(need) {
			m.cell("tx/feetoolow")
			return fail("G01", "fee below the minimum gas price")
		}
	}
	sv := m.save()
	if t.Payer >= 0 {
		pay = account(t.Payer).Addr
	}
	payer := pay
	if t.Granter != "" && t.Granter != payer {
		if !m.useGrant(t.Granter, payer, t.Fee) {
			m.restore(sv)
			return fail("G01", "no allowance")
		}
		pay = t.Granter
	}
	if !m.send(pay, mod(mFeeCollector), t.Fee) {
		m.restore(sv)
		return fail("G01", "fee cannot be paid")
	}
	if m.Seq[signer] != t.Seq || t.Payer >= 0 && m.Seq[payer] != t.PaySeq {
		m.restore(sv)
		m.cell("tx/badsequence")
		return fail("X03", "wrong sequence number")
	}
	if t.Forge != "" {
		m.restore(sv)
		m.cell("tx/forged/%s", t.Forge)
		return fail("X03 "+ownerProp(leaves(t.Msgs)[0]), "not validly signed (%s)", t.Forge)
	}
	m.Seq[signer]++
	if t.Payer >= 0 {
		m.Seq[payer]++
	}
	// accepted: from here on only the messages can fail
	sv = m.save()
	defer func() {
		if m.ambig { // the outcome depends on rounding: follow the chain
			m.ambig = false
			m.poison = true
		}
		if e != nil {
			m.restore(sv)
		}
	}()
	if out.OutOfGas && t.LowGas {
		m.cell("tx/outofgas")
		e = fail("X03", "out of gas")
	}
	if malformed != nil && e == nil {
		return malformed
	}
	for i, msg := range t.Msgs {
		if x := m.exec(msg, out); x != nil && e == nil {
			e = x
			m.cell("fail/%s/%s/multi=%v/at=%d", sdk.MsgTypeURL(msg), x.msg, len(t.Msgs) > 1, min(i, 2))
		}
		if e != nil {
			return e
		}
		m.cell("ok/%s/multi=%v", sdk.MsgTypeURL(msg), len(t.Msgs) > 1)
	}
	if len(t.Msgs) == 1 && !t.Fee.IsZero() {
		for _, r := range m.G.GasRefunds {
			if r.Type == sdk.MsgTypeURL(t.Msgs[0]) {
				back := mulDecTrunc(t.Fee, r.Fraction)
				m.send(mod(mFeeCollector), pay, back)
				m.op("refund", pay)
				m.cell("refund/payer=%v/granter=%v/zero=%v", payer != signer, pay != payer, back.IsZero())
				break
			}
		}
	}
	return nil
}

// extraGas is what governance adds to the gas of a transaction's messages.
func (m *M) extraGas(t *TxIn) (n uint64) {
	for _, msg := range t.Msgs {
		for _, a := range m.G.GasAdjustments {
			if a.Type == sdk.MsgTypeURL(msg) {
				n += a.Amount
				break
			}
		}
	}
	return n
}

// ownerProp is the property which reserves a message to its owner.
func ownerProp(msg sdk.Msg) string {
	u := sdk.MsgTypeURL(msg)
	switch {
	case author(msg) == govAddr:
		return "P01"
	case hasPrefix(u, "/kyve.bundles"):
		return "B03"
	case hasPrefix(u, "/kyve.delegation"):
		return "D01"
	case hasPrefix(u, "/kyve.stakers"):
		return "S03"
	case hasPrefix(u, "/kyve.funders"):
		return "F01"
	case hasPrefix(u, "/kyve.team"):
		return "T01"
	}
	return "X03"
}

func hasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// ---------------------------------------------------------------- governance

// GovP is a proposal in its voting period.
type GovP struct {
	ID       uint64
	End      int64 // unix nanoseconds
	Deposits map[string]sdk.Coins
	Msgs     []sdk.Msg
	Votes    map[string]govv1.VoteOption
}

type govResult struct {
	Status govv1.ProposalStatus
	Tally  govv1.TallyResult
}

func (m *M) govSubmit(x *govv1.MsgSubmitProposal, out *TxOut) *merr {
	ms, err := x.GetMsgs()
	if err != nil {
		return fail("P01", "malformed proposal")
	}
	for _, msg := range ms {
		if author(msg) != govAddr {
			return fail("P01", "proposal for another authority")
		}
		if e := basic(msg); e != nil {
			return fail("P01", "malformed proposal message")
		}
	}
	if !m.send(x.Proposer, govAddr, x.InitialDeposit) {
		return fail("X07", "deposit without balance")
	}
	if !out.OK { // other rules of the governance module are not modelled
		return fail("", "governance")
	}
	m.op("proposal", x.Proposer)
	return nil
}

func (m *M) govVote(x *govv1.MsgVote) *merr {
	p, ok := m.Gov[x.ProposalId]
	if !ok {
		return fail("", "no such proposal")
	}
	if x.Option < govv1.OptionYes || x.Option > govv1.OptionNoWithVeto {
		return fail("", "no such option")
	}
	c := *p
	c.Votes = cmap(p.Votes)
	c.Votes[x.Voter] = x.Option
	m.Gov[x.ProposalId] = &c
	m.op("govvote", x.Voter)
	return nil
}

// govTally counts consensus stake and the stake of active protocol validators
// with their delegators; a validator votes for those delegators that do not.
func (m *M) govTally(p *GovP) (res map[govv1.VoteOption]math.Int, total math.Int) {
	res = map[govv1.VoteOption]math.Int{}
	for o := govv1.OptionYes; o <= govv1.OptionNoWithVeto; o++ {
		res[o] = math.ZeroInt()
	}
	total = math.ZeroInt()
	add := func(o govv1.VoteOption, a math.Int) { res[o], total = res[o].Add(a), total.Add(a) }
	active := map[string]uint64{}
	for k := range m.Vals {
		active[k.S] = m.power(k.S)
	}
	for voter, opt := range p.Votes {
		switch voter {
		case account(uGov).Addr:
			add(opt, math.NewIntFromUint64(m.cfg.Cons))
			if _, ok := p.Votes[account(consDelegator).Addr]; !ok {
				add(opt, math.NewIntFromUint64(m.cfg.ConsDel))
			}
		case account(uBCP).Addr:
			add(opt, m.Cons2)
		case account(consDelegator).Addr:
			add(opt, math.NewIntFromUint64(m.cfg.ConsDel))
		}
		for s := range active {
			if m.fuzz[fzDel(s, voter)] > 0 {
				m.poison = true
			}
			if a := m.Del[sd{s, voter}]; a > 0 {
				add(opt, math.NewIntFromUint64(a))
			}
		}
		if rest, ok := active[voter]; ok {
			for other := range p.Votes {
				rest -= min(rest, m.Del[sd{voter, other}])
			}
			add(opt, math.NewIntFromUint64(rest))
			m.cell("gov/validatorvote/rest=%v", rest > 0)
		}
	}
	return
}

// govEnd closes the proposals whose voting period is over.
func (m *M) govEnd(nowNs int64, actual map[uint64]govResult) *merr {
	var due []*GovP
	for _, p := range m.Gov {
		if p.End <= nowNs {
			due = append(due, p)
		}
	}
	sort.Slice(due, func(i, j int) bool {
		if due[i].End != due[j].End {
			return due[i].End < due[j].End
		}
		return due[i].ID < due[j].ID
	})
	var first *merr
	report := func(e *merr) {
		if first == nil {
			first = e
		}
	}
	for _, p := range due {
		delete(m.Gov, p.ID)
		for who, cs := range p.Deposits {
			m.send(govAddr, who, cs)
		}
		a, ok := actual[p.ID]
		if !ok {
			report(fail("G02", "proposal %d vanished", p.ID))
			continue
		}
		res, total := m.govTally(p)
		for o, got := range map[govv1.VoteOption]string{govv1.OptionYes: a.Tally.YesCount, govv1.OptionNo: a.Tally.NoCount,
			govv1.OptionAbstain: a.Tally.AbstainCount, govv1.OptionNoWithVeto: a.Tally.NoWithVetoCount} {
			if got != res[o].String() && !m.poison {
				report(fail("G02", "proposal %d counted %s votes for %s, stake says %s", p.ID, got, o, res[o]))
			}
		}
		yes, abst, veto := res[govv1.OptionYes], res[govv1.OptionAbstain], res[govv1.OptionNoWithVeto]
		bonded := m.bonded
		seen := map[string]bool{}
		for k := range m.Vals {
			if !seen[k.S] {
				seen[k.S] = true
				bonded = bonded.Add(math.NewIntFromUint64(m.power(k.S)))
			}
		}
		quorate := !math.LegacyNewDecFromInt(total).Quo(math.LegacyNewDecFromInt(bonded)).LT(dec(m.cfg.Quorum))
		m.cell("gov/quorum=%s/%v", m.cfg.Quorum, quorate)
		pass := quorate && total.GT(abst) && !veto.MulRaw(1000).GT(total.MulRaw(334)) && yes.MulRaw(2).GT(total.Sub(abst))
		var e *merr
		sv := m.save()
		if pass {
			for _, msg := range p.Msgs {
				if e = m.exec(msg, &TxOut{}); e != nil {
					break
				}
			}
			if e != nil {
				n := len(m.Failed)
				m.restore(sv)
				m.GovFailed = append(m.GovFailed, m.Failed[n:]...)
			}
		}
		want := govv1.StatusRejected
		if pass && e == nil {
			want = govv1.StatusPassed
		} else if pass {
			want = govv1.StatusFailed
		}
		m.cell("gov/%s/n=%d", want, len(p.Msgs))
		if a.Status != want && !m.poison {
			prop := "P01"
			if (a.Status == govv1.StatusRejected) == pass {
				prop = "G02"
			}
			report(fail(prop, "proposal %d ended as %s, expected %s", p.ID, a.Status, want))
		}
	}
	return first
}

// ---------------------------------------------------------------- block

// consSlash observes what happens to the second consensus validator at the
// start of the block (staking and slashing are not under test).
func (m *M) consSlash(evs []abci.Event) {
	jailed := false
	bond := mod(stakingtypes.BondedPoolName)
	for _, e := range evs {
		at := attrs(e)
		if at["mode"] != "BeginBlock" {
			continue
		}
		if e.Type == "slash" && at["jailed"] != "" {
			jailed = true
		}
		if cs, err := sdk.ParseCoinsNormalized(at["amount"]); err == nil && e.Type == "burn" && at["burner"] == bond {
			for _, c := range cs {
				m.setBal(bond, c.Denom, m.bal(bond, c.Denom).Sub(c.Amount))
				m.Supply[c.Denom] = m.Supply[c.Denom].Sub(c.Amount)
				m.Cons2 = m.Cons2.Sub(c.Amount)
			}
		}
	}
	m.bonded = m.bal(bond, denom)
	if jailed {
		m.cell("consensus validator jailed")
		m.Cons2 = math.ZeroInt()
	}
}

// bondMoves observes what moves between the two pools of the staking module at
// the end of the block.
func (m *M) bondMoves(evs []abci.Event) {
	a, b := mod(stakingtypes.BondedPoolName), mod(stakingtypes.NotBondedPoolName)
	for _, e := range evs {
		at := attrs(e)
		from, to := at["sender"], at["recipient"]
		if e.Type != "transfer" || at["mode"] != "EndBlock" || !(from == a && to == b || from == b && to == a) {
			continue
		}
		if cs, err := sdk.ParseCoinsNormalized(at["amount"]); err == nil {
			m.send(from, to, cs)
		}
	}
}

// beginBlock predicts the block start; the amount minted and the moves out of
// the fee collector (by receiver) are observed.
func (m *M) beginBlock(minted math.Int, moved map[string]math.Int) {
	m.credit(mod(mFeeCollector), one(denom, minted))
	m.Supply[denom] = m.Supply[denom].Add(minted)
	m.teamInflation(minted)
	m.splitInflation(minted.Sub(m.teamProvision(minted)), moved)
	if m.h > 1 {
		fees := sdk.Coins{}
		for _, d := range allDenoms(m.State) {
			if b := m.bal(mod(mFeeCollector), d); b.IsPositive() {
				fees = append(fees, sdk.Coin{Denom: d, Amount: b})
			}
		}
		m.treasury(mod(mFeeCollector), fees)
	}
	m.processUnbonding()
	m.processCommissionQueue()
	m.processLeaveQueue()
}

func allDenoms(s *State) []string {
	var l []string
	for d := range s.Supply {
		l = append(l, d)
	}
	sort.Strings(l)
	return l
}

func (m *M) endBlock(nowNs int64, gov map[uint64]govResult) *merr {
	e := m.govEnd(nowNs, gov)
	m.poolUpgrades()
	m.uploadTimeout()
	if m.h > 1 {
		for _, d := range allDenoms(m.State) {
			b := m.bal(mod(mFeeCollector), d)
			burn := decMulTrunc(m.G.BurnRatio, b)
			m.setBal(mod(mFeeCollector), d, b.Sub(burn))
			m.Supply[d] = m.Supply[d].Sub(burn)
			if burn.IsPositive() {
				m.cell("burn/all=%v", burn.Equal(b))
			}
		}
	}
	return e
}

// moduleOf is the module of a KYVE message (kyve.MODULE.version.Msg).
func moduleOf(msg sdk.Msg) string {
	l := strings.Split(sdk.MsgTypeURL(msg), ".")
	if len(l) < 2 {
		return ""
	}
	return l[1]
}
