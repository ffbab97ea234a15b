package main

import (
	"sort"
	"strings"
	"time"

	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
)

// A user may let another one send messages of a type for it (x/authz). Such
// messages reach the modules inside a MsgExec, past everything that looks at
// the messages of a transaction.

type authKey struct{ Granter, Grantee, Type string }

// leaves are the messages of a transaction with the wrapped ones unpacked.
func leaves(msgs []sdk.Msg) (l []sdk.Msg) {
	for _, m := range msgs {
		if x, ok := m.(*authz.MsgExec); ok {
			if in, err := x.GetMessages(); err == nil && len(in) > 0 {
				l = append(l, leaves(in)...)
				continue
			}
		}
		l = append(l, m)
	}
	return
}

func liveAuths(a map[authKey]int64, now int64) map[authKey]int64 {
	l := map[authKey]int64{}
	for k, until := range a {
		if until == 0 || until >= now {
			l[k] = until
		}
	}
	return l
}

func (m *M) authorize(x *authz.MsgGrant) *merr {
	if strings.EqualFold(x.Granter, x.Grantee) || !validAddr(x.Grantee) {
		return fail("X03", "no such grantee")
	}
	a, err := x.GetAuthorization()
	if err != nil {
		return fail("X03", "malformed authorization")
	}
	k := authKey{x.Granter, x.Grantee, a.MsgTypeURL()}
	var until int64
	if x.Grant.Expiration != nil {
		if until = x.Grant.Expiration.UnixNano(); until <= m.ns {
			return fail("X03", "authorization has expired")
		}
	}
	m.op("authz", x.Granter, x.Grantee)
	m.Auths[k] = until
	return nil
}

func (m *M) mayFor(k authKey) bool {
	until, ok := m.Auths[k]
	return ok && (until == 0 || until >= m.ns)
}

func (m *M) revoke(x *authz.MsgRevoke) *merr {
	k := authKey{x.Granter, x.Grantee, x.MsgTypeUrl}
	if !m.mayFor(k) {
		return fail("X03", "no such authorization")
	}
	m.op("authz", x.Granter, x.Grantee)
	delete(m.Auths, k)
	return nil
}

// execFor: messages sent for somebody else.
func (m *M) execFor(x *authz.MsgExec, out *TxOut) *merr {
	msgs, err := x.GetMessages()
	if err != nil || len(msgs) == 0 {
		return fail("X03", "malformed exec")
	}
	for _, msg := range msgs {
		if e := basic(msg); e != nil {
			return e
		}
	}
	for _, msg := range msgs {
		who := strings.ToLower(author(msg))
		ok := m.mayFor(authKey{who, x.Grantee, sdk.MsgTypeURL(msg)})
		m.cell("authz/%s/granted=%v/own=%v", sdk.MsgTypeURL(msg), ok, who == x.Grantee)
		if who != x.Grantee && !ok {
			return fail(ownerProp(msg), "sent by %s for %s without authorization", x.Grantee, who)
		}
		if e := m.exec(msg, out); e != nil {
			return e
		}
	}
	return nil
}

// ---------------------------------------------------------------- workload

// wrap lets another user send the messages.
func (g *Gen) wrap(signer int, msgs []sdk.Msg) (int, []sdk.Msg) {
	r, who, typ := g.ra, addr(signer), sdk.MsgTypeURL(msgs[0])
	if _, ok := msgs[0].(*authz.MsgExec); ok {
		return signer, msgs
	}
	var may []int
	for _, k := range g.authKeys() {
		if k.Granter != who {
			continue
		}
		if r.P(0.03) {
			g.send(signer, true, &authz.MsgRevoke{Granter: k.Granter, Grantee: k.Grantee, MsgTypeUrl: k.Type})
		}
		if i := simUser(k.Grantee); k.Type == typ && i >= 0 {
			may = append(may, i)
		}
	}
	by := -1
	switch {
	case len(may) > 0 && r.P(0.5):
		by = pick(r, may)
	case r.P(g.authP):
		by = pick(r, []int{uGov, uFunder, uFunder + 1, uStaker, uStaker + 1, uDelegator, valUser(uStaker, 0), signer})
		if by != signer && r.P(0.75) {
			var until *time.Time
			if r.P(0.3) {
				t := g.w.time().Truncate(time.Second).Add(time.Duration(r.Intn(3000)) * time.Second)
				until = &t
			}
			grant, err := authz.NewGrant(time.Unix(0, 0), authz.NewGenericAuthorization(typ), until)
			must(err)
			g.send(signer, true, &authz.MsgGrant{Granter: who, Grantee: addr(by), Grant: grant})
			if r.P(0.5) {
				return signer, msgs
			}
		}
	}
	if by < 0 {
		return signer, msgs
	}
	x := authz.NewMsgExec(sdk.MustAccAddressFromBech32(addr(by)), msgs)
	return by, []sdk.Msg{&x}
}

func (g *Gen) authKeys() []authKey {
	var l []authKey
	for k := range g.w.st.Auths {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool {
		a, b := l[i], l[j]
		if a.Granter != b.Granter {
			return a.Granter < b.Granter
		}
		if a.Grantee != b.Grantee {
			return a.Grantee < b.Grantee
		}
		return a.Type < b.Type
	})
	return l
}
