package main

import (
	"strings"

	"fmt"

	"github.com/cosmos/cosmos-sdk/codec"
	codectypes "github.com/cosmos/cosmos-sdk/codec/types"
	"github.com/cosmos/cosmos-sdk/crypto/keys/secp256k1"
	sdk "github.com/cosmos/cosmos-sdk/types"
	txtypes "github.com/cosmos/cosmos-sdk/types/tx"
	"github.com/cosmos/cosmos-sdk/types/tx/signing"
	authtypes "github.com/cosmos/cosmos-sdk/x/auth/types"
)

const chainID = "kyve-sim"

// forger is nobody's account; its key signs forgeries.
const forger = 9999
const denom = "tkyve"

// Account is a simulated user with a deterministic key.
type Account struct {
	Idx  int
	Priv *secp256k1.PrivKey
	Pub  *codectypes.Any
	Acc  sdk.AccAddress
	Addr string
}

var accCache []*Account

// account returns the i-th user; its key depends only on i.
func account(i int) *Account {
	for len(accCache) <= i {
		n := len(accCache)
		pk := secp256k1.GenPrivKeyFromSecret([]byte(fmt.Sprintf("kyve-sim-user-%d", n)))
		any, err := codectypes.NewAnyWithValue(pk.PubKey())
		if err != nil {
			panic(err)
		}
		a := sdk.AccAddress(pk.PubKey().Address())
		accCache = append(accCache, &Account{n, pk, any, a, a.String()})
	}
	return accCache[i]
}

var userIdx map[string]int

// simUser is the number of a simulated user's address (-1: not a user).
func simUser(a string) int {
	if userIdx == nil {
		userIdx = map[string]int{}
		for i := 0; i < uCount; i++ {
			userIdx[account(i).Addr] = i
		}
	}
	if i, ok := userIdx[a]; ok {
		return i
	}
	return -1
}

func moduleAddr(name string) string { return authtypes.NewModuleAddress(name).String() }

var govAddr string // set in setupPrefixes

func setupPrefixes() {
	c := sdk.GetConfig()
	c.SetBech32PrefixForAccount("kyve", "kyvepub")
	c.SetBech32PrefixForValidator("kyvevaloper", "kyvevaloperpub")
	c.SetBech32PrefixForConsensusNode("kyvevalcons", "kyvevalconspub")
	govAddr = moduleAddr("gov")
}

// signTx builds and signs a transaction (SIGN_MODE_DIRECT).
// forge makes it a forgery: "key" is signed by somebody else, "pub" names
// somebody else's public key, "chain" was signed for another chain and
// "accnum" for another account number; "late" was only valid until height 1,
// and the note of "memo" is too long.
// With a payer the fee is paid and the transaction signed by that account too.
func signTx(a *Account, accNum, seq uint64, payer *Account, payNum, paySeq uint64, msgs []sdk.Msg, fee sdk.Coins, gas uint64, granter, memo, forge string) ([]byte, error) {
	anys := make([]*codectypes.Any, len(msgs))
	for i, m := range msgs {
		x, err := codectypes.NewAnyWithValue(m)
		if err != nil {
			return nil, err
		}
		anys[i] = x
	}
	pub, priv, chain := a.Pub, a.Priv, chainID
	switch forge {
	case "key":
		priv = account(forger).Priv
	case "pub":
		pub, priv = account(forger).Pub, account(forger).Priv
	case "chain":
		chain = chainID[:len(chainID)-1] + "9"
	case "accnum":
		accNum++
	}
	body := &txtypes.TxBody{Messages: anys, Memo: memo}
	switch forge {
	case "late":
		body.TimeoutHeight = 1
	case "memo":
		body.Memo = strings.Repeat("m", 300)
	}
	bz, err := body.Marshal()
	if err != nil {
		return nil, err
	}
	ai := &txtypes.AuthInfo{
		SignerInfos: []*txtypes.SignerInfo{{
			PublicKey: pub,
			ModeInfo:  &txtypes.ModeInfo{Sum: &txtypes.ModeInfo_Single_{Single: &txtypes.ModeInfo_Single{Mode: signing.SignMode_SIGN_MODE_DIRECT}}},
			Sequence:  seq,
		}},
		Fee: &txtypes.Fee{Amount: fee, GasLimit: gas, Granter: granter},
	}
	if payer != nil {
		ai.Fee.Payer = payer.Addr
		ai.SignerInfos = append(ai.SignerInfos, &txtypes.SignerInfo{PublicKey: payer.Pub, ModeInfo: ai.SignerInfos[0].ModeInfo, Sequence: paySeq})
	}
	abz, err := ai.Marshal()
	if err != nil {
		return nil, err
	}
	sd := &txtypes.SignDoc{BodyBytes: bz, AuthInfoBytes: abz, ChainId: chain, AccountNumber: accNum}
	sbz, err := sd.Marshal()
	if err != nil {
		return nil, err
	}
	sig, err := priv.Sign(sbz)
	if err != nil {
		return nil, err
	}
	raw := &txtypes.TxRaw{BodyBytes: bz, AuthInfoBytes: abz, Signatures: [][]byte{sig}}
	if payer != nil {
		sd.AccountNumber = payNum
		sbz, err = sd.Marshal()
		if err != nil {
			return nil, err
		}
		sig, err = payer.Priv.Sign(sbz)
		if err != nil {
			return nil, err
		}
		raw.Signatures = append(raw.Signatures, sig)
	}
	return raw.Marshal()
}

func packMsg(cdc codec.Codec, m sdk.Msg) string {
	b, err := cdc.MarshalInterfaceJSON(m)
	if err != nil {
		panic(err)
	}
	return string(b)
}
