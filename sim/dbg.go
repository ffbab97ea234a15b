package main

import (
	storetypes "cosmossdk.io/store/types"
	"fmt"
	"os"

	abci "github.com/cometbft/cometbft/abci/types"
)

func dbgDiff(a, b *abci.ResponseFinalizeBlock) {
	if os.Getenv("DBG") == "" {
		return
	}
	for i := range a.TxResults {
		x, y := a.TxResults[i], b.TxResults[i]
		if x.Code != y.Code || x.GasUsed != y.GasUsed || len(x.Events) != len(y.Events) {
			fmt.Printf("tx %d: code %d/%d gas %d/%d log %s / %s\n", i, x.Code, y.Code, x.GasUsed, y.GasUsed, x.Log, y.Log)
		}
	}
	for i := 0; i < len(a.Events) && i < len(b.Events); i++ {
		if a.Events[i].String() != b.Events[i].String() {
			fmt.Printf("event %d: %s\n / %s\n", i, a.Events[i].String(), b.Events[i].String())
		}
	}
}

func dbgStores(a, b *Node) {
	for _, k := range a.app.GetStoreKeys() {
		if _, ok := k.(*storetypes.KVStoreKey); !ok {
			continue
		}
		x := a.app.CommitMultiStore().GetCommitKVStore(k)
		y := b.app.CommitMultiStore().GetCommitKVStore(b.app.GetKey(k.Name()))
		m := map[string]string{}
		it := x.Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			m[string(it.Key())] = string(it.Value())
		}
		it.Close()
		it = y.Iterator(nil, nil)
		for ; it.Valid(); it.Next() {
			v, ok := m[string(it.Key())]
			if !ok {
				fmt.Printf("DBG %s %q: only imported %q\n", k.Name(), it.Key(), it.Value())
			} else if v != string(it.Value()) {
				fmt.Printf("DBG %s %q: %q imported %q\n", k.Name(), it.Key(), v, it.Value())
			}
			delete(m, string(it.Key()))
		}
		it.Close()
		for kk, v := range m {
			fmt.Printf("DBG %s %q: not imported %q\n", k.Name(), kk, v)
		}
	}
}

func gasDbg(in *TxIn, own uint64) {
	if os.Getenv("GAS") != "" {
		fmt.Println("GAS", own, len(in.Msgs), txNames(in))
	}
}
