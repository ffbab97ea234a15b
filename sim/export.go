package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"reflect"
	"sort"

	"github.com/KYVENetwork/chain/app"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/types/module"
	authtx "github.com/cosmos/cosmos-sdk/x/auth/tx"
)

// Export and import (X05). The state of node 0 is exported by a process started
// on a copy of its disk, validated, and imported by a new chain ("shadow")
// which begins at the next height. The shadow is then given the same blocks
// with the same transactions as the real chain for a while and must do the
// same; in the end both answer the same queries and export the same state.

type shadow struct {
	*nodeState
	left   int
	seed   uint64
	blocks int
}

func (d *Disk) clone() *Disk { return &Disk{mem: &kvStore{d.mem.t.Copy()}} }

// exportOf runs the export command of a process started on this disk.
func (w *World) exportOf(d *Disk, zero bool) (res map[string]json.RawMessage, vals []abci.ValidatorUpdate, app *Node, bad string) {
	n := &Node{id: -1, disk: d.clone(), home: w.scratch}
	if x := n.start(); x != nil {
		return nil, nil, nil, "a process for the export does not start: " + deathMsg(x)
	}
	x := n.enter(func() {
		e, err := n.app.ExportAppStateAndValidators(zero, nil, nil)
		if err != nil {
			bad = "export fails: " + err.Error()
			return
		}
		if !zero && e.Height != w.h+1 {
			bad = fmt.Sprintf("exported for height %d instead of %d", e.Height, w.h+1)
			return
		}
		must(json.Unmarshal(e.AppState, &res))
		for _, v := range e.Validators {
			vals = append(vals, abci.Ed25519ValidatorUpdate(v.PubKey.Bytes(), v.Power))
		}
	})
	if x != nil {
		bad = "export fails: " + deathMsg(x)
	}
	return res, vals, n, bad
}

// validateGenesis is the validate command.
func validateGenesis(a *app.App, gs map[string]json.RawMessage) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			bad = fmt.Sprint("validation panics: ", r)
		}
	}()
	// only the chain's own modules (ibc-go does not accept its own export)
	for _, n := range protocolModules {
		b, ok := a.ModuleManager.Modules[n].(module.HasGenesisBasics)
		if !ok || gs[n] == nil {
			continue
		}
		if err := b.ValidateGenesis(a.AppCodec(), authtx.NewTxConfig(a.AppCodec(), authtx.DefaultSignModes), gs[n]); err != nil {
			return fmt.Sprintf("genesis of %s refused: %v", n, err)
		}
	}
	return ""
}

// state exported by a running node whose first block has not been executed yet.
func genesisOf(n *Node) (gs map[string]json.RawMessage, bad string) {
	x := n.enter(func() {
		ctx := n.app.GetContextForFinalizeBlock([]byte{})
		var err error
		gs, err = n.app.ModuleManager.ExportGenesisForModules(ctx, n.app.AppCodec(), nil)
		if err != nil {
			bad = err.Error()
		}
	})
	if x != nil {
		bad = deathMsg(x)
	}
	return
}

// sameGenesis names the first difference of two exported states.
func sameGenesis(a, b map[string]json.RawMessage) string {
	var names []string
	for n := range a {
		names = append(names, n)
	}
	for n := range b {
		if a[n] == nil {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		if n == "ibc" || bytes.Equal(a[n], b[n]) { // the local IBC client contains the height
			continue
		}
		var x, y interface{}
		if len(a[n]) == 0 {
			a[n] = json.RawMessage("null")
		}
		if len(b[n]) == 0 {
			b[n] = json.RawMessage("null")
		}
		must(json.Unmarshal(a[n], &x))
		must(json.Unmarshal(b[n], &y))
		if d := jsonDiff(n, x, y); d != "" {
			return d
		}
	}
	return ""
}

func jsonDiff(path string, a, b interface{}) string {
	if reflect.DeepEqual(a, b) {
		return ""
	}
	switch x := a.(type) {
	case map[string]interface{}:
		y, ok := b.(map[string]interface{})
		if !ok {
			break
		}
		var ks []string
		for k := range x {
			ks = append(ks, k)
		}
		for k := range y {
			if _, ok := x[k]; !ok {
				ks = append(ks, k)
			}
		}
		sort.Strings(ks)
		for _, k := range ks {
			if d := jsonDiff(path+"."+k, x[k], y[k]); d != "" {
				return d
			}
		}
	case []interface{}:
		y, ok := b.([]interface{})
		if !ok {
			break
		}
		for i := 0; i < len(x) && i < len(y); i++ {
			if d := jsonDiff(fmt.Sprintf("%s[%d]", path, i), x[i], y[i]); d != "" {
				return d
			}
		}
		if len(x) != len(y) {
			return fmt.Sprintf("%s: %d and %d entries", path, len(x), len(y))
		}
	}
	return fmt.Sprintf("%s: %s and %s", path, clip(fmt.Sprint(a)), clip(fmt.Sprint(b)))
}

func (w *World) export(c *CheckStep) {
	if w.h == 0 || w.shadow != nil {
		return
	}
	w.stats.Calls["exports"]++
	if c.Node == 1 {
		w.exportZero()
		return
	}
	gs, vals, src, bad := w.exportOf(w.nodes[0].disk, false)
	if bad != "" {
		w.violate("X05", "%s", bad)
		return
	}
	if govSurplus(gs) {
		// the governance module of the SDK refuses to import when its account holds
		// anything but deposits, for example coins somebody has sent to it
		w.stats.Calls["exports not imported: coins sent to the governance account"]++
		return
	}
	if bad = validateGenesis(src.app, gs); bad != "" {
		w.violate("X05", "the exported state is not valid: %s", bad)
		return
	}
	s := &shadow{nodeState: &nodeState{Node: &Node{id: -2, disk: NewDisk(), home: w.scratch}}, left: c.N, seed: c.Seed}
	if d := s.start(); d != nil {
		panic("node does not start: " + d.Msg)
	}
	if bad = w.importInto(s.Node, gs, vals, w.h+1); bad != "" {
		w.violate("X05", "%s", bad)
		return
	}
	again, bad := genesisOf(s.Node)
	if bad != "" {
		w.violate("X05", "the imported state cannot be exported: %s", bad)
		return
	}
	if d := sameGenesis(gs, again); d != "" {
		w.violate("X05", "the imported state differs: %s", d)
		return
	}
	w.shadow = s
}

func (w *World) importInto(n *Node, gs map[string]json.RawMessage, vals []abci.ValidatorUpdate, h int64) (bad string) {
	b, err := json.Marshal(gs)
	must(err)
	_, err, d := n.initChain(&abci.RequestInitChain{ChainId: chainID, Time: w.time(), InitialHeight: h,
		ConsensusParams: app.DefaultConsensusParams, Validators: vals, AppStateBytes: b})
	if err != nil || d != nil {
		return fmt.Sprintf("the exported state cannot be imported: %v %s", err, deathMsg(d))
	}
	return ""
}

// exportZero exports for a new chain from height 1: the protocol modules stay as they are.
func (w *World) exportZero() {
	plain, _, _, bad := w.exportOf(w.nodes[0].disk, false)
	if bad != "" {
		w.violate("X05", "%s", bad)
		return
	}
	gs, vals, src, bad := w.exportOf(w.nodes[0].disk, true)
	if bad != "" {
		w.violate("X05", "for height zero: %s", bad)
		return
	}
	if govSurplus(gs) {
		// the governance module of the SDK refuses to import when its account holds
		// anything but deposits, for example coins somebody has sent to it
		w.stats.Calls["exports not imported: coins sent to the governance account"]++
		return
	}
	if bad = validateGenesis(src.app, gs); bad != "" {
		w.violate("X05", "the state exported for height zero is not valid: %s", bad)
		return
	}
	for _, m := range protocolModules {
		if m == "bank" && w.cfg.Signed {
			if d := rewardsPaid(plain[m], gs[m]); d != "" {
				w.violate("X05", "the state exported for height zero differs: %s", d)
				return
			}
			continue
		}
		if d := sameGenesis(map[string]json.RawMessage{m: plain[m]}, map[string]json.RawMessage{m: gs[m]}); d != "" {
			w.violate("X05", "the state exported for height zero differs: %s", d)
			return
		}
	}
	n := &Node{id: -2, disk: NewDisk(), home: w.scratch}
	if d := n.start(); d != nil {
		panic("node does not start: " + d.Msg)
	}
	if bad = w.importInto(n, gs, vals, 1); bad != "" {
		w.violate("X05", "for height zero: %s", bad)
		return
	}
	again, bad := genesisOf(n)
	if bad != "" {
		w.violate("X05", "the state imported at height zero cannot be exported: %s", bad)
		return
	}
	for _, m := range protocolModules {
		if d := sameGenesis(map[string]json.RawMessage{m: gs[m]}, map[string]json.RawMessage{m: again[m]}); d != "" {
			w.violate("X05", "the state imported at height zero differs: %s", d)
			return
		}
	}
}

// rewardsPaid allows an export for height zero to pay the rewards of the
// consensus layer to validators and delegators, and nothing else.
func rewardsPaid(plain, zero json.RawMessage) string {
	type bank struct {
		Supply   sdk.Coins
		Balances []struct {
			Address string
			Coins   sdk.Coins
		}
	}
	var a, b bank
	must(json.Unmarshal(plain, &a))
	must(json.Unmarshal(zero, &b))
	if !a.Supply.Equal(b.Supply) {
		return fmt.Sprintf("supply %s and %s", a.Supply, b.Supply)
	}
	who := map[string]bool{mod(mDistribution): true, addr(uGov): true, addr(uBCP): true, addr(consDelegator): true}
	bal := map[string]sdk.Coins{}
	for _, x := range a.Balances {
		bal[x.Address] = x.Coins
	}
	for _, x := range b.Balances {
		switch {
		case !who[x.Address] && !x.Coins.Equal(bal[x.Address]), x.Address != mod(mDistribution) && !x.Coins.IsAllGTE(bal[x.Address]):
			return fmt.Sprintf("balance of %s %s and %s", x.Address, bal[x.Address], x.Coins)
		}
		delete(bal, x.Address)
	}
	for k, c := range bal {
		if !who[k] && !c.IsZero() {
			return fmt.Sprintf("balance of %s %s and nothing", k, c)
		}
	}
	return ""
}

var protocolModules = []string{"bundles", "delegation", "funders", "global", "pool", "stakers", "team", "bank", "auth", "feegrant"}

// follow executes the block the chain has just executed on the shadow.
func (w *World) follow(rec *blockRec) {
	s := w.shadow
	res, err, d := s.finalize(rec.req)
	if err != nil || d != nil {
		w.violate("X05", "the imported chain cannot process block %d: %v %s", w.h, err, deathMsg(d))
		w.shadow = nil
		return
	}
	if err, d = s.commit(); err != nil || d != nil {
		w.violate("X05", "the imported chain cannot commit block %d: %v %s", w.h, err, deathMsg(d))
		w.shadow = nil
		return
	}
	s.blocks++
	if os.Getenv("DBG") != "" {
		dbgStores(w.nodes[0].Node, s.Node)
	}
	for i, t := range rec.res.TxResults {
		// counters which are zero are not exported, so reading them costs a little less gas
		if outOf(t).OutOfGas != outOf(res.TxResults[i]).OutOfGas && t.GasWanted < max(t.GasUsed, res.TxResults[i].GasUsed)+5000 {
			w.shadow = nil
			return
		}
	}
	if x := sameResults(rec.res, res); x != "" {
		w.violate("X05", "block %d after the import: %s", w.h, x)
		w.shadow = nil
		return
	}
	w.stats.Calls["blocks after an import"]++
	s.left--
	if s.left > 0 {
		return
	}
	w.endShadow()
}

// dropUnbondingIDs removes the numbers of unbonding operations: the SDK does not
// export its counter, and starts again from one.
func dropUnbondingIDs(gs map[string]json.RawMessage) {
	var x interface{}
	if json.Unmarshal(gs["staking"], &x) != nil {
		return
	}
	var drop func(interface{})
	drop = func(x interface{}) {
		switch v := x.(type) {
		case map[string]interface{}:
			delete(v, "unbonding_id")
			delete(v, "unbonding_ids")
			for _, y := range v {
				drop(y)
			}
		case []interface{}:
			for _, y := range v {
				drop(y)
			}
		}
	}
	drop(x)
	bz, err := json.Marshal(x)
	must(err)
	gs["staking"] = bz
}

// endShadow compares the whole state of both chains.
func (w *World) endShadow() {
	s := w.shadow
	w.shadow = nil
	if s == nil || s.blocks == 0 {
		return
	}
	a, _, _, bad := w.exportOf(w.nodes[0].disk, false)
	if bad != "" {
		w.violate("X05", "%s", bad)
		return
	}
	b, _, _, bad := w.exportOf(s.disk, false)
	if bad != "" {
		w.violate("X05", "imported chain: %s", bad)
		return
	}
	dropUnbondingIDs(a)
	dropUnbondingIDs(b)
	if d := sameGenesis(a, b); d != "" {
		w.violate("X05", "%d blocks after the import the state differs: %s", s.blocks, d)
		return
	}
	ref := w.newAsker(w.nodes[0], s.seed)
	ref.mute = true
	ref.battery(true)
	q := w.newAsker(s.nodeState, s.seed)
	q.mute = true
	q.battery(true)
	w.stats.Calls["query answers"] += ref.asks + q.asks
	if string(q.hash) != string(ref.hash) {
		for i := range ref.log {
			if i >= len(q.log) || ref.log[i] != q.log[i] {
				d := "(no answer)"
				if i < len(q.log) {
					d = q.log[i]
				}
				w.violate("X05", "the chain answers %s, the imported chain %s", clip(ref.log[i]), clip(d))
				break
			}
		}
	}
}

// sameResults compares what a block did, apart from the app hash.
func sameResults(a, b *abci.ResponseFinalizeBlock) string {
	for i := range a.TxResults {
		x, y := a.TxResults[i], b.TxResults[i]
		if x.Code != y.Code || x.Codespace != y.Codespace {
			return fmt.Sprintf("transaction %d: %s/%d %s and %s/%d %s", i, x.Codespace, x.Code, firstLine(x.Log), y.Codespace, y.Code, firstLine(y.Log))
		}
		if d := sameEvents(x.Events, y.Events); d != "" {
			return fmt.Sprintf("transaction %d: %s", i, d)
		}
	}
	if d := sameEvents(a.Events, b.Events); d != "" {
		return d
	}
	str := func(us []abci.ValidatorUpdate) (l []string) {
		for _, u := range us {
			l = append(l, u.String())
		}
		return
	}
	if fmt.Sprint(str(a.ValidatorUpdates)) != fmt.Sprint(str(b.ValidatorUpdates)) {
		return fmt.Sprintf("validator updates %v and %v", a.ValidatorUpdates, b.ValidatorUpdates)
	}
	return ""
}

func sameEvents(a, b []abci.Event) string {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i].String() != b[i].String() {
			return fmt.Sprintf("event %s and %s", clip(a[i].String()), clip(b[i].String()))
		}
	}
	if len(a) != len(b) {
		return fmt.Sprintf("%d and %d events", len(a), len(b))
	}
	return ""
}

func govSurplus(gs map[string]json.RawMessage) bool {
	var g struct {
		Deposits []struct{ Amount sdk.Coins }
	}
	var b struct {
		Balances []struct {
			Address string
			Coins   sdk.Coins
		}
	}
	must(json.Unmarshal(gs["gov"], &g))
	must(json.Unmarshal(gs["bank"], &b))
	var have, want sdk.Coins
	for _, d := range g.Deposits {
		want = want.Add(d.Amount...)
	}
	for _, x := range b.Balances {
		if x.Address == govAddr {
			have = x.Coins
		}
	}
	return !have.Equal(want)
}
