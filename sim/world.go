package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"
	"time"

	"cosmossdk.io/math"
	snapshottypes "cosmossdk.io/store/snapshots/types"
	"github.com/KYVENetwork/chain/app"
	bundlestypes "github.com/KYVENetwork/chain/x/bundles/types"
	delegationtypes "github.com/KYVENetwork/chain/x/delegation/types"
	abci "github.com/cometbft/cometbft/abci/types"
	sdk "github.com/cosmos/cosmos-sdk/types"
	"github.com/cosmos/cosmos-sdk/x/authz"
	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
	protoio "github.com/cosmos/gogoproto/io"
	"github.com/cosmos/gogoproto/proto"
)

// Step is one concrete step of an execution. A run is a list of steps; a
// replay file contains such a list.
type Step struct {
	Tx    *TxStep    `json:"tx,omitempty"`
	Block *BlockStep `json:"block,omitempty"`
	Node  *NodeStep  `json:"node,omitempty"`
	Check *CheckStep `json:"check,omitempty"`
}

// TxStep: a client creates a transaction.
type TxStep struct {
	ID      int               `json:"id"`
	Signer  int               `json:"signer"`
	Msgs    []json.RawMessage `json:"msgs"`
	Fee     string            `json:"fee,omitempty"`
	Gas     uint64            `json:"gas"`
	Granter string            `json:"granter,omitempty"`
	LowGas  bool              `json:"low_gas,omitempty"`
	Memo    string            `json:"memo,omitempty"`
	Forge   string            `json:"forge,omitempty"` // see signTx
	Payer   int               `json:"payer,omitempty"` // user who pays the fee and signs too, plus 1
}

// TxRef: a transaction is included in a block. It is signed when first
// included, with the expected sequence number plus Off; included again it is
// the same bytes (a duplicate).
type TxRef struct {
	ID  int `json:"id"`
	Off int `json:"off,omitempty"`
}

// BlockStep: the consensus stub decides the next block.
type BlockStep struct {
	Dt  int64   `json:"dt_ms"`
	Old bool    `json:"old,omitempty"` // last block of the old software (see upgrade.go)
	Txs []TxRef `json:"txs,omitempty"`
	// the second consensus validator did not sign the last block, or signed another one too
	Absent bool `json:"absent,omitempty"`
	Double bool `json:"double,omitempty"`
}

// NodeStep: something happens to a node (1..) between blocks, or a fault is
// armed for the next block.
type NodeStep struct {
	Node int    `json:"node"`
	Kind string `json:"kind"`
	K    int    `json:"k,omitempty"`
	Seed uint64 `json:"seed,omitempty"` // decides what a crash leaves on the disk
	Tx   int    `json:"tx,omitempty"`
}

// CheckStep: the harness evaluates a property at this point.
type CheckStep struct {
	Kind string `json:"kind"` // query, export, calm
	Node int    `json:"node,omitempty"`
	Seed uint64 `json:"seed,omitempty"`
	N    int    `json:"n,omitempty"`
}

type blockRec struct {
	req    *abci.RequestFinalizeBlock
	digest string
	hash   string
	txs    []TxRef
	res    *abci.ResponseFinalizeBlock
	old    bool
}

type txRec struct {
	step *TxStep
	in   TxIn
	raw  []byte
}

type nodeState struct {
	*Node
	dead      bool
	lag       int // blocks this node refuses to take
	armed     *NodeStep
	restarted bool
	fresh     bool  // restarted and no block executed since
	swapped   bool  // runs the new software
	base      int64 // first height on its disk
	synced    bool  // got its state from a peer and executed no block since
}

// World is one simulated execution.
type World struct {
	cfg   *Cfg
	nodes []*nodeState
	st    *State
	h, ms int64

	gen    *abci.RequestInitChain
	blocks []*blockRec
	txs    map[int]*txRec
	steps  []Step
	cur    int

	viol    map[string]*Violation
	known   map[string]int // known findings shown by this run
	order   []string
	halted  bool
	slashed map[string]bool
	hist    *Hist
	stats   *Stats
	trace   []byte // running hash of everything observed
	scratch string
	nExtra  int

	shadow   *shadow // a chain continued from the exported state
	included []int   // tx ids already in a block
	verbose  bool
	focus    string         // the property this run is for
	touched  map[string]int // operations by property
	oldAt    int64          // height of the last block of the old software
	power2   powers         // of the second consensus validator
	preUp    dump           // node 0's stores before they were put into the old format
}

func (w *World) violate(prop, f string, a ...interface{}) {
	if prop == "" {
		prop = "X01"
	}
	w.stats.Viol++
	if _, ok := w.viol[prop]; ok {
		return
	}
	v := &Violation{prop, fmt.Sprintf(f, a...), w.cur, w.h}
	w.viol[prop] = v
	w.order = append(w.order, prop)
	if w.oldAt > 0 && w.h == w.oldAt+1 {
		// whatever goes wrong in the block which migrates concerns the upgrade
		defer w.violate("X08", "at the upgrade: %s: %s", prop, v.Msg)
	}
	if w.verbose {
		fmt.Printf("  [step %d height %d] %s: %s\n", v.Step, v.Height, v.Prop, v.Msg)
	}
}

func (w *World) note(b []byte) {
	s := sha256.Sum256(append(w.trace, b...))
	w.trace = s[:]
}

// NewWorld boots the nodes with the genesis of cfg.
func NewWorld(cfg *Cfg, extra int, scratch string, stats *Stats) *World {
	w := &World{cfg: cfg, txs: map[int]*txRec{}, viol: map[string]*Violation{}, known: map[string]int{}, slashed: map[string]bool{}, touched: map[string]int{}, power2: powers{{0, int64(cfg.Cons2 / 1_000_000)}}, stats: stats, scratch: scratch, nExtra: extra}
	resetGlobals(cfg)
	blockWall = time.Unix(cfg.T0, 0)
	r := NewRNG(cfg.Seed).Fork("nodes")
	for i := 0; i <= extra; i++ {
		n := &nodeState{Node: &Node{id: i, disk: NewDisk(), home: scratch}}
		if i > 0 {
			n.opts = nodeOpts{NoFast: r.P(0.3), IavlCache: pick(r, []int{0, 0, 1, 10, 1000}), InterBlk: r.P(0.2), MinGas: pick(r, []string{"", "", "0.5tkyve", "3acoin"})}
			n.skew = pick(r, skews)
		}
		w.nodes = append(w.nodes, n)
		if d := n.start(); d != nil {
			panic("node does not start: " + d.Msg)
		}
	}
	w.gen = buildGenesis(w.nodes[0].app, cfg)
	var h0 string
	for i, n := range w.nodes {
		res, err, d := n.initChain(w.gen)
		if err != nil || d != nil {
			panic(fmt.Sprintf("genesis refused: %v %v", err, d))
		}
		if i == 0 {
			h0 = hex.EncodeToString(res.AppHash)
		} else if hex.EncodeToString(res.AppHash) != h0 {
			w.violate("X01", "different app hash after genesis on node %d", i)
		}
	}
	w.hist = newHist()
	w.st = &State{Seq: map[string]uint64{}, Num: map[string]uint64{}}
	return w
}

func (w *World) now() int64 { return w.cfg.T0 + w.ms/1000 }

func (w *World) time() time.Time {
	return time.Unix(w.cfg.T0, 0).Add(time.Duration(w.ms) * time.Millisecond).UTC()
}

// Do executes one step.
func (w *World) Do(s Step) {
	beat()
	w.steps = append(w.steps, s)
	w.cur = len(w.steps) - 1
	if w.halted {
		return
	}
	blockWall = w.time().Add(2 * time.Second)
	switch {
	case s.Tx != nil:
		w.addTx(s.Tx)
	case s.Block != nil:
		w.block(s.Block)
	case s.Node != nil:
		w.nodeStep(s.Node)
	case s.Check != nil:
		w.check(s.Check)
	}
}

func (w *World) addTx(t *TxStep) {
	rec := &txRec{step: t}
	cdc := w.nodes[0].app.AppCodec()
	for _, j := range t.Msgs {
		var m sdk.Msg
		if err := cdc.UnmarshalInterfaceJSON(j, &m); err != nil {
			panic(fmt.Sprintf("replay: bad message %s: %v", j, err))
		}
		rec.in.Msgs = append(rec.in.Msgs, m)
	}
	fee, err := sdk.ParseCoinsNormalized(t.Fee)
	must(err)
	rec.in.Signer, rec.in.Fee, rec.in.Gas, rec.in.Granter, rec.in.LowGas, rec.in.Forge = t.Signer, fee, t.Gas, t.Granter, t.LowGas, t.Forge
	rec.in.Payer = -1
	if t.Payer > 0 && t.Payer-1 != t.Signer {
		rec.in.Payer = t.Payer - 1
	}
	w.txs[t.ID] = rec
}

func (w *World) sign(t *txRec, seq uint64) []byte {
	var payer *Account
	var num uint64
	if t.in.Payer >= 0 {
		payer = account(t.in.Payer)
		num = w.st.Num[payer.Addr]
	}
	raw, err := signTx(account(t.in.Signer), w.st.Num[account(t.in.Signer).Addr], seq, payer, num, t.in.PaySeq, t.in.Msgs, t.in.Fee, t.in.Gas, t.in.Granter, t.step.Memo, t.in.Forge)
	must(err)
	return raw
}

func digest(res *abci.ResponseFinalizeBlock) string {
	h := sha256.New()
	for _, t := range res.TxResults {
		c := *t
		c.Log, c.Info = "", ""
		b, err := proto.Marshal(&c)
		must(err)
		fmt.Fprintf(h, "%d:", len(b))
		h.Write(b)
	}
	for _, e := range res.Events {
		b, err := proto.Marshal(&e)
		must(err)
		fmt.Fprintf(h, "%d:", len(b))
		h.Write(b)
	}
	for _, v := range res.ValidatorUpdates {
		b, err := proto.Marshal(&v)
		must(err)
		h.Write(b)
	}
	if res.ConsensusParamUpdates != nil {
		b, err := proto.Marshal(res.ConsensusParamUpdates)
		must(err)
		h.Write(b)
	}
	h.Write(res.AppHash)
	return hex.EncodeToString(h.Sum(nil))
}

// block executes the next block on all nodes and checks it.
func (w *World) block(b *BlockStep) {
	if b.Dt < 1 {
		b.Dt = 1
	}
	w.ms += b.Dt
	h := w.h + 1
	var ins []*TxIn
	var raws [][]byte
	var refs []TxRef
	next := map[int]uint64{}
	for _, ref := range b.Txs {
		t := w.txs[ref.ID]
		if t == nil {
			continue
		}
		if t.raw == nil {
			a := account(t.in.Signer)
			seq := w.st.Seq[a.Addr] + next[t.in.Signer] + uint64(ref.Off)
			if ref.Off == 0 {
				next[t.in.Signer]++
			}
			t.in.Seq = seq
			_, ok := w.st.Num[a.Addr]
			t.in.NoAcc = !ok && w.h > 0
			if p := t.in.Payer; p >= 0 {
				t.in.PaySeq = w.st.Seq[account(p).Addr] + next[p]
				if ref.Off == 0 {
					next[p]++
				}
				_, ok := w.st.Num[account(p).Addr]
				t.in.NoAcc = t.in.NoAcc || !ok && w.h > 0
			}
			t.raw = w.sign(t, seq)
			w.included = append(w.included, ref.ID)
		} else {
			w.stats.fault("duplicate tx")
		}
		in := t.in
		in.Size = len(t.raw)
		ins = append(ins, &in)
		raws = append(raws, t.raw)
		refs = append(refs, ref)
	}
	req := &abci.RequestFinalizeBlock{
		Height: h, Time: w.time(), Txs: raws, Hash: blockHash(h, raws),
		ProposerAddress: valPriv.PubKey().Address(), NextValidatorsHash: make([]byte, 32),
	}
	req.DecidedLastCommit, req.Misbehavior = w.commit(h, b)
	n0 := w.nodes[0]
	if w.pendingUpgrade() {
		w.tryUpgrade(w.now())
		if !w.swap(n0) {
			w.halted = true
			return
		}
		w.stats.Probes["upgrade: executed"]++
		w.touched["X08"]++
	}
	res, err, d := n0.finalize(req)
	w.h = h
	if err == nil && d == nil {
		w.valUpdates(h, res.ValidatorUpdates)
	}
	w.stats.Blocks++
	w.stats.Txs += len(raws)
	if err != nil || d != nil {
		w.violate("X04", "block %d cannot be processed: err=%v %v", h, err, deathMsg(d))
		w.halted = true
		return
	}
	old := b.Old && w.oldAt == 0 && w.oldFormat()
	if old {
		// the application cannot read what it is about to commit
		w.checkBlock(ins, res)
		if w.halted {
			return
		}
		w.oldAt = h
		w.preUp = dumpStores(n0.app, queryCtx(n0.app, h, w.now()))
		w.toOld(n0, h, w.now())
	}
	err, d = n0.commit()
	if err != nil || d != nil {
		w.violate("X04", "block %d cannot be committed: err=%v %v", h, err, deathMsg(d))
		w.halted = true
		return
	}
	rec := &blockRec{req: req, digest: digest(res), hash: hex.EncodeToString(n0.app.LastCommitID().Hash), txs: refs, res: res, old: old}
	w.blocks = append(w.blocks, rec)
	w.note([]byte(rec.digest))
	if w.verbose {
		for i, t := range res.TxResults {
			l := t.Log
			if j := strings.Index(l, "\n"); j > 0 {
				l = l[:j]
			}
			var ms []string
			for _, m := range ins[i].Msgs {
				ms = append(ms, sdk.MsgTypeURL(m))
			}
			fmt.Printf("  h%d tx %d %v code=%d gas=%d %.150s\n", h, refs[i].ID, ms, t.Code, t.GasUsed, l)
			if t.Code == 4 && strings.Contains(l, "signature") {
				fmt.Printf("    %+v %s\n", w.txs[refs[i].ID].step, w.txs[refs[i].ID].step.Msgs)
			}
		}
	}
	if !old {
		w.checkBlock(ins, res)
	}
	if w.halted {
		return
	}
	if w.shadow != nil {
		w.follow(rec)
	}
	for _, n := range w.nodes[1:] {
		w.deliver(n)
	}
}

func deathMsg(d *procDeath) string {
	if d == nil {
		return ""
	}
	s := "panic: " + d.Msg
	if d.Stack != "" {
		// first frame of the chain's code
		for _, l := range strings.Split(d.Stack, "\n") {
			if strings.Contains(l, "/repo/x/") || strings.Contains(l, "/repo/util") || strings.Contains(l, "/repo/app") {
				s += " at " + strings.TrimSpace(l)
				break
			}
		}
	}
	return s
}

func blockHash(h int64, raws [][]byte) []byte {
	x := sha256.New()
	fmt.Fprintf(x, "%d", h)
	for _, r := range raws {
		y := sha256.Sum256(r)
		x.Write(y[:])
	}
	return x.Sum(nil)
}

// ---------------------------------------------------------------- oracle

func outOf(t *abci.ExecTxResult) *TxOut {
	return &TxOut{OK: t.Code == 0, OutOfGas: t.Codespace == "sdk" && t.Code == 11, Ante: t.Code == 0 || len(t.Events) > 0, Log: t.Log}
}

func minted(evs []abci.Event) math.Int {
	for _, e := range evs {
		if e.Type == "mint" {
			for _, a := range e.Attributes {
				if a.Key == "amount" {
					i, ok := math.NewIntFromString(a.Value)
					if ok {
						return i
					}
				}
			}
		}
	}
	return math.ZeroInt()
}

func attrs(e abci.Event) map[string]string {
	at := map[string]string{}
	for _, a := range e.Attributes {
		at[a.Key] = a.Value
	}
	return at
}

// movedAtBegin sums what left an account at the start of the block.
func movedAtBegin(evs []abci.Event, from string) map[string]math.Int {
	out := map[string]math.Int{}
	for _, e := range evs {
		if e.Type != "transfer" {
			continue
		}
		at := attrs(e)
		if at["mode"] != "BeginBlock" || at["sender"] != from {
			continue
		}
		cs, err := sdk.ParseCoinsNormalized(at["amount"])
		if err != nil {
			continue
		}
		out[at["recipient"]] = orZero(out[at["recipient"]]).Add(cs.AmountOf(denom))
	}
	return out
}

// msgProps: what a wrong result of a message concerns.
func msgProps(m sdk.Msg) string {
	u := sdk.MsgTypeURL(m)
	switch u {
	case "/kyve.bundles.v1beta1.MsgClaimUploaderRole":
		return "B03 B05"
	case "/kyve.delegation.v1beta1.MsgDelegate":
		return "D01"
	case "/kyve.delegation.v1beta1.MsgUndelegate":
		return "D03"
	case "/kyve.delegation.v1beta1.MsgRedelegate":
		return "D04"
	case "/kyve.delegation.v1beta1.MsgWithdrawRewards":
		return "D02"
	case "/kyve.stakers.v1beta1.MsgJoinPool":
		return "S01"
	case "/kyve.stakers.v1beta1.MsgLeavePool", "/kyve.stakers.v1beta1.MsgUpdateCommission":
		return "S02"
	case "/kyve.funders.v1beta1.MsgFundPool":
		return "F01 F02"
	case "/kyve.team.v1beta1.MsgClaimAccountRewards", "/kyve.team.v1beta1.MsgClaimAuthorityRewards":
		return "T02"
	}
	switch {
	case hasPrefix(u, "/kyve.bundles") && !strings.Contains(u, "Params"):
		return "B03"
	case hasPrefix(u, "/kyve.stakers") && !strings.Contains(u, "Params"):
		return "S03"
	case hasPrefix(u, "/kyve.funders") && !strings.Contains(u, "Params"):
		return "F01"
	case hasPrefix(u, "/kyve.team"):
		return "T01"
	case hasPrefix(u, "/kyve"):
		return "P01"
	case hasPrefix(u, "/cosmos.gov"):
		return "G02"
	case hasPrefix(u, "/cosmos.feegrant"):
		return "G01"
	}
	return "X07"
}

func (w *World) checkBlock(ins []*TxIn, res *abci.ResponseFinalizeBlock) {
	app := w.nodes[0].app
	got := w.snapshot(app)
	if got == nil {
		return
	}
	prev := w.st
	if w.h == 1 {
		prev = got // genesis cannot be read before the first commit
	}
	slashed := false
	if w.h > 1 {
		m := &M{State: prev.Clone(), cfg: w.cfg, h: w.h, now: w.now(), ns: w.time().UnixNano(), cdc: app.AppCodec(), fuzz: map[string]int64{}, cells: w.stats.Cells, slashed: w.slashed}
		w.runModel(m, ins, res, got, prev)
		for _, o := range m.Ops {
			slashed = slashed || o.Kind == "slash"
			w.touched["any"]++
			for _, p := range strings.Fields(opProps[o.Kind]) {
				w.touched[p]++
			}
		}
		w.touched["X03"] += len(m.Failed)
	}
	// also when the prediction was given up: slashed stake has invisible fractions
	for _, l := range append([][]abci.Event{res.Events}, txEvents(res)...) {
		for _, e := range typed(l) {
			if x, ok := e.(*delegationtypes.EventSlash); ok {
				w.slashed[x.Staker], slashed = true, true
			}
		}
	}
	w.st = got
	w.hist.observe(w, prev, got, ins, res, slashed)
	if p, err := app.UpgradeKeeper.GetUpgradePlan(queryCtx(app, w.h, w.now())); err == nil && p.Height > 0 {
		w.violate("X04", "emergency halt scheduled: %s %s", p.Name, p.Info)
		w.halted = true
	}
}

// snapshot reads the committed state, nil if the chain itself cannot read it.
func (w *World) snapshot(a *app.App) (s *State) {
	defer func() {
		if r := recover(); r != nil {
			for _, p := range []string{"X04", "X06"} {
				w.violate(p, "the chain cannot read its own state: %v", r)
			}
			w.halted, s = true, nil
		}
	}()
	for _, n := range w.nodes {
		if n.app == a { // the reads happen in this node's process
			saved := swapMem(n.mem)
			defer func() { n.mem = swapMem(saved) }()
		}
	}
	return Snapshot(a, w.h, w.now())
}

func (w *World) runModel(m *M, ins []*TxIn, res *abci.ResponseFinalizeBlock, got, prev *State) {
	defer func() {
		if r := recover(); r != nil {
			if len(w.viol) == 0 {
				panic(fmt.Sprintf("model panicked at height %d: %v", w.h, r))
			}
			w.halted = true
		}
	}()
	if w.oldAt > 0 && w.h == w.oldAt+1 {
		m.upgrade()
	}
	m.beginBlock(minted(res.Events), movedAtBegin(res.Events, mod(mFeeCollector)))
	m.consSlash(res.Events)
	for _, k := range m.known {
		w.known[k]++
		if !isKnown(k) {
			w.violate(knownProp[k], "defect %s", k)
		}
	}
	var txEvs []proto.Message
	for i, in := range ins {
		r := res.TxResults[i]
		out := outOf(r)
		if extra := m.extraGas(in); out.Ante && !out.OutOfGas {
			if low := uint64(10*in.Size + 1000); uint64(r.GasUsed) < extra+low {
				w.violate("G01", "transaction %v was charged %d gas, less than the %d that governance adds for its messages and %d for its size", txNames(in), r.GasUsed, extra, low)
			}
			if own := uint64(r.GasUsed) - extra; own < 1<<40 {
				gasDbg(in, own)
				if lightTx(in) {
					w.stats.MaxGas = max(w.stats.MaxGas, own/uint64(len(in.Msgs)))
					if own > 1_000_000*uint64(len(in.Msgs)) {
						w.violate("G01", "transaction %v was charged %d gas; governance adds only %d for its messages and what they do is cheap", txNames(in), r.GasUsed, extra)
					}
				}
			}
		}
		nOps := len(m.Ops)
		e := m.tx(in, out)
		poisoned := m.poison
		if e != nil && e.prop == "" {
			e.prop = "X01"
		}
		switch {
		case e == nil && !out.OK:
			if !poisoned {
				set := map[string]bool{}
				for _, p := range w.failProps(in, r) {
					set[p] = true
				}
				if len(leaves(in.Msgs)) == 1 { // what it has to do and does not
					for _, o := range m.Ops[min(nOps, len(m.Ops)):] {
						for _, p := range strings.Fields(opProps[o.Kind]) {
							set[p] = true
						}
					}
				}
				w.violateAll(set, "transaction %v failed but has to succeed: %s", txNames(in), firstLine(r.Log))
			}
			w.adopt(m)
		case e != nil && out.OK:
			if !poisoned {
				set := map[string]bool{}
				for _, p := range strings.Fields(e.prop) {
					set[p] = true
				}
				w.violateAll(set, "transaction %v succeeded but has to fail: %s", txNames(in), e.msg)
			}
			w.adopt(m)
		}
		if out.OK {
			txEvs = append(txEvs, typed(r.Events)...)
			w.stats.TxOK++
		}
		if m.poison {
			return
		}
	}
	due := map[uint64]*GovP{}
	for id, p := range m.Gov {
		due[id] = p
	}
	m.bondMoves(res.Events)
	if e := m.endBlock(w.time().UnixNano(), govResults(w.nodes[0].app, w.h, w.now(), due)); e != nil && !m.poison {
		w.violate(e.prop, "%s", e.msg)
	}
	if m.poison {
		w.stats.Poisoned++
		return
	}
	w.stats.Compared++
	for _, d := range compare(m, got) {
		for _, p := range attribute(m, d) {
			w.violate(p, "%s", d.Msg)
		}
	}
	for _, d := range compareEvents(m.Evs, append(txEvs, typed(res.Events)...)) {
		for _, p := range attribute(m, d) {
			w.violate(p, "%s", d.Msg)
		}
	}
}

func txEvents(res *abci.ResponseFinalizeBlock) (l [][]abci.Event) {
	for _, t := range res.TxResults {
		if t.Code == 0 {
			l = append(l, t.Events)
		}
	}
	return
}

// lightTx: each message costs far less than a million gas (the most seen is 0.4 million).
func lightTx(t *TxIn) bool {
	for _, m := range t.Msgs {
		switch m.(type) {
		case *authz.MsgExec, *bundlestypes.MsgSubmitBundleProposal, *bundlestypes.MsgSkipUploaderRole, *govv1.MsgSubmitProposal:
			return false
		}
	}
	return true
}

// adopt: the prediction for the rest of the block is void.
func (w *World) adopt(m *M) { m.poison = true }

func (w *World) violateAll(set map[string]bool, f string, a ...interface{}) {
	var l []string
	for p := range set {
		l = append(l, p)
	}
	sort.Strings(l)
	for _, p := range l {
		w.violate(p, f, a...)
	}
}

func firstLine(s string) string {
	if i := strings.Index(s, "\n"); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}

func txNames(in *TxIn) []string {
	var l []string
	for _, m := range leaves(in.Msgs) {
		u := sdk.MsgTypeURL(m)
		l = append(l, u[strings.LastIndex(u, ".")+1:])
	}
	return l
}

// failProps: what an unexpectedly failed transaction concerns.
func (w *World) failProps(in *TxIn, r *abci.ExecTxResult) []string {
	set := map[string]bool{}
	if len(r.Events) == 0 {
		set["G01"] = true // refused before execution
	}
	k := -1
	if i := strings.Index(r.Log, "message index: "); i >= 0 {
		fmt.Sscanf(r.Log[i:], "message index: %d", &k)
	}
	for i, m := range in.Msgs {
		if k >= 0 && i != k {
			continue
		}
		for _, x := range leaves([]sdk.Msg{m}) {
			for _, p := range strings.Fields(msgProps(x)) {
				set[p] = true
			}
		}
	}
	var l []string
	for p := range set {
		l = append(l, p)
	}
	sort.Strings(l)
	return l
}

// typed extracts the protocol events the model predicts.
func typed(evs []abci.Event) []proto.Message {
	var out []proto.Message
	for _, e := range evs {
		if _, ok := eventProps[e.Type]; !ok {
			continue
		}
		c := abci.Event{Type: e.Type}
		for _, a := range e.Attributes {
			if a.Key != "mode" && a.Key != "msg_index" && a.Key != "authz_msg_index" {
				c.Attributes = append(c.Attributes, a)
			}
		}
		m, err := sdk.ParseTypedEvent(c)
		if err != nil {
			panic(fmt.Sprintf("event %s: %v", e.Type, err))
		}
		out = append(out, m)
	}
	return out
}

// ---------------------------------------------------------------- other nodes

// deliver brings a node up to date, executing blocks it has not seen.
func (w *World) deliver(n *nodeState) {
	if n.dead {
		return
	}
	if n.lag > 0 {
		n.lag--
		return
	}
	for !n.dead && n.height() < w.h {
		h := n.height() + 1
		if h < 1 || int(h) > len(w.blocks) {
			w.violate("X02", "node %d is at impossible height %d", n.id, h-1)
			n.dead = true
			return
		}
		if h > 1 && w.blocks[h-2].old && !n.swapped && !w.swap(n) {
			n.dead, n.lag = true, 1<<30
			return
		}
		w.execOn(n, w.blocks[h-1])
	}
}

func (w *World) prop(n *nodeState) string {
	if n.restarted {
		return "X02"
	}
	return "X01"
}

func (w *World) execOn(n *nodeState, b *blockRec) {
	f := n.armed
	n.armed = nil
	if f != nil {
		switch f.Kind {
		case "crash-before-finalize":
			w.stats.fault("crash before FinalizeBlock")
			w.kill(n, f.Seed)
			return
		}
	}
	res, err, d := n.finalize(b.req)
	if err != nil || d != nil {
		w.violate(w.prop(n), "node %d cannot process block %d which node 0 processed: err=%v %s", n.id, b.req.Height, err, deathMsg(d))
		n.dead = true
		n.kill(0)
		return
	}
	if dg := digest(res); dg != b.digest {
		dbgDiff(b.res, res)
		w.violate(w.prop(n), "node %d computes another result for block %d (app hash %x, node 0 has %s)", n.id, b.req.Height, res.AppHash, b.hash)
		if n.restarted {
			w.violate("X01", "node %d computes another result for block %d", n.id, b.req.Height)
		}
		n.dead = true
		n.kill(0)
		n.lag = 1 << 30
		return
	}
	if f != nil {
		switch f.Kind {
		case "crash-after-finalize":
			w.stats.fault("crash between FinalizeBlock and Commit")
			w.kill(n, f.Seed)
			return
		case "io-error", "disk-full":
			n.disk.armFail(f.Kind, f.Seed)
		}
	}
	if b.old {
		w.toOld(n, b.req.Height, b.req.Time.Unix())
	}
	n.disk.begin()
	err, d = n.commit()
	if err == nil && d == nil && !n.disk.fired && hex.EncodeToString(n.app.LastCommitID().Hash) != b.hash {
		w.violate(w.prop(n), "node %d commits block %d with app hash %x, node 0 has %s", n.id, b.req.Height, n.app.LastCommitID().Hash, b.hash)
	}
	switch {
	case n.disk.fired:
		w.stats.fault(map[string]string{"io-error": "disk write error", "disk-full": "disk full"}[f.Kind])
		if err == nil && d == nil {
			w.violate("X02", "node %d reports block %d as committed although its disk rejected a write", n.id, b.req.Height)
		}
		w.kill(n, f.Seed)
		return
	case f != nil && f.Kind == "crash-in-commit":
		w.stats.fault("crash at a disk write inside Commit")
		w.kill(n, f.Seed)
		return
	}
	n.disk.end()
	if err != nil || d != nil {
		w.violate(w.prop(n), "node %d cannot commit block %d: err=%v %s", n.id, b.req.Height, err, deathMsg(d))
		n.dead = true
		n.kill(0)
		n.lag = 1 << 30
		return
	}
	n.fresh, n.synced = false, false
	w.stats.NodeBlocks++
}

func (w *World) kill(n *nodeState, seed uint64) {
	n.dead = true
	lost := n.kill(seed)
	if lost > 0 {
		w.stats.fault("unsynced writes lost")
	}
	w.note([]byte(fmt.Sprintf("kill %d", n.id)))
}

func (w *World) restart(n *nodeState) {
	if !n.dead || n.lag >= 1<<29 {
		return
	}
	if d := n.start(); d != nil {
		w.violate("X02", "node %d does not start after a crash: %s", n.id, deathMsg(d))
		n.lag = 1 << 30
		return
	}
	n.dead, n.restarted, n.fresh, n.lag = false, true, true, 0
	w.stats.fault("restart")
	w.touched["restart"]++
	if n.height() == 0 {
		// nothing durable: the node starts from genesis again
		if _, err, d := n.initChain(w.gen); err != nil || d != nil {
			w.violate("X02", "node %d cannot be initialised again: %v %s", n.id, err, deathMsg(d))
			n.dead, n.lag = true, 1<<30
			return
		}
	}
	w.note([]byte(fmt.Sprintf("restart %d at %d", n.id, n.height())))
	h := n.height()
	if h > w.h || (h > 0 && hex.EncodeToString(n.app.LastCommitID().Hash) != w.blocks[h-1].hash) {
		w.violate("X02", "node %d recovered height %d with app hash %x", n.id, h, n.app.LastCommitID().Hash)
		n.dead, n.lag = true, 1<<30
		return
	}
	w.deliver(n)
}

func (w *World) nodeStep(s *NodeStep) {
	if s.Node < 1 || s.Node >= len(w.nodes) {
		return
	}
	n := w.nodes[s.Node]
	switch s.Kind {
	case "clock":
		w.stats.fault("wall clock of a node jumps")
		n.skew = skews[s.K%len(skews)]
		return
	case "state-sync":
		w.stateSync(n, s)
		return
	case "rollback":
		w.rollback(n, s)
		return
	case "kill":
		if !n.dead {
			w.stats.fault("crash between blocks")
			w.kill(n, s.Seed)
		}
		return
	case "restart":
		w.restart(n)
		return
	case "crash-in-start":
		if n.dead && n.lag < 1<<29 {
			n.disk.begin()
			if d := n.start(); d != nil {
				w.violate("X02", "node %d does not start after a crash: %s", n.id, deathMsg(d))
				n.lag = 1 << 30
			}
			w.stats.fault("crash during startup")
			w.kill(n, s.Seed)
		}
		return
	case "lag":
		if !n.dead {
			w.stats.fault("slow node")
			n.lag += s.K
		}
		return
	case "catchup":
		n.lag = min(n.lag, 1<<30)
		if n.lag < 1<<29 {
			n.lag = 0
			w.deliver(n)
		}
		return
	case "crash-before-finalize", "crash-after-finalize", "crash-in-commit", "io-error", "disk-full":
		if !n.dead {
			n.armed = s
		}
		return
	}
	if n.dead || n.synced || w.pendingUpgrade() {
		return
	}
	// application calls which must not influence consensus state
	d := n.enter(func() {
		switch s.Kind {
		case "check", "recheck", "simulate":
			t := w.txs[s.Tx]
			if t == nil {
				return
			}
			raw := t.raw
			if raw == nil {
				raw = w.sign(t, w.st.Seq[account(t.in.Signer).Addr])
			}
			switch s.Kind {
			case "check":
				_, _ = n.app.CheckTx(&abci.RequestCheckTx{Tx: raw, Type: abci.CheckTxType_New})
			case "recheck":
				_, _ = n.app.CheckTx(&abci.RequestCheckTx{Tx: raw, Type: abci.CheckTxType_Recheck})
			case "simulate":
				_, _, _ = n.app.Simulate(raw)
			}
			w.stats.Calls[s.Kind]++
		case "propose":
			var raws [][]byte
			for _, id := range w.pendingIDs(6) {
				t := w.txs[id]
				raws = append(raws, w.sign(t, w.st.Seq[account(t.in.Signer).Addr]))
			}
			h := n.height() + 1
			tm := w.time().Add(time.Second)
			p, err := n.app.PrepareProposal(&abci.RequestPrepareProposal{MaxTxBytes: 200000, Txs: raws, Height: h, Time: tm, ProposerAddress: valPriv.PubKey().Address()})
			if err == nil {
				_, _ = n.app.ProcessProposal(&abci.RequestProcessProposal{Txs: p.Txs, Height: h, Time: tm, Hash: blockHash(h, p.Txs), ProposerAddress: valPriv.PubKey().Address()})
			}
			w.stats.Calls["propose"]++
		case "speculate":
			// a proposal which is executed but never decided: FinalizeBlock
			// is called twice for the same height with different content
			// only the last one is committed
			h := n.height() + 1
			if h != w.h+1 {
				return
			}
			_, _ = n.app.ProcessProposal(&abci.RequestProcessProposal{Height: h, Time: w.time().Add(time.Second), Hash: blockHash(h, nil), ProposerAddress: valPriv.PubKey().Address()})
			w.stats.Calls["speculate"]++
		}
	})
	if d != nil {
		w.violate("X04", "node %d died in %s: %s", n.id, s.Kind, deathMsg(d))
		n.dead = true
		n.kill(0)
	}
}

// stateSync replaces a node by a new one, which has an empty disk and takes
// the state of a peer instead of executing the blocks so far.
func (w *World) stateSync(n *nodeState, s *NodeStep) {
	p := w.nodes[s.K%len(w.nodes)]
	if p == n || p.dead || p.fresh || p.height() < 1 {
		p = w.nodes[0]
	}
	h := p.height()
	if n.lag >= 1<<29 || h < 1 || w.pendingUpgrade() || w.oldAt > 0 && h == w.oldAt {
		return
	}
	var buf bytes.Buffer
	d := p.enter(func() {
		x := protoio.NewDelimitedWriter(&buf)
		must(p.app.CommitMultiStore().Snapshot(uint64(h), x))
		must(x.Close())
	})
	if d != nil {
		w.violate("X04", "node %d died while writing a snapshot: %s", p.id, deathMsg(d))
		p.dead = true
		return
	}
	n.kill(0)
	n.disk, n.home = NewDisk(), w.scratch
	n.swapped = w.oldAt > 0 && h > w.oldAt
	n.dead, n.restarted, n.fresh, n.synced, n.armed, n.lag = false, false, true, true, nil, 0
	if d = n.start(); d == nil {
		d = n.enter(func() {
			_, err := n.app.CommitMultiStore().Restore(uint64(h), snapshottypes.CurrentFormat, protoio.NewDelimitedReader(&buf, 1<<26))
			must(err)
			n.hgt = n.app.LastBlockHeight()
			n.base = n.hgt
		})
	}
	w.stats.fault("node replaced, state synced from a peer")
	w.touched["sync"]++
	w.note([]byte(fmt.Sprintf("sync %d at %d", n.id, h)))
	if d != nil || n.height() != h || hex.EncodeToString(n.app.LastCommitID().Hash) != w.blocks[h-1].hash {
		w.violate("X01", "node %d cannot take the state of node %d at height %d: %s", n.id, p.id, h, deathMsg(d))
		n.dead, n.lag = true, 1<<30
		return
	}
	w.deliver(n)
}

// rollback is the operator command: it drops the last blocks of a node, which
// then executes them again.
func (w *World) rollback(n *nodeState, s *NodeStep) {
	h := n.height() - int64(s.K%3) - 1
	if n.dead || n.synced || n.lag >= 1<<29 || h < max(1, n.base) || w.pendingUpgrade() || w.oldAt > 0 && h <= w.oldAt {
		return
	}
	n.armed, n.lag = nil, 0
	n.app = nil
	d := n.start()
	if d == nil {
		d = n.enter(func() { must(n.app.CommitMultiStore().RollbackToVersion(h)) })
	}
	if d == nil {
		n.app = nil
		d = n.start()
	}
	w.stats.fault("blocks rolled back by the operator")
	w.touched["rollback"]++
	w.note([]byte(fmt.Sprintf("rollback %d to %d", n.id, h)))
	n.restarted, n.fresh = true, true
	if d != nil || n.height() != h || hex.EncodeToString(n.app.LastCommitID().Hash) != w.blocks[h-1].hash {
		w.violate("X02", "node %d cannot be rolled back to height %d: it is at %d, %s", n.id, h, n.height(), deathMsg(d))
		n.dead, n.lag = true, 1<<30
		return
	}
	w.deliver(n)
}

// pendingIDs lists up to n transactions not yet in a block.
func (w *World) pendingIDs(n int) []int {
	var l []int
	for id, t := range w.txs {
		if t.raw == nil {
			l = append(l, id)
		}
	}
	sort.Ints(l)
	if len(l) > n {
		l = l[len(l)-n:]
	}
	return l
}

// pendingUpgrade: the old software is done, the new one has not started.
func (w *World) pendingUpgrade() bool { return w.oldAt > 0 && w.h == w.oldAt }

func (w *World) check(c *CheckStep) {
	if w.pendingUpgrade() {
		return
	}
	switch c.Kind {
	case "query":
		n := w.nodes[0]
		if c.Node > 0 && c.Node < len(w.nodes) {
			x := w.nodes[c.Node]
			if !x.dead && x.height() == w.h && !x.fresh {
				n = x
			}
		}
		w.touched["query"]++
		w.queries(n, c.Seed)
	case "answers":
		w.touched["answers"]++
		w.compareAnswers()
	case "export":
		w.touched["export"]++
		w.export(c)
	case "calm":
		w.hist.calm(w)
	}
}

// Finish ends the run: all nodes are repaired and compared.
func (w *World) Finish() {
	if w.halted {
		return
	}
	for _, n := range w.nodes[1:] {
		n.armed = nil
		if n.dead {
			w.restart(n)
		}
		if !n.dead && n.lag < 1<<29 {
			n.lag = 0
			w.deliver(n)
		}
	}
	w.endShadow()
	if w.h > 0 && (len(w.nodes) > 1 || w.cfg.Profile == "X06" || w.cfg.Profile == "") {
		w.compareAnswers()
	}
	w.note(nil)
}
