package main

import (
	"fmt"
	"runtime/debug"
	"time"

	"cosmossdk.io/log"
	"cosmossdk.io/store"
	"github.com/KYVENetwork/chain/app"
	abci "github.com/cometbft/cometbft/abci/types"
	"github.com/cosmos/cosmos-sdk/baseapp"
)

// Node is one simulated validator/full node: the real application on a
// simulated disk. app == nil means the process is not running.
type Node struct {
	id   int
	disk *Disk
	app  *app.App
	mem  procMem       // package-level variables of this process
	skew time.Duration // of its wall clock
	opts nodeOpts
	home string
	next int64
	hgt  int64 // last committed height (computing it hashes all stores)
}

type nodeOpts struct {
	IavlCache int
	NoFast    bool
	InterBlk  bool
	MinGas    string
}

type appOpts struct{ home string }

func (o appOpts) Get(k string) interface{} {
	if k == "home" {
		return o.home
	}
	return nil
}

type procDeath struct {
	Msg   string
	Stack string
}

// enter runs f as this node's process. A panic kills the process.
func (n *Node) enter(f func()) (death *procDeath) {
	saved := swapMem(n.mem)
	wall = blockWall.Add(n.skew)
	defer func() {
		n.mem = swapMem(saved)
		if r := recover(); r != nil {
			death = &procDeath{Msg: fmt.Sprint(r), Stack: string(debug.Stack())}
			n.app = nil
		}
	}()
	f()
	return nil
}

// start boots a process on the node's disk.
func (n *Node) start() *procDeath {
	n.mem = freshMem()
	return n.enter(func() {
		o := []func(*baseapp.BaseApp){baseapp.SetChainID(chainID)}
		if n.opts.IavlCache > 0 {
			o = append(o, baseapp.SetIAVLCacheSize(n.opts.IavlCache))
		}
		if n.opts.NoFast {
			o = append(o, baseapp.SetIAVLDisableFastNode(true))
		}
		if n.opts.InterBlk {
			o = append(o, baseapp.SetInterBlockCache(store.NewCommitKVStoreCacheManager()))
		}
		if n.opts.MinGas != "" {
			o = append(o, baseapp.SetMinGasPrices(n.opts.MinGas))
		}
		a, err := app.New(log.NewNopLogger(), n.disk, nil, true, appOpts{n.home}, o...)
		if err != nil {
			panic(fmt.Sprintf("app.New: %v", err))
		}
		n.app = a
		n.hgt = a.LastBlockHeight()
	})
}

// kill ends the process; seed decides which writes of an unfinished commit survive.
func (n *Node) kill(seed uint64) int {
	n.app = nil
	n.disk.crash(seed)
	return n.disk.lost
}

func (n *Node) height() int64 { return n.hgt }

func (n *Node) initChain(req *abci.RequestInitChain) (res *abci.ResponseInitChain, err error, d *procDeath) {
	d = n.enter(func() { res, err = n.app.InitChain(req) })
	return
}

func (n *Node) finalize(req *abci.RequestFinalizeBlock) (res *abci.ResponseFinalizeBlock, err error, d *procDeath) {
	d = n.enter(func() { res, err = n.app.FinalizeBlock(req) })
	n.next = req.Height
	return
}

func (n *Node) commit() (err error, d *procDeath) {
	d = n.enter(func() { _, err = n.app.Commit() })
	if err == nil && d == nil {
		n.hgt = n.next
	}
	return
}
