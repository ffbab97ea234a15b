package main

// Stats counts what the simulation did.
type Stats struct {
	Runs, Blocks, Txs, TxOK, NodeBlocks int
	Compared, Poisoned, Viol            int
	SimMs                               int64
	Faults                              map[string]int
	Calls                               map[string]int
	Cells                               map[string]int
	Probes                              map[string]int
	Queries, Exports, Calm              int
	MaxGas                              uint64
	Traces                              map[string]int // distinct executions by trace hash
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Calls: map[string]int{}, Cells: map[string]int{}, Probes: map[string]int{}, Traces: map[string]int{}}
}

func (s *Stats) fault(k string) { s.Faults[k]++ }

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (s *Stats) add(o *Stats) {
	s.Runs += o.Runs
	s.Blocks += o.Blocks
	s.Txs += o.Txs
	s.TxOK += o.TxOK
	s.NodeBlocks += o.NodeBlocks
	s.Compared += o.Compared
	s.Poisoned += o.Poisoned
	s.Viol += o.Viol
	s.SimMs += o.SimMs
	s.Queries += o.Queries
	s.Exports += o.Exports
	s.Calm += o.Calm
	s.MaxGas = max(s.MaxGas, o.MaxGas)
	addMap(s.Faults, o.Faults)
	addMap(s.Calls, o.Calls)
	addMap(s.Cells, o.Cells)
	addMap(s.Probes, o.Probes)
	addMap(s.Traces, o.Traces)
}
