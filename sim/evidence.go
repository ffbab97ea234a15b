package main

import (
	"fmt"
	"math"
	"path/filepath"
	"time"
)

const ruleText = "Each case is one simulated execution of the real application: a run seed (derived from VERIF_SEED, the property and the run number) draws the genesis (parameters, pools, users, coins), the number of nodes, the workload mix (biased to the property), clients and validators that lie, stay silent or crash, message loss, duplication, reordering and delay, block times and the node faults. A case is non-trivial if it contains at least one operation the property is about (%s) and its whole observable trace (all block results, app hashes, crashes and restarts) differs from every other case's."

var about = map[string]string{
	"X01": "a second node and more than 20 blocks", "X02": "a node restarted after a crash", "X03": "a transaction that failed after its fee was taken", "X04": "more than 20 blocks with transactions",
	"X05": "an export and import", "X06": "a query battery", "X07": "more than 20 blocks with transactions", "X08": "the software upgrade",
}

func writeEvidence(dir, prop, tier string, seed uint64, o *workerOut, search, wall time.Duration, viol, jobs int) {
	seen := map[string]bool{}
	nt := 0
	multi := 0
	for _, r := range o.Runs {
		if r.Nontriv && !seen[r.Trace] {
			nt++
		}
		seen[r.Trace] = true
		if r.Nodes > 1 {
			multi++
		}
	}
	st := o.Stats
	ab := about[prop]
	if ab == "" {
		ab = "an operation the reference model attributes to " + prop
	}
	sec := math.Max(search.Seconds(), 0.001)
	samples := o.Sample
	if len(samples) > 3 {
		samples = samples[:3]
	}
	ss := []any{}
	for _, s := range samples {
		ss = append(ss, s)
	}
	cov := map[string]any{
		"evaluations": len(o.Runs), "distinct_nontrivial": nt, "rule": fmt.Sprintf(ruleText, ab), "samples": ss,
		"runs_per_hour": int(float64(len(o.Runs)) / sec * 3600), "seeds_per_hour": int(float64(len(o.Runs)) / sec * 3600),
		"worker_processes": jobs, "simulated_seconds": st.SimMs / 1000, "blocks": st.Blocks, "blocks_on_other_nodes": st.NodeBlocks,
		"transactions": st.Txs, "transactions_succeeded": st.TxOK,
		"blocks_predicted_by_the_model_and_compared":          st.Compared,
		"blocks_not_compared_because_rounding_or_gas_decides": st.Poisoned,
		"faults_fired":                        st.Faults,
		"application_calls":                   st.Calls,
		"probes":                              st.Probes,
		"liveness_windows":                    st.Calm,
		"query_batteries":                     st.Queries,
		"exports":                             st.Exports,
		"runs_with_more_than_one_node":        multi,
		"distinct_executions_by_trace_hash":   len(st.Traces),
		"distinct_states_reached":             map[string]any{"measure": "cells of the reference model: (operation, outcome, qualitative circumstances)", "count": len(st.Cells)},
		"violations_of_other_properties_seen": otherCount(o.Runs),
		"known_findings_seen":                 o.Known,
		"real_code":                           "app, all x/ modules, ante and post handlers, Cosmos SDK baseapp, bank, auth, gov, staking, distribution, mint, feegrant, store (rootmulti, iavl), protobuf transaction encoding and secp256k1 signatures",
		"stub":                                "CometBFT consensus, mempool and p2p (the simulator decides block content, time and delivery), disk (in-memory store with crash semantics behind the cosmos-db interface), IBC counterparties (none), protocol data and storage providers",
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov, "wall_s": wall.Seconds(), "violations": viol,
		"assumptions": []string{
			"the reference model in /verif/sim states the intended behaviour; it was written from the documentation and code and is independent of the keepers",
			"CometBFT delivers every block once and in order to a running node and replays missing blocks after a restart",
			"a disk keeps per store a prefix of the writes of an unfinished commit; the commit record is written last",
		},
	}
	writeJSON(filepath.Join(dir, "evidence", prop+".json"), ev)
}

func otherCount(rs []runSummary) map[string]int {
	m := map[string]int{}
	for _, r := range rs {
		for _, p := range r.Other {
			m[p]++
		}
	}
	return m
}
