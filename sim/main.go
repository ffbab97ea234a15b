package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strconv"
	"time"
)

func main() {
	setupPrefixes()
	debug.SetGCPercent(500)
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: sim run|worker|replay|seeds ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "run":
		os.Exit(cmdRun(os.Args[2:]))
	case "worker":
		os.Exit(cmdWorker(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "seeds":
		loadKnown("/verif/known-findings.txt")
		withHome(func() int { cmdSeeds(os.Args[2:]); return 0 })
	default:
		fmt.Fprintln(os.Stderr, "unknown command")
		os.Exit(2)
	}
}

// cmdSeeds: seeds FROM TO [profile] [v] runs plain seeds (development aid).
func cmdSeeds(args []string) {
	a, _ := strconv.Atoi(args[0])
	b, _ := strconv.Atoi(args[1])
	prof := ""
	if len(args) > 2 {
		prof = args[2]
	}
	st := newStats()
	props := map[string]int{}
	t := time.Now()
	if p := os.Getenv("CPUPROF"); p != "" {
		f, err := os.Create(p)
		must(err)
		must(pprof.StartCPUProfile(f))
		defer pprof.StopCPUProfile()
	}
	for s := a; s < b; s++ {
		w := newRun(uint64(s), prof, st)
		w.verbose = b == a+1 && len(args) > 3
		NewGen(w).Run()
		w.Finish()
		st.Runs++
		for _, p := range w.order {
			v := w.viol[p]
			props[p]++
			if b == a+1 || p == w.order[0] {
				fmt.Printf("seed %d h%d %s: %s\n", s, v.Height, v.Prop, v.Msg)
			}
			fmt.Printf("prop %s\n", p)
		}
		if os.Getenv("TRACE") != "" {
			fmt.Printf("trace %s %d %x\n", prof, s, w.trace)
		}
		for k, n := range w.known {
			props["known "+k] += n
		}
	}
	if os.Getenv("CELLS") != "" {
		for _, c := range sortedKeys(st.Cells) {
			fmt.Println("cell", c, st.Cells[c])
		}
	}
	fmt.Println(time.Since(t)/time.Duration(b-a), "per run;", st.Blocks, "blocks", st.Txs, "txs", st.TxOK, "ok", st.Compared, "compared", st.Poisoned, "poisoned", len(st.Cells), "cells calm", st.Calm, "gas", st.MaxGas)
	fmt.Println(props, st.Faults, st.Probes)
}

// newRun prepares one simulated execution.
func newRun(seed uint64, prof string, st *Stats) *World {
	cfg := NewCfg(seed, prof)
	return NewWorld(cfg, extraNodes(cfg), homeDir, st)
}

// extraNodes is how many nodes besides node 0 a run has.
func extraNodes(c *Cfg) int {
	r := NewRNG(c.Seed).Fork("extra")
	switch c.Profile {
	case "X01", "X02", "D03":
		return r.Range(1, 3)
	case "":
		return r.Intn(3)
	case "X08":
		return r.Range(0, 2)
	}
	if r.P(0.3) {
		return 1
	}
	return 0
}
