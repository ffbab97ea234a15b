package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// homeDir is the home directory given to the simulated applications: a
// scratch directory removed when the process ends.
var homeDir string

func withHome(f func() int) int {
	d, err := os.MkdirTemp("", "kyvesim")
	must(err)
	homeDir = d
	defer os.RemoveAll(d)
	return f()
}

// Replay is a complete, self-contained execution: the configuration is
// derived from seed and profile, everything else is listed step by step.
type Replay struct {
	Property string `json:"property"`
	Message  string `json:"message"`
	Height   int64  `json:"height"`
	Seed     uint64 `json:"seed"`
	Profile  string `json:"profile"`
	Extra    int    `json:"extra_nodes"`
	Attempts int    `json:"attempts,omitempty"`
	Steps    []Step `json:"steps"`
}

// exec runs a replay and returns the violation of its property, if any.
func (r *Replay) exec(verbose bool) *Violation {
	n := max(r.Attempts, 1)
	for i := 0; i < n; i++ {
		if v := r.exec1(verbose); v != nil {
			return v
		}
	}
	return nil
}

func (r *Replay) exec1(verbose bool) *Violation {
	w := replayWorld(r.Seed, r.Profile, r.Extra, newStats())
	w.verbose = verbose
	for _, s := range r.Steps {
		beat()
		w.Do(s)
		if w.viol[r.Property] != nil {
			return w.viol[r.Property]
		}
		if w.halted {
			break
		}
	}
	w.Finish()
	return w.viol[r.Property]
}

func replayWorld(seed uint64, prof string, extra int, st *Stats) *World {
	return NewWorld(NewCfg(seed, prof), extra, homeDir, st)
}

// ---------------------------------------------------------------- watchdog

// A call into the application which does not return is a chain that stopped.
// The watchdog only exists for that: nothing in a run depends on real time.
var lastBeat atomic.Int64
var onHang atomic.Pointer[func()]

const hangLimit = 90 * time.Second

func beat() { lastBeat.Store(time.Now().UnixNano()) }

func watchdog() {
	beat()
	go func() {
		for {
			time.Sleep(2 * time.Second)
			if time.Since(time.Unix(0, lastBeat.Load())) > hangLimit {
				if f := onHang.Load(); f != nil {
					(*f)()
				}
				os.Exit(3)
			}
		}
	}()
}

// ---------------------------------------------------------------- worker

type runSummary struct {
	Index   int      `json:"index"`
	Seed    uint64   `json:"seed"`
	Trace   string   `json:"trace"`
	Nontriv bool     `json:"nontriv"`
	Blocks  int64    `json:"blocks"`
	SimSec  int64    `json:"sim_s"`
	Steps   int      `json:"steps"`
	Nodes   int      `json:"nodes"`
	Other   []string `json:"other,omitempty"` // violations of other properties
}

type workerOut struct {
	Stats  *Stats         `json:"stats"`
	Runs   []runSummary   `json:"runs"`
	Known  map[string]int `json:"known"`
	Fail   *Replay        `json:"fail,omitempty"`
	FailAt int            `json:"fail_at"`
	Sample []Sample       `json:"sample,omitempty"`
	Err    string         `json:"err,omitempty"`
}

// Sample is one case written out for the evidence file.
type Sample struct {
	Index  int            `json:"index"`
	Seed   uint64         `json:"seed"`
	Config map[string]any `json:"config"`
	Steps  int            `json:"steps"`
	First  []string       `json:"some_steps"`
	Trace  string         `json:"trace_hash"`
}

func runSeed(base uint64, prop string, i int) uint64 {
	h := sha256.Sum256([]byte(fmt.Sprintf("%d/%s/%d", base, prop, i)))
	var s uint64
	for _, b := range h[:6] {
		s = s<<8 | uint64(b)
	}
	return s
}

func cmdWorker(args []string) int {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	from := fs.Int("from", 0, "")
	step := fs.Int("step", 1, "")
	to := fs.Int("to", 0, "")
	deadline := fs.Int64("deadline", 0, "unix seconds after which no new run starts")
	known := fs.String("known", "", "")
	_ = fs.Parse(args)
	runtime.GOMAXPROCS(2)
	loadKnown(*known)
	return withHome(func() int {
		out := &workerOut{Stats: newStats(), Known: map[string]int{}}
		var mu sync.Mutex
		emit := func() {
			b, err := json.Marshal(out)
			must(err)
			os.Stdout.Write(append(b, '\n'))
		}
		watchdog()
		defer func() {
			if r := recover(); r != nil {
				out.Err = fmt.Sprintf("%v\n%s", r, debug.Stack())
				emit()
			}
		}()
		for i := *from; i < *to; i += *step {
			if *deadline > 0 && time.Now().Unix() > *deadline && i != *from {
				break
			}
			seed := runSeed(*base, *prop, i)
			var w *World
			hang := func() {
				mu.Lock()
				steps := append([]Step(nil), w.steps...)
				out.Fail = &Replay{Property: "X04", Message: "a block does not finish", Seed: seed, Profile: *prop, Extra: len(w.nodes) - 1, Steps: steps}
				if *prop != "X04" {
					out.Fail = nil
					out.Err = "simulated application hangs"
				}
				out.FailAt = i
				emit()
				os.Exit(0)
			}
			beat()
			w = newRun(seed, *prop, out.Stats)
			onHang.Store(&hang)
			w.focus = *prop
			g := NewGen(w)
			g.Run()
			w.Finish()
			if *prop == "X01" && w.viol["X01"] == nil {
				w.again()
			}
			out.Stats.Runs++
			out.Stats.SimMs += w.ms
			tr := hex.EncodeToString(w.trace)[:16]
			out.Stats.Traces[tr]++
			s := runSummary{Index: i, Seed: seed, Trace: tr, Nontriv: w.nontrivial(*prop), Blocks: w.h, SimSec: w.ms / 1000, Steps: len(w.steps), Nodes: len(w.nodes)}
			for _, p := range w.order {
				if p != *prop {
					s.Other = append(s.Other, p)
				}
			}
			out.Runs = append(out.Runs, s)
			for k, n := range w.known {
				out.Known[k] += n
			}
			if len(out.Sample) < 1 && s.Nontriv {
				out.Sample = append(out.Sample, w.sample(i, tr))
			}
			if v := w.viol[*prop]; v != nil {
				out.Fail = w.replay(v)
				out.FailAt = i
				break
			}
		}
		emit()
		return 0
	})
}

func (w *World) replay(v *Violation) *Replay {
	n := len(w.steps)
	if v.Step+1 < n {
		n = v.Step + 1
	}
	r := &Replay{Property: v.Prop, Message: v.Msg, Height: v.Height, Seed: w.cfg.Seed, Profile: w.cfg.Profile, Extra: len(w.nodes) - 1, Steps: w.steps[:n]}
	if v.Prop == "X01" {
		// an execution which depends on more than its inputs need not show it every time
		r.Attempts = 8
	}
	return r
}

// again executes the recorded steps a second time: the same inputs have to
// give exactly the same observations.
func (w *World) again() {
	x := replayWorld(w.cfg.Seed, w.cfg.Profile, len(w.nodes)-1, newStats())
	for _, s := range w.steps {
		beat()
		x.Do(s)
	}
	x.Finish()
	w.stats.Probes["executed twice"]++
	if !bytes.Equal(w.trace, x.trace) {
		at := int64(0)
		for i := range w.blocks {
			if i >= len(x.blocks) || x.blocks[i].digest != w.blocks[i].digest {
				at = int64(i + 1)
				break
			}
		}
		w.cur = len(w.steps) - 1
		w.violate("X01", "the same inputs executed twice differ (first at block %d)", at)
	}
}

// touchProps: operations of the model which exercise a property.
func (w *World) nontrivial(prop string) bool {
	switch prop {
	case "X01":
		return w.stats != nil && len(w.nodes) > 1 && w.h > 20
	case "X02":
		return w.touched["restart"] > 0
	case "X05":
		return w.touched["export"] > 0
	case "X06":
		return w.touched["query"] > 0
	case "X04", "X07":
		return w.h > 20 && w.touched["any"] > 10
	}
	return w.touched[prop] > 0
}

func (w *World) sample(i int, tr string) Sample {
	s := Sample{Index: i, Seed: w.cfg.Seed, Steps: len(w.steps), Trace: tr, Config: map[string]any{
		"stakers": w.cfg.Stakers, "delegators": w.cfg.Delegators, "funders": w.cfg.Funders, "pools": w.cfg.Pools, "nodes": len(w.nodes),
		"blocks": w.h, "max_points": w.cfg.B.MaxPoints, "upload_timeout": w.cfg.B.UploadTimeout, "unbonding": w.cfg.D.UnbondingDelegationTime,
	}}
	n := len(w.steps)
	for k := 0; k < 14; k++ {
		j := n/3 + k
		if j >= n {
			break
		}
		b, err := json.Marshal(w.steps[j])
		must(err)
		t := string(b)
		if len(t) > 400 {
			t = t[:400] + "..."
		}
		s.First = append(s.First, t)
	}
	return s
}

// ---------------------------------------------------------------- replay

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	quiet := fs.Bool("q", false, "only the verdict")
	known := fs.String("known", "", "")
	_ = fs.Parse(args)
	loadKnown(*known)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	var r Replay
	if err := json.Unmarshal(b, &r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	return withHome(func() int {
		watchdog()
		hang := func() {
			if r.Property == "X04" {
				fmt.Printf("VIOLATION property=%s replay=%s\n  a block does not finish\n", r.Property, fs.Arg(0))
				os.Exit(1)
			}
		}
		onHang.Store(&hang)
		v := r.exec(!*quiet)
		if v == nil {
			fmt.Printf("no violation of %s\n", r.Property)
			return 0
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  height %d: %s\n", r.Property, fs.Arg(0), v.Height, v.Msg)
		return 1
	})
}

// ---------------------------------------------------------------- minimisation

// minimise shrinks the steps of a failing execution while the same property
// stays violated (delta debugging); candidates run in fresh processes.
func minimise(r *Replay, dir, known string, budget time.Duration) *Replay {
	end := time.Now().Add(budget)
	self, err := os.Executable()
	must(err)
	try := func(cands []*Replay) int { // index of the first candidate that still fails
		ok := make([]bool, len(cands))
		var wg sync.WaitGroup
		for i, c := range cands {
			wg.Add(1)
			go func() {
				defer wg.Done()
				f := filepath.Join(dir, fmt.Sprintf("cand%d.json", i))
				b, err := json.Marshal(c)
				must(err)
				must(os.WriteFile(f, b, 0o644))
				cmd := exec.Command(self, "replay", "-q", "-known", known, f)
				done := make(chan struct{})
				go func() {
					select {
					case <-done:
					case <-time.After(60 * time.Second):
						_ = cmd.Process.Kill()
					}
				}()
				err = cmd.Run()
				close(done)
				if e, is := err.(*exec.ExitError); is && e.ExitCode() == 1 {
					ok[i] = true
				}
			}()
		}
		wg.Wait()
		for i := range ok {
			if ok[i] {
				return i
			}
		}
		return -1
	}
	with := func(steps []Step, extra int) *Replay {
		c := *r
		c.Steps, c.Extra = steps, extra
		return &c
	}
	cur := r
	if try([]*Replay{cur}) < 0 {
		return nil
	}
	// whole kinds of steps first
	drop := func(keep func(s Step) bool) []Step {
		var l []Step
		for _, s := range cur.Steps {
			if keep(s) {
				l = append(l, s)
			}
		}
		return l
	}
	c1 := with(drop(func(s Step) bool { return s.Node == nil }), 0)
	c2 := with(drop(func(s Step) bool { return s.Node == nil && s.Check == nil }), 0)
	c3 := with(cur.Steps, 0)
	c4 := with(drop(func(s Step) bool { return s.Node == nil || strings.Contains("kill restart", s.Node.Kind) }), cur.Extra)
	cs := []*Replay{c2, c1, c3, c4}
	if i := try(cs); i >= 0 {
		cur = cs[i]
	}
	n := 2
	for n <= len(cur.Steps) && time.Now().Before(end) {
		size := (len(cur.Steps) + n - 1) / n
		hit := false
		for a := 0; a < len(cur.Steps) && time.Now().Before(end); {
			var cands []*Replay
			for k := 0; k < 8 && a+k*size < len(cur.Steps); k++ {
				lo := a + k*size
				hi := min(lo+size, len(cur.Steps))
				steps := append(append([]Step(nil), cur.Steps[:lo]...), cur.Steps[hi:]...)
				cands = append(cands, with(steps, cur.Extra))
			}
			if i := try(cands); i >= 0 {
				cur = cands[i]
				hit = true
				a += i * size
			} else {
				a += len(cands) * size
			}
		}
		if size == 1 && !hit {
			break
		}
		if !hit {
			n = min(n*2, max(len(cur.Steps), 2))
		} else {
			n = max(n-1, 2)
		}
	}
	return cur
}

// ---------------------------------------------------------------- run

type tierCfg struct {
	runs   int
	secs   int64
	shrink time.Duration
}

var tiers = map[string]tierCfg{
	"quick":    {900, 60, 60 * time.Second},
	"thorough": {20000, 1500, 300 * time.Second},
}

func cmdRun(args []string) int {
	fs := flag.NewFlagSet("run", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("seed", 1, "")
	tier := fs.String("tier", "quick", "")
	jobs := fs.Int("jobs", 8, "")
	dir := fs.String("dir", "/verif", "")
	runs := fs.Int("runs", 0, "")
	_ = fs.Parse(args)
	t, ok := tiers[*tier]
	if !ok {
		fmt.Fprintln(os.Stderr, "bad tier")
		return 2
	}
	if *runs > 0 {
		t.runs = *runs
	}
	known := filepath.Join(*dir, "known-findings.txt")
	loadKnown(known)
	start := time.Now()
	self, err := os.Executable()
	must(err)
	outs := make([]*workerOut, *jobs)
	errs := make([]error, *jobs)
	var wg sync.WaitGroup
	deadline := time.Now().Unix() + t.secs
	for j := 0; j < *jobs; j++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			cmd := exec.Command(self, "worker", "-prop", *prop, "-seed", fmt.Sprint(*base), "-from", fmt.Sprint(j), "-step", fmt.Sprint(*jobs),
				"-to", fmt.Sprint(t.runs), "-deadline", fmt.Sprint(deadline), "-known", known)
			var so, se bytes.Buffer
			cmd.Stdout, cmd.Stderr = &so, &se
			done := make(chan struct{})
			go func() {
				select {
				case <-done:
				case <-time.After(time.Duration(t.secs)*time.Second + 4*time.Minute):
					_ = cmd.Process.Kill()
				}
			}()
			err := cmd.Run()
			close(done)
			if err != nil {
				e := se.String()
				if len(e) > 3000 {
					e = e[:3000]
				}
				errs[j] = fmt.Errorf("worker %d: %v %s", j, err, e)
			}
			var o workerOut
			if json.Unmarshal(so.Bytes(), &o) == nil && o.Stats != nil {
				outs[j] = &o
				if o.Err != "" {
					errs[j] = fmt.Errorf("worker %d: %s", j, o.Err)
				}
			} else if err == nil {
				errs[j] = fmt.Errorf("worker %d: no result", j)
			}
		}()
	}
	wg.Wait()
	all := &workerOut{Stats: newStats(), Known: map[string]int{}}
	var fail *Replay
	at := 0
	for _, o := range outs {
		if o == nil {
			continue
		}
		all.Stats.add(o.Stats)
		all.Runs = append(all.Runs, o.Runs...)
		for k, n := range o.Known {
			all.Known[k] += n
		}
		all.Sample = append(all.Sample, o.Sample...)
		if o.Fail != nil && (fail == nil || o.FailAt < at) {
			fail, at = o.Fail, o.FailAt
		}
	}
	sort.Slice(all.Runs, func(i, j int) bool { return all.Runs[i].Index < all.Runs[j].Index })
	searchWall := time.Since(start)
	if fail != nil {
		must(os.MkdirAll(filepath.Join(*dir, "replays"), 0o755))
		path := filepath.Join(*dir, "replays", fmt.Sprintf("%s-%d-%d.json", *prop, *base, at))
		tmp, err := os.MkdirTemp("", "kyvemin")
		must(err)
		full := len(fail.Steps)
		small := minimise(fail, tmp, known, t.shrink)
		os.RemoveAll(tmp)
		note := ""
		if small == nil {
			small = fail
			note = " (not reproduced in a fresh process)"
		}
		writeJSON(path, small)
		writeEvidence(*dir, *prop, *tier, *base, all, searchWall, time.Since(start), 1, *jobs)
		fmt.Printf("seed %d run %d: %s\n", small.Seed, at, fail.Message)
		fmt.Printf("minimised from %d to %d steps%s\n", full, len(small.Steps), note)
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, path)
		return 1
	}
	bad := 0
	for _, e := range errs {
		if e != nil {
			fmt.Fprintln(os.Stderr, "harness error:", e)
			bad++
		}
	}
	if bad > 0 {
		return 2
	}
	if len(all.Runs) < min(t.runs, 8) {
		fmt.Fprintf(os.Stderr, "harness error: only %d runs\n", len(all.Runs))
		return 2
	}
	writeEvidence(*dir, *prop, *tier, *base, all, searchWall, time.Since(start), 0, *jobs)
	other := map[string]int{}
	for _, r := range all.Runs {
		for _, p := range r.Other {
			other[p]++
		}
	}
	fmt.Printf("%s: %d runs, %d blocks, %d transactions, %.0f s, other properties violated: %v\n", *prop, len(all.Runs), all.Stats.Blocks, all.Stats.Txs, searchWall.Seconds(), other)
	for _, k := range knownList {
		if k.Prop == *prop && all.Known[k.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s, seen %d times)\n", *prop, k.Text, k.ID, all.Known[k.ID])
		}
	}
	return 0
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Dir(path), 0o755))
	must(os.WriteFile(path, append(b, '\n'), 0o644))
}
