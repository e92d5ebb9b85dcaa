package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

// Replay is a violation written out.
type Replay struct {
	Property  string   `json:"property"`
	Class     string   `json:"class"`
	Key       string   `json:"key"`
	Message   string   `json:"message"`
	Seed      uint64   `json:"seed"`
	Case      uint64   `json:"case"`
	Shrinks   int      `json:"shrink_steps"`
	Plan      *Plan    `json:"plan"`
	Trace     []string `json:"trace"`
	ReplayCmd string   `json:"replay_cmd"`
}

// KnownFinding is an entry of known_findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
}

var (
	fProp    = flag.String("prop", "", "property")
	fTier    = flag.String("tier", "quick", "quick or thorough")
	fSeed    = flag.Uint64("seed", 1, "seed")
	fVerif   = flag.String("verif", "/verif", "verif directory")
	fWorker  = flag.Int("worker", -1, "internal: worker number")
	fN       = flag.Int("n", runtime.NumCPU(), "workers")
	fBudget  = flag.Float64("budget", 0, "seconds of search")
	fOut     = flag.String("out", "", "directory for replay files")
	fReplay  = flag.String("replay", "", "replay file")
	fCase    = flag.Int64("case", -1, "run one case and print it")
	fMax     = flag.Int("maxcases", 0, "stop after that many cases per worker")
	fFrom    = flag.Uint64("from", 0, "first case")
	fV       = flag.Bool("v", false, "print traces")
	fCollect = flag.Bool("collect", false, "development: list every kind of violation instead of stopping at the first")
	fPlan    = flag.String("plan", "", "internal: check one plan")
)

func main() {
	flag.Parse()
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(2 << 30)
	c := checks[*fProp]
	switch {
	case *fFidelity != "":
		os.Exit(fidelity(*fFidelity))
	case *fReplay != "":
		os.Exit(replay(*fReplay))
	case c == nil:
		var ids []string
		for id := range checks {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		fmt.Println("properties:", ids, "tools:", simrt.Tools())
		os.Exit(2)
	case *fPlan != "":
		os.Exit(onePlan(c, *fPlan))
	case *fCase >= 0:
		os.Exit(oneCase(c, uint64(*fCase)))
	case *fWorker >= 0:
		worker(c)
	default:
		os.Exit(coordinate(c))
	}
}

func caseRng(prop string, seed, k uint64) *simrt.Rng {
	return simrt.NewRng(simrt.Mix(seed, simrt.HashString(prop), k))
}

// runCheck runs a check on a plan; a failure of the harness itself is not a violation.
func runCheck(c *Check, p *Plan, rn *Runner) (v *Violation) {
	return c.Run(p, rn)
}

func genCase(c *Check, seed, k uint64, rn *Runner) *Plan {
	p := c.Gen(caseRng(c.Prop, seed, k), rn)
	if p != nil {
		p.Prop = c.Prop
		p.Case = k
		p = p.clone() // exactly what a replay file would hold
	}
	return p
}

func oneCase(c *Check, k uint64) int {
	rn := &Runner{Stats: newStats(), Keep: true}
	p := genCase(c, *fSeed, k, rn)
	if p == nil {
		fmt.Println("no plan")
		return 0
	}
	rn.Trace = nil
	v := runCheck(c, p, rn)
	b, _ := json.MarshalIndent(p, "", " ")
	fmt.Println(string(b))
	if *fV {
		for _, l := range rn.Trace {
			fmt.Println(l)
		}
	}
	if v != nil {
		fmt.Printf("VIOLATION %s [%s]: %s\n", v.Class, v.Key, v.Msg)
		return 1
	}
	return 0
}

func loadPlan(file string) (*Plan, *Replay, error) {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil, nil, err
	}
	r := new(Replay)
	if err := json.Unmarshal(b, r); err != nil {
		return nil, nil, err
	}
	return r.Plan, r, nil
}

// onePlan checks a plan in this process: exit 10 if it shows the expected violation.
func onePlan(c *Check, file string) int {
	p, r, err := loadPlan(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for i := 0; i < c.tries(); i++ {
		rn := &Runner{Stats: newStats()}
		v := runCheck(c, p, rn)
		if v != nil && (r.Class == "" || v.Class == r.Class) {
			return 10
		}
	}
	return 0
}

// tries is how often a recorded execution is repeated. The race detector forgets old accesses at
// random, so that it doesn't report a race of one execution every time.
func (c *Check) tries() int {
	if simrt.RaceOn {
		return 30
	}
	return 1
}

const raceEnv = " suppress_equal_stacks=0 suppress_equal_addresses=0"

func replay(file string) int {
	p, r, err := loadPlan(file)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	c := checks[r.Property]
	if c == nil {
		fmt.Println("unknown property", r.Property)
		return 2
	}
	var rn *Runner
	var v *Violation
	for i := 0; i < c.tries() && v == nil; i++ {
		rn = &Runner{Stats: newStats(), Keep: true}
		v = runCheck(c, p, rn)
	}
	if *fV || v != nil {
		for _, l := range rn.Trace {
			fmt.Println(l)
		}
	}
	if v == nil {
		fmt.Println("replay: no violation")
		return 0
	}
	same := len(rn.Trace) == len(r.Trace)
	for i := range rn.Trace {
		if same && rn.Trace[i] != r.Trace[i] {
			same = false
		}
	}
	fmt.Printf("replay: %s: %s (trace identical to the recorded one: %v)\n", v.Class, v.Msg, same)
	fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, file)
	return 1
}

type workerMsg struct {
	Kind   string   `json:"kind"` // stats, violation
	Stats  *Stats   `json:"stats,omitempty"`
	Hists  []uint64 `json:"hists,omitempty"`
	Scheds []uint64 `json:"scheds,omitempty"`
	NT     []uint64 `json:"nt,omitempty"`
	Replay *Replay  `json:"replay,omitempty"`
	Sample *Plan    `json:"sample,omitempty"`
	Error  string   `json:"error,omitempty"`
}

func loadKnown() []KnownFinding {
	b, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.json"))
	if err != nil {
		return nil
	}
	var ks []KnownFinding
	if err := json.Unmarshal(b, &ks); err != nil {
		fmt.Fprintln(os.Stderr, "known_findings.json:", err)
		os.Exit(2)
	}
	return ks
}

func isKnown(ks []KnownFinding, prop string, v *Violation) *KnownFinding {
	for i, k := range ks {
		if k.Status == "known" && k.Property == prop && k.Key == v.Key {
			return &ks[i]
		}
	}
	return nil
}

func worker(c *Check) {
	deadline := time.Now().Add(time.Duration(*fBudget * float64(time.Second)))
	known := loadKnown()
	st := newStats()
	out := bufio.NewWriterSize(os.Stdout, 1<<16)
	enc := json.NewEncoder(out)
	progress, _ := os.Create(filepath.Join(*fOut, fmt.Sprintf("progress%d", *fWorker)))
	samples := 0
	send := func(m *workerMsg) { enc.Encode(m); out.Flush() }
	for i := 0; ; i++ {
		k := *fFrom + uint64(*fWorker) + uint64(i)*uint64(*fN)
		if time.Now().After(deadline) || *fMax > 0 && i >= *fMax {
			break
		}
		progress.WriteAt([]byte(fmt.Sprintf("%20d", k)), 0)
		rn := &Runner{Stats: st}
		st.caseNT, st.caseHash = false, 0
		p := genCase(c, *fSeed, k, rn)
		if p == nil {
			continue
		}
		st.caseNT, st.caseHash = false, 0
		v := runCheck(c, p, rn)
		st.Cases++
		st.Kinds[p.Kind]++
		if st.caseNT {
			st.NonTrivial[st.caseHash] = true
		}
		if v == nil {
			if samples < 2 && st.caseNT && i > 3 {
				samples++
				send(&workerMsg{Kind: "sample", Sample: p})
			}
			// the same plan must give the same execution
			if i%50 == 7 {
				h := st.caseHash
				st.caseHash = 0
				if v2 := runCheck(c, p, rn); v2 != nil || st.caseHash != h {
					send(&workerMsg{Kind: "error", Error: fmt.Sprintf("case %d is not deterministic", k)})
					os.Exit(0)
				}
				st.DetChecks++
			}
			continue
		}
		if *fCollect {
			key := v.Key
			if os.Getenv("SIM_UNIQ") != "" {
				key += v.Msg[strings.LastIndex(v.Msg, ": ")+1:]
			}
			st.Known[key]++
			st.KnownMsg[key] = fmt.Sprintf("case %d: %s", k, v.Msg)
			continue
		}
		if kf := isKnown(known, c.Prop, v); kf != nil {
			st.Known[kf.Key]++
			st.KnownMsg[kf.Key] = kf.What
			continue
		}
		rp := minimise(c, p, v, known)
		rp.Seed = *fSeed
		rp.Case = k
		send(&workerMsg{Kind: "violation", Replay: rp})
		break
	}
	st.HistN, st.SchedN, st.NonTrivN = len(st.Hists), len(st.Scheds), len(st.NonTrivial)
	m := &workerMsg{Kind: "stats", Stats: st}
	for h := range st.Hists {
		m.Hists = append(m.Hists, h)
	}
	for h := range st.Scheds {
		m.Scheds = append(m.Scheds, h)
	}
	for h := range st.NonTrivial {
		m.NT = append(m.NT, h)
	}
	send(m)
}

func coordinate(c *Check) int {
	start := time.Now()
	budget := *fBudget
	if budget == 0 {
		budget = float64(c.Quick)
		if budget == 0 {
			budget = 35
		}
		if *fTier == "thorough" {
			budget = 600
		}
	}
	dir, err := os.MkdirTemp("", "simcheck")
	if err != nil {
		fmt.Println(err)
		return 2
	}
	defer os.RemoveAll(dir)
	self, _ := os.Executable()
	type outcome struct {
		msgs []*workerMsg
		err  error
		log  string
	}
	outs := make([]outcome, *fN)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var procs []*exec.Cmd
	stop := false
	for i := 0; i < *fN; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			cmd := exec.Command(self, "-prop", c.Prop, "-tier", *fTier, "-seed", fmt.Sprint(*fSeed), "-verif", *fVerif, "-worker", fmt.Sprint(i), "-n", fmt.Sprint(*fN), "-budget", fmt.Sprint(budget), "-out", dir, "-maxcases", fmt.Sprint(*fMax), "-from", fmt.Sprint(*fFrom), fmt.Sprintf("-collect=%v", *fCollect))
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race")+raceEnv)
			pipe, _ := cmd.StdoutPipe()
			var eb bytes.Buffer
			cmd.Stderr = &eb
			if err := cmd.Start(); err != nil {
				outs[i].err = err
				return
			}
			mu.Lock()
			procs = append(procs, cmd)
			mu.Unlock()
			dec := json.NewDecoder(pipe)
			for {
				m := new(workerMsg)
				if err := dec.Decode(m); err != nil {
					break
				}
				outs[i].msgs = append(outs[i].msgs, m)
				if m.Kind == "violation" && *fTier == "quick" {
					// one violation is enough; let the others stop early
					mu.Lock()
					if !stop {
						stop = true
						for _, p := range procs {
							if p != cmd {
								p.Process.Kill()
							}
						}
					}
					mu.Unlock()
				}
			}
			outs[i].err = cmd.Wait()
			outs[i].log = eb.String()
		}(i)
	}
	wg.Wait()
	total := newStats()
	hists, scheds, nts := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	var violations []*Replay
	var samples []*Plan
	bad := ""
	for i, o := range outs {
		gotStats := false
		for _, m := range o.msgs {
			switch m.Kind {
			case "violation":
				violations = append(violations, m.Replay)
			case "sample":
				if len(samples) < 3 {
					samples = append(samples, m.Sample)
				}
			case "error":
				bad = m.Error
			case "stats":
				gotStats = true
				total.add(m.Stats)
				for _, h := range m.Hists {
					hists[h] = true
				}
				for _, h := range m.Scheds {
					scheds[h] = true
				}
				for _, h := range m.NT {
					nts[h] = true
				}
			}
		}
		if !gotStats && !stop && bad == "" {
			// the worker died: a fatal error of the Go runtime, or of the harness
			b, _ := os.ReadFile(filepath.Join(dir, fmt.Sprintf("progress%d", i)))
			k, _ := strconv.ParseUint(strings.TrimSpace(string(b)), 10, 64)
			rp := fatalCase(c, self, k, o.log)
			if rp != nil {
				violations = append(violations, rp)
			} else {
				bad = fmt.Sprintf("worker %d died: %v: %s", i, o.err, tail(o.log, 3000))
			}
		}
	}
	if len(samples) == 0 {
		rn := &Runner{Stats: newStats()}
		for k := uint64(0); k < 20 && len(samples) == 0; k++ {
			if p := genCase(c, *fSeed, k, rn); p != nil {
				samples = append(samples, p)
			}
		}
	}
	wall := time.Since(start).Seconds()
	code := 0
	if bad != "" && len(violations) == 0 {
		fmt.Fprintln(os.Stderr, "simcheck: internal error:", bad)
		code = 2
	}
	sort.Slice(violations, func(i, j int) bool { return violations[i].Case < violations[j].Case })
	var keys []string
	for k := range total.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (seen %d times)\n", c.Prop, total.KnownMsg[k], total.Known[k])
	}
	seen := map[string]bool{}
	for _, v := range violations {
		if seen[v.Key] {
			continue
		}
		seen[v.Key] = true
		rdir := filepath.Join(*fVerif, "replays")
		os.MkdirAll(rdir, 0777)
		file := filepath.Join(rdir, fmt.Sprintf("%s-%s.json", c.Prop, sum(v.Key+v.Message)))
		v.ReplayCmd = "./run.sh replay " + file
		b, _ := json.MarshalIndent(v, "", " ")
		os.WriteFile(file, b, 0666)
		// a violation counts only if a fresh process reproduces it from the file
		cmd := exec.Command(self, "-prop", c.Prop, "-plan", file)
		cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 log_path="+filepath.Join(dir, "race")+raceEnv)
		err := cmd.Run()
		ec := -1
		if ee, ok := err.(*exec.ExitError); ok {
			ec = ee.ExitCode()
		}
		if ec != 10 && v.Class != "fatal" {
			fmt.Fprintf(os.Stderr, "simcheck: %s does not reproduce in a fresh process (%v)\n", file, err)
			code = 2
			continue
		}
		fmt.Printf("%s: %s\n", v.Class, v.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, file)
		code = 1
	}
	writeEvidence(c, total, len(hists), len(scheds), len(nts), samples, wall, budget, len(violations))
	fmt.Printf("%s %s: %d cases, %d simulated runs, %d distinct histories, %d faults, %.1f s, exit %d\n", c.Prop, *fTier, total.Cases, total.Runs, len(hists), total.faultCount(), wall, code)
	return code
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n/2] + "\n...\n" + s[len(s)-n/2:]
	}
	return s
}

// fatalCase finds out whether a case kills the Go process (stack exhaustion, fatal error).
func fatalCase(c *Check, self string, k uint64, log string) *Replay {
	if !strings.Contains(log, "fatal error:") && !strings.Contains(log, "stack exceeds") {
		return nil
	}
	if strings.Contains(log, "zsim/simrt.Run") == false && !strings.Contains(log, "buildtools/") {
		return nil
	}
	cmd := exec.Command(self, "-prop", c.Prop, "-seed", fmt.Sprint(*fSeed), "-case", fmt.Sprint(k))
	out, err := cmd.CombinedOutput()
	if err == nil || !strings.Contains(string(out), "fatal error:") && !strings.Contains(string(out), "stack exceeds") {
		return nil
	}
	rn := &Runner{Stats: newStats()}
	p := genCase(c, *fSeed, k, rn)
	return &Replay{Property: c.Prop, Class: "fatal", Key: "fatal", Message: "the process dies of a fatal runtime error: " + tail(string(out), 400), Seed: *fSeed, Case: k, Plan: p}
}

func (s *Stats) faultCount() int {
	n := 0
	for _, v := range s.Faults {
		n += v
	}
	return n
}

func addMap(a, b map[string]int) {
	for k, v := range b {
		a[k] += v
	}
}

func (s *Stats) add(o *Stats) {
	s.Cases += o.Cases
	s.Runs += o.Runs
	s.SimNs += o.SimNs
	s.Events += o.Events
	s.Decisions += o.Decisions
	s.Switches += o.Switches
	s.Goroutines += o.Goroutines
	s.MapShuffles += o.MapShuffles
	s.Crashes += o.Crashes
	s.DetChecks += o.DetChecks
	s.Races += o.Races
	addMap(s.Faults, o.Faults)
	addMap(s.Tools, o.Tools)
	addMap(s.Kinds, o.Kinds)
	addMap(s.Known, o.Known)
	addMap(s.Exits, o.Exits)
	addMap(s.Probes, o.Probes)
	for k, v := range o.KnownMsg {
		s.KnownMsg[k] = v
	}
	if o.MaxReady > s.MaxReady {
		s.MaxReady = o.MaxReady
	}
}

func writeEvidence(c *Check, s *Stats, hists, scheds, nts int, samples []*Plan, wall, budget float64, violations int) {
	level := c.Level
	if level == "" {
		level = "exploration"
	}
	cov := map[string]interface{}{
		"evaluations":             s.Cases,
		"distinct_nontrivial":     nts,
		"rule":                    c.Rule + " A case is one plan (tree, processes, faults, schedule seed, map seed); it is non-trivial when a fault was injected, goroutines were switched, a map order was shuffled or input arrived in pieces, and distinct when the hash over all system-call histories and schedules of the case is new.",
		"samples":                 samples,
		"simulated_runs":          s.Runs,
		"seeds":                   s.Cases,
		"seeds_per_hour":          int(float64(s.Cases) / wall * 3600),
		"runs_per_hour":           int(float64(s.Runs) / wall * 3600),
		"simulated_seconds":       float64(s.SimNs) / 1e9,
		"system_calls":            s.Events,
		"faults_injected":         s.Faults,
		"kills":                   s.Crashes,
		"scheduling_decisions":    s.Decisions,
		"context_switches":        s.Switches,
		"goroutines":              s.Goroutines,
		"max_runnable":            s.MaxReady,
		"map_iterations_shuffled": s.MapShuffles,
		"distinct_histories":      hists,
		"distinct_schedules":      scheds,
		"history_measure":         "hash over the sequence of system calls (operation, path, bytes, error, goroutine), standard output and exit status of a run; schedule measure: hash over the sequence of goroutine switches",
		"scenario_kinds":          s.Kinds,
		"ends":                    s.Exits,
		"probes":                  s.Probes,
		"tool_runs":               s.Tools,
		"determinism_rechecks":    s.DetChecks,
		"race_reports":            s.Races,
		"race_detector":           simrt.RaceOn,
		"known_findings_seen":     s.Known,
		"real_code":               c.Real,
		"stubs":                   c.Stub,
	}
	ev := map[string]interface{}{
		"property":    c.Prop,
		"tier":        *fTier,
		"seed":        *fSeed,
		"level":       level,
		"coverage":    cov,
		"assumptions": append([]string{"the transformation of the sources preserves their behaviour (checked by running the tools' golden inputs both ways, see DESIGN.md)", "the simulated system calls behave like Linux for the calls used"}, c.Assum...),
		"wall_s":      wall,
		"violations":  violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0777)
	os.WriteFile(filepath.Join(dir, c.Prop+".json"), b, 0666)
}
