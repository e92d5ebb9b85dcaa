// Command simcheck decides the properties of /verif/properties.jsonl by seeded search over simulated
// executions of buildtools.
package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	zflag "github.com/bazelbuild/buildtools/zsim/flag"
	zlog "github.com/bazelbuild/buildtools/zsim/log"
	zos "github.com/bazelbuild/buildtools/zsim/os"
	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	_ "github.com/bazelbuild/buildtools/zsim/tools"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// Tree is a set of files by path.
type Tree map[string]vfs.Node

// Step is one process of a plan.
type Step struct {
	Tool   string            `json:"tool"`
	Args   []string          `json:"args"`
	Files  []string          `json:"files,omitempty"` // appended to Args; the minimiser may drop some
	Env    map[string]string `json:"env,omitempty"`
	Cwd    string            `json:"cwd,omitempty"`
	Stdin  string            `json:"stdin,omitempty"`
	Chunks []int             `json:"chunks,omitempty"`
	Faults []vfs.Fault       `json:"faults,omitempty"`
	Sched  simrt.Sched       `json:"sched"`
	Tty    bool              `json:"tty,omitempty"`
	Disk   int               `json:"disk,omitempty"`
	Pid    int               `json:"pid,omitempty"`
	Umask  int               `json:"umask,omitempty"`
	Script []Act             `json:"script,omitempty"` // library goroutines instead of a tool
}

// Plan is one complete, repeatable case. A check is a function of its plan only.
type Plan struct {
	Prop   string            `json:"prop"`
	Case   uint64            `json:"case"`
	Kind   string            `json:"kind,omitempty"` // scenario of the property
	Tree   Tree              `json:"tree"`
	Steps  []Step            `json:"steps"`
	S      map[string]string `json:"s,omitempty"` // scenario parameters
	I      map[string]int    `json:"i,omitempty"`
	Names  []string          `json:"names,omitempty"`
	Ops    []string          `json:"ops,omitempty"`    // operations of the scenario; the minimiser may drop some
	Expect string            `json:"expect,omitempty"` // class of the violation a replay must show
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	q := new(Plan)
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

// Violation says what is wrong.
type Violation struct {
	Class string // stable name of the kind of violation
	Key   string // identifies the finding, for known findings
	Msg   string
	Trace []string
}

func viol(class, format string, a ...interface{}) *Violation {
	return &Violation{Class: class, Key: class, Msg: fmt.Sprintf(format, a...)}
}

// Result is what one simulated process did.
type Result struct {
	Exit      int
	Signal    string
	Crashed   string
	Panic     string
	PanicAt   string
	Deadlock  string
	Hang      string
	Stdout    string
	Stderr    string
	Chunks    []vfs.Chunk
	ErrChunks []vfs.Chunk
	Events    []vfs.Event
	Fired     []bool
	Hist      uint64
	Sched     *simrt.Sim
	Races     int
	LibOut    []string
	step      Step
}

// AnyFired reports whether a fault was injected.
func (r *Result) AnyFired() bool {
	for _, f := range r.Fired {
		if f {
			return true
		}
	}
	return false
}

// Ended reports whether the process ended by itself with an exit status.
func (r *Result) Ended() bool {
	return r.Crashed == "" && r.Panic == "" && r.Deadlock == "" && r.Hang == "" && r.Signal == ""
}

// How describes the end of the process.
func (r *Result) How() string {
	switch {
	case r.Panic != "":
		return "panic: " + r.Panic + " at " + r.PanicAt
	case r.Deadlock != "":
		return "deadlock: " + r.Deadlock
	case r.Hang != "":
		return "hang: " + r.Hang
	case r.Signal != "":
		return "signal " + r.Signal
	case r.Crashed != "":
		return "killed at " + r.Crashed
	}
	return fmt.Sprintf("exit %d", r.Exit)
}

// Runner executes processes and counts what was covered.
type Runner struct {
	Hook  func(*vfs.FS, Step) // sees every process before it runs
	Stats *Stats
	W     *vfs.World
	Progs func(w *vfs.World)
	Trace []string
	Keep  bool // record traces for a replay
	// decisions taken by every run, by schedule
	Taken map[string]map[int]int
}

// Stats is the measured coverage.
type Stats struct {
	Cases       int               `json:"cases"`
	Runs        int               `json:"runs"`
	SimNs       int64             `json:"sim_ns"`
	Events      int64             `json:"events"`
	Decisions   int64             `json:"decisions"`
	Switches    int64             `json:"switches"`
	Goroutines  int64             `json:"goroutines"`
	MapShuffles int64             `json:"map_shuffles"`
	Faults      map[string]int    `json:"faults"`
	Crashes     int               `json:"crashes"`
	Tools       map[string]int    `json:"tools"`
	Kinds       map[string]int    `json:"kinds"`
	Hists       map[uint64]bool   `json:"-"`
	Scheds      map[uint64]bool   `json:"-"`
	NonTrivial  map[uint64]bool   `json:"-"`
	HistN       int               `json:"hist_n"`
	SchedN      int               `json:"sched_n"`
	NonTrivN    int               `json:"nontriv_n"`
	DetChecks   int               `json:"determinism_checks"`
	Known       map[string]int    `json:"known"`
	KnownMsg    map[string]string `json:"known_msg"`
	MaxReady    int               `json:"max_ready"`
	Races       int               `json:"races"`
	Exits       map[string]int    `json:"exits"`
	Probes      map[string]int    `json:"probes"`
	caseNT      bool
	caseHash    uint64
}

func newStats() *Stats {
	return &Stats{Faults: map[string]int{}, Tools: map[string]int{}, Kinds: map[string]int{}, Hists: map[uint64]bool{}, Scheds: map[uint64]bool{}, NonTrivial: map[uint64]bool{}, Known: map[string]int{}, KnownMsg: map[string]string{}, Exits: map[string]int{}, Probes: map[string]int{}}
}

// Probe counts that a situation a property is about was reached.
func (rn *Runner) Probe(name string) { rn.Stats.Probes[name]++ }

// NewFS builds the machine's file system for a tree.
func NewFS(t Tree) *vfs.FS {
	f := vfs.NewFS()
	f.Put("/tmp", vfs.Node{Kind: "dir", Mode: 0777})
	f.Put("/dev/null", vfs.Node{Mode: 0666})
	f.Put("/home/u", vfs.Node{Kind: "dir"})
	f.Put("/w", vfs.Node{Kind: "dir"})
	paths := vfs.Paths(t)
	for _, p := range paths {
		n := t[p]
		if n.Kind == "dir" {
			n.Mode = 0
		}
		f.Put(p, n)
	}
	// permissions of directories last
	for _, p := range paths {
		if n := t[p]; n.Kind == "dir" && n.Mode != 0 {
			f.Put(p, n)
		}
	}
	return f
}

// Exec runs one process on the file system.
func (rn *Runner) Exec(fs *vfs.FS, st Step) *Result {
	if rn.Hook != nil {
		rn.Hook(fs, st)
	}
	w := vfs.NewWorld(fs)
	installPrograms(w)
	if rn.Progs != nil {
		rn.Progs(w)
	}
	for i := range st.Faults {
		f := st.Faults[i]
		w.Faults = append(w.Faults, &f)
	}
	env := map[string]string{"PATH": "/usr/bin", "HOME": "/home/u"}
	for k, v := range st.Env {
		env[k] = v
	}
	cwd := st.Cwd
	if cwd == "" {
		cwd = "/w"
	}
	w.Isatty = st.Tty
	w.DiskMax = st.Disk
	if st.Umask != 0 {
		w.Umask = 0
	}
	pid := st.Pid
	if pid == 0 {
		pid = 4711
	}
	args := append([]string{"/usr/bin/" + st.Tool}, st.Args...)
	args = append(args, st.Files...)
	w.Start(pid, args, env, cwd, []byte(st.Stdin), st.Chunks, uint64(pid))
	vfs.SetCur(w)
	defer vfs.SetCur(nil)
	zos.ZsimReset()
	zlog.ZsimReset()
	zflag.ZsimReset()
	res := &Result{step: st}
	main := simrt.Main(st.Tool)
	if main == nil {
		panic("no such tool: " + st.Tool)
	}
	body := main
	if st.Tool == "" {
		body = func() {
			main()
			res.LibOut = runScript(fs.Snapshot("/"), st.Script)
		}
	}
	sim := simrt.Run(st.Sched, w, nil, body)
	res.Sched = sim
	res.Exit, res.Signal, res.Crashed = w.Exit, w.Signal, w.Crashed
	res.Panic, res.PanicAt, res.Deadlock, res.Hang = sim.Panic, sim.PanicAt, sim.Deadlock, sim.Hang
	if w.Exited {
		res.Panic, res.Deadlock = "", ""
	}
	if res.Panic != "" || res.Deadlock != "" {
		res.Exit = 2
	}
	if res.Hang != "" {
		res.Exit = -1
	}
	if res.Crashed != "" {
		res.Exit = -9
	}
	res.Stdout, res.Stderr, res.Chunks, res.ErrChunks = string(w.Out[1]), string(w.Out[2]), w.Chunks[1], w.Chunks[2]
	res.Events = w.Events
	res.Fired = w.FiredFaults()
	res.Races = sim.Races()
	h := uint64(1)
	for _, e := range res.Events {
		h = simrt.Mix(h, simrt.HashString(e.Op), simrt.HashString(e.Path), uint64(e.N), simrt.HashString(e.Err), uint64(e.G))
	}
	h = simrt.Mix(h, simrt.HashString(res.Stdout), uint64(res.Exit))
	res.Hist = h
	s := rn.Stats
	s.Runs++
	s.SimNs += sim.Now()
	s.Events += int64(len(res.Events))
	s.Decisions += int64(sim.Decisions)
	s.Switches += int64(sim.Switches)
	s.Goroutines += int64(sim.Spawned)
	s.MapShuffles += int64(sim.MapShuf)
	s.Tools[st.Tool]++
	s.Races += res.Races
	if sim.MaxReady > s.MaxReady {
		s.MaxReady = sim.MaxReady
	}
	for k, n := range w.Fired {
		s.Faults[k] += n
	}
	if res.Crashed != "" {
		s.Crashes++
	}
	s.Exits[st.Tool+" "+endKind(res)]++
	if len(s.Hists) < 3_000_000 {
		s.Hists[h] = true
		s.Scheds[sim.SchedHash] = true
	}
	if res.AnyFired() || sim.Switches > 0 || sim.MapShuf > 0 || len(st.Chunks) > 0 {
		s.caseNT = true
	}
	s.caseHash = simrt.Mix(s.caseHash, h, sim.SchedHash)
	if rn.Taken != nil {
		rn.Taken[schedKey(st)] = sim.Taken
	}
	if rn.Keep {
		rn.Trace = append(rn.Trace, fmt.Sprintf("$ (cd %s; %s)", cwd, strings.Join(args, " ")))
		for _, e := range res.Events {
			rn.Trace = append(rn.Trace, "  "+e.String())
		}
		rn.Trace = append(rn.Trace, "  => "+res.How(), "  stdout: "+quoteShort(res.Stdout), "  stderr: "+quoteShort(res.Stderr))
	}
	return res
}

func schedKey(st Step) string {
	return fmt.Sprint(st.Tool, st.Args, st.Files, st.Sched.Policy, st.Sched.Seed, len(st.Faults))
}

func endKind(r *Result) string {
	switch {
	case r.Panic != "":
		return "panic"
	case r.Deadlock != "":
		return "deadlock"
	case r.Hang != "":
		return "hang"
	case r.Signal != "":
		return r.Signal
	case r.Crashed != "":
		return "killed"
	}
	return fmt.Sprintf("exit %d", r.Exit)
}

func quoteShort(s string) string {
	if len(s) > 600 {
		s = s[:600] + "..."
	}
	return fmt.Sprintf("%q", s)
}

// Mutations lists the events that changed the file system.
func (r *Result) Mutations() []vfs.Event {
	var out []vfs.Event
	for _, e := range r.Events {
		if e.Mut && (e.Err == "" || e.N > 0) {
			out = append(out, e)
		}
	}
	return out
}

func underTree(p string) bool { return p == "/w" || strings.HasPrefix(p, "/w/") }
func underTmp(p string) bool  { return p == "/tmp" || strings.HasPrefix(p, "/tmp/") }

// diffTree compares two snapshots and names the first differing path.
func diffTree(want, got map[string]vfs.Node, ignore func(string) bool) (string, string) {
	paths := map[string]bool{}
	for p := range want {
		paths[p] = true
	}
	for p := range got {
		paths[p] = true
	}
	var ps []string
	for p := range paths {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		if ignore != nil && ignore(p) {
			continue
		}
		a, ok1 := want[p]
		b, ok2 := got[p]
		switch {
		case !ok1:
			return p, fmt.Sprintf("exists, but should not: %s", describeNode(b))
		case !ok2:
			return p, fmt.Sprintf("is missing, should be %s", describeNode(a))
		case a != b:
			return p, fmt.Sprintf("is %s, should be %s", describeNode(b), describeNode(a))
		}
	}
	return "", ""
}

func describeNode(n vfs.Node) string {
	switch n.Kind {
	case "dir":
		return fmt.Sprintf("directory %o", n.Mode)
	case "link":
		return "link to " + n.Target
	}
	return fmt.Sprintf("file %o %s", n.Mode, quoteShort(n.Data))
}

func sum(s string) string {
	h := sha256.Sum256([]byte(s))
	return hex.EncodeToString(h[:6])
}

// Check is the decision procedure of one property.
type Check struct {
	Prop  string
	Gen   func(r *simrt.Rng, rn *Runner) *Plan
	Run   func(p *Plan, rn *Runner) *Violation
	Rule  string // what makes a case and when it is not trivial
	Real  string // components that run real code
	Stub  string // components replaced by a stand-in
	Quick int    // seconds of search
	Level string
	Assum []string
}

var checks = map[string]*Check{}

func register(c *Check) { checks[c.Prop] = c }
