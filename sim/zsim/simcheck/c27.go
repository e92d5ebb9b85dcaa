package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

// C27: launcher.js, executed by node in a simulated world (sim/launcher/launchsim.js). An entry of
// Plan.Ops is one event: "signal SIG @MS" or "signal SIG #CALL".

func init() {
	register(&Check{
		Prop: "C27", Gen: genC27, Run: runC27,
		Real: "launcher.js in node's vm", Stub: "node's process and child_process modules, timers, the native binary, signals, the clock, platform and architecture",
		Rule: "The launcher runs the native binary, which ends with any status or of any signal, at once or late, reacts to signals by dying, cleaning up or ignoring them, or can't be started; signals reach the launcher at any time, including between two of its own calls. Not trivial: a signal was delivered, or the binary could not be started or did not exit with 0.",
	})
}

type lSignal struct {
	Sig  string `json:"sig"`
	T    int    `json:"t"`
	Call int    `json:"call,omitempty"`
}

type lChild struct {
	After  int    `json:"after"`
	Code   int    `json:"code"`
	Signal string `json:"signal,omitempty"`
	React  lReact `json:"react"`
}

type lReact struct {
	Delay  int  `json:"delay,omitempty"`
	Code   *int `json:"code,omitempty"`
	Ignore int  `json:"ignore,omitempty"`
}

type lPlan struct {
	Dir        string            `json:"dir"`
	Tool       string            `json:"tool"`
	Platform   string            `json:"platform"`
	Arch       string            `json:"arch"`
	Binary     string            `json:"binary"`
	Args       []string          `json:"args"`
	Cwd        string            `json:"cwd"`
	Env        map[string]string `json:"env"`
	Child      lChild            `json:"child"`
	Signals    []lSignal         `json:"signals"`
	SpawnError string            `json:"spawnError,omitempty"`
	Reap       int               `json:"reap,omitempty"`
	CloseGap   int               `json:"closeGap,omitempty"`
	Ties       []int             `json:"ties"`
}

type lSpawn struct {
	Fn      string   `json:"fn"`
	File    string   `json:"file"`
	Args    []string `json:"args"`
	Inherit bool     `json:"inherit"`
	Shell   bool     `json:"shell"`
	Cwd     string   `json:"cwd"`
	Env     bool     `json:"env"`
	Error   string   `json:"error"`
	T       int      `json:"t"`
}

type lOut struct {
	Broken string   `json:"broken"`
	Trace  []string `json:"trace"`
	Spawns []lSpawn `json:"spawns"`
	Kills  []struct {
		Sig string `json:"sig"`
		T   int    `json:"t"`
	} `json:"kills"`
	Received []struct {
		Sig     string `json:"sig"`
		T       int    `json:"t"`
		Alive   bool   `json:"alive"`
		Spawned bool   `json:"spawned"`
		Fatal   bool   `json:"fatal"`
	} `json:"received"`
	Exit       *int   `json:"exit"`
	Signal     string `json:"signal"`
	End        int    `json:"end"`
	AliveAtEnd bool   `json:"aliveAtEnd"`
	Children   []struct {
		Alive  bool   `json:"alive"`
		Code   *int   `json:"code"`
		Signal string `json:"signal"`
		End    int    `json:"end"`
	} `json:"children"`
	Stdout string `json:"stdout"`
	Stderr string `json:"stderr"`
	Hang   bool   `json:"hang"`
	Chdir  string `json:"chdir"`
	Steps  int    `json:"steps"`
}

var lNode struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

// launch executes one plan in node.
func launch(lp *lPlan) (*lOut, error) {
	if lNode.cmd == nil {
		self, err := os.Executable()
		if err != nil {
			return nil, err
		}
		dir := filepath.Dir(self)
		cmd := exec.Command("node", filepath.Join(dir, "launchsim.js"), filepath.Join(dir, "launcher.js"))
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		if err != nil {
			return nil, err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		lNode.cmd, lNode.in, lNode.out = cmd, in, bufio.NewReaderSize(out, 1<<20)
	}
	b, err := json.Marshal(lp)
	if err != nil {
		return nil, err
	}
	if _, err := lNode.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := lNode.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	o := new(lOut)
	return o, json.Unmarshal(line, o)
}

var lArch = map[string]string{"arm64": "arm64", "x64": "amd64", "s390x": "s390x", "riscv64": "riscv64"}
var lPlat = map[string]string{"darwin": "darwin", "linux": "linux", "win32": "windows"}

// supported returns the name of the native binary, "" if there is none.
func supported(platform, arch, tool string) string {
	a, p := lArch[arch], lPlat[platform]
	if a == "" || p == "" || arch == "arm64" && platform == "win32" {
		return ""
	}
	ext := ""
	if platform == "win32" {
		ext = ".exe"
	}
	return tool + "-" + p + "_" + a + ext
}

func genC27(r *simrt.Rng, rn *Runner) *Plan {
	p := &Plan{Kind: "exit", Tree: Tree{}, S: map[string]string{}, I: map[string]int{}}
	p.S["tool"] = pick(r, "buildifier", "buildozer")
	p.S["platform"] = pick(r, "linux", "linux", "linux", "darwin", "win32")
	p.S["arch"] = pick(r, "x64", "x64", "arm64", "s390x", "riscv64")
	if r.P(0.05) {
		p.S["platform"] = pick(r, "linux", "freebsd", "win32", "aix")
		p.S["arch"] = pick(r, "mips", "ia32", "arm64", "ppc64")
	}
	if p.S["platform"] == "win32" && p.S["arch"] != "x64" && r.P(0.7) {
		p.S["arch"] = "x64"
	}
	p.S["dir"] = pick(r, "/app/node_modules/@bazel/buildifier", "/home/u/with space/x", "/x")
	p.S["cwd"] = pick(r, "/w", "/home/u/my project", "/")
	for n := r.Intn(5); n > 0; n-- {
		p.Names = append(p.Names, pick(r, "-v", "--lint=warn", "a b", "", "*.bzl", "$HOME", "'q'", "\"", "\\", "--", "-", "//a:b", "set name x", "é", "a;b", "a\nb", "--inspect", "%PATH%", "&"))
	}
	p.I["after"] = pickInt(r, 0, 1, 5, 50, 500, 5000, 100000)
	p.I["code"] = pickInt(r, 0, 0, 1, 2, 3, 4, 125, 127, 128, 130, 255)
	if r.P(0.3) {
		p.I["code"] = r.Intn(256)
	}
	if r.P(0.2) {
		p.Kind = "signalled"
		p.S["childsig"] = pick(r, "SIGKILL", "SIGSEGV", "SIGABRT", "SIGTERM", "SIGINT", "SIGHUP", "SIGPIPE", "SIGBUS", "SIGXCPU")
	}
	if r.P(0.12) {
		p.Kind = "unstartable"
		p.S["spawnerr"] = pick(r, "ENOENT", "EACCES", "EAGAIN", "EMFILE", "ENFILE", "E2BIG", "ENOMEM", "ENOEXEC", "ENOTDIR", "EPERM", "ELOOP", "EIO", "ETXTBSY")
	}
	if r.P(0.5) {
		p.I["rdelay"] = pickInt(r, 0, 1, 10, 100, 1000, 20000)
	}
	if r.P(0.5) {
		p.I["rcode"] = 1 + r.Intn(256)
	}
	if r.P(0.25) {
		p.I["rignore"] = 1 + r.Intn(3)
	}
	if r.P(0.3) {
		p.I["reap"] = pickInt(r, 1, 2, 20)
	}
	if r.P(0.3) {
		p.I["gap"] = pickInt(r, 1, 2, 20)
	}
	if r.P(0.6) {
		for n := 1 + r.Intn(3); n > 0; n-- {
			s := "signal " + pick(r, "SIGINT", "SIGTERM", "SIGTERM")
			if r.P(0.3) {
				p.Ops = append(p.Ops, fmt.Sprintf("%s #%d", s, 1+r.Intn(6)))
				continue
			}
			t := 0
			switch r.Intn(5) {
			case 0:
			case 1:
				t = p.I["after"]
			case 2:
				t = p.I["after"] + p.I["reap"] + r.Intn(2)
			case 3:
				t = p.I["after"] + p.I["reap"] + p.I["gap"] + r.Intn(2)
			default:
				t = r.Intn(p.I["after"] + 30)
			}
			p.Ops = append(p.Ops, fmt.Sprintf("%s @%d", s, t))
		}
	}
	for i := 0; i < 6; i++ {
		p.I[fmt.Sprintf("tie%d", i)] = r.Intn(4)
	}
	return p
}

func runC27(p *Plan, rn *Runner) *Violation {
	lp := &lPlan{Dir: p.S["dir"], Tool: p.S["tool"], Platform: p.S["platform"], Arch: p.S["arch"], Args: p.Names, Cwd: p.S["cwd"], Env: map[string]string{"PATH": "/usr/bin", "HOME": "/home/u"},
		SpawnError: p.S["spawnerr"], Reap: p.I["reap"], CloseGap: p.I["gap"]}
	if lp.Args == nil {
		lp.Args = []string{}
	}
	bin := supported(lp.Platform, lp.Arch, lp.Tool)
	lp.Binary = lp.Dir + "/" + bin
	lp.Child = lChild{After: p.I["after"], Code: p.I["code"], Signal: p.S["childsig"], React: lReact{Delay: p.I["rdelay"], Ignore: p.I["rignore"]}}
	if c := p.I["rcode"]; c > 0 {
		c--
		lp.Child.React.Code = &c
	}
	for i := 0; i < 6; i++ {
		lp.Ties = append(lp.Ties, p.I[fmt.Sprintf("tie%d", i)])
	}
	for _, op := range p.Ops {
		var s lSignal
		if n, _ := fmt.Sscanf(op, "signal %s @%d", &s.Sig, &s.T); n != 2 {
			if n, _ := fmt.Sscanf(op, "signal %s #%d", &s.Sig, &s.Call); n != 2 {
				continue
			}
		}
		lp.Signals = append(lp.Signals, s)
	}
	sort.SliceStable(lp.Signals, func(i, j int) bool { return lp.Signals[i].T < lp.Signals[j].T })
	o, err := launch(lp)
	if err != nil {
		panic("node: " + err.Error())
	}
	rn.launched(p, lp, o)
	if o.Broken != "" {
		return viol("start", "the launcher cannot be executed: %s", o.Broken)
	}
	what := fmt.Sprintf("%s on %s/%s", lp.Tool, lp.Platform, lp.Arch)
	exit := -1
	if o.Exit != nil {
		exit = *o.Exit
	}
	how := fmt.Sprintf("exits with %d", exit)
	if o.Signal != "" {
		how = "dies of " + o.Signal
	}
	if o.Hang {
		return viol("hang", "%s: the launcher does not end", what)
	}
	if o.Stdout != "" {
		return viol("stdout", "%s: the launcher writes %q on the standard output of the tool", what, o.Stdout)
	}
	early := false // a signal arrived before the binary was started
	for _, s := range o.Received {
		early = early || !s.Spawned
	}
	if bin == "" {
		if len(o.Children) > 0 {
			return viol("binary", "%s: there is no binary for this platform, but %s is started", what, o.Spawns[0].File)
		}
		if exit == 0 {
			return viol("status", "%s: there is no binary for this platform, but the launcher exits with 0", what)
		}
		return nil
	}
	for _, s := range o.Spawns {
		if strings.ReplaceAll(s.File, "\\", "/") != lp.Dir+"/"+bin {
			return viol("binary", "%s: %s is started instead of %s", what, s.File, lp.Dir+"/"+bin)
		}
		if s.Shell || fmt.Sprintf("%q", s.Args) != fmt.Sprintf("%q", lp.Args) {
			return viol("args", "%s: the binary gets %q (shell: %v) instead of %q", what, s.Args, s.Shell, lp.Args)
		}
		if !s.Inherit {
			return viol("stdio", "%s: the binary doesn't inherit the standard streams", what)
		}
		if s.Cwd != "" && s.Cwd != lp.Cwd || o.Chdir != "" || !s.Env {
			return viol("context", "%s: the binary runs in another directory or environment", what)
		}
	}
	if len(o.Children) > 1 {
		return viol("binary", "%s: %d binaries are started", what, len(o.Children))
	}
	if len(o.Spawns) == 0 && !early {
		return viol("binary", "%s: no binary is started (%s)", what, how)
	}
	if o.AliveAtEnd {
		return viol("orphan", "%s: the launcher %s at %d ms while the binary is still running", what, how, o.End)
	}
	if len(o.Children) == 0 {
		if exit == 0 && (lp.SpawnError != "" || !early) {
			return viol("status", "%s: the binary can't be started (%s), but the launcher exits with 0", what, lp.SpawnError)
		}
		return nil
	}
	c := o.Children[0]
	for _, s := range o.Received {
		if s.Spawned && !s.Alive || c.End <= s.T {
			continue
		}
		ok := false
		for _, k := range o.Kills {
			ok = ok || k.T >= s.T && k.T <= s.T+1000
		}
		if !ok && c.End > s.T+1000 {
			return viol("signal", "%s: the launcher gets %s at %d ms; the binary, which runs until %d ms, gets no signal", what, s.Sig, s.T, c.End)
		}
		if !ok && len(o.Kills) == 0 {
			return viol("signal", "%s: the launcher gets %s at %d ms and does not pass it on; the binary runs until %d ms", what, s.Sig, s.T, c.End)
		}
	}
	if len(o.Kills) > 0 && len(o.Received) == 0 {
		return viol("signal", "%s: the binary gets %s from the launcher, which got no signal", what, o.Kills[0].Sig)
	}
	if lp.SpawnError != "" {
		return nil
	}
	switch {
	case c.Signal != "":
		if exit == 0 {
			return viol("status", "%s: the binary dies of %s, but the launcher %s", what, c.Signal, how)
		}
	case c.Code != nil && exit != *c.Code:
		return viol("status", "%s: the binary exits with %d, but the launcher %s", what, *c.Code, how)
	}
	if o.End > c.End+lp.Reap+lp.CloseGap+1000 {
		return viol("late", "%s: the binary ends at %d ms, the launcher at %d ms", what, c.End, o.End)
	}
	return nil
}

// launched counts what an execution covered.
func (rn *Runner) launched(p *Plan, lp *lPlan, o *lOut) {
	s := rn.Stats
	h := uint64(1)
	for _, l := range o.Trace {
		h = simrt.Mix(h, simrt.HashString(l))
		if rn.Keep {
			rn.Trace = append(rn.Trace, l)
		}
	}
	s.Runs++
	s.SimNs += int64(o.End) * 1e6
	s.Events += int64(len(o.Trace))
	s.Decisions += int64(o.Steps)
	s.Tools["launcher.js"]++
	for _, r := range o.Received {
		at := "while the binary runs"
		if !r.Spawned {
			at = "before the binary is started"
		} else if !r.Alive {
			at = "after the binary ended"
		}
		s.Faults[r.Sig+" "+at]++
	}
	if lp.SpawnError != "" && len(o.Spawns) > 0 {
		s.Faults["spawn "+lp.SpawnError]++
	}
	for _, c := range o.Children {
		if c.Signal != "" {
			s.Faults["binary dies of "+c.Signal]++
		}
	}
	end := o.Signal
	if o.Exit != nil {
		end = "0"
		if *o.Exit != 0 {
			end = "not 0"
		}
	}
	s.Exits["launcher.js "+end]++
	s.Hists[h] = true
	s.caseHash = simrt.Mix(s.caseHash, h)
	s.Scheds[simrt.Mix(h, 5)] = true
	if len(o.Received) > 0 || lp.SpawnError != "" || o.Exit == nil || *o.Exit != 0 {
		s.caseNT = true
	}
}
