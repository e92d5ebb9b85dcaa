package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"unicode"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// C29: buildozer's Node binding (buildozer/npm/index.js on top of launcher.js), executed by node in a simulated
// world (sim/launcher/bindsim.js). The process it asks for is the simulated buildozer; how that ends is given
// to the binding in a second execution of the same call.

func init() {
	register(&Check{
		Prop: "C29", Gen: genC29, Run: confirmed(runC29),
		Real: "buildozer/npm/index.js and launcher.js in node's vm; " + bzReal, Stub: "node's child_process, fs and os modules, platform and architecture; in buildozer the file system, the scheduler, the clock and the formatter",
		Rule: "A program calls the binding with batches of commands and targets; the process it starts is executed by the simulator with its arguments and input, under any schedule, with failing reads, failing operations, death at any point, too much output, a timeout, or a binary that cannot be started; the binding then gets that outcome. Not trivial: a fault was injected, or the process did not exit with 0, or there were several batches or targets.",
	})
}

type bBatch struct {
	Commands []string `json:"commands"`
	Targets  []string `json:"targets"`
}

type bResult struct {
	Status  int    `json:"status"`
	Signal  string `json:"signal,omitempty"`
	Stdout  string `json:"stdout"`
	Stderr  string `json:"stderr"`
	Error   string `json:"error,omitempty"`
	Started bool   `json:"started"`
}

type bPlan struct {
	Fn       string                 `json:"fn"`
	Batches  []bBatch               `json:"batches"`
	Flags    []string               `json:"flags,omitempty"`
	Options  map[string]interface{} `json:"options,omitempty"`
	Dir      string                 `json:"dir"`
	Platform string                 `json:"platform"`
	Arch     string                 `json:"arch"`
	Cwd      string                 `json:"cwd"`
	Env      map[string]string      `json:"env"`
	Result   bResult                `json:"result"`
}

type bOut struct {
	Broken string `json:"broken"`
	Procs  []struct {
		Fn      string   `json:"fn"`
		File    string   `json:"file"`
		Args    []string `json:"args"`
		Input   *string  `json:"input"`
		Shell   bool     `json:"shell"`
		Cwd     string   `json:"cwd"`
		Env     string   `json:"env"`
		Timeout int      `json:"timeout"`
	} `json:"procs"`
	Threw   bool     `json:"threw"`
	IsError bool     `json:"isError"`
	Message string   `json:"message"`
	Lines   []string `json:"lines"`
	Exited  bool     `json:"exited"`
	Kept    string   `json:"kept"`
	Files   []string `json:"files"`
	Stdout  string   `json:"stdout"`
}

var bNode struct {
	in  io.WriteCloser
	out *bufio.Reader
	cmd *exec.Cmd
}

// bind executes one call of the binding in node.
func bind(bp *bPlan) (*bOut, error) {
	if bNode.cmd == nil {
		self, err := os.Executable()
		if err != nil {
			return nil, err
		}
		dir := filepath.Dir(self)
		cmd := exec.Command("node", filepath.Join(dir, "bindsim.js"), filepath.Join(dir, "index.js"), filepath.Join(dir, "launcher.js"))
		cmd.Stderr = os.Stderr
		in, err := cmd.StdinPipe()
		if err != nil {
			return nil, err
		}
		out, err := cmd.StdoutPipe()
		if err != nil {
			return nil, err
		}
		if err := cmd.Start(); err != nil {
			return nil, err
		}
		bNode.cmd, bNode.in, bNode.out = cmd, in, bufio.NewReaderSize(out, 1<<20)
	}
	b, err := json.Marshal(bp)
	if err != nil {
		return nil, err
	}
	if _, err := bNode.in.Write(append(b, '\n')); err != nil {
		return nil, err
	}
	line, err := bNode.out.ReadBytes('\n')
	if err != nil {
		return nil, err
	}
	o := new(bOut)
	return o, json.Unmarshal(line, o)
}

func genC29(r *simrt.Rng, rn *Runner) *Plan {
	o := bzOpt{n: 1 + r.Intn(5), failing: 0.05, other: 0.3, null: 0.1, modes: []string{"file"}, flags: r.P(0.3)}
	o.print = r.P(0.45)
	p := genBz(r, o)
	p.Kind = "edit"
	if o.print {
		p.Kind = "print"
	}
	p.I["deco"] = 0
	st := &p.Steps[0]
	st.Chunks = nil
	st.Files = nil
	for i, k := 0, r.Intn(6); i < k; i++ {
		st.Chunks = append(st.Chunks, 1+r.Intn(60))
	}
	if r.P(0.2) {
		st.Args = append(st.Args, "-k")
	}
	if r.P(0.1) {
		st.Args = append(st.Args, "-stdout")
	}
	// commands with a bar cannot be said in one line of a command file without an escape
	var ops []string
	for _, op := range p.Ops {
		if !strings.Contains(op, barMark) && !strings.Contains(op, "\n") {
			ops = append(ops, op)
		}
	}
	p.Ops = ops
	p.S["fn"] = pick(r, "runWithOptions", "runWithOptions", "runWithOptions", "run")
	if p.S["fn"] == "run" {
		st.Args = nil
	}
	p.S["platform"] = pick(r, "linux", "linux", "linux", "darwin", "win32")
	p.S["arch"] = "x64"
	if p.S["platform"] != "win32" {
		p.S["arch"] = pick(r, "x64", "x64", "arm64")
	}
	if r.P(0.02) {
		p.S["platform"] = pick(r, "freebsd", "aix")
	}
	p.S["dir"] = pick(r, "/app/node_modules/@bazel/buildozer", "/home/u/with space/x")
	if r.P(0.5) {
		p.S["optcwd"] = "yes"
	}
	if r.P(0.3) {
		p.S["optenv"] = pick(r, "mine", "a b")
	}
	if r.P(0.15) {
		p.I["timeout"] = pickInt(r, 1000, 60000)
	}
	if r.P(0.12) {
		p.S["error"] = pick(r, "ENOENT", "EACCES", "EAGAIN", "EMFILE", "ENOMEM", "E2BIG", "ETXTBSY", "ENOEXEC", "EPERM")
		p.Kind = "unstartable"
	} else if r.P(0.06) {
		p.S["error"] = "ETIMEDOUT"
		p.Kind = "timeout"
	} else if r.P(0.1) {
		p.S["signal"] = pick(r, "SIGKILL", "SIGTERM", "SIGSEGV", "SIGINT", "SIGPIPE")
		p.Kind = "signalled"
	}
	if r.P(0.04) && len(bzAll(p)) > 0 && len(p.Ops) > 0 {
		// more output than node keeps by default
		f := bzAll(p)[0]
		nd := p.Tree[f]
		nd.Data += "\ntrace_rule(\n    name = \"big\",\n    text = \"" + strings.Repeat("0123456789abcdef", 1<<16) + strings.Repeat("x", r.Intn(3)) + "\",\n)\n"
		p.Tree[f] = nd
		lab := canonical(f, "big")
		p.S["L:"+lab] = f
		p.Ops = append(p.Ops, "print text|"+lab)
		if r.P(0.3) {
			p.I["max"] = 1 << 23
		}
		p.Kind = "big"
	}
	if r.P(0.4) {
		bp := c29Call(p, st)
		b, err := bind(bp)
		if err != nil || b.Broken != "" || len(b.Procs) != 1 || b.Procs[0].Input == nil {
			return p
		}
		s := c29Step(*st, b.Procs[0].Args, *b.Procs[0].Input, st.Cwd)
		addFaults(r, rn, p.Tree, &s, 1+r.Intn(2), 0.3, func(e vfs.Event) bool { return e.Op == "read" || strings.HasPrefix(e.Path, "/w/") })
		st.Faults = s.Faults
	}
	return p
}

// c29Call is the call of the plan.
func c29Call(p *Plan, st *Step) *bPlan {
	bp := &bPlan{Fn: p.S["fn"], Dir: p.S["dir"], Platform: p.S["platform"], Arch: p.S["arch"], Cwd: "/srv/app", Env: map[string]string{"PATH": "/usr/bin", "MARK": "own"}, Batches: []bBatch{}, Options: map[string]interface{}{}}
	for _, l := range bzLines(p) {
		if len(l.cmds) > 0 && len(l.labels) > 0 {
			bp.Batches = append(bp.Batches, bBatch{l.cmds, l.labels})
		}
	}
	cwd := st.Cwd
	if cwd == "" {
		cwd = "/w"
	}
	if bp.Fn == "run" || p.S["optcwd"] == "" {
		bp.Cwd = cwd
	} else {
		bp.Options["cwd"] = cwd
	}
	if bp.Fn != "run" {
		bp.Flags = st.Args
		if p.S["optenv"] != "" {
			bp.Options["env"] = map[string]string{"PATH": "/usr/bin", "MARK": p.S["optenv"]}
		}
		if p.I["timeout"] > 0 {
			bp.Options["timeout"] = p.I["timeout"]
		}
		if p.I["max"] > 0 {
			bp.Options["maxBuffer"] = p.I["max"]
		}
	}
	return bp
}

// c29Step is the process the binding asks for.
func c29Step(st Step, args []string, input, cwd string) Step {
	st.Args = append([]string(nil), args...)
	st.Stdin = input
	st.Cwd = cwd
	return st
}

func c29Lines(s string) []string {
	var out []string
	for _, l := range strings.Split(s, "\n") {
		l = strings.TrimFunc(l, func(r rune) bool { return unicode.IsSpace(r) || r == 0xfeff || r == 0x85 })
		if l != "" {
			out = append(out, l)
		}
	}
	return out
}

func runC29(p *Plan, rn *Runner) *Violation {
	if !bzValid(p) || len(p.Steps) == 0 {
		return nil
	}
	st := p.Steps[0]
	bp := c29Call(p, &st)
	if len(bp.Batches) == 0 {
		return nil
	}
	call := func() *bOut {
		o, err := bind(bp)
		if err != nil {
			panic("node: " + err.Error())
		}
		rn.bound(p, bp, o)
		return o
	}
	what := fmt.Sprintf("%s(%d batches)", bp.Fn, len(bp.Batches))
	o := call()
	if o.Broken != "" {
		return viol("start", "%s: the binding cannot be executed: %s", what, o.Broken)
	}
	check := func(o *bOut) *Violation {
		if o.Exited {
			return viol("exit", "%s: the binding ends the program that called it", what)
		}
		if o.Kept != "" {
			return viol("values", "%s: the binding changes the values of the caller: %s", what, quoteShort(o.Kept))
		}
		if o.Stdout != "" {
			return viol("stdout", "%s: the binding writes %s on the standard output of the program", what, quoteShort(o.Stdout))
		}
		if len(o.Files) > 0 {
			return viol("files", "%s: the binding leaves files behind: %v", what, o.Files)
		}
		return nil
	}
	if v := check(o); v != nil {
		return v
	}
	bin := supported(bp.Platform, bp.Arch, "buildozer")
	if bin == "" {
		if len(o.Procs) > 0 {
			return viol("binary", "%s: there is no binary for %s/%s, but %s is started", what, bp.Platform, bp.Arch, o.Procs[0].File)
		}
		if !o.Threw || !o.IsError {
			return viol("silent", "%s: there is no binary for %s/%s, but the call does not throw an Error", what, bp.Platform, bp.Arch)
		}
		return nil
	}
	if len(o.Procs) != 1 {
		return viol("processes", "%s: %d processes are started", what, len(o.Procs))
	}
	pr := o.Procs[0]
	if strings.ReplaceAll(pr.File, "\\", "/") != bp.Dir+"/"+bin {
		return viol("binary", "%s: %s is started instead of %s", what, pr.File, bp.Dir+"/"+bin)
	}
	if pr.Shell {
		return viol("binary", "%s: the binary is started by a shell", what)
	}
	for i, f := range bp.Flags {
		if i >= len(pr.Args) || pr.Args[i] != f {
			return viol("flags", "%s: the flags %q become %q", what, bp.Flags, pr.Args)
		}
	}
	cwd := bp.Cwd
	if c, ok := bp.Options["cwd"].(string); ok {
		cwd = c
	}
	if pr.Cwd == "" {
		pr.Cwd = bp.Cwd
	}
	if pr.Cwd != cwd {
		return viol("options", "%s: the process runs in %s instead of %s", what, pr.Cwd, cwd)
	}
	mark := "own"
	if e, ok := bp.Options["env"].(map[string]string); ok {
		mark = e["MARK"]
	}
	if pr.Env != mark {
		return viol("options", "%s: the process runs with the environment %q instead of %q", what, pr.Env, mark)
	}
	if pr.Timeout != p.I["timeout"] && bp.Fn != "run" {
		return viol("options", "%s: the timeout is %d instead of %d", what, pr.Timeout, p.I["timeout"])
	}
	input := ""
	if pr.Input != nil {
		input = *pr.Input
	}

	// the process it asks for
	fs := NewFS(p.Tree)
	res := rn.Exec(fs, c29Step(st, pr.Args, input, cwd))
	if v := noEnd(res); v != nil {
		return v
	}
	if !res.AnyFired() && res.Crashed == "" {
		ref := calmed(st)
		ref.Args = []string{"-numio=1"}
		for _, a := range bp.Flags {
			if !strings.HasPrefix(a, "-numio") && !strings.HasPrefix(a, "-P=") {
				ref.Args = append(ref.Args, a)
			}
		}
		ref.Args = append(ref.Args, "-f", "/home/u/c0")
		ref.Cwd = cwd
		var text string
		for _, b := range bp.Batches {
			text += strings.Join(append(append([]string(nil), b.Commands...), b.Targets...), "|") + "\n"
		}
		t := Tree{}
		for k, v := range p.Tree {
			t[k] = v
		}
		t["/home/u/c0"] = vfs.Node{Data: text}
		rfs := NewFS(t)
		rres := rn.Exec(rfs, ref)
		if !refOK(rres) {
			return nil
		}
		if pth, d := diffTree(rfs.Snapshot("/w"), fs.Snapshot("/w"), nil); pth != "" {
			return viol("tree", "%s: the commands are not carried out as given, one after the other, on every target: %s %s (input %s)", what, pth, d, quoteShort(input))
		}
		if res.Exit != rres.Exit {
			return viol("outcome", "%s: buildozer exits with %d, with the same commands in a file %d: %s", what, res.Exit, rres.Exit, quoteShort(res.Stderr))
		}
		if d := multiset(lines(rres.Stdout), lines(res.Stdout)); d != "" {
			return viol("printed", "%s: buildozer prints something else than for the same commands in a file: %s", what, d)
		}
	}

	// the outcome
	r := bResult{Status: res.Exit, Stdout: res.Stdout, Stderr: res.Stderr, Started: true}
	if res.Crashed != "" {
		r.Signal, r.Status = "SIGKILL", 0
	}
	if s := p.S["signal"]; s != "" {
		r.Signal, r.Status = s, 0
	}
	if e := p.S["error"]; e != "" {
		r.Error = e
		r.Started = e == "ETIMEDOUT"
		if r.Started {
			r.Signal, r.Status = "SIGTERM", 0
		}
	}
	max := 1 << 20
	if m, ok := bp.Options["maxBuffer"].(int); ok {
		max = m
	}
	tooBig := r.Started && len(r.Stdout) > max
	bp.Result = r
	o2 := call()
	if o2.Broken != "" {
		return viol("start", "%s: the binding cannot be executed: %s", what, o2.Broken)
	}
	if v := check(o2); v != nil {
		return v
	}
	if len(o2.Procs) != 1 || o2.Procs[0].Input == nil != (pr.Input == nil) || pr.Input != nil && *o2.Procs[0].Input != input || fmt.Sprint(o2.Procs[0].Args) != fmt.Sprint(pr.Args) {
		return viol("processes", "%s: the same call starts something else the second time", what)
	}
	end := fmt.Sprintf("exits with %d", r.Status)
	switch {
	case r.Error != "":
		end = "ends with " + r.Error
	case tooBig:
		end = "prints too much"
	case r.Signal != "":
		end = "dies of " + r.Signal
	}
	good := r.Error == "" && r.Signal == "" && !tooBig && (r.Status == 0 || r.Status == 3)
	if !good {
		if !o2.Threw {
			return viol("silent", "%s: buildozer %s, but the call returns %d lines", what, end, len(o2.Lines))
		}
		if !o2.IsError {
			return viol("error", "%s: buildozer %s, but the call throws %s instead of an Error", what, end, quoteShort(o2.Message))
		}
		return nil
	}
	if o2.Threw {
		return viol("threw", "%s: buildozer %s, but the call throws %s", what, end, quoteShort(o2.Message))
	}
	if o2.Lines == nil {
		return viol("result", "%s: the call returns %s instead of lines", what, quoteShort(o2.Message))
	}
	want, got := c29Lines(r.Stdout), c29Lines(strings.Join(o2.Lines, "\n"))
	if len(got) != len(o2.Lines) && len(want) == len(strings.Split(strings.TrimSuffix(r.Stdout, "\n"), "\n")) {
		return viol("result", "%s: the call returns %d lines of which %d are not blank", what, len(o2.Lines), len(got))
	}
	if d := multiset(want, got); d != "" {
		return viol("result", "%s: the lines returned are not those buildozer printed: %s", what, d)
	}
	if strings.Join(want, "\n") != strings.Join(got, "\n") {
		return viol("result", "%s: the lines returned are in another order", what)
	}
	return nil
}

// bound counts what a call covered.
func (rn *Runner) bound(p *Plan, bp *bPlan, o *bOut) {
	s := rn.Stats
	h := simrt.HashString(bp.Fn)
	for _, pr := range o.Procs {
		l := fmt.Sprintf("%s %s %q", pr.Fn, pr.File, pr.Args)
		h = simrt.Mix(h, simrt.HashString(l))
		if rn.Keep {
			rn.Trace = append(rn.Trace, l)
		}
	}
	l := fmt.Sprintf("returned %d lines, threw %v: %s", len(o.Lines), o.Threw, quoteShort(o.Message))
	if rn.Keep {
		rn.Trace = append(rn.Trace, l)
	}
	h = simrt.Mix(h, simrt.HashString(l))
	s.Runs++
	s.Events += int64(len(o.Procs) + 1)
	s.Tools["index.js"]++
	if e := bp.Result.Error; e != "" {
		s.Faults["spawn "+e]++
	} else if e := bp.Result.Signal; e != "" {
		s.Faults["binary dies of "+e]++
	}
	if o.Threw {
		s.Exits["index.js threw"]++
	} else {
		s.Exits["index.js returned"]++
	}
	s.Hists[h] = true
	s.caseHash = simrt.Mix(s.caseHash, h)
	if len(bp.Batches) > 1 || o.Threw {
		s.caseNT = true
	}
}
