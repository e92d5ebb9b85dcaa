package main

import (
	"fmt"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

func init() {
	register(&Check{
		Prop: "C04", Gen: genC04, Run: runC04, Real: bfReal + "; buildozer main and edit", Stub: bfStub,
		Rule: "Runs of the read-only modes of buildifier and buildozer with injected errors, helper failures and kills at any system call; the tree before and after and every modifying call are compared.",
	})
	register(&Check{
		Prop: "C05", Gen: genC05, Run: runC05, Real: bfReal + "; buildozer main and edit", Stub: bfStub,
		Rule: "Runs that create temporary files (diff mode, single and multi-pair, with standard input) and other runs of both tools, with errors in creating, writing, closing, diffing and removing them.",
	})
	register(&Check{
		Prop: "C06", Gen: genC06, Run: runC06, Real: bfReal + "; buildozer main and edit", Stub: bfStub,
		Rule: "Filter runs (standard input to standard output, print_if_changed, buildozer -stdout and standard-input target) with input in arbitrary pieces and errors or partial transfers on the standard streams.",
	})
	register(&Check{
		Prop: "C07", Gen: genC07, Run: runC07, Real: bfReal + "; buildozer main and edit", Stub: bfStub,
		Rule: "Runs killed before, during or after any system call; every file must hold its old bytes or those of the complete run.",
	})
	register(&Check{
		Prop: "C08", Gen: genC08, Run: runC08, Real: bfReal + "; buildozer main and edit", Stub: bfStub,
		Rule: "A run that is killed or meets errors, followed by the same run without faults, a third run and a check run.",
	})
}

// genReadOnly draws a run of a mode that must not modify the tree.
func genReadOnly(r *simrt.Rng, rn *Runner) (Tree, Step, string) {
	st := Step{Sched: genSched(r)}
	if r.P(0.3) {
		t, files := genPackages(r, 1+r.Intn(4), 0.1)
		st.Tool = "buildozer"
		kind := pick(r, "print", "stdout")
		if kind == "print" {
			st.Args = []string{pick(r, "print name kind deps", "print label", "print_comment", "print", "print rule", "print startline endline path")}
		} else {
			st.Args = []string{"-stdout", pick(r, "set testonly 1", "add deps //x:y", "new cc_library zz", "comment hi", "remove deps")}
		}
		for _, f := range files {
			st.Files = append(st.Files, "//"+pkgOf(f)+":"+pick(r, "all", "*", "%cc_library", "__pkg__", "nosuch"))
		}
		if r.P(0.2) {
			st.Args = append([]string{"-k"}, st.Args...)
		}
		if r.P(0.3) && kind == "stdout" {
			st.Args = append([]string{"-buildifier=/usr/bin/bf"}, st.Args...)
		}
		return t, st, kind
	}
	t, names := genBfTree(r, rn, 0.1)
	if len(names) > 30 {
		names = names[:30]
	}
	st.Tool = "buildifier"
	kind := pick(r, "check", "check", "diff", "diff", "print", "stdin", "json", "multi")
	switch kind {
	case "check":
		st.Args = append(st.Args, "-mode=check")
	case "json":
		st.Args = append(st.Args, "-mode=check", "-format=json")
	case "diff":
		st.Args = append(st.Args, "-mode=diff")
	case "multi":
		st.Args = append(st.Args, "-mode=diff", "-diff_command=tkdiff", "-multi_diff")
	case "print":
		st.Args = append(st.Args, "-mode=print_if_changed")
		names = names[:1]
	case "stdin":
		st.Stdin = genBuild(r, 0.4)
		if r.P(0.5) {
			st.Args = append(st.Args, pick(r, "-mode=diff", "-mode=check", "-mode=fix", "-mode=print_if_changed"))
		}
		if r.P(0.5) {
			st.Args = append(st.Args, "-path="+strings.TrimPrefix(names[0], "/w/"))
		}
		names = nil
	}
	if r.P(0.5) {
		st.Args = append(st.Args, "-lint=warn", "-warnings=all")
	}
	if r.P(0.2) && kind != "print" && kind != "stdin" {
		st.Args = append(st.Args, "-r")
		names = []string{"/w"}
	}
	if r.P(0.3) {
		st.Args = append(st.Args, "-v")
	}
	st.Files = spellAll(r, names)
	return t, st, kind
}

// addFaults injects errors (and kills) at calls of a dry run.
func addFaults(r *simrt.Rng, rn *Runner, t Tree, st *Step, n int, kill float64, want func(vfs.Event) bool) {
	dry := rn.Exec(NewFS(t), calmed(*st))
	cand := injectable(dry.Events, want)
	for i := 0; i < n && len(cand) > 0; i++ {
		st.Faults = append(st.Faults, genErrFault(r, dry.Events, cand[r.Intn(len(cand))]))
	}
	if r.P(kill) && len(dry.Events) > 0 {
		i := r.Intn(len(dry.Events))
		f := faultAt(dry.Events, i)
		f.Kind = pick(r, "crash", "crashmid", "crashafter")
		f.N = r.Intn(dry.Events[i].N + 1)
		st.Faults = append(st.Faults, f)
	}
}

func genC04(r *simrt.Rng, rn *Runner) *Plan {
	t, st, kind := genReadOnly(r, rn)
	if r.P(0.3) {
		st.Env = map[string]string{"TMPDIR": "/home/u/tmp"}
		t["/home/u/tmp"] = vfs.Node{Kind: "dir"}
	}
	if r.P(0.8) {
		addFaults(r, rn, t, &st, r.Intn(4), 0.3, nil)
	}
	if r.P(0.1) {
		st.Faults = append(st.Faults, vfs.Fault{Op: "create", Nth: 1, Count: -1, Kind: "err", Err: errFor(r, "create")})
	}
	return &Plan{Kind: st.Tool + " " + kind, Tree: t, Steps: []Step{st}}
}

func runC04(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	fs := NewFS(p.Tree)
	before := fs.Snapshot("/")
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	tmp := "/tmp"
	if d := st.Env["TMPDIR"]; d != "" {
		tmp = d
	}
	inTmp := func(x string) bool { return x == tmp || strings.HasPrefix(x, tmp+"/") }
	if pth, d := diffTree(before, fs.Snapshot("/"), inTmp); pth != "" {
		return viol("modified", "%s %s modified the tree: %s %s", st.Tool, strings.Join(st.Args, " "), pth, d)
	}
	for _, e := range res.Events {
		if e.Mut && e.Pid == 0 && !inTmp(e.Path) && e.Path != "/dev/null" {
			return viol("attempt", "%s %s tries to modify the tree: %s", st.Tool, strings.Join(st.Args, " "), e.String())
		}
	}
	return nil
}

func genC05(r *simrt.Rng, rn *Runner) *Plan {
	var t Tree
	var st Step
	kind := ""
	if r.P(0.75) {
		var names []string
		t, names = genBfTree(r, rn, 0.05)
		if len(names) > 12 {
			names = names[:12]
		}
		st = Step{Tool: "buildifier", Sched: genSched(r), Args: []string{"-mode=diff"}}
		kind = pick(r, "diff", "diff", "multi", "stdin")
		if kind == "multi" || kind == "stdin" && r.P(0.3) {
			st.Args = append(st.Args, "-diff_command=tkdiff", "-multi_diff")
		}
		if kind == "stdin" {
			st.Stdin = genBuild(r, 0.6)
			names = nil
		}
		if r.P(0.3) {
			st.Args = append(st.Args, "-lint="+pick(r, "warn", "fix"))
		}
		st.Files = spellAll(r, names)
	} else {
		t, st, kind = genReadOnly(r, rn)
		if r.P(0.4) {
			var names []string
			t, names = genBfTree(r, rn, 0.1)
			st = Step{Tool: "buildifier", Sched: genSched(r), Files: spellAll(r, names)}
			kind = "fix"
		}
	}
	dry := rn.Exec(NewFS(t), calmed(st))
	tmp := injectable(dry.Events, func(e vfs.Event) bool { return underTmp(e.Path) && e.Pid == 0 || e.Op == "exec" })
	for i, n := 0, r.Intn(4); i < n && len(tmp) > 0; i++ {
		st.Faults = append(st.Faults, genErrFault(r, dry.Events, tmp[r.Intn(len(tmp))]))
	}
	if r.P(0.2) {
		st.Faults = append(st.Faults, vfs.Fault{Op: "exec", Nth: 1 + r.Intn(3), Kind: pick(r, "err", "exit", "killed"), N: 2, Err: "ENOENT", Count: -1})
	}
	if r.P(0.2) {
		addFaults(r, rn, t, &st, 1+r.Intn(2), 0, nil)
	}
	if r.P(0.1) && len(tmp) > 0 {
		st.Disk = 200 + r.Intn(4000)
	}
	return &Plan{Kind: st.Tool + " " + kind, Tree: t, Steps: []Step{st}}
}

func runC05(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	fs := NewFS(p.Tree)
	before := fs.Snapshot("/")
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	if !res.Ended() {
		return nil
	}
	refused := map[string]bool{}
	made := 0
	for _, e := range res.Events {
		if e.Op == "unlink" && e.Err != "" {
			refused[e.Path] = true
		}
		if e.Op == "create" && e.Err == "" && underTmp(e.Path) && e.Pid == 0 {
			made++
		}
	}
	if made > 0 {
		rn.Probe("temporary files created")
	}
	for q := range fs.Snapshot("/") {
		if _, ok := before[q]; !ok && !refused[q] {
			return viol("leak", "%s %s (%s) leaves %s behind", st.Tool, strings.Join(st.Args, " "), res.How(), q)
		}
	}
	return nil
}

func genC06(r *simrt.Rng, rn *Runner) *Plan {
	st := Step{Sched: genSched(r)}
	p := &Plan{}
	p.Kind = pick(r, "filter", "filter", "filter", "print", "bzstdout", "bzstdout", "bzstdin")
	switch p.Kind {
	case "filter":
		p.Tree = Tree{"/w/WORKSPACE": {Data: ""}}
		st.Tool = "buildifier"
		st.Stdin = genBuild(r, 0.3)
		for r.P(0.3) {
			st.Stdin += genBuild(r, 0.3)
		}
		if r.P(0.1) {
			st.Stdin += strings.Repeat("# "+strings.Repeat("x", 70)+"\n", 200)
		}
		if r.P(0.1) {
			st.Stdin = genBroken(r)
		}
		if r.P(0.5) {
			st.Args = append(st.Args, "-path=a/"+pick(r, "BUILD", "x.bzl", "WORKSPACE"))
		}
		if r.P(0.3) {
			st.Args = append(st.Args, "-lint="+pick(r, "warn", "fix"), singleFileWarnings)
		}
		if r.P(0.3) {
			st.Args = append(st.Args, "-mode=print_if_changed")
		}
		if r.P(0.3) {
			st.Files = []string{"-"}
		}
	case "print":
		t, names := genFiles(r, 1, 0)
		p.Tree = t
		st.Tool = "buildifier"
		st.Args = []string{"-mode=print_if_changed"}
		st.Files = names
	case "bzstdout":
		t, files := genPackages(r, 1+r.Intn(6), 0)
		p.Tree = t
		st.Tool = "buildozer"
		st.Args = []string{"-stdout"}
		if r.P(0.3) {
			st.Args = append(st.Args, "-k")
		}
		if r.P(0.5) {
			st.Args = append(st.Args, "-numio="+pick(r, "1", "2", "3", "8"))
		}
		st.Args = append(st.Args, pick(r, "new cc_library zz", "comment hi", "set testonly 1", "add deps //x:y"))
		for _, f := range files {
			st.Files = append(st.Files, "//"+pkgOf(f)+":"+pick(r, "__pkg__", "all"))
		}
	case "bzstdin":
		p.Tree = Tree{"/w/WORKSPACE": {Data: ""}}
		st.Tool = "buildozer"
		st.Args = []string{pick(r, "new cc_library zz", "set testonly 1", "add deps //x:y"), pick(r, "-:__pkg__", "-:all")}
		st.Stdin = genBuild(r, 0.2)
	}
	if st.Stdin != "" {
		for i, n := 0, r.Intn(6); i < n; i++ {
			st.Chunks = append(st.Chunks, 1+r.Intn(60))
		}
	}
	dry := rn.Exec(NewFS(p.Tree), calmed(st))
	switch r.Intn(5) {
	case 0:
	case 1, 2:
		// standard output
		outs := injectable(dry.Events, func(e vfs.Event) bool { return e.Path == "/dev/stdout" && e.Op == "write" })
		if len(outs) > 0 {
			f := genErrFault(r, dry.Events, outs[r.Intn(len(outs))])
			if r.P(0.2) {
				f.Kind = "short"
			}
			if r.P(0.1) {
				f.Kind, f.Err = "err", "EPIPE"
			}
			st.Faults = append(st.Faults, f)
		}
	case 3:
		if st.Stdin != "" {
			f := vfs.Fault{Op: "read", Path: "/dev/stdin", Nth: 1 + r.Intn(len(st.Chunks)+2), Kind: pick(r, "err", "partial"), Err: errFor(r, "read"), N: r.Intn(len(st.Stdin))}
			if r.P(0.3) {
				f.Count = -1
			}
			st.Faults = append(st.Faults, f)
			break
		}
		fallthrough
	default:
		addFaults(r, rn, p.Tree, &st, 1+r.Intn(2), 0, func(e vfs.Event) bool { return e.Op == "read" || e.Op == "open" || e.Op == "write" })
	}
	p.Steps = []Step{st}
	return p
}

func runC06(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	fs := NewFS(p.Tree)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	if !res.Ended() {
		return nil
	}
	args := st.Tool + " " + strings.Join(st.Args, " ")
	stdinFail := failedOps(res, "/dev/stdin", "read")
	if stdinFail {
		rn.Probe("standard input failed")
		if res.Stdout != "" {
			return viol("truncated", "%s: reading standard input failed, but there is output %s", args, quoteShort(res.Stdout))
		}
		if res.Exit == 0 || st.Tool == "buildozer" && res.Exit == 3 {
			return viol("status-in", "%s: reading standard input failed, but the exit status is %d", args, res.Exit)
		}
		return nil
	}
	outFail := failedOps(res, "/dev/stdout", "write")
	okExit := res.Exit == 0 || res.Exit == 4 && st.Tool == "buildifier"
	if st.Tool == "buildozer" {
		okExit = res.Exit == 0 || res.Exit == 3
	}
	if outFail && okExit {
		return viol("status-out", "%s: writing standard output failed, but the exit status is %d", args, res.Exit)
	}
	// pieces in the reference world
	var pieces []string
	files := st.Files
	if p.Kind != "bzstdout" {
		files = nil
		ref := rn.Exec(NewFS(p.Tree), calmed(st))
		if !refOK(ref) {
			return nil
		}
		if v := crossFix(p, rn, st, ref); v != nil {
			return v
		}
		if okExit && res.Stdout != ref.Stdout {
			return viol("incomplete", "%s exits with %d, but its output is %s instead of %s", args, res.Exit, quoteShort(res.Stdout), quoteShort(ref.Stdout))
		}
		if !strings.HasPrefix(ref.Stdout, res.Stdout) {
			return viol("wrong", "%s writes %s, which is no part of %s", args, quoteShort(res.Stdout), quoteShort(ref.Stdout))
		}
		return nil
	}
	for _, f := range files {
		ref := rn.Exec(NewFS(p.Tree), only(st, f))
		if !refOK(ref) {
			return nil
		}
		// rewriting the file in place gives the same text
		in := only(st, f)
		in.Args = nil
		for _, a := range st.Args {
			if a != "-stdout" {
				in.Args = append(in.Args, a)
			}
		}
		place := NewFS(p.Tree)
		r2 := rn.Exec(place, in)
		if refOK(r2) && r2.Exit == ref.Exit && ref.Exit == 0 {
			for pth, nd := range place.Snapshot("/w") {
				if old := p.Tree[pth]; nd.Kind == "file" && nd.Data != old.Data && nd.Data != ref.Stdout {
					return viol("wrong", "%s prints %s for %s, but the file would be rewritten to %s", args, quoteShort(ref.Stdout), f, quoteShort(nd.Data))
				}
			}
		}
		if ref.Stdout != "" {
			pieces = append(pieces, ref.Stdout)
		}
	}
	fail := len(st.Faults) > 0 && res.AnyFired()
	rest, left := eat(res.Stdout, pieces)
	if rest != "" && !outFail {
		return viol("torn", "%s: the output is not a sequence of the complete results of its files: %s", args, quoteShort(rest))
	}
	if okExit && len(left) > 0 && !fail {
		return viol("incomplete", "%s exits with %d, but the result %s is missing", args, res.Exit, quoteShort(left[0]))
	}
	if okExit && len(left) > 0 && fail {
		return viol("incomplete", "%s exits with %d after an error, but the result %s is missing", args, res.Exit, quoteShort(left[0]))
	}
	return nil
}

// crossFix compares the undisturbed output of a filter run with what fixing a file of the same
// name and contents leaves in it.
func crossFix(p *Plan, rn *Runner, st Step, ref *Result) *Violation {
	if ref.Exit != 0 {
		return nil
	}
	t := p.Tree
	name, data := "", ""
	in := calmed(st)
	in.Args, in.Stdin, in.Chunks = nil, "", nil
	changed := false
	for _, a := range st.Args {
		switch {
		case strings.HasPrefix(a, "-path="):
			name = abs(st.Cwd, a[len("-path="):])
			t = Tree{}
			for k, nd := range p.Tree {
				t[k] = nd
			}
			data = st.Stdin
			t[name] = vfs.Node{Data: data}
		case a == "-mode=print_if_changed":
			changed = true
		default:
			in.Args = append(in.Args, a)
		}
	}
	if p.Kind == "print" {
		name = abs(st.Cwd, st.Files[0])
		data = t[name].Data
	}
	if name == "" {
		return nil
	}
	in.Files = []string{name}
	fs := NewFS(t)
	r2 := rn.Exec(fs, in)
	if !refOK(r2) || r2.Exit != 0 {
		return nil
	}
	want := fs.Snapshot("/w")[name].Data
	if changed && want == data {
		want = ""
	}
	if ref.Stdout != want {
		return viol("wrong", "%s %s writes %s, but fixing a file of this name and contents leaves %s", st.Tool, strings.Join(st.Args, " "), quoteShort(ref.Stdout), quoteShort(want))
	}
	return nil
}

// eat removes the pieces from the front of s in any order, with backtracking.
func eat(s string, pieces []string) (rest string, left []string) {
	bestRest, bestLeft := s, pieces
	var rec func(s string, left []string) bool
	steps := 0
	rec = func(s string, left []string) bool {
		steps++
		if len(s) < len(bestRest) {
			bestRest, bestLeft = s, left
		}
		if s == "" {
			return true
		}
		if steps > 20000 {
			return false
		}
		seen := map[string]bool{}
		for i, p := range left {
			if seen[p] || !strings.HasPrefix(s, p) {
				continue
			}
			seen[p] = true
			l := append(append([]string(nil), left[:i]...), left[i+1:]...)
			if rec(s[len(p):], l) {
				return true
			}
		}
		return false
	}
	rec(s, pieces)
	return bestRest, bestLeft
}

// genWriting draws a run that rewrites files in place.
func genWriting(r *simrt.Rng, rn *Runner) (Tree, Step, string) {
	if r.P(0.5) {
		t, files := genPackages(r, 1+r.Intn(6), 0.05)
		st := Step{Tool: "buildozer", Sched: genSched(r)}
		if r.P(0.5) {
			st.Args = append(st.Args, "-numio="+pick(r, "1", "2", "3"))
		}
		n := 1 + r.Intn(4)
		for i := 0; i < n; i++ {
			st.Args = append(st.Args, genIdemCmd(r))
		}
		for _, f := range files {
			st.Files = append(st.Files, "//"+pkgOf(f)+":"+pick(r, "all", "__pkg__", "%cc_library"))
		}
		if r.P(0.1) {
			// a long list of commands in a file
			txt := ""
			for i, k := 0, 20+r.Intn(230); i < k; i++ {
				c := genIdemCmd(r)
				if r.P(0.5) {
					c = fmt.Sprintf("add deps //x:t%d", r.Intn(300))
				}
				txt += c + "|" + st.Files[r.Intn(len(st.Files))] + "\n"
			}
			t["/home/u/cmds"] = vfs.Node{Data: txt}
			st.Args, st.Files = append(st.Args[:len(st.Args)-n], "-f", "/home/u/cmds"), nil
		}
		if r.P(0.2) {
			st.Args = append([]string{"-buildifier=/usr/bin/bf"}, st.Args...)
		}
		return t, st, "buildozer"
	}
	t, names := genBfTree(r, rn, 0.05)
	if len(names) > 15 {
		names = names[:15]
	}
	st := Step{Tool: "buildifier", Sched: genSched(r), Files: spellAll(r, names)}
	if r.P(0.4) {
		st.Args = append(st.Args, "-v")
	}
	if r.P(0.2) {
		st.Args = append(st.Args, "-r")
		st.Files = []string{"/w"}
	}
	if r.P(0.15) {
		// a long file, written in one call that may be torn anywhere
		t[names[0]] = vfs.Node{Data: strings.Repeat(genBuild(r, 0.4)+"\n", 8)}
	}
	return t, st, "buildifier"
}

func genC07(r *simrt.Rng, rn *Runner) *Plan {
	t, st, kind := genWriting(r, rn)
	if kind == "buildifier" && r.P(0.3) {
		st.Args = append(st.Args, "-lint=fix", "-warnings=all")
	}
	if r.P(0.3) {
		addFaults(r, rn, t, &st, 1, 0, nil)
	}
	dry := rn.Exec(NewFS(t), calmed(st))
	var muts, all []int
	for i, e := range dry.Events {
		if e.Op == "exit" || e.Op == "wait" {
			continue
		}
		all = append(all, i)
		if e.Mut {
			muts = append(muts, i)
		}
	}
	cand := all
	if len(muts) > 0 && r.P(0.6) {
		cand = muts
		if r.P(0.4) {
			// around a modifying call
			i := muts[r.Intn(len(muts))]
			cand = nil
			for _, j := range all {
				if j >= i-3 && j <= i+3 {
					cand = append(cand, j)
				}
			}
		}
	}
	if len(cand) > 0 {
		i := cand[r.Intn(len(cand))]
		f := faultAt(dry.Events, i)
		f.Kind = pick(r, "crash", "crashmid", "crashafter")
		f.N = r.Intn(dry.Events[i].N + 1)
		st.Faults = append(st.Faults, f)
	}
	return &Plan{Kind: kind, Tree: t, Steps: []Step{st}}
}

func runC07(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	rfs := NewFS(p.Tree)
	ref := rn.Exec(rfs, calmed(st))
	if !refOK(ref) {
		return nil
	}
	old, want := NewFS(p.Tree).Snapshot("/w"), rfs.Snapshot("/w")
	fs := NewFS(p.Tree)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	got := fs.Snapshot("/w")
	if res.Crashed != "" {
		rn.Probe("killed")
	}
	var torn *Violation
	for _, q := range vfs.Paths(merge(old, got)) {
		g, ok := got[q]
		if ok && (g == old[q] || g == want[q]) {
			continue
		}
		if _, was := old[q]; !was && ok && !strings.HasPrefix(g.Data, "\x00") && scratchName(q, old) {
			// a scratch file next to the file it will replace is not a file of the tree yet
			continue
		}
		if !ok {
			return viol("lost", "%s is gone after %s was %s", q, st.Tool, res.How())
		}
		// is this the file being rewritten in place when the run died, and is it a beginning of the new text?
		last := vfs.Event{}
		for _, e := range res.Events {
			if e.Path == q && e.Mut && e.Pid == 0 {
				last = e
			}
		}
		lastOfG := vfs.Event{}
		for _, e := range res.Events {
			if e.G == last.G && e.Pid == 0 {
				lastOfG = e
			}
		}
		failedWrite := failedOps(res, q, "write", "close", "create")
		if last.Op != "" && g.Mode == old[q].Mode && strings.HasPrefix(want[q].Data, g.Data) && (lastOfG.Path == q && res.Crashed != "" || failedWrite) {
			torn = viol("torn", "%s was %s while it rewrote %s in place, which now holds %d of the %d new bytes (%d before)", st.Tool, res.How(), q, len(g.Data), len(want[q].Data), len(old[q].Data))
			torn.Key = "torn in-place write by " + st.Tool
			if n := writesTo(res, q); n > 1 {
				// one write call is the best an in-place rewrite can do; more make the window wider
				torn.Key = "piecewise in-place write by " + st.Tool
			}
			if failedWrite && res.Crashed == "" {
				torn.Key = "failed in-place write by " + st.Tool
			}
			continue
		}
		return viol("mixed", "after %s was %s, %s is %s, neither the old %s nor the new %s", st.Tool, res.How(), q, describeNode(g), describeNode(old[q]), describeNode(want[q]))
	}
	for m := range mutated(res) {
		if old[m] == want[m] && old[m].Kind == "" {
			if _, was := old[m]; was {
				return viol("touched", "%s is touched although the run does not change it", m)
			}
		}
	}
	return torn
}

// writesTo counts the write calls after the file was last opened for writing.
func writesTo(r *Result, q string) int {
	n := 0
	for _, e := range r.Events {
		if e.Path != q || e.Pid != 0 {
			continue
		}
		switch e.Op {
		case "create":
			n = 0
		case "write":
			n++
		}
	}
	return n
}

// scratchName tells a temporary file from one that could be taken for a source.
func scratchName(q string, old map[string]vfs.Node) bool {
	b := q[strings.LastIndex(q, "/")+1:]
	return !starlarkName(b)
}

func merge(a, b map[string]vfs.Node) map[string]vfs.Node {
	m := map[string]vfs.Node{}
	for k, v := range a {
		m[k] = v
	}
	for k, v := range b {
		m[k] = v
	}
	return m
}

func genC08(r *simrt.Rng, rn *Runner) *Plan {
	t, st, kind := genWriting(r, rn)
	if kind == "buildozer" {
		for i := range st.Args {
			_ = i
		}
	}
	again := calmed(st)
	again.Sched = genSched(r)
	addFaults(r, rn, t, &st, r.Intn(3), 0.6, nil)
	if r.P(0.1) {
		st.Disk = 300 + r.Intn(3000)
	}
	st.Pid, again.Pid = 100+r.Intn(9), 100+r.Intn(9)
	return &Plan{Kind: kind, Tree: t, Steps: []Step{st, again}}
}

// monotone says whether all commands only make sure that something is there.
func monotone(args []string) bool {
	for _, a := range args {
		if strings.HasPrefix(a, "-numio=") {
			continue
		}
		switch strings.Fields(a)[0] {
		case "add", "set", "set_if_absent", "new_load", "dict_add":
		default:
			return false
		}
	}
	return true
}

func runC08(p *Plan, rn *Runner) *Violation {
	if len(p.Steps) < 2 {
		return nil
	}
	st, again := p.Steps[0], p.Steps[1]
	rfs := NewFS(p.Tree)
	ref := rn.Exec(rfs, calmed(again))
	if !refOK(ref) {
		return nil
	}
	old, want := NewFS(p.Tree).Snapshot("/w"), rfs.Snapshot("/w")
	// only commands whose fault-free repetition changes nothing
	rfs2 := cloneFS(rfs)
	ref2 := rn.Exec(rfs2, calmed(again))
	if !refOK(ref2) {
		return nil
	}
	if pth, _ := diffTree(want, rfs2.Snapshot("/w"), nil); pth != "" {
		if p.Kind != "buildifier" {
			if monotone(st.Args) {
				return viol("again", "the commands %q change %s again when they are repeated: %s", st.Args, pth, firstDiff(want[pth].Data, rfs2.Snapshot("/w")[pth].Data))
			}
			return nil
		}
		return viol("again", "formatting %s a second time changes it again: %s", pth, firstDiff(want[pth].Data, rfs2.Snapshot("/w")[pth].Data))
	}
	if p.Kind == "buildifier" && ref.Exit == 0 && ref2.Exit != 0 {
		return viol("unreadable", "the run over its own result ends with %s: %s", ref2.How(), quoteShort(ref2.Stderr))
	}
	fs := NewFS(p.Tree)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	damaged := map[string]bool{}
	mid := fs.Snapshot("/w")
	for q := range merge(old, mid) {
		if mid[q] != old[q] && mid[q] != want[q] {
			damaged[q] = true
			if _, was := old[q]; !was {
				// something new that is not part of the result
				continue
			}
		}
	}
	anyDamaged := len(damaged) > 0
	res2 := rn.Exec(fs, again)
	if v := noEnd(res2); v != nil {
		return v
	}
	got := fs.Snapshot("/w")
	for _, q := range vfs.Paths(merge(want, got)) {
		if damaged[q] || got[q] == want[q] {
			continue
		}
		// linting or resolving may look at a damaged file: only judge in trees without damage
		if anyDamaged && st.Tool == "buildozer" {
			continue
		}
		return viol("diverges", "after a run that was %s and a clean second run, %s is %s instead of %s", res.How(), q, describeNode(got[q]), describeNode(want[q]))
	}
	if anyDamaged {
		rn.Probe("damaged")
		return nil
	}
	if res2.Exit != ref.Exit && res2.Exit != ref2.Exit && st.Tool == "buildifier" {
		return viol("status", "after a run that was %s the second run ends with %s, the first clean run with %d", res.How(), res2.How(), ref.Exit)
	}
	res3 := rn.Exec(fs, calmed(again))
	if m := mutated(res3); len(m) > 0 {
		return viol("unstable", "a third run still writes %v", m)
	}
	if st.Tool == "buildifier" {
		ck := calmed(again)
		ck.Args = append(append([]string(nil), ck.Args...), "-mode=check")
		c1 := rn.Exec(cloneFS(rfs), ck)
		c2 := rn.Exec(fs, ck)
		if c1.Exit != c2.Exit || c1.Stderr != c2.Stderr {
			return viol("check", "check mode ends with %s %s afterwards, but with %s after a single clean run", c2.How(), quoteShort(c2.Stderr), c1.How())
		}
		if ref.Exit == 0 && c2.Exit != 0 {
			return viol("check", "check mode ends with %s after successful formatting: %s", c2.How(), quoteShort(c2.Stderr))
		}
	}
	return nil
}
