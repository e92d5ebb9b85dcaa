package main

import (
	"encoding/json"
	"fmt"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

func init() {
	register(&Check{
		Prop: "C03", Gen: genC03, Run: runC03, Real: bfReal, Stub: bfStub,
		Rule: "Random trees, modes, lint modes and report formats with injected errors and partial transfers on any file, standard stream or temporary file of the run; the exit status and report are judged against the recorded system calls and against fault-free runs on single files.",
	})
	register(&Check{
		Prop: "C26", Gen: genC26, Run: runC26, Real: bfReal, Stub: bfStub,
		Rule: "Diff-mode runs over random trees with single and multi-pair diff programs, unreadable files and diff programs that cannot be started or fail; the stand-in records what it was asked to compare and the contents it saw.",
	})
	register(&Check{
		Prop: "C20", Gen: genC20, Run: runC20, Real: bfReal, Stub: bfStub,
		Rule: "Recursive runs over random directory trees with links, .git directories, names that look like sources, and errors while listing or examining entries.",
	})
	register(&Check{
		Prop: "C19", Gen: genC19, Run: runC19, Real: bfReal + "; buildozer main and edit", Stub: bfStub,
		Rule: "buildifier and buildozer runs whose configuration or tables file is missing, truncated at any byte, malformed, unreadable, or fails while it is searched, opened or read.",
	})
}

func has(args []string, prefix string) bool {
	for _, a := range args {
		if strings.HasPrefix(a, prefix) {
			return true
		}
	}
	return false
}

func genC03(r *simrt.Rng, rn *Runner) *Plan {
	t, names := genBfTree(r, rn, []float64{0, 0.1, 0.3}[r.Intn(3)])
	if len(names) > 40 {
		names = names[:40]
	}
	if r.P(0.5) {
		// mostly clean trees, so that exit status 0 is reachable
		for _, n := range names {
			if r.P(0.9) {
				nd := t[n]
				nd.Data = genText(r, n, 0)
				t[n] = nd
			}
		}
	}
	st := Step{Tool: "buildifier", Sched: genSched(r)}
	p := &Plan{Tree: t, S: map[string]string{}}
	p.Kind = pick(r, "fix", "fix", "check", "check", "diff", "json", "json", "stdin", "stdincheck", "print")
	if r.P(0.4) {
		st.Args = append(st.Args, "-v")
	}
	switch p.Kind {
	case "check":
		st.Args = append(st.Args, "-mode=check")
	case "diff":
		st.Args = append(st.Args, "-mode=diff")
	case "json":
		st.Args = append(st.Args, "-mode=check", "-format="+pick(r, "json", "json", "text"))
	case "stdin":
		st.Stdin = genBuild(r, 0.3)
		names = nil
	case "stdincheck":
		st.Args = append(st.Args, "-mode=check")
		if r.P(0.4) {
			st.Args = append(st.Args, "-format=json")
		}
		st.Stdin = genBuild(r, 0.3)
		names = nil
	case "print":
		st.Args = append(st.Args, "-mode=print_if_changed")
		names = names[:1]
	}
	if r.P(0.3) {
		st.Args = append(st.Args, "-lint="+pick(r, "warn", "fix"), singleFileWarnings)
		if p.Kind == "json" || strings.HasPrefix(p.Kind, "stdinc") {
			st.Args[len(st.Args)-2] = "-lint=warn"
		}
	}
	if len(names) == 0 {
		for i, n := 0, r.Intn(5); i < n; i++ {
			st.Chunks = append(st.Chunks, 1+r.Intn(40))
		}
	}
	st.Files = spellAll(r, names)
	// inject errors into what the run does
	dry := rn.Exec(NewFS(t), calmed(st))
	cand := injectable(dry.Events, func(e vfs.Event) bool {
		switch e.Op {
		case "open", "read", "create", "write", "close":
			return e.Path != "/dev/stderr" && (underTree(e.Path) || underTmp(e.Path) || strings.HasPrefix(e.Path, "/dev/std"))
		case "exec":
			return true
		}
		return false
	})
	for i, n := 0, r.Intn(4); i < n && len(cand) > 0; i++ {
		st.Faults = append(st.Faults, genErrFault(r, dry.Events, cand[r.Intn(len(cand))]))
	}
	if r.P(0.2) && len(names) > 0 {
		f, _ := breakFile(r, t, names[r.Intn(len(names))])
		st.Faults = append(st.Faults, f...)
	}
	p.Steps = []Step{st}
	return p
}

func runC03(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	args := strings.Join(st.Args, " ")
	fs := NewFS(p.Tree)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	if !res.Ended() {
		return nil
	}
	report := has(st.Args, "-format")
	stdin := len(st.Files) == 0
	// 1. what failed
	type fail struct{ path, what string }
	var internal []fail
	check := func(pth string, ops ...string) {
		for _, e := range res.Events {
			if e.Path == pth && e.Err != "" && e.Err != "EOF" && e.Pid == 0 {
				for _, o := range ops {
					if o == e.Op {
						internal = append(internal, fail{pth, e.Op + " " + e.Err})
					}
				}
			}
		}
	}
	for _, f := range st.Files {
		a := abs(st.Cwd, f)
		check(a, "open", "read", "create", "write")
		// a failing close matters after writing only
		wrote := false
		for _, e := range res.Events {
			if e.Path == a && e.Op == "write" {
				wrote = true
			}
			if e.Path == a && e.Op == "close" && e.Err != "" && wrote {
				internal = append(internal, fail{a, "close " + e.Err})
			}
		}
	}
	var tmpFail, stdFail, execFail bool
	for _, e := range res.Events {
		if e.Err == "" || e.Err == "EOF" || e.Pid != 0 {
			continue
		}
		switch {
		case underTmp(e.Path) && (e.Op == "create" || e.Op == "write" || e.Op == "close"):
			tmpFail = true
		case e.Path == "/dev/stdout" && e.Op == "write", e.Path == "/dev/stdin" && e.Op == "read":
			stdFail = true
		case e.Op == "exec":
			execFail = true
		}
	}
	if len(internal) > 0 && res.Exit != 3 {
		return viol("status-io", "buildifier %s: %s on %s failed, but the exit status is %d", args, internal[0].what, internal[0].path, res.Exit)
	}
	if (tmpFail || stdFail || execFail) && res.Exit == 0 {
		return viol("status-io0", "buildifier %s: an operation on a temporary file, a standard stream or the diff program failed, but the exit status is 0", args)
	}
	// other failed calls on a file may be taken for a failure to read it, or not matter
	soft := false
	softFile := map[string]bool{}
	for _, f := range st.Files {
		if a := abs(st.Cwd, f); softFailed(res, a) {
			soft, softFile[a] = true, true
		}
	}
	anyIO := soft || len(internal) > 0 || tmpFail || stdFail || execFail
	// 2. what a fault-free run on each file says
	want := 0
	type one struct {
		invalid, unformatted bool
	}
	singles := map[string]one{}
	files := st.Files
	if stdin {
		files = []string{""}
	}
	for _, f := range files {
		s := only(st)
		if f != "" {
			s = only(st, f)
		}
		var ar []string
		for _, a := range s.Args {
			if !strings.HasPrefix(a, "-format") {
				ar = append(ar, a)
			}
		}
		s.Args = ar
		ref := rn.Exec(NewFS(p.Tree), s)
		if !refOK(ref) {
			return nil
		}
		if ref.Exit != 0 {
			want = ref.Exit
		}
		// whether the file is well formatted is said by what formatting it leaves
		s.Args = nil
		for _, a := range st.Args {
			if strings.HasPrefix(a, "-type") {
				s.Args = append(s.Args, a)
			}
		}
		cs := s
		cs.Args = append([]string{"-mode=check"}, s.Args...)
		ref = rn.Exec(NewFS(p.Tree), cs)
		if !refOK(ref) {
			return nil
		}
		invalid := ref.Exit == 1 || ref.Exit == 3
		one1 := NewFS(p.Tree)
		ref = rn.Exec(one1, s)
		if !refOK(ref) {
			return nil
		}
		if !invalid && ref.Exit == 3 {
			return nil // it can't be written
		}
		unformatted := ref.Exit != 0
		if f == "" {
			unformatted = unformatted || ref.Stdout != st.Stdin
		} else if pth, _ := diffTree(NewFS(p.Tree).Snapshot("/"), one1.Snapshot("/"), nil); pth != "" {
			unformatted = true
		}
		if has(st.Args, "-mode=check") && unformatted {
			want = 4
		}
		if has(st.Args, "-lint=warn") {
			s.Args = append(s.Args, "-mode=check", "-lint=warn", singleFileWarnings, "-format=json")
			ref = rn.Exec(NewFS(p.Tree), s)
			if refOK(ref) && !strings.Contains(ref.Stdout, `"warnings":[]`) {
				want = 4
			}
		}
		singles[abs(st.Cwd, f)] = one{invalid: invalid, unformatted: unformatted}
	}
	if p.Kind == "fix" && res.Exit == 0 {
		// every file was written: it is what a filter of the same name makes of its contents
		after := fs.Snapshot("/")
		seen := map[string]bool{}
		for _, f := range st.Files {
			a := abs(st.Cwd, f)
			nd, ok := p.Tree[a]
			if !ok || nd.Kind != "" && nd.Kind != "file" || seen[a] {
				continue
			}
			seen[a] = true
			s := calmed(st)
			s.Args = append([]string{"-path=" + f}, st.Args...)
			s.Files, s.Stdin = nil, nd.Data
			ref := rn.Exec(NewFS(p.Tree), s)
			if !refOK(ref) || ref.Exit != 0 {
				continue
			}
			if after[a].Data != ref.Stdout {
				return viol("unwritten", "buildifier %s exits with 0, but %s is %s, while the filter makes it %s", args, f, quoteShort(after[a].Data), quoteShort(ref.Stdout))
			}
		}
	}
	if !report {
		if res.Exit == 0 && want != 0 {
			return viol("status-0", "buildifier %s exits with 0, but a single run ends with %d", args, want)
		}
		if res.Exit != 0 && want == 0 && !anyIO {
			return viol("status-x", "buildifier %s exits with %d although nothing failed and single runs end with 0", args, res.Exit)
		}
		return nil
	}
	// 3. the report
	if !has(st.Args, "-format=json") || stdFail {
		return nil
	}
	var rep struct {
		Success bool
		Files   []struct {
			Filename         string
			Formatted, Valid bool
			Warnings         []interface{}
		}
	}
	if err := json.Unmarshal([]byte(res.Stdout), &rep); err != nil {
		return viol("report-json", "the report is not JSON: %v: %s", err, quoteShort(res.Stdout))
	}
	ioFailed := map[string]bool{}
	for _, f := range internal {
		ioFailed[f.path] = true
	}
	bad := len(internal) > 0
	for _, s := range singles {
		bad = bad || s.invalid || s.unformatted
	}
	if rep.Success && bad {
		return viol("report-success", "the report says success although a file could not be read or parsed or is not formatted: %s", quoteShort(res.Stdout))
	}
	for _, f := range rep.Files {
		a := abs(st.Cwd, f.Filename)
		s, ok := singles[a]
		if stdin {
			s, ok = singles[abs(st.Cwd, "")]
		}
		if !ok {
			continue
		}
		if (s.invalid || ioFailed[a]) && (f.Valid || f.Formatted) {
			return viol("report-valid", "the report says valid=%v formatted=%v for %s, which could not be read or parsed", f.Valid, f.Formatted, f.Filename)
		}
		if s.unformatted && f.Formatted {
			return viol("report-formatted", "the report says %s is formatted, which it is not", f.Filename)
		}
		if len(f.Warnings) > 0 && rep.Success {
			return viol("report-success", "the report says success although %s has warnings", f.Filename)
		}
		if !s.unformatted && !ioFailed[a] && !softFile[a] && (!f.Valid || !f.Formatted) {
			return viol("report-clean", "the report says valid=%v formatted=%v for %s, which is well formatted", f.Valid, f.Formatted, f.Filename)
		}
	}
	if !anyIO {
		if len(rep.Files) != len(files) {
			return viol("report-files", "the report lists %d of %d files", len(rep.Files), len(files))
		}
	}
	return nil
}

func genC26(r *simrt.Rng, rn *Runner) *Plan {
	t, names := genBfTree(r, rn, 0.1)
	if most := []int{40, 300}[r.Intn(40)/39]; len(names) > most {
		names = names[:most]
	}
	for _, n := range names {
		if r.P(0.3) {
			nd := t[n]
			nd.Data = genText(r, n, 0)
			t[n] = nd
		}
	}
	st := Step{Tool: "buildifier", Sched: genSched(r), Args: []string{pick(r, "-mode=diff", "-d")}}
	p := &Plan{Tree: t}
	p.Kind = pick(r, "single", "single", "multi", "env", "stdin")
	switch p.Kind {
	case "single":
		if r.P(0.5) {
			st.Args = append(st.Args, "-diff_command="+pick(r, "diff", "diff -u", "mydiff"))
		}
	case "multi":
		st.Args = append(st.Args, "-diff_command=tkdiff", "-multi_diff")
	case "env":
		st.Env = map[string]string{"BUILDIFIER_DIFF": pick(r, "mydiff", "tkdiff"), "BUILDIFIER_MULTIDIFF": pick(r, "0", "1")}
	case "stdin":
		st.Stdin = genBuild(r, 0.5)
		names = nil
		if r.P(0.3) {
			st.Args = append(st.Args, "-diff_command=tkdiff", "-multi_diff")
		}
	}
	if r.P(0.3) {
		st.Args = append(st.Args, "-v")
	}
	for i := len(names) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		names[i], names[j] = names[j], names[i]
	}
	st.Files = spellAll(r, names)
	if r.P(0.5) && len(names) > 0 {
		for i := 0; i < 1+r.Intn(2); i++ {
			f, how := breakFile(r, t, names[r.Intn(len(names))])
			if how != "create" && how != "write" {
				st.Faults = append(st.Faults, f...)
			}
		}
	}
	if r.P(0.25) {
		f := vfs.Fault{Op: "exec", Nth: 1 + r.Intn(3), Kind: pick(r, "err", "exit", "killed"), N: 1 + r.Intn(3), Err: errFor(r, "exec")}
		if r.P(0.5) {
			f.Count = -1
		}
		st.Faults = append(st.Faults, f)
	}
	if r.P(0.15) {
		st.Faults = append(st.Faults, vfs.Fault{Op: pick(r, "create", "write", "close"), Path: "", Nth: 1 + r.Intn(3), Kind: "err", Err: "ENOSPC"})
	} else if r.P(0.3) {
		dry := rn.Exec(NewFS(t), calmed(st))
		cand := injectable(dry.Events, func(e vfs.Event) bool {
			return underTmp(e.Path) && e.Pid == 0 && (e.Op == "create" || e.Op == "write" || e.Op == "close")
		})
		if len(cand) > 0 {
			st.Faults = append(st.Faults, genErrFault(r, dry.Events, cand[r.Intn(len(cand))]))
		}
	}
	p.Steps = []Step{st}
	return p
}

func runC26(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	fs := NewFS(p.Tree)
	before := fs.Snapshot("/w")
	var calls []DiffCall
	rn2 := *rn
	rn2.Progs = func(w *vfs.World) { rn2.W = w }
	res := rn2.Exec(fs, st)
	rn.Trace = rn2.Trace
	calls, _ = rn2.W.Ext["diff"].([]DiffCall)
	if v := noEnd(res); v != nil {
		return v
	}
	if !res.Ended() {
		return nil
	}
	if pth, d := diffTree(before, fs.Snapshot("/w"), nil); pth != "" {
		return viol("modified", "diff mode modified the tree: %s %s", pth, d)
	}
	// what each file should look like
	multi := has(st.Args, "-multi_diff") || st.Env["BUILDIFIER_MULTIDIFF"] == "1"
	type exp struct {
		name, old, new string
		soft           bool
	}
	var exps []exp
	tmpFail, execFail := false, false
	for _, e := range res.Events {
		if e.Pid == 0 && e.Err != "" && e.Err != "EOF" && (e.Op == "create" || e.Op == "write" || e.Op == "close") && (underTmp(e.Path)) {
			tmpFail = true
		}
		if e.Op == "exec" && (e.Err != "" || e.Flt != "") {
			execFail = true
		}
		if e.Op == "exec" && e.Err != "" && res.Exit == 0 {
			return viol("status", "the diff program could not be started (%s), but the exit status is 0", e.Err)
		}
	}
	files := st.Files
	if len(files) == 0 {
		files = []string{""}
	}
	for _, f := range files {
		a := abs(st.Cwd, f)
		if f != "" && failedOps(res, a, "open", "read") {
			continue
		}
		old := st.Stdin
		if f != "" {
			old = before[a].Data
		}
		// the formatted text, from a stdin filter run under the same name
		s := Step{Tool: "buildifier", Stdin: old, Sched: calm()}
		if f != "" {
			s.Args = append(s.Args, "-path="+f)
		}
		ref := rn.Exec(NewFS(p.Tree), s)
		if !refOK(ref) || ref.Exit != 0 {
			continue
		}
		if ref.Stdout != old {
			exps = append(exps, exp{f, old, ref.Stdout, f != "" && softFailed(res, a)})
		}
	}
	// every call is about an expected file, in order, once
	k := 0
	for _, c := range calls {
		found := false
		for k < len(exps) && !found {
			e := exps[k]
			k++
			if e.name == c.Args[0] || e.name == "" && underTmp(c.Args[0]) {
				found = true
				if !c.OldOK || !c.NewOK {
					return viol("content", "the diff program was given %v, of which it could not read a file", c.Args)
				}
				if c.Old != e.old || c.New != e.new {
					return viol("content", "diff of %s: the diff program saw %s and %s, not the original and the formatted text %s", e.name, quoteShort(c.Old), quoteShort(c.New), quoteShort(e.new))
				}
				if !underTmp(c.Args[1]) {
					return viol("place", "diff of %s: the formatted text is in %s, not in the temporary directory", e.name, c.Args[1])
				}
			}
			if !found && !tmpFail && !execFail && !e.soft {
				return viol("missing", "no diff of %s was shown before the diff of %s", e.name, c.Args[0])
			}
		}
		if !found {
			return viol("extra", "an unexpected diff of %v was shown", c.Args)
		}
	}
	for k < len(exps) && exps[k].soft {
		k++
	}
	if !tmpFail && !execFail && k < len(exps) {
		return viol("missing", "no diff of %s was shown", exps[k].name)
	}
	n := 0
	for _, e := range res.Events {
		if e.Op == "exec" && e.Err == "" {
			n++
		}
	}
	if multi && n > 1 {
		return viol("multi", "the multi-pair diff program was started %d times", n)
	}
	if len(calls) > 0 {
		rn.Probe("diffs shown")
	}
	return nil
}

// genC20 makes directory trees.
func genC20(r *simrt.Rng, rn *Runner) *Plan {
	t := Tree{}
	var dirs []string
	nd := 1 + r.Intn(10)
	dirs = append(dirs, "/w/r0")
	for i := 0; i < nd; i++ {
		d := dirs[r.Intn(len(dirs))] + "/" + pick(r, "a", "b", "c", "sub", ".git", ".hidden", "BUILD", "x.bzl", "WORKSPACE", "git", "node_modules")
		if _, ok := t[d]; ok {
			continue
		}
		if r.P(0.3) {
			t[d] = vfs.Node{Kind: "dir"}
		}
		dirs = append(dirs, d)
	}
	nf := 1 + r.Intn(15)
	if r.P(0.1) {
		nf = 100 + r.Intn(100)
	}
	for i := 0; i < nf; i++ {
		d := dirs[r.Intn(len(dirs))]
		b := pick(r, "BUILD", "BUILD.bazel", "x.bzl", "y.sky", "z.star", "WORKSPACE", "WORKSPACE.bazel", "MODULE.bazel", "BUILD.oss", "WORKSPACE.oss", "BUILD.foo.bazel", "build", "BUILD.txt", "a.bazel", "xBUILD", "a.py", "README.md", "MODULE.bazel.lock", "a.bzl.orig", "REPO.bazel", "MODULE.foo.bazel")
		if nf > 50 {
			b = fmt.Sprintf("f%d.bzl", i)
		}
		p := d + "/" + b
		if _, ok := t[p]; ok {
			continue
		}
		isDir := false
		for _, x := range dirs {
			if x == p || strings.HasPrefix(x, p+"/") {
				isDir = true
			}
		}
		if isDir {
			continue
		}
		switch {
		case r.P(0.07):
			t[p] = vfs.Node{Kind: "link", Target: pick(r, "/w/r0", "/w/other.bzl", "/nowhere", ".", b)}
		default:
			t[p] = vfs.Node{Data: "x  =" + fmt.Sprint(r.Intn(9)) + "\n"}
		}
	}
	t["/w/other.bzl"] = vfs.Node{Data: "y  =  1\n"}
	t["/w/r1/BUILD"] = vfs.Node{Data: "z=2\n"}
	st := Step{Tool: "buildifier", Sched: genSched(r)}
	p := &Plan{Tree: t, Kind: pick(r, "fix", "check", "check")}
	if p.Kind == "check" {
		st.Args = append(st.Args, "-mode=check")
	}
	st.Args = append(st.Args, "-r", "-v")
	roots := []string{"/w/r0"}
	if r.P(0.3) {
		roots = append(roots, "/w/r1")
	}
	if r.P(0.2) {
		roots = append(roots, "/w/other.bzl")
	}
	if r.P(0.1) {
		roots = append([]string{"/w/missing"}, roots...)
	}
	st.Files = spellAll(r, roots)
	if r.P(0.6) {
		dry := rn.Exec(NewFS(t), calmed(st))
		cand := injectable(dry.Events, func(e vfs.Event) bool {
			return (strings.HasPrefix(e.Path, "/w/r0") || strings.HasPrefix(e.Path, "/w/r1")) && (e.Op == "stat" || e.Op == "lstat" || e.Op == "open" || e.Op == "readdir")
		})
		// mostly those of the expansion
		var exp []int
		for _, i := range cand {
			op := dry.Events[i].Op
			if op == "readdir" || op == "lstat" || op == "open" && p.Tree[dry.Events[i].Path].Kind == "dir" {
				exp = append(exp, i)
			}
		}
		if len(exp) > 0 && r.P(0.8) {
			cand = exp
		}
		for i := 0; i < 1+r.Intn(2) && len(cand) > 0; i++ {
			fl := genErrFault(r, dry.Events, cand[r.Intn(len(cand))])
			switch {
			case r.P(0.15) && fl.Kind == "err":
				fl.Err = "ENOENT"
			case r.P(0.15) && (fl.Op == "lstat" || fl.Op == "open"):
				fl = vfs.Fault{Op: fl.Op, Path: fl.Path, Nth: fl.Nth, Kind: "vanish"}
			}
			st.Faults = append(st.Faults, fl)
		}
		if r.P(0.2) {
			d := dirs[r.Intn(len(dirs))]
			t[d] = vfs.Node{Kind: "dir", Mode: []uint32{0300, 0500, 0100, 0400, 0}[r.Intn(5)] | 0}
		}
	}
	p.Steps = []Step{st}
	return p
}

// starlarkName is the documented set of names.
func starlarkName(b string) bool {
	for _, s := range []string{".bzl", ".sky", ".star"} {
		if strings.HasSuffix(b, s) {
			return true
		}
	}
	if strings.HasSuffix(b, ".bazel") || strings.HasSuffix(b, ".oss") {
		return strings.HasPrefix(b, "BUILD.") || strings.HasPrefix(b, "WORKSPACE.") || strings.HasPrefix(b, "MODULE.")
	}
	return b == "BUILD" || b == "WORKSPACE"
}

func runC20(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	if len(st.Files) == 0 {
		return nil
	}
	fs := NewFS(p.Tree)
	before := fs.Snapshot("/w")
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	if !res.Ended() {
		return nil
	}
	// the files below the roots
	var want []string
	missing := false
	for _, f := range st.Files {
		root := abs(st.Cwd, f)
		n, ok := before[root]
		if !ok {
			missing = true
			continue
		}
		if n.Kind != "dir" {
			want = append(want, root)
			continue
		}
		for _, q := range vfs.Paths(before) {
			if !strings.HasPrefix(q, root+"/") || before[q].Kind == "dir" {
				continue
			}
			rel := strings.Split(strings.TrimPrefix(q, root+"/"), "/")
			if !starlarkName(rel[len(rel)-1]) {
				continue
			}
			skip := false
			for _, c := range rel[:len(rel)-1] {
				skip = skip || c == ".git"
			}
			if !skip {
				want = append(want, q)
			}
		}
	}
	wantSet := map[string]bool{}
	for _, q := range want {
		wantSet[q] = true
	}
	// reads of sources are opens of non-directories
	opened := map[string]int{}
	listFail := ""
	for _, e := range res.Events {
		if e.Pid != 0 {
			continue
		}
		if e.Op == "open" && e.Path != "/dev/null" && before[e.Path].Kind == "" && !strings.Contains(e.Path, ".buildifier.json") {
			if _, ok := before[e.Path]; ok {
				opened[e.Path]++
			}
		}
		if e.Err != "" && e.Err != "EOF" && before[e.Path].Kind == "dir" && (e.Op == "open" || e.Op == "readdir") {
			listFail = e.Op + " " + e.Path + " " + e.Err
		}
		if e.Err != "" && e.Op == "lstat" && (before[e.Path].Kind == "" || before[e.Path].Kind == "dir" || before[e.Path].Kind == "link") {
			listFail = e.Op + " " + e.Path + " " + e.Err
		}
	}
	_ = missing
	processed := func(q string) bool {
		// a link is processed under its own name: the open shows its target
		return opened[q] > 0
	}
	got := fs.Snapshot("/w")
	if listFail != "" {
		rn.Probe("listing failed")
		all := true
		for _, q := range want {
			if before[q].Kind == "link" {
				q = NewFS(p.Tree).Real(q)
			}
			all = all && processed(q)
		}
		// a failure that keeps no file from being processed need not end the run
		if res.Exit != 3 && !all {
			return viol("status", "%s failed during the expansion, but the exit status is %d", listFail, res.Exit)
		}
		return nil
	}
	// nothing else
	targets := map[string]bool{}
	for q := range wantSet {
		if before[q].Kind == "link" {
			_, _, _, real, _ := peekReal(NewFS(p.Tree), q)
			targets[real] = true
		}
	}
	for q := range opened {
		if !wantSet[q] && !targets[q] {
			return viol("extra", "%s was processed, which is not a source below the given directories", q)
		}
	}
	for q, n := range before {
		if got[q] != n && !wantSet[q] && !targets[q] {
			return viol("extra", "%s was changed, which is not a source below the given directories", q)
		}
	}
	if missing {
		if res.Exit != 3 {
			return viol("status", "an argument does not exist, but the exit status is %d", res.Exit)
		}
		return nil
	}
	anyFault := res.AnyFired()
	for _, q := range want {
		if before[q].Kind == "link" {
			continue
		}
		if !processed(q) && !anyFault {
			denied := false
			for d := q; d != "/"; d = d[:strings.LastIndex(d, "/")] {
				if n := before[d]; n.Kind == "dir" && n.Mode != 0755 {
					denied = true
				}
				if !strings.Contains(d[1:], "/") {
					break
				}
			}
			if !denied {
				return viol("missed", "%s was not processed (exit status %d)", q, res.Exit)
			}
		}
	}
	// the same run in the reference world gives the same messages in the same order
	if !anyFault {
		rfs := NewFS(p.Tree)
		ref := rn.Exec(rfs, calmed(st))
		if refOK(ref) && (ref.Stderr != res.Stderr || ref.Stdout != res.Stdout || ref.Exit != res.Exit) {
			return viol("order", "messages depend on timing: %s, but %s", quoteShort(res.Stderr), quoteShort(ref.Stderr))
		}
		if pth, d := diffTree(rfs.Snapshot("/w"), got, nil); pth != "" && refOK(ref) {
			return viol("tree", "the result depends on timing: %s %s", pth, d)
		}
	}
	return nil
}

func peekReal(fs *vfs.FS, p string) (a, b, c interface{}, real string, err error) {
	return nil, nil, nil, fs.Real(p), nil
}

// ---- C19

const tablesJSON = `{"IsLabelArg":{"zsrcs":true},"IsListArg":{"zlist":true},"IsSortableListArg":{"deps":true,"zsort":true},"NamePriority":{"name":-99,"deps":-5},"StripLabelLeadingSlashes":false,"ShortenAbsoluteLabelsToRelative":false}`

func genC19(r *simrt.Rng, rn *Runner) *Plan {
	t, names := genFiles(r, 1+r.Intn(4), 0)
	p := &Plan{Tree: t, S: map[string]string{}}
	p.Kind = pick(r, "config", "config", "configenv", "configroot", "tables", "add_tables", "bztables", "bzadd", "cfgtables")
	st := Step{Tool: "buildifier", Sched: genSched(r)}
	cfg := pick(r,
		`{"type":"build","mode":"fix","lint":"fix","warningsList":["load","module-docstring"]}`,
		`{"mode":"check","lint":"warn","warnings":"all"}`,
		`{"type":"auto","mode":"print_if_changed"}`,
		`{"mode":"diff","verbose":true}`)
	file := "/w/conf/cfg.json"
	data := cfg
	switch p.Kind {
	case "config":
		st.Args = append(st.Args, "-config="+spell(r, file))
	case "configenv":
		st.Env = map[string]string{"BUILDIFIER_CONFIG": file}
	case "configroot":
		file = "/w/.buildifier.json"
		st.Cwd = pick(r, "/w", "/w/a/b")
		t["/w/a/b"] = vfs.Node{Kind: "dir"}
	case "tables":
		data = tablesJSON
		st.Args = append(st.Args, "-tables="+spell(r, file))
	case "add_tables":
		data = tablesJSON
		st.Args = append(st.Args, "-add_tables="+spell(r, file))
	case "cfgtables":
		data = tablesJSON
		c := "/w/c2.json"
		t[c] = vfs.Node{Data: `{"` + pick(r, "tables", "addTables") + `":"` + file + `"}`}
		st.Args = append(st.Args, "-config="+c)
	case "bztables", "bzadd":
		data = tablesJSON
		st.Tool = "buildozer"
		fl := "-tables="
		if p.Kind == "bzadd" {
			fl = "-add_tables="
		}
		st.Args = append(st.Args, fl+spell(r, file), pick(r, "set foo bar", "new cc_library zzz", "print name"))
		t["/w/BUILD"] = vfs.Node{Data: genBuild(r, 0.4)}
		names = []string{"/w/BUILD"}
	}
	if st.Tool == "buildifier" {
		one := r.P(0.5) || strings.Contains(cfg, "print_if")
		if one {
			names = names[:1]
		}
		st.Files = spellAll(r, names)
		if st.Cwd == "/w/a/b" {
			st.Files = nil
			for _, n := range names {
				st.Files = append(st.Files, n)
			}
		}
	} else {
		st.Files = []string{"//:" + pick(r, "all", "%cc_library", "__pkg__")}
		t["/w/WORKSPACE"] = vfs.Node{Data: "workspace(name = \"ws\")\n"}
	}
	how := pick(r, "missing", "trunc", "trunc", "trunc", "malformed", "unreadable", "dir", "open", "read", "read", "partial", "partial", "fine", "stat", "stat", "dangling")
	p.S["how"] = how
	p.S["file"] = file
	p.S["data"] = data
	n := vfs.Node{Data: data}
	switch how {
	case "missing":
		n.Data = ""
		if p.Kind == "configroot" {
			how = "fine"
			p.S["how"] = "fine"
			n.Data = data
		}
	case "trunc":
		n.Data = data[:r.Intn(len(data))]
	case "malformed":
		n.Data = pick(r, data+"}", "["+data+"]", data[1:], strings.Replace(data, ":", "", 1), strings.Replace(data, ",", "", 1), "\"x\"", "{\"mode\":3,\"IsLabelArg\":7}", "{\"warningsList\":{},\"NamePriority\":\"\"}", data+"x", "")
		if n.Data == data {
			n.Data = "?"
		}
	case "unreadable":
		n.Mode = 0200
	case "dir":
		n = vfs.Node{Kind: "dir"}
	case "dangling":
		n = vfs.Node{Kind: "link", Target: "/w/nowhere"}
	case "open":
		st.Faults = append(st.Faults, vfs.Fault{Op: "open", Path: file, Nth: 1, Count: -1, Kind: "err", Err: errFor(r, "open")})
	case "read":
		st.Faults = append(st.Faults, vfs.Fault{Op: "read", Path: file, Nth: 1 + r.Intn(2), Count: -1, Kind: "err", Err: errFor(r, "read")})
	case "partial":
		st.Faults = append(st.Faults, vfs.Fault{Op: "read", Path: file, Nth: 1, Count: -1, Kind: "partial", N: r.Intn(len(data)), Err: errFor(r, "read")})
	case "stat":
		st.Faults = append(st.Faults, vfs.Fault{Op: pick(r, "stat", "lstat", "stat", "fstat"), Path: file, Nth: 1, Count: -1, Kind: "err", Err: errFor(r, "stat")})
	}
	if p.S["how"] != "missing" {
		t[file] = n
	}
	p.Steps = []Step{st}
	return p
}

func runC19(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	how, file := p.S["how"], p.S["file"]
	fs := NewFS(p.Tree)
	before := fs.Snapshot("/w")
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	if !res.Ended() {
		return nil
	}
	// was the settings file used successfully, i.e. read to its end with the right content?
	good := how == "fine" && p.Tree[file].Data == p.S["data"]
	if (how == "stat" || how == "open" || how == "read" || how == "partial") && !res.AnyFired() {
		good = true
	}
	if how == "stat" || how == "read" || how == "partial" {
		// a failure that does not keep the tool from using the complete file is fine, if the result
		// is that of a fault-free run
		rfs := NewFS(p.Tree)
		ref := rn.Exec(rfs, calmed(st))
		pth, _ := diffTree(rfs.Snapshot("/w"), fs.Snapshot("/w"), nil)
		// the tool must have read the file, unless it stopped
		read := false
		for _, e := range res.Events {
			if e.Op == "read" && e.Path == file && e.Err == "" {
				read = true
			}
		}
		if read && pth == "" && ref.Exit == res.Exit && ref.Stdout == res.Stdout && how == "stat" {
			good = true
		}
	}
	if good {
		return nil
	}
	if how == "dir" && (p.Kind == "configroot") {
		return nil // a directory of that name is no configuration file
	}
	if how == "dangling" && p.Kind == "configroot" {
		return nil
	}
	if how == "malformed" || how == "trunc" {
		// text that happens to be valid settings
		if usableSettings(p.Kind, p.Tree[file].Data) {
			return nil
		}
	}
	what := p.Kind + " " + how
	if res.Exit == 0 {
		return viol("silent:"+p.Kind+":"+howClass(how), "%s: the settings file %s cannot be used, but the exit status is 0", what, file)
	}
	for _, e := range res.Events {
		if e.Pid == 0 && (e.Op == "open" || e.Op == "create") && underTree(e.Path) && e.Path != file && e.Err == "" {
			if strings.HasSuffix(e.Path, ".json") {
				continue
			}
			return viol("goes-on:"+p.Kind+":"+howClass(how), "%s: the settings file %s cannot be used, but %s is opened", what, file, e.Path)
		}
	}
	if pth, d := diffTree(before, fs.Snapshot("/w"), nil); pth != "" {
		return viol("modified", "%s: the settings file %s cannot be used, but %s %s", what, file, pth, d)
	}
	if res.Stdout != "" {
		return viol("output", "%s: the settings file %s cannot be used, but there is output %s", what, file, quoteShort(res.Stdout))
	}
	return nil
}

func howClass(how string) string {
	switch how {
	case "stat":
		return "stat"
	}
	return "content"
}

func usableSettings(kind, data string) bool {
	if strings.HasPrefix(kind, "config") {
		var c struct {
			Type, Format, Mode, Lint, Warnings, DiffCommand, Tables, AddTables, Path *string
			DiffMode, Recursive, Verbose, MultiDiff                                  *bool
			WarningsList                                                             []string
		}
		return json.Unmarshal([]byte(data), &c) == nil
	}
	var t struct {
		IsLabelArg, LabelDenylist, IsListArg, IsSortableListArg, SortableDenylist, SortableAllowlist map[string]bool
		NamePriority                                                                                 map[string]int
		StripLabelLeadingSlashes, ShortenAbsoluteLabelsToRelative                                    *bool
	}
	return json.Unmarshal([]byte(data), &t) == nil
}
