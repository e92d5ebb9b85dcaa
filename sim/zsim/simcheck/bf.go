package main

import (
	"fmt"
	"path"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

const cwd0 = "/w"

func abs(cwd, f string) string {
	if cwd == "" {
		cwd = cwd0
	}
	if strings.HasPrefix(f, "/") {
		return path.Clean(f)
	}
	return path.Join(cwd, f)
}

// spell writes a path the way a user might.
func spell(r *simrt.Rng, p string) string {
	switch r.Intn(5) {
	case 0:
		return p
	case 1:
		return "./" + strings.TrimPrefix(p, "/w/")
	}
	if p = strings.TrimPrefix(p, "/w/"); strings.HasPrefix(p, "-") {
		return "./" + p
	}
	return p
}

// cloneFS copies a machine's file system.
func cloneFS(fs *vfs.FS) *vfs.FS { return NewFS(fs.Snapshot("/")) }

// calmed is a step without faults under the reference scheduler.
func calmed(st Step) Step {
	st.Faults = nil
	st.Sched = calm()
	st.Chunks = nil
	st.Disk = 0
	return st
}

// only is a calmed step for some of the files.
func only(st Step, files ...string) Step {
	st = calmed(st)
	st.Files = files
	return st
}

// noEnd reports a process that did not end by itself though it was neither killed nor signalled.
func noEnd(r *Result) *Violation {
	switch {
	case r.Panic != "":
		return viol("panic", "%s panics: %s at %s", strings.Join(append([]string{r.step.Tool}, r.step.Args...), " "), r.Panic, r.PanicAt)
	case r.Deadlock != "":
		return viol("deadlock", "%s %v deadlocks: %s", r.step.Tool, r.step.Args, r.Deadlock)
	case r.Hang != "":
		return viol("hang", "%s %v does not end: %s", r.step.Tool, r.step.Args, r.Hang)
	}
	return nil
}

// refOK says whether a reference run is usable; a reference that does not end is a matter of C21.
func refOK(r *Result) bool { return r.Ended() }

// mutated lists the paths a run changed or tried to change, without the temporary directory.
func mutated(r *Result) map[string]bool {
	out := map[string]bool{}
	for _, e := range r.Events {
		if e.Mut && e.Pid == 0 && !underTmp(e.Path) && e.Path != "/dev/null" {
			out[e.Path] = true
			if e.Op == "rename" || e.Op == "link" {
				out[e.To] = true
			}
		}
	}
	return out
}

// readFailed reports whether reading the file failed for the tool: the last attempt to open or read
// it ended in an error.
func failedOps(r *Result, p string, ops ...string) bool {
	for _, e := range r.Events {
		if e.Path != p || e.Err == "" || e.Err == "EOF" || e.Pid != 0 {
			continue
		}
		for _, o := range ops {
			if e.Op == o {
				return true
			}
		}
	}
	return false
}

// softFailed reports whether any call on the file failed, even one the tool may do without.
func softFailed(r *Result, p string) bool {
	for _, e := range r.Events {
		if e.Path == p && e.Err != "" && e.Err != "EOF" && e.Pid == 0 {
			return true
		}
	}
	return false
}

func lines(s string) []string {
	if s == "" {
		return nil
	}
	ls := strings.SplitAfter(s, "\n")
	if ls[len(ls)-1] == "" {
		ls = ls[:len(ls)-1]
	}
	return ls
}

// subsequence reports the first line of want that does not follow in got.
func subsequence(want, got []string) string {
	i := 0
	for _, l := range want {
		for i < len(got) && got[i] != l {
			i++
		}
		if i == len(got) {
			return l
		}
		i++
	}
	return ""
}

// multiset compares two lists without order.
func multiset(a, b []string) string {
	m := map[string]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
	}
	for _, x := range append(append([]string(nil), a...), b...) {
		if m[x] > 0 {
			return "missing " + quoteShort(x)
		}
		if m[x] < 0 {
			return "extra " + quoteShort(x)
		}
	}
	return ""
}

// singleFileWarnings need no other file than the linted one.
const singleFileWarnings = "-warnings=attr-cfg,attr-license,attr-non-empty,attr-single-file,bzl-visibility,confusing-name,constant-glob,ctx-actions,depset-items,depset-iteration,dict-concatenation,duplicated-name,filetype,function-docstring,function-docstring-args,function-docstring-return,integer-division,keyword-positional-params,list-append,load,module-docstring,name-conventions,native-build,native-package,no-effect,output-group,package-name,package-on-top,print,redefined-variable,repository-name,return-value,skylark-comment,string-iteration,uninitialized,unreachable,unsorted-dict-items,unused-variable,positional-args"

var bfReal = "buildifier main, config, utils, differ, build (lexer, parser, printer, rewriter), warn, wspace, tables, labels of /repo's working tree; Go's text and JSON libraries"
var bfStub = "operating system (files, processes, clock, scheduler) simulated in process; external diff programs are stand-ins"

// genBfTree draws sources with at least one file to format.
func genBfTree(r *simrt.Rng, rn *Runner, brokenP float64) (Tree, []string) {
	n := 1 + r.Intn(8)
	switch {
	case r.P(0.25):
		n = 9 + r.Intn(30)
	case r.P(0.06):
		n = 95 + r.Intn(140)
	case r.P(0.003):
		return genMany(r, brokenP)
	}
	t, names := genFiles(r, n, brokenP)
	if r.P(0.5) {
		if _, ok := t["/w/WORKSPACE"]; !ok {
			t["/w/WORKSPACE"] = vfs.Node{Data: "workspace(name = \"ws\")\n"}
		}
	}
	if r.P(0.3) {
		t["/w/a/notes.txt"] = vfs.Node{Data: "x  =1\n"}
	}
	return t, names
}

// genMany draws far more files than there are workers.
func genMany(r *simrt.Rng, brokenP float64) (Tree, []string) {
	t := Tree{}
	var names []string
	for i, n := 0, 800+r.Intn(700); i < n; i++ {
		p := fmt.Sprintf("/w/m%d/BUILD", i)
		s := pick(r, "x( name=\"a\")\n", "x(name = \"a\")\n", "y = [ 1,2 ]\n")
		if r.P(brokenP / 4) {
			s = "x(\n"
		}
		t[p] = vfs.Node{Data: s}
		names = append(names, p)
	}
	return t, names
}

func spellAll(r *simrt.Rng, names []string) []string {
	var out []string
	for _, p := range names {
		out = append(out, spell(r, p))
	}
	return out
}

func init() {
	register(&Check{
		Prop: "C01", Gen: genC01, Run: runC01, Real: bfReal, Stub: bfStub,
		Rule: "Random trees of 1 to 240 Starlark files given to one in-place run under a random schedule, read latencies and map order; compared with one run per file on the evolving tree.",
	})
	register(&Check{
		Prop: "C02", Gen: genC02, Run: runC02, Real: bfReal, Stub: bfStub,
		Rule: "Random trees in which some files cannot be opened, read, parsed or written (permissions, directories, missing, malformed, injected errors and partial transfers); compared with a fault-free run over the other files only.",
	})
}

func genC01(r *simrt.Rng, rn *Runner) *Plan {
	kind := "fix"
	switch r.Intn(9) {
	case 0, 1:
		kind = "lintfix"
	case 2:
		kind = "lintwarn"
	case 3:
		kind = "alias"
	case 4:
		return genWorkspaces(r)
	}
	broken := 0.0
	if r.P(0.5) {
		broken = 0.15
	}
	t, names := genBfTree(r, rn, broken)
	st := Step{Tool: "buildifier", Sched: genSched(r)}
	if r.P(0.6) {
		st.Args = append(st.Args, "-v")
	}
	if r.P(0.2) {
		st.Args = append(st.Args, "-type="+pick(r, "build", "bzl", "default", "workspace", "module", "auto"))
	}
	switch kind {
	case "lintfix":
		st.Args = append(st.Args, "-lint=fix")
		if r.P(0.5) {
			st.Args = append(st.Args, "-warnings=all")
		}
	case "lintwarn":
		st.Args = append(st.Args, "-lint=warn", singleFileWarnings)
	}
	st.Files = spellAll(r, names)
	if kind == "alias" {
		for i := 0; i < 1+r.Intn(3); i++ {
			p := names[r.Intn(len(names))]
			switch r.Intn(4) {
			case 0:
				// another name of the same file
				l := fmt.Sprintf("/w/l%d/%s", i, path.Base(p))
				t[l] = vfs.Node{Kind: "link", Target: pick(r, p, "../"+strings.TrimPrefix(p, "/w/"))}
				p = l
			case 1:
				// another name of its directory
				l := fmt.Sprintf("/w/ln%d", i)
				t[l] = vfs.Node{Kind: "link", Target: path.Dir(p)}
				p = l + "/" + path.Base(p)
			}
			st.Files = append(st.Files, spell(r, p))
		}
	} else if r.P(0.15) {
		// names that differ in case only are different files
		p := names[r.Intn(len(names))]
		q := "/w/" + strings.ToUpper(strings.TrimPrefix(path.Dir(p), "/w/")) + "/" + path.Base(p)
		if _, ok := t[q]; !ok && path.Dir(p) != "/w" && t[p].Kind == "" {
			t[q] = vfs.Node{Data: genText(r, q, 0.5)}
			st.Files = append(st.Files, q)
		}
	}
	// files in the order a shell or a tool may give them
	for i := len(st.Files) - 1; i > 0 && r.P(0.9); i-- {
		j := r.Intn(i + 1)
		st.Files[i], st.Files[j] = st.Files[j], st.Files[i]
	}
	return &Plan{Kind: kind, Tree: t, Steps: []Step{st}}
}

// genWorkspaces lints files of several workspaces, whose modules rename repositories differently, in one run.
func genWorkspaces(r *simrt.Rng) *Plan {
	t := Tree{}
	var names []string
	dirs := []string{"/w", "/w/n1", "/w/n1/deep", "/w/n2", "/w/third"}
	for i, d := range dirs {
		if i > 0 && r.P(0.3) {
			continue
		}
		t[d+"/"+pick(r, "WORKSPACE", "MODULE.bazel", "WORKSPACE.bazel", "REPO.bazel")] = vfs.Node{}
		m := ""
		for _, x := range c17Modules {
			if r.P(0.6) {
				m += fmt.Sprintf("bazel_dep(name = %q%s)\n", x, pick(r, "", ", repo_name = \"my_"+x+"\"", fmt.Sprintf(", repo_name = \"r%d_%s\"", i, x)))
			}
		}
		if r.P(0.8) {
			t[d+"/MODULE.bazel"] = vfs.Node{Data: m}
		}
		for j, n := 0, 1+r.Intn(3); j < n; j++ {
			p := fmt.Sprintf("%s/p%d/%s", d, j, pick(r, "BUILD", "BUILD.bazel", "x.bzl"))
			s := ""
			if strings.HasSuffix(p, ".bzl") {
				for k, n := 0, 1+r.Intn(3); k < n; k++ {
					s += fmt.Sprintf("def f%d(name):\n    native.%s(name = name)\n", k, pick(r, "cc_library", "java_library", "py_binary", "proto_library", "sh_test", "android_binary"))
				}
			} else {
				for k, n := 0, 1+r.Intn(4); k < n; k++ {
					s += fmt.Sprintf("%s(name = \"x%d\")\n", pick(r, "cc_library", "java_library", "py_binary", "proto_library", "sh_test", "android_binary", "java_proto_library"), k)
				}
			}
			if r.P(0.2) {
				s += genLint(r, strings.HasSuffix(p, ".bzl"))
			}
			t[p] = vfs.Node{Data: s}
			names = append(names, p)
		}
	}
	st := Step{Tool: "buildifier", Sched: genSched(r), Args: []string{"-lint=" + pick(r, "fix", "fix", "warn"), "-warnings=" + pick(r, "all", "native-cc-library,native-java-library,native-py,native-proto,native-sh-test,native-android,native-java-proto")}}
	if r.P(0.5) {
		st.Args = append(st.Args, "-v")
	}
	st.Files = spellAll(r, names)
	for i := len(st.Files) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		st.Files[i], st.Files[j] = st.Files[j], st.Files[i]
	}
	return &Plan{Kind: "workspaces", Tree: t, Steps: []Step{st}}
}

func runC01(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	if len(st.Files) == 0 {
		return nil
	}
	// reference: one process per file, one after the other
	rfs := NewFS(p.Tree)
	var msgs [][]string
	change := map[string]bool{}
	exact := p.Kind != "alias"
	anyBad := false
	for _, f := range st.Files {
		ref := rn.Exec(rfs, only(st, f))
		if !refOK(ref) {
			return nil
		}
		anyBad = anyBad || ref.Exit != 0
		for m := range mutated(ref) {
			change[m] = true
		}
		msgs = append(msgs, lines(ref.Stderr))
	}
	want := rfs.Snapshot("/w")
	fs := NewFS(p.Tree)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	if path, d := diffTree(want, fs.Snapshot("/w"), nil); path != "" {
		return viol("tree", "one run over %d files leaves %s different from the runs over single files: it %s", len(st.Files), path, d)
	}
	for m := range mutated(res) {
		if !change[m] {
			return viol("touched", "%s is written by the run although no run on a single file writes it", m)
		}
	}
	if exact && len(st.Files) > 1 {
		if l := inOrder(msgs, lines(res.Stderr)); l != "" {
			return viol("messages", "the messages of the run are not those of the single runs in argument order: %s: %s", l, quoteShort(res.Stderr))
		}
	}
	if !exact {
		known := map[string]bool{}
		for _, m := range msgs {
			for _, l := range m {
				known[l] = true
			}
		}
		for _, l := range lines(res.Stderr) {
			if !known[l] {
				return viol("messages", "no run on a single file prints %s", quoteShort(l))
			}
		}
	}
	if (res.Exit != 0) != anyBad {
		return viol("status", "exit status %d, but single runs failed: %v", res.Exit, anyBad)
	}
	if left := fs.Snapshot("/tmp"); len(left) > 1 {
		return viol("leftover", "files remain in the temporary directory: %v", vfs.Paths(left))
	}
	return nil
}

// inOrder checks that got consists of the beginnings of the single lists in order (immediate
// messages), followed by their ends in order (the summary).
func inOrder(single [][]string, got []string) string {
	rest := make([][]string, len(single))
	i := 0
	for k, ls := range single {
		n := 0
		for n < len(ls) && i < len(got) && got[i] == ls[n] {
			n++
			i++
		}
		rest[k] = ls[n:]
	}
	for _, ls := range rest {
		for _, l := range ls {
			if i >= len(got) {
				return "missing " + quoteShort(l)
			}
			if got[i] != l {
				return "expected " + quoteShort(l) + ", got " + quoteShort(got[i])
			}
			i++
		}
	}
	if i < len(got) {
		return "extra " + quoteShort(got[i])
	}
	return ""
}

// breakFile makes one file fail and says how.
func breakFile(r *simrt.Rng, t Tree, p string) (faults []vfs.Fault, how string) {
	switch r.Intn(10) {
	case 0:
		delete(t, p)
		return nil, "missing"
	case 1:
		t[p] = vfs.Node{Kind: "dir"}
		return nil, "directory"
	case 2:
		n := t[p]
		n.Mode = 0200
		t[p] = n
		return nil, "unreadable"
	case 3:
		n := t[p]
		n.Mode = 0444
		t[p] = n
		return nil, "readonly"
	case 4:
		n := t[p]
		n.Data = genBroken(r)
		t[p] = n
		return nil, "broken"
	case 5:
		return []vfs.Fault{{Op: "open", Path: p, Nth: 1, Count: -1, Kind: "err", Err: errFor(r, "open")}}, "open"
	case 6, 7:
		f := vfs.Fault{Op: "read", Path: p, Nth: 1 + r.Intn(2), Count: -1, Kind: "err", Err: errFor(r, "read")}
		if r.P(0.6) {
			f.Kind = "partial"
			f.N = r.Intn(len(t[p].Data) + 1)
		}
		return []vfs.Fault{f}, "read"
	case 8:
		return []vfs.Fault{{Op: "create", Path: p, Nth: 1, Count: -1, Kind: "err", Err: errFor(r, "create")}}, "create"
	}
	f := vfs.Fault{Op: "write", Path: p, Nth: 1, Count: -1, Kind: "err", Err: errFor(r, "write")}
	if r.P(0.7) {
		f.Kind = "partial"
		f.N = r.Intn(len(t[p].Data) + 1)
	}
	return []vfs.Fault{f}, "write"
}

func genC02(r *simrt.Rng, rn *Runner) *Plan {
	t, names := genBfTree(r, rn, 0.05)
	for len(names) < 2 {
		t, names = genBfTree(r, rn, 0.05)
	}
	st := Step{Tool: "buildifier", Sched: genSched(r)}
	kind := pick(r, "fix", "fix", "check", "lint")
	if r.P(0.5) {
		st.Args = append(st.Args, "-v")
	}
	switch kind {
	case "check":
		st.Args = append(st.Args, "-mode=check")
	case "lint":
		st.Args = append(st.Args, "-lint="+pick(r, "warn", "fix"), singleFileWarnings)
	}
	bad := 1 + r.Intn(3)
	p := &Plan{Kind: kind, Tree: t, S: map[string]string{}}
	for i := 0; i < bad; i++ {
		f := names[r.Intn(len(names))]
		if _, ok := p.S[f]; ok {
			continue
		}
		if len(p.S) == len(names)-1 {
			break
		}
		fl, how := breakFile(r, t, f)
		p.S[f] = how
		st.Faults = append(st.Faults, fl...)
	}
	st.Files = spellAll(r, names)
	p.Steps = []Step{st}
	return p
}

func runC02(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	var good []string
	bad := map[string]string{}
	for _, f := range st.Files {
		a := abs(st.Cwd, f)
		if _, ok := p.S[a]; ok {
			bad[a] = f
		} else {
			good = append(good, f)
		}
	}
	if len(good) == 0 || len(bad) == 0 {
		return nil
	}
	rfs := NewFS(p.Tree)
	ref := rn.Exec(rfs, only(st, good...))
	if !refOK(ref) {
		return nil
	}
	before := NewFS(p.Tree).Snapshot("/w")
	want := rfs.Snapshot("/w")
	fs := NewFS(p.Tree)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	got := fs.Snapshot("/w")
	if pth, d := diffTree(want, got, func(x string) bool { _, ok := bad[x]; return ok }); pth != "" {
		return viol("tree", "with failing files %v, %s is not as in the run without them: it %s", p.S, pth, d)
	}
	for a := range bad {
		wr := failedOps(res, a, "create", "write", "close")
		if !wr && got[a] != before[a] && failedOps(res, a, "open", "read") {
			return viol("unread", "%s could not be read, but is now %s", a, describeNode(got[a]))
		}
		if p.S[a] == "broken" && got[a] != before[a] {
			// the generator may have made a file that parses
			one := rn.Exec(NewFS(p.Tree), only(st, bad[a]))
			if one.Exit == 1 {
				return viol("unparsed", "%s cannot be parsed, but is now %s", a, describeNode(got[a]))
			}
		}
		failed := failedOps(res, a, "open", "read", "create", "write", "close")
		if failed && !strings.Contains(res.Stderr, strings.TrimPrefix(bad[a], "./")) {
			return viol("unnamed", "an operation on %s failed, but no message names it: %s", a, quoteShort(res.Stderr))
		}
		if failed && res.Exit == 0 {
			return viol("status", "an operation on %s failed, but the exit status is 0", a)
		}
	}
	if l := subsequence(lines(ref.Stderr), lines(res.Stderr)); l != "" {
		return viol("messages", "the message %q about a good file is missing or out of order: %s", l, quoteShort(res.Stderr))
	}
	if ref.Stdout != "" && subsequence(lines(ref.Stdout), lines(res.Stdout)) != "" {
		return viol("output", "the output for the good files is damaged: %s instead of %s", quoteShort(res.Stdout), quoteShort(ref.Stdout))
	}
	return nil
}
