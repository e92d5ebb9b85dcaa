package main

import (
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

func init() {
	register(&Check{
		Prop: "C17", Gen: genC17, Run: runC17,
		Real: "buildifier with warn, build, bzlmod, labels, edit, tables", Stub: "operating system, file system, clock, scheduler",
		Rule: "Lint runs on generated load graphs (chains, cycles, self loads, includes of module files) whose dependency files are missing, malformed, cut, unreadable, directories or dangling links, or fail at any system call; the result must be the result of the same run with those files absent, and no dependency is read more than once per linted file or changed.",
	})
}

var c17Modules = []string{"rules_cc", "rules_java", "rules_python", "rules_android", "protobuf", "rules_shell"}

// genDepBzl writes a .bzl file for the load graph.
func genDepBzl(r *simrt.Rng, pool []string, depLabels []string, dirty bool) string {
	var b strings.Builder
	nm := func() string { return pool[r.Intn(len(pool))] }
	if r.P(0.4) {
		b.WriteString("\"\"\"Module.\"\"\"\n\n")
	}
	for i, n := 0, r.Intn(4); i < n && len(depLabels) > 0; i++ {
		fmt.Fprintf(&b, "load(%q", depLabels[r.Intn(len(depLabels))])
		for j, k := 0, 1+r.Intn(3); j < k; j++ {
			if r.P(0.2) {
				fmt.Fprintf(&b, ", %s = %q", nm(), nm())
			} else {
				fmt.Fprintf(&b, ", %q", nm())
			}
		}
		b.WriteString(")\n")
	}
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		b.WriteString("\n")
		switch r.Intn(8) {
		case 0:
			fmt.Fprintf(&b, "%s = rule(implementation = _impl)\n", nm())
		case 1:
			fmt.Fprintf(&b, "%s = %s\n", nm(), nm())
		case 2:
			b.WriteString(strings.NewReplacer("$A", nm(), "$B", nm(), "$C", nm()).Replace(zooBzl[r.Intn(len(zooBzl))]))
		default:
			fmt.Fprintf(&b, "def %s(%s):\n", nm(), pick(r, "", "x", "name", "**kwargs", "x, y = 1"))
			if r.P(0.35) {
				b.WriteString("    \"\"\"Does it.\n\n    Deprecated:\n      use another\n    \"\"\"\n")
			} else if r.P(0.3) {
				b.WriteString("    \"\"\"Does it.\"\"\"\n")
			}
			for j, k := 0, 1+r.Intn(3); j < k; j++ {
				switch r.Intn(6) {
				case 0:
					fmt.Fprintf(&b, "    native.%s(name = \"x\")\n", pick(r, "cc_library", "java_library", "filegroup", "glob", "package_name"))
				case 1:
					fmt.Fprintf(&b, "    %s = 1\n", nm())
				default:
					fmt.Fprintf(&b, "    %s(%s)\n", nm(), pick(r, "", "name = \"x\"", "1"))
				}
			}
			if dirty && r.P(0.3) {
				b.WriteString("    return   1\n")
			}
		}
	}
	return b.String()
}

func genC17(r *simrt.Rng, rn *Runner) *Plan {
	p := &Plan{Tree: Tree{}, S: map[string]string{}, I: map[string]int{}}
	put := func(q, data string) { p.Tree[q] = vfs.Node{Mode: 0644, Data: data} }
	put("/w/WORKSPACE", "")
	pool := []string{"m0", "m1", "m2", "m3", "m4", "m5", "m6"}[:3+r.Intn(5)]
	var deps, depLabels []string
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		pkg := pick(r, "", "a", "b/c", "z")
		f := fmt.Sprintf("%s%d.%s", pick(r, "d", "e", "defs"), i, pick(r, "bzl", "bzl", "bzl", "txt"))
		deps = append(deps, path.Join("/w", pkg, f))
		depLabels = append(depLabels, pick(r, "//"+pkg+":"+f, "//"+pkg+":"+f, "//"+pkg+":"+f, ":"+f, "@//"+pkg+":"+f, "@r//"+pkg+":"+f))
	}
	depLabels = append(depLabels, pick(r, "//a:none.bzl", "//:BUILD", ":self.bzl", "//nowhere:x.bzl", "bad label", "//a/b"))
	nLint := 1
	if r.P(0.35) {
		nLint = 2 + r.Intn(4)
	}
	var linted, lintLabels []string
	for i := 0; i < nLint; i++ {
		pkg := pick(r, "", "a", "b/c", "z")
		f := pick(r, "l%d.bzl", "l%d.bzl", "l%d.bzl", "l%d.star", "l%d/BUILD", "l%d/BUILD.bazel")
		f = fmt.Sprintf(f, i)
		linted = append(linted, path.Join("/w", pkg, f))
		if strings.HasSuffix(f, ".bzl") {
			lintLabels = append(lintLabels, "//"+pkg+":"+f)
		}
	}
	all := append(append([]string{}, depLabels...), lintLabels...)
	for _, d := range deps {
		put(d, genDepBzl(r, pool, all, true))
	}
	if r.P(0.7) {
		m := "module(name = \"me\")\n"
		for _, x := range c17Modules {
			if r.P(0.5) {
				m += fmt.Sprintf("bazel_dep(name = %q%s)\n", x, pick(r, "", ", repo_name = \"my_"+x+"\"", ", version = \"1\", repo_name = \"other_"+x+"\""))
			}
		}
		if r.P(0.4) {
			m += "include(\"//:inc.MODULE.bazel\")\n"
			put("/w/inc.MODULE.bazel", pick(r, "bazel_dep(name = \"rules_cc\", repo_name = \"inc_cc\")\n", "bazel_dep(name = \"rules_java\", repo_name = \"inc_java\")\ninclude(\"//a:x.MODULE.bazel\")\n", "include(\"//:inc.MODULE.bazel\")\n"))
			if r.P(0.5) {
				put("/w/a/x.MODULE.bazel", "bazel_dep(name = \"rules_python\", repo_name = \"x_py\")\n")
			}
		}
		put("/w/MODULE.bazel", m)
	}
	for _, l := range linted {
		if strings.Contains(path.Base(l), "BUILD") {
			s := ""
			for i, k := 0, r.Intn(3); i < k; i++ {
				s += fmt.Sprintf("load(%q, %q, %q)\n", all[r.Intn(len(all))], pool[r.Intn(len(pool))], pool[r.Intn(len(pool))])
			}
			for i, k := 0, r.Intn(4); i < k; i++ {
				s += fmt.Sprintf("%s(name = %q)\n", pick(r, "cc_library", "java_binary", "py_test", "sh_binary", "proto_library", pool[0], pool[1]), pick(r, "x", "y", "z"))
			}
			put(l, s+genLint(r, false))
		} else {
			s := genDepBzl(r, pool, all, true)
			if r.P(0.4) {
				s += fmt.Sprintf("\ndef %s(x):\n    %s(name = x)\n    x = %s\n", pool[r.Intn(len(pool))], pick(r, "native.cc_library", "cc_library", "py_library", "sh_test"), pick(r, "CcInfo", "JavaInfo", "ProtoInfo", "1"))
			}
			put(l, s)
		}
	}
	// bad dependencies
	var reads []string // what the run would read
	st := Step{Tool: "buildifier", Args: []string{"-mode=check", "-lint=warn", "-warnings=all", "-format=json"}, Sched: genSched(r)}
	p.Kind = "several"
	if nLint == 1 {
		p.Kind = "one"
		st.Args = []string{"-mode=" + pick(r, "check", "fix", "diff", "print_if_changed"), "-lint=" + pick(r, "warn", "warn", "fix"), pick(r, "-warnings=all", "-warnings=unnamed-macro,deprecated-function", "-warnings=+unsorted-dict-items", "-warnings=all")}
		if r.P(0.2) {
			st.Args = append(st.Args, "-v")
		}
		if r.P(0.3) {
			st.Args = []string{"-mode=check", "-lint=warn", "-warnings=all", "-format=json"}
		}
	}
	st.Files = spellAll(r, linted)
	if nLint == 1 && r.P(0.15) && st.Args[0] != "-mode=fix" {
		// from standard input
		st.Stdin = p.Tree[linted[0]].Data
		st.Args = append(st.Args, "-path="+linted[0])
		st.Files = nil
		p.Kind = "stdin"
	}
	p.Names = linted
	isLinted := map[string]bool{}
	for _, l := range linted {
		isLinted[l] = true
	}
	dry := rn.Exec(NewFS(p.Tree), calmed(st))
	seen := map[string]bool{}
	for _, e := range dry.Events {
		if e.Op == "read" && underTree(e.Path) && !isLinted[e.Path] && !seen[e.Path] {
			seen[e.Path] = true
			reads = append(reads, e.Path)
		}
	}
	if len(reads) == 0 {
		reads = append(reads, deps...)
	}
	for i, k := 0, r.Intn(3); i < k; i++ {
		q := reads[r.Intn(len(reads))]
		n, ok := p.Tree[q]
		if !ok || n.Kind != "" {
			continue
		}
		switch r.Intn(8) {
		case 0:
			delete(p.Tree, q)
		case 1:
			n.Data = genBroken(r)
		case 2, 3:
			n.Data = n.Data[:r.Intn(len(n.Data)+1)]
		case 4:
			n.Data += pick(r, "def (\n", "\n)", "\x00", "\xff\xfe", "\n\"\"\"", "  x\n y\n", "\r\n")
		case 5:
			n.Mode = 0200
		case 6:
			n = vfs.Node{Kind: "dir", Mode: 0755}
		case 7:
			n = vfs.Node{Kind: "link", Target: pick(r, "nowhere", path.Base(q), "/w", "/w/a")}
			if path.Base(q) == "MODULE.bazel" && n.Target == path.Base(q) {
				n.Target = "nowhere" // a link to itself would keep the root of the workspace from being found
			}
		}
		if _, ok := p.Tree[q]; ok {
			p.Tree[q] = n
		}
	}
	if r.P(0.75) {
		dry := rn.Exec(NewFS(p.Tree), calmed(st))
		cand := injectable(dry.Events, func(e vfs.Event) bool {
			return underTree(e.Path) && !isLinted[e.Path] && (e.Op == "open" || e.Op == "read" || e.Op == "fstat" || e.Op == "close") && p.Tree[e.Path].Kind != "dir"
		})
		for i, k := 0, 1+r.Intn(2); i < k && len(cand) > 0; i++ {
			f := genErrFault(r, dry.Events, cand[r.Intn(len(cand))])
			if f.Kind == "err" && f.Op == "read" && r.P(0.3) {
				f.Kind, f.N = "short", 1+r.Intn(9)
			}
			st.Faults = append(st.Faults, f)
		}
	}
	p.Steps = []Step{st}
	return p
}

// depUse says what happened to the files that were read besides the linted ones: bad if the file could not
// be read, odd if something failed that may or may not matter.
func depUse(res *Result, linted map[string]bool) (bad, odd map[string]int) {
	bad, odd = map[string]int{}, map[string]int{}
	for _, e := range res.Events {
		if !underTree(e.Path) || linted[e.Path] || e.Err == "" || e.Err == "EOF" || e.Flt == "" {
			continue
		}
		switch e.Op {
		case "open", "read":
			if e.Err == "EINTR" || e.Err == "EAGAIN" {
				odd[e.Path]++
			} else {
				bad[e.Path]++
			}
		case "fstat", "stat", "lstat", "close":
			odd[e.Path]++
		}
	}
	return bad, odd
}

func runC17(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	if _, ok := p.Tree["/w/WORKSPACE"]; !ok {
		return nil
	}
	if m := p.Tree["/w/MODULE.bazel"]; m.Kind == "link" && m.Target == "MODULE.bazel" {
		return nil
	}
	linted := map[string]bool{}
	for _, f := range p.Names {
		linted[f] = true
	}
	for _, f := range st.Files {
		if !linted[abs("/w", f)] {
			return nil
		}
	}
	fs := NewFS(p.Tree)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	what := func() string { return cmdline(st) }

	// dependencies are never changed, and read once
	after := fs.Snapshot("/")
	before := NewFS(p.Tree).Snapshot("/")
	if q, how := diffTree(before, after, func(q string) bool {
		return linted[q] && !hasArg(st, "-mode=check") && !hasArg(st, "-mode=diff") || underTmp(q) || strings.HasPrefix(q, "/dev/")
	}); q != "" {
		return viol("modified", "%s: %s %s", what(), q, how)
	}
	for _, e := range res.Mutations() {
		if underTree(e.Path) && !linted[e.Path] && !underTmp(e.Path) && path.Base(e.Path) != "" && !linted[strings.TrimSuffix(e.Path, ".tmp")] {
			if _, ok := p.Tree[e.Path]; ok {
				return viol("modified", "%s: %s %s", what(), e.Op, e.Path)
			}
		}
	}
	nFiles := len(st.Files)
	if nFiles == 0 {
		nFiles = 1
	}
	links := 0 // a file can be read under the name of each link to it as well
	for _, n := range p.Tree {
		if n.Kind == "link" {
			links++
		}
	}
	opens := map[string]int{}
	for _, e := range res.Events {
		if e.Op == "open" && underTree(e.Path) {
			opens[e.Path]++
		}
	}
	for _, q := range keysOfInt(opens) {
		max := nFiles * (1 + links)
		if linted[q] {
			max += 2 // it is also linted, and read again for a diff
		}
		if strings.HasPrefix(path.Base(q), ".buildifier") {
			continue
		}
		if opens[q] > max {
			return viol("reread", "%s opens %s %d times for %d linted file(s)", what(), q, opens[q], nFiles)
		}
	}

	// the same run without the files that cannot be used
	unusable := map[string]bool{}
	for _, q := range keysOfTree(p.Tree) {
		n := p.Tree[q]
		if linted[q] || path.Base(q) == "WORKSPACE" {
			continue
		}
		if n.Kind != "" {
			unusable[q] = true
			continue
		}
		if n.Mode&0400 == 0 && n.Mode != 0 {
			unusable[q] = true
			continue
		}
		c := rn.Exec(NewFS(Tree{"/w/" + path.Base(q): vfs.Node{Data: n.Data}}), Step{Tool: "buildifier", Args: []string{"-mode=check", "-lint=off", "/w/" + path.Base(q)}, Sched: calm()})
		if !c.Ended() || c.Exit == 1 {
			unusable[q] = true
		}
	}
	bad, odd := depUse(res, linted)
	tree := func(drop map[string]bool) Tree {
		t := Tree{}
		for q, n := range p.Tree {
			if drop[q] || unusable[q] {
				continue
			}
			t[q] = n
		}
		return t
	}
	if len(unusable)+len(bad) > 0 {
		rn.Probe("unusable dependency")
	}
	clean := calmed(st)
	if p.Kind != "several" {
		// exactly one file: the whole run is the same, with the files in odd used or not
		var opts []map[string]bool
		base := map[string]bool{}
		for q := range bad {
			base[q] = true
		}
		opts = append(opts, base)
		for _, q := range keysOfInt(odd) {
			for _, o := range append([]map[string]bool{}, opts...) {
				c := map[string]bool{q: true}
				for k := range o {
					c[k] = true
				}
				opts = append(opts, c)
			}
		}
		var first *Violation
		for _, o := range opts {
			t := tree(o)
			rfs := NewFS(t)
			ref := rn.Exec(rfs, clean)
			if !ref.Ended() {
				return nil
			}
			v := sameRun(what(), ref, res, rfs, fs, linted)
			if v == nil {
				return c17Local(p, rn, st, res, tree(nil), linted)
			}
			if first == nil {
				first = v
			}
		}
		return first
	}

	got, ok := lintRecords(res.Stdout)
	if !ok {
		if res.Exit == 0 || res.Exit == 4 {
			return viol("output", "%s: no report on standard output: %s", what(), quoteShort(res.Stdout))
		}
		return nil
	}
	faulty := keysOfInt(mergeInt(bad, odd))
	deviating := 0
	sticky := false
	for _, f := range st.Faults {
		if f.Count != 0 {
			sticky = true
		}
	}
	for _, f := range st.Files {
		one := only(clean, f)
		match := false
		var want0 string
		for m := 0; m < 1<<uint(len(faulty)) && !match; m++ {
			drop := map[string]bool{}
			for i, q := range faulty {
				if m>>uint(i)&1 == 1 {
					drop[q] = true
				}
			}
			ref := rn.Exec(NewFS(tree(drop)), one)
			if !ref.Ended() {
				return nil
			}
			w, ok := lintRecords(ref.Stdout)
			if !ok || len(w) != 1 {
				return nil
			}
			if m == 0 {
				want0 = w[f]
			}
			if w[f] == got[f] {
				match = true
				if m > 0 {
					deviating++
				}
			}
		}
		if !match {
			return viol("report", "%s: the report on %s is neither the one of a run in which the files that cannot be used are absent nor explained by the failed reads %v: %s", what(), f, faulty, firstDiff(want0, got[f]))
		}
	}
	n := 0
	for _, k := range res.Fired {
		if k {
			n++
		}
	}
	if !sticky && deviating > n {
		return viol("spreads", "%s: %d failed system call(s) changed the reports on %d files", what(), n, deviating)
	}
	if deviating > 0 {
		rn.Probe("one file affected")
	}
	return nil
}

// multiFileCategory says that findings of the category may depend on other files.
func multiFileCategory(c string) bool {
	return c == "unnamed-macro" || c == "deprecated-function" || c == "git-repository" || c == "http-archive" || strings.HasPrefix(c, "native-")
}

// c17Local compares the findings that depend on the linted file alone with those of a run with all files intact.
func c17Local(p *Plan, rn *Runner, st Step, res *Result, t Tree, linted map[string]bool) *Violation {
	if !hasArg(st, "-format=json") {
		return nil
	}
	alone := Tree{"/w/WORKSPACE": vfs.Node{Mode: 0644}}
	for q, n := range p.Tree {
		if linted[q] {
			alone[q] = n
		}
	}
	ref := rn.Exec(NewFS(alone), calmed(st))
	a, b := categories(ref.Stdout), categories(res.Stdout)
	if a == nil || b == nil {
		return nil
	}
	if d := multiset(a, b); d != "" {
		return viol("local", "%s: the warnings that need no other file differ from those with no other file: %s", cmdline(st), d)
	}
	return nil
}

func categories(out string) []string {
	var o struct {
		Files []struct {
			Warnings []struct {
				Start    struct{ Line, Column int }
				Category string
				Message  string
			}
		}
	}
	if json.Unmarshal([]byte(out), &o) != nil {
		return nil
	}
	l := []string{}
	for _, f := range o.Files {
		for _, w := range f.Warnings {
			if !multiFileCategory(w.Category) {
				l = append(l, fmt.Sprint(w.Start.Line, w.Start.Column, w.Category, w.Message))
			}
		}
	}
	return l
}

// lintRecords splits buildifier's JSON report by file.
func lintRecords(out string) (map[string]string, bool) {
	var o struct {
		Files []json.RawMessage `json:"files"`
	}
	if err := json.Unmarshal([]byte(out), &o); err != nil {
		return nil, false
	}
	m := map[string]string{}
	for _, f := range o.Files {
		var n struct{ Filename string }
		if json.Unmarshal(f, &n) != nil {
			return nil, false
		}
		m[n.Filename] = string(f)
	}
	return m, true
}

func sameRun(what string, ref, res *Result, rfs, fs *vfs.FS, linted map[string]bool) *Violation {
	if ref.Exit != res.Exit {
		return viol("status", "%s: %s, but %s with the files that cannot be used absent", what, res.How(), ref.How())
	}
	if ref.Stdout != res.Stdout {
		return viol("stdout", "%s: standard output differs from the run with the files that cannot be used absent: %s", what, firstDiff(ref.Stdout, res.Stdout))
	}
	if ref.Stderr != res.Stderr {
		return viol("stderr", "%s: the messages differ from the run with the files that cannot be used absent: %s", what, firstDiff(ref.Stderr, res.Stderr))
	}
	a, b := rfs.Snapshot("/"), fs.Snapshot("/")
	for _, q := range keysOf(linted) {
		if a[q].Data != b[q].Data {
			return viol("file", "%s: %s is %s, but %s with the files that cannot be used absent", what, q, describeNode(b[q]), describeNode(a[q]))
		}
	}
	return nil
}

func keysOfInt(m map[string]int) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func mergeInt(a, b map[string]int) map[string]int {
	m := map[string]int{}
	for k, n := range a {
		m[k] += n
	}
	for k, n := range b {
		m[k] += n
	}
	return m
}
