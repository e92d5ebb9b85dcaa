package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// The inputs of the two generators. Every operation of a plan is one entry: a rule with its attributes
// (NAME attr:type...) or a warning (NAME NAME... | header | description).

var attrTypes = map[int]string{1: "INTEGER", 2: "STRING", 3: "LABEL", 4: "OUTPUT", 5: "STRING_LIST", 6: "LABEL_LIST", 7: "OUTPUT_LIST", 10: "STRING_DICT", 14: "BOOLEAN", 15: "TRISTATE", 16: "INTEGER_LIST", 21: "LABEL_KEYED_STRING_DICT"}
var attrNums = []int{1, 2, 3, 4, 5, 6, 7, 10, 14, 15, 16}

// genInput makes the input file of a generator from the operations; inside says whether a cut at a
// position falls into an entry, so that it can be noticed.
func genInput(p *Plan) (data string, inside func(int) bool) {
	var ends []int
	text := p.Kind == "warn/docs"
	var starts []int
	for _, op := range p.Ops {
		s := len(data)
		if text {
			f := strings.SplitN(op, "|", 3)
			for len(f) < 3 {
				f = append(f, "")
			}
			data += "warnings: {\n"
			starts = append(starts, len(data)-3)
			for _, n := range strings.Fields(f[0]) {
				data += fmt.Sprintf("  name: %q\n", n)
			}
			data += fmt.Sprintf("  header: %q\n  description:\n    %q\n  autofix: %v\n}\n", f[1], f[2], len(f[1])%2 == 0)
			ends = append(ends, len(data)-1)
			_ = s
			continue
		}
		f := strings.Fields(op)
		if len(f) == 0 {
			continue
		}
		m := pbBytes(1, f[0])
		for _, a := range f[1:] {
			var n string
			var t int
			if i := strings.LastIndex(a, ":"); i > 0 {
				n = a[:i]
				fmt.Sscan(a[i+1:], &t)
			}
			if attrTypes[t] == "" || n == "" {
				continue
			}
			m += pbBytes(2, pbBytes(1, n)+pbInt(2, uint64(t))+pbInt(3, 1))
		}
		data += pbBytes(1, m)
		starts = append(starts, s)
		ends = append(ends, len(data))
	}
	return data, func(n int) bool {
		for i := range ends {
			if n > starts[i] && n < ends[i] {
				return true
			}
		}
		return false
	}
}

func genGens(r *simrt.Rng) *Plan {
	p := &Plan{Tree: Tree{}, S: map[string]string{}, I: map[string]int{}}
	n := 1 + r.Intn(8)
	if r.P(0.2) {
		n = 20 + r.Intn(60)
	}
	if r.P(0.5) {
		p.Kind = "generatetables"
		for i := 0; i < n; i++ {
			op := "rule_" + words[r.Intn(len(words))]
			for j, k := 0, r.Intn(8); j < k; j++ {
				op += " " + pick(r, "deps", "srcs", "visibility", "copts", "testonly", "deprecation", "features", "out", "name", "x"+fmt.Sprint(r.Intn(40)), words[r.Intn(len(words))]) + ":" + fmt.Sprint(attrNums[r.Intn(len(attrNums))])
			}
			p.Ops = append(p.Ops, op)
		}
		p.Steps = []Step{{Tool: "generatetables", Args: []string{"-input=/home/u/lang.pb", "-output=/w/tables.go"}}}
		p.S["in"], p.S["out"] = "/home/u/lang.pb", "/w/tables.go"
	} else {
		p.Kind = "warn/docs"
		for i := 0; i < n; i++ {
			nm := pick(r, "attr-cfg", "load", "unused-variable", "native-py", "gone-"+words[r.Intn(len(words))], "x"+fmt.Sprint(r.Intn(99)))
			if r.P(0.2) {
				nm += " " + pick(r, "print", "same", "other"+fmt.Sprint(r.Intn(9)))
			}
			p.Ops = append(p.Ops, nm+"|Header of "+words[r.Intn(len(words))]+"|Some text\nwith `code` and {braces}\n"+strings.Repeat("more ", r.Intn(400)))
		}
		p.Steps = []Step{{Tool: "warn/docs", Args: []string{"/home/u/warnings.textproto", "/w/WARNINGS.md"}}}
		p.S["in"], p.S["out"] = "/home/u/warnings.textproto", "/w/WARNINGS.md"
	}
	p.Steps[0].Sched = genSched(r)
	if r.P(0.4) {
		p.Tree[p.S["out"]] = vfs.Node{Data: "old\n"}
	}
	return p
}

// gensTree is the file system of a generator's run.
func gensTree(p *Plan, damaged bool) (t Tree, noticed bool) {
	t = Tree{}
	for k, v := range p.Tree {
		t[k] = v
	}
	data, inside := genInput(p)
	if damaged {
		switch p.S["damage"] {
		case "cut":
			if n := p.I["cut"] % (len(data) + 1); inside(n) {
				data, noticed = data[:n], true
			}
		case "tail":
			data, noticed = data+p.S["tail"], true
		case "missing":
			return t, true
		}
	}
	t[p.S["in"]] = vfs.Node{Data: data}
	return t, noticed
}

func init() {
	register(&Check{
		Prop: "C24", Gen: genC24, Run: runC24,
		Real: "generatetables and warn/docs mains, build_proto, warn (tables), protobuf library", Stub: "operating system, file system, clock, scheduler",
		Rule: "Runs of both generators on generated inputs, with errors and short transfers at any byte of the input and the output, a full disk, and truncated, missing or garbled inputs; status 0 must mean that the output is the complete text for the undamaged input.",
	})
	register(&Check{
		Prop: "C16", Gen: genC16, Run: runC16,
		Real: "buildifier, buildozer, unused_deps, generatetables and warn/docs with everything below them", Stub: "operating system, file system, clock, scheduler; build tool, diff programs, external formatter",
		Rule: "The same run three times under different schedules, map orders, read latencies, clocks and process ids; all bytes and the status must be the same.",
	})
}

func genC24(r *simrt.Rng, rn *Runner) *Plan {
	p := genGens(r)
	st := &p.Steps[0]
	if r.P(0.35) {
		p.S["damage"] = pick(r, "cut", "cut", "cut", "tail", "missing")
		p.I["cut"] = r.Intn(1 << 20)
		if p.Kind == "generatetables" {
			p.S["tail"] = pick(r, "\xff", "\x0a", "\x0a\x7f", "\x0a\x05ab", "\x08\x80", "\x0a\x04\x12\x02\x0a\x00")
		} else {
			p.S["tail"] = pick(r, "}\n", "warnings: {\n", "garbage\n", "warnings: { nosuch: 1 }\n", "warnings: { autofix: 7 }\n", "\"", "\x00")
		}
	}
	if r.P(0.65) {
		t, _ := gensTree(p, true)
		dry := rn.Exec(NewFS(t), calmed(*st))
		cand := injectable(dry.Events, nil)
		for i, k := 0, 1+r.Intn(2); i < k && len(cand) > 0; i++ {
			st.Faults = append(st.Faults, genErrFault(r, dry.Events, cand[r.Intn(len(cand))]))
		}
		if r.P(0.15) {
			st.Disk = 1 + r.Intn(4000)
		}
	}
	return p
}

func runC24(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	out := p.S["out"]
	clean, _ := gensTree(p, false)
	rfs := NewFS(clean)
	ref := rn.Exec(rfs, calmed(st))
	if ref.Ended() && ref.Exit != 0 && len(st.Args) == 2 && len(p.Ops) > 0 {
		return viol("refuses", "%s: the input is intact and nothing fails, but the exit status is %d: %s", cmdline(st), ref.Exit, quoteShort(ref.Stderr))
	}
	if ref.Exit != 0 || !ref.Ended() {
		return nil
	}
	want, ok := rfs.Snapshot("/")[out]
	if !ok {
		return viol("nothing", "%s: exit status 0, but %s does not exist", cmdline(st), out)
	}
	if v := gensModel(p, want.Data); v != nil {
		return v
	}
	t, noticed := gensTree(p, true)
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	got, gok := fs.Snapshot("/")[out]
	old, ook := t[out]
	if res.Ended() && res.Exit == 0 {
		if noticed {
			return viol("damaged", "%s: the input is damaged (%s), but the exit status is 0 and the output is %s", cmdline(st), p.S["damage"], describeNode(got))
		}
		if !gok || got.Data != want.Data {
			return viol("incomplete", "%s: exit status 0, but the output is %s instead of %s", cmdline(st), describeNode(got), describeNode(want))
		}
		if failedOps(res, out, "write", "close", "create") {
			return viol("unnoticed", "%s: writing %s failed, but the exit status is 0", cmdline(st), out)
		}
		rn.Probe("complete")
		return nil
	}
	rn.Probe("failed")
	if res.Crashed != "" {
		return nil
	}
	// what a failed run leaves is the old output or a part of the new one
	if gok && !(ook && got.Data == old.Data) && (noticed || !strings.HasPrefix(want.Data, got.Data)) {
		return viol("looks", "%s (%s) leaves the output %s", cmdline(st), res.How(), describeNode(got))
	}
	if gok && got.Data == want.Data && !failedOps(res, out, "write", "close", "create", "chmod", "fsync") && !(ook && old.Data == got.Data) && failedOps(res, p.S["in"], "read") {
		return viol("looks", "%s (%s) leaves complete output although reading the input failed", cmdline(st), res.How())
	}
	return nil
}

// gensModel checks that the output has everything the input lists.
func gensModel(p *Plan, out string) *Violation {
	if p.Kind == "warn/docs" {
		for _, op := range p.Ops {
			f := strings.SplitN(op, "|", 3)
			for _, n := range strings.Fields(f[0]) {
				if !strings.Contains(out, "  * [`"+n+"`](#"+n+")\n") || !strings.Contains(out, "<a name=\""+n+"\"></a>") {
					return viol("content", "the documentation does not list %s", n)
				}
			}
			if len(f) == 3 && !strings.Contains(out, f[2]) {
				return viol("content", "the documentation lacks the description of %s", f[0])
			}
		}
		return nil
	}
	types := map[string]string{}
	for _, op := range p.Ops {
		f := strings.Fields(op)
		for i := 1; i < len(f); i++ {
			j := strings.LastIndex(f[i], ":")
			var t int
			if j > 0 {
				fmt.Sscan(f[i][j+1:], &t)
			}
			if attrTypes[t] != "" {
				types[f[i][:j]] = attrTypes[t]
			}
		}
	}
	for _, n := range keysOf(boolKeys(types)) {
		switch n {
		case "resources", "out", "outs", "stamp", "strip", "name", "features", "extra_srcs", "pytype_deps", "default_visibility":
			continue
		}
		if !strings.Contains(out, "\""+n+"\":\tbuildpb.Attribute_"+types[n]+",\n") {
			return viol("content", "the table lacks %s of type %s", n, types[n])
		}
	}
	return nil
}

func boolKeys(m map[string]string) map[string]bool {
	b := map[string]bool{}
	for k := range m {
		b[k] = true
	}
	return b
}

func genC16(r *simrt.Rng, rn *Runner) *Plan {
	var p *Plan
	switch r.Intn(10) {
	case 0, 1:
		p = genGens(r)
	case 2:
		p = genUd(r, 0.3)
	case 3:
		p = genUd(r, 0.2)
		p.Kind = "file"
		p.Steps[0].Args = []string{"-extra_action_file=/w/x.xa", "-output_file=/w/unused.txt"}
	case 4:
		p = &Plan{Kind: "buildozer"}
		t, files := genPackages(r, 1+r.Intn(5), 0.1)
		if r.P(0.5) {
			lintify(r, t, 0.5)
		}
		st := Step{Tool: "buildozer", Args: []string{"-numio=1"}}
		if r.P(0.4) {
			st.Args[0] = fmt.Sprintf("-numio=%d", 2+r.Intn(8))
		}
		for _, a := range []string{"-k", "-output_json", "-stdout"} {
			if r.P(0.2) {
				st.Args = append(st.Args, a)
			}
		}
		for i, k := 0, 1+r.Intn(3); i < k; i++ {
			if r.P(0.5) {
				st.Args = append(st.Args, pick(r, "fix", "fix unusedLoads", "fix movePackageToTop", "dict_add env a:b c:d", "print", "print rule", "print attrs", "new_load //a:d.bzl foo bar", "replace_load //x:y.bzl foo bar", "substitute_load ^//a:(.*) //z:$1", "set_select deps :a :b :c :d", "add deps //a:b //c:d", "dict_list_add x k v w"))
			} else {
				st.Args = append(st.Args, anyCmd(r))
			}
		}
		for _, f := range files {
			st.Files = append(st.Files, "//"+pkgOf(f)+":"+pick(r, "all", "*", "%cc_library", "__pkg__", "lib"))
		}
		p.Tree, p.Steps = t, []Step{st}
	case 5:
		// files that load each other
		p = genC17(r, rn)
		p.Kind = "buildifier"
		p.Steps[0].Faults = nil
	default:
		p = &Plan{Kind: "buildifier"}
		t, names := genBfTree(r, rn, 0.05)
		if len(names) > 25 {
			names = names[:25]
		}
		lintify(r, t, 0.8)
		st := Step{Tool: "buildifier"}
		st.Args = append(st.Args, "-mode="+pick(r, "fix", "fix", "check", "diff"), "-lint="+pick(r, "warn", "warn", "fix"), "-warnings=all")
		if r.P(0.3) {
			st.Args = append(st.Args, "-format=json")
			st.Args[0] = "-mode=check"
		}
		if r.P(0.2) {
			st.Args = append(st.Args, "-v")
		}
		if r.P(0.2) {
			st.Args = append(st.Args, "-r")
			names = []string{"/w"}
		}
		if r.P(0.1) {
			t["/w/.buildifier.json"] = vfs.Node{Data: "{\"warningsList\": [\"load\", \"uninitialized\", \"unused-variable\"], \"lint\": \"warn\"}"}
		}
		if r.P(0.1) {
			t["/w/tb.json"] = vfs.Node{Data: "{\"IsLabelArg\": {\"x\": true, \"y\": true}, \"IsSortableListArg\": {\"x\": true, \"srcs\": true}, \"NamePriority\": {\"x\": -1, \"a\": 3}}"}
			st.Args = append(st.Args, pick(r, "-tables=/w/tb.json", "-add_tables=/w/tb.json"))
		}
		st.Files = spellAll(r, names)
		p.Tree, p.Steps = t, []Step{st}
	}
	st := p.Steps[0]
	st.Sched = genSched(r)
	st.Sched.MapSeed |= 1
	p.Steps = []Step{st, st}
	p.Steps[1].Sched = genSched(r)
	p.Steps[1].Sched.MapSeed |= 1
	p.Steps[1].Pid = 100 + r.Intn(30000)
	if r.P(0.3) {
		p.Steps[1].Env = map[string]string{"LANG": pick(r, "C", "de_DE.UTF-8"), "TZ": "Asia/Tokyo"}
	}
	return p
}

func anyRun(p *Plan, rn *Runner, st Step) (*Result, *vfs.FS) {
	switch st.Tool {
	case "unused_deps":
		return udStep(p, rn, st)
	case "generatetables", "warn/docs":
		t, _ := gensTree(p, true)
		fs := NewFS(t)
		return rn.Exec(fs, st), fs
	}
	fs := NewFS(p.Tree)
	return rn.Exec(fs, st), fs
}

func runC16(p *Plan, rn *Runner) *Violation {
	if len(p.Steps) < 2 || cmdline(p.Steps[0]) != cmdline(p.Steps[1]) || p.Steps[0].Stdin != p.Steps[1].Stdin {
		return nil
	}
	a, b := p.Steps[0], p.Steps[1]
	r1, fs1 := anyRun(p, rn, calmed(a))
	if !r1.Ended() {
		return nil // C21
	}
	// buildozer treats several files in any order; what it prints and writes for each is the same
	pkgs := map[string]bool{}
	for _, f := range a.Files {
		pkgs[strings.SplitN(f, ":", 2)[0]] = true
	}
	workers := a.Tool == "buildozer" && len(pkgs) > 1
	json := workers && hasArg(a, "-output_json")
	for _, st := range []Step{a, b} {
		r2, fs2 := anyRun(p, rn, st)
		if !r2.Ended() {
			continue
		}
		if r1.Exit != r2.Exit && !workers {
			return viol("status", "%s: exit status %d in one run and %d in another", cmdline(st), r1.Exit, r2.Exit)
		}
		o1, o2 := r1.Stdout, r2.Stdout
		if workers {
			o1, o2 = sortedLines(o1), sortedLines(o2)
		}
		if o1 != o2 && !json {
			return viol("stdout", "%s: standard output differs between two runs: %s", cmdline(st), firstDiff(o1, o2))
		}
		e1, e2 := stampRE.ReplaceAllString(r1.Stderr, ""), stampRE.ReplaceAllString(r2.Stderr, "")
		if st.Tool == "buildifier" && e1 != e2 {
			return viol("stderr", "%s: the messages differ between two runs: %s", cmdline(st), firstDiff(e1, e2))
		}
		if q, what := diffTree(fs1.Snapshot("/"), fs2.Snapshot("/"), func(q string) bool { return underTmp(q) || strings.HasPrefix(q, "/dev/") }); q != "" {
			return viol("file", "%s: after two runs on the same tree, %s %s", cmdline(st), q, what)
		}
		if len(r1.Stdout)+len(r1.Stderr) > 0 {
			rn.Probe(st.Tool + " compared")
		}
	}
	return nil
}

// the time of a log message
var stampRE = regexp.MustCompile(`(?m)^\d{4}/\d\d/\d\d \d\d:\d\d:\d\d `)

func sortedLines(s string) string {
	ls := lines(s)
	m := append([]string(nil), ls...)
	sort.Strings(m)
	return strings.Join(m, "")
}

func firstDiff(a, b string) string {
	la, lb := lines(a), lines(b)
	for i := 0; ; i++ {
		switch {
		case i >= len(la) && i >= len(lb):
			return "(equal)"
		case i >= len(la):
			return fmt.Sprintf("line %d: nothing or %q", i+1, short(lb[i]))
		case i >= len(lb):
			return fmt.Sprintf("line %d: %q or nothing", i+1, short(la[i]))
		case la[i] != lb[i]:
			return fmt.Sprintf("line %d: %q or %q", i+1, short(la[i]), short(lb[i]))
		}
	}
}

func short(s string) string {
	if len(s) > 300 {
		return s[:300]
	}
	return s
}
