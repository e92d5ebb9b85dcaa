package main

import (
	"archive/zip"
	"bytes"
	"encoding/json"
	"fmt"
	"path"
	"sort"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// The build that unused_deps looks at. Every operation of a plan is one target; the stand-in build
// tool makes the outputs from it, damaged as asked for.
type udDep struct {
	Spell   string // as written in the BUILD file
	Label   string // what it means
	Runtime bool
}

type udJar struct {
	Path  string // as in the parameter file
	Label string // "" none
	Kind  string // "", nolabel, nomanifest, missing, cut, garbage, foreign
	Cut   int
	LF    bool
}

type udTarget struct {
	Repo, Pkg, Name string
	Bin             bool // NAME.jdeps instead of libNAME.jdeps
	Kind            string
	Deps            []udDep
	Form            int // how the deps are written
	Jars            []udJar
	Used            []string // explicitly used jars
	Implicit        []string
	Params          string // "", missing, cut, noflag, atend, long
	Jdeps           string // "", missing, cut, garbage, empty, failed
	Build           string // "", missing, broken, norule, nodeps
	Cut             int
	Fails           bool // can't be built
	Stale           bool // outputs of an earlier build exist, which say that everything is unused
}

func (t udTarget) label() string { return at(t.Repo) + "//" + t.Pkg + ":" + t.Name }

func at(repo string) string {
	if repo == "" {
		return ""
	}
	return "@" + repo
}

const udOut = "/x/out/bazel-out"

func (t udTarget) bin() string {
	b := udOut + "/k8/bin"
	if t.Repo != "" {
		b += "/external/" + t.Repo
	}
	return b + "/" + t.Pkg + "/"
}

func (t udTarget) output(ext string) string {
	if t.Bin {
		return t.bin() + t.Name + "." + ext
	}
	return t.bin() + "lib" + t.Name + "." + ext
}

func (t udTarget) buildFile() string {
	if t.Repo != "" {
		return "/x/out/external/" + t.Repo + "/" + t.Pkg + "/BUILD"
	}
	return "/w/" + t.Pkg + "/BUILD"
}

func (t udTarget) rule() string {
	if t.Build == "norule" {
		return "java_library(\n    name = \"another\",\n)\n"
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%s(\n    name = %q,\n    srcs = [\"A.java\"],\n", t.Kind, t.Name)
	if t.Build != "nodeps" {
		list := func(ds []udDep, ind string) string {
			s := "[\n"
			for _, d := range ds {
				s += fmt.Sprintf("%s    %q,", ind, d.Spell)
				if d.Runtime {
					s += "  # for Runtime"
				}
				s += "\n"
			}
			return s + ind + "]"
		}
		n := len(t.Deps)
		switch {
		case t.Form == 1 && n > 1:
			fmt.Fprintf(&b, "    deps = %s + %s,\n", list(t.Deps[:n/2], "    "), list(t.Deps[n/2:], "    "))
		case t.Form == 2 && n > 1:
			fmt.Fprintf(&b, "    deps = %s + select({\n        \"//c:x\": %s,\n        \"//conditions:default\": [],\n    }),\n", list(t.Deps[:n/2], "    "), list(t.Deps[n/2:], "        "))
		default:
			fmt.Fprintf(&b, "    deps = %s,\n", list(t.Deps, "    "))
		}
	}
	b.WriteString(")\n")
	if t.Build == "broken" {
		b.WriteString("x = = 1\n")
	}
	return b.String()
}

func udTargets(p *Plan) []udTarget {
	var out []udTarget
	for _, o := range p.Ops {
		var t udTarget
		if json.Unmarshal([]byte(o), &t) == nil {
			out = append(out, t)
		}
	}
	return out
}

// udTree is the workspace of a plan.
func udTree(p *Plan) Tree {
	t := Tree{"/w/WORKSPACE": {Data: "workspace(name = \"w\")\n"}, udOut: {Kind: "dir"}}
	for k, v := range p.Tree {
		t[k] = v
	}
	for _, g := range udTargets(p) {
		if g.Build != "missing" {
			n := t[g.buildFile()]
			n.Data += g.rule()
			t[g.buildFile()] = n
		}
		t[strings.TrimSuffix(g.bin(), "/")] = vfs.Node{Kind: "dir"}
		for _, j := range g.Jars {
			if j.Kind != "missing" {
				t[j.file()] = vfs.Node{Data: j.content()}
			}
		}
		if g.Stale {
			// an old report: nothing was used
			t[g.output("javac_params")] = vfs.Node{Data: g.params()}
			t[g.output("jdeps")] = vfs.Node{Data: pbLabelSuccess(g.label(), true)}
		}
	}
	return t
}

func (j udJar) file() string { return udOut + strings.TrimPrefix(j.Path, "bazel-out") }

func (j udJar) content() string {
	if j.Kind == "garbage" {
		return "not a jar file"
	}
	nl := "\r\n"
	if j.LF {
		nl = "\n"
	}
	man := "Manifest-Version: 1.0" + nl + "Created-By: test" + nl
	if j.Label != "" && j.Kind != "nolabel" {
		l := "Target-Label: " + j.Label
		for len(l) > 70 {
			man += l[:70] + nl
			l = " " + l[70:]
		}
		man += l + nl
	}
	man += "Injecting-Rule-Kind: x" + nl + nl
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	add := func(name, text string, m uint16) {
		f, _ := z.CreateHeader(&zip.FileHeader{Name: name, Method: m})
		f.Write([]byte(text))
	}
	m := zip.Deflate
	if j.LF {
		m = zip.Store
	}
	add("a/A.class", "class", zip.Store)
	if j.Kind != "nomanifest" {
		add("META-INF/MANIFEST.MF", man, m)
	}
	z.Close()
	s := b.String()
	if j.Kind == "cut" && j.Cut > 0 {
		s = s[:len(s)-1-(j.Cut-1)%(len(s)-1)]
	}
	return s
}

func (t udTarget) params() string {
	if t.Params == "noflag" {
		return "/bin/java\n--classpath\na.jar\n"
	}
	s := "/bin/java\n-jar\nJavaBuilder.jar\n--output\n" + t.bin() + t.Name + ".jar\n"
	if t.Params == "atend" {
		return s + "--direct_dependencies"
	}
	s += "--direct_dependencies\n"
	for i, j := range t.Jars {
		if t.Params == "huge" && i == 1+t.Cut%len(t.Jars) {
			s += "bazel-out/" + strings.Repeat("x", 70000) + ".jar\n" // no scanner takes such a line
		}
		s += j.Path + "\n"
	}
	if t.Params == "cut" {
		return s[:t.Cut%len(s)]
	}
	if t.Params != "long" {
		s += "--target_label\n" + t.label() + "\n"
	}
	return s
}

func pbBytes(field int, s string) string {
	return pbVarint(uint64(field)<<3|2) + pbVarint(uint64(len(s))) + s
}

func pbVarint(v uint64) string {
	var b []byte
	for v >= 0x80 {
		b = append(b, byte(v)|0x80)
		v >>= 7
	}
	return string(append(b, byte(v)))
}

func pbInt(field int, v uint64) string { return pbVarint(uint64(field)<<3) + pbVarint(v) }

func pbLabelSuccess(label string, ok bool) string {
	v := uint64(0)
	if ok {
		v = 1
	}
	return pbBytes(2, label) + pbInt(3, v) + pbBytes(4, "a.b")
}

// report makes the dependency report.
func (t udTarget) report() string {
	if t.Jdeps == "empty" {
		return ""
	}
	if t.Jdeps == "garbage" {
		return "\xff\xff\xff\xff"
	}
	used := map[string]bool{}
	for _, u := range t.Used {
		used[u] = true
	}
	impl := map[string]bool{}
	for _, u := range t.Implicit {
		impl[u] = true
	}
	s := ""
	bound := map[int]bool{0: true}
	dep := func(p string, kind uint64) {
		s += pbBytes(1, pbBytes(1, p)+pbInt(2, kind))
		bound[len(s)] = true
	}
	for _, j := range t.Jars {
		switch {
		case used[j.Path]:
			dep(j.Path, 0)
		case impl[j.Path]:
			dep(j.Path, 1)
		default:
			dep(j.Path, 2)
		}
	}
	for _, u := range t.Used {
		found := false
		for _, j := range t.Jars {
			found = found || j.Path == u
		}
		if !found {
			dep(u, 0)
		}
	}
	deps := len(s)
	s += pbLabelSuccess(t.label(), t.Jdeps != "failed")
	if t.Jdeps == "failed" {
		// only the first half is known
		return pbLabelSuccess(t.label(), false)
	}
	if t.Jdeps == "cut" {
		// a report that is cut between two entries can't be told from a complete one
		n := t.Cut % len(s)
		for n < deps && bound[n] {
			n++
		}
		if n < len(s) {
			return s[:n]
		}
	}
	return s
}

// udUnused is the truth: the labels whose jars are all unused.
func (t udTarget) unused() map[string]bool {
	m := map[string]bool{}
	for _, j := range t.Jars {
		if j.Label != "" {
			m[norm(j.Label)] = true
		}
	}
	for _, u := range t.Used {
		for _, j := range t.Jars {
			if j.Path == u {
				delete(m, norm(j.Label))
			}
		}
	}
	return m
}

func norm(l string) string {
	if strings.HasPrefix(l, "@@") {
		l = l[1:]
	}
	if strings.HasPrefix(l, "@//") {
		l = l[1:]
	}
	return l
}

// udExpect lists the lines for a target when nothing is damaged.
func udExpect(t udTarget, tool string, selects bool) []string {
	if t.Build != "" {
		return nil
	}
	un := t.unused()
	var out []string
	for i, d := range t.Deps {
		if !un[d.Label] {
			continue
		}
		if n := len(t.Deps); t.Form == 2 && n > 1 && i >= n/2 && !selects {
			continue // unconditional dependencies only
		}
		if d.Runtime {
			out = append(out, fmt.Sprintf("buildozer 'move deps runtime_deps %s' %s\n", d.Spell, t.label()))
		} else {
			out = append(out, fmt.Sprintf("buildozer \"add deps $(%s query 'labels(exports, %s)' | tr '\\n' ' ')\" %s\n", tool, d.Spell, t.label()),
				fmt.Sprintf("buildozer 'remove deps %s' %s\n", d.Spell, t.label()))
		}
	}
	return out
}

// damaged says whether what is known about a target is incomplete.
func (t udTarget) damaged(ts []udTarget) bool {
	if t.Params != "" && t.Params != "long" || t.Jdeps != "" || t.Fails {
		return true
	}
	mine := map[string]bool{}
	for _, j := range t.Jars {
		mine[j.Path] = true
	}
	for _, o := range ts {
		for _, j := range o.Jars {
			if j.Kind != "" && mine[j.Path] {
				return true
			}
		}
	}
	return false
}

// bazel is the stand-in for the build tool.
func udBazel(p *Plan) vfs.Program {
	ts := udTargets(p)
	return func(c *vfs.Child) int {
		if len(c.Args) < 2 {
			return 2
		}
		switch c.Args[1] {
		case "query", "cquery":
			c.Err("Loading: 0 packages loaded\n")
			for _, t := range ts {
				if c.Args[1] == "cquery" {
					c.Out(t.label() + " (1a2b3c)\n")
				} else {
					c.Out(t.label() + "\n")
				}
			}
			return p.I["queryrc"]
		case "info":
			key := c.Args[len(c.Args)-1]
			switch key {
			case "bazel-bin":
				c.Out(udOut + "/k8/bin\n")
			case "output_path":
				c.Out(udOut + "\n")
			case "output_base":
				c.Out("/x/out\n")
			default:
				return 2
			}
			return 0
		case "build":
			dir := ""
			for _, a := range c.Args {
				if strings.HasPrefix(a, "--override_repository=unused_deps=") {
					dir = strings.TrimPrefix(a, "--override_repository=unused_deps=")
				}
			}
			asp, ok := c.Content(dir + "/unused_deps.bzl")
			_, ok1 := c.Content(dir + "/WORKSPACE")
			_, ok2 := c.Content(dir + "/BUILD")
			if !ok || !ok1 || !ok2 || !strings.Contains(asp, "javac_params = aspect(") || strings.Count(asp, "\n") < 15 {
				c.Err("ERROR: no such package '@@unused_deps//'\n")
				return 1
			}
			rc := 0
			for i, t := range ts {
				if p.I["dies"] > 0 && i >= p.I["dies"]-1 {
					// the build tool breaks down here
					return 37
				}
				if t.Fails {
					rc = 1
					simrt.Do(func() {
						c.W.FS.Delete(t.output("javac_params"))
						c.W.FS.Delete(t.output("jdeps"))
					})
					continue
				}
				if t.Params == "missing" {
					simrt.Do(func() { c.W.FS.Delete(t.output("javac_params")) })
				} else {
					c.WriteFile(t.output("javac_params"), t.params())
				}
				if t.Jdeps == "missing" {
					simrt.Do(func() { c.W.FS.Delete(t.output("jdeps")) })
				} else {
					c.WriteFile(t.output("jdeps"), t.report())
				}
			}
			c.Err("INFO: Build completed\n")
			return rc
		}
		return 2
	}
}

// genUd draws targets.
func genUd(r *simrt.Rng, damage float64) *Plan {
	p := &Plan{Tree: Tree{}, S: map[string]string{}, I: map[string]int{}}
	n := 1 + r.Intn(4)
	if r.P(0.1) {
		n = 5 + r.Intn(15)
	}
	names := map[string]bool{}
	canon := float64(r.Intn(1000)) / 1000 // how this version of the build tool writes labels
	for len(p.Ops) < n {
		t := udTarget{Pkg: pick(r, "a", "b/c", "d", "java/com/x"), Name: pick(r, words...), Kind: pick(r, "java_library", "java_library", "java_test", "kt_jvm_library", "android_library"), Form: r.Intn(4)}
		if r.P(0.15) {
			t.Repo = "ext"
		}
		if r.P(0.2) {
			t.Bin = true
			t.Kind = "java_binary"
		}
		if names[t.label()] {
			t.Name += fmt.Sprint(len(p.Ops))
		}
		if names[t.label()] {
			continue
		}
		names[t.label()] = true
		// dependencies
		nd := r.Intn(6)
		seen := map[string]bool{}
		single := r.P(0.5)
		for i := 0; i < nd; i++ {
			pkg, nm := pick(r, t.Pkg, "lib", "third_party/y", "b/c"), pick(r, words...)
			if r.P(0.05) {
				pkg = "very/long/package/name/that/does/not/fit/into/one/line/of/a/manifest/file"
			}
			lab := "//" + pkg + ":" + nm
			spell := lab
			if t.Repo != "" {
				lab = "@ext" + lab
			}
			if pkg == t.Pkg && r.P(0.6) {
				spell = ":" + nm
			}
			if path.Base(pkg) == nm && r.P(0.7) {
				spell = "//" + pkg
			}
			if r.P(0.1) {
				lab = "@maven//:" + nm
				spell = lab
			}
			if seen[lab] {
				continue
			}
			seen[lab] = true
			d := udDep{Spell: spell, Label: lab, Runtime: r.P(0.15)}
			t.Deps = append(t.Deps, d)
			nj := 1
			if !single && r.P(0.3) {
				nj = 2
			}
			if r.P(0.05) {
				nj = 0
			}
			jl := lab
			if canon < 0.3 && strings.HasPrefix(lab, "//") {
				jl = "@" + lab
			} else if canon < 0.6 && strings.HasPrefix(lab, "//") {
				jl = "@@" + lab
			} else if canon < 0.7 && strings.HasPrefix(lab, "@") {
				jl = "@" + lab
			}
			for k := 0; k < nj; k++ {
				jp := strings.NewReplacer("//", "", "@", "", ":", "/").Replace(lab)
				j := udJar{Path: fmt.Sprintf("bazel-out/k8/bin/%s-%d.jar", jp, k), Label: jl, LF: r.P(0.2)}
				if t.Repo != "" {
					j.Path = fmt.Sprintf("bazel-out/k8/bin/external/%s-%d.jar", jp, k)
				}
				t.Jars = append(t.Jars, j)
			}
		}
		// jars without a rule of their own
		for r.P(0.2) {
			t.Jars = append(t.Jars, udJar{Path: fmt.Sprintf("bazel-out/k8/bin/third_party/raw%d.jar", len(t.Jars)), Kind: "nolabel"})
		}
		for i := len(t.Jars) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			t.Jars[i], t.Jars[j] = t.Jars[j], t.Jars[i]
		}
		for _, j := range t.Jars {
			if r.P(0.5) {
				t.Used = append(t.Used, j.Path)
			} else if r.P(0.3) {
				t.Implicit = append(t.Implicit, j.Path)
			}
		}
		if r.P(0.3) {
			t.Used = append(t.Used, "bazel-out/k8/bin/elsewhere/transitive.jar")
		}
		t.Stale = r.P(0.2)
		if r.P(damage) {
			t.Cut = r.Intn(4000)
			switch r.Intn(6) {
			case 0:
				t.Params = pick(r, "missing", "noflag", "atend", "long", "huge", "huge")
				if single {
					t.Params = pick(r, "missing", "noflag", "atend", "cut", "cut", "long")
				}
			case 1:
				t.Jdeps = pick(r, "missing", "cut", "cut", "cut", "garbage", "empty", "failed")
			case 2:
				t.Fails = true
			case 3:
				t.Build = pick(r, "missing", "broken", "norule", "nodeps")
			default:
				for i := range t.Jars {
					if r.P(0.4) {
						t.Jars[i].Kind = pick(r, "missing", "cut", "garbage", "cut")
						t.Jars[i].Cut = 1 + r.Intn(400)
					}
				}
			}
		}
		b, _ := json.Marshal(t)
		p.Ops = append(p.Ops, string(b))
	}
	if r.P(0.1 * damage) {
		p.I["dies"] = 1 + r.Intn(n+1)
	}
	if r.P(0.15) {
		p.I["queryrc"] = 3
	}
	st := Step{Tool: "unused_deps", Sched: genSched(r)}
	if r.P(0.2) {
		st.Args = append(st.Args, "-cquery")
	}
	if r.P(0.15) {
		st.Args = append(st.Args, "-build_tool=/usr/bin/bazel")
	}
	if r.P(0.1) {
		st.Args = append(st.Args, "-extra_build_flags=--config=x, -k")
	}
	if r.P(0.4) {
		st.Args = append(st.Args, "//a/...", "//b/c:all")
	}
	p.Steps = []Step{st}
	p.Kind = "build"
	return p
}

func udTool(st Step) string {
	for _, a := range st.Args {
		if strings.HasPrefix(a, "-build_tool=") {
			return strings.TrimPrefix(a, "-build_tool=")
		}
	}
	return "bazel"
}

func udRun(p *Plan, rn *Runner, st Step) (*Result, *vfs.FS) {
	t := udTree(p)
	fs := NewFS(t)
	old := rn.Progs
	rn.Progs = func(w *vfs.World) { w.Programs["/usr/bin/bazel"] = udBazel(p) }
	defer func() { rn.Progs = old }()
	return rn.Exec(fs, st), fs
}

// forTarget selects the output lines that concern a target.
func forTarget(ls []string, t udTarget) []string {
	var out []string
	for _, l := range ls {
		if strings.HasSuffix(l, " "+t.label()+"\n") {
			out = append(out, l)
		}
	}
	return out
}

var udReal = "unused_deps main, jar_manifest, edit (label interpretation, rule lookup), labels, build, wspace of /repo's working tree; protobuf library; archive/zip on the simulated files"
var udStub = "operating system, file system, clock, scheduler; the build tool (query, build, info) is a program that produces outputs from the plan"

func init() {
	register(&Check{
		Prop: "C22", Gen: genC22, Run: runC22, Real: udReal, Stub: udStub,
		Rule: "A build with random targets, jars, parameter files and dependency reports; missing, truncated, damaged and stale ones, failing and dying helper commands, and read errors at any file; every removal command printed must follow from the true usage data, and targets not concerned must get exactly their commands.",
	})
	register(&Check{
		Prop: "C23", Gen: genC23, Run: runC23, Real: udReal, Stub: udStub,
		Rule: "Runs with failing helpers and errors on every temporary and output file operation; the temporary directory must be gone, the workspace unchanged and an incomplete result reported.",
	})
}

func genC22(r *simrt.Rng, rn *Runner) *Plan {
	p := genUd(r, []float64{0, 0.3, 0.7}[r.Intn(3)])
	st := &p.Steps[0]
	if r.P(0.5) {
		dry, _ := udRun(p, rn, calmed(*st))
		cand := injectable(dry.Events, func(e vfs.Event) bool {
			return e.Pid == 0 && e.Op != "write" && !underTmp(e.Path) || e.Op == "exec"
		})
		for i, k := 0, 1+r.Intn(2); i < k && len(cand) > 0; i++ {
			j := cand[r.Intn(len(cand))]
			e := dry.Events[j]
			if e.Op == "exec" {
				f := faultAt(dry.Events, j)
				switch r.Intn(4) {
				case 0:
					f.Kind, f.Err = "err", errFor(r, "exec")
				case 1:
					f.Kind, f.N, f.Arg = "exit", pickInt(r, 1, 2, 3, 7, 36, 37), "ERROR: no\n"
				case 2:
					f.Kind, f.N = "killed", r.Intn(100)
				default:
					f.Kind, f.N = "fail", pickInt(r, 1, 2, 3, 8, 37)
				}
				st.Faults = append(st.Faults, f)
				continue
			}
			st.Faults = append(st.Faults, genErrFault(r, dry.Events, j))
		}
		p.Kind = "faults"
	}
	return p
}

func pickInt(r *simrt.Rng, xs ...int) int { return xs[r.Intn(len(xs))] }

func runC22(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	ts := udTargets(p)
	for _, f := range st.Faults {
		// status 1 of a build that keeps going says that it came to its end
		if f.Op == "exec" && f.N == 1 && (f.Kind == "exit" || p.I["dies"] > 0) {
			return nil
		}
	}
	res, _ := udRun(p, rn, st)
	if !res.Ended() {
		return nil // C21
	}
	got := lines(res.Stdout)
	tool := udTool(st)
	helper := false // some helper did not work
	built := false
	seen := 0
	for _, e := range res.Events {
		if e.Op != "exec" && e.Op != "wait" {
			continue
		}
		sub := ""
		if a := strings.Split(e.Data, "\x00"); e.Op == "exec" && len(a) > 1 {
			sub = a[1]
		}
		if sub == "build" {
			built = true
		}
		if e.Err != "" || e.Flt != "" || e.Op == "wait" && e.N != 0 && e.N != 1 && e.N != 3 {
			helper = true
		}
	}
	if p.I["dies"] > 0 && p.I["dies"] <= len(ts) {
		helper = true
	}
	for _, t := range ts {
		ls := forTarget(got, t)
		seen += len(ls)
		want := udExpect(t, tool, false)
		if len(want) > 0 {
			rn.Probe("unused dependency")
		}
		// sound: every command follows from the truth
		left := map[string]int{}
		for _, w := range udExpect(t, tool, true) {
			left[w]++
		}
		for _, l := range ls {
			if left[l]--; left[l] < 0 {
				return viol("unsound", "%s: the command %s does not follow from what the build knows about %s", cmdline(st), strings.TrimSpace(l), t.label())
			}
		}
		// no fresh evidence, no command
		if len(ls) > 0 && (t.Fails || t.Params == "missing" || t.Jdeps != "" && t.Jdeps != "cut") {
			return viol("evidence", "%s: %s although the evidence for %s is missing or bad (parameters %q, report %q, build failed: %v)", cmdline(st), strings.TrimSpace(ls[0]), t.label(), t.Params, t.Jdeps, t.Fails)
		}
		if helper || t.damaged(ts) || t.Repo != "" {
			continue // the files of other repositories are not always found
		}
		touched := false
		for _, o := range ts {
			touched = touched || o.Build == "broken" && o.buildFile() == t.buildFile()
		}
		for i, f := range st.Faults {
			if i < len(res.Fired) && res.Fired[i] && f.Path != "" {
				touched = touched || udConcerns(t, ts, f.Path)
			}
		}
		if touched {
			continue
		}
		if len(ls) != len(want) {
			return viol("others", "%s: nothing is wrong with %s, but its commands are %q instead of %q", cmdline(st), t.label(), ls, want)
		}
		for i := range ls {
			if ls[i] != want[i] {
				return viol("others", "%s: nothing is wrong with %s, but its commands are %q instead of %q", cmdline(st), t.label(), ls, want)
			}
		}
	}
	if seen != len(got) {
		return viol("unknown", "%s: output that concerns no target: %q", cmdline(st), res.Stdout)
	}
	// a build that broke down leaves the outputs of an earlier one
	if len(got) > 0 {
		for _, e := range res.Events {
			if e.Op == "wait" && (e.Err != "" || e.N != 0 && e.N != 1) || e.Op == "exec" && e.Err != "" {
				if udSub(res, e) == "build" {
					return viol("nobuild", "%s: the build could not be run (%s), but there is output: %s", cmdline(st), e.String(), quoteShort(res.Stdout))
				}
			}
		}
		if !built {
			return viol("nobuild", "%s: output without a build: %s", cmdline(st), quoteShort(res.Stdout))
		}
	}
	return nil
}

// udSub is the subcommand of a helper process.
func udSub(res *Result, e vfs.Event) string {
	for _, x := range res.Events {
		if x.Op == "exec" && x.Pid == e.Pid {
			if a := strings.Split(x.Data, "\x00"); len(a) > 1 {
				return a[1]
			}
		}
	}
	return ""
}

// udConcerns says whether a path carries information about a target.
func udConcerns(t udTarget, ts []udTarget, p string) bool {
	dir := path.Dir(t.buildFile())
	if p == dir || strings.HasPrefix(p, dir+"/") || strings.HasPrefix(dir+"/", p+"/") {
		return true
	}
	if t.Repo != "" && (strings.HasPrefix(p, "/w/") || p == "/w") {
		return true
	}
	if path.Base(p) == "WORKSPACE" || !strings.HasPrefix(p, udOut) && !strings.HasPrefix(p, "/x/") {
		return true
	}
	for _, x := range []string{"javac_params", "jdeps"} {
		if p == t.bin()+t.Name+"."+x || p == t.bin()+"lib"+t.Name+"."+x {
			return true
		}
	}
	for _, j := range t.Jars {
		if p == j.file() {
			return true
		}
	}
	return false
}

func genC23(r *simrt.Rng, rn *Runner) *Plan {
	p := genUd(r, 0.2)
	st := &p.Steps[0]
	if r.P(0.4) {
		p.Kind = "file"
		st.Args = []string{"-extra_action_file=/w/x.xa", "-output_file=" + pick(r, "/w/unused.txt", "/home/u/out/unused.txt")}
		if r.P(0.2) {
			p.Tree["/w/unused.txt"] = vfs.Node{Data: "old\n"}
		}
		if !strings.HasPrefix(st.Args[1], "-output_file=/home") || r.P(0.8) {
			p.Tree["/home/u/out"] = vfs.Node{Kind: "dir"}
		}
	} else if r.P(0.3) {
		st.Env = map[string]string{"TMPDIR": "/home/u/tmp"}
		p.Tree["/home/u/tmp"] = vfs.Node{Kind: "dir"}
	}
	if r.P(0.85) {
		dry, _ := udStep(p, rn, calmed(*st))
		cand := injectable(dry.Events, func(e vfs.Event) bool { return e.Pid == 0 || e.Op == "exec" })
		mut := injectable(dry.Events, func(e vfs.Event) bool { return e.Pid == 0 && e.Mut || e.Op == "write" })
		for i, k := 0, 1+r.Intn(2); i < k && len(cand) > 0; i++ {
			j := cand[r.Intn(len(cand))]
			if len(mut) > 0 && r.P(0.6) {
				j = mut[r.Intn(len(mut))]
			}
			if dry.Events[j].Op == "exec" {
				f := faultAt(dry.Events, j)
				f.Kind, f.N = pick(r, "exit", "killed", "fail"), 1+r.Intn(40)
				if r.P(0.3) {
					f.Kind, f.Err = "err", errFor(r, "exec")
				}
				st.Faults = append(st.Faults, f)
				continue
			}
			if f := genErrFault(r, dry.Events, j); f.Op != "unlink" && f.Op != "rmdir" {
				if f.Path != "/dev/stdout" && f.Path != "/dev/stderr" && strings.HasPrefix(path.Base(path.Dir(f.Path)), "unused_deps") || strings.HasPrefix(path.Base(f.Path), "unused_deps") {
					// a random name: count all operations of the kind
					f.Path, f.Nth = "", 0
					for _, x := range dry.Events[:j+1] {
						if x.Op == f.Op {
							f.Nth++
						}
					}
				}
				st.Faults = append(st.Faults, f)
			}
		}
	}
	return p
}

// udStep runs either form of the tool.
func udStep(p *Plan, rn *Runner, st Step) (*Result, *vfs.FS) {
	if p.Kind != "file" {
		return udRun(p, rn, st)
	}
	t := udTree(p)
	ts := udTargets(p)
	if len(ts) > 0 {
		g := ts[0]
		jar := "bazel-out/k8/bin/" + g.Pkg + "/lib" + g.Name + ".jar"
		t["/w/x.xa"] = vfs.Node{Data: pbBytes(1, "//o") + pbBytes(1000, pbBytes(1, jar))}
		t["/w/"+jar+"-2.params"] = vfs.Node{Data: g.params()}
		if g.Params == "missing" {
			delete(t, "/w/"+jar+"-2.params")
		}
		t["/w/"+strings.TrimSuffix(jar, ".jar")+".jdeps"] = vfs.Node{Data: g.report()}
		for _, j := range g.Jars {
			if j.Kind != "missing" {
				t["/w/"+j.Path] = vfs.Node{Data: j.content()}
			}
		}
	}
	fs := NewFS(t)
	return rn.Exec(fs, st), fs
}

func runC23(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	ts := udTargets(p)
	if len(ts) == 0 {
		return nil
	}
	res, fs := udStep(p, rn, st)
	if !res.Ended() {
		return nil // C21
	}
	// the temporary directory
	if !failedUnlink(res) {
		for _, d := range []string{"/tmp", "/home/u/tmp"} {
			for q := range fs.Snapshot(d) {
				if q != d {
					return viol("leak", "%s (%s) leaves %s behind", cmdline(st), res.How(), q)
				}
			}
		}
	}
	out := ""
	for _, a := range st.Args {
		if strings.HasPrefix(a, "-output_file=") {
			out = strings.TrimPrefix(a, "-output_file=")
		}
	}
	for q := range mutated(res) {
		if q != out && !strings.HasPrefix(q, "/home/u/tmp") && !strings.HasPrefix(q, "/dev/") {
			return viol("workspace", "%s changes %s", cmdline(st), q)
		}
	}
	ref, rfs := udStep(p, rn, calmed(st))
	if !refOK(ref) {
		return nil
	}
	if p.Kind == "file" {
		g := ts[0]
		want, wok := rfs.Snapshot("/")[out]
		got, ok := fs.Snapshot("/")[out]
		if res.Exit == 0 && wok && ref.Exit == 0 {
			bad := false
			for _, e := range res.Events {
				bad = bad || e.Err != "" && e.Err != "EOF" && e.Path != out && e.Pid == 0 && !strings.HasPrefix(e.Path, "/dev/")
			}
			if !ok || !bad && got.Data != want.Data {
				return viol("result", "%s: exit status 0, but the result file is %s instead of %s", cmdline(st), describeNode(got), describeNode(want))
			}
		}
		if res.Exit == 0 && failedOps(res, out, "create", "write", "close", "open") {
			return viol("silent", "%s: writing %s failed, but the exit status is 0", cmdline(st), out)
		}
		if res.Exit != 0 && res.Stderr == "" && !failedOps(res, "/dev/stderr", "write") {
			return viol("silent", "%s: exit status %d without a message", cmdline(st), res.Exit)
		}
		if !res.AnyFired() && res.Exit == 0 {
			// the content
			exp := map[string]bool{}
			if !g.damaged(ts) {
				for l := range g.unused() {
					exp[l+"\n"] = true
				}
				gl := map[string]bool{}
				for _, l := range lines(got.Data) {
					// both spellings name a target of the main repository
					gl[norm(l)] = true
				}
				if fmt.Sprint(keysOf(exp)) != fmt.Sprint(keysOf(gl)) {
					return viol("content", "%s: the result file lists %q instead of %q", cmdline(st), keysOf(gl), keysOf(exp))
				}
				rn.Probe("result file")
			}
		}
		return nil
	}
	if res.Exit == 0 && failedOps(res, "/dev/stdout", "write") {
		return viol("stdout", "%s: writing the commands failed, but the exit status is 0", cmdline(st))
	}
	// what the aspect could not be set up for is not built
	if res.Exit == 0 && len(res.Stdout) > 0 {
		for _, e := range res.Events {
			if e.Err != "" && (strings.HasPrefix(path.Base(path.Dir(e.Path)), "unused_deps") && e.Op != "unlink" || e.Op == "mkdir") && e.Pid == 0 && e.Op != "rmdir" && e.Op != "stat" && e.Op != "lstat" && e.Op != "open" && e.Op != "readdir" && e.Err != "EEXIST" {
				return viol("aspect", "%s: %s failed, but the run goes on", cmdline(st), e.String())
			}
		}
	}
	return nil
}

func keysOf(m map[string]bool) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// failedUnlink says whether removing something was refused.
func failedUnlink(r *Result) bool {
	removing := false
	for _, e := range r.Events {
		removing = removing || e.Op == "unlink" || e.Op == "rmdir"
		if e.Flt == "" || !removing {
			continue
		}
		switch e.Op {
		case "unlink", "rmdir", "lstat", "stat", "fstat", "open", "readdir":
			return true
		}
	}
	return false
}
