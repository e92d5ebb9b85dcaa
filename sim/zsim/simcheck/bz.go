package main

import (
	"fmt"
	"path"
	"regexp"
	"sort"
	"strconv"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

var bzReal = "buildozer main, edit (commands, label resolution, worker pool, external formatter call), file, wspace, build, labels, tables of /repo's working tree; protobuf and JSON libraries"

// The traced rule. A trace command appends a mark to its tag, so that after a run the tag is the
// exact history of the trace commands executed on the file.
const traceRule = "trace_rule(\n    name = \"tr\",\n    tags = [\"m\"],\n)\n"
const libRule = "cc_library(\n    name = \"lib\",\n    srcs = [\"lib.cc\"],\n    deps = [\n        \":a\",\n        \"//b/c:d\",\n    ],\n)\n"

var traceRE = regexp.MustCompile(`name = "tr",\s*tags = \["(m[^"]*)"\]`)
var lineRE = regexp.MustCompile(`^%-?[0-9]+$`)
var traceCmdRE = regexp.MustCompile(`^substitute tags \^\(\.\*\)\$ \$\{1\}(\.\S+)$`)

func traceCmd(mark string) string { return "substitute tags ^(.*)$ ${1}." + mark }

// failing commands that are understood, but fail on every rule.
var failCmds = []string{"copy tags nosuchrule", "substitute tags ( x", "copy_no_overwrite zzz nosuchrule"}

// fatalCmd makes a file that can't be parsed again, so that it can't be written, not even with -k.
const fatalCmd = "set zz ="

// nullCmd is carried out and leaves everything as it is.
const nullCmd = "substitute tags ^(.*)$ ${1}"

// missingRule is a rule no file has.
const missingRule = "nosuchrule"

func isFailCmd(c string) bool {
	for _, f := range failCmds {
		if f == c {
			return true
		}
	}
	return false
}

var buildNames = []string{"BUILD.bazel", "BUILD", "BUCK"}

// A command of p.Ops has barMark for every "|" that belongs to it.
const barMark = "\x01"

func esc(c string) string   { return strings.ReplaceAll(c, "|", barMark) }
func unesc(c string) string { return strings.ReplaceAll(c, barMark, "|") }

func escAll(cs []string) []string {
	var out []string
	for _, c := range cs {
		out = append(out, esc(c))
	}
	return out
}

// bzLine is one set of commands for some labels.
type bzLine struct{ cmds, labels []string }

// bzLines parses the operations of a plan.
func bzLines(p *Plan) []bzLine {
	var out []bzLine
	for _, op := range p.Ops {
		var l bzLine
		for _, a := range strings.Split(op, "|") {
			if a == "*" {
				l.labels = append(l.labels, p.Names...)
			} else if _, ok := p.S["L:"+a]; ok {
				l.labels = append(l.labels, a)
			} else {
				l.cmds = append(l.cmds, unesc(a))
			}
		}
		out = append(out, l)
	}
	return out
}

// bzFiles lists the files a label stands for.
func bzFiles(p *Plan, label string) []string {
	s := p.S["L:"+label]
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

func ruleOf(label string) string {
	if i := strings.LastIndex(label, ":"); i >= 0 {
		return label[i+1:]
	}
	return "__pkg__"
}

// bzAll lists every file that is referred to, in order.
func bzAll(p *Plan) []string {
	m := map[string]bool{}
	for _, l := range bzLines(p) {
		for _, lab := range l.labels {
			for _, f := range bzFiles(p, lab) {
				m[f] = true
			}
		}
	}
	var out []string
	for f := range m {
		out = append(out, f)
	}
	sort.Strings(out)
	return out
}

// bzValid reports whether the files the labels stand for still exist (the minimiser may have removed some).
func bzValid(p *Plan) bool {
	for _, f := range bzAll(p) {
		if _, ok := p.Tree[f]; !ok {
			return false
		}
	}
	if n, ok := p.Tree[p.S["root"]]; !ok || n.Data != p.S["ws"] {
		return false
	}
	return len(p.Ops) > 0
}

// canonical is the plain absolute label of a rule in a file.
func canonical(f, rule string) string {
	b := path.Base(f)
	for _, n := range buildNames {
		if b == n {
			return "//" + pkgOf(f) + ":" + rule
		}
	}
	return "//" + strings.TrimPrefix(f, "/w/") + ":" + rule
}

// bzConfirm keeps a violation only if every file named by a label can be read and parsed, so that the
// models speak about it (the minimiser shortens files).
func bzConfirm(p *Plan, rn *Runner, v *Violation) *Violation {
	if v == nil {
		return nil
	}
	for _, f := range bzAll(p) {
		st := Step{Tool: "buildozer", Sched: calm(), Args: []string{"-numio=1", "print name tags", canonical(f, "tr")}}
		if res := rn.Exec(NewFS(p.Tree), st); res.Exit != 0 || res.Stdout != "tr [m]\n" {
			return nil
		}
	}
	return v
}

func confirmed(run func(p *Plan, rn *Runner) *Violation) func(p *Plan, rn *Runner) *Violation {
	return func(p *Plan, rn *Runner) *Violation { return bzConfirm(p, rn, run(p, rn)) }
}

// deco writes command lines the way people do.
func deco(seed int, ops []string) string {
	ops = append([]string(nil), ops...)
	for i := range ops {
		ops[i] = strings.ReplaceAll(ops[i], barMark, `\|`)
	}
	if seed == 0 {
		if len(ops) == 0 {
			return ""
		}
		return strings.Join(ops, "\n") + "\n"
	}
	r := simrt.NewRng(uint64(seed))
	var b strings.Builder
	for i, o := range ops {
		for r.P(0.3) {
			b.WriteString(pick(r, "\n", "# comment | here\n", "   \n", "\t# x\n", "#\n"))
		}
		if r.P(0.2) {
			b.WriteString(pick(r, " ", "\t", "   "))
		}
		b.WriteString(o)
		if r.P(0.2) {
			b.WriteString(pick(r, " ", "\t", "\r"))
		}
		if i < len(ops)-1 || r.P(0.7) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// huge makes a line of a command file very long.
func huge(p *Plan, text string) string {
	n := p.I["huge"]
	if n == 0 || text == "" {
		return text
	}
	switch p.S["hugekind"] {
	case "comment":
		return "# " + strings.Repeat("m", n) + "\n" + text
	case "label":
		// blanks at the end of the first line
		if i := strings.Index(text, "\n"); i >= 0 {
			return text[:i] + strings.Repeat(" ", n) + text[i:]
		}
		return text + strings.Repeat(" ", n)
	}
	return strings.Repeat(" ", n) + text
}

// bzStep makes the process of a plan: commands as arguments or in command files.
func bzStep(p *Plan) (Tree, Step) {
	st := p.Steps[0]
	st.Args = append([]string(nil), st.Args...)
	t := Tree{}
	for k, v := range p.Tree {
		t[k] = v
	}
	mode := p.S["mode"]
	if mode == "args" && len(p.Ops) != 1 {
		mode = "file"
	}
	switch mode {
	case "args":
		for _, a := range strings.Split(p.Ops[0], "|") {
			st.Args = append(st.Args, unesc(a))
		}
	case "stdin":
		st.Args = append(st.Args, "-f", "-")
		st.Stdin = huge(p, deco(p.I["deco"], p.Ops))
		st.Args = append(st.Args, p.Names...)
	case "files":
		k := p.I["split"]
		if k > len(p.Ops) {
			k = len(p.Ops)
		}
		t["/home/u/c1"] = vfs.Node{Data: huge(p, deco(p.I["deco"], p.Ops[:k]))}
		t["/home/u/c2"] = vfs.Node{Data: deco(p.I["deco"], p.Ops[k:])}
		st.Args = append(st.Args, "-f", "/home/u/c1", "-f", "/home/u/c2")
		st.Args = append(st.Args, p.Names...)
	default:
		t["/home/u/c1"] = vfs.Node{Data: huge(p, deco(p.I["deco"], p.Ops))}
		st.Args = append(st.Args, "-f", "/home/u/c1")
		st.Args = append(st.Args, p.Names...)
	}
	return t, st
}

// bzRef runs the operations that concern one file alone: plain labels, no faults, one worker.
func bzRef(p *Plan, rn *Runner, file string) (*Result, map[string]vfs.Node) {
	var ops []string
	for _, l := range bzLines(p) {
		var labs []string
		for _, lab := range l.labels {
			for _, f := range bzFiles(p, lab) {
				if f == file {
					if strings.HasPrefix(lab, "@") {
						// the package of such a label has nothing to do with the file
						labs = append(labs, lab)
					} else {
						labs = append(labs, canonical(file, ruleOf(lab)))
					}
				}
			}
		}
		if len(labs) > 0 {
			ops = append(ops, strings.Join(append(escAll(l.cmds), labs...), "|"))
		}
	}
	if len(ops) == 0 {
		return nil, nil
	}
	t := Tree{}
	for k, v := range p.Tree {
		t[k] = v
	}
	t["/home/u/c0"] = vfs.Node{Data: deco(0, ops)}
	st := calmed(p.Steps[0])
	var args []string
	for _, a := range st.Args {
		if !strings.HasPrefix(a, "-numio") && !strings.HasPrefix(a, "-P") {
			args = append(args, a)
		}
	}
	st.Args = append(args, "-numio=1", "-f", "/home/u/c0")
	st.Cwd = "/w"
	st.Files = nil
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	return res, fs.Snapshot("/w")
}

// bzOpt says what genBz draws.
type bzOpt struct {
	n       int
	broken  float64
	failing float64 // probability of a failing command
	other   float64 // probability of another command
	null    float64 // probability of a command without effect
	print   bool
	flags   bool // flags that say how commands are carried out
	plain   bool // only plain labels
	modes   []string
}

// otherCmds edit the rule lib.
func otherCmd(r *simrt.Rng, i int) (cmd, rule string) {
	w := words[r.Intn(len(words))]
	switch r.Intn(10) {
	case 0:
		return fmt.Sprintf("new %s n%d", kinds[r.Intn(len(kinds))], i), "__pkg__"
	case 1:
		return fmt.Sprintf("new_load //x:y%d.bzl %s sym%d", r.Intn(3), w, i), "__pkg__"
	case 2:
		return "replace_load //x:z.bzl " + w + " sym b=c", "__pkg__"
	case 3:
		if r.P(0.4) {
			// (the second and later lines of such a comment are full lines)
			return pick(r, "comment two"+w+"\\nlines", "comment deps c"+w, "comment deps :a c"+w, "comment deps :a one\\ntwo", "comment srcs x|y"), "lib"
		}
		return "comment c" + w, pick(r, "lib", "__pkg__", "all")
	case 4:
		return pick(r, "remove deps", "remove srcs", "remove deps :a"), "lib"
	case 5:
		return pick(r, "move deps runtime_deps *", "rename srcs hdrs", "copy srcs lib", "set name lib2", "delete", "set kind cc_binary", "set_if_absent linkstatic 1", "remove_comment"), "lib"
	case 6:
		return "set visibility //" + w + ":__pkg__", pick(r, "lib", "all", "%cc_library")
	case 7:
		return "dict_add env " + w + ":" + fmt.Sprint(i), "lib"
	case 8:
		return pick(r, "fix", "format", "fix movePackageToTop", "substitute_load //a:(.*) //aa:$1", "set default_visibility //visibility:private"), "__pkg__"
	}
	return "add deps //x:" + w + " :" + words[r.Intn(len(words))], pick(r, "lib", "%cc_library", "all")
}

var printCmds = []string{"print name kind", "print label deps", "print", "print rule", "print name tags srcs", "print startline endline path", "print_comment", "print name visibility", "print attrs"}

// genBz draws a workspace, labels in different spellings and commands for them.
func genBz(r *simrt.Rng, o bzOpt) *Plan {
	p := &Plan{Tree: Tree{}, S: map[string]string{}, I: map[string]int{}}
	t := p.Tree
	var scripts []corpusScript
	if r.P(0.4) {
		scripts = pickScripts(r, 1+r.Intn(4))
	}
	ws := "# root\n"
	hasRepo := r.P(0.4) && !o.plain
	if hasRepo {
		ws = "workspace(name = \"w\")\n\nnew_local_repository(\n    name = \"r\",\n    build_file = \"//third_party:r.BUILD\",\n    path = \"x\",\n)\n"
	}
	root := pick(r, "WORKSPACE", "WORKSPACE.bazel", "MODULE.bazel", "REPO.bazel")
	if hasRepo {
		root = "WORKSPACE"
	}
	t["/w/"+root] = vfs.Node{Data: ws}
	p.S["root"] = "/w/" + root
	p.S["ws"] = ws
	vars := o.flags && r.P(0.2)
	content := func() string {
		s := ""
		if vars && r.P(0.8) {
			// (the same names everywhere)
			s = "LIB_DEPS = [\n    \":v\",\n]\n\ncc_library(\n    name = \"vl\",\n    deps = LIB_DEPS,\n)\n\n"
			if r.P(0.3) {
				s += "trace_rule(\n    name = \"vm\",\n    deps = LIB_DEPS + [\":w\"],\n)\n\n"
			}
		}
		if r.P(0.5) {
			s += genBuild(r, []float64{0, 0, 0.3}[r.Intn(3)]) + "\n"
		}
		if r.P(0.7) && !strings.Contains(s, "\"lib\"") {
			s += libRule + "\n"
		}
		for _, c := range scripts {
			if r.P(0.5) {
				s += strings.TrimSuffix(c.In, "\n") + "\n\n"
			}
		}
		s += traceRule
		if r.P(o.broken) {
			s = genBroken(r)
		}
		return s
	}
	type pkg struct{ dir, file string }
	var pkgs []pkg
	dirs := map[string]bool{}
	odd := r.P(0.08)
	for i := 0; len(pkgs) < o.n; i++ {
		d := pick(r, dirsPool...)
		if i > 2*o.n {
			d = fmt.Sprintf("p%d", i)
		}
		if odd {
			d = path.Join(d, oddPkgs[r.Intn(len(oddPkgs))])
		}
		if dirs[d] {
			continue
		}
		dirs[d] = true
		names := []string{buildNames[r.Intn(3)]}
		if r.P(0.2) {
			names = []string{"BUILD.bazel", "BUILD"}
		}
		if r.P(0.05) {
			names = append([]string(nil), buildNames...)
		}
		if len(names) == 1 && r.P(0.7) {
			names[0] = "BUILD"
		}
		if names[0] != "BUILD.bazel" && r.P(0.05) {
			// a directory of that name is no BUILD file
			t[path.Join("/w", d, "BUILD.bazel")] = vfs.Node{Kind: "dir"}
		}
		for _, n := range names {
			t[path.Join("/w", d, n)] = vfs.Node{Data: content()}
		}
		pkgs = append(pkgs, pkg{d, path.Join("/w", d, names[0])})
	}
	if hasRepo {
		t["/w/third_party/r.BUILD"] = vfs.Node{Data: content()}
	}
	tpl := r.P(0.3) && !o.plain
	if tpl {
		t["/w/toolchains/BUILD.tpl"] = vfs.Node{Data: content()}
	}
	st := Step{Tool: "buildozer", Sched: genSched(r)}
	cwd := ""
	if !o.plain && r.P(0.4) {
		cwd = pkgs[r.Intn(len(pkgs))].dir
	}
	if cwd != "" {
		st.Cwd = "/w/" + cwd
	}
	rootDir := !o.plain && r.P(0.15)
	if rootDir {
		st.Args = append(st.Args, "-root_dir=/w")
		st.Cwd = "/home/u"
	}
	label := func(rule string) string {
		k := r.Intn(12)
		if o.plain {
			k = 5 + r.Intn(4)
		}
		g := pkgs[r.Intn(len(pkgs))]
		b := path.Base(g.file)
		lab, files := "", []string{g.file}
		rel := func(d string) (string, bool) {
			if rootDir {
				return "", false
			}
			if cwd == "" {
				return d, true
			}
			if d == cwd {
				return "", true
			}
			if strings.HasPrefix(d, cwd+"/") {
				return d[len(cwd)+1:], true
			}
			return "", false
		}
		switch k {
		case 0, 1:
			if x, ok := rel(g.dir); ok {
				lab = x + ":" + rule
			}
		case 2:
			lab = "//" + path.Join(g.dir, b) + ":" + rule
		case 3:
			if rule == "__pkg__" {
				lab = "//" + path.Join(g.dir, b)
			}
		case 4:
			if x, ok := rel(g.dir); ok {
				lab = path.Join(x, b) + ":" + rule
			}
		case 9:
			// everything below a directory
			lab = "//" + path.Join(g.dir, "...") + ":" + rule
			if x, ok := rel(g.dir); ok && r.P(0.3) {
				lab = path.Join(x, "...") + ":" + rule
			}
			files = nil
			for _, h := range pkgs {
				if h.dir == g.dir || g.dir == "" || strings.HasPrefix(h.dir, g.dir+"/") {
					files = append(files, h.file)
				}
			}
		case 10:
			if hasRepo {
				lab = pick(r, "@r//:", "@r//x:", "@@r//:") + rule
				files = []string{"/w/third_party/r.BUILD"}
			}
		case 11:
			if tpl {
				lab = "//toolchains/BUILD.tpl:" + rule
				files = []string{"/w/toolchains/BUILD.tpl"}
			}
		}
		if lab == "" {
			lab = "//" + g.dir + ":" + rule
		}
		p.S["L:"+lab] = strings.Join(files, ",")
		return lab
	}
	mark := 0
	cmdFor := func() (string, string) {
		mark++
		switch {
		case o.print:
			return printCmds[r.Intn(len(printCmds))], pick(r, "all", "tr", "lib", "*", "%cc_library", "__pkg__", "nosuch")
		case r.P(o.failing / 4):
			return fatalCmd, "tr"
		case r.P(o.failing):
			if r.P(0.3) {
				return traceCmd(fmt.Sprint(mark)), missingRule
			}
			return failCmds[r.Intn(len(failCmds))], "tr"
		case vars && r.P(o.other/2):
			return "add deps //v:" + words[r.Intn(len(words))], pick(r, "vl", "%cc_library", "all")
		case r.P(o.other):
			if len(scripts) > 0 && r.P(0.6) {
				c := scripts[r.Intn(len(scripts))]
				if cmd := c.Cmds[r.Intn(len(c.Cmds))]; usable(cmd) && !isFailCmd(cmd) {
					return cmd, scriptRule(c)
				}
			}
			return otherCmd(r, mark)
		case r.P(o.null):
			return nullCmd, "tr"
		}
		if r.P(0.15) {
			// the trace rule as one of several; the others have no tags
			return traceCmd(fmt.Sprint(mark)), pick(r, "all", "*", "%trace_rule")
		}
		if r.P(0.08) {
			return traceCmd(fmt.Sprint(mark) + pick(r, "|", "|x|", "||y")), "tr"
		}
		return traceCmd(fmt.Sprint(mark)), "tr"
	}
	modes := o.modes
	if len(modes) == 0 {
		modes = []string{"args", "file", "file", "files", "stdin", "star"}
	}
	mode := modes[r.Intn(len(modes))]
	n := 1 + r.Intn(6)
	if r.P(0.1) {
		n = 10 + r.Intn(30)
	}
	if r.P(0.01) {
		n = 100 + r.Intn(150)
	}
	if mode == "args" {
		n = 1
	}
	p.S["mode"] = mode
	if mode == "star" {
		p.S["mode"] = pick(r, "file", "stdin")
		for i := 0; i < 1+r.Intn(4); i++ {
			p.Names = append(p.Names, label("tr"))
		}
		for i := 0; i < n; i++ {
			c, rule := cmdFor()
			if rule != "tr" || r.P(0.2) {
				p.Ops = append(p.Ops, esc(c)+"|"+label(rule))
			} else {
				p.Ops = append(p.Ops, esc(c)+"|*")
			}
		}
	} else {
		for i := 0; i < n; i++ {
			c, rule := cmdFor()
			cmds := []string{c}
			for r.P(0.35) && len(cmds) < 4 {
				c2, rule2 := cmdFor()
				if rule2 == rule || o.print {
					cmds = append(cmds, c2)
				}
			}
			var labs []string
			nl := 1
			for r.P(0.45) {
				nl++
			}
			if mode == "args" && r.P(0.5) {
				nl += r.Intn(6)
			}
			for j := 0; j < nl; j++ {
				if r.P(o.failing / 4) {
					labs = append(labs, label(missingRule))
				} else {
					labs = append(labs, label(rule))
				}
			}
			cmds = escAll(cmds)
			args := append(cmds, labs...)
			if r.P(0.1) {
				args = append(append([]string(nil), labs...), cmds...)
			}
			p.Ops = append(p.Ops, strings.Join(args, "|"))
		}
		if r.P(0.2) && mode == "file" {
			// a label on the command line that no line asks for
			p.Names = nil
		}
	}
	if r.P(0.5) {
		p.I["deco"] = 1 + r.Intn(1<<30)
	}
	p.I["split"] = r.Intn(n + 1)
	if r.P(0.7) {
		st.Args = append(st.Args, "-numio="+pick(r, "1", "2", "3", "4", "8", "64"))
	}
	if r.P(0.15) {
		st.Args = append(st.Args, "-P=2")
	}
	if r.P(0.1) {
		st.Args = append(st.Args, "-quiet")
	}
	if r.P(0.1) {
		st.Args = append(st.Args, "-eol-comments=false")
	}
	if vars && r.P(0.8) {
		st.Args = append(st.Args, "-edit-variables")
	}
	if o.flags {
		if r.P(0.04) {
			st.Args = append(st.Args, "-shorten_labels=false")
		}
		if r.P(0.04) {
			st.Args = append(st.Args, "-delete_with_comments=false")
		}
		if r.P(0.04) {
			st.Args = append(st.Args, "-types="+pick(r, "trace_rule", "cc_library,trace_rule"))
		}
		if r.P(0.06) {
			t["/home/u/tables.json"] = vfs.Node{Data: pick(r, "{}", "{\"IsLabelArg\": {\"tags\": true, \"deps\": true}, \"IsSortableListArg\": {\"runtime_deps\": true}}", "{\"LabelDenylist\": {\"cc_library.deps\": true}, \"NamePriority\": {\"deps\": -50}}")}
			st.Args = append(st.Args, pick(r, "-tables", "-add_tables")+"=/home/u/tables.json")
		}
	}
	if p.S["mode"] == "stdin" {
		for i, k := 0, r.Intn(6); i < k; i++ {
			st.Chunks = append(st.Chunks, 1+r.Intn(50))
		}
	}
	p.Steps = []Step{st}
	return p
}

// nPackages draws a number of packages.
func nPackages(r *simrt.Rng) int {
	if r.P(0.15) {
		return 12 + r.Intn(40)
	}
	if r.P(0.02) {
		return 70 + r.Intn(250)
	}
	return 1 + r.Intn(6)
}

// traceModel is the small reference model: what the trace tag of a file must be, how many commands
// fail on it, and whether anything but trace and failing commands is asked for.
func traceModel(p *Plan, file string, keep bool) (tag string, fails int, known bool) {
	tag, fails, known, _ = traceModel2(p, file, keep)
	return
}

func traceModel2(p *Plan, file string, keep bool) (tag string, fails int, known, fatal bool) {
	tag, known = "m", true
	for _, l := range bzLines(p) {
		for _, lab := range l.labels {
			on := false
			for _, f := range bzFiles(p, lab) {
				on = on || f == file
			}
			if !on {
				continue
			}
			if ruleOf(lab) == missingRule {
				fails++
				continue
			}
			for _, c := range l.cmds {
				switch m := traceCmdRE.FindStringSubmatch(c); {
				case isFailCmd(c):
					fails++
				case c == fatalCmd:
					fails++
					fatal = true
				case m != nil:
					tag += m[1]
				case c == nullCmd:
				default:
					known = false
				}
			}
		}
	}
	if fails > 0 && !keep || fatal {
		tag = "m"
	}
	return tag, fails, known, fatal
}

// hasNull reports whether a command without effect is asked for a file.
func hasNull(p *Plan, file string) bool {
	for _, l := range bzLines(p) {
		for _, lab := range l.labels {
			for _, f := range bzFiles(p, lab) {
				if f == file && ruleOf(lab) != missingRule {
					for _, c := range l.cmds {
						if c == nullCmd {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func tagOf(n vfs.Node) string {
	if m := traceRE.FindStringSubmatch(n.Data); m != nil {
		return m[1]
	}
	return "?"
}

func hasArg(st Step, a string) bool {
	for _, x := range st.Args {
		if x == a {
			return true
		}
	}
	return false
}

// writers counts how often a path was opened for writing and by how many goroutines.
func writers(r *Result, p string) (n int, gs map[int]bool) {
	gs = map[int]bool{}
	for _, e := range r.Events {
		if e.Pid == 0 && e.Mut && e.Path == p && (e.Op == "create" || e.Op == "write") {
			gs[e.G] = true
			if e.Op == "create" {
				n++
			}
		}
		if e.Pid == 0 && e.Op == "rename" && e.To == p {
			gs[e.G] = true
			n++
		}
	}
	return
}

// fixedFiles lists the files reported as fixed.
func fixedFiles(stderr string) map[string]int {
	m := map[string]int{}
	for _, l := range lines(stderr) {
		if strings.HasPrefix(l, "fixed ") {
			m[strings.TrimSpace(l[6:])]++
		}
	}
	return m
}

func cmdline(st Step) string {
	return st.Tool + " " + strings.Join(append(append([]string(nil), st.Args...), st.Files...), " ")
}

func init() {
	register(&Check{
		Prop: "C09", Gen: genC09, Run: confirmed(runC09), Real: bzReal, Stub: bfStub,
		Rule: "Command lists with failing commands at random positions for random files, with and without -k and -stdout, under random schedules; an executable model of the command history (trace tags) says what each file must contain.",
	})
	register(&Check{
		Prop: "C10", Gen: genC10, Run: runC10, Real: bzReal, Stub: bfStub,
		Rule: "The same commands and targets with one worker in FIFO order and with random worker counts, schedules, latencies, map orders and permanently failing files; trees, status, messages and records are compared.",
	})
	register(&Check{
		Prop: "C11", Gen: genC11, Run: runC11, Real: bzReal, Stub: bfStub,
		Rule: "Commands given as arguments, command files and standard input with labels in many spellings; each file is compared with a run over its own commands with plain labels and with the history model; writes per file are counted.",
	})
	register(&Check{
		Prop: "C12", Gen: genC12, Run: runC12, Real: bzReal, Stub: bfStub,
		Rule: "Errors and partial transfers on opening, examining, reading, writing and closing random BUILD files of a run; status, messages and the other files are compared with the fault-free results.",
	})
	register(&Check{
		Prop: "C13", Gen: genC13, Run: confirmed(runC13), Real: bzReal, Stub: bfStub,
		Rule: "Command files and standard input read in arbitrary pieces, with long lines and comments, and read errors at any position; the history model says what must have been executed.",
	})
	register(&Check{
		Prop: "C14", Gen: genC14, Run: runC14, Real: bzReal, Stub: bfStub,
		Rule: "Print commands in text, JSON and protobuf form over many files under random schedules, with unreadable files and failing standard output; compared with the records of single-file runs.",
	})
	register(&Check{
		Prop: "C15", Gen: genC15, Run: runC15, Real: bzReal, Stub: bfStub + "; the external formatter is a stand-in that fails on demand",
		Rule: "Runs with an external formatter that cannot be started, exits with an error, is killed, truncates its output or writes to standard error, for random files.",
	})
	register(&Check{
		Prop: "C28", Gen: genC28, Run: confirmed(runC28), Real: bzReal, Stub: bfStub,
		Rule: "Labels in many spellings over trees with several candidate files and nested roots, with errors in examining, listing, opening and reading any path; a file that is changed must be the one the label names.",
	})
}

func genC09(r *simrt.Rng, rn *Runner) *Plan {
	o := bzOpt{n: nPackages(r), failing: 0.2, flags: true}
	if r.P(0.3) {
		o.null = []float64{0.2, 0.6, 1}[r.Intn(3)]
	}
	p := genBz(r, o)
	st := &p.Steps[0]
	if r.P(0.4) {
		st.Args = append(st.Args, "-k")
	}
	if r.P(0.15) {
		st.Args = append(st.Args, "-stdout")
	}
	if r.P(0.15) {
		st.Args = append(st.Args, "-buildifier=/usr/bin/bf")
	}
	p.Kind = "fail"
	if hasArg(*st, "-k") {
		p.Kind = "keep"
	}
	return p
}

func runC09(p *Plan, rn *Runner) *Violation {
	if !bzValid(p) {
		return nil
	}
	t, st := bzStep(p)
	keep := hasArg(st, "-k")
	old := NewFS(t).Snapshot("/w")
	files := bzAll(p)
	type exp struct {
		tag   string
		fails int
		fatal bool
	}
	want := map[string]exp{}
	anyFail, anyChange := false, false
	for _, f := range files {
		if tagOf(old[f]) != "m" {
			return nil
		}
		tag, fails, known, fatal := traceModel2(p, f, keep)
		if !known {
			return nil
		}
		want[f] = exp{tag, fails, fatal}
		anyFail = anyFail || fails > 0
		anyChange = anyChange || tag != "m"
	}
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	got := fs.Snapshot("/w")
	fixed := fixedFiles(res.Stderr)
	stdout := hasArg(st, "-stdout")
	if anyFail {
		rn.Probe("failing command")
	}
	for _, f := range files {
		w := want[f]
		n, _ := writers(res, f)
		if n > 1 {
			return viol("writes", "%s is written %d times", f, n)
		}
		if stdout || w.fails > 0 && !keep || w.fatal {
			if got[f] != old[f] || n > 0 {
				return viol("changed", "%s: %d command(s) for %s fail, but it is rewritten: %s", cmdline(st), w.fails, f, describeNode(got[f]))
			}
			if fixed[f] > 0 {
				return viol("reported", "%s: %s is reported as fixed, but must not be written", cmdline(st), f)
			}
			continue
		}
		if g := tagOf(got[f]); g != w.tag {
			return viol("history", "%s: the history of %s is %s, should be %s", cmdline(st), f, g, w.tag)
		}
		anyChange = anyChange || got[f] != old[f] && hasNull(p, f)
		if w.tag == "m" && w.fails > 0 && got[f].Mode != old[f].Mode {
			return viol("mode", "%s: permissions of %s changed", cmdline(st), f)
		}
	}
	if stdout {
		// the tags of the pieces
		var tags, exp []string
		for _, m := range regexp.MustCompile(`"(m(?:\.[^"]*)?)"`).FindAllStringSubmatch(res.Stdout, -1) {
			tags = append(tags, m[1])
		}
		for _, f := range files {
			if w := want[f]; (w.fails == 0 || keep) && !w.fatal && (w.tag != "m" || hasNull(p, f)) {
				exp = append(exp, w.tag)
			}
		}
		if d := multiset(exp, tags); d != "" {
			return viol("printed", "%s: the printed files have the histories %v instead of %v", cmdline(st), tags, exp)
		}
	}
	for _, q := range vfs.Paths(merge(old, got)) {
		if _, ok := want[q]; !ok && old[q] != got[q] {
			return viol("other", "%s: %s, which no label names, is changed", cmdline(st), q)
		}
	}
	exit := 0
	switch {
	case anyFail:
		exit = 2
	case !anyChange && !stdout:
		exit = 3
	}
	if res.Exit != exit {
		return viol("status", "%s: exit status %d instead of %d", cmdline(st), res.Exit, exit)
	}
	for _, f := range files {
		if want[f].fails == 0 {
			continue
		}
		n := 0
		for _, l := range lines(res.Stderr) {
			if strings.HasPrefix(l, f+": ") || strings.HasPrefix(l, strings.TrimPrefix(f, "/w/")+": ") {
				n++
			}
		}
		if n == 0 {
			return viol("silent", "%s: %d command(s) for %s fail, but no message names the file", cmdline(st), want[f].fails, f)
		}
		if keep && n < want[f].fails && !want[f].fatal {
			return viol("silent", "%s: %d command(s) for %s fail, but only %d are reported", cmdline(st), want[f].fails, f, n)
		}
	}
	return nil
}

func genC10(r *simrt.Rng, rn *Runner) *Plan {
	n := nPackages(r)
	o := bzOpt{n: n, failing: 0.05, other: 0.5, broken: 0.05, flags: true}
	o.print = r.P(0.25)
	p := genBz(r, o)
	p.Kind = "edit"
	st := &p.Steps[0]
	if o.print {
		p.Kind = "print"
		if r.P(0.5) {
			st.Args = append(st.Args, pick(r, "-output_json", "-output_proto"))
			p.Kind = "records"
		}
	}
	if r.P(0.2) {
		st.Args = append(st.Args, "-k")
	}
	if r.P(0.15) && !o.print {
		st.Args = append(st.Args, "-stdout")
		p.Kind = "stdout"
	}
	if r.P(0.1) {
		st.Args = append(st.Args, "-buildifier=/usr/bin/bf")
	}
	if r.P(0.3) {
		if fs := bzAll(p); len(fs) > 0 {
			f := fs[r.Intn(len(fs))]
			nd := p.Tree[f]
			nd.Mode = []uint32{0200, 0444}[r.Intn(2)]
			p.Tree[f] = nd
		}
	}
	if r.P(0.2) && p.Kind == "edit" {
		// two ways to the same files
		var ds []string
		for _, q := range vfs.Paths(p.Tree) {
			if strings.HasSuffix(q, "/BUILD") && strings.Count(q, "/") == 3 {
				ds = append(ds, path.Dir(q))
			}
		}
		if len(ds) > 0 {
			d := ds[r.Intn(len(ds))]
			p.Tree["/w/ln"] = vfs.Node{Kind: "link", Target: path.Base(d)}
			lab := "//ln:tr"
			p.S["L:"+lab] = d + "/BUILD"
			p.Ops = append(p.Ops, traceCmd("link")+"|"+lab)
			p.Kind = "link"
		}
	}
	if r.P(0.3) {
		t, s := bzStep(p)
		addFaults(r, rn, t, &s, 1, 0, func(e vfs.Event) bool { return strings.HasPrefix(e.Path, "/w/") })
		st.Faults = s.Faults
		for i := range st.Faults {
			st.Faults[i].Count = -1
			st.Faults[i].Nth = 1
		}
	}
	return p
}

// records splits the output of print commands into records.
func records(st Step, out string) ([]string, string) {
	switch {
	case hasArg(st, "-output_json"):
		return jsonRecords(out)
	case hasArg(st, "-output_proto"):
		return protoRecords(out)
	}
	return lines(out), ""
}

func runC10(p *Plan, rn *Runner) *Violation {
	if len(p.Ops) == 0 {
		return nil
	}
	t, st := bzStep(p)
	ref := st
	ref.Sched = calm()
	ref.Chunks = nil
	ref.Args = nil
	for _, a := range st.Args {
		if !strings.HasPrefix(a, "-numio") && !strings.HasPrefix(a, "-P=") {
			ref.Args = append(ref.Args, a)
		}
	}
	ref.Args = append([]string{"-numio=1"}, ref.Args...)
	rfs := NewFS(t)
	rres := rn.Exec(rfs, ref)
	if !refOK(rres) {
		return nil
	}
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	if pth, d := diffTree(rfs.Snapshot("/w"), fs.Snapshot("/w"), nil); pth != "" {
		return viol("tree", "%s: with one worker and in order the result is different: %s %s", cmdline(st), pth, d)
	}
	if res.Exit != rres.Exit {
		return viol("status", "%s: exit status %d, with one worker %d", cmdline(st), res.Exit, rres.Exit)
	}
	if d := multiset(lines(rres.Stderr), lines(res.Stderr)); d != "" {
		return viol("messages", "%s: the messages depend on the schedule: %s", cmdline(st), d)
	}
	if hasArg(st, "-stdout") {
		if d := multiset(lines(rres.Stdout), lines(res.Stdout)); d != "" {
			return viol("output", "%s: the output depends on the schedule: %s", cmdline(st), d)
		}
	} else {
		a, bad := records(st, rres.Stdout)
		if bad != "" {
			return nil
		}
		b, bad := records(st, res.Stdout)
		if bad != "" {
			return viol("records", "%s: damaged output: %s", cmdline(st), bad)
		}
		if d := multiset(a, b); d != "" {
			return viol("records", "%s: the records depend on the schedule: %s", cmdline(st), d)
		}
	}
	seen := map[string]bool{}
	for _, e := range res.Events {
		if e.Op == "create" && !seen[e.Path] && !underTmp(e.Path) {
			seen[e.Path] = true
			if _, gs := writers(res, e.Path); len(gs) > 1 {
				return viol("workers", "%s: %s is rewritten by %d workers", cmdline(st), e.Path, len(gs))
			}
		}
	}
	return nil
}

func genC11(r *simrt.Rng, rn *Runner) *Plan {
	if r.P(0.25) {
		return genC11steps(r, rn)
	}
	o := bzOpt{n: nPackages(r), flags: true}
	if r.P(0.5) {
		o.other = 0.6
	}
	p := genBz(r, o)
	p.Kind = p.S["mode"]
	if r.P(0.2) {
		p.Steps[0].Args = append(p.Steps[0].Args, "-k")
	}
	return p
}

// genC11steps draws commands for some rules of one file, in canonical form.
func genC11steps(r *simrt.Rng, rn *Runner) *Plan {
	p := &Plan{Kind: "steps", Tree: Tree{}, S: map[string]string{}, I: map[string]int{}}
	p.S["root"], p.S["ws"] = "/w/WORKSPACE", ""
	p.Tree["/w/WORKSPACE"] = vfs.Node{}
	txt := ""
	if r.P(0.4) {
		txt = genBuild(r, 0) + "\n"
	}
	if !strings.Contains(txt, "\"lib\"") {
		txt += libRule + "\n"
	}
	var scripts []corpusScript
	if r.P(0.5) {
		scripts = pickScripts(r, 1+r.Intn(3))
		for i, c := range scripts {
			if strings.Contains(c.In, "package(") {
				scripts[i] = corpusScript{Cmds: []string{""}}
				continue
			}
			txt += strings.TrimSuffix(c.In, "\n") + "\n\n"
		}
	}
	txt += traceRule + "\n" + strings.Replace(traceRule, "\"tr\"", "\"ts\"", 1)
	p.Tree["/w/a/BUILD"] = vfs.Node{Data: txt}
	lab := func(rule string) string {
		l := "//a:" + rule
		p.S["L:"+l] = "/w/a/BUILD"
		return l
	}
	for i, n := 0, 1+r.Intn(5); i < n; i++ {
		var cmds, labs []string
		var pool []string
		if r.P(0.4) {
			pool = []string{"tr", "ts", "all", "*", "%trace_rule"}
			for j := 0; j < 1+r.Intn(3); j++ {
				cmds = append(cmds, pick(r, traceCmd(fmt.Sprint(i, j)), "copy tags tr", "copy tags ts", "add tags t"+fmt.Sprint(i), "move tags tags2 *", "copy_no_overwrite tags ts"))
			}
		} else {
			for j := 0; j < 1+r.Intn(3); j++ {
				c, rule := otherCmd(r, 10*i+j)
				for strings.HasPrefix(c, "comment ") && (strings.Contains(c, "deps") || strings.Contains(c, "srcs")) {
					c, rule = otherCmd(r, 10*i+j)
				}
				if len(scripts) > 0 && r.P(0.7) {
					x := scripts[r.Intn(len(scripts))]
					// (a comment on an attribute belongs to something else once it is read again, lines move)
					if cmd := x.Cmds[r.Intn(len(x.Cmds))]; usable(cmd) && !strings.HasPrefix(cmd, "comment ") && !lineRE.MatchString(scriptRule(x)) {
						c, rule = cmd, scriptRule(x)
					}
				}
				if pool == nil {
					pool = []string{rule}
					if rule != "__pkg__" {
						pool = append(pool, "lib", "tr", "ts", "all", "%cc_library")
					}
				} else if (rule == "__pkg__") != (pool[0] == "__pkg__") {
					continue
				}
				cmds = append(cmds, c)
			}
		}
		for j := 0; j < 1+r.Intn(3); j++ {
			labs = append(labs, lab(pick(r, pool...)))
		}
		p.Ops = append(p.Ops, strings.Join(append(escAll(cmds), labs...), "|"))
	}
	p.S["mode"] = pick(r, "args", "file", "stdin", "files")
	p.I["split"] = r.Intn(len(p.Ops) + 1)
	p.Steps = []Step{{Tool: "buildozer", Sched: genSched(r)}}
	return p
}

// layoutless leaves white space and trailing commas out.
func layoutless(s string) string {
	s = strings.Join(strings.Fields(s), "")
	return strings.NewReplacer(",)", ")", ",]", "]", ",}", "}").Replace(s)
}

// runC11steps compares one run with many commands with a run for each of them.
func runC11steps(p *Plan, rn *Runner) *Violation {
	t, st := bzStep(p)
	const f = "/w/a/BUILD"
	canon := func(fs *vfs.FS) *Result {
		return rn.Exec(fs, Step{Tool: "buildozer", Sched: calm(), Args: []string{"-numio=1", "-k", "format", "//a:__pkg__"}})
	}
	// canonical at first
	fs := NewFS(t)
	if res := canon(fs); !refOK(res) || res.Exit != 0 && res.Exit != 3 {
		return nil
	}
	nd := fs.Snapshot("/w")[f]
	t[f] = nd
	one := NewFS(t)
	n := 0
	for _, l := range bzLines(p) {
		for _, lab := range l.labels {
			var runs [][]string
			for _, c := range l.cmds {
				if strings.HasPrefix(c, "comment ") && ruleOf(lab) == "__pkg__" {
					return nil // the comment of an empty package declaration lasts until the end of the run
				}
				runs = append(runs, []string{"-numio=1", c, lab})
			}
			for _, c := range l.cmds {
				if strings.HasPrefix(c, "set kind") || strings.HasPrefix(c, "set name") || strings.HasPrefix(c, "new ") || c == "delete" {
					// the label stands for other rules then; it is resolved once for the commands of a line
					runs = [][]string{append(append([]string{"-numio=1"}, l.cmds...), lab)}
					break
				}
			}
			for _, args := range runs {
				if n++; n > 40 {
					return nil
				}
				s := Step{Tool: "buildozer", Sched: calm(), Args: args}
				if res := rn.Exec(one, s); !refOK(res) || res.Exit != 0 && res.Exit != 3 {
					return nil
				}
			}
		}
	}
	rn.Probe("one by one")
	fs = NewFS(t)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	got, want := fs.Snapshot("/w")[f], one.Snapshot("/w")[f]
	if layoutless(got.Data) != layoutless(want.Data) {
		return viol("order", "%s: the commands %q in one run make %q of %q, one by one they make %q", cmdline(st), p.Ops, got.Data, nd.Data, want.Data)
	}
	exit := 0
	if got.Data == nd.Data {
		exit = 3
	}
	if res.Exit != exit {
		return viol("status", "%s: exit status %d, one by one the commands succeed", cmdline(st), res.Exit)
	}
	return nil
}

func runC11(p *Plan, rn *Runner) *Violation {
	if !bzValid(p) {
		return nil
	}
	if p.Kind == "steps" {
		return runC11steps(p, rn)
	}
	t, st := bzStep(p)
	old := NewFS(t).Snapshot("/w")
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	got := fs.Snapshot("/w")
	keep := hasArg(st, "-k")
	named := map[string]bool{}
	exit := 3
	for _, f := range bzAll(p) {
		named[f] = true
		ref, want := bzRef(p, rn, f)
		if ref == nil || !refOK(ref) || ref.Exit == 1 {
			return nil
		}
		switch {
		case ref.Exit == 2:
			exit = 2
		case ref.Exit == 0 && exit != 2:
			exit = 0
		}
		if got[f] != want[f] {
			return viol("applied", "%s: the result for %s is %s, with its commands alone and plain labels %s", cmdline(st), f, describeNode(got[f]), describeNode(want[f]))
		}
		tag, _, known := traceModel(p, f, keep)
		if known && tagOf(old[f]) == "m" && tagOf(got[f]) != tag {
			return viol("history", "%s: the history of %s is %s, should be %s", cmdline(st), f, tagOf(got[f]), tag)
		}
		if !known && tagOf(old[f]) == "m" && ref.Exit != 2 {
			// the marks of the trace commands still appear once and in order
			if g, w := tagOf(got[f]), markModel(p, f); g != "?" && g != w {
				return viol("history", "%s: the history of %s is %s, should be %s", cmdline(st), f, g, w)
			}
		}
		if n, _ := writers(res, f); n > 1 {
			return viol("writes", "%s: %s is written %d times", cmdline(st), f, n)
		}
	}
	for _, q := range vfs.Paths(merge(old, got)) {
		if !named[q] && old[q] != got[q] {
			return viol("other", "%s: %s, which no label names, is changed", cmdline(st), q)
		}
	}
	if res.Exit != exit {
		return viol("status", "%s: exit status %d, the single runs say %d", cmdline(st), res.Exit, exit)
	}
	return nil
}

// markModel is the history of the trace commands when other commands are mixed in.
func markModel(p *Plan, file string) string {
	tag := "m"
	for _, l := range bzLines(p) {
		for _, lab := range l.labels {
			for _, f := range bzFiles(p, lab) {
				if f != file {
					continue
				}
				for _, c := range l.cmds {
					if m := traceCmdRE.FindStringSubmatch(c); m != nil {
						tag += m[1]
					}
				}
			}
		}
	}
	return tag
}

func genC12(r *simrt.Rng, rn *Runner) *Plan {
	o := bzOpt{n: nPackages(r), other: 0.4, plain: r.P(0.5)}
	if r.P(0.35) {
		o.failing = 0.1 + r.Float()*0.3
	}
	if r.P(0.2) {
		o.null = []float64{0.2, 0.6, 1}[r.Intn(3)]
	}
	p := genBz(r, o)
	p.Kind = "edit"
	st := &p.Steps[0]
	if r.P(0.2) || o.failing > 0 && r.P(0.4) {
		st.Args = append(st.Args, "-k")
	}
	t, s := bzStep(p)
	dry := rn.Exec(NewFS(t), calmed(s))
	names := map[string]bool{}
	for _, f := range bzAll(p) {
		names[f] = true
	}
	// only what happens to a file once it has been chosen
	cand := injectable(dry.Events, func(e vfs.Event) bool {
		switch e.Op {
		case "open", "read", "create", "write", "fstat", "close", "chmod", "rename", "fsync":
			return names[e.Path]
		case "stat":
			return names[e.Path] && e.G != 0
		case "readdir":
			return true
		}
		return false
	})
	for i, k := 0, 1+r.Intn(3); i < k && len(cand) > 0; i++ {
		f := genErrFault(r, dry.Events, cand[r.Intn(len(cand))])
		st.Faults = append(st.Faults, f)
	}
	if r.P(0.2) {
		fs := bzAll(p)
		if len(fs) > 0 {
			f := fs[r.Intn(len(fs))]
			nd := p.Tree[f]
			nd.Mode = []uint32{0200, 0444}[r.Intn(2)]
			p.Tree[f] = nd
		}
	}
	if r.P(0.08) {
		st.Disk = 200 + r.Intn(3000)
	}
	return p
}

func runC12(p *Plan, rn *Runner) *Violation {
	if !bzValid(p) {
		return nil
	}
	t, st := bzStep(p)
	old := NewFS(t).Snapshot("/w")
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	got := fs.Snapshot("/w")
	fixed := fixedFiles(res.Stderr)
	quiet := hasArg(st, "-quiet")
	if res.Exit != 0 && res.Exit != 2 && res.Exit != 3 {
		if pth, d := diffTree(old, got, nil); pth != "" {
			return viol("early", "%s: exit status %d, but %s %s", cmdline(st), res.Exit, pth, d)
		}
		return nil
	}
	changed := false
	for _, f := range bzAll(p) {
		changed = changed || got[f] != old[f]
		ref, want := bzRef(p, rn, f)
		if ref == nil || !refOK(ref) || ref.Exit == 1 {
			return nil
		}
		dir := path.Dir(f)
		readBad, writeBad := false, false
		for _, e := range res.Events {
			if e.Err == "" || e.Err == "EOF" || e.Err == "ENOENT" || e.Pid != 0 {
				continue
			}
			if e.Op == "readdir" && strings.HasPrefix(f, e.Path+"/") {
				readBad = true
			}
			if path.Dir(e.Path) != dir && e.Path != dir {
				continue
			}
			switch e.Op {
			case "create", "write":
				writeBad = true
			case "close":
				if n, _ := writers(res, e.Path); n > 0 {
					writeBad = true
				}
				readBad = true
			default:
				// the tool may treat it as a failure to read the file or do without
				readBad = true
			}
		}
		bad := readBad || writeBad
		if (readBad || writeBad) && failedOps(res, f, "open", "read", "create", "write") {
			rn.Probe("failed operation")
			if res.Exit != 2 && !(failedOnlyStat(res, f)) {
				return viol("status", "%s: an operation on %s failed, but the exit status is %d", cmdline(st), f, res.Exit)
			}
			if !strings.Contains(res.Stderr, f) {
				return viol("silent", "%s: an operation on %s failed, but no message names it: %s", cmdline(st), f, quoteShort(res.Stderr))
			}
		}
		if _, fails, _, _ := traceModel2(p, f, true); fails > 0 && res.Exit != 2 && tagOf(old[f]) == "m" {
			return viol("status", "%s: %d commands for %s fail, but the exit status is %d", cmdline(st), fails, f, res.Exit)
		}
		if ref.Exit == 2 && res.Exit != 2 {
			return viol("status", "%s: commands for %s fail, but the exit status is %d", cmdline(st), f, res.Exit)
		}
		if !bad && got[f] != want[f] {
			return viol("others", "%s: nothing is wrong with %s, but it is %s instead of %s", cmdline(st), f, describeNode(got[f]), describeNode(want[f]))
		}
		if readBad && !writeBad && got[f] != old[f] && got[f] != want[f] {
			return viol("unread", "%s: reading %s failed, but it is now %s", cmdline(st), f, describeNode(got[f]))
		}
		if fixed[f] > 0 && (got[f] != want[f] || fixed[f] > 1) {
			return viol("fixed", "%s: %s is reported as fixed (%d times), but is %s instead of %s", cmdline(st), f, fixed[f], describeNode(got[f]), describeNode(want[f]))
		}
		if !quiet && !bad && fixed[f] == 0 && got[f] != old[f] {
			return viol("unreported", "%s: %s was changed, but not reported", cmdline(st), f)
		}
		if fixed[f] > 0 && old[f] == want[f] {
			return viol("fixed", "%s: %s is reported as fixed, but needs no change", cmdline(st), f)
		}
		if (res.Exit == 0 || res.Exit == 3) && got[f] != want[f] {
			return viol("success", "%s: exit status %d, but %s is %s instead of %s", cmdline(st), res.Exit, f, describeNode(got[f]), describeNode(want[f]))
		}
	}
	if res.Exit == 3 && changed {
		return viol("nochange", "%s: the no-change status although files were modified", cmdline(st))
	}
	if res.Exit == 0 && !changed && len(res.Stdout) == 0 && !onlyReadonly(p) {
		return viol("nochange", "%s: nothing was modified, but the exit status is 0", cmdline(st))
	}
	return nil
}

func failedOnlyStat(r *Result, f string) bool {
	return !failedOps(r, f, "open", "read", "create", "write")
}

func onlyReadonly(p *Plan) bool {
	for _, l := range bzLines(p) {
		for _, c := range l.cmds {
			if !strings.HasPrefix(c, "print") {
				return false
			}
		}
	}
	return true
}

func genC13(r *simrt.Rng, rn *Runner) *Plan {
	p := genBz(r, bzOpt{n: 1 + r.Intn(4), modes: []string{"file", "stdin", "stdin", "files", "star"}, plain: r.P(0.7)})
	p.Kind = p.S["mode"]
	if r.P(0.25) {
		// a long line
		lab := "//" + pkgOf(bzAll(p)[0]) + ":tr"
		p.S["L:"+lab] = p.S["L:"+lab]
		if p.S["L:"+lab] == "" {
			p.S["L:"+lab] = bzAll(p)[0]
		}
		var cmds []string
		for i, n := 0, 20+r.Intn(60); i < n; i++ {
			cmds = append(cmds, traceCmd(fmt.Sprintf("L%d%s", i, strings.Repeat("x", r.Intn(2)*r.Intn(2000)))))
		}
		at := r.Intn(len(p.Ops) + 1)
		if strings.HasPrefix(canonical(p.S["L:"+lab], "tr"), lab) {
			p.Ops = append(append(append([]string(nil), p.Ops[:at]...), strings.Join(append(escAll(cmds), lab), "|")), p.Ops[at:]...)
		}
	}
	if r.P(0.03) {
		p.I["huge"] = 1 << (12 + r.Intn(10))
		if r.P(0.1) {
			p.I["huge"] = 1 << 24
		}
		p.S["hugekind"] = pick(r, "comment", "label", "")
	}
	st := &p.Steps[0]
	if r.P(0.25) {
		st.Args = append(st.Args, "-k")
	}
	st.Chunks = nil
	if p.I["huge"] > 0 {
		st.Sched.Short = 0
	}
	for i, k := 0, r.Intn(30); i < k; i++ {
		st.Chunks = append(st.Chunks, 1+r.Intn(80))
	}
	src := map[string]string{"file": "/home/u/c1", "stdin": "/dev/stdin", "files": pick(r, "/home/u/c1", "/home/u/c2")}[p.S["mode"]]
	switch r.Intn(5) {
	case 0, 1, 2:
		f := vfs.Fault{Op: "read", Path: src, Nth: 1 + r.Intn(3), Kind: pick(r, "err", "partial", "partial", "short"), Err: errFor(r, "read")}
		if p.S["mode"] == "stdin" {
			f.Nth = 1 + r.Intn(len(st.Chunks)+2)
		}
		f.N = r.Intn(200)
		if r.P(0.4) && (p.I["huge"] == 0 || f.Kind != "short") {
			f.Count = -1
		}
		st.Faults = append(st.Faults, f)
	case 3:
		if src != "/dev/stdin" && r.P(0.6) {
			st.Faults = append(st.Faults, vfs.Fault{Op: "open", Path: src, Nth: 1, Kind: "err", Err: pick(r, "ENOENT", "EACCES", "EIO")})
		}
	}
	return p
}

func runC13(p *Plan, rn *Runner) *Violation {
	if !bzValid(p) {
		return nil
	}
	t, st := bzStep(p)
	old := NewFS(t).Snapshot("/w")
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	got := fs.Snapshot("/w")
	bad := ""
	for _, s := range []string{"/home/u/c1", "/home/u/c2", "/dev/stdin"} {
		if failedOps(res, s, "open", "read") {
			bad = s
		}
	}
	if bad != "" {
		rn.Probe("command file failed")
		if pth, d := diffTree(old, got, nil); pth != "" {
			return viol("executed", "%s: reading the commands from %s failed, but %s %s", cmdline(st), bad, pth, d)
		}
		if m := mutated(res); len(m) > 0 {
			return viol("executed", "%s: reading the commands from %s failed, but %v is written", cmdline(st), bad, m)
		}
		if res.Exit == 0 || res.Exit == 3 {
			return viol("status", "%s: reading the commands from %s failed, but the exit status is %d", cmdline(st), bad, res.Exit)
		}
		return nil
	}
	for _, f := range bzAll(p) {
		tag, _, known := traceModel(p, f, false)
		if !known || tagOf(old[f]) != "m" {
			return nil
		}
		if g := tagOf(got[f]); g != tag {
			return viol("history", "%s: the history of %s is %s, should be %s", cmdline(st), f, quoteShort(g), quoteShort(tag))
		}
	}
	if res.Exit != 0 {
		return viol("status", "%s: every command was executed, but the exit status is %d: %s", cmdline(st), res.Exit, quoteShort(res.Stderr))
	}
	return nil
}

func genC14(r *simrt.Rng, rn *Runner) *Plan {
	n := nPackages(r)
	p := genBz(r, bzOpt{n: n, print: true, broken: []float64{0, 0, 0.1}[r.Intn(3)], plain: r.P(0.5)})
	st := &p.Steps[0]
	p.Kind = pick(r, "text", "json", "proto")
	if r.P(0.3) {
		p.S["truth"] = pick(r, "print name", "print kind", "print name kind", "print label", "print deps", "print rule", "print name tags", "print path", "print attrs", "print_comment", "print visibility deps")
	}
	if p.Kind != "text" {
		st.Args = append(st.Args, "-output_"+p.Kind)
	}
	if r.P(0.3) {
		st.Args = append(st.Args, "-k")
	}
	if r.P(0.1) {
		st.Args = append(st.Args, "-types=cc_library,trace_rule")
	}
	t, s := bzStep(p)
	switch r.Intn(4) {
	case 0:
		names := map[string]bool{}
		for _, f := range bzAll(p) {
			names[f] = true
		}
		addFaults(r, rn, t, &s, 1+r.Intn(2), 0, func(e vfs.Event) bool {
			return names[e.Path] && (e.Op == "open" || e.Op == "read") || e.Path == "/dev/stdout"
		})
		st.Faults = s.Faults
	case 1:
		if fs := bzAll(p); len(fs) > 0 {
			f := fs[r.Intn(len(fs))]
			nd := p.Tree[f]
			nd.Mode = 0200
			p.Tree[f] = nd
		}
	case 2:
		f := vfs.Fault{Op: "write", Path: "/dev/stdout", Nth: 1, Kind: pick(r, "err", "partial", "short"), Err: errFor(r, "write"), N: r.Intn(200)}
		if r.P(0.3) {
			f.Count = -1
		}
		st.Faults = append(st.Faults, f)
	}
	return p
}

// c14Alone is the sequence of records of a file when every command is executed in a run of its own: printing
// changes nothing, so that the records are the same up to the first failure (with -k: all of them).
func c14Alone(p *Plan, rn *Runner, file string) ([]string, bool) {
	var out []string
	runs := 0
	keep := hasArg(p.Steps[0], "-k")
	for _, l := range bzLines(p) {
		for _, lab := range l.labels {
			for _, f := range bzFiles(p, lab) {
				if f != file {
					continue
				}
				label := lab
				if !strings.HasPrefix(lab, "@") {
					label = canonical(file, ruleOf(lab))
				}
				for _, c := range l.cmds {
					if !strings.HasPrefix(c, "print") {
						return nil, false
					}
					if runs++; runs > 30 {
						return nil, false
					}
					st := calmed(p.Steps[0])
					var args []string
					for _, a := range st.Args {
						if !strings.HasPrefix(a, "-numio") && !strings.HasPrefix(a, "-P") {
							args = append(args, a)
						}
					}
					st.Args, st.Cwd, st.Files = append(args, "-numio=1"), "/w", []string{c, label}
					res := rn.Exec(NewFS(p.Tree), st)
					if !refOK(res) {
						return nil, false
					}
					rs, bad := records(st, res.Stdout)
					if bad != "" {
						return nil, false
					}
					out = append(out, rs...)
					if res.Exit != 0 && res.Exit != 3 && !keep {
						return out, true
					}
				}
			}
		}
	}
	return out, true
}

// c14Truth compares the records of all the rules of a file with those of every rule alone, chosen by its line.
func c14Truth(p *Plan, rn *Runner, file, fields string, n int) *Violation {
	if !strings.HasSuffix(p.Tree[file].Data, traceRule) || strings.Count(p.Tree[file].Data, "\"tr\"") != 1 {
		return nil
	}
	run := func(cmd, rule string) (Step, []string, bool) {
		st := Step{Tool: "buildozer", Cwd: "/w", Sched: calm(), Args: []string{"-numio=1", cmd, canonical(file, rule)}}
		res := rn.Exec(NewFS(p.Tree), st)
		var ls []string
		if res.Stdout != "" {
			ls = strings.Split(strings.TrimSuffix(res.Stdout, "\n"), "\n")
		}
		return st, ls, refOK(res) && res.Exit == 0
	}
	st, starts, ok := run("print startline", "all")
	if !ok || len(starts) > n {
		return nil
	}
	seen := map[string]bool{}
	text := strings.Split(p.Tree[file].Data, "\n")
	for _, l := range starts {
		if strings.Trim(l, "0123456789") != "" || l == "" {
			return viol("lines", "%s: the rules begin in the lines %q", cmdline(st), starts)
		}
		if seen[l] {
			if i, _ := strconv.Atoi(l); i > 0 && i <= len(text) && strings.Contains(text[i-1], ")") {
				return nil // two in a line
			}
			return viol("lines", "%s: the rules begin in the lines %q", cmdline(st), starts)
		}
		seen[l] = true
	}
	if l := fmt.Sprint(len(text) - 4); !seen[l] {
		return viol("rule", "%s: the rule tr in line %s is missing: %q", cmdline(st), l, starts)
	}
	st, all, ok := run(fields, "all")
	if !ok {
		return nil
	}
	var each []string
	for _, l := range starts {
		_, one, ok := run(fields, "%"+l)
		if !ok {
			return nil
		}
		each = append(each, one...)
	}
	rn.Probe("rule by rule")
	if strings.Join(each, "\n") != strings.Join(all, "\n") {
		return viol("rules", "%s prints %q, for each of the rules alone it is %q", cmdline(st), all, each)
	}
	return nil
}

func runC14(p *Plan, rn *Runner) *Violation {
	if !bzValid(p) {
		return nil
	}
	if p.S["truth"] != "" {
		for i, f := range bzAll(p) {
			if i < 2 {
				if v := c14Truth(p, rn, f, p.S["truth"], 12); v != nil {
					return v
				}
			}
		}
	}
	t, st := bzStep(p)
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	okExit := res.Exit == 0 || res.Exit == 3
	if failedOps(res, "/dev/stdout", "write") {
		rn.Probe("standard output failed")
		if okExit {
			return viol("status", "%s: writing the records failed, but the exit status is %d", cmdline(st), res.Exit)
		}
		return nil
	}
	if !res.Ended() || res.Exit == 1 {
		return nil
	}
	recs, bad := records(st, res.Stdout)
	if bad != "" {
		return viol("damaged", "%s: the output is damaged: %s: %s", cmdline(st), bad, quoteShort(res.Stdout))
	}
	var want, may []string
	byFile := map[string][]string{}
	for _, f := range bzAll(p) {
		ref, _ := bzRef(p, rn, f)
		if ref == nil || !refOK(ref) {
			return nil
		}
		rs, bad := records(st, ref.Stdout)
		if bad != "" {
			return nil
		}
		if alone, ok := c14Alone(p, rn, f); ok {
			rs = alone
			rn.Probe("commands one by one")
		}
		if p.Kind == "proto" {
			q := *p
			q.Steps = append([]Step(nil), p.Steps...)
			q.Steps[0].Args = nil
			for _, a := range p.Steps[0].Args {
				if a == "-output_proto" {
					a = "-output_json"
				}
				q.Steps[0].Args = append(q.Steps[0].Args, a)
			}
			if jref, _ := bzRef(&q, rn, f); jref != nil && refOK(jref) && jref.Exit == ref.Exit {
				js, ok := rendered(jref.Stdout)
				ps, ok2 := renderedProto(ref.Stdout)
				if ok && ok2 && strings.Join(js, "") != strings.Join(ps, "") {
					return viol("format", "%s: as protobuf the records of %s are %q, as JSON %s", cmdline(st), f, ps, quoteShort(jref.Stdout))
				}
			}
		}
		if p.Kind == "text" {
			// the text says what the JSON output says
			q := *p
			q.Steps = append([]Step(nil), p.Steps...)
			q.Steps[0].Args = append([]string{"-output_json"}, q.Steps[0].Args...)
			if jref, _ := bzRef(&q, rn, f); jref != nil && refOK(jref) && jref.Exit == ref.Exit {
				if js, ok := rendered(jref.Stdout); ok && strings.Join(js, "") != strings.Join(lines(ref.Stdout), "") {
					return viol("format", "%s: as text the records of %s are %s, as JSON %s", cmdline(st), f, quoteShort(ref.Stdout), quoteShort(jref.Stdout))
				}
			}
		}
		dir := path.Dir(f)
		hurt := false
		for _, e := range res.Events {
			if e.Err != "" && e.Err != "EOF" && e.Err != "ENOENT" && path.Dir(e.Path) == dir && (e.Op == "open" || e.Op == "read" || e.Op == "stat") {
				hurt = true
			}
		}
		if hurt {
			may = append(may, rs...)
			if failedOps(res, f, "open", "read") {
				rn.Probe("unreadable file")
				if okExit {
					return viol("status", "%s: %s could not be read, but the exit status is %d", cmdline(st), f, res.Exit)
				}
				if !strings.Contains(res.Stderr, f) {
					return viol("silent", "%s: %s could not be read, but no message names it: %s", cmdline(st), f, quoteShort(res.Stderr))
				}
			}
			continue
		}
		want = append(want, rs...)
		byFile[f] = rs
	}
	m := map[string]int{}
	for _, x := range recs {
		m[x]++
	}
	for _, x := range want {
		m[x]--
		if m[x] < 0 {
			return viol("lost", "%s: the record %s is missing: %s", cmdline(st), quoteShort(x), quoteShort(res.Stdout))
		}
	}
	for _, x := range may {
		m[x]--
	}
	for _, x := range recs {
		if m[x] > 0 {
			return viol("invented", "%s: the record %s appears too often: %s", cmdline(st), quoteShort(x), quoteShort(res.Stdout))
		}
	}
	// the records of a file come in the order of its commands
	for _, f := range bzAll(p) {
		i, rs := 0, byFile[f]
		for _, x := range recs {
			if i < len(rs) && rs[i] == x {
				i++
			}
		}
		if i < len(rs) {
			return viol("order", "%s: the records of %s come as %q, its commands ask for %q", cmdline(st), f, recs, rs)
		}
	}
	return nil
}

func genC15(r *simrt.Rng, rn *Runner) *Plan {
	p := genBz(r, bzOpt{n: nPackages(r), other: 0.4, plain: r.P(0.7), flags: true})
	st := &p.Steps[0]
	st.Args = append(st.Args, "-buildifier="+pick(r, "/usr/bin/bf", "bf"))
	p.Kind = "fix"
	if r.P(0.2) {
		st.Args = append(st.Args, "-stdout")
		p.Kind = "stdout"
	}
	if r.P(0.2) {
		st.Args = append(st.Args, "-k")
	}
	if r.P(0.05) {
		st.Args = append(st.Args, "-buildifier=/usr/bin/nosuch")
		p.Kind = "missing"
	}
	for i, n := 0, 1+r.Intn(3); i < n; i++ {
		f := vfs.Fault{Op: "exec", Nth: 1 + r.Intn(4), Kind: pick(r, "err", "exit", "killed", "partial", "fail", "noise"), Err: errFor(r, "exec"), N: 1 + r.Intn(3)}
		if f.Kind == "killed" || f.Kind == "partial" {
			f.N = r.Intn(150)
		}
		if f.Kind == "exit" && r.P(0.6) || f.Kind == "noise" {
			f.Arg = "bf: something is wrong\n"
		}
		if r.P(0.2) {
			f.Count = -1
		}
		st.Faults = append(st.Faults, f)
	}
	return p
}

func runC15(p *Plan, rn *Runner) *Violation {
	if !bzValid(p) {
		return nil
	}
	t, st := bzStep(p)
	old := NewFS(t).Snapshot("/w")
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	if res.Exit == 1 {
		return nil
	}
	got := fs.Snapshot("/w")
	failed, calls := 0, 0
	for _, e := range res.Events {
		if e.Op != "exec" {
			continue
		}
		calls++
		if e.Flt != "" || e.Err != "" {
			failed++
		}
	}
	stdout := hasArg(st, "-stdout")
	fixed := fixedFiles(res.Stderr)
	unchanged, need := 0, 0
	var pieces []string
	for _, f := range bzAll(p) {
		ref, want := bzRef(p, rn, f)
		if ref == nil || !refOK(ref) || ref.Exit == 1 {
			return nil
		}
		n, _ := writers(res, f)
		if stdout {
			if got[f] != old[f] || n > 0 {
				return viol("written", "%s: %s is rewritten", cmdline(st), f)
			}
			pieces = append(pieces, ref.Stdout)
			continue
		}
		if got[f] != old[f] && got[f] != want[f] {
			return viol("damaged", "%s: %s is %s, neither the old text nor %s", cmdline(st), f, describeNode(got[f]), describeNode(want[f]))
		}
		if want[f] != old[f] {
			need++
			if got[f] == old[f] {
				unchanged++
				if n > 0 {
					return viol("written", "%s: %s is written although its formatter failed", cmdline(st), f)
				}
				if fixed[f] > 0 {
					return viol("reported", "%s: %s is reported as fixed, but unchanged", cmdline(st), f)
				}
				if !strings.Contains(res.Stderr, f+": ") {
					return viol("silent", "%s: %s was not formatted, but no message names it: %s", cmdline(st), f, quoteShort(res.Stderr))
				}
			}
		}
	}
	if failed > 0 {
		rn.Probe("formatter failed")
		if res.Exit != 2 {
			return viol("status", "%s: the formatter failed %d times, but the exit status is %d", cmdline(st), failed, res.Exit)
		}
	}
	if unchanged > failed {
		return viol("suppressed", "%s: the formatter failed for %d files, but %d are unchanged", cmdline(st), failed, unchanged)
	}
	if stdout {
		rest, left := eat(res.Stdout, pieces)
		if rest != "" {
			return viol("damaged", "%s: the output is not a sequence of complete results: %s", cmdline(st), quoteShort(rest))
		}
		n := 0
		for _, l := range left {
			if l != "" {
				n++
			}
		}
		if n > failed {
			return viol("suppressed", "%s: the formatter failed for %d files, but %d results are missing", cmdline(st), failed, n)
		}
	}
	return nil
}

func genC28(r *simrt.Rng, rn *Runner) *Plan {
	p := genBz(r, bzOpt{n: 1 + r.Intn(7), plain: r.P(0.1)})
	p.Kind = p.S["mode"]
	st := &p.Steps[0]
	if r.P(0.2) {
		// an outer workspace with packages of the same names
		p.Tree["/WORKSPACE"] = vfs.Node{Data: "# outer\n"}
		for _, q := range vfs.Paths(p.Tree) {
			if strings.HasPrefix(q, "/w/") && p.Tree[q].Kind == "" {
				p.Tree[strings.TrimPrefix(q, "/w")] = p.Tree[q]
			}
		}
	}
	if r.P(0.2) {
		// a workspace around the home directory and one inside, with packages of the same names
		for _, q := range vfs.Paths(p.Tree) {
			if strings.HasPrefix(q, "/w/") && strings.Count(q, "/") <= 3 && p.Tree[q].Kind == "" && !strings.HasPrefix(q, "/w/third") {
				p.Tree["/w/sub"+strings.TrimPrefix(q, "/w")] = p.Tree[q]
			}
		}
		// labels with an ellipsis cover what is below
		for k, v := range p.S {
			if strings.HasPrefix(k, "L:") && strings.Contains(k, "...") {
				fs := strings.Split(v, ",")
				p.S[k] = strings.Join(fs, ",")
				if top := strings.HasPrefix(k, "L://...") || strings.HasPrefix(k, "L:...") && st.Cwd == ""; top {
					for _, q := range vfs.Paths(p.Tree) {
						if strings.HasPrefix(q, "/w/sub/") && preferred(p.Tree, q) {
							p.S[k] += "," + q
						}
					}
				}
			}
		}
	}
	t, s := bzStep(p)
	dry := rn.Exec(NewFS(t), calmed(s))
	cand := injectable(dry.Events, func(e vfs.Event) bool {
		switch e.Op {
		case "stat", "lstat", "readlink", "open", "read", "readdir", "getcwd", "fstat":
			return !strings.HasPrefix(e.Path, "/home")
		}
		return false
	})
	list := injectable(dry.Events, func(e vfs.Event) bool { return e.Op == "readdir" })
	for i, k := 0, r.Intn(4); i < k && len(cand) > 0; i++ {
		at := cand[r.Intn(len(cand))]
		if len(list) > 0 && r.P(0.3) {
			at = list[r.Intn(len(list))]
		}
		st.Faults = append(st.Faults, genErrFault(r, dry.Events, at))
	}
	return p
}

// preferred reports whether q is the BUILD file of its directory.
func preferred(t Tree, q string) bool {
	b, d := path.Base(q), path.Dir(q)
	for _, n := range buildNames {
		if nd, ok := t[path.Join(d, n)]; ok && nd.Kind == "" {
			return n == b
		}
	}
	return false
}

func runC28(p *Plan, rn *Runner) *Violation {
	if !bzValid(p) {
		return nil
	}
	t, st := bzStep(p)
	old := NewFS(t).Snapshot("/")
	fs := NewFS(t)
	res := rn.Exec(fs, st)
	if v := noEnd(res); v != nil {
		return v
	}
	got := fs.Snapshot("/")
	fault := res.AnyFired()
	named := map[string]string{}
	for _, f := range bzAll(p) {
		tag, _, known := traceModel(p, f, false)
		if !known || tagOf(old[f]) != "m" {
			return nil
		}
		named[f] = tag
	}
	all := true
	for _, q := range vfs.Paths(merge(old, got)) {
		tag, ok := named[q]
		switch {
		case !ok && got[q] != old[q]:
			return viol("other", "%s: %s, which no label names, is changed: it is %s", cmdline(st), q, describeNode(got[q]))
		case ok && got[q] == old[q]:
			all = false
			if !fault {
				return viol("missed", "%s: %s is not changed: %s", cmdline(st), q, quoteShort(res.Stderr))
			}
		case ok && tagOf(got[q]) != tag:
			return viol("wrong", "%s: the history of %s is %s, should be %s", cmdline(st), q, tagOf(got[q]), tag)
		}
	}
	if !all && (res.Exit == 0 || res.Exit == 3) {
		return viol("status", "%s: a file was not changed, but the exit status is %d", cmdline(st), res.Exit)
	}
	if all && !fault && res.Exit != 0 {
		return viol("status", "%s: everything is done, but the exit status is %d: %s", cmdline(st), res.Exit, quoteShort(res.Stderr))
	}
	return nil
}
