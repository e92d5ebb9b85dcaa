package main

import (
	"bytes"
	"fmt"
	"os"
	"path"
	"path/filepath"
	"regexp"
	"strings"

	"github.com/bazelbuild/buildtools/build"
	"github.com/bazelbuild/buildtools/buildifier/config"
	"github.com/bazelbuild/buildtools/buildifier/utils"
	"github.com/bazelbuild/buildtools/bzlenv"
	"github.com/bazelbuild/buildtools/convertast"
	"github.com/bazelbuild/buildtools/edit"
	"github.com/bazelbuild/buildtools/edit/bzlmod"
	"github.com/bazelbuild/buildtools/labels"
	"github.com/bazelbuild/buildtools/warn"
	"github.com/bazelbuild/buildtools/wspace"
	zflag "github.com/bazelbuild/buildtools/zsim/flag"
	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	zsync "github.com/bazelbuild/buildtools/zsim/sync"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
	"go.starlark.net/syntax"
)

// Act is one operation of a library goroutine.
type Act struct {
	G    int    `json:"g"`
	Op   string `json:"op"`
	File string `json:"file,omitempty"`
	Arg  string `json:"arg,omitempty"`
}

var actOps = []string{"parse", "format", "format", "formatnr", "rewriter", "lint", "lint", "lint", "suggest", "fix", "fix", "fixfile", "fixfile", "edit", "edit", "labels", "bzlmod", "types", "twin", "buildozer", "toollint", "toolfix", "lintshared", "query", "query", "env", "convert", "config", "diag", "places", "bzledit", "listedit", "walk"}

// runScript performs the operations of every goroutine in its order and returns what each of them saw.
func runScript(tree map[string]vfs.Node, acts []Act) []string {
	max := -1
	for _, a := range acts {
		if a.G > max {
			max = a.G
		}
	}
	outs := make([][]string, max+1)
	shared := newShared(tree)
	var wg zsync.WaitGroup
	for g := 0; g <= max; g++ {
		g := g
		wg.Go(func() {
			st := &actState{files: map[string]*build.File{}, tree: tree, shared: shared}
			for _, a := range acts {
				if a.G == g {
					outs[g] = append(outs[g], fmt.Sprintf("%s %s %s\n%s", a.Op, a.File, a.Arg, st.do(a)))
				}
			}
		})
	}
	wg.Wait()
	if string(shared.buf) != string(shared.orig) {
		outs[0] = append(outs[0], "\nSHARED: the memory the sources lie in is changed: "+firstDiff(string(shared.orig), string(shared.buf)))
	}
	var l []string
	for g := range outs {
		l = append(l, strings.Join(outs[g], "\x00"))
	}
	return l
}

type actState struct {
	files  map[string]*build.File
	tree   map[string]vfs.Node
	shared *actShared
}

// actShared are the settings that all goroutines use: no operation may change them.
type actShared struct {
	list []string
	rw   *build.Rewriter
	// the sources, one behind the other
	buf, orig []byte
	text      map[string][]byte
}

func newShared(tree map[string]vfs.Node) *actShared {
	var buf []byte
	for _, p := range vfs.Paths(tree) {
		buf = append(buf, tree[p].Data...)
	}
	sh := newSettings()
	sh.buf, sh.orig, sh.text = buf, append([]byte(nil), buf...), map[string][]byte{}
	for _, p := range vfs.Paths(tree) {
		n := len(tree[p].Data)
		sh.text[p] = buf[:n]
		buf = buf[n:]
	}
	return sh
}

func newSettings() *actShared {
	l := append([]string{}, warn.AllWarnings...)
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return &actShared{list: l, rw: &build.Rewriter{IsLabelArg: map[string]bool{"deps": true, "srcs": true}, IsSortableListArg: map[string]bool{"deps": true, "x": true}, NamePriority: map[string]int{"name": -9, "x": 3}, ShortenAbsoluteLabelsToRelative: true}}
}

func (st *actState) parse(p string) (*build.File, error) {
	f, err := build.Parse(p, st.shared.text[p])
	if err != nil {
		return nil, err
	}
	f.WorkspaceRoot, f.Pkg, f.Label = "/w", strings.TrimPrefix(strings.TrimPrefix(path.Dir(p), "/w"), "/"), path.Base(p)
	return f, nil
}

func (st *actState) file(p string) (*build.File, string) {
	if f := st.files[p]; f != nil {
		return f, ""
	}
	f, err := st.parse(p)
	if err != nil {
		return nil, err.Error()
	}
	st.files[p] = f
	return f, ""
}

func (st *actState) reader() *warn.FileReader {
	return warn.NewFileReader(func(name string) ([]byte, error) {
		simrt.Y()
		n, ok := st.tree["/w/"+name]
		if !ok || n.Kind != "" {
			return nil, os.ErrNotExist
		}
		return []byte(n.Data), nil
	})
}

func findings(fs []*warn.Finding) string {
	var b strings.Builder
	for _, f := range fs {
		fmt.Fprintf(&b, "%d:%d-%d:%d %s %s %v", f.Start.Line, f.Start.LineRune, f.End.Line, f.End.LineRune, f.Category, f.Message, f.AutoFixable)
		if f.Replacement != nil {
			fmt.Fprintf(&b, " %s %d %d %q", f.Replacement.Description, f.Replacement.Start, f.Replacement.End, f.Replacement.Content)
		}
		b.WriteString("\n")
	}
	return b.String()
}

// changeFile edits a tree in many ways.
func changeFile(f *build.File) *build.File {
	vars := map[string]*build.AssignExpr{}
	for i, r := range f.Rules("") {
		switch i % 6 {
		case 0:
			edit.AddValueToListAttribute(r, "deps", f.Pkg, &build.StringExpr{Value: "//z:new"}, &vars)
			edit.AddValueToListAttribute(r, "srcs", f.Pkg, &build.StringExpr{Value: ":" + r.Name()}, &vars)
			edit.ListAttributeDelete(r, "deps", ":x", f.Pkg)
		case 1:
			edit.RenameAttribute(r, "srcs", "data")
			edit.MoveAllListAttributeValues(r, "data", "srcs2", f.Pkg, &vars)
		case 2:
			r.SetKind("my_" + r.Kind())
			r.SetAttr("tags", &build.ListExpr{List: []build.Expr{&build.StringExpr{Value: "t"}}})
		case 3:
			edit.ListReplace(r.Attr("deps"), "//a:b", "//c:d", f.Pkg)
			edit.ResolveAttr(r, "deps", f.Pkg)
		case 4:
			r.DelAttr("visibility")
			r.SetAttr("env", edit.DictionarySet(&build.DictExpr{}, "k", &build.StringExpr{Value: "v"}))
		case 5:
			f = edit.DeleteRule(f, r)
		}
	}
	f.Stmt = edit.InsertLoad(f.Stmt, "//new:n.bzl", []string{"na", "nb"}, []string{"na", "nb"})
	f.Stmt = edit.ReplaceLoad(f.Stmt, "//a:d.bzl", []string{"foo", "bar"}, []string{"foo", "bar"})
	if f.Type == build.TypeBuild {
		edit.PackageDeclaration(f).SetAttr("default_visibility", &build.ListExpr{List: []build.Expr{&build.StringExpr{Value: "//visibility:private"}}})
	}
	return f
}

func (st *actState) do(a Act) string {
	switch a.Op {
	case "labels":
		var b strings.Builder
		for _, l := range strings.Fields(a.Arg) {
			x := labels.Parse(l)
			fmt.Fprintln(&b, x.Repository, x.Package, x.Target, x.Format(), labels.Shorten(l, "a/b"), labels.ParseRelative(l, "b/c"), labels.Equal(l, "//a:b", "a"), edit.ShortenLabel(l, "a"))
		}
		return b.String()
	case "buildozer":
		var out, errs bytes.Buffer
		o := edit.NewOpts()
		o.OutWriter, o.ErrWriter, o.RootDir = &out, &errs, "/w"
		o.NumIO = 2
		o.KeepGoing = true
		args := []string{a.Arg, "//" + strings.TrimPrefix(strings.TrimPrefix(path.Dir(a.File), "/w"), "/") + ":all"}
		rc := edit.Buildozer(o, args)
		return fmt.Sprint(rc, "\n", sortedLines(out.String()), sortedLines(errs.String()))
	case "parse":
		delete(st.files, a.File)
	case "twin":
		x, err := st.parse(a.File)
		y, err2 := st.parse(a.File)
		if err != nil || err2 != nil {
			return fmt.Sprint(err)
		}
		before := build.FormatString(y)
		build.Rewrite(x)
		warn.FixWarnings(x, warn.AllWarnings, false, nil)
		x = changeFile(x)
		build.Format(x)
		if after := build.FormatString(y); after != before {
			return "SHARED: editing one tree of " + a.File + " changed another one: " + firstDiff(before, after)
		}
		return before
	}
	f, msg := st.file(a.File)
	if f == nil {
		return msg
	}
	switch a.Op {
	case "parse":
		return build.FormatString(f)
	case "format":
		return string(build.Format(f))
	case "formatnr":
		return string(build.FormatWithoutRewriting(f))
	case "rewriter":
		return string(build.FormatWithRewriter(st.shared.rw, f))
	case "lint":
		return findings(warn.FileWarnings(f, warn.AllWarnings, nil, warn.ModeWarn, st.reader()))
	case "lintshared":
		return findings(warn.FileWarnings(f, st.shared.list, nil, warn.ModeWarn, st.reader()))
	case "toollint":
		return findings(utils.Lint(f, "warn", &st.shared.list, false))
	case "toolfix":
		utils.Lint(f, "fix", &st.shared.list, false)
		return string(build.Format(f))
	case "suggest":
		return findings(warn.FileWarnings(f, warn.AllWarnings, nil, warn.ModeSuggest, st.reader()))
	case "fix":
		warn.FixWarnings(f, warn.AllWarnings, false, st.reader())
		return string(build.Format(f))
	case "fixfile":
		if g := edit.FixFile(f, f.Pkg, nil); g != nil {
			f = g
			st.files[a.File] = f
		}
		return string(build.Format(f))
	case "edit":
		f = changeFile(f)
		st.files[a.File] = f
		return string(build.Format(f))
	case "bzlmod":
		fn := bzlmod.ExtractModuleToApparentNameMapping(func(rel string) *build.File {
			if rel == "MODULE.bazel" {
				return f
			}
			return nil
		})
		ps := bzlmod.Proxies(f, "//a:ext.bzl", "ext", false)
		return fmt.Sprint(fn("rules_cc"), fn("rules_java"), ps, len(bzlmod.UseRepos(f, ps)))
	case "query":
		return query(f)
	case "env":
		var b strings.Builder
		for _, s := range f.Stmt {
			s := s
			bzlenv.WalkOnceWithEnvironment(s, bzlenv.NewEnvironment(), func(e *build.Expr, env *bzlenv.Environment) {
				if id, ok := (*e).(*build.Ident); ok {
					if n := env.Get(id.Name); n != nil {
						fmt.Fprintln(&b, id.Name, n.Kind, n.ID)
					}
				}
			})
			for _, id := range bzlenv.CollectLValues(s) {
				fmt.Fprintln(&b, id.Name)
			}
		}
		return b.String()
	case "convert":
		t, err := syntax.Parse(a.File, st.tree[a.File].Data, syntax.RetainComments)
		if err != nil {
			return err.Error()
		}
		return string(build.Format(convertast.ConvFile(t)))
	case "config":
		c := config.New()
		err := c.LoadReader(strings.NewReader(`{"mode": "check", "lint": "warn", "warningsList": ["load", "module-docstring"]}`))
		fs := c.FlagSet("x", zflag.ContinueOnError)
		err2 := fs.Parse([]string{"-warnings=" + pickOf(a.File, "-load,+unsorted-dict-items", "all", "load", "default"), "-type=bzl", a.File})
		err3 := c.Validate(fs.Args())
		return fmt.Sprint(err, err2, err3, c.String(), c.LintWarnings, fs.Args())
	case "diag":
		fd := utils.NewFileDiagnostics(a.File, warn.FileWarnings(f, st.shared.list, nil, warn.ModeWarn, st.reader()))
		d := utils.NewDiagnostics(fd, utils.InvalidFileDiagnostics(a.File+"2"))
		return d.Format("json", true) + d.Format("text", false)
	case "places":
		root, rest := wspace.FindWorkspaceRoot(path.Dir(a.File))
		w, pkg, lab := wspace.SplitFilePath(a.File)
		repos, err := wspace.FindRepoBuildFiles("/w")
		b, rp, p2, r2 := edit.InterpretLabelForWorkspaceLocation("/w", "//"+f.Pkg+":x")
		return fmt.Sprint(root, rest, w, pkg, lab, repos, err, b, rp, p2, r2, f.DisplayPath(), f.CanonicalPath())
	case "bzledit":
		ps := bzlmod.AllProxies(f, "ext")
		if len(ps) == 0 {
			return "none"
		}
		us := bzlmod.UseRepos(f, ps)
		if len(us) == 0 {
			var u *build.CallExpr
			if f, u = bzlmod.NewUseRepo(f, ps); u != nil {
				us = append(us, u)
			}
			st.files[a.File] = f
		}
		bzlmod.AddRepoUsages(us, "b", "q"+path.Base(a.File), "a")
		bzlmod.RemoveRepoUsages(us, "z")
		return string(build.Format(f))
	case "listedit":
		listEdits(f)
		return string(build.Format(f))
	case "walk":
		var b strings.Builder
		build.Walk(f, func(x build.Expr, stk []build.Expr) { fmt.Fprint(&b, len(stk)) })
		build.WalkPointers(f, func(x *build.Expr, stk []build.Expr) { fmt.Fprint(&b, len(stk)) })
		build.WalkInterruptable(f, func(x build.Expr, stk []build.Expr) error {
			fmt.Fprint(&b, len(stk))
			if len(stk) > 3 {
				return &build.StopTraversalError{}
			}
			return nil
		})
		build.Edit(f, func(x build.Expr, stk []build.Expr) build.Expr {
			if s, ok := x.(*build.StringExpr); ok && len(s.Value) == 3 {
				return &build.StringExpr{Value: s.Value + "x"}
			}
			return nil
		})
		edit.EditFunction(f, "foo", func(x *build.CallExpr, stk []build.Expr) build.Expr {
			x.List = append(x.List, &build.LiteralExpr{Token: "7"})
			return nil
		})
		return b.String() + build.FormatString(f)
	case "types":
		n := map[warn.Type]int{}
		for _, t := range warn.DetectTypes(f) {
			n[t]++
		}
		return fmt.Sprint(n)
	}
	return "?"
}

// pickOf picks by name.
func pickOf(name string, xs ...string) string {
	n := 0
	for i := range name {
		n += int(name[i])
	}
	return xs[n%len(xs)]
}

// query asks many questions about a file.
func query(f *build.File) string {
	var b strings.Builder
	for _, r := range f.Rules("") {
		fmt.Fprintln(&b, r.Kind(), r.Name(), r.ExplicitName(), r.AttrKeys(), r.AttrString("name"), r.AttrLiteral("testonly"), r.AttrStrings("deps"), build.FormatString(r.Call.X))
		for _, k := range r.AttrKeys() {
			e := r.Attr(k)
			fmt.Fprintln(&b, k, build.Strings(e), len(edit.AllLists(e)), len(edit.AllSelects(e)), len(edit.AllStrings(e)), edit.FirstList(e) != nil, edit.ContainsComments(e, "c"),
				edit.ListFind(e, ":a", f.Pkg) != nil, edit.IsList(k), edit.IsIntList(k), edit.IsString(k), edit.IsStringDict(k), edit.ContainsLabels(r.Kind(), k))
			for _, s := range edit.AllSelects(e) {
				fmt.Fprintln(&b, len(edit.SelectListsIntersection(s, f.Pkg)))
			}
			for _, s := range edit.AllStrings(e) {
				fmt.Fprintln(&b, edit.ShortenLabel(s.Value, f.Pkg), edit.LabelsEqual(s.Value, ":a", f.Pkg), edit.SplitOnSpaces(s.Value+"\\ x y"))
				if s.Token != "" {
					v, t, err := build.Unquote(s.Token)
					fmt.Fprintln(&b, v, t, err, build.IsCorrectEscaping(s.Token))
				}
			}
		}
	}
	fmt.Fprintln(&b, f.RuleAt(3) != nil, f.RuleNamed("alpha") != nil, edit.FindRuleByName(f, "%1") != nil, edit.ExistingPackageDeclaration(f) != nil)
	for _, s := range f.Stmt {
		fmt.Fprintln(&b, len(edit.UsedSymbols(s)), len(edit.UsedTypes(s)))
		if d, ok := s.(*build.DefStmt); ok {
			from, to := d.HeaderSpan()
			fmt.Fprintln(&b, from, to)
			for _, p := range d.Params {
				n, op := build.GetParamName(p)
				fmt.Fprintln(&b, n, op)
			}
		}
	}
	return b.String()
}

// listEdits changes lists, dictionaries and loads.
func listEdits(f *build.File) {
	for _, r := range f.Rules("") {
		for _, k := range r.AttrKeys() {
			e := r.Attr(k)
			if e == nil || k == "name" {
				continue
			}
			edit.ListSubstitute(e, regexp.MustCompile("^//a(.*)$"), "//aa$1")
			edit.ListDelete(e, ":b", f.Pkg)
			if l := edit.FirstList(e); l != nil {
				build.SortStringList(l)
				r.SetAttr(k, edit.AddValueToList(e, f.Pkg, &build.StringExpr{Value: "//q:" + k}, true))
			}
			if d, ok := e.(*build.DictExpr); ok {
				edit.DictionarySet(d, "k", &build.StringExpr{Value: "v"})
				edit.DictionaryDelete(d, "a")
			}
			r.SetAttr(k, edit.RemoveEmptySelectsAndConcatLists(r.Attr(k)))
			edit.ResolveAttr(r, k, f.Pkg)
		}
	}
	for _, s := range f.Stmt {
		if l, ok := s.(*build.LoadStmt); ok {
			edit.AppendToLoad(l, []string{"zz", "aa"}, []string{"zz", "aa2"})
			build.SortLoadArgs(l)
		}
	}
	f.DelRules("java_library", "")
	edit.DeleteRuleByKind(f, "py_library")
}

// raceReport reads what the race detector wrote since off.
func raceReport(off int64) (string, int64) {
	i := strings.Index(os.Getenv("GORACE"), "log_path=")
	if i < 0 {
		return "", 0
	}
	name := strings.Fields(os.Getenv("GORACE")[i+len("log_path="):])[0] + fmt.Sprintf(".%d", os.Getpid())
	b, err := os.ReadFile(filepath.Clean(name))
	if err != nil || int64(len(b)) < off {
		return "", 0
	}
	return string(b[off:]), int64(len(b))
}

// raceSites names the functions of the first report.
func raceSites(rep string) string {
	var l []string
	for _, s := range strings.Split(rep, "\n") {
		t := strings.TrimSpace(s)
		switch {
		case strings.HasPrefix(t, "=====") && len(l) > 0:
			return strings.Join(l, "; ")
		case strings.HasPrefix(t, "Write at"), strings.HasPrefix(t, "Read at"), strings.HasPrefix(t, "Previous"):
			l = append(l, strings.Fields(t)[0])
		case strings.HasPrefix(t, "github.com/bazelbuild/buildtools/") && !strings.Contains(t, "/zsim/") && len(l) > 0 && !strings.Contains(l[len(l)-1], " in "):
			l[len(l)-1] += " in " + strings.TrimPrefix(t, "github.com/bazelbuild/buildtools/")
		}
	}
	return strings.Join(l, "; ")
}

func init() {
	register(&Check{
		Prop: "C18", Gen: genC18, Run: runC18,
		Real: "build, warn, edit, bzlmod, labels, tables as libraries; buildifier and buildozer with their workers; Go's race detector", Stub: "operating system, file system, clock, scheduler (with the happens-before edges of real synchronisation only)",
		Rule: "2 to 8 goroutines parse, format, lint, fix and edit different files under random preemption; each must see what it sees alone, trees parsed separately must not share state, and the race detector must stay silent; the same for the workers of buildifier and buildozer.",
	})
}

func genC18(r *simrt.Rng, rn *Runner) *Plan {
	p := &Plan{S: map[string]string{}, I: map[string]int{}}
	if r.P(0.25) {
		p.Kind = "tool"
		if r.P(0.5) {
			t, names := genBfTree(r, rn, 0.1)
			lintify(r, t, 0.5)
			if len(names) > 12 {
				names = names[:12]
			}
			st := Step{Tool: "buildifier", Args: []string{"-mode=" + pick(r, "fix", "check", "diff"), "-lint=" + pick(r, "off", "warn", "fix")}, Sched: genSched(r), Files: spellAll(r, names)}
			p.Tree, p.Steps = t, []Step{st}
		} else {
			t, files := genPackages(r, 2+r.Intn(6), 0.1)
			st := Step{Tool: "buildozer", Args: []string{fmt.Sprintf("-numio=%d", 2+r.Intn(7))}, Sched: genSched(r)}
			for _, a := range []string{"-k", "-output_json", "-stdout", "-quiet"} {
				if r.P(0.2) {
					st.Args = append(st.Args, a)
				}
			}
			for i, k := 0, 1+r.Intn(3); i < k; i++ {
				st.Args = append(st.Args, anyCmd(r))
			}
			for _, f := range files {
				st.Files = append(st.Files, "//"+pkgOf(f)+":"+pick(r, "all", "*", "%cc_library", "__pkg__", "lib"))
			}
			p.Tree, p.Steps = t, []Step{st}
		}
		p.Steps[0].Sched.Quantum = 1 + r.Intn(400)
		p.Steps[0].Sched.Policy = "random"
		return p
	}
	p.Kind = "library"
	p.Tree = Tree{"/w/WORKSPACE": vfs.Node{Mode: 0644}, "/w/MODULE.bazel": vfs.Node{Mode: 0644, Data: genModule(r, 0.2) + "bazel_dep(name = \"rules_cc\", repo_name = \"my_cc\")\n"}}
	st := Step{Sched: genSched(r)}
	st.Sched.Policy = pick(r, "random", "random", "pct")
	st.Sched.Quantum = []int{1, 5, 30, 200, 2000}[r.Intn(5)]
	n := 2 + r.Intn(4)
	if r.P(0.2) {
		n = 6 + r.Intn(3)
	}
	var common string
	if r.P(0.4) {
		common = genLint(r, true)
	}
	for g := 0; g < n; g++ {
		var mine []string
		for i, k := 0, 1+r.Intn(2); i < k; i++ {
			q := fmt.Sprintf("/w/g%d/%s", g, pick(r, "BUILD", "BUILD.bazel", "d.bzl", "x.star", "MODULE.bazel", "WORKSPACE"))
			data := ""
			switch {
			case r.P(0.5):
				data = genLint(r, !strings.Contains(q, "BUILD"))
			default:
				data = genText(r, q, 0.4)
			}
			if common != "" && strings.HasSuffix(q, ".bzl") {
				data = common
			}
			if r.P(0.1) {
				data += "cc_library(name = \"cc\")\njava_library(name = \"j\")\npy_test(name = \"p\")\n"
			}
			if strings.HasSuffix(q, ".bzl") && r.P(0.4) {
				// several goroutines read the same files of the workspace, under the same names
				data = "load(\"//a:d.bzl\", \"foo\", \"bar\")\nload(\":d.bzl\", \"baz\")\n\ndef x(y):\n    foo(y)\n    baz()\n\n" + data
				p.Tree["/w/a/d.bzl"] = vfs.Node{Mode: 0644, Data: "def foo(x):\n    \"\"\"D.\n\n    Deprecated: no.\n    \"\"\"\n    native.cc_library(name = x)\n\ndef bar():\n    pass\n"}
			}
			p.Tree[q] = vfs.Node{Mode: 0644, Data: data}
			mine = append(mine, q)
		}
		for i, k := 0, 1+r.Intn(4); i < k; i++ {
			a := Act{G: g, Op: actOps[r.Intn(len(actOps))], File: mine[r.Intn(len(mine))]}
			switch a.Op {
			case "labels":
				for j := 0; j < 1+r.Intn(5); j++ {
					a.Arg += pick(r, "//a:b", ":x", "a", "//a/b", "@r//a/b:b", "@//x:y", "//a/b:c/d", "@r", "//:q", "@@c//d:e") + " "
				}
			case "buildozer":
				a.Arg = anyCmd(r)
			}
			st.Script = append(st.Script, a)
		}
	}
	p.Steps = []Step{st}
	return p
}

func runC18(p *Plan, rn *Runner) *Violation {
	if len(p.Steps) == 0 {
		return nil
	}
	st := p.Steps[0]
	_, off := raceReport(0)
	fs := NewFS(p.Tree)
	res := rn.Exec(fs, st)
	race := func() *Violation {
		if res.Races == 0 {
			return nil
		}
		rep, _ := raceReport(off)
		if os.Getenv("SIM_RACELOG") != "" {
			os.WriteFile(os.Getenv("SIM_RACELOG"), []byte(rep), 0666)
		}
		v := viol("race", "data race (%d report(s)): %s", res.Races, raceSites(rep))
		return v
	}
	if st.Tool != "" {
		if v := noEnd(res); v != nil && res.Races == 0 {
			return nil // C21
		}
		return race()
	}
	if v := race(); v != nil {
		return v
	}
	// the same operations of each goroutine alone
	max := -1
	for _, a := range st.Script {
		if a.G > max {
			max = a.G
		}
	}
	if !res.Ended() && res.Panic == "" && res.Deadlock == "" {
		return nil
	}
	for g := 0; g <= max; g++ {
		one := st
		one.Script = nil
		for _, a := range st.Script {
			if a.G == g {
				a.G = 0
				one.Script = append(one.Script, a)
			}
		}
		if len(one.Script) == 0 {
			continue
		}
		one.Sched = calm()
		one.Sched.MapSeed = 0
		ref := rn.Exec(NewFS(p.Tree), one)
		if !ref.Ended() {
			return nil // the operation itself fails
		}
		if !res.Ended() {
			continue
		}
		if len(ref.LibOut) != 1 || len(res.LibOut) <= g {
			return nil
		}
		if i := strings.Index(res.LibOut[g], "\nSHARED: "); i >= 0 {
			return viol("shared", "%s", strings.SplitN(res.LibOut[g][i+1:], "\x00", 2)[0])
		}
		if ref.LibOut[0] != res.LibOut[g] {
			return viol("result", "goroutine %d of %d gets another result than alone: %s", g, max+1, firstDiff(ref.LibOut[0], res.LibOut[g]))
		}
	}
	if !res.Ended() {
		return viol("crash", "every goroutine alone succeeds, but all together end with %s", res.How())
	}
	rn.Probe("compared")
	return nil
}
