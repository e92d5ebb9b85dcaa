package main

import (
	"fmt"
	"path"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

func pick(r *simrt.Rng, xs ...string) string { return xs[r.Intn(len(xs))] }

// genSched draws a scheduler.
func genSched(r *simrt.Rng) simrt.Sched {
	s := simrt.Sched{Seed: r.Uint64() >> 1}
	switch r.Intn(6) {
	case 0:
		s.Policy = "fifo"
	case 1, 2:
		s.Policy = "random"
	case 3, 4:
		s.Policy = "pct"
		s.Depth = 1 + r.Intn(6)
	default:
		s.Policy = "random"
		s.Quantum = 200 + r.Intn(3000)
	}
	if r.P(0.6) {
		s.Latency = 1 + r.Intn(300)
	}
	if r.P(0.7) {
		s.MapSeed = r.Uint64()>>1 | 1
	}
	if r.P(0.25) {
		s.Short = []int{100, 30, 10}[r.Intn(3)]
	}
	s.Clock = 1_000_000_000 + int64(r.Intn(1_000_000_000))
	s.GoProcs = 1 + r.Intn(16)
	return s
}

// calm is the reference scheduler.
func calm() simrt.Sched { return simrt.Sched{Policy: "fifo"} }

// style of generated sources.
type style struct {
	r    *simrt.Rng
	mess float64 // probability of unusual layout
}

func (s style) sp() string {
	if s.r.P(s.mess) {
		return pick(s.r, "", " ", "  ")
	}
	return " "
}

func (s style) q(x string) string {
	if s.r.P(s.mess / 2) {
		return "'" + x + "'"
	}
	return `"` + x + `"`
}

var words = []string{"alpha", "beta", "gamma", "delta", "eps", "zeta", "eta", "theta", "iota", "kappa"}
var kinds = []string{"cc_library", "cc_binary", "java_library", "py_library", "genrule", "filegroup", "sh_test", "java_test"}

func (s style) list(n int, f func() string) string {
	var xs []string
	for i := 0; i < n; i++ {
		xs = append(xs, f())
	}
	if s.r.P(0.5) && n > 0 {
		ind := "        "
		if s.r.P(s.mess) {
			ind = pick(s.r, "  ", "    ", "            ")
		}
		out := "[\n"
		for _, x := range xs {
			out += ind + x + ",\n"
			if s.r.P(0.1) {
				out += ind + "# " + pick(s.r, words...) + "\n"
			}
		}
		return out + "    ]"
	}
	return "[" + strings.Join(xs, ","+s.sp()) + "]"
}

// rule writes one rule.
func (s style) rule(kind, name string) string {
	r := s.r
	var as []string
	as = append(as, "name"+s.sp()+"="+s.sp()+s.q(name))
	if r.P(0.7) {
		as = append(as, "srcs"+s.sp()+"="+s.sp()+s.list(r.Intn(4), func() string { return s.q(pick(r, words...) + pick(r, ".cc", ".h", ".java", ".py")) }))
	}
	if r.P(0.6) {
		as = append(as, "deps"+s.sp()+"="+s.sp()+s.list(r.Intn(5), func() string {
			return s.q(pick(r, ":", "//a:", "//b/c:", "//a/", "@ext//x:") + pick(r, words...))
		}))
	}
	if r.P(0.3) {
		as = append(as, "visibility"+s.sp()+"="+s.sp()+"["+s.q(pick(r, "//visibility:public", "//visibility:private", "//a:__pkg__"))+"]")
	}
	if r.P(0.2) {
		as = append(as, "testonly"+s.sp()+"="+s.sp()+pick(r, "True", "1", "False"))
	}
	if r.P(0.15) {
		as = append(as, "copts"+s.sp()+"="+s.sp()+"["+s.q("-O2")+"]"+s.sp()+"+"+s.sp()+"["+s.q("-g")+"]")
	}
	if r.P(0.15) {
		as = append(as, "data"+s.sp()+"="+s.sp()+"glob(["+s.q("*.txt")+"])")
	}
	if r.P(0.1) {
		as = append(as, "x"+s.sp()+"="+s.sp()+"select({"+s.q("//conditions:default")+":"+s.sp()+"["+s.q("b")+","+s.q("a")+"]})")
	}
	if r.P(s.mess) {
		// attributes in another order
		for i := len(as) - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			as[i], as[j] = as[j], as[i]
		}
	}
	c := ""
	if r.P(0.2) {
		c = "# " + pick(r, words...) + " " + pick(r, words...) + "\n"
	}
	if r.P(s.mess) && len(as) < 4 {
		return c + kind + "(" + strings.Join(as, ","+s.sp()) + ")\n"
	}
	ind := "    "
	if r.P(s.mess) {
		ind = pick(r, "  ", "      ", "\t")
	}
	out := c + kind + "(\n"
	for i, a := range as {
		out += ind + a
		if i < len(as)-1 || !r.P(s.mess) {
			out += ","
		}
		if r.P(0.08) {
			out += "  # " + pick(r, words...)
		}
		out += "\n"
	}
	return out + ")\n"
}

func (s style) blank() string {
	if s.r.P(s.mess) {
		return strings.Repeat("\n", s.r.Intn(4))
	}
	return "\n"
}

// genBuild writes a BUILD file.
func genBuild(r *simrt.Rng, mess float64) string {
	s := style{r, mess}
	var b strings.Builder
	if r.P(0.3) {
		b.WriteString("# " + pick(r, words...) + "\n" + s.blank())
	}
	if r.P(0.4) {
		syms := []string{s.q("foo")}
		if r.P(0.5) {
			syms = append(syms, s.q("bar"))
		}
		if r.P(mess) {
			syms = append(syms, s.q("aaa"))
		}
		b.WriteString("load(" + s.q(pick(r, "//a:d.bzl", ":d.bzl", "//b/c:e.bzl", "@ext//x:y.bzl")) + "," + s.sp() + strings.Join(syms, ","+s.sp()) + ")\n" + s.blank())
	}
	if r.P(0.3) {
		b.WriteString("package(default_visibility" + s.sp() + "=" + s.sp() + "[" + s.q("//visibility:public") + "])\n" + s.blank())
	}
	n := r.Intn(4)
	used := map[string]bool{}
	for i := 0; i < n; i++ {
		name := pick(r, words...)
		if used[name] {
			continue
		}
		used[name] = true
		switch r.Intn(8) {
		case 0:
			b.WriteString("X" + strings.ToUpper(name) + s.sp() + "=" + s.sp() + "[" + s.q("b") + "," + s.sp() + s.q("a") + "]\n")
		case 1:
			b.WriteString("foo(name" + s.sp() + "=" + s.sp() + s.q(name) + ")\n")
		default:
			b.WriteString(s.rule(pick(r, kinds...), name))
		}
		b.WriteString(s.blank())
	}
	if r.P(0.15) {
		b.WriteString("exports_files([" + s.q("z.txt") + "," + s.sp() + s.q("a.txt") + "])\n")
	}
	t := b.String()
	if t == "" {
		t = "# empty\n"
	}
	if mess > 0 && r.P(0.1) {
		t = strings.TrimRight(t, "\n")
	}
	return t
}

// genBzl writes a .bzl file.
func genBzl(r *simrt.Rng, mess float64) string {
	s := style{r, mess}
	var b strings.Builder
	if r.P(0.5) {
		b.WriteString("\"\"\"Module " + pick(r, words...) + ".\"\"\"\n" + s.blank())
	}
	if r.P(0.5) {
		b.WriteString("load(" + s.q(pick(r, "//a:d.bzl", ":d.bzl", "//b/c:e.bzl")) + "," + s.sp() + s.q(pick(r, "foo", "bar")) + ")\n" + s.blank())
	}
	n := 1 + r.Intn(3)
	for i := 0; i < n; i++ {
		f := pick(r, "foo", "bar", "_priv", "baz") + fmt.Sprint(i)
		if i == 0 && r.P(0.5) {
			f = pick(r, "foo", "bar")
		}
		switch r.Intn(7) {
		case 0:
			b.WriteString("def " + f + "(name," + s.sp() + "deps" + s.sp() + "=" + s.sp() + "[]):\n    native.cc_library(name" + s.sp() + "=" + s.sp() + "name," + s.sp() + "deps" + s.sp() + "=" + s.sp() + "deps)\n")
		case 1:
			b.WriteString("def " + f + "(x):\n    \"\"\"Doc.\n\n    Args:\n      x: it\n    \"\"\"\n    if x" + s.sp() + "==" + s.sp() + "1:\n        return 2\n    for i in range(x):\n        print(i)\n    return" + s.sp() + "x\n")
		case 2:
			b.WriteString("def " + f + "():\n    foo(name" + s.sp() + "=" + s.sp() + s.q("x") + ")\n")
		case 3:
			b.WriteString("def " + f + "(ctx):\n    if ctx:\n        y" + s.sp() + "=" + s.sp() + "1\n    else:\n        z" + s.sp() + "=" + s.sp() + "2\n    return y" + s.sp() + "+" + s.sp() + "z\n")
		case 4:
			b.WriteString("def " + f + "(a,b,c):\n    u" + s.sp() + "=" + s.sp() + "a\n    v = b\n    return None\n    w = c\n")
		case 5:
			b.WriteString(strings.ToUpper(f) + s.sp() + "=" + s.sp() + "{" + s.q("b") + ":" + s.sp() + "1," + s.sp() + s.q("a") + ":" + s.sp() + "2}\n")
		default:
			b.WriteString("def " + f + "(**kwargs):\n    native.java_library(**kwargs)\n    bar(1)\n")
		}
		b.WriteString(s.blank())
		if i < n-1 {
			b.WriteString("\n")
		}
	}
	return b.String()
}

func genWorkspace(r *simrt.Rng, mess float64) string {
	s := style{r, mess}
	t := "workspace(name" + s.sp() + "=" + s.sp() + s.q("ws") + ")\n"
	if r.P(0.5) {
		t += "\nload(" + s.q("@bazel_tools//tools/build_defs/repo:http.bzl") + "," + s.sp() + s.q("http_archive") + ")\n\nhttp_archive(name" + s.sp() + "=" + s.sp() + s.q("ext") + ", urls=[])\n"
	}
	return t
}

func genModule(r *simrt.Rng, mess float64) string {
	s := style{r, mess}
	t := "module(name" + s.sp() + "=" + s.sp() + s.q("m") + ")\n\nbazel_dep(name" + s.sp() + "=" + s.sp() + s.q("rules_go") + ", version=" + s.q("1") + ")\n"
	if r.P(0.5) {
		t += "\next = use_extension(" + s.q(pick(r, "//a:d.bzl", "@ext//:e.bzl")) + ", " + s.q("ext") + pick(r, "", "", ", dev_dependency = True") + ")\nuse_repo(ext," + s.sp() + s.q("z") + "," + s.sp() + s.q("b") + ")\n"
	}
	return t
}

// broken sources.
func genBroken(r *simrt.Rng) string {
	good := genBuild(r, 0.3)
	switch r.Intn(7) {
	case 6:
		bad := corpusBy["bad"]
		return good + bad[r.Intn(len(bad))]
	case 0:
		return good + "cc_library(\n"
	case 1:
		return "x = = 1\n" + good
	case 2:
		return good + "foo(\"abc\n)\n"
	case 3:
		return "def f(:\n  pass\n"
	case 4:
		return good + "\x00\xff\xfe"
	}
	return good + "]\n"
}

// genText writes a source of the kind the file name implies.
func genText(r *simrt.Rng, p string, mess float64) string {
	t := genText1(r, p, mess)
	if mess > 0 {
		t = strangeText(r, p, t)
	}
	switch r.Intn(60) {
	case 0, 1, 2, 3:
		for i, n := 0, 2+r.Intn(12); i < n; i++ {
			t += "\n" + strings.TrimSuffix(genText1(r, p, mess), "\n") + "\n"
		}
	case 4:
		// larger than the buffers readers and writers use
		c := strings.Repeat("# "+strings.Repeat(pick(r, words...)+" ", 2+r.Intn(9))+"\n", 8)
		for len(t) < 4096<<r.Intn(6) {
			t += "\n" + c + strings.TrimSuffix(genText1(r, p, mess), "\n") + "\n"
		}
	case 8, 9:
		// a small difference of the same length far from both ends
		if mess > 0 {
			pad := func() string { return strings.Repeat("# "+pick(r, words...)+"\n", 40<<r.Intn(7)) + "\n" }
			return pad() + pick(r, "X = 'a'\n", "X = [1,  2]\nY = 'b'\n", "foo(name = 'x')\n") + "\n" + strings.TrimSuffix(pad(), "\n")
		}
	case 5:
		return ""
	case 6:
		t = strings.ReplaceAll(t, "\n", "\r\n")
	case 7:
		t += "\n\n\n"
	}
	return t
}

func genText1(r *simrt.Rng, p string, mess float64) string {
	b := p[strings.LastIndex(p, "/")+1:]
	switch {
	case strings.HasSuffix(b, ".bzl"), strings.HasSuffix(b, ".star"), strings.HasSuffix(b, ".sky"):
		return genBzl(r, mess)
	case strings.HasPrefix(b, "WORKSPACE"):
		return genWorkspace(r, mess)
	case b == "MODULE.bazel":
		return genModule(r, mess)
	}
	return genBuild(r, mess)
}

// oddDirs have names that are easily mistaken for something else.
var oddDirs = []string{"a b", "%d%s", "é", "-x", "a'b", "q\"q", "$HOME", "a,b", "a:b", "a=b", "*", "...", "A", "a\\b", "@x", "#c", "~", "{a}", "[ab]", "a&b", "x.bzl", strings.Repeat("long", 30)}

var dirsPool = []string{"", "a", "b", "b/c", "d", "d/e/f", "g", "h", "third_party/x", "z"}

// genFiles draws a tree of sources; the result lists their paths in order.
func genFiles(r *simrt.Rng, n int, brokenP float64) (Tree, []string) {
	t := Tree{}
	var names []string
	oddP := 0.0
	if r.P(0.2) {
		oddP = 0.4
	}
	for i := 0; len(names) < n; i++ {
		d := pick(r, dirsPool...)
		if i > 3*n {
			d = fmt.Sprintf("p%d", i)
		}
		if r.P(oddP) {
			d = path.Join(d, oddDirs[r.Intn(len(oddDirs))])
		}
		base := pick(r, "BUILD", "BUILD.bazel", "BUILD", "defs.bzl", "d.bzl", "e.bzl", "x.star", "MODULE.bazel", "WORKSPACE", "REPO.bazel", "BUILD.oss", "lib.BUILD.bazel")
		p := "/w/" + base
		if d != "" {
			p = "/w/" + d + "/" + base
		}
		if _, ok := t[p]; ok || underAny(names, p) {
			continue
		}
		mess := 0.0
		if r.P(0.7) {
			mess = 0.1 + r.Float()*0.6
		}
		txt := genText(r, p, mess)
		if r.P(brokenP) {
			txt = genBroken(r)
		}
		mode := uint32(0644)
		if r.P(0.15) {
			mode = []uint32{0600, 0755, 0664, 0666}[r.Intn(4)]
		}
		t[p] = vfs.Node{Data: txt, Mode: mode}
		names = append(names, p)
	}
	return t, names
}

// underAny tells whether p is below one of the files or the other way round.
func underAny(names []string, p string) bool {
	for _, n := range names {
		if strings.HasPrefix(p, n+"/") || strings.HasPrefix(n, p+"/") {
			return true
		}
	}
	return false
}

var readErrs = []string{"EIO", "EACCES", "ESTALE", "ENOMEM", "EISDIR"}
var writeErrs = []string{"ENOSPC", "EIO", "EDQUOT", "EFBIG"}
var openErrs = []string{"EIO", "EACCES", "EMFILE", "ENFILE", "ESTALE", "ELOOP", "ENOMEM", "EPERM"}

// errFor draws an error a system call can really return.
func errFor(r *simrt.Rng, op string) string {
	switch op {
	case "open", "stat", "lstat", "readdir", "fstat":
		return openErrs[r.Intn(len(openErrs))]
	case "create":
		return pick(r, "EACCES", "ENOSPC", "EROFS", "EMFILE", "EIO", "EDQUOT", "ETXTBSY")
	case "write":
		return writeErrs[r.Intn(len(writeErrs))]
	case "close":
		return pick(r, "EIO", "ENOSPC", "EDQUOT")
	case "unlink", "rmdir":
		return pick(r, "EACCES", "EIO", "EBUSY", "EROFS", "EPERM")
	case "exec":
		return pick(r, "ENOENT", "EACCES", "ENOMEM", "E2BIG", "EAGAIN")
	case "mkdir", "rename", "symlink", "chmod":
		return pick(r, "EACCES", "ENOSPC", "EROFS", "EIO")
	}
	return readErrs[r.Intn(len(readErrs))]
}

// faultAt makes a fault for the i-th event of a recorded run: the same operation on the same path,
// counted among its kind.
func faultAt(events []vfs.Event, i int) vfs.Fault {
	e := events[i]
	n := 0
	for _, x := range events[:i+1] {
		if x.Op == e.Op && x.Path == e.Path {
			n++
		}
	}
	return vfs.Fault{Op: e.Op, Path: e.Path, Nth: n}
}

// genErrFault turns a position of a dry run into an injected error.
func genErrFault(r *simrt.Rng, events []vfs.Event, i int) vfs.Fault {
	f := faultAt(events, i)
	e := events[i]
	f.Kind = "err"
	f.Err = errFor(r, e.Op)
	switch e.Op {
	case "read", "write":
		if r.P(0.6) {
			f.Kind = "partial"
			f.N = r.Intn(e.N + 1)
		}
	case "readdir":
		if r.P(0.6) {
			f.Kind = "partial"
			f.N = r.Intn(e.N + 1)
		}
	case "close":
		// a delayed write that fails: the end of what was written is lost
		if r.P(0.6) {
			f.Kind = "partial"
			n := 0
			for _, w := range events[:i] {
				if w.Op == "write" && w.Path == e.Path {
					n = w.N
				}
			}
			f.N = r.Intn(n + 1)
		}
	}
	if r.P(0.2) {
		f.Count = -1
	}
	return f
}

// injectable lists the events of a dry run that can be made to fail.
func injectable(events []vfs.Event, want func(vfs.Event) bool) []int {
	var out []int
	for i, e := range events {
		switch e.Op {
		case "exit", "wait", "childread", "childwrite", "getcwd":
			continue
		}
		if want == nil || want(e) {
			out = append(out, i)
		}
	}
	return out
}
