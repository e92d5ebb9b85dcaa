package main

import (
	"fmt"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

func init() {
	register(&Check{
		Prop: "C21", Gen: genC21, Run: runC21,
		Real: "buildifier, buildozer and unused_deps with everything below them, of /repo's working tree",
		Stub: "operating system, file system, clock, scheduler; the build tool, the diff programs and the external formatter",
		Rule: "Whole runs of all three tools with any arguments, damaged sources, any number of files and workers, and errors, short reads, stalls and failing helpers at any calls; every process must end with an exit status within a bounded number of steps.",
	})
}

// cmdShapes gives the numbers of arguments of the commands of buildozer.
var cmdShapes = map[string][2]int{
	"add": {2, 4}, "new_load": {1, 4}, "replace_load": {1, 4}, "substitute_load": {2, 2}, "comment": {1, 3}, "print_comment": {0, 2},
	"delete": {0, 0}, "fix": {0, 3}, "move": {3, 5}, "new": {2, 4}, "print": {0, 5}, "remove": {1, 4}, "remove_comment": {0, 2},
	"remove_if_equal": {2, 2}, "rename": {2, 2}, "replace": {3, 3}, "substitute": {3, 3}, "set": {1, 4}, "set_if_absent": {1, 4},
	"set_select": {1, 6}, "copy": {2, 2}, "copy_no_overwrite": {2, 2}, "dict_add": {2, 4}, "dict_set": {2, 4}, "dict_remove": {2, 4},
	"dict_replace_if_equal": {4, 4}, "dict_list_add": {3, 5}, "use_repo_add": {2, 5}, "use_repo_remove": {2, 5}, "format": {0, 0},
}

var cmdNames = func() []string {
	m := map[string]bool{}
	for k := range cmdShapes {
		m[k] = true
	}
	return keysOf(m)
}()

// anyCmd draws a command with arguments that need not make sense.
func anyCmd(r *simrt.Rng) string {
	n := cmdNames[r.Intn(len(cmdNames))]
	if r.P(0.05) {
		return pick(r, "use_repo_add ", "use_repo_remove ") + pick(r, "dev @ext//:e.bzl", "@ext//:e.bzl", "@ext//:e.bzl ext", "@ext//:e.bzl ext z", "dev @ext//:e.bzl ext q", "ext z", "nope z", "ext z b", "dev z")
	}
	sh := cmdShapes[n]
	k := sh[0] + r.Intn(sh[1]-sh[0]+1)
	if r.P(0.02) {
		k = r.Intn(6)
	}
	if r.P(0.5) {
		k = sh[0]
	}
	if r.P(0.01) {
		n = pick(r, "nosuch", "", "Add", "print ")
	}
	parts := []string{n}
	for i := 0; i < k; i++ {
		parts = append(parts, anyArg(r, i))
	}
	return strings.Join(parts, " ")
}

func anyArg(r *simrt.Rng, i int) string {
	if i == 0 && r.P(0.6) {
		return pick(r, "deps", "srcs", "name", "tags", "visibility", "kind", "args", "env", "copts", "testonly", "size", "defines", "x", "label", "rule", "attrs", "package_metadata", "features", "load", "dev", "licenses", "commonDicts", "unusedLoads", "movePackageToTop", "cleanSelects", "@ext//:e.bzl", "ext")
	}
	if r.P(0.6) {
		return pick(r, words[r.Intn(len(words))], "lib", "tr", ":lib", "//a:b", "key:value", "lib.cc", "1", "True", "deps", "name", "kind")
	}
	return pick(r, words[r.Intn(len(words))], "//a:b", ":lib", "lib", "lib.cc", "//b/c", "//b/c:c", "@r//x:y", "@@r//x", "a:b", "a:b:c", "key:value", ":", "k:", ":v",
		"", "*", "=", "a=b", "1", "-1", "True", "None", "[]", "{}", "glob([\"*\"])", "select({})", "\"q\"", "\\ ", "a\\ b", ".*", "(.*)", "(", "$1x", "${1}", "[", "//", "//:", "@", "before", "after", "all",
		"default", "//conditions:default", "ext", "@ext//:e.bzl", "dev", "%x", "x.bzl", "//x:y.bzl", "rule", "\n", "a\tb", "\u00e9", "\xff", strings.Repeat("long", 300))
}

func anyLabel(r *simrt.Rng, files []string) string {
	if r.P(0.1) {
		return "//MODULE.bazel:" + pick(r, "all", "ext", "%use_extension", "%bazel_dep", "__pkg__")
	}
	if len(files) > 0 && r.P(0.6) {
		return "//" + pkgOf(files[r.Intn(len(files))]) + ":" + pick(r, "all", "*", "%cc_library", "__pkg__", "lib", "all")
	}
	if len(files) > 0 && r.P(0.75) {
		pk := pkgOf(files[r.Intn(len(files))])
		return pick(r, "//"+pk, pk+"", "//"+pk) + ":" + pick(r, "all", "*", "%cc_library", "%java_library", "__pkg__", "lib", words[r.Intn(len(words))], "%1", "%9", "%-1", "%0", "nosuch", "%load", "", "%", "BUILD", "a:b", "%2 ")
	}
	return pick(r, "//...:all", "//a/...:%cc_library", "...", "...:all", "//...:__pkg__", "//b/...", "", ":", "//", "-", "@r//a:b", "@r//...", "all", "lib", "//MODULE.bazel:all", "//WORKSPACE:all", "//a/x.bzl:all", "MODULE.bazel:%use_extension",
		"//nosuch:all", "//a/../b:all", "/w/a:all", "..", "../x:all", ":all", "//a:b:c", "///a", "//a/BUILD:%1", "//a//b:all", "a/...", "\xff:all")
}

// scramble damages a source text.
func scramble(r *simrt.Rng, s string) string {
	toks := []string{"(", ")", "[", "]", "{", "}", ",", ":", "=", "+", "%", "\"", "'''", "\"\"\"", "\\\n", "\n", " ", "\t", "#", "# buildifier: disable=all\n", "def f():\n", "    pass\n", "load", "lambda x: x", "if", "else", "for x in y", "return", "not", "in", "*", "**", ".", "None", "0", "1e", "0x", "-", "depset", "select", "glob", "name", "deps", "True", "//", "//a:b", "@", "\x00", "\xff", "\u00a0", "\r", ";", "package(", "native.", "ctx.attr", "rule(", "print(", "x", "_", "f\"", "r\"", "b\"", "{}.format(", "struct(", "fail(", "%s", "+=", "==", "!=", "|", "&", "<<", "->", "..."}
	for i, n := 0, 1+r.Intn(6); i < n; i++ {
		p := r.Intn(len(s) + 1)
		switch r.Intn(5) {
		case 0:
			e := p + r.Intn(12)
			if e > len(s) {
				e = len(s)
			}
			s = s[:p] + s[e:]
		case 1:
			if r.P(0.1) {
				s = s[:p]
			}
		case 2:
			q := r.Intn(len(s) + 1)
			if q < p {
				p, q = q, p
			}
			if q-p > 60 {
				q = p + 60
			}
			k := r.Intn(len(s) + 1)
			s = s[:k] + s[p:q] + s[k:]
		case 3:
			// line operations
			ls := strings.SplitAfter(s, "\n")
			a, b := r.Intn(len(ls)), r.Intn(len(ls))
			ls[a], ls[b] = ls[b], ls[a]
			if r.P(0.3) {
				ls[a] = strings.TrimLeft(ls[a], " ")
			}
			if r.P(0.3) {
				ls[b] = "    " + ls[b]
			}
			s = strings.Join(ls, "")
		default:
			s = s[:p] + toks[r.Intn(len(toks))] + s[p:]
		}
	}
	return s
}

func genC21(r *simrt.Rng, rn *Runner) *Plan {
	p := &Plan{Tree: Tree{}, S: map[string]string{}, I: map[string]int{}}
	switch r.Intn(5) {
	case 0, 1:
		p.Kind = "buildifier"
		t, names := genBfTree(r, rn, 0.15)
		if r.P(0.5) {
			for _, q := range vfs.Paths(t) {
				if n := t[q]; n.Kind == "" && r.P(0.4) {
					n.Data = scramble(r, n.Data)
					t[q] = n
				}
			}
		}
		if r.P(0.1) {
			t["/w/d/loop"] = vfs.Node{Kind: "link", Target: pick(r, "..", "loop", "/w", "../d/loop", "BUILD")}
			names = append(names, pick(r, "/w/d/loop", "/w/d/loop/BUILD"))
		}
		st := Step{Tool: "buildifier", Sched: genSched(r)}
		if r.P(0.7) {
			st.Args = append(st.Args, "-mode="+pick(r, "fix", "check", "diff", "fix", "print_if_changed", "diff"))
		}
		if r.P(0.6) {
			st.Args = append(st.Args, "-lint="+pick(r, "warn", "fix", "off", "warn"))
			if r.P(0.7) {
				st.Args = append(st.Args, "-warnings="+pick(r, "all", "default", "+out-of-order-load", "-unused-variable", "load,unused-variable", "nosuch", "", "all"))
			}
		}
		if r.P(0.2) {
			st.Args = append(st.Args, "-format="+pick(r, "json", "text", "json", "nosuch"))
		}
		if r.P(0.2) {
			st.Args = append(st.Args, "-v")
		}
		if r.P(0.15) {
			st.Args = append(st.Args, "-type="+pick(r, "build", "bzl", "workspace", "module", "default", "auto", "nosuch"))
		}
		if r.P(0.1) {
			st.Args = append(st.Args, "-multi_diff", "-diff_command=tkdiff")
		}
		if r.P(0.1) {
			st.Args = append(st.Args, pick(r, "-config=/w/c.json", "-tables=/w/c.json", "-add_tables=/w/c.json", "-config=example", "-config=off"))
			t["/w/c.json"] = vfs.Node{Data: pick(r, "{}", "{\"mode\": \"check\"}", "[", "null", "{\"lint\": 3}", "{\"IsLabelArg\": {\"x\": true}}", "", "\"x\"")}
		}
		if r.P(0.1) {
			t["/w/.buildifier.json"] = vfs.Node{Data: pick(r, "{\"mode\": \"check\", \"lint\": \"warn\"}", "[", "{\"warningsList\": [\"load\"]}", "null")}
		}
		switch {
		case r.P(0.15):
			st.Stdin = scramble(r, genBuild(r, 0.4))
			if r.P(0.5) {
				st.Args = append(st.Args, "-path="+pick(r, "a/BUILD", "x.bzl", "WORKSPACE", "", "/w/d/MODULE.bazel", "../.."))
			}
			for rem := len(st.Stdin); rem > 0 && r.P(0.7); {
				k := 1 + r.Intn(rem)
				st.Chunks = append(st.Chunks, k)
				rem -= k
			}
		case r.P(0.2):
			st.Args = append(st.Args, "-r")
			st.Files = []string{pick(r, "/w", ".", "a", "/w/nosuch", "/")}
		default:
			st.Files = spellAll(r, names)
		}
		p.Tree, p.Steps = t, []Step{st}
	case 2, 3:
		p.Kind = "buildozer"
		n := 1 + r.Intn(5)
		if r.P(0.05) {
			n = 100 + r.Intn(150)
		}
		t, files := genPackages(r, n, 0.1)
		if r.P(0.5) {
			t["/w/MODULE.bazel"] = vfs.Node{Data: genModule(r, 0.2)}
		}
		if r.P(0.3) {
			t["/w/a/x.bzl"] = vfs.Node{Data: genBzl(r, 0.2)}
		}
		if r.P(0.3) {
			for _, q := range vfs.Paths(t) {
				if m := t[q]; m.Kind == "" && r.P(0.4) {
					m.Data = scramble(r, m.Data)
					t[q] = m
				}
			}
		}
		if r.P(0.1) {
			t["/w/d/loop"] = vfs.Node{Kind: "link", Target: pick(r, "..", "loop", "/w", "../d/loop", "BUILD")}
		}
		st := Step{Tool: "buildozer", Sched: genSched(r)}
		for _, a := range []string{"-k", "-quiet", "-stdout", "-output_json", "-output_proto", "-eol-comments=false", "-edit-variables", "-shorten_labels=false", "-delete_with_comments=false", "-buildifier=/usr/bin/bf", "-root_dir=/w", "-P=2", "-types=cc_library,java_library"} {
			if r.P(0.12) {
				st.Args = append(st.Args, a)
			}
		}
		if r.P(0.5) {
			st.Args = append(st.Args, fmt.Sprintf("-numio=%d", pickInt(r, 1, 2, 3, 8, 200, 0)))
		}
		if r.P(0.4) {
			// commands from files and standard input
			var b strings.Builder
			for i, k := 0, 1+r.Intn(6); i < k; i++ {
				var parts []string
				for j, c := 0, 1+r.Intn(2); j < c; j++ {
					parts = append(parts, anyCmd(r))
				}
				parts = append(parts, anyLabel(r, files))
				b.WriteString(strings.Join(parts, "|") + pick(r, "\n", "\n", "\n\n", "\r\n", "\n#x\n"))
			}
			if r.P(0.05) {
				b.WriteString(strings.Repeat("x", 70000) + "\n")
			}
			if r.P(0.5) {
				st.Args = append(st.Args, "-f=-")
				st.Stdin = b.String()
				for rem := len(st.Stdin); rem > 0 && r.P(0.7); {
					k := 1 + r.Intn(rem)
					st.Chunks = append(st.Chunks, k)
					rem -= k
				}
			} else {
				st.Args = append(st.Args, "-f=/home/u/cmds")
				t["/home/u/cmds"] = vfs.Node{Data: b.String()}
			}
		}
		if !has(st.Args, "-f") || r.P(0.2) {
			for i, k := 0, 1+r.Intn(3)*r.Intn(2); i < k; i++ {
				st.Args = append(st.Args, anyCmd(r))
			}
			for i, k := 0, 1+r.Intn(4); i < k; i++ {
				st.Files = append(st.Files, anyLabel(r, files))
			}
			if r.P(0.05) {
				st.Files = append(st.Files, "-")
				st.Stdin = genBuild(r, 0.2)
			}
			if n > 50 {
				st.Files = []string{"//...:all"}
			}
		}
		p.Tree, p.Steps = t, []Step{st}
	default:
		q := genUd(r, 0.5)
		p.Ops, p.Steps, p.I, p.Tree = q.Ops, q.Steps, q.I, q.Tree
		p.Kind = "build"
		if r.P(0.3) {
			p.Kind = "file"
			p.Steps[0].Args = []string{"-extra_action_file=/w/x.xa", "-output_file=/w/unused.txt"}
		}
		for o := range p.Ops {
			if r.P(0.1) {
				// any output of any target may be cut anywhere
				p.I["x"+fmt.Sprint(o)] = r.Intn(2000)
			}
		}
	}
	st := &p.Steps[0]
	if r.P(0.6) {
		dry := c21Run(p, rn, calmed(*st))
		n := 1 + r.Intn(3)
		if r.P(0.1) {
			n = 10
		}
		cand := injectable(dry.Events, nil)
		for i := 0; i < n && len(cand) > 0; i++ {
			j := cand[r.Intn(len(cand))]
			f := genErrFault(r, dry.Events, j)
			if f.Op == "exec" && r.P(0.7) {
				f.Kind, f.N = pick(r, "exit", "fail", "killed"), r.Intn(130)
			}
			if r.P(0.15) {
				f.Kind, f.N = "stall", 1+r.Intn(100000)
			}
			if r.P(0.1) {
				f.Path = "" // whatever file is next
			}
			st.Faults = append(st.Faults, f)
		}
		if r.P(0.05) {
			st.Disk = 1 + r.Intn(5000)
		}
	}
	return p
}

func c21Run(p *Plan, rn *Runner, st Step) *Result {
	if st.Tool == "unused_deps" {
		res, _ := udStep(p, rn, st)
		return res
	}
	return rn.Exec(NewFS(p.Tree), st)
}

func runC21(p *Plan, rn *Runner) *Violation {
	st := p.Steps[0]
	res := c21Run(p, rn, st)
	rn.Probe(st.Tool + " " + endKind(res))
	if v := noEnd(res); v != nil {
		v.Key = v.Class + " " + res.PanicAt
		return v
	}
	if res.Ended() && (res.Exit < 0 || res.Exit > 255) {
		return viol("status", "%s ends with status %d", cmdline(st), res.Exit)
	}
	if res.Signal != "" && res.Signal != "SIGPIPE" {
		return viol("signal", "%s dies of %s", cmdline(st), res.Signal)
	}
	return nil
}
