package main

import (
	"fmt"
	"path"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
	vfs "github.com/bazelbuild/buildtools/zsim/vfs"
)

// oddPkgs are package names with characters that mean something elsewhere.
var oddPkgs = []string{"a-b", "a.b", "%d%s", "A", "a@b", "x.bzl", "third-party", "a,b", "a=b", "a+b", "BUILDS", "b/c", "a~b", "$x", "é", "p/p/p/p/p", strings.Repeat("long", 30)}

// genPackages draws a workspace with n packages; it returns the paths of their BUILD files.
func genPackages(r *simrt.Rng, n int, brokenP float64) (Tree, []string) {
	t := Tree{}
	t["/w/"+pick(r, "WORKSPACE", "WORKSPACE.bazel", "MODULE.bazel")] = vfs.Node{Data: "# root\n"}
	if r.P(0.2) {
		t["/w/WORKSPACE"] = vfs.Node{Data: genWorkspace(r, 0)}
	}
	var files []string
	used := map[string]bool{}
	odd := r.P(0.08)
	for i := 0; len(files) < n; i++ {
		d := pick(r, dirsPool...)
		if i > 2*n {
			d = fmt.Sprintf("p%d", i)
		}
		if odd {
			d = path.Join(d, oddPkgs[r.Intn(len(oddPkgs))])
		}
		if used[d] {
			continue
		}
		used[d] = true
		p := path.Join("/w", d, pick(r, "BUILD", "BUILD.bazel", "BUILD", "BUCK"))
		txt := genBuild(r, 0)
		if r.P(0.3) {
			txt = genBuild(r, 0.3)
		}
		// most files have some cc_library to act upon
		if r.P(0.7) && !strings.Contains(txt, "\"lib\"") {
			txt += "\ncc_library(\n    name = \"lib\",\n    srcs = [\"lib.cc\"],\n    deps = [\n        \":a\",\n        \"//b/c:d\",\n    ],\n)\n"
		}
		if r.P(brokenP) {
			txt = genBroken(r)
		}
		t[p] = vfs.Node{Data: txt}
		files = append(files, p)
	}
	return t, files
}

// pkgOf is the package of a BUILD file of the workspace /w.
func pkgOf(p string) string {
	d := path.Dir(p)
	return strings.TrimPrefix(strings.TrimPrefix(d, "/w"), "/")
}

// genIdemCmd draws a command whose repetition changes nothing more.
func genIdemCmd(r *simrt.Rng) string {
	w := words[r.Intn(len(words))]
	return pick(r,
		"add deps //x:"+w,
		"add srcs "+w+".cc",
		"add data :"+w,
		"remove deps :"+w,
		"remove deps //b/c:d",
		"set testonly 1",
		"set visibility //visibility:public",
		"set_if_absent linkstatic 1",
		"replace deps :a :"+w,
		"new_load //x:y.bzl "+w,
		"fix",
		"comment deps "+w,
		"dict_add env K:"+w,
		"remove_comment",
		"remove data",
		"set_select deps //conditions:default :a",
		"substitute deps //(.*) //new/${1}",
	)
}

// bfProgram is an external formatter.
func bfProgram(c *vfs.Child) int {
	in := c.In()
	if strings.Contains(in, "= =") {
		c.Err("<stdin>:1:1: syntax error near =\n")
		return 1
	}
	c.Out("# bf\n" + strings.TrimPrefix(in, "# bf\n"))
	return 0
}
