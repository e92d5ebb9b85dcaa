package main

import (
	"fmt"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

// zooBuild are pieces of BUILD files that the linter has something to say about; $A, $B, $C are names.
var zooBuild = []string{
	"cc_library(name = \"$A\")\ncc_library(name = \"$A\")\n",
	"cc_library(name = \"$A\", srcs = [\"$A.cc\"], deps = [\":$B\", \":$C\", \":$B\"])\n",
	"java_library(name = \"$A\")\njava_binary(name = \"$B\", main_class = \"$C\")\njava_test(name = \"t$A\")\n",
	"py_library(name = \"$A\")\npy_binary(name = \"$B\")\nsh_test(name = \"$C\")\n",
	"proto_library(name = \"$A\")\njava_proto_library(name = \"$B\")\ncc_proto_library(name = \"$C\")\n",
	"android_library(name = \"$A\")\naar_import(name = \"$B\")\n",
	"native.cc_library(name = \"$A\")\n",
	"load(\"//a:d.bzl\", \"$A\", \"$B\", \"$C\")\n",
	"load(\"//a:d.bzl\", \"foo\", $A = \"bar\")\nfoo(name = \"$B\")\n",
	"load(\"//b/c:e.bzl\", \"$A\")\nload(\"//a:d.bzl\", \"$B\")\n$B(name = \"$C\")\n",
	"load(\"//x/internal:y.bzl\", \"$A\")\nload(\"@r//x/private:y.bzl\", \"$B\")\n$A()\n$B()\n",
	"_$A = 1\n_$B = 2\n_$C = 3\n",
	"$A = 1\n$A = 2\n$B = \"x\"\n$B = \"y\"\n",
	"l = 1\nO = 2\nI = 3\n",
	"glob([\"$A.cc\", \"$B.cc\"])\n",
	"\"no effect $A\"\n1 + 2\n[x for x in [1]]\n",
	"foo(\"$A\", \"$B\")\nmy_rule(\"$C\")\n",
	"cc_library(\"$A\", [\"$B\"])\n",
	"foo(name = \"$A\", *[1])\nfoo(name = \"$B\", **{\"x\": 1})\n",
	"package(default_visibility = [\"//visibility:public\"])\n",
	"X = {\"$B\": 1, \"$A\": 2, \"$C\": 3}  # @unsorted-dict-items\n",
	"X$A = PACKAGE_NAME\nY$A = REPOSITORY_NAME\n",
	"git_repository(name = \"$A\")\nhttp_archive(name = \"$B\")\n",
	"cc_library(\n    name = \"$A\",\n    deps = [\":$B\"],  # buildifier: disable=nosuch\n)\n",
	"foo(name = \"$A\", deps = select({\":$B\": [\":x\", \":a\"], \"//conditions:default\": []}))\n",
	"cc_library(name = \"$A\", licenses = [\"x\"], applicable_licenses = [\"$B\"])\n",
	"foo(name = \"$A\", x = {\"$C\": [\"b\", \"a\"], \"$B\": []})\n",
	"[foo(name = \"$A\" + x, srcs = [x]) for x in [\"$B\", \"$C\"]]\n",
	"exports_files([\"$B\", \"$A\"])\n",
}

// zooBzl are pieces of .bzl files.
var zooBzl = []string{
	"def $A(name, a, b, c):\n    \"\"\"$A.\n\n    Args:\n      name: n\n      x: no such\n      y: no such\n    \"\"\"\n    native.cc_library(name = name)\n",
	"def $A(a, b, c, d):\n    \"\"\"Doc\"\"\"\n    $B = a\n    $C = b\n    z$B = c\n    return d\n",
	"def $A(x):\n    if x:\n        $B = 1\n        $C = 2\n        u$B = 3\n    else:\n        $B = 4\n    return $B + $C + u$B\n",
	"def $A(x):\n    if x == 1:\n        $B = 1\n        $C = 2\n    elif x == 2:\n        $C = 3\n        v$A = 4\n    for i in x:\n        w$A = i\n    return [$B, $C, v$A, w$A]\n",
	"def $A(x):\n    for $B, $C in x:\n        pass\n    for i in x:\n        for j in x:\n            if j:\n                k$A = j\n    return k$A\n",
	"def $A():\n    return 1\n    $B = 2\n    return $B\n",
	"def $A(x):\n    if x:\n        return 1\n    else:\n        pass\n",
	"def $A(x):\n    fail(\"no\")\n    print(x)\n",
	"def _$A(x):\n    pass\ndef _$B(x):\n    pass\n_$C = 5\n",
	"def $A(x, x2, _y, *args, **kwargs):\n    def inner(z):\n        q = x\n    return [y for y, z in x]\n",
	"def $A(ctx):\n    f = ctx.new_file(\"x\")\n    ctx.file_action(f)\n    ctx.action(outputs = [f])\n    ctx.template_action()\n    ctx.empty_action()\n    args = ctx.actions.args()\n    args.add([1])\n    args.add(*[2])\n    return struct(a = 1, b = 2)\n$B = rule(implementation = $A, attrs = {\"a\": attr.label(cfg = \"data\", single_file = True, non_empty = True), \"b\": attr.label_list(non_empty = True, flags = []), \"c\": attr.output(default = \"x\"), \"licenses\": attr.license()})\n",
	"$A = provider()\n$B = provider(doc = \"x\")\n$C = provider(fields = [\"x\"])\n",
	"def $A(d):\n    d2 = d + {\"a\": 1}\n    d3 = {\"b\": 1} + d\n    for x in depset([1]):\n        pass\n    for c in \"abc\":\n        pass\n    y = depset([1]) | depset([2])\n    z = depset(items = [1])\n    w = depset([1]) + [2]\n    d.get(\"a\", default = 2)\n    d.pop(\"x\", default = 1)\n    return (d2, d3, y, z, w)\n",
	"def $A(a):\n    b = a / 2\n    a /= 3\n    c = [1]\n    c += [2]\n    c += [a]\n    l = 1\n    return b + c\n",
	"def $A(x):\n    r = depset()\n    for y in x:\n        r = depset([y], transitive = [r])\n    return r\n",
	"def $A(**kwargs):\n    native.java_library(**kwargs)\n    $B(1)\ndef $B(x):\n    native.py_library(name = \"x\")\n",
	"def $A(name, visibility = None):\n    foo(name = name)\n    bar(name = name + \"x\")\n",
	"load(\"//a:d.bzl\", \"$A\", \"$B\")\ndef m$C(x):\n    $A(name = \"x\")\n",
	"load(\":d.bzl\", \"foo\", \"bar\", $A = \"baz\")\ndef m$B():\n    foo()\ndef n$B(x = 1):\n    $A()\n    m$B()\n",
	"def $A():\n    \"\"\"Doc.\n\n    Deprecated: use $B.\n    \"\"\"\n    pass\n",
	"def $A():\n    native.glob([\"x\"])\n    native.package(default_visibility = [])\n    return native.package_name()\n",
	"x$A = cc_common.foo(CcInfo, JavaInfo, java_common, ProtoInfo, proto_common)\n",
	"def $A():\n    $B = 1\n    $B = 2\n    CamelCase = 3\n    wrong_Case = $B\n    CONST$A = 4\n    _ = 5\n    return [CamelCase, wrong_Case]\n",
	"def F$A():\n    \"\"\"Returns nothing. $B\"\"\"\n    if 1:\n        return 2\n    $C == 3\n    \"string\"\n    x.y\n",
	"def $A(dep):\n    return dep[OutputGroupInfo].x + dep.output_group(\"x\")\n",
	"FileType([\".x\"])\n$A = FileType()\n",
	"$B = \"%s %s\" % ($A, $C)\n",
	"def $A(a, b = [], c = {}):\n    # skylark comment on $B\n    \"\"\"skylark docstring\"\"\"\n    for k in sorted(c.keys()):\n        b.append(k)\n    return b if a else None\n",
	"def $A(x):\n    \"\"\"Does it.\n\n    Returns:\n      it\n    \"\"\"\n    pass\n",
	"def $A(*, x):\n    pass\ndef $B(x, *, y = 1, **k):\n    $A(y)\n    $B(k)\n",
}

// genLint writes a source the linter finds much to say about.
func genLint(r *simrt.Rng, bzl bool) string {
	zoo := zooBuild
	if bzl {
		zoo = zooBzl
	}
	var b strings.Builder
	if bzl && r.P(0.3) {
		b.WriteString("\"\"\"Module.\"\"\"\n")
	}
	for i, n := 0, 1+r.Intn(7); i < n; i++ {
		t := zoo[r.Intn(len(zoo))]
		if r.P(0.35) {
			b.WriteString(corpusText(r, map[bool]string{false: "build", true: "bzl"}[bzl]))
			continue
		}
		if !bzl && r.P(0.1) {
			t = zooBzl[r.Intn(len(zooBzl))]
		}
		nm := func() string { return fmt.Sprintf("%s%s", words[r.Intn(len(words))], pick(r, "", "", "_x", "2")) }
		t = strings.NewReplacer("$A", nm(), "$B", nm(), "$C", nm()).Replace(t)
		b.WriteString(t)
		if r.P(0.6) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// lintify replaces some sources.
func lintify(r *simrt.Rng, t Tree, prob float64) {
	for _, q := range keysOfTree(t) {
		n := t[q]
		if n.Kind != "" || !r.P(prob) {
			continue
		}
		switch {
		case strings.HasSuffix(q, ".bzl"):
			n.Data = genLint(r, true)
		case strings.Contains(q[strings.LastIndex(q, "/")+1:], "BUILD"):
			n.Data = genLint(r, false)
		default:
			continue
		}
		t[q] = n
	}
}

func keysOfTree(t Tree) []string {
	m := map[string]bool{}
	for k := range t {
		m[k] = true
	}
	return keysOf(m)
}
