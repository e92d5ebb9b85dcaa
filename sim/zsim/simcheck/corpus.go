package main

import (
	_ "embed"
	"encoding/json"
	"fmt"
	"strings"

	simrt "github.com/bazelbuild/buildtools/zsim/simrt"
)

// corpus.json holds fragments of sources (by kind) and command lists with their inputs (tools/corpus).
//
//go:embed corpus.json
var corpusJSON []byte

type corpusScript struct {
	In    string   `json:"i"`
	Flags []string `json:"f"`
	Cmds  []string `json:"c"`
	Tgts  []string `json:"t"`
}

var corpusBy = map[string][]string{}
var corpusScripts []corpusScript

func init() {
	var c struct {
		Entries []struct{ K, T string }
		Scripts []corpusScript
	}
	if err := json.Unmarshal(corpusJSON, &c); err != nil {
		panic(err)
	}
	for _, e := range c.Entries {
		corpusBy[e.K] = append(corpusBy[e.K], e.T)
	}
	for _, x := range c.Scripts {
		// a rule named "all" changes the meaning of labels
		if !strings.Contains(x.In, "\"all\"") {
			corpusScripts = append(corpusScripts, x)
		}
	}
}

// comments with a meaning.
var magicComments = []string{
	"# do not sort", "# keep sorted", "# buildifier: leave-alone", "# buildifier: disable=unused-variable", "# buildifier: disable=load, out-of-order-load",
	"# @unused", "# @unsorted-dict-items", "# buildozer: disable=unused-variable", "# buildifier: disable=module-docstring", "#!x", "#no space", "#: typed",
	"# buildifier: disable=no-effect", "# buildifier: disable=unsorted-dict-items", "# keep-sorted start", "# @generated", "# buildifier: disable=", "# TODO(x): y", "# \u00e9\u4e16",
}

// exprs of many shapes; $A and $B are names.
var exprZoo = []string{
	"x[1:2:3]", "x[::-1]", "x[:$A]", "x[$A:]", "lambda x, y = 1: x + y", "lambda: None", "(1)", "((\"$A\"))", "(1,)", "()", "1, 2", "a <= b", "a >= b", "a not in b", "not a", "-1", "+1", "~a", "a // b", "a % b",
	"a if b else c", "[x for x in y if x for z in x]", "{k: v for k, v in d.items() if k}", "{1, 2}", "r'a\\b'", "r\"\"\"x\ny\"\"\"", "'''$A'''", "\"\\101\\x41\\u0041\\t\\\"'\"", "'\\'\"'", "b\"x\"", ".5", "1E05", "0x1F", "0o17", "017", "1e-3", "10.",
	"\"a\" + \"b\"", "\"//a:\" + \"b\"", "[\"a\"] + [\"b\"] + x", "[\"c\", \"a\"] + select({\"x\": [\"z\", \"b\"]}) + glob([\"*\"])", "f(x)(y)[z].w", "a.b.c(d = 1, *e, **f)", "f(\n    x,\n    # c\n)", "[\n    1,\n    # c\n]", "{\n    \"b\": 1,\n    # c\n    \"a\": 2,\n}",
	"a and b or c", "a | b & c ^ d << e >> f", "x == y != z", "\"%s\" % (a,)", "\"{}\".format(a)", "None", "\"a\" \"b\"", "(a +\n b)", "a + \\\n    b", "[[1, 2], [3]]", "dict(a = 1, **b)", "\"$A\" in [\"$B\"]",
	"f(*args)", "\"" + "x" + "\"[0]", "a[b][c]", "a.b[c].d", "[a, b, c][0](1)", "\"\"\"doc\"\"\"", "\"\\\n\"", "\"a\\qb\"", "x[1, 2]", "(yield_)", "struct(**{\"$A\": 1})", "[i for i in range(10) if i % 2 == 0]", "[\"//a\", \"//a:a\", \"//a:b\", \"//b\", \":c\", \"d\", \"@e\", \"@e//:e\"]",
}

var stmtZoo = []string{
	"$A = $X\n", "$A += $X\n", "$A, $B = $X, $X\n", "($A, $B) = $X\n", "[$A, $B] = $X\n", "$A[0] = $X\n", "$A.b = $X\n", "$X\n", "foo(name = \"$A\", x = $X)\n", "foo(name = \"$A\", deps = $X, srcs = $X)\n", "$A = $X  # c\n", "# c\n\n$A = $X\n", "$A -= 1\n$A *= 2\n$A //= 3\n$A %= 4\n$A |= {}\n", "$A = $B = 1\n",
	"foo(\n    name = \"$A\",\n    deps = [\n        # c1\n        \":z\",  # c2\n\n        # c3\n        \":a\",\n        # c4\n    ],  # c5\n    # c6\n)  # c7\n",
}

var defZoo = []string{
	"def $A(x):\n    for i in x:\n        if i:\n            break\n        continue\n        y = $X\n    return $X\n",
	"def $A(x: int, y: str = \"a\") -> int:\n    return $X\n",
	"def $A(*args, **kwargs):\n    return $X\n    z = 1\n",
	"def $A():\n    x = $X\n    def inner():\n        return $X\n    return inner\n",
	"def $A(a,\n        b = $X,  # c\n        *,\n        c):\n    pass\n",
	"def $A():\n    # only a comment\n    pass\n",
	"def $A(): return $X\n",
	"def $A(x):\n    if x: return 1\n    elif y: return 2\n    else: return 3\n",
	"if $B:\n    $A = $X\nelse:\n    $A = $X\n",
	"for $A in $X:\n    pass\n",
	"def $A(x):\n    # c1\n    if x:\n        # c2\n        pass\n\n    # c3\n    else:\n        # c4\n        pass\n    # c5\n",
	"def $A():\n    \"\"\"Doc.\n\n    Args:\n      a: b\n        c\n      *args: d\n      **kwargs: e\n    Returns:\n      x\n    Deprecated:\n      y\n    \"\"\"\n    return $X\n",
}

// genSyntax writes statements of unusual shapes.
func genSyntax(r *simrt.Rng, bzl bool) string {
	var b strings.Builder
	nm := func() string { return fmt.Sprintf("%s%s", words[r.Intn(len(words))], pick(r, "", "_y", "3")) }
	for i, n := 0, 1+r.Intn(6); i < n; i++ {
		t := stmtZoo[r.Intn(len(stmtZoo))]
		if bzl && r.P(0.6) {
			t = defZoo[r.Intn(len(defZoo))]
		}
		for strings.Contains(t, "$X") {
			t = strings.Replace(t, "$X", exprZoo[r.Intn(len(exprZoo))], 1)
		}
		if r.P(0.2) {
			b.WriteString(magicComments[r.Intn(len(magicComments))] + "\n")
		}
		b.WriteString(strings.NewReplacer("$A", nm(), "$B", nm()).Replace(t))
		if r.P(0.4) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// corpusText joins fragments of a kind.
func corpusText(r *simrt.Rng, kind string) string {
	l := corpusBy[kind]
	if (kind == "build" || kind == "bzl") && r.P(0.15) {
		l = corpusBy[pick(r, "build", "bzl")]
	}
	var b strings.Builder
	n := 1
	for r.P(0.4) && n < 6 {
		n++
	}
	for i := 0; i < n; i++ {
		t := l[r.Intn(len(l))]
		b.WriteString(t)
		if !strings.HasSuffix(t, "\n") {
			b.WriteString("\n")
		}
		if r.P(0.5) {
			b.WriteString("\n")
		}
	}
	return b.String()
}

// kindOf is the kind of source a name implies.
func kindOf(p string) string {
	b := p[strings.LastIndex(p, "/")+1:]
	switch {
	case strings.HasSuffix(b, ".bzl"), strings.HasSuffix(b, ".star"), strings.HasSuffix(b, ".sky"):
		return "bzl"
	case strings.HasPrefix(b, "WORKSPACE"):
		return "workspace"
	case strings.HasSuffix(b, "MODULE.bazel"):
		return "module"
	}
	return "build"
}

// strangeText replaces or changes a text now and then.
func strangeText(r *simrt.Rng, p, t string) string {
	switch k := kindOf(p); r.Intn(12) {
	case 0, 1:
		t = corpusText(r, k)
	case 2:
		t = genSyntax(r, k == "bzl")
	case 3:
		t += "\n" + genSyntax(r, k == "bzl")
	case 4:
		// comments with a meaning on some lines
		ls := strings.Split(t, "\n")
		for i := range ls {
			if r.P(0.1) && !strings.Contains(ls[i], "\\") {
				c := magicComments[r.Intn(len(magicComments))]
				if r.P(0.5) {
					ls[i] += "  " + c
				} else {
					ind := ls[i][:len(ls[i])-len(strings.TrimLeft(ls[i], " "))]
					ls[i] = ind + c + "\n" + ls[i]
				}
			}
		}
		t = strings.Join(ls, "\n")
	case 5, 6:
		t = disturb(r, t)
	}
	return t
}

// disturb breaks and joins lines and puts comments wherever the syntax permits.
func disturb(r *simrt.Rng, t string) string {
	var b strings.Builder
	depth, quote, line := 0, "", 0
	prob := []float64{0.02, 0.08, 0.3}[r.Intn(3)]
	comment := func() string {
		if r.P(0.3) {
			return magicComments[r.Intn(len(magicComments))]
		}
		return pick(r, "# k", "#m", "#", "#  n  ", "#: p", "#!q")
	}
	brk := func() {
		b.WriteString("\n")
		for r.P(0.3) {
			b.WriteString(pick(r, "\n", "  "+comment()+"\n", "", comment()+"\n"))
		}
	}
	for i := 0; i < len(t); i++ {
		c := t[i]
		if quote != "" {
			if c == '\\' && i+1 < len(t) {
				b.WriteString(t[i : i+2])
				i++
				continue
			}
			if strings.HasPrefix(t[i:], quote) {
				b.WriteString(quote)
				i += len(quote) - 1
				quote = ""
				continue
			}
			b.WriteByte(c)
			continue
		}
		switch c {
		case '"', '\'':
			quote = string(c)
			if strings.HasPrefix(t[i:], strings.Repeat(quote, 3)) {
				quote = strings.Repeat(quote, 3)
			}
			b.WriteString(quote)
			i += len(quote) - 1
			continue
		case '#':
			j := strings.IndexByte(t[i:], '\n')
			if j < 0 {
				j = len(t) - i
			}
			b.WriteString(t[i : i+j])
			i += j - 1
			continue
		case '(', '[', '{':
			b.WriteByte(c)
			depth++
			if r.P(prob) {
				brk()
			}
			continue
		case ')', ']', '}':
			if depth > 0 && r.P(prob) {
				brk()
			}
			b.WriteByte(c)
			depth--
			continue
		case ',', '=', '+', ':', '.':
			b.WriteByte(c)
			if depth > 0 && !strings.HasPrefix(t[i+1:], "=") && r.P(prob) {
				brk()
			}
			continue
		case '\n':
			end := b.String()
			hash := strings.Contains(end[line:], "#")
			switch {
			case strings.HasSuffix(end, "\\"):
			case depth > 0 && !hash && r.P(prob):
				b.WriteString(" ")
				continue
			case !hash && (strings.HasSuffix(end, ",") || depth == 0 && !strings.HasSuffix(end, ":")) && r.P(prob):
				b.WriteString("  " + comment())
			}
			b.WriteByte(c)
			line = b.Len()
			if depth > 0 || r.P(0.7) {
				for r.P(prob) {
					ind := t[i+1:]
					ind = ind[:len(ind)-len(strings.TrimLeft(ind, " "))]
					if r.P(0.2) {
						ind += pick(r, " ", "    ", "  ")
					}
					b.WriteString(pick(r, "\n", ind+comment()+"\n", ind+comment()+"\n\n", comment()+"\n"))
					line = b.Len()
				}
			}
			continue
		}
		b.WriteByte(c)
	}
	return b.String()
}

// pickScripts draws command lists of the corpus.
func pickScripts(r *simrt.Rng, n int) []corpusScript {
	var out []corpusScript
	for i := 0; i < n; i++ {
		out = append(out, corpusScripts[r.Intn(len(corpusScripts))])
	}
	return out
}

// scriptRule is the rule part of the target of a command list.
func scriptRule(s corpusScript) string {
	if len(s.Tgts) > 0 {
		if i := strings.LastIndex(s.Tgts[0], ":"); i >= 0 {
			return s.Tgts[0][i+1:]
		}
	}
	return "__pkg__"
}

// usable says whether a command of the corpus edits and has enough arguments.
func usable(cmd string) bool {
	f := strings.Fields(cmd)
	if len(f) == 0 || strings.ContainsAny(cmd, "|\n") || strings.HasPrefix(cmd, "print") {
		return false
	}
	sh, ok := cmdShapes[f[0]]
	return ok && len(f)-1 >= sh[0] && (sh[1] > 0 || len(f) == 1)
}
