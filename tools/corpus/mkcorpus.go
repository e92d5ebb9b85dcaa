// mkcorpus extracts source fragments from the tests and test data of /repo: raw strings of Go tests, test data of the
// formatter, and buildozer's shell tests (dumped by dump.sh). It writes corpus.json, which the checks embed.
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"github.com/bazelbuild/buildtools/build"
)

type entry struct {
	Kind string `json:"k"` // build, bzl, module, workspace, bad
	Text string `json:"t"`
}

type script struct {
	In    string   `json:"i"`
	Flags []string `json:"f,omitempty"`
	Cmds  []string `json:"c"`
	Tgts  []string `json:"t"`
}

var seen = map[string]bool{}
var out []entry

func add(t, hint string) {
	t = strings.TrimPrefix(t, "\n")
	if len(strings.TrimSpace(t)) < 6 || len(t) > 6000 || seen[t] || !strings.ContainsAny(t, "=(:\"") {
		return
	}
	seen[t] = true
	k := hint
	if k == "" {
		switch {
		case strings.Contains(t, "bazel_dep(") || strings.Contains(t, "use_extension(") || strings.Contains(t, "use_repo("):
			k = "module"
		case strings.Contains(t, "workspace(") || strings.Contains(t, "http_archive("):
			k = "workspace"
		case strings.Contains(t, "def ") || strings.Contains(t, "rule(") && strings.Contains(t, "attr."):
			k = "bzl"
		default:
			k = "build"
		}
	}
	if _, err := build.ParseDefault("x.bzl", []byte(t)); err != nil {
		if strings.Count(t, "\n") < 1 {
			return
		}
		k = "bad"
	}
	out = append(out, entry{k, t})
}

func split(t string) {
	f, err := build.ParseDefault("x.bzl", []byte(t))
	if err != nil || len(t) < 1200 {
		add(t, "")
		return
	}
	// cut between statements
	last, lines := 0, strings.SplitAfter(t, "\n")
	for i, s := range f.Stmt {
		if i == len(f.Stmt)-1 {
			add(strings.Join(lines[last:], ""), "")
			break
		}
		_, e := s.Span()
		if e.Line-0 < len(lines) {
			n := strings.Join(lines[last:e.Line], "")
			if len(n) > 500 {
				add(n, "")
				last = e.Line
			}
		}
	}
}

func main() {
	repo := os.Args[1]
	for _, g := range []string{"warn", "edit", "build", "edit/bzlmod", "wspace", "labels", "convertast", "bzlenv", "differ", "tables", "unused_deps", "buildifier/utils"} {
		fs, _ := filepath.Glob(repo + "/" + g + "/*_test.go")
		sort.Strings(fs)
		for _, p := range fs {
			fset := token.NewFileSet()
			f, err := parser.ParseFile(fset, p, nil, 0)
			if err != nil {
				panic(err)
			}
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
					s, _ := strconv.Unquote(l.Value)
					if strings.Contains(s, "\n") || l.Value[0] == '`' {
						add(s, "")
					}
				}
				return true
			})
		}
	}
	fs, _ := filepath.Glob(repo + "/build/testdata/*.in")
	sort.Strings(fs)
	for _, p := range fs {
		b, _ := os.ReadFile(p)
		split(string(b))
	}
	var scripts []script
	if len(os.Args) > 2 {
		f, err := os.Open(os.Args[2])
		if err != nil {
			panic(err)
		}
		sc := bufio.NewScanner(f)
		sc.Buffer(nil, 1<<20)
		for sc.Scan() {
			var a []string
			if json.Unmarshal(sc.Bytes(), &a) != nil || len(a) < 2 {
				continue
			}
			var s script
			i := 0
			for i < len(a) && strings.HasPrefix(a[i], "-") {
				s.Flags = append(s.Flags, a[i])
				i++
			}
			if i >= len(a) {
				continue
			}
			s.In = a[i]
			i++
			for ; i < len(a); i++ {
				x := a[i]
				first := strings.SplitN(x, " ", 2)[0]
				switch {
				case strings.HasPrefix(x, "-"):
					s.Flags = append(s.Flags, x)
				case strings.HasPrefix(first, "//") || strings.Contains(first, ":") || strings.HasSuffix(first, "BUILD") || strings.HasPrefix(first, "/") || strings.Contains(first, "MODULE.bazel"):
					s.Tgts = append(s.Tgts, x)
				default:
					s.Cmds = append(s.Cmds, x)
				}
			}
			if len(s.Cmds) > 0 {
				scripts = append(scripts, s)
			}
			add(s.In, "")
		}
	}
	b, _ := json.MarshalIndent(map[string]interface{}{"entries": out, "scripts": scripts}, "", " ")
	os.WriteFile("/verif/sim/zsim/simcheck/corpus.json", append(b, '\n'), 0644)
	m := map[string]int{}
	for _, e := range out {
		m[e.Kind]++
	}
	fmt.Println(m, len(scripts), len(b))
}
