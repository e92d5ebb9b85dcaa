// Command genshim writes the part of a shim package that passes a standard package through:
// every exported name that the hand written files of the shim do not declare.
package main

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func main() {
	path, dir := os.Args[1], os.Args[2]
	fset := token.NewFileSet()
	have := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range files {
		if filepath.Base(f) == "zgen.go" {
			continue
		}
		af, err := parser.ParseFile(fset, f, nil, 0)
		if err != nil {
			panic(err)
		}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}
	p, err := importer.ForCompiler(fset, "source", nil).Import(path)
	if err != nil {
		panic(err)
	}
	var out []string
	for _, n := range p.Scope().Names() {
		if !ast.IsExported(n) || have[n] {
			continue
		}
		switch o := p.Scope().Lookup(n).(type) {
		case *types.Const:
			out = append(out, fmt.Sprintf("const %s = real.%s", n, n))
		case *types.Var:
			out = append(out, fmt.Sprintf("var %s = real.%s", n, n))
		case *types.TypeName:
			if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "generic type left out:", path, n)
				continue
			}
			out = append(out, fmt.Sprintf("type %s = real.%s", n, n))
		case *types.Func:
			if o.Type().(*types.Signature).TypeParams().Len() > 0 {
				fmt.Fprintln(os.Stderr, "generic function left out:", path, n)
				continue
			}
			out = append(out, fmt.Sprintf("var %s = real.%s", n, n))
		}
	}
	sort.Strings(out)
	name := p.Name()
	s := "// Code generated by genshim. DO NOT EDIT.\npackage " + name + "\n\nimport real \"" + path + "\"\n\n" + strings.Join(out, "\n") + "\n"
	if len(out) == 0 {
		s = "package " + name + "\n"
	}
	if err := os.WriteFile(filepath.Join(dir, "zgen.go"), []byte(s), 0666); err != nil {
		panic(err)
	}
}
