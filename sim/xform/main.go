// Command xform copies the Go packages of a buildtools checkout to an output module and moves every
// source of nondeterminism behind the simulator: goroutines, channel operations, select, map
// iteration, package-level state and the parts of the standard library that reach the outside
// world. It judges syntax and types only, so it does not depend on how the code is written.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/bazelbuild/buildtools"
const simPath = modPath + "/zsim"

// Standard packages replaced by shims of the same name under zsim/.
var shims = map[string]bool{
	"os": true, "os/exec": true, "os/signal": true, "io/ioutil": true, "path/filepath": true,
	"archive/zip": true, "log": true, "fmt": true, "flag": true, "runtime": true, "time": true,
	"math/rand": true, "sync": true, "maps": true, "syscall": true,
	"math/rand/v2": true, "crypto/rand": true,
}

type pkg struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	EmbedFiles []string
	Imports    []string
	Module     *struct{ Path string }
	Standard   bool
	Export     string
	Error      *struct{ Err string }
	DepOnly    bool
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "xform: "+f+"\n", a...)
	os.Exit(2)
}

func golist(dir string, args ...string) []*pkg {
	cmd := exec.Command("go", append([]string{"list"}, args...)...)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list %v: %v", args, err)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var ps []*pkg
	for {
		p := new(pkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		ps = append(ps, p)
	}
	return ps
}

func inModule(path string) bool { return path == modPath || strings.HasPrefix(path, modPath+"/") }

// keepReal: generated protobuf packages are data structures only; they are copied as they are.
func keepReal(p *pkg) bool {
	return strings.HasSuffix(p.ImportPath, "_proto") || strings.HasSuffix(p.ImportPath, "/docs/proto")
}

type edit struct {
	start, end int
	text       string
	seq        int
}

type fileX struct {
	pkg   *pkgX
	file  *ast.File
	src   []byte
	base  int
	edits []edit
	tail  bytes.Buffer
	name  string
}

type pkgX struct {
	p     *pkg
	fset  *token.FileSet
	files []*fileX
	info  *types.Info
	tpkg  *types.Package
	n     int
	main  bool
	reset bytes.Buffer
}

func (f *fileX) off(p token.Pos) int { return f.pkg.fset.Position(p).Offset }
func (f *fileX) repl(from, to token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(from), f.off(to), s, len(f.edits)})
}
func (f *fileX) ins(at token.Pos, s string) { f.repl(at, at, s) }

// text applies the edits inside [from,to) and returns the text.
func (f *fileX) text(from, to int) string {
	var es []edit
	for _, e := range f.edits {
		if e.start >= from && e.end <= to {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].start != es[j].start {
			return es[i].start < es[j].start
		}
		zi, zj := es[i].end == es[i].start, es[j].end == es[j].start
		if zi != zj {
			return zi
		}
		return es[i].seq < es[j].seq
	})
	var b bytes.Buffer
	pos := from
	for _, e := range es {
		if e.start < pos {
			continue // inside a replaced region
		}
		b.Write(f.src[pos:e.start])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(f.src[pos:to])
	return b.String()
}

func main() {
	src := flag.String("src", "", "checkout")
	out := flag.String("out", "", "output module")
	flag.Parse()
	all := golist(*src, "-e", "-deps", "-json=ImportPath,Name,Dir,GoFiles,EmbedFiles,Imports,Module,Standard,Error,DepOnly", "./...")
	ext := map[string]bool{}
	for _, p := range all {
		if inModule(p.ImportPath) {
			for _, i := range p.Imports {
				if !inModule(i) && i != "unsafe" && i != "C" {
					ext[i] = true
				}
			}
		}
	}
	var extList []string
	for p := range ext {
		extList = append(extList, p)
	}
	sort.Strings(extList)
	exports := map[string]string{}
	for _, p := range golist(*src, append([]string{"-trimpath", "-export", "-deps", "-json=ImportPath,Export"}, extList...)...) {
		exports[p.ImportPath] = p.Export
	}
	fset := token.NewFileSet()
	gc := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok || e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	done := map[string]*types.Package{}
	imp := impFunc(func(path string) (*types.Package, error) {
		if t := done[path]; t != nil {
			return t, nil
		}
		if inModule(path) {
			return nil, fmt.Errorf("module package %s not available", path)
		}
		return gc.Import(path)
	})
	var order []string
	var mains []string
	skipped := map[string]string{}
	for _, p := range all {
		if !inModule(p.ImportPath) || len(p.GoFiles) == 0 {
			continue
		}
		if strings.HasPrefix(p.ImportPath, modPath+"/testutils") {
			continue
		}
		bad := ""
		for _, i := range p.Imports {
			if skipped[i] != "" {
				bad = "imports " + i
			}
		}
		if p.Error != nil {
			bad = p.Error.Err
		}
		if bad != "" {
			// Only the documentation generator may be missing (its protobuf code is generated).
			if !strings.HasPrefix(p.ImportPath, modPath+"/warn/docs") {
				die("%s: %s", p.ImportPath, bad)
			}
			skipped[p.ImportPath] = bad
			continue
		}
		px := &pkgX{p: p, fset: fset, main: p.Name == "main"}
		var files []*ast.File
		for _, g := range p.GoFiles {
			path := filepath.Join(p.Dir, g)
			b, err := os.ReadFile(path)
			if err != nil {
				die("%v", err)
			}
			f, err := parser.ParseFile(fset, path, b, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, f)
			px.files = append(px.files, &fileX{pkg: px, file: f, src: b, name: g})
		}
		px.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) {}}
		t, err := conf.Check(p.ImportPath, fset, files, px.info)
		if err != nil {
			if strings.HasPrefix(p.ImportPath, modPath+"/warn/docs") {
				skipped[p.ImportPath] = err.Error()
				continue
			}
			die("type check %s: %v", p.ImportPath, err)
		}
		px.tpkg = t
		done[p.ImportPath] = t
		rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, modPath), "/")
		dir := filepath.Join(*out, rel)
		if err := os.MkdirAll(dir, 0777); err != nil {
			die("%v", err)
		}
		for _, e := range p.EmbedFiles {
			b, err := os.ReadFile(filepath.Join(p.Dir, e))
			if err == nil {
				os.MkdirAll(filepath.Dir(filepath.Join(dir, e)), 0777)
				os.WriteFile(filepath.Join(dir, e), b, 0666)
			}
		}
		if keepReal(p) {
			for _, f := range px.files {
				write(filepath.Join(dir, f.name), f.src)
			}
			continue
		}
		px.transform()
		for _, f := range px.files {
			write(filepath.Join(dir, f.name), []byte(f.text(0, len(f.src))+f.tail.String()))
		}
		write(filepath.Join(dir, "zsim_reset.go"), []byte(px.resetFile()))
		order = append(order, p.ImportPath)
		if px.main {
			mains = append(mains, p.ImportPath)
		}
	}
	writeTools(*out, order, mains, all)
	for p, why := range skipped {
		fmt.Fprintf(os.Stderr, "xform: skipped %s: %s\n", p, why)
	}
}

type impFunc func(string) (*types.Package, error)

func (f impFunc) Import(p string) (*types.Package, error) { return f(p) }

func write(path string, b []byte) {
	if err := os.WriteFile(path, b, 0666); err != nil {
		die("%v", err)
	}
}

func mainName(path string) string {
	return "zmain_" + strings.NewReplacer("/", "_", ".", "_", "-", "_").Replace(strings.TrimPrefix(path, modPath+"/"))
}

// writeTools generates the package that knows every command and how to reset all package state.
func writeTools(out string, order, mains []string, all []*pkg) {
	imports := map[string][]string{}
	for _, p := range all {
		imports[p.ImportPath] = p.Imports
	}
	closure := func(root string) map[string]bool {
		seen := map[string]bool{}
		var visit func(p string)
		visit = func(p string) {
			if seen[p] || !inModule(p) {
				return
			}
			seen[p] = true
			for _, i := range imports[p] {
				visit(i)
			}
		}
		visit(root)
		return seen
	}
	var b bytes.Buffer
	b.WriteString("// Code generated by xform. DO NOT EDIT.\npackage tools\n\nimport (\n")
	for i, p := range order {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	fmt.Fprintf(&b, "\tsimrt %q\n", simPath+"/simrt")
	b.WriteString(")\n\nfunc init() {\n")
	for i, p := range order {
		fmt.Fprintf(&b, "\tsimrt.RegisterPkg(%q, p%d.ZsimReset)\n", p, i)
	}
	for _, m := range mains {
		for i, p := range order {
			if p == m {
				var deps []string
				for q := range closure(m) {
					deps = append(deps, q)
				}
				sort.Strings(deps)
				fmt.Fprintf(&b, "\tsimrt.RegisterTool(%q, p%d.ZsimMain, %q)\n", strings.TrimPrefix(m, modPath+"/"), i, strings.Join(deps, " "))
			}
		}
	}
	b.WriteString("}\n")
	dir := filepath.Join(out, "zsim", "tools")
	os.MkdirAll(dir, 0777)
	write(filepath.Join(dir, "tools.go"), b.Bytes())
}

func (p *pkgX) name(prefix string) string {
	p.n++
	return fmt.Sprintf("z%s%d", prefix, p.n)
}

func (p *pkgX) pkgName() string {
	if p.main {
		return mainName(p.p.ImportPath)
	}
	return p.p.Name
}

func (p *pkgX) fileOf(pos token.Pos) *fileX {
	for _, f := range p.files {
		if f.file.FileStart <= pos && pos <= f.file.FileEnd {
			return f
		}
	}
	return nil
}

func (p *pkgX) transform() {
	inits := 0
	var initCalls []string
	for _, f := range p.files {
		// package clause and imports
		clause := "; import zsimrt " + strconv.Quote(simPath+"/simrt")
		if p.main {
			f.repl(f.file.Name.Pos(), f.file.Name.End(), p.pkgName())
		}
		f.ins(f.file.Name.End(), clause)
		for _, im := range f.file.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if shims[path] {
				f.repl(im.Path.Pos(), im.Path.End(), strconv.Quote(simPath+"/"+path))
			}
		}
		for _, d := range f.file.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil {
				continue
			}
			if fd.Name.Name == "init" {
				inits++
				n := fmt.Sprintf("zsimInit%d", inits)
				f.repl(fd.Name.Pos(), fd.Name.End(), n)
				initCalls = append(initCalls, n)
			}
			if p.main && fd.Name.Name == "main" {
				f.repl(fd.Name.Pos(), fd.Name.End(), "ZsimMain")
			}
		}
		v := &visitor{f: f, info: p.info}
		v.walk(f.file)
		f.tail.WriteString("\n\nvar _ = zsimrt.Y\n")
	}
	// package state: zero everything, then run the initialisers in their order
	var names []string
	scope := p.tpkg.Scope()
	for _, n := range scope.Names() {
		if v, ok := scope.Lookup(n).(*types.Var); ok {
			names = append(names, v.Name())
		}
	}
	for _, n := range names {
		fmt.Fprintf(&p.reset, "\tzsimrt.Zero(&%s)\n", n)
	}
	// InitOrder is computed by a checker of its own info map
	for i, in := range p.info.InitOrder {
		f := p.fileOf(in.Rhs.Pos())
		fn := fmt.Sprintf("zsimVar%d", i)
		var lhs []string
		for _, l := range in.Lhs {
			lhs = append(lhs, l.Name())
		}
		fmt.Fprintf(&f.tail, "\nfunc %s() { %s = %s }\n", fn, strings.Join(lhs, ", "), f.text(f.off(in.Rhs.Pos()), f.off(in.Rhs.End())))
		fmt.Fprintf(&p.reset, "\t%s()\n", fn)
	}
	for _, c := range initCalls {
		fmt.Fprintf(&p.reset, "\t%s()\n", c)
	}
}

func (p *pkgX) resetFile() string {
	return "// Code generated by xform. DO NOT EDIT.\npackage " + p.pkgName() +
		"\n\nimport zsimrt " + strconv.Quote(simPath+"/simrt") +
		"\n\n// ZsimReset gives every package variable its initial value again.\nfunc ZsimReset() {\n\tzsimrt.Y()\n" + p.reset.String() + "}\n"
}

type visitor struct {
	f    *fileX
	info *types.Info
	// statements whose communication is rewritten by their select statement
	skip map[ast.Node]bool
	n    int
}

func (v *visitor) walk(root ast.Node) {
	v.skip = map[ast.Node]bool{}
	var stack []ast.Node
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil {
			top := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			v.leave(top)
			return true
		}
		stack = append(stack, n)
		v.enter(n)
		return true
	})
}

func (v *visitor) typ(e ast.Expr) types.Type {
	if tv, ok := v.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := v.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return types.Typ[types.Invalid]
}

func core(t types.Type) types.Type {
	u := t.Underlying()
	if i, ok := u.(*types.Interface); ok && i.NumEmbeddeds() == 1 {
		e := i.EmbeddedType(0)
		if un, ok := e.(*types.Union); ok && un.Len() == 1 {
			return un.Term(0).Type().Underlying()
		}
		return e.Underlying()
	}
	return u
}

func (v *visitor) isChan(e ast.Expr) bool {
	_, ok := core(v.typ(e)).(*types.Chan)
	return ok
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (v *visitor) src(e ast.Expr) string {
	return string(v.f.src[v.f.off(e.Pos()):v.f.off(e.End())])
}

func (v *visitor) body(b *ast.BlockStmt) {
	if b != nil {
		v.f.ins(b.Lbrace+1, " zsimrt.Y(); ")
	}
}

func (v *visitor) enter(n ast.Node) {
	f := v.f
	switch n := n.(type) {
	case *ast.FuncDecl:
		v.body(n.Body)
	case *ast.FuncLit:
		v.body(n.Body)
	case *ast.ForStmt:
		v.body(n.Body)
	case *ast.RangeStmt:
		v.rangeStmt(n)
	case *ast.GoStmt:
		f.ins(n.Call.Fun.Pos(), "zsimrt.Wrap(")
	case *ast.SendStmt:
		if v.skip[n] {
			return
		}
		f.ins(n.Chan.Pos(), "zsimrt.S(")
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !v.skip[n] {
			f.repl(n.OpPos, n.OpPos+2, "zsimrt.R(")
		}
	case *ast.CallExpr:
		if id, ok := ast.Unparen(n.Fun).(*ast.Ident); ok {
			if b, ok := v.info.Uses[id].(*types.Builtin); ok {
				if b.Name() == "close" {
					f.repl(n.Fun.Pos(), n.Fun.End(), "zsimrt.Close")
				}
				if (b.Name() == "len" || b.Name() == "cap") && len(n.Args) == 1 && v.isChan(n.Args[0]) {
					f.repl(n.Fun.Pos(), n.Fun.End(), "zsimrt.Chan"+strings.Title(b.Name()))
				}
			}
		}
	case *ast.SelectStmt:
		v.selectStmt(n)
	}
}

func (v *visitor) leave(n ast.Node) {
	f := v.f
	switch n := n.(type) {
	case *ast.GoStmt:
		f.ins(n.Call.Fun.End(), ")")
		f.ins(n.End(), "; zsimrt.Started()")
	case *ast.SendStmt:
		if v.skip[n] {
			return
		}
		f.repl(n.Arrow, n.Arrow+2, ").Send(")
		f.ins(n.Value.End(), ")")
	case *ast.UnaryExpr:
		if n.Op == token.ARROW && !v.skip[n] {
			if tv, ok := v.info.Types[n]; ok {
				if _, tuple := tv.Type.(*types.Tuple); tuple {
					f.ins(n.End(), ").Recv2()")
					return
				}
			}
			f.ins(n.End(), ").Recv()")
		}
	}
}

func addr(e ast.Expr, src string) string {
	if blank(e) {
		return "nil"
	}
	return "&(" + src + ")"
}

func (v *visitor) rangeStmt(n *ast.RangeStmt) {
	f := v.f
	v.body(n.Body)
	var ctor string
	t := core(v.typ(n.X))
	_, isMap := t.(*types.Map)
	_, isChan := t.(*types.Chan)
	_, isFunc := t.(*types.Signature)
	_ = isFunc
	switch {
	case isMap:
		ctor = "RangeMap"
	case isChan:
		ctor = "RangeChan"
	default:
		return
	}
	v.n++
	it := fmt.Sprintf("zit%d", v.n)
	from := n.For + 3
	open, next := "", ""
	k, val := "", ""
	if n.Key != nil {
		k = v.src(n.Key)
	}
	if n.Value != nil {
		val = v.src(n.Value)
	}
	if n.Tok == token.DEFINE && !(blank(n.Key) && blank(n.Value)) {
		switch {
		case isChan:
			open = fmt.Sprintf(" %s, %s := zsimrt.RangeChanV(", it, k)
			next = fmt.Sprintf("); %s.Next(&%s); ", it, k)
		case blank(n.Value):
			open = fmt.Sprintf(" %s, %s := zsimrt.RangeMapK(", it, k)
			next = fmt.Sprintf("); %s.Next(&%s, nil); ", it, k)
		case blank(n.Key):
			open = fmt.Sprintf(" %s, %s := zsimrt.RangeMapV(", it, val)
			next = fmt.Sprintf("); %s.Next(nil, &%s); ", it, val)
		default:
			open = fmt.Sprintf(" %s, %s, %s := zsimrt.RangeMapKV(", it, k, val)
			next = fmt.Sprintf("); %s.Next(&%s, &%s); ", it, k, val)
		}
	} else {
		open = fmt.Sprintf(" %s := zsimrt.%s(", it, ctor)
		if isChan {
			next = fmt.Sprintf("); %s.Next(%s); ", it, addr(n.Key, k))
		} else {
			next = fmt.Sprintf("); %s.Next(%s, %s); ", it, addr(n.Key, k), addr(n.Value, val))
		}
	}
	f.repl(from, n.X.Pos(), open)
	f.ins(n.X.End(), next)
}

func (v *visitor) selectStmt(n *ast.SelectStmt) {
	f := v.f
	var vars, exprs []string
	idx := 0
	hasDefault := "false"
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		v.n++
		name := fmt.Sprintf("zc%d", v.n)
		switch comm := c.Comm.(type) {
		case nil:
			hasDefault = "true"
			continue
		case *ast.SendStmt:
			v.skip[comm] = true
			vars = append(vars, name)
			exprs = append(exprs, fmt.Sprintf("zsimrt.S(%s).With(%s)", v.src(comm.Chan), v.src(comm.Value)))
			f.repl(comm.Pos(), comm.End(), strconv.Itoa(idx))
		case *ast.ExprStmt:
			u := ast.Unparen(comm.X).(*ast.UnaryExpr)
			v.skip[u] = true
			vars = append(vars, name)
			exprs = append(exprs, fmt.Sprintf("zsimrt.R(%s).Case()", v.src(u.X)))
			f.repl(comm.Pos(), comm.End(), strconv.Itoa(idx))
		case *ast.AssignStmt:
			u := ast.Unparen(comm.Rhs[0]).(*ast.UnaryExpr)
			v.skip[u] = true
			vars = append(vars, name)
			exprs = append(exprs, fmt.Sprintf("zsimrt.R(%s).Case()", v.src(u.X)))
			rhs := name + ".V"
			if len(comm.Lhs) == 2 {
				rhs += ", " + name + ".Ok"
			}
			var lhs []string
			for _, l := range comm.Lhs {
				lhs = append(lhs, v.src(l))
			}
			f.repl(comm.Pos(), comm.End(), strconv.Itoa(idx))
			f.ins(c.Colon+1, " "+strings.Join(lhs, ", ")+" "+comm.Tok.String()+" "+rhs+"; ")
		}
		idx++
	}
	if hasDefault == "false" {
		f.ins(n.Body.Rbrace, "; default: panic(\"zsim\"); ")
	}
	hdr := "switch "
	if len(vars) > 0 {
		hdr += strings.Join(vars, ", ") + " := " + strings.Join(exprs, ", ") + "; "
	}
	hdr += "zsimrt.Select(" + hasDefault
	for _, x := range vars {
		hdr += ", " + x
	}
	hdr += ") "
	f.repl(n.Select, n.Body.Lbrace, hdr)
}
