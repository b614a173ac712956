// Command instr copies the packages of the code under test, and of the worker
// pool it uses, from a working tree into a build directory, rewriting every
// concurrency, time and map-order construct so that the simulator owns it.
// It works on types, not on text, so it does not depend on how the code is
// written.
//
//	instr -repo /repo -out DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	CgoFiles   []string
	EmbedFiles []string
	Standard   bool
	Imports    []string
	Module     *struct {
		Path      string
		Dir       string
		GoVersion string
		Version   string
	}
	Error *struct{ Err string }
}

var shims = map[string]string{
	"sync":          "simstd/sync",
	"sync/atomic":   "simstd/atomic",
	"time":          "simstd/time",
	"context":       "simstd/context",
	"maps":          "simstd/maps",
	"runtime":       "simstd/runtime",
	"os":            "simstd/os",
	"path/filepath": "simstd/filepath",
	"math/rand":     "simstd/rand",
	"math/rand/v2":  "simstd/randv2",
}

var shimName = map[string]string{"math/rand/v2": "rand"}

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(3)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	roots := flag.String("roots", ".,./core,./enums,./pref,./tfs,./life,./locale", "")
	mods := flag.String("mods", "github.com/snivilised/pants,github.com/snivilised/nefilim", "other modules to instrument")
	flag.Parse()
	if *out == "" {
		fatal("no -out")
	}
	args := append([]string{"list", "-deps", "-export", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,EmbedFiles,Standard,Imports,Module,Error"}, strings.Split(*roots, ",")...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Env = append(os.Environ(), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod")
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []*pkgInfo
	dec := json.NewDecoder(bytes.NewReader(b))
	var self string
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("decode: %v", err)
		}
		if p.Error != nil {
			fatal("%s: %s", p.ImportPath, p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if p.Standard || p.Module == nil {
			continue
		}
		if p.Module.Dir == *repo || sameDir(p.Module.Dir, *repo) {
			self = p.Module.Path
		}
		q := p
		pkgs = append(pkgs, &q)
	}
	want := map[string]bool{self: true}
	for _, m := range strings.Split(*mods, ",") {
		want[m] = true
	}
	type job struct {
		p   *pkgInfo
		dst string
	}
	var jobs []job
	done := map[string]bool{}
	for _, p := range pkgs {
		if !want[p.Module.Path] {
			continue
		}
		short := "agenor"
		if p.Module.Path != self {
			short = filepath.Base(p.Module.Path)
		}
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			fatal("%v", err)
		}
		dst := filepath.Join(*out, short, rel)
		if !done[short] {
			done[short] = true
			must(os.MkdirAll(filepath.Join(*out, short), 0o755))
			gv := p.Module.GoVersion
			if less(gv, 1, 23) {
				gv = "1.23.0"
			}
			must(os.WriteFile(filepath.Join(*out, short, "go.mod"),
				[]byte("module "+p.Module.Path+"\n\ngo "+gv+"\n"), 0o644))
		}
		jobs = append(jobs, job{p, dst})
	}
	if len(jobs) == 0 {
		fatal("nothing to instrument")
	}
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	for _, j := range jobs {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			instrument(j.p, j.dst, exports)
		}()
	}
	wg.Wait()
	var names []string
	for _, j := range jobs {
		names = append(names, j.p.ImportPath)
	}
	sort.Strings(names)
	must(os.WriteFile(filepath.Join(*out, "packages.txt"), []byte(strings.Join(names, "\n")+"\n"), 0o644))
	fmt.Printf("instrumented %d packages\n", len(jobs))
}

func sameDir(a, b string) bool {
	x, e1 := filepath.EvalSymlinks(a)
	y, e2 := filepath.EvalSymlinks(b)
	return e1 == nil && e2 == nil && x == y
}

func less(v string, maj, min int) bool {
	p := strings.Split(v, ".")
	if len(p) < 2 {
		return true
	}
	a, _ := strconv.Atoi(p[0])
	b, _ := strconv.Atoi(p[1])
	return a < maj || (a == maj && b < min)
}

func must(err error) {
	if err != nil {
		fatal("%v", err)
	}
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	n    int
	used bool
	two  map[*ast.UnaryExpr]bool
	pkg  *types.Package
	path string
	*resets
}

// resets gathers what gives the variables of a package the values they have
// when a process starts.
type resets struct {
	k     int
	zero  []string
	of    map[types.Object]string
	inits []string
}

func (r *rewriter) reset(f *ast.File) {
	var more []ast.Decl
	fn := func(kind string, body ...ast.Stmt) string {
		name := fmt.Sprintf("sim%s_%d", kind, r.k)
		r.k++
		more = append(more, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
		return name
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Name.Name == "init" {
			name := fmt.Sprintf("simInit_%d", r.k)
			r.k++
			fd.Name = ast.NewIdent(name)
			r.inits = append(r.inits, name)
			continue
		}
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.VAR || embeds(g.Doc) {
			continue
		}
		for _, sp := range g.Specs {
			vs := sp.(*ast.ValueSpec)
			if embeds(vs.Doc) {
				continue
			}
			use := func(lhs []*ast.Ident, rhs ast.Expr) {
				var l []ast.Expr
				var objs []types.Object
				for _, n := range lhs {
					l = append(l, ast.NewIdent(n.Name))
					if n.Name != "_" {
						objs = append(objs, r.info.Defs[n])
					}
				}
				if len(objs) == 0 {
					return
				}
				name := fn("Set", &ast.AssignStmt{Lhs: l, Tok: token.ASSIGN, Rhs: []ast.Expr{rhs}})
				for _, o := range objs {
					r.of[o] = name
				}
			}
			switch {
			case len(vs.Values) == 0:
				for _, n := range vs.Names {
					if n.Name != "_" {
						r.zero = append(r.zero, n.Name)
					}
				}
			case len(vs.Values) == len(vs.Names):
				for i, n := range vs.Names {
					use([]*ast.Ident{n}, vs.Values[i])
				}
			default:
				use(vs.Names, vs.Values[0])
			}
		}
	}
	f.Decls = append(f.Decls, more...)
}

func embeds(cg *ast.CommentGroup) bool {
	if cg != nil {
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:embed") {
				return true
			}
		}
	}
	return false
}

func (rs *resets) write(file, pkg string, info *types.Info) {
	if len(rs.zero)+len(rs.of)+len(rs.inits) == 0 {
		return
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport simrt_ \"simrt\"\n\nfunc init() {\n\tsimrt_.OnReset(simReset)\n", pkg)
	for _, n := range rs.inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	fmt.Fprintf(&b, "}\n\nfunc simReset() {\n")
	for _, n := range rs.zero {
		fmt.Fprintf(&b, "\tsimrt_.Zero(&%s)\n", n)
	}
	done := map[string]bool{}
	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			if n := rs.of[v]; n != "" && !done[n] {
				done[n] = true
				fmt.Fprintf(&b, "\t%s()\n", n)
			}
		}
	}
	for _, n := range rs.inits {
		fmt.Fprintf(&b, "\t%s()\n", n)
	}
	b.WriteString("}\n")
	must(os.WriteFile(file, b.Bytes(), 0o644))
}

func instrument(p *pkgInfo, dst string, exports map[string]string) {
	must(os.MkdirAll(dst, 0o755))
	if len(p.CgoFiles) > 0 {
		fatal("%s uses cgo", p.ImportPath)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	for _, f := range p.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, af)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{},
		Uses:  map[*ast.Ident]types.Object{},
		Defs:  map[*ast.Ident]types.Object{},
	}
	conf := types.Config{Importer: imp, GoVersion: goVersion(p)}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		fatal("type check %s: %v", p.ImportPath, err)
	}
	rs := &resets{of: map[types.Object]string{}}
	for i, f := range files {
		r := &rewriter{fset: fset, info: info, two: map[*ast.UnaryExpr]bool{}, pkg: pkg, path: p.ImportPath, resets: rs}
		r.file(f)
		var buf bytes.Buffer
		// keep build constraints and embed directives, drop other comments
		f.Comments = keep(f)
		if err := format.Node(&buf, fset, f); err != nil {
			fatal("print %s: %v", p.GoFiles[i], err)
		}
		must(os.WriteFile(filepath.Join(dst, p.GoFiles[i]), buf.Bytes(), 0o644))
	}
	rs.write(filepath.Join(dst, "zz_simreset.go"), p.Name, info)
	for _, e := range p.EmbedFiles {
		data, err := os.ReadFile(filepath.Join(p.Dir, e))
		must(err)
		must(os.MkdirAll(filepath.Dir(filepath.Join(dst, e)), 0o755))
		must(os.WriteFile(filepath.Join(dst, e), data, 0o644))
	}
}

func goVersion(p *pkgInfo) string {
	if p.Module != nil && p.Module.GoVersion != "" && !less(p.Module.GoVersion, 1, 23) {
		v := strings.Split(p.Module.GoVersion, ".")
		return "go" + v[0] + "." + v[1]
	}
	return "go1.23"
}

func keep(f *ast.File) []*ast.CommentGroup {
	var out []*ast.CommentGroup
	drop := func(cg **ast.CommentGroup) {
		if *cg == nil {
			return
		}
		for _, c := range (*cg).List {
			if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") || strings.HasPrefix(c.Text, "//go:no") {
				out = append(out, *cg)
				return
			}
		}
		*cg = nil
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.GenDecl:
			drop(&x.Doc)
		case *ast.FuncDecl:
			drop(&x.Doc)
		case *ast.TypeSpec:
			drop(&x.Doc)
			drop(&x.Comment)
		case *ast.ValueSpec:
			drop(&x.Doc)
			drop(&x.Comment)
		case *ast.ImportSpec:
			drop(&x.Doc)
			drop(&x.Comment)
		case *ast.Field:
			drop(&x.Doc)
			drop(&x.Comment)
		case *ast.File:
			x.Doc = nil
		}
		return true
	})
	for _, cg := range f.Comments {
		for _, c := range cg.List {
			if constraint.IsGoBuild(c.Text) && cg.Pos() < f.Package {
				out = append(out, cg)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Pos() < out[j].Pos() })
	return out
}

func (r *rewriter) file(f *ast.File) {
	for _, is := range f.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		if to, ok := shims[path]; ok {
			if is.Name == nil {
				n := shimName[path]
				if n == "" {
					n = path[strings.LastIndex(path, "/")+1:]
				}
				is.Name = ast.NewIdent(n)
			}
			is.Path.Value = strconv.Quote(to)
			is.EndPos = 0
		}
	}
	// mark two-value receives
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.two[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					r.two[u] = true
				}
			}
		}
		return true
	})
	for _, d := range f.Decls {
		r.walk(reflect.ValueOf(d))
	}
	r.reset(f)
	if r.used {
		spec := &ast.ImportSpec{Name: ast.NewIdent("simrt_"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"simrt"`}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		// imports first
		decl.TokPos = f.Name.End() + 1
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
		f.Imports = append([]*ast.ImportSpec{spec}, f.Imports...)
	}
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	objT  = reflect.TypeOf((*ast.Object)(nil))
	scpT  = reflect.TypeOf((*ast.Scope)(nil))
)

// walk rewrites the tree below v, children before parents.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		e := v.Elem()
		if v.Type() == exprT {
			n := r.expr(v.Interface().(ast.Expr))
			if v.CanSet() {
				v.Set(reflect.ValueOf(n))
			}
			return
		}
		if v.Type() == stmtT {
			n := r.stmt(v.Interface().(ast.Stmt))
			if v.CanSet() {
				v.Set(reflect.ValueOf(n))
			}
			return
		}
		r.walk(e)
	case reflect.Ptr:
		if v.IsNil() || v.Type() == objT || v.Type() == scpT {
			return
		}
		r.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

func (r *rewriter) children(n ast.Node) {
	r.walk(reflect.ValueOf(n).Elem())
}

func (r *rewriter) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt_"), Sel: ast.NewIdent(name)}
}

func call(f ast.Expr, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: f, Args: args}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		// single core type of a constraint
		if it, ok := tp.Constraint().Underlying().(*types.Interface); ok {
			for i := 0; i < it.NumEmbeddeds(); i++ {
				switch e := it.EmbeddedType(i).(type) {
				case *types.Union:
					if e.Len() > 0 {
						return e.Term(0).Type().Underlying()
					}
				default:
					return core(e)
				}
			}
		}
	}
	if it, ok := u.(*types.Interface); ok && it.NumEmbeddeds() == 1 {
		if un, ok := it.EmbeddedType(0).(*types.Union); ok && un.Len() > 0 {
			return un.Term(0).Type().Underlying()
		}
	}
	return u
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			two := r.two[x]
			r.children(x)
			if two {
				return call(r.rt("Recv2"), x.X)
			}
			return call(r.rt("Recv"), x.X)
		}
	case *ast.CallExpr:
		if r.closes(x) {
			r.children(x)
			return call(r.rt("Close"), x.Args...)
		}
	}
	r.children(e)
	return e
}

// closes tells whether a call is the builtin that closes a channel.
func (r *rewriter) closes(x *ast.CallExpr) bool {
	id, ok := ast.Unparen(x.Fun).(*ast.Ident)
	if !ok || id.Name != "close" {
		return false
	}
	_, ok = r.info.Uses[id].(*types.Builtin)
	return ok
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch x := s.(type) {
	case *ast.SendStmt:
		r.children(x)
		return &ast.ExprStmt{X: call(call(r.rt("SendTo"), x.Chan), x.Value)}
	case *ast.GoStmt:
		return r.goStmt(x)
	case *ast.DeferStmt:
		closes := r.closes(x.Call)
		r.children(x)
		if closes {
			x.Call.Fun = r.rt("Close")
		}
		return x
	case *ast.SelectStmt:
		return r.selectStmt(x, nil)
	case *ast.LabeledStmt:
		if sel, ok := x.Stmt.(*ast.SelectStmt); ok {
			return r.selectStmt(sel, x.Label)
		}
	case *ast.RangeStmt:
		return r.rangeStmt(x)
	}
	r.children(s)
	return s
}

func (r *rewriter) id(p string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("_sim%s%d", p, r.n))
}

func define(l, v ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: []ast.Expr{l}, Tok: token.DEFINE, Rhs: []ast.Expr{v}}
}

func (r *rewriter) goStmt(g *ast.GoStmt) ast.Stmt {
	c := g.Call
	// facts from the original nodes, before rewriting
	direct := false
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		switch o := r.info.Uses[f].(type) {
		case *types.Func, *types.Builtin:
			_ = o
			direct = true
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				direct = true
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		direct = true
	}
	type argFact struct{ inline bool }
	facts := make([]argFact, len(c.Args))
	tuple := 0
	for i, a := range c.Args {
		tv := r.info.Types[a]
		if tv.IsNil() || tv.Value != nil || tv.IsType() {
			facts[i].inline = true
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			facts[i].inline = true
		}
		if t, ok := tv.Type.(*types.Tuple); ok && len(c.Args) == 1 {
			tuple = t.Len()
		}
		if _, ok := ast.Unparen(a).(*ast.FuncLit); ok {
			facts[i].inline = true
		}
	}
	r.walk(reflect.ValueOf(c).Elem().FieldByName("Args"))
	closes := r.closes(c)
	fun := r.expr(c.Fun)
	if closes {
		fun = r.rt("Close")
	}
	var pre []ast.Stmt
	if !direct {
		f := r.id("f")
		pre = append(pre, define(f, fun))
		fun = f
	}
	var args []ast.Expr
	if tuple > 1 {
		var lhs []ast.Expr
		for i := 0; i < tuple; i++ {
			t := r.id("a")
			lhs = append(lhs, t)
			args = append(args, t)
		}
		pre = append(pre, &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: c.Args})
	} else {
		for i, a := range c.Args {
			if facts[i].inline {
				args = append(args, a)
				continue
			}
			t := r.id("a")
			pre = append(pre, define(t, a))
			args = append(args, t)
		}
	}
	inner := &ast.CallExpr{Fun: fun, Args: args}
	if c.Ellipsis.IsValid() {
		inner.Ellipsis = 1
	}
	lit := &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: inner}}},
	}
	pre = append(pre, &ast.ExprStmt{X: call(r.rt("Go"), lit)})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) rangeStmt(x *ast.RangeStmt) ast.Stmt {
	t := core(r.typeOf(x.X))
	switch t.(type) {
	case *types.Map:
		r.children(x)
		x.X = call(r.rt("RangeMap"), x.X)
		return x
	case *types.Chan:
		r.children(x)
		ch, ok := r.id("ch"), r.id("ok")
		brk := &ast.IfStmt{
			Cond: &ast.UnaryExpr{Op: token.NOT, X: ok},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}},
		}
		var list []ast.Stmt
		recv := call(r.rt("Recv2"), ch)
		if x.Key == nil {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_"), ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
		} else if x.Tok == token.DEFINE {
			list = append(list, &ast.AssignStmt{Lhs: []ast.Expr{x.Key, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}})
		} else {
			v := r.id("v")
			list = append(list,
				&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{recv}},
				brk,
				&ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}})
			brk = nil
		}
		if brk != nil {
			list = append(list, brk)
		}
		list = append(list, x.Body)
		return &ast.ForStmt{
			Init: define(ch, x.X),
			Body: &ast.BlockStmt{List: list},
		}
	}
	r.children(x)
	return x
}

func (r *rewriter) selectStmt(x *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(x.Body.List) == 0 {
		return &ast.ExprStmt{X: call(r.rt("BlockForever"))}
	}
	var pre []ast.Stmt
	var cases []ast.Expr
	var clauses []ast.Stmt
	hasDefault := false
	idx := 0
	for _, s := range x.Body.List {
		cc := s.(*ast.CommClause)
		var body []ast.Stmt
		if cc.Comm == nil {
			hasDefault = true
			r.walk(reflect.ValueOf(cc).Elem().FieldByName("Body"))
			clauses = append(clauses, &ast.CaseClause{Body: cc.Body})
			continue
		}
		c := r.id("c")
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			r.children(m)
			pre = append(pre, define(c, call(call(r.rt("CaseSend"), m.Chan), m.Value)))
		case *ast.ExprStmt:
			u := ast.Unparen(m.X).(*ast.UnaryExpr)
			r.children(u)
			pre = append(pre, define(c, call(r.rt("CaseRecv"), u.X)))
		case *ast.AssignStmt:
			u := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			r.children(u)
			pre = append(pre, define(c, call(r.rt("CaseRecv"), u.X)))
			for i := range m.Lhs {
				m.Lhs[i] = r.expr(m.Lhs[i])
			}
			meth := "Val"
			if len(m.Lhs) == 2 {
				meth = "Val2"
			}
			body = append(body, &ast.AssignStmt{
				Lhs: m.Lhs, Tok: m.Tok,
				Rhs: []ast.Expr{call(&ast.SelectorExpr{X: c, Sel: ast.NewIdent(meth)})},
			})
		}
		r.walk(reflect.ValueOf(cc).Elem().FieldByName("Body"))
		body = append(body, cc.Body...)
		clauses = append(clauses, &ast.CaseClause{
			List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}},
			Body: body,
		})
		cases = append(cases, c)
		idx++
	}
	if !hasDefault {
		clauses = append(clauses, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: call(ast.NewIdent("panic"), &ast.BasicLit{Kind: token.STRING, Value: `"unreachable select"`})},
		}})
	}
	def := "false"
	if hasDefault {
		def = "true"
	}
	var sw ast.Stmt = &ast.SwitchStmt{
		Tag:  call(r.rt("Select"), append([]ast.Expr{ast.NewIdent(def)}, cases...)...),
		Body: &ast.BlockStmt{List: clauses},
	}
	if label != nil {
		sw = &ast.LabeledStmt{Label: label, Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, sw)}
}
