package main

// The instrumenter: copies the repository's working tree to a scratch directory and rewrites the copy so that all
// nondeterminism goes through the simulator runtime (package zz/rt). Nothing is written to the repository.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build/constraint"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"io/fs"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const modPath = "github.com/crimist/trakx"

var shims = map[string]string{
	"sync": "sync", "sync/atomic": "sync/atomic", "time": "time", "net": "net", "net/http": "net/http", "os": "os",
	"os/signal": "os/signal", "os/exec": "os/exec", "syscall": "syscall", "math/rand": "math/rand", "math/rand/v2": "math/rand/v2",
	"crypto/rand": "crypto/rand", "database/sql": "database/sql", "expvar": "expvar", "runtime": "runtime", "log": "log",
	"io/ioutil": "io/ioutil", "context": "context", "maps": "maps", "fmt": "fmt", "go.uber.org/zap": "zap", "github.com/kkyr/fig": "fig",
}

type listPkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles, CgoFiles, EmbedFiles []string
	Imports, Deps                 []string
	ImportMap                     map[string]string
	Standard                      bool
	Module                        *struct{ Path, GoVersion string }
	Error                         *struct{ Err string }
}

type instr struct {
	root   string
	tags   string
	env    []string
	fset   *token.FileSet
	sites  []string
	used   map[string]map[string]bool // shim import path -> identifiers used
	shimD  map[string]map[string]bool // shim import path -> identifiers declared
	imp    types.Importer
	exp    map[string]string
	resets []string
	hasCLI bool
	real   map[string]*types.Package
}

// copyTree copies the parts of the repository that a build needs.
func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if d.IsDir() {
			n := d.Name()
			if rel != "." && (strings.HasPrefix(n, ".") || n == "testdata" || n == "node_modules") {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0755)
		}
		if !d.Type().IsRegular() || strings.HasSuffix(p, "_test.go") || strings.HasPrefix(d.Name(), ".") {
			return nil
		}
		if fi, err := d.Info(); err != nil || fi.Size() > 4<<20 {
			return err
		}
		return copyFile(p, filepath.Join(dst, rel))
	})
}

func copyFile(a, b string) error {
	in, err := os.Open(a)
	if err != nil {
		return err
	}
	defer in.Close()
	if err := os.MkdirAll(filepath.Dir(b), 0755); err != nil {
		return err
	}
	out, err := os.Create(b)
	if err != nil {
		return err
	}
	if _, err := io.Copy(out, in); err != nil {
		out.Close()
		return err
	}
	return out.Close()
}

func goCmd(dir string, env []string, args ...string) ([]byte, error) {
	c := exec.Command("go", args...)
	c.Dir = dir
	c.Env = env
	var o, e bytes.Buffer
	c.Stdout, c.Stderr = &o, &e
	if err := c.Run(); err != nil {
		return o.Bytes(), fmt.Errorf("go %s: %v\n%s", strings.Join(args, " "), err, e.String())
	}
	return o.Bytes(), nil
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		k := kv[:strings.IndexByte(kv, '=')]
		switch k {
		case "GOFLAGS", "GOWORK", "GOPROXY", "GOTOOLCHAIN", "GO111MODULE", "GOSUMDB", "GOOS", "GOARCH", "GODEBUG", "GOEXPERIMENT":
		default:
			env = append(env, kv)
		}
	}
	return append(env, "GOFLAGS=-mod=mod", "GOWORK=off", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "GONOSUMDB=*", "GOFLAGS=-mod=mod")
}

// instrument rewrites the tree at root (a copy of the repository plus the zz packages).
func instrument(root, tags string) error {
	in := &instr{root: root, tags: tags, env: goEnv(), fset: token.NewFileSet(), used: map[string]map[string]bool{},
		shimD: map[string]map[string]bool{}, exp: map[string]string{}, real: map[string]*types.Package{}}
	for k, v := range shims {
		d, err := declared(filepath.Join(root, "zz/sh", v))
		if err != nil {
			return err
		}
		in.shimD[k] = d
	}
	// list the repository's packages, with export data of everything they import
	args := []string{"list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,EmbedFiles,Imports,ImportMap,Standard,Module,Error"}
	if tags != "" {
		args = append(args, "-tags", tags)
	}
	pats, err := repoPackages(root, tags)
	if err != nil {
		return err
	}
	args = append(args, pats...)
	args = append(args, shimImports()...)
	out, err := goCmd(root, in.env, args...)
	if err != nil {
		return err
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	var pkgs []*listPkg
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		if p.Error != nil {
			return fmt.Errorf("go list %s: %s", p.ImportPath, p.Error.Err)
		}
		in.exp[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Path == modPath && !strings.HasPrefix(p.ImportPath, modPath+"/zz/") {
			q := p
			pkgs = append(pkgs, &q) // -deps order: dependencies first
		}
	}
	in.imp = importer.ForCompiler(in.fset, "gc", func(path string) (io.ReadCloser, error) {
		f := in.exp[path]
		if f == "" {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	for _, p := range pkgs {
		if err := in.pkg(p); err != nil {
			return fmt.Errorf("%s: %w", p.ImportPath, err)
		}
	}
	if err := in.aliases(); err != nil {
		return err
	}
	return in.finish()
}

// shimImports are the real packages behind the shims (for aliases).
func shimImports() []string {
	var out []string
	for k := range shims {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func repoPackages(root, tags string) ([]string, error) {
	var out []string
	err := filepath.WalkDir(root, func(p string, d fs.DirEntry, err error) error {
		if err != nil {
			return err
		}
		if !d.IsDir() {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		if rel == "zz" || (rel != "." && strings.HasPrefix(d.Name(), "_")) {
			return filepath.SkipDir
		}
		if rel == "." && strings.Contains(tags, "heroku") {
			return nil
		}
		if m, _ := filepath.Glob(filepath.Join(p, "*.go")); len(m) > 0 {
			for _, f := range m {
				if ok, _ := matchTags(f, tags); ok {
					out = append(out, "./"+rel)
					break
				}
			}
		}
		return nil
	})
	return out, err
}

func matchTags(f, tags string) (bool, error) {
	src, err := os.ReadFile(f)
	if err != nil {
		return false, err
	}
	for _, l := range strings.Split(string(src), "\n") {
		if strings.HasPrefix(l, "package ") {
			break
		}
		if constraint.IsGoBuild(l) {
			x, err := constraint.Parse(l)
			if err != nil {
				return true, nil
			}
			return x.Eval(func(t string) bool {
				for _, g := range strings.Split(tags, ",") {
					if g == t {
						return true
					}
				}
				return t == "linux" || t == "amd64" || t == "gc" || t == "unix" || strings.HasPrefix(t, "go1.") || t == "cgo"
			}), nil
		}
	}
	return true, nil
}

// declared lists the exported package-level identifiers of a directory.
func declared(dir string) (map[string]bool, error) {
	out := map[string]bool{}
	fs := token.NewFileSet()
	m, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range m {
		a, err := parser.ParseFile(fs, f, nil, 0)
		if err != nil {
			return nil, err
		}
		for _, d := range a.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					out[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						out[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							out[n.Name] = true
						}
					}
				}
			}
		}
	}
	return out, nil
}

// ---------------------------------------------------------------- edits

type edit struct {
	pos, end int // byte offsets; end > pos: replacement
	kind     int // 0 close, 1 open, 2 replace
	seq      int
	text     func() string
}

type file struct {
	in    *instr
	p     *pkgState
	ast   *ast.File
	name  string
	src   []byte
	edits []edit
	tf    *token.File
	inits int
	tail  bytes.Buffer
	skip  map[ast.Node]bool
	write map[ast.Node]bool // map index expressions that are written
	noY   bool
	vars  int
}

type pkgState struct {
	lp    *listPkg
	info  *types.Info
	tpkg  *types.Package
	files []*file
	inits []string
	n     int
}

func lit(s string) func() string { return func() string { return s } }

func (f *file) off(p token.Pos) int { return f.tf.Offset(p) }
func (f *file) open(p token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), 1, len(f.edits), lit(s)})
}
func (f *file) close(p token.Pos, s string) {
	f.edits = append(f.edits, edit{f.off(p), f.off(p), 0, len(f.edits), lit(s)})
}
func (f *file) repl(a, b token.Pos, s func() string) {
	f.edits = append(f.edits, edit{f.off(a), f.off(b), 2, len(f.edits), s})
}

func (f *file) sortEdits() {
	sort.SliceStable(f.edits, func(i, j int) bool {
		a, b := f.edits[i], f.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if a.kind != b.kind {
			return a.kind < b.kind
		}
		if a.kind == 0 {
			return a.seq > b.seq
		}
		return a.seq < b.seq
	})
}

// render yields the edited text of [a,b): openings at b belong to what follows and closings at a to what precedes.
func (f *file) render(a, b int) string {
	var out strings.Builder
	at := a
	for _, e := range f.edits {
		if e.pos < a || e.pos > b || e.pos < at {
			continue
		}
		if e.pos == b && e.kind != 0 || e.pos == a && e.kind == 0 {
			continue
		}
		out.Write(f.src[at:e.pos])
		at = e.pos
		out.WriteString(e.text())
		if e.kind == 2 {
			at = e.end
		}
	}
	if at < b {
		out.Write(f.src[at:b])
	}
	return out.String()
}

// sub renders the inside of a node, without openings that belong to enclosing nodes (seq limits them).
func (f *file) sub(n ast.Node) string { return f.render(f.off(n.Pos()), f.off(n.End())) }

func (in *instr) pkg(lp *listPkg) error {
	ps := &pkgState{lp: lp}
	var files []*ast.File
	if len(lp.CgoFiles) > 0 {
		return fmt.Errorf("cgo is not supported")
	}
	for _, gf := range lp.GoFiles {
		path := filepath.Join(lp.Dir, gf)
		src, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		a, err := parser.ParseFile(in.fset, path, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return err
		}
		files = append(files, a)
		ps.files = append(ps.files, &file{in: in, p: ps, ast: a, name: path, src: src, tf: in.fset.File(a.Pos()),
			skip: map[ast.Node]bool{}, write: map[ast.Node]bool{}})
	}
	ps.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: in.imp}
	if lp.Module != nil && lp.Module.GoVersion != "" {
		conf.GoVersion = "go" + lp.Module.GoVersion
	}
	tp, err := conf.Check(lp.ImportPath, in.fset, files, ps.info)
	if err != nil {
		return err
	}
	ps.tpkg = tp
	isMain := lp.Name == "main"
	for _, f := range ps.files {
		if err := f.process(isMain); err != nil {
			return fmt.Errorf("%s: %w", f.name, err)
		}
		f.sortEdits()
	}
	// package variable initialisers, in initialisation order
	var calls []string
	embeds := ps.embedVars()
	for _, i := range ps.info.InitOrder {
		var f *file
		for _, x := range ps.files {
			if x.ast.FileStart <= i.Rhs.Pos() && i.Rhs.Pos() <= x.ast.FileEnd {
				f = x
			}
		}
		ps.n++
		name := fmt.Sprintf("zzv%d", ps.n)
		var lhs []string
		for _, v := range i.Lhs {
			lhs = append(lhs, v.Name())
		}
		fmt.Fprintf(&f.tail, "\nfunc %s() { %s = %s }\n", name, strings.Join(lhs, ", "), f.sub(i.Rhs))
		calls = append(calls, name)
	}
	var rs bytes.Buffer
	pname := lp.Name
	if isMain {
		pname = "cli"
	}
	fmt.Fprintf(&rs, "//go:build go1.24\n\npackage %s\n\nimport zzrt %q\n\n// ZzReset puts the package into the state of a fresh process.\nfunc ZzReset() {\n", pname, modPath+"/zz/rt")
	names := tp.Scope().Names()
	for _, n := range names {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && n != "_" && !embeds[n] {
			_ = v
			fmt.Fprintf(&rs, "\tzzrt.Zero(&%s)\n", n)
		}
	}
	fmt.Fprintf(&rs, "\t_ = zzrt.Zero[int]\n")
	for _, c := range append(calls, ps.inits...) {
		fmt.Fprintf(&rs, "\t%s()\n", c)
	}
	rs.WriteString("}\n\n// ZzVars are the addresses of the package's variables.\nfunc ZzVars() []any {\n\treturn []any{\n")
	for _, n := range names {
		if _, ok := tp.Scope().Lookup(n).(*types.Var); ok && n != "_" && !embeds[n] {
			fmt.Fprintf(&rs, "\t\t&%s,\n", n)
		}
	}
	rs.WriteString("\t}\n}\n")
	dir := lp.Dir
	if isMain {
		dir = filepath.Join(in.root, "zz/cli")
		if err := os.MkdirAll(dir, 0755); err != nil {
			return err
		}
		in.hasCLI = true
		in.resets = append(in.resets, modPath+"/zz/cli")
	} else {
		in.resets = append(in.resets, lp.ImportPath)
	}
	for _, f := range ps.files {
		txt := f.render(0, len(f.src)) + "\n" + f.tail.String() + "\nvar _ = zzrt.Y\n"
		if isMain {
			if err := os.Remove(f.name); err != nil {
				return err
			}
		}
		if err := os.WriteFile(filepath.Join(dir, filepath.Base(f.name)), []byte(txt), 0644); err != nil {
			return err
		}
	}
	return os.WriteFile(filepath.Join(dir, "zz_reset.go"), rs.Bytes(), 0644)
}

func (ps *pkgState) embedVars() map[string]bool {
	out := map[string]bool{}
	has := func(c *ast.CommentGroup) bool {
		if c == nil {
			return false
		}
		for _, l := range c.List {
			if strings.HasPrefix(l.Text, "//go:embed") {
				return true
			}
		}
		return false
	}
	for _, f := range ps.files {
		for _, d := range f.ast.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					v := s.(*ast.ValueSpec)
					if has(g.Doc) || has(v.Doc) {
						for _, n := range v.Names {
							out[n.Name] = true
						}
					}
				}
			}
		}
	}
	return out
}

func (f *file) site(p token.Pos) string {
	pos := f.in.fset.Position(p)
	rel, _ := filepath.Rel(f.in.root, pos.Filename)
	f.in.sites = append(f.in.sites, fmt.Sprintf("%s:%d", rel, pos.Line))
	return strconv.Itoa(len(f.in.sites) - 1)
}

func (f *file) typ(e ast.Expr) types.Type {
	if tv, ok := f.p.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := f.p.info.ObjectOf(id); o != nil {
			return o.Type()
		}
	}
	return nil
}

func isMap(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}
func isChan(t types.Type) bool {
	if t == nil {
		return false
	}
	if _, ok := t.(*types.TypeParam); ok {
		return false
	}
	_, ok := t.Underlying().(*types.Chan)
	return ok
}

func (f *file) builtin(e ast.Expr) string {
	id, ok := ast.Unparen(e).(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := f.p.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (f *file) process(isMain bool) error {
	// package clause and imports
	if isMain {
		f.repl(f.ast.Name.Pos(), f.ast.Name.End(), lit("cli; import zzrt "+strconv.Quote(modPath+"/zz/rt")))
	} else {
		f.close(f.ast.Name.End(), "; import zzrt "+strconv.Quote(modPath+"/zz/rt"))
	}
	redirected := map[*types.PkgName]string{}
	for _, im := range f.ast.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		sh, ok := shims[path]
		if !ok {
			continue
		}
		if im.Name != nil && im.Name.Name == "_" {
			continue
		}
		if im.Name != nil && im.Name.Name == "." {
			return fmt.Errorf("dot import of %s", path)
		}
		f.repl(im.Path.Pos(), im.Path.End(), lit(strconv.Quote(modPath+"/zz/sh/"+sh)))
		var o types.Object
		if im.Name != nil {
			o = f.p.info.Defs[im.Name]
		} else {
			o = f.p.info.Implicits[im]
		}
		if pn, ok := o.(*types.PkgName); ok {
			redirected[pn] = path
			f.in.real[path] = pn.Imported()
		}
	}
	var err error
	for _, d := range f.ast.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Recv == nil && d.Name.Name == "init" {
				f.p.n++
				n := fmt.Sprintf("zzinit%d", f.p.n)
				f.repl(d.Name.Pos(), d.Name.End(), lit(n))
				f.p.inits = append(f.p.inits, n)
			}
			if isMain && d.Recv == nil && d.Name.Name == "main" {
				f.repl(d.Name.Pos(), d.Name.End(), lit("Main"))
			}
		}
	}
	// which identifiers of redirected packages are used
	ast.Inspect(f.ast, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				if pn, ok := f.p.info.Uses[id].(*types.PkgName); ok {
					if path, ok := redirected[pn]; ok {
						if f.in.used[path] == nil {
							f.in.used[path] = map[string]bool{}
						}
						f.in.used[path][s.Sel.Name] = true
					}
				}
			}
		}
		return true
	})
	for _, d := range f.ast.Decls {
		f.walk(d, &err)
	}
	return err
}

// shared tells whether the expression denotes storage other tasks may reach.
func (f *file) shared(e ast.Expr) bool {
	switch e := ast.Unparen(e).(type) {
	case *ast.SelectorExpr:
		if _, ok := f.p.info.Uses[e.Sel].(*types.Var); ok {
			return true
		}
	case *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return !isMap(f.typ(e.X)) && f.shared(e.X)
	case *ast.Ident:
		if v, ok := f.p.info.Uses[e].(*types.Var); ok && v.Parent() == f.p.tpkg.Scope() {
			return true
		}
	}
	return false
}

func (f *file) isMapIndex(e ast.Expr) *ast.IndexExpr {
	if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok && isMap(f.typ(ix.X)) {
		return ix
	}
	return nil
}

func (f *file) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		f.open(s.Pos(), "zzrt.Y("+f.site(s.Pos())+");")
		f.split(s)
	}
}

// split separates the load and the store of a read-modify-write statement.
func (f *file) split(s ast.Stmt) {
	if l, ok := s.(*ast.LabeledStmt); ok {
		s = l.Stmt
	}
	switch s := s.(type) {
	case *ast.IncDecStmt:
		if f.isMapIndex(s.X) != nil || !f.shared(s.X) {
			return
		}
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		f.open(s.X.Pos(), "{ zzp := &(")
		f.repl(s.X.End(), s.End(), lit("); zzv := *zzp; zzrt.Y("+f.site(s.Pos())+"); *zzp = zzv "+op+" 1 }"))
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || s.Tok == token.DEFINE {
			return
		}
		if f.isMapIndex(s.Lhs[0]) != nil || !f.shared(s.Lhs[0]) {
			return
		}
		if s.Tok != token.ASSIGN {
			op := strings.TrimSuffix(s.Tok.String(), "=")
			f.open(s.Lhs[0].Pos(), "{ zzp := &(")
			f.repl(s.Lhs[0].End(), s.Rhs[0].Pos(), lit("); zzv := *zzp; zzrt.Y("+f.site(s.Pos())+"); *zzp = zzv "+op+" ("))
			f.close(s.Rhs[0].End(), ") }")
			return
		}
		tv := f.p.info.Types[s.Rhs[0]]
		lt := f.typ(s.Lhs[0])
		if tv.Value != nil || tv.IsNil() || lt == nil || !types.Identical(tv.Type, lt) {
			return
		}
		switch ast.Unparen(s.Rhs[0]).(type) {
		case *ast.BinaryExpr, *ast.CallExpr:
		default:
			return
		}
		if !simple(s.Lhs[0]) {
			return
		}
		y := f.site(s.Pos())
		l, r := s.Lhs[0], s.Rhs[0]
		ls := string(f.src[f.off(l.Pos()):f.off(l.End())])
		f.repl(l.Pos(), r.Pos(), lit("{ zzv := "))
		f.close(r.End(), "; zzrt.Y("+y+"); "+ls+" = zzv }")
	}
}

// simple expressions are chains of names.
func simple(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return simple(e.X)
	case *ast.StarExpr:
		return simple(e.X)
	}
	return false
}

func (f *file) walk(n ast.Node, errp *error) {
	ast.Inspect(n, func(n ast.Node) bool {
		if n == nil || *errp != nil {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			f.stmts(n.List)
		case *ast.CaseClause:
			f.stmts(n.Body)
		case *ast.CommClause:
			f.stmts(n.Body)
		case *ast.ForStmt:
			if len(n.Body.List) == 0 {
				f.close(n.Body.Lbrace+1, "zzrt.Y("+f.site(n.Pos())+")")
			}
		case *ast.RangeStmt:
			f.rangeStmt(n, errp)
		case *ast.SendStmt:
			if !f.skip[n] {
				f.open(n.Chan.Pos(), "zzrt.SendTo(")
				f.repl(n.Chan.End(), n.Value.Pos(), lit(")("))
				f.close(n.Value.End(), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !f.skip[n] {
				fn := "zzrt.Recv("
				if tv, ok := f.p.info.Types[n]; ok {
					if _, tup := tv.Type.(*types.Tuple); tup {
						fn = "zzrt.Recv2("
					}
				}
				f.repl(n.OpPos, n.X.Pos(), lit(fn))
				f.close(n.X.End(), ")")
			}
		case *ast.SelectStmt:
			f.selectStmt(n, errp)
		case *ast.GoStmt:
			f.goStmt(n)
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				if ix := f.isMapIndex(l); ix != nil {
					f.write[ix] = true
				}
			}
		case *ast.IncDecStmt:
			if ix := f.isMapIndex(n.X); ix != nil {
				f.write[ix] = true
			}
		case *ast.IndexExpr:
			if isMap(f.typ(n.X)) {
				fn := "zzrt.MR("
				if f.write[n] {
					fn = "zzrt.MW("
				}
				f.open(n.X.Pos(), fn)
				f.close(n.X.End(), ")")
			}
		case *ast.CallExpr:
			switch f.builtin(n.Fun) {
			case "delete", "clear":
				if isMap(f.typ(n.Args[0])) {
					f.open(n.Args[0].Pos(), "zzrt.MW(")
					f.close(n.Args[0].End(), ")")
				}
			case "close":
				f.repl(n.Fun.Pos(), n.Fun.End(), lit("zzrt.Close"))
			case "len":
				if isChan(f.typ(n.Args[0])) {
					f.repl(n.Fun.Pos(), n.Fun.End(), lit("zzrt.ChanLen"))
				}
			case "recover":
				f.open(n.Pos(), "zzrt.Recover(")
				f.close(n.End(), ")")
			case "make":
				if len(n.Args) == 2 && isMap(f.typ(n.Args[0])) {
					if tv := f.p.info.Types[n.Args[1]]; tv.Value != nil && tv.Value.Kind() == constant.Int {
						f.open(n.Args[1].Pos(), "int(zzrt.Hint(int64(")
						f.close(n.Args[1].End(), ")))")
					} else {
						f.open(n.Args[1].Pos(), "zzrt.Hint(")
						f.close(n.Args[1].End(), ")")
					}
				}
			}
		}
		return true
	})
}

func (f *file) rangeStmt(n *ast.RangeStmt, errp *error) {
	if len(n.Body.List) == 0 {
		f.close(n.Body.Lbrace+1, "zzrt.Y("+f.site(n.Pos())+")")
	}
	t := f.typ(n.X)
	blank := func(e ast.Expr) bool {
		id, ok := e.(*ast.Ident)
		return e == nil || ok && id.Name == "_"
	}
	start := n.Range
	if n.Key != nil {
		start = n.Key.Pos()
	}
	f.vars++
	it := fmt.Sprintf("zzit%d", f.vars)
	switch {
	case isMap(t):
		ref := func(e ast.Expr) string {
			if blank(e) {
				return "nil"
			}
			return "&" + string(f.src[f.off(e.Pos()):f.off(e.End())])
		}
		name := func(e ast.Expr) string {
			if blank(e) {
				return "_"
			}
			return string(f.src[f.off(e.Pos()):f.off(e.End())])
		}
		for _, e := range []ast.Expr{n.Key, n.Value} {
			if e != nil && n.Tok == token.ASSIGN && f.isMapIndex(e) != nil {
				*errp = fmt.Errorf("range over a map into a map element is not supported")
			}
		}
		decl := it + " := zzrt.MapIter2("
		if n.Tok == token.DEFINE {
			decl = it + ", " + name(n.Key) + ", " + name(n.Value) + " := zzrt.MapIter3("
		}
		f.repl(start, n.X.Pos(), lit(decl))
		f.close(n.X.End(), "); "+it+".Next("+ref(n.Key)+", "+ref(n.Value)+"); ")
	case isChan(t):
		if n.Key != nil && n.Tok == token.ASSIGN {
			*errp = fmt.Errorf("range over a channel into an existing variable is not supported")
			return
		}
		v := "_"
		if !blank(n.Key) {
			v = n.Key.(*ast.Ident).Name
		}
		ok := "zzok" + it
		f.repl(start, n.X.Pos(), lit(v+", "+ok+" := zzrt.Recv2("))
		x := n.X
		f.edits = append(f.edits, edit{f.off(x.End()), f.off(x.End()), 0, -2, func() string {
			return "); " + ok + "; " + v + ", " + ok + " = zzrt.Recv2(" + string(f.src[f.off(x.Pos()):f.off(x.End())]) + ") "
		}})
	}
}

func (f *file) selectStmt(n *ast.SelectStmt, errp *error) {
	if len(n.Body.List) == 0 {
		f.repl(n.Pos(), n.End(), lit("for { zzrt.BlockForever() }"))
		return
	}
	f.vars++
	id := f.vars
	type c struct {
		mk   func() string
		pre  string
		node *ast.CommClause
	}
	var cs []c
	hasDef := false
	for _, s := range n.Body.List {
		cc := s.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			continue
		}
		v := fmt.Sprintf("zzc%d_%d", id, len(cs))
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			f.skip[m] = true
			cs = append(cs, c{func() string { return "zzrt.MkSend(" + f.sub(m.Chan) + ")(" + f.sub(m.Value) + ")" }, "", cc})
		case *ast.ExprStmt:
			u, ok := ast.Unparen(m.X).(*ast.UnaryExpr)
			if !ok {
				*errp = fmt.Errorf("unexpected select case")
				return
			}
			f.skip[u] = true
			cs = append(cs, c{func() string { return "zzrt.MkRecv(" + f.sub(u.X) + ")" }, "", cc})
		case *ast.AssignStmt:
			u, ok := ast.Unparen(m.Rhs[0]).(*ast.UnaryExpr)
			if !ok {
				*errp = fmt.Errorf("unexpected select case")
				return
			}
			f.skip[u] = true
			var lhs []string
			for _, l := range m.Lhs {
				lhs = append(lhs, string(f.src[f.off(l.Pos()):f.off(l.End())]))
			}
			val := ".Val()"
			if len(lhs) == 2 {
				val = ".Val2()"
			}
			pre := strings.Join(lhs, ", ") + " " + m.Tok.String() + " " + v + val + ";"
			cs = append(cs, c{func() string { return "zzrt.MkRecv(" + f.sub(u.X) + ")" }, pre, cc})
		}
	}
	f.repl(n.Pos(), n.Body.Lbrace+1, func() string {
		if len(cs) == 0 {
			return fmt.Sprintf("switch zzrt.Select(%v) {", hasDef)
		}
		var l, r []string
		for i, x := range cs {
			l = append(l, fmt.Sprintf("zzc%d_%d", id, i))
			r = append(r, x.mk())
		}
		return fmt.Sprintf("switch %s := %s; zzrt.Select(%v, %s) {", strings.Join(l, ", "), strings.Join(r, ", "), hasDef, strings.Join(l, ", "))
	})
	for i, x := range cs {
		head := fmt.Sprintf("case %d: ", i)
		if !hasDef && i == len(cs)-1 {
			head = "default: "
		}
		pre := x.pre
		f.repl(x.node.Case, x.node.Colon+1, lit(head+pre))
	}
}

func (f *file) goStmt(n *ast.GoStmt) {
	call := n.Call
	name := filepath.Base(f.in.fset.Position(n.Pos()).Filename) + ":" + strconv.Itoa(f.in.fset.Position(n.Pos()).Line)
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		f.repl(n.Pos(), fl.Pos(), lit("zzrt.Go("+strconv.Quote(name)+", "))
		f.repl(fl.End(), n.End(), lit(")"))
		return
	}
	f.repl(n.Pos(), n.End(), func() string {
		var pre, args []string
		for i, a := range call.Args {
			tv := f.p.info.Types[a]
			if tv.Value != nil || tv.IsNil() || tv.IsType() {
				args = append(args, f.sub(a))
				continue
			}
			v := fmt.Sprintf("zza%d", i)
			pre = append(pre, v+" := "+f.sub(a))
			args = append(args, v)
		}
		fun := f.sub(call.Fun)
		direct := f.builtin(call.Fun) != ""
		switch x := ast.Unparen(call.Fun).(type) {
		case *ast.Ident:
			if _, ok := f.p.info.Uses[x].(*types.Func); ok {
				direct = true
			}
		case *ast.SelectorExpr:
			if f.p.info.Selections[x] == nil {
				direct = true
			}
		}
		if !direct {
			pre = append([]string{"zzf := " + fun}, pre...)
			fun = "zzf"
		}
		el := ""
		if call.Ellipsis.IsValid() {
			el = "..."
		}
		return "{ " + strings.Join(append(pre, ""), "; ") + "zzrt.Go(" + strconv.Quote(name) + ", func() { " + fun + "(" + strings.Join(args, ", ") + el + ") }) }"
	})
}

// aliases writes, for every identifier of a shimmed package that the repository uses and the shim does not define,
// an alias of the real one.
func (in *instr) aliases() error {
	// real functions that must not be reached from simulated code
	deny := map[string]func(string) bool{
		"os": func(n string) bool {
			switch n {
			case "IsNotExist", "IsExist", "IsPermission", "IsTimeout", "NewSyscallError", "Expand", "IsPathSeparator", "SameFile":
				return false
			}
			return true
		},
		"net":           func(n string) bool { return strings.HasPrefix(n, "Dial") || strings.HasPrefix(n, "Listen") || strings.HasPrefix(n, "Lookup") || strings.HasPrefix(n, "Interface") || strings.HasPrefix(n, "File") || strings.HasPrefix(n, "Resolve") },
		"os/exec":       func(string) bool { return true },
		"syscall":       func(string) bool { return true },
		"os/signal":     func(string) bool { return true },
		"sync":          func(string) bool { return true },
		"sync/atomic":   func(string) bool { return true },
		"database/sql":  func(string) bool { return true },
		"math/rand":     func(string) bool { return true },
		"math/rand/v2":  func(string) bool { return true },
		"crypto/rand":   func(string) bool { return true },
		"expvar":        func(string) bool { return true },
		"net/http":      func(n string) bool { return strings.HasPrefix(n, "Listen") || n == "Get" || n == "Post" || n == "Head" || n == "Serve" },
		"io/ioutil":     func(n string) bool { return n != "ReadAll" && n != "NopCloser" && n != "Discard" },
		"maps":          func(n string) bool { return true },
	}
	for path, ids := range in.used {
		var names []string
		for n := range ids {
			if !in.shimD[path][n] {
				names = append(names, n)
			}
		}
		if len(names) == 0 {
			continue
		}
		sort.Strings(names)
		rp := in.real[path]
		var b strings.Builder
		fmt.Fprintf(&b, "//go:build go1.24\n\npackage %s\n\nimport zzreal %q\n\n", rp.Name(), path)
		for _, n := range names {
			o := rp.Scope().Lookup(n)
			switch o := o.(type) {
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					return fmt.Errorf("%s.%s: generic types of shimmed packages need a hand-written stand-in", path, n)
				}
				fmt.Fprintf(&b, "type %s = zzreal.%s\n", n, n)
			case *types.Const:
				fmt.Fprintf(&b, "const %s = zzreal.%s\n", n, n)
			case *types.Var:
				fmt.Fprintf(&b, "var %s = zzreal.%s\n", n, n)
			case *types.Func:
				if d := deny[path]; d != nil && d(n) {
					return fmt.Errorf("%s.%s has no simulated stand-in", path, n)
				}
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					return fmt.Errorf("%s.%s: generic functions of shimmed packages need a hand-written stand-in", path, n)
				}
				fmt.Fprintf(&b, "var %s = zzreal.%s\n", n, n)
			default:
				return fmt.Errorf("%s.%s not found", path, n)
			}
		}
		if err := os.WriteFile(filepath.Join(in.root, "zz/sh", shims[path], "zz_alias.go"), []byte(b.String()), 0644); err != nil {
			return err
		}
	}
	return nil
}

func (in *instr) finish() error {
	var b strings.Builder
	b.WriteString("//go:build go1.24\n\n// Package app resets the program under test to the state of a fresh process.\npackage app\n\nimport (\n")
	fmt.Fprintf(&b, "\tzzrt %q\n", modPath+"/zz/rt")
	for i, p := range in.resets {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	b.WriteString(")\n\n// Reset re-initialises every package, dependencies first.\nfunc Reset() {\n")
	for i := range in.resets {
		fmt.Fprintf(&b, "\tp%d.ZzReset()\n", i)
	}
	b.WriteString("}\n\n// Vars are the addresses of all package variables.\nfunc Vars() (l []any) {\n")
	for i := range in.resets {
		fmt.Fprintf(&b, "\tl = append(l, p%d.ZzVars()...)\n", i)
	}
	b.WriteString("\treturn\n}\n\n")
	if in.hasCLI {
		for i, p := range in.resets {
			if strings.HasSuffix(p, "/zz/cli") {
				fmt.Fprintf(&b, "// Main is the command-line entry point.\nvar Main func() = p%d.Main\n\n", i)
			}
		}
	} else {
		for i, p := range in.resets {
			if p == modPath+"/tracker" {
				fmt.Fprintf(&b, "// Main runs the tracker (this build has no command line).\nvar Main func() = p%d.Run\n\n", i)
			}
		}
	}
	fmt.Fprintf(&b, "const Tags = %q\n\nfunc init() {\n\tzzrt.SiteNames = []string{\n", in.tags)
	for _, s := range in.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	b.WriteString("\t}\n}\n")
	dir := filepath.Join(in.root, "zz/app")
	if err := os.MkdirAll(dir, 0755); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(dir, "app.go"), []byte(b.String()), 0644)
}
