// Command polinstr copies the non-test sources of a Go module and rewrites them so that package simrt owns
// every interleaving: a preemption point before every statement and between evaluation and assignment,
// goroutines, sync, channels, select, map accesses and iteration, and the clock.
//
//	polinstr SRC DST
//
// What it cannot rewrite it leaves alone and reports on stdout as "uninstrumented: ...".
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	Dir, ImportPath, Name, Export string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct {
		Main      bool
		Path      string
		GoVersion string
	}
}

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "polinstr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	if len(os.Args) != 3 {
		die("usage: polinstr SRC DST")
	}
	src, dst := os.Args[1], os.Args[2]
	cmd := exec.Command("go", "list", "-mod=mod", "-modfile="+filepath.Join(dst, "list.mod"), "-export", "-deps", "-json=Dir,ImportPath,Name,Export,GoFiles,Standard,Module", "./...")
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var mine []pkgInfo
	for dec := json.NewDecoder(bytes.NewReader(out)); ; {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("%v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.Module != nil && p.Module.Main && p.Name != "main" {
			mine = append(mine, p)
		}
	}
	for _, p := range mine {
		rel, err := filepath.Rel(src, p.Dir)
		if err != nil {
			die("%v", err)
		}
		instrument(p, exports, filepath.Join(dst, rel))
	}
}

type rw struct {
	fset     *token.FileSet
	info     *types.Info
	pkg      *types.Package
	tmp      int
	used     bool
	newLoop  bool // per-iteration loop variables
	file     string
	shared   map[types.Object]bool
	deferred *ast.CallExpr
}

func instrument(p pkgInfo, exports map[string]string, dst string) {
	if err := os.MkdirAll(dst, 0o755); err != nil {
		die("%v", err)
	}
	fset := token.NewFileSet()
	var files []*ast.File
	sort.Strings(p.GoFiles)
	for _, name := range p.GoFiles {
		f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: imp}
	pkg, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("typechecking %s: %v", p.ImportPath, err)
	}
	newLoop := false
	if parts := strings.Split(p.Module.GoVersion, "."); len(parts) > 1 {
		minor, _ := strconv.Atoi(parts[1])
		newLoop = minor >= 22
	}
	for i, f := range files {
		r := &rw{fset: fset, info: info, pkg: pkg, newLoop: newLoop, file: p.GoFiles[i]}
		r.rewriteFile(f)
		var buf bytes.Buffer
		if err := format.Node(&buf, token.NewFileSet(), f); err != nil {
			die("printing %s: %v", p.GoFiles[i], err)
		}
		if err := os.WriteFile(filepath.Join(dst, p.GoFiles[i]), buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
}

func (r *rw) note(n ast.Node, what string) {
	fmt.Printf("uninstrumented: %s: %s\n", r.fset.Position(n.Pos()), what)
}

func (r *rw) rt(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}
}

func (r *rw) call(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.rt(name), Args: args}
}

func (r *rw) yield() ast.Stmt { return &ast.ExprStmt{X: r.call("Y")} }

func (r *rw) name(p string) *ast.Ident {
	r.tmp++
	return ast.NewIdent(fmt.Sprintf("__%s%d", p, r.tmp))
}

var timeFuncs = map[string]bool{"Now": true, "Since": true, "Until": true, "Sleep": true, "After": true, "AfterFunc": true, "NewTimer": true, "Timer": true}
var runtimeFuncs = map[string]bool{"Gosched": true, "NumCPU": true, "GOMAXPROCS": true, "NumGoroutine": true}

func (r *rw) rewriteFile(f *ast.File) {
	r.findShared(f)
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				r.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					vs := s.(*ast.ValueSpec)
					for i := range vs.Values {
						vs.Values[i] = r.expr(vs.Values[i])
					}
				}
			}
			r.types(d)
		}
		if fd, ok := d.(*ast.FuncDecl); ok {
			r.types(fd.Type)
			if fd.Recv != nil {
				r.types(fd.Recv)
			}
		}
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"sync"` {
			im.Path.Value = `"simrt/sync"`
		}
	}
	stillUsed := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				stillUsed[id.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			im := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "time" || p == "runtime" {
				n := p
				if im.Name != nil {
					n = im.Name.Name
				}
				if !stillUsed[n] {
					im.Name = ast.NewIdent("_")
				}
			}
		}
	}
	if r.used {
		spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"simrt"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		f.Imports = append(f.Imports, spec)
	}
}

// types replaces time.Timer in declarations.
func (r *rw) types(n ast.Node) {
	ast.Inspect(n, func(n ast.Node) bool {
		if f, ok := n.(*ast.Field); ok {
			f.Type = r.pkgSel(f.Type)
			if st, ok := f.Type.(*ast.StarExpr); ok {
				st.X = r.pkgSel(st.X)
			}
		}
		return true
	})
}

func (r *rw) pkgSel(e ast.Expr) ast.Expr {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return e
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return e
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return e
	}
	switch pn.Imported().Path() {
	case "time":
		if timeFuncs[s.Sel.Name] {
			return r.rt(s.Sel.Name)
		}
		switch s.Sel.Name {
		case "NewTicker", "Tick":
			r.note(e, "time."+s.Sel.Name)
		}
	case "runtime":
		if runtimeFuncs[s.Sel.Name] {
			return r.rt(s.Sel.Name)
		}
	case "context":
		switch s.Sel.Name {
		case "WithTimeout", "WithDeadline", "WithCancel":
			r.note(e, "context."+s.Sel.Name)
		}
	}
	return e
}

/* statements */

func (r *rw) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rw) stmts(in []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range in {
		if _, ok := s.(*ast.EmptyStmt); ok {
			continue
		}
		out = append(out, r.yield())
		out = append(out, r.stmt(s, nil)...)
	}
	return out
}

func one(s ast.Stmt) []ast.Stmt { return []ast.Stmt{s} }

func (r *rw) label(l *ast.Ident, s ast.Stmt) ast.Stmt {
	if l == nil {
		return s
	}
	return &ast.LabeledStmt{Label: l, Stmt: s}
}

func (r *rw) loopBody(b *ast.BlockStmt) {
	r.block(b)
	if len(b.List) == 0 {
		b.List = []ast.Stmt{r.yield()}
	}
}

// simple rewrites a statement that must stay a single simple statement (init and post statements).
func (r *rw) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s, nil)
	if len(l) == 1 {
		return l[0]
	}
	die("cannot rewrite the statement at %s in place", r.fset.Position(s.Pos()))
	return nil
}

func (r *rw) stmt(s ast.Stmt, lbl *ast.Ident) []ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		switch s.Stmt.(type) {
		case *ast.ForStmt, *ast.RangeStmt, *ast.SwitchStmt, *ast.TypeSwitchStmt, *ast.SelectStmt:
			return r.stmt(s.Stmt, s.Label)
		}
		inner := r.stmt(s.Stmt, nil)
		inner[0] = &ast.LabeledStmt{Label: s.Label, Stmt: inner[0]}
		return inner
	case *ast.BlockStmt:
		r.block(s)
	case *ast.ExprStmt:
		if c, ok := s.X.(*ast.CallExpr); ok {
			if id, ok := c.Fun.(*ast.Ident); ok && len(c.Args) == 2 {
				if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "delete" {
					mt, _ := r.info.TypeOf(c.Args[0]).Underlying().(*types.Map)
					if mt != nil && r.fits(c.Args[1], mt.Key()) {
						return one(&ast.ExprStmt{X: r.call("MDel", r.expr(c.Args[0]), r.expr(c.Args[1]))})
					}
				}
			}
		}
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		ct := r.info.TypeOf(s.Chan).Underlying().(*types.Chan)
		if r.fits(s.Value, ct.Elem()) {
			return one(&ast.ExprStmt{X: r.call("Send", r.expr(s.Chan), r.expr(s.Value))})
		}
		// let the compiler convert the value
		v := r.name("v")
		fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{}}
		_ = fn
		r.note(s, "send of a value that needs conversion to "+ct.Elem().String()+" "+v.Name)
		s.Chan, s.Value = r.expr(s.Chan), r.expr(s.Value)
	case *ast.IncDecStmt:
		if pure(s.X) && !r.isLocal(s.X) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			if _, isMap := r.mapIndex(s.X); !isMap {
				return one(&ast.AssignStmt{Lhs: []ast.Expr{s.X}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.call("YV", &ast.BinaryExpr{X: clone(s.X), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})}})
			}
		}
		if ix, isMap := r.mapIndex(s.X); isMap && pure(ix.X) && pure(ix.Index) && r.fits(ix.Index, r.info.TypeOf(ix.X).Underlying().(*types.Map).Key()) {
			op := token.ADD
			if s.Tok == token.DEC {
				op = token.SUB
			}
			return one(&ast.ExprStmt{X: r.call("MSet", ix.X, ix.Index, &ast.BinaryExpr{X: r.call("MGet", clone(ix.X), clone(ix.Index)), Op: op, Y: &ast.BasicLit{Kind: token.INT, Value: "1"}})})
		}
		s.X = r.lval(s.X)
	case *ast.AssignStmt:
		return r.assign(s)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		r.deferred = s.Call
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		for i := range s.Results {
			s.Results[i] = r.expr(s.Results[i])
		}
	case *ast.IfStmt:
		s.Init = r.simple(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.stmt(s.Else, nil)[0]
		}
	case *ast.SwitchStmt:
		s.Init = r.simple(s.Init)
		if s.Tag != nil {
			s.Tag = r.expr(s.Tag)
		}
		r.clauses(s.Body)
		return one(r.label(lbl, s))
	case *ast.TypeSwitchStmt:
		s.Init = r.simple(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			a.X.(*ast.TypeAssertExpr).X = r.expr(a.X.(*ast.TypeAssertExpr).X)
		case *ast.AssignStmt:
			ta := a.Rhs[0].(*ast.TypeAssertExpr)
			ta.X = r.expr(ta.X)
		}
		r.clauses(s.Body)
		return one(r.label(lbl, s))
	case *ast.SelectStmt:
		return r.selectStmt(s, lbl)
	case *ast.ForStmt:
		s.Init = r.simple(s.Init)
		if s.Cond != nil {
			s.Cond = r.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = r.simple(s.Post)
		}
		r.loopBody(s.Body)
		return one(r.label(lbl, s))
	case *ast.RangeStmt:
		return r.rangeStmt(s, lbl)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				vs := sp.(*ast.ValueSpec)
				if vs.Type != nil {
					vs.Type = r.pkgSel(vs.Type)
				}
				if len(vs.Names) == 2 && len(vs.Values) == 1 {
					vs.Values[0] = r.commaOk(vs.Values[0])
					continue
				}
				for i := range vs.Values {
					vs.Values[i] = r.expr(vs.Values[i])
				}
			}
		}
	}
	return one(s)
}

func (r *rw) clauses(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for i := range cc.List {
			if tv, ok := r.info.Types[cc.List[i]]; ok && tv.IsType() {
				continue
			}
			cc.List[i] = r.expr(cc.List[i])
		}
		n := len(cc.Body)
		var ft ast.Stmt
		if n > 0 {
			if br, ok := cc.Body[n-1].(*ast.BranchStmt); ok && br.Tok == token.FALLTHROUGH {
				ft = br
				cc.Body = cc.Body[:n-1]
			}
		}
		cc.Body = r.stmts(cc.Body)
		if ft != nil {
			cc.Body = append(cc.Body, ft)
		}
	}
}

// pure reports whether e can be evaluated twice.
func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return e.Name != "_"
	case *ast.BasicLit:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.IndexExpr:
		return pure(e.X) && pure(e.Index)
	}
	return false
}

// clone copies a pure expression (type information is not needed for the copy).
func clone(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.Ident:
		return ast.NewIdent(e.Name)
	case *ast.BasicLit:
		return &ast.BasicLit{Kind: e.Kind, Value: e.Value}
	case *ast.SelectorExpr:
		return &ast.SelectorExpr{X: clone(e.X), Sel: ast.NewIdent(e.Sel.Name)}
	case *ast.ParenExpr:
		return &ast.ParenExpr{X: clone(e.X)}
	case *ast.StarExpr:
		return &ast.StarExpr{X: clone(e.X)}
	case *ast.IndexExpr:
		return &ast.IndexExpr{X: clone(e.X), Index: clone(e.Index)}
	}
	panic("clone")
}

// isLocal reports whether e is a local variable that no closure captures and whose address is not taken:
// nobody else can observe it between evaluation and assignment.
func (r *rw) isLocal(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	o, ok := r.info.ObjectOf(id).(*types.Var)
	return ok && !o.IsField() && o.Parent() != nil && o.Parent() != r.pkg.Scope() && !r.shared[o]
}

func (r *rw) findShared(f *ast.File) {
	r.shared = map[types.Object]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			ast.Inspect(n, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok {
					if o := r.info.Uses[id]; o != nil && (o.Pos() < n.Pos() || o.Pos() >= n.End()) {
						r.shared[o] = true
					}
				}
				return true
			})
		case *ast.UnaryExpr:
			if n.Op == token.AND {
				ast.Inspect(n.X, func(m ast.Node) bool {
					if id, ok := m.(*ast.Ident); ok && r.info.Uses[id] != nil {
						r.shared[r.info.Uses[id]] = true
					}
					return true
				})
			}
		}
		return true
	})
}

func (r *rw) mapIndex(e ast.Expr) (*ast.IndexExpr, bool) {
	ix, ok := e.(*ast.IndexExpr)
	if !ok {
		return nil, false
	}
	tv, ok := r.info.Types[ix.X]
	if !ok || tv.Type == nil || tv.IsType() {
		return nil, false
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return nil, false
	}
	if _, isTP := tv.Type.(*types.TypeParam); isTP {
		return nil, false
	}
	return ix, true
}

// fits reports whether e has exactly type t, or is an untyped constant that converts to a basic t.
func (r *rw) fits(e ast.Expr, t types.Type) bool {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	if types.Identical(tv.Type, t) {
		if tv.Value != nil {
			_, basic := t.Underlying().(*types.Basic)
			return basic
		}
		return !tv.IsNil()
	}
	return false
}

// lval rewrites the operands of an assignable expression, keeping it assignable.
func (r *rw) lval(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.IndexExpr:
		if _, isMap := r.mapIndex(e); isMap {
			e.X, e.Index = r.expr(e.X), r.expr(e.Index)
			return e
		}
		t := r.info.TypeOf(e.X)
		if t != nil {
			if _, isArr := t.Underlying().(*types.Array); isArr {
				e.X = r.lval(e.X)
			} else {
				e.X = r.expr(e.X)
			}
		}
		e.Index = r.expr(e.Index)
		return e
	case *ast.SelectorExpr:
		t := r.info.TypeOf(e.X)
		if t != nil {
			if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
				e.X = r.expr(e.X)
			} else {
				e.X = r.lval(e.X)
			}
		}
		return e
	case *ast.StarExpr:
		e.X = r.expr(e.X)
		return e
	case *ast.ParenExpr:
		e.X = r.lval(e.X)
		return e
	}
	return e
}

func (r *rw) yv(orig ast.Expr, target types.Type, rewritten ast.Expr) ast.Expr {
	tv, ok := r.info.Types[orig]
	if !ok || tv.Type == nil || tv.Value != nil || tv.IsNil() || tv.IsType() {
		return rewritten
	}
	if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
		return rewritten
	}
	if _, ok := tv.Type.(*types.Tuple); ok {
		return rewritten
	}
	if be, ok := orig.(*ast.BinaryExpr); ok {
		switch be.Op {
		case token.EQL, token.NEQ, token.LSS, token.LEQ, token.GTR, token.GEQ, token.SHL, token.SHR:
			return rewritten
		}
	}
	if _, ok := orig.(*ast.FuncLit); ok {
		return rewritten
	}
	if id, ok := orig.(*ast.Ident); ok {
		if _, isFn := r.info.Uses[id].(*types.Func); isFn {
			return rewritten
		}
	}
	return r.call("YV", rewritten)
}

func (r *rw) assign(s *ast.AssignStmt) []ast.Stmt {
	if len(s.Rhs) == 1 && len(s.Lhs) == 2 {
		s.Rhs[0] = r.commaOk(s.Rhs[0])
		for i := range s.Lhs {
			s.Lhs[i] = r.lval(s.Lhs[i])
		}
		return one(s)
	}
	if s.Tok == token.DEFINE || len(s.Lhs) != 1 {
		for i := range s.Rhs {
			s.Rhs[i] = r.expr(s.Rhs[i])
		}
		if s.Tok != token.DEFINE {
			for i := range s.Lhs {
				s.Lhs[i] = r.lval(s.Lhs[i])
			}
		}
		return one(s)
	}
	lhs, rhs := s.Lhs[0], s.Rhs[0]
	if ix, isMap := r.mapIndex(lhs); isMap {
		mt := r.info.TypeOf(ix.X).Underlying().(*types.Map)
		if r.fits(ix.Index, mt.Key()) {
			if s.Tok == token.ASSIGN && r.fits(rhs, mt.Elem()) {
				return one(&ast.ExprStmt{X: r.call("MSet", r.expr(ix.X), r.expr(ix.Index), r.expr(rhs))})
			}
			if op, ok := opOf[s.Tok]; ok && pure(ix.X) && pure(ix.Index) {
				return one(&ast.ExprStmt{X: r.call("MSet", ix.X, ix.Index, &ast.BinaryExpr{X: r.call("MGet", clone(ix.X), clone(ix.Index)), Op: op, Y: &ast.ParenExpr{X: r.expr(rhs)}})})
			}
		}
		s.Lhs[0], s.Rhs[0] = r.lval(lhs), r.expr(rhs)
		return one(s)
	}
	if s.Tok == token.ASSIGN {
		blank := false
		if id, ok := lhs.(*ast.Ident); ok && id.Name == "_" {
			blank = true
		}
		n := r.expr(rhs)
		if !blank && !r.isLocal(lhs) {
			n = r.yv(rhs, r.info.TypeOf(lhs), n)
		}
		s.Lhs[0], s.Rhs[0] = r.lval(lhs), n
		return one(s)
	}
	op, ok := opOf[s.Tok]
	if ok && pure(lhs) && !r.isLocal(lhs) && s.Tok != token.SHL_ASSIGN && s.Tok != token.SHR_ASSIGN {
		return one(&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.call("YV", &ast.BinaryExpr{X: clone(lhs), Op: op, Y: &ast.ParenExpr{X: r.expr(rhs)}})}})
	}
	s.Lhs[0], s.Rhs[0] = r.lval(lhs), r.expr(rhs)
	return one(s)
}

var opOf = map[token.Token]token.Token{
	token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL, token.QUO_ASSIGN: token.QUO,
	token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR, token.XOR_ASSIGN: token.XOR,
	token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT,
}

// commaOk rewrites the right-hand side of v, ok = ...
func (r *rw) commaOk(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return r.commaOk(x.X)
	case *ast.IndexExpr:
		if ix, isMap := r.mapIndex(x); isMap {
			mt := r.info.TypeOf(ix.X).Underlying().(*types.Map)
			if r.fits(ix.Index, mt.Key()) {
				return r.call("MGet2", r.expr(ix.X), r.expr(ix.Index))
			}
			ix.X, ix.Index = r.expr(ix.X), r.expr(ix.Index)
			return ix
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv2", r.expr(x.X))
		}
	}
	return r.expr(e)
}

func (r *rw) goStmt(s *ast.GoStmt) []ast.Stmt {
	c := s.Call
	if id, ok := c.Fun.(*ast.Ident); ok {
		if _, isB := r.info.Uses[id].(*types.Builtin); isB {
			body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: r.expr(c)}}}
			return one(&ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})
		}
	}
	var pre []ast.Stmt
	define := func(e ast.Expr) ast.Expr {
		n := r.name("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{n}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(n.Name)
	}
	fun := c.Fun
	if fl, ok := fun.(*ast.FuncLit); ok && len(c.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.block(fl.Body)
		return one(&ast.ExprStmt{X: r.call("Go", fl)})
	}
	fun = define(r.expr(fun))
	call := &ast.CallExpr{Fun: fun, Ellipsis: c.Ellipsis}
	for _, a := range c.Args {
		tv := r.info.Types[a]
		if tv.Value != nil || tv.IsNil() {
			call.Args = append(call.Args, r.expr(a))
			continue
		}
		if _, isTuple := tv.Type.(*types.Tuple); isTuple {
			r.note(s, "go statement with a multi-value argument: evaluated late")
			call.Args = append(call.Args, r.expr(a))
			continue
		}
		call.Args = append(call.Args, define(r.expr(a)))
	}
	body := &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}
	pre = append(pre, &ast.ExprStmt{X: r.call("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: body})})
	return one(&ast.BlockStmt{List: pre})
}

func (r *rw) selectStmt(s *ast.SelectStmt, lbl *ast.Ident) []ast.Stmt {
	sel := r.name("sel")
	pre := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{sel}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("NewSel")}}}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDefault := "false"
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		var head []ast.Stmt
		val := strconv.Itoa(idx)
		switch x := cc.Comm.(type) {
		case nil:
			hasDefault = "true"
			val = "-1"
			idx--
		case *ast.SendStmt:
			pre = append(pre, &ast.ExprStmt{X: r.call("SSend", ast.NewIdent(sel.Name), r.expr(x.Chan), r.expr(x.Value))})
		case *ast.ExprStmt:
			u := unparen(x.X).(*ast.UnaryExpr)
			pre = append(pre, &ast.ExprStmt{X: r.call("SRecv", ast.NewIdent(sel.Name), r.expr(u.X))})
		case *ast.AssignStmt:
			u := unparen(x.Rhs[0]).(*ast.UnaryExpr)
			cn := r.name("case")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{cn}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("SRecv", ast.NewIdent(sel.Name), r.expr(u.X))}})
			rhs := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(cn.Name), Sel: ast.NewIdent("V")}}
			if len(x.Lhs) == 2 {
				rhs = append(rhs, &ast.SelectorExpr{X: ast.NewIdent(cn.Name), Sel: ast.NewIdent("OK")})
			}
			allBlank := true
			for _, l := range x.Lhs {
				if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
					allBlank = false
				}
			}
			if allBlank {
				x.Tok = token.ASSIGN
			}
			head = append(head, &ast.AssignStmt{Lhs: x.Lhs, Tok: x.Tok, Rhs: rhs})
		}
		idx++
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: val}}, Body: append(head, r.stmts(cc.Body)...)})
	}
	sw.Tag = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(sel.Name), Sel: ast.NewIdent("Wait")}, Args: []ast.Expr{ast.NewIdent(hasDefault)}}
	pre = append(pre, r.label(lbl, sw))
	return one(&ast.BlockStmt{List: pre})
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isBlank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func (r *rw) rangeStmt(s *ast.RangeStmt, lbl *ast.Ident) []ast.Stmt {
	t := r.info.TypeOf(s.X)
	switch u := t.Underlying().(type) {
	case *types.Map:
		m := r.name("m")
		it := r.name("it")
		outer := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}}}
		k, v := s.Key, s.Value
		if k == nil {
			k = ast.NewIdent("_")
		}
		if v == nil {
			v = ast.NewIdent("_")
		}
		meth := func(n string) ast.Expr {
			return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(it.Name), Sel: ast.NewIdent(n)}}
		}
		r.loopBody(s.Body)
		var head []ast.Stmt
		blank := isBlank(k) && isBlank(v)
		if !blank {
			if s.Tok == token.DEFINE && !r.newLoop {
				outer = append(outer, &ast.AssignStmt{Lhs: []ast.Expr{k, v}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("MZero", ast.NewIdent(m.Name))}})
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{cloneId(k), cloneId(v)}, Tok: token.ASSIGN, Rhs: []ast.Expr{meth("KV")}})
			} else {
				head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{k, v}, Tok: s.Tok, Rhs: []ast.Expr{meth("KV")}})
			}
		}
		s.Body.List = append(head, s.Body.List...)
		loop := &ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("MIter", ast.NewIdent(m.Name))}},
			Cond: meth("Next"),
			Body: s.Body,
		}
		outer = append(outer, r.label(lbl, loop))
		return one(&ast.BlockStmt{List: outer})
	case *types.Chan:
		ch := r.name("ch")
		ok := r.name("ok")
		outer := []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(s.X)}}}
		r.loopBody(s.Body)
		v := r.name("v")
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.call("Recv2", ast.NewIdent(ch.Name))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if isBlank(s.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		} else {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		}
		s.Body.List = append(head, s.Body.List...)
		outer = append(outer, r.label(lbl, &ast.ForStmt{Body: s.Body}))
		return one(&ast.BlockStmt{List: outer})
	default:
		_ = u
		s.X = r.expr(s.X)
		r.loopBody(s.Body)
		return one(r.label(lbl, s))
	}
}

func cloneId(e ast.Expr) ast.Expr { return ast.NewIdent(e.(*ast.Ident).Name) }

/* expressions */

// expr rewrites an expression that is only read.
func (r *rw) expr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		r.types(x.Type)
		r.block(x.Body)
		return x
	case *ast.IndexExpr:
		if ix, isMap := r.mapIndex(x); isMap {
			mt := r.info.TypeOf(ix.X).Underlying().(*types.Map)
			if r.fits(ix.Index, mt.Key()) {
				return r.call("MGet", r.expr(ix.X), r.expr(ix.Index))
			}
			ix.X, ix.Index = r.expr(ix.X), r.expr(ix.Index)
			return ix
		}
	case *ast.UnaryExpr:
		if x.Op == token.ARROW {
			return r.call("Recv", r.expr(x.X))
		}
		if x.Op == token.AND {
			if _, isLit := unparen(x.X).(*ast.CompositeLit); !isLit {
				x.X = r.lval(x.X)
				return x
			}
		}
	case *ast.SelectorExpr:
		if n := r.pkgSel(x); n != ast.Expr(x) {
			return n
		}
		if id, ok := x.X.(*ast.Ident); ok {
			if _, isPkg := r.info.Uses[id].(*types.PkgName); isPkg {
				return x
			}
		}
		// a method with a pointer receiver takes the address of its operand
		if t := r.info.TypeOf(x.X); t != nil {
			if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
				if tv := r.info.Types[x.X]; tv.Addressable() {
					x.X = r.lval(x.X)
					return x
				}
			}
		}
	case *ast.SliceExpr:
		if t := r.info.TypeOf(x.X); t != nil {
			if _, isArr := t.Underlying().(*types.Array); isArr {
				x.X = r.lval(x.X)
				x.Low, x.High, x.Max = r.expr(x.Low), r.expr(x.High), r.expr(x.Max)
				return x
			}
		}
	case *ast.CallExpr:
		if id, ok := unparen(x.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" {
				return r.call("Close", r.expr(x.Args[0]))
			}
		}
		if x != r.deferred && r.atomicCall(x) {
			r.children(e)
			return r.call("YA", x)
		}
	}
	r.children(e)
	return e
}

// atomicCall reports whether e calls an operation of sync/atomic that returns one value.
func (r *rw) atomicCall(e *ast.CallExpr) bool {
	var id *ast.Ident
	switch f := unparen(e.Fun).(type) {
	case *ast.SelectorExpr:
		id = f.Sel
	case *ast.Ident:
		id = f
	default:
		return false
	}
	fn, ok := r.info.Uses[id].(*types.Func)
	if !ok || fn.Pkg() == nil || fn.Pkg().Path() != "sync/atomic" {
		return false
	}
	sig, ok := fn.Type().(*types.Signature)
	return ok && sig.Results().Len() == 1
}

var exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()

// children rewrites all direct subexpressions.
func (r *rw) children(e ast.Expr) {
	v := reflect.ValueOf(e)
	if v.Kind() != reflect.Ptr || v.IsNil() {
		return
	}
	v = v.Elem()
	if v.Kind() != reflect.Struct {
		return
	}
	isKV := false
	if _, ok := e.(*ast.KeyValueExpr); ok {
		isKV = true
	}
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		name := v.Type().Field(i).Name
		if f.Type() == exprType {
			if f.IsNil() {
				continue
			}
			sub := f.Interface().(ast.Expr)
			if tv, ok := r.info.Types[sub]; ok && tv.IsType() {
				if st, ok := sub.(*ast.SelectorExpr); ok {
					f.Set(reflect.ValueOf(r.pkgSel(st)))
				}
				continue
			}
			if isKV && name == "Key" {
				if _, isIdent := sub.(*ast.Ident); isIdent {
					continue // field name or plain identifier
				}
			}
			f.Set(reflect.ValueOf(r.expr(sub)))
		} else if f.Kind() == reflect.Slice && f.Type().Elem() == exprType {
			for j := 0; j < f.Len(); j++ {
				sub := f.Index(j).Interface().(ast.Expr)
				if tv, ok := r.info.Types[sub]; ok && tv.IsType() {
					continue
				}
				f.Index(j).Set(reflect.ValueOf(r.expr(sub)))
			}
		}
	}
}
