// Command instrument rewrites copies of the packages of a module: file operations, the clock, the order
// of map iteration, and everything goroutines synchronise with go through the packages in zz_verif/shim.
// It writes the copies and an overlay file, the module itself stays as it is.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

const shim = "verif.local/shim/"

var osFuncs = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Open OpenFile Create CreateTemp MkdirTemp Mkdir MkdirAll Remove RemoveAll Rename Link Symlink Readlink Stat Lstat ReadFile WriteFile ReadDir Chmod Chown Lchown Chtimes Truncate") {
		osFuncs[n] = true
	}
}

type pkgJSON struct {
	ImportPath, Dir, Export string
	GoFiles                 []string
	Standard                bool
	Module                  *struct{ Path string }
	Error                   *struct{ Err string }
}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", a...)
	os.Exit(1)
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	modes := flag.String("modes", "os,map,sched,time", "")
	shimDir := flag.String("shim", "", "directory of the shim module")
	gocmd := flag.String("go", "go", "go command")
	flag.Parse()
	mode := map[string]bool{}
	for _, m := range strings.Split(*modes, ",") {
		mode[m] = true
	}
	if mode["all"] {
		mode["os"], mode["map"], mode["sched"], mode["time"] = true, true, true, true
	}
	cmd := exec.Command(*gocmd, "list", "-buildvcs=false", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Module,Error", "./pkg/...", "./internal/...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var pkgs []pkgJSON
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p pkgJSON
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		if p.Error != nil {
			die("go list: %s", p.Error.Err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && strings.HasPrefix(p.Dir, *repo+string(filepath.Separator)) {
			pkgs = append(pkgs, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	repl := map[string]string{}
	counts := map[string]int{}
	for _, p := range pkgs {
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.ParseComments)
			if err != nil {
				die("%v", err)
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp}
		if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
			die("type check: %v", err)
		}
		for i, af := range files {
			r := &rewriter{fset: fset, info: info, mode: mode, need: map[string]bool{}, counts: counts}
			if !r.file(af) {
				continue
			}
			var buf bytes.Buffer
			if err := format.Node(&buf, fset, af); err != nil {
				die("%s: %v", p.GoFiles[i], err)
			}
			dst := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(p.Dir, *repo+"/"), "/", "__")+"__"+p.GoFiles[i])
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				die("%v", err)
			}
			repl[filepath.Join(p.Dir, p.GoFiles[i])] = dst
		}
	}
	on := filepath.Join(*out, "on.go")
	if err := os.WriteFile(on, []byte("package vctx\n\nfunc init() { Instrumented = true }\n"), 0o644); err != nil {
		die("%v", err)
	}
	repl[filepath.Join(*shimDir, "vctx/on.go")] = on
	j, _ := json.Marshal(map[string]any{"Replace": repl, "Counts": counts})
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	fset   *token.FileSet
	info   *types.Info
	mode   map[string]bool
	need   map[string]bool // shim packages
	counts map[string]int
	n      int
}

func (r *rewriter) use(pkg, name string) *ast.SelectorExpr {
	r.need[pkg] = true
	return &ast.SelectorExpr{X: ast.NewIdent("zz" + pkg), Sel: ast.NewIdent(name)}
}

func (r *rewriter) tmp() *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zzv%d", r.n))
}

// pkgOf gives the import path if e is pkg.Name.
func (r *rewriter) pkgOf(e ast.Expr) (string, string) {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return "", ""
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return "", ""
	}
	pn, ok := r.info.Uses[id].(*types.PkgName)
	if !ok {
		return "", ""
	}
	return pn.Imported().Path(), s.Sel.Name
}

func (r *rewriter) count(k string) { r.counts[k]++ }

func (r *rewriter) file(f *ast.File) bool {
	// keep only comments that are directives
	var keep []*ast.CommentGroup
	for _, g := range f.Comments {
		for _, c := range g.List {
			if strings.HasPrefix(c.Text, "//go:") && c.Pos() < f.Package {
				keep = append(keep, &ast.CommentGroup{List: []*ast.Comment{c}})
			} else if strings.HasPrefix(c.Text, "//go:") || strings.HasPrefix(c.Text, "//export") {
				return false // do not risk it
			}
		}
	}
	for _, im := range f.Imports {
		if im.Path.Value == `"C"` {
			return false
		}
	}
	f.Comments = keep
	f.Doc = nil
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncDecl:
			n.Doc = nil
		case *ast.GenDecl:
			n.Doc = nil
		case *ast.Field:
			n.Doc, n.Comment = nil, nil
		case *ast.ValueSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.TypeSpec:
			n.Doc, n.Comment = nil, nil
		case *ast.ImportSpec:
			n.Doc, n.Comment = nil, nil
		}
		return true
	})
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		walk(d, r.expr, r.stmt)
	}
	if len(r.need) == 0 {
		return false
	}
	// imports that are still used
	used := map[types.Object]bool{}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		ast.Inspect(d, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
					used[pn] = true
				}
			}
			return true
		})
	}
	usedPaths := map[string]bool{}
	for o := range used {
		usedPaths[o.(*types.PkgName).Imported().Path()] = true
	}
	var decls []ast.Decl
	add := &ast.GenDecl{Tok: token.IMPORT, Lparen: 1}
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			decls = append(decls, d)
			continue
		}
		for _, s := range g.Specs {
			im := s.(*ast.ImportSpec)
			path := strings.Trim(im.Path.Value, `"`)
			if (im.Name != nil && (im.Name.Name == "_" || im.Name.Name == ".")) || usedPaths[path] {
				add.Specs = append(add.Specs, &ast.ImportSpec{Name: im.Name, Path: &ast.BasicLit{Kind: token.STRING, Value: im.Path.Value}})
			}
		}
	}
	for p := range r.need {
		add.Specs = append(add.Specs, &ast.ImportSpec{Name: ast.NewIdent("zz" + p), Path: &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", shim+p)}})
	}
	f.Decls = append([]ast.Decl{add}, decls...)
	return true
}

func (r *rewriter) chanType(e ast.Expr) *types.Chan {
	tv, ok := r.info.Types[e]
	if !ok || tv.Type == nil {
		return nil
	}
	c, _ := tv.Type.Underlying().(*types.Chan)
	return c
}

// fileMethods are the methods of an open file that can fail on their own.
var fileMethods = map[string]bool{"Chmod": true, "Stat": true, "Seek": true, "Sync": true, "Truncate": true}

// onFile says that e is a method of an *os.File.
func (r *rewriter) onFile(e *ast.SelectorExpr) bool {
	s := r.info.Selections[e]
	return s != nil && s.Kind() == types.MethodVal && s.Recv().String() == "*os.File"
}

// expr replaces an expression whose parts have been replaced already.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.SelectorExpr:
		path, name := r.pkgOf(e)
		switch {
		case path == "os" && r.mode["os"] && osFuncs[name]:
			r.count("os")
			return r.use("vos", name)
		case r.mode["os"] && fileMethods[e.Sel.Name] && r.onFile(e):
			r.count("os")
			return &ast.CallExpr{Fun: r.use("vos", "File"+e.Sel.Name), Args: []ast.Expr{e.X}}
		case path == "time" && r.mode["time"] && (name == "Now" || name == "Since"):
			r.count("time")
			return r.use("vtime", name)
		case path == "sync" && r.mode["sched"]:
			r.count("sync")
			return r.use("vsync", name)
		case path == "golang.org/x/sync/errgroup" && r.mode["sched"]:
			r.count("errgroup")
			return r.use("verrgroup", name)
		case path == "golang.org/x/exp/maps" && r.mode["map"] && (name == "Keys" || name == "Values"):
			r.count("map")
			return r.use("vmap", name)
		case path == "maps" && r.mode["map"] && (name == "Keys" || name == "Values" || name == "All"):
			r.count("map")
			return r.use("vmap", "Seq"+name)
		}
	case *ast.UnaryExpr:
		if e.Op == token.ARROW && r.mode["sched"] {
			if c := r.chanType(e.X); c != nil {
				r.count("chan")
				return &ast.CallExpr{Fun: r.use("vsched", "Recv"), Args: []ast.Expr{e.X}}
			}
		}
	case *ast.CallExpr:
		if id, ok := e.Fun.(*ast.Ident); ok && id.Name == "close" && len(e.Args) == 1 && r.mode["sched"] {
			if _, ok := r.info.Uses[id].(*types.Builtin); ok {
				r.count("chan")
				e.Fun = r.use("vsched", "Close")
			}
		}
	}
	return e
}

func recvOf(e ast.Expr) *ast.CallExpr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			break
		}
		e = p.X
	}
	c, ok := e.(*ast.CallExpr)
	if !ok {
		return nil
	}
	s, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || s.Sel.Name != "Recv" {
		return nil
	}
	if id, ok := s.X.(*ast.Ident); !ok || id.Name != "zzvsched" {
		return nil
	}
	return c
}

// stmt replaces a statement whose parts have been replaced already.
func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if c := recvOf(s.Rhs[0]); c != nil {
				c.Fun.(*ast.SelectorExpr).Sel.Name = "Recv2"
			}
		}
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			for _, sp := range g.Specs {
				if v, ok := sp.(*ast.ValueSpec); ok && len(v.Names) == 2 && len(v.Values) == 1 {
					if c := recvOf(v.Values[0]); c != nil {
						c.Fun.(*ast.SelectorExpr).Sel.Name = "Recv2"
					}
				}
			}
		}
	case *ast.SendStmt:
		if r.mode["sched"] {
			r.count("chan")
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.use("vsched", "Send"), Args: []ast.Expr{s.Chan, s.Value}}}
		}
	case *ast.GoStmt:
		if r.mode["sched"] {
			r.count("go")
			return r.goStmt(s)
		}
	case *ast.SelectStmt:
		if r.mode["sched"] {
			r.count("select")
			return r.selectStmt(s)
		}
	case *ast.RangeStmt:
		tv, ok := r.info.Types[s.X]
		if !ok || tv.Type == nil {
			return s
		}
		switch t := tv.Type.Underlying().(type) {
		case *types.Map:
			if r.mode["map"] {
				r.count("map")
				return r.rangeMap(s)
			}
		case *types.Chan:
			if r.mode["sched"] {
				_ = t
				r.count("chan")
				return r.rangeChan(s)
			}
		}
	}
	return s
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || ok && id.Name == "_"
}

func sel(x ast.Expr, name string) ast.Expr { return &ast.SelectorExpr{X: x, Sel: ast.NewIdent(name)} }

func (r *rewriter) rangeMap(s *ast.RangeStmt) ast.Stmt {
	it := r.tmp()
	f := &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{it}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: r.use("vmap", "Iter"), Args: []ast.Expr{s.X}}}},
		Cond: &ast.CallExpr{Fun: sel(ast.NewIdent(it.Name), "Next")},
		Body: s.Body,
	}
	a := &ast.AssignStmt{Tok: s.Tok}
	if !blank(s.Key) {
		a.Lhs, a.Rhs = append(a.Lhs, s.Key), append(a.Rhs, sel(ast.NewIdent(it.Name), "K"))
	}
	if !blank(s.Value) {
		a.Lhs, a.Rhs = append(a.Lhs, s.Value), append(a.Rhs, sel(ast.NewIdent(it.Name), "V"))
	}
	if len(a.Lhs) > 0 {
		f.Body = &ast.BlockStmt{List: append([]ast.Stmt{a}, s.Body.List...)}
	}
	return f
}

func (r *rewriter) rangeChan(s *ast.RangeStmt) ast.Stmt {
	ch, v, ok := r.tmp(), r.tmp(), r.tmp()
	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.CallExpr{Fun: r.use("vsched", "Recv2"), Args: []ast.Expr{ast.NewIdent(ch.Name)}}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}},
	}
	if !blank(s.Key) {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
	}
	return &ast.ForStmt{
		Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}},
		Body: &ast.BlockStmt{List: append(body, s.Body.List...)},
	}
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	if fl, ok := s.Call.Fun.(*ast.FuncLit); ok && len(s.Call.Args) == 0 {
		if fl.Type.Results == nil || len(fl.Type.Results.List) == 0 {
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: r.use("vsched", "Go"), Args: []ast.Expr{fl}}}
		}
	}
	// the function and its arguments are evaluated now
	b := &ast.BlockStmt{}
	call := &ast.CallExpr{Fun: s.Call.Fun, Ellipsis: s.Call.Ellipsis}
	bind := func(e ast.Expr) ast.Expr {
		if tv, ok := r.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
			return e
		}
		if _, ok := e.(*ast.BasicLit); ok {
			return e
		}
		v := r.tmp()
		b.List = append(b.List, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return ast.NewIdent(v.Name)
	}
	if id, ok := call.Fun.(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Var); ok {
			call.Fun = bind(call.Fun)
		}
	} else if _, ok := call.Fun.(*ast.FuncLit); ok {
		call.Fun = bind(call.Fun)
	} else if se, ok := call.Fun.(*ast.SelectorExpr); ok {
		if p, _ := r.pkgOf(se); p == "" {
			if id, ok := se.X.(*ast.Ident); !ok || !strings.HasPrefix(id.Name, "zzv") {
				call.Fun = bind(call.Fun)
			}
		}
	}
	for _, a := range s.Call.Args {
		call.Args = append(call.Args, bind(a))
	}
	b.List = append(b.List, &ast.ExprStmt{X: &ast.CallExpr{Fun: r.use("vsched", "Go"), Args: []ast.Expr{
		&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}}}})
	return b
}

// selectStmt makes a switch on the number of the case that can go on.
func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	init := &ast.AssignStmt{Tok: token.DEFINE}
	call := &ast.CallExpr{Fun: r.use("vsched", "Select")}
	def := "false"
	k := 0
	for _, cl := range s.Body.List {
		c := cl.(*ast.CommClause)
		if c.Comm == nil {
			def = "true"
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: c.Body})
			continue
		}
		v := r.tmp()
		body := c.Body
		var rhs ast.Expr
		switch m := c.Comm.(type) {
		case *ast.ExprStmt:
			if rc := recvOf(m.X); rc != nil {
				rhs = &ast.CallExpr{Fun: r.use("vsched", "RecvCase"), Args: rc.Args}
			} else { // a send that was replaced already
				rhs = &ast.CallExpr{Fun: r.use("vsched", "SendCase"), Args: m.X.(*ast.CallExpr).Args}
			}
		case *ast.AssignStmt:
			call := m.Rhs[0].(*ast.CallExpr)
			rhs = &ast.CallExpr{Fun: r.use("vsched", "RecvCase"), Args: call.Args}
			vals := []ast.Expr{sel(ast.NewIdent(v.Name), "Val"), sel(ast.NewIdent(v.Name), "Ok")}
			all := true
			for _, l := range m.Lhs {
				all = all && blank(l)
			}
			tok := m.Tok
			if all {
				tok = token.ASSIGN
			}
			body = append([]ast.Stmt{&ast.AssignStmt{Lhs: m.Lhs, Tok: tok, Rhs: vals[:len(m.Lhs)]}}, body...)
		}
		init.Lhs, init.Rhs = append(init.Lhs, v), append(init.Rhs, rhs)
		call.Args = append(call.Args, ast.NewIdent(v.Name))
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(k)}}, Body: body})
		k++
	}
	if def == "false" { // like the select, the switch does not end by itself
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"no case"`}}}}}})
	}
	call.Args = append([]ast.Expr{ast.NewIdent(def)}, call.Args...)
	if len(init.Lhs) > 0 {
		sw.Init = init
	}
	sw.Tag = call
	return sw
}
