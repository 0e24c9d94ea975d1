// Command instr rewrites Go packages so that every synchronisation operation,
// clock access, goroutine start and map iteration goes through mc/vrt, and
// writes an overlay for the go tool. It knows nothing about the code it
// rewrites: any package of the module, present or future, is handled alike.
//
// usage: instr -repo /repo -mc /verif/mc -out DIR [-skip regexp]
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"sync"
)

const (
	mod    = "github.com/openconfig/gnmi"
	prefix = mod + "/zz_verif/"
)

var shims = map[string]string{
	"sync":                            "vsync",
	"sync/atomic":                     "vatomic",
	"time":                            "vtime",
	"context":                         "vcontext",
	"golang.org/x/net/context":        "vcontext",
	"github.com/golang/glog":          "vglog",
	"github.com/cenkalti/backoff/v4":  "vbackoff",
	"google.golang.org/grpc":          "vgrpc",
	"math/rand":                       "vrand",
}

// mainShims are replaced in main packages only, which become importable
// packages zz_verif/x/<name> with functions Main and ZZReset.
var mainShims = map[string]string{
	"os":        "vos",
	"os/signal": "vsignal",
	"net":       "vnet",
	"flag":      "vflag",
	"github.com/openconfig/grpctunnel/dialer": "vtdialer",
}

var baseNames = map[string]string{
	"github.com/cenkalti/backoff/v4": "backoff",
}

type listPkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles, CgoFiles             []string
	Module                        *struct{ Path string }
	DepOnly, Standard             bool
	ImportMap                     map[string]string
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(3) }

var mainRE = regexp.MustCompile(`^` + mod + `/cmd/[^/]+$`)

func main() {
	repo := flag.String("repo", "/repo", "")
	mc := flag.String("mc", "/verif/mc", "")
	out := flag.String("out", "", "")
	skip := flag.String("skip", `^(proto/|bazel$|cmd/|testing/fake/(proto|gnmi/cmd|testing)($|/)|zz_verif)`, "packages left alone")
	flag.Parse()
	skipRE := regexp.MustCompile(*skip)
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,CgoFiles,Module,DepOnly,Standard,ImportMap", "./...", "github.com/cenkalti/backoff/v4")
	cmd.Dir = *repo
	var eb bytes.Buffer
	cmd.Stderr = &eb
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v\n%s", err, eb.String())
	}
	exports := map[string]string{}
	var pkgs []listPkg
	dec := json.NewDecoder(bytes.NewReader(b))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		pkgs = append(pkgs, p)
	}
	overlay := map[string]string{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, p := range pkgs {
		isBackoff := p.ImportPath == "github.com/cenkalti/backoff/v4"
		if !isBackoff {
			if p.Module == nil || p.Module.Path != mod || p.Name == "main" && !mainRE.MatchString(p.ImportPath) {
				continue
			}
			rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
			if p.Name != "main" && skipRE.MatchString(rel) {
				continue
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			fset := token.NewFileSet()
			imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				e := exports[path]
				if e == "" {
					return nil, fmt.Errorf("no export data for %q", path)
				}
				return os.Open(e)
			})
			var files []*ast.File
			for _, f := range p.GoFiles {
				af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
				if err != nil {
					die("%v", err)
				}
				files = append(files, af)
			}
			info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
			conf := types.Config{Importer: imp, GoVersion: "go1.23", Error: func(error) {}}
			if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
				die("type check %s: %v", p.ImportPath, err)
			}
			rs := &reset{info: info}
			if p.Name == "main" {
				rs.name = p.ImportPath[strings.LastIndex(p.ImportPath, "/")+1:]
				mu.Lock()
				flags, _ := filepath.Glob(filepath.Join(*mc, "vflag", "*.go"))
				for _, f := range flags {
					overlay[filepath.Join(*repo, "zz_verif/vflag", rs.name, filepath.Base(f))] = f
				}
				mu.Unlock()
			}
			for i, af := range files {
				r := &rewriter{info: info, backoff: isBackoff}
				if p.Name == "main" {
					r.reset, r.last = rs, i == len(files)-1
				}
				src, err := r.file(fset, af)
				if err != nil {
					die("%s: %v", p.GoFiles[i], err)
				}
				rel := strings.TrimPrefix(strings.TrimPrefix(p.ImportPath, mod), "/")
				if isBackoff {
					rel = "zz_verif/vbackoff"
				}
				if p.Name == "main" {
					rel = "zz_verif/x/" + rs.name
				}
				dst := filepath.Join(*out, "src", rel, p.GoFiles[i])
				os.MkdirAll(filepath.Dir(dst), 0o755)
				if old, err := os.ReadFile(dst); err != nil || !bytes.Equal(old, src) {
					if err := os.WriteFile(dst, src, 0o644); err != nil {
						die("%v", err)
					}
				}
				mu.Lock()
				overlay[filepath.Join(*repo, rel, p.GoFiles[i])] = dst
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	filepath.Walk(*mc, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(*mc, path)
		if strings.HasPrefix(rel, "instr/") {
			return nil
		}
		overlay[filepath.Join(*repo, "zz_verif", rel)] = path
		return nil
	})
	j, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), j, 0o644); err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	info    *types.Info
	n       int
	used    bool
	backoff bool
	reset   *reset
	last    bool
}

// reset collects what initialises a main package.
type reset struct {
	info  *types.Info
	name  string
	calls map[*types.Var]string // the function that initialises a variable
	zero  []string              // functions that zero the others
	inits []string
	n     int
}

func (rs *reset) fn(body ...ast.Stmt) (string, *ast.FuncDecl) {
	rs.n++
	n := fmt.Sprintf("zzInit%d", rs.n)
	return n, &ast.FuncDecl{Name: ast.NewIdent(n), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}}
}

// file adds initialisation functions to f, before it is rewritten.
func (rs *reset) file(f *ast.File, last bool) {
	if rs.calls == nil {
		rs.calls = map[*types.Var]string{}
	}
	var add []ast.Decl
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok != token.VAR {
				continue
			}
			for _, sp := range d.Specs {
				vs := sp.(*ast.ValueSpec)
				var lhs []ast.Expr
				for _, n := range vs.Names {
					lhs = append(lhs, ast.NewIdent(n.Name))
				}
				if len(vs.Values) == 0 {
					for i := range vs.Names {
						if vs.Names[i].Name == "_" {
							continue
						}
						n, fd := rs.fn(&ast.AssignStmt{Lhs: lhs[i : i+1], Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{vs.Type}}}}})
						rs.zero = append(rs.zero, n)
						add = append(add, fd)
					}
					continue
				}
				if len(vs.Values) == len(vs.Names) {
					for i, id := range vs.Names {
						n, fd := rs.fn(&ast.AssignStmt{Lhs: lhs[i : i+1], Tok: token.ASSIGN, Rhs: vs.Values[i : i+1]})
						if v, ok := rs.info.Defs[id].(*types.Var); ok {
							rs.calls[v] = n
						}
						add = append(add, fd)
					}
					continue
				}
				n, fd := rs.fn(&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: vs.Values})
				for _, id := range vs.Names {
					if v, ok := rs.info.Defs[id].(*types.Var); ok {
						rs.calls[v] = n
					}
				}
				add = append(add, fd)
			}
		case *ast.FuncDecl:
			if d.Recv != nil {
				continue
			}
			switch d.Name.Name {
			case "main":
				d.Name = ast.NewIdent("Main")
			case "init":
				rs.n++
				n := fmt.Sprintf("zzInit%d", rs.n)
				d.Name = ast.NewIdent(n)
				rs.inits = append(rs.inits, n)
			}
		}
	}
	f.Decls = append(f.Decls, add...)
	if !last {
		return
	}
	call := func(pkg, n string) ast.Stmt {
		var fun ast.Expr = ast.NewIdent(n)
		if pkg != "" {
			fun = &ast.SelectorExpr{X: ast.NewIdent(pkg), Sel: ast.NewIdent(n)}
		}
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: fun}}
	}
	body := []ast.Stmt{call("zzflag", "Restart")}
	for _, n := range rs.zero {
		body = append(body, call("", n))
	}
	done := map[string]bool{}
	for _, in := range rs.info.InitOrder {
		for _, v := range in.Lhs {
			if n := rs.calls[v]; n != "" && !done[n] {
				done[n] = true
				body = append(body, call("", n))
			}
		}
	}
	for _, n := range rs.inits {
		body = append(body, call("", n))
	}
	f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("ZZReset"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
}

func (r *rewriter) file(fset *token.FileSet, f *ast.File) ([]byte, error) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			if d.Tok == token.IMPORT {
				for _, s := range d.Specs {
					is := s.(*ast.ImportSpec)
					p, _ := strconv.Unquote(is.Path.Value)
					v, ok := shims[p]
					if !ok && r.reset != nil {
						if v, ok = mainShims[p]; v == "vflag" {
							v += "/" + r.reset.name
						}
					}
					if !ok || (is.Name != nil && (is.Name.Name == "_" || is.Name.Name == ".")) {
						continue
					}
					if is.Name == nil {
						n := baseNames[p]
						if n == "" {
							n = p[strings.LastIndex(p, "/")+1:]
						}
						is.Name = ast.NewIdent(n)
					}
					is.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(prefix + v)}
				}
			}
			d.Doc = nil
		case *ast.FuncDecl:
			d.Doc = nil
		}
	}
	if r.reset != nil {
		r.reset.file(f, r.last)
		f.Name = ast.NewIdent("xmain")
	}
	for _, d := range f.Decls {
		if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
			continue
		}
		r.walk(reflect.ValueOf(d))
	}
	if r.reset != nil && r.last {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zzflag"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(prefix + "vflag/" + r.reset.name)}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
	}
	f.Comments = nil
	f.Doc = nil
	if r.used {
		imp := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{Name: ast.NewIdent("zzvrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(prefix + "vrt")}}}}
		f.Decls = append([]ast.Decl{imp}, f.Decls...)
	}
	stripComments(reflect.ValueOf(f))
	var buf bytes.Buffer
	if r.backoff {
		f.Name = ast.NewIdent("vbackoff")
	}
	buf.WriteString("//go:build go1.23\n\n")
	// Positions from the original file make the printer keep odd line breaks but
	// nothing else; a fresh FileSet is not needed.
	if err := format.Node(&buf, fset, f); err != nil {
		return nil, err
	}
	return buf.Bytes(), nil
}

func stripComments(v reflect.Value) {
	seen := map[uintptr]bool{}
	var rec func(reflect.Value)
	rec = func(v reflect.Value) {
		switch v.Kind() {
		case reflect.Interface:
			if !v.IsNil() {
				rec(v.Elem())
			}
		case reflect.Pointer:
			if v.IsNil() || seen[v.Pointer()] {
				return
			}
			seen[v.Pointer()] = true
			rec(v.Elem())
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				f := v.Field(i)
				switch f.Interface().(type) {
				case *ast.CommentGroup:
					f.Set(reflect.Zero(f.Type()))
				case *ast.Object, *ast.Scope:
				default:
					rec(f)
				}
			}
		case reflect.Slice:
			for i := 0; i < v.Len(); i++ {
				rec(v.Index(i))
			}
		}
	}
	rec(v)
}

var (
	exprT = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtT = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
)

// walk rewrites everything below v in place.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		switch v.Type() {
		case exprT:
			v.Set(reflect.ValueOf(r.expr(v.Interface().(ast.Expr))))
		case stmtT:
			v.Set(reflect.ValueOf(r.stmt(v.Interface().(ast.Stmt))))
		default:
			r.walk(v.Elem())
		}
	case reflect.Pointer:
		if v.IsNil() {
			return
		}
		switch v.Interface().(type) {
		case *ast.Object, *ast.Scope, *ast.CommentGroup:
			return
		}
		if vs, ok := v.Interface().(*ast.ValueSpec); ok {
			r.valueSpec(vs)
		}
		r.walk(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i))
		}
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	}
}

func (r *rewriter) kids(n ast.Node) { r.walk(reflect.ValueOf(n).Elem()) }

func (r *rewriter) vrt(name string, args ...ast.Expr) *ast.CallExpr {
	r.used = true
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("zzvrt"), Sel: ast.NewIdent(name)}, Args: args}
}

func (r *rewriter) tmp(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", s, r.n))
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isRecv(e ast.Expr) (*ast.UnaryExpr, bool) {
	u, ok := unparen(e).(*ast.UnaryExpr)
	return u, ok && u.Op == token.ARROW
}

func (r *rewriter) under(e ast.Expr) types.Type {
	t := r.info.Types[e].Type
	if t == nil {
		return nil
	}
	if p, ok := t.(*types.TypeParam); ok {
		return core(p.Underlying())
	}
	return t.Underlying()
}

// core is the core type of a constraint, or nil.
func core(t types.Type) types.Type {
	i, ok := t.(*types.Interface)
	if !ok {
		return t
	}
	for k := 0; k < i.NumEmbeddeds(); k++ {
		switch e := i.EmbeddedType(k).(type) {
		case *types.Union:
			if e.Len() > 0 {
				return e.Term(0).Type().Underlying()
			}
		default:
			if c := core(e.Underlying()); c != nil {
				return c
			}
		}
	}
	return nil
}

func (r *rewriter) builtin(e ast.Expr) string {
	if id, ok := unparen(e).(*ast.Ident); ok {
		if b, ok := r.info.Uses[id].(*types.Builtin); ok {
			return b.Name()
		}
	}
	return ""
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.kids(e)
			return r.vrt("Recv", e.X)
		}
	case *ast.CallExpr:
		switch r.builtin(e.Fun) {
		case "close":
			r.kids(e)
			return r.vrt("Close", e.Args[0])
		case "len":
			if _, ok := r.under(e.Args[0]).(*types.Chan); ok {
				r.kids(e)
				return r.vrt("Len", e.Args[0])
			}
		}
	}
	r.kids(e)
	return e
}

func (r *rewriter) valueSpec(vs *ast.ValueSpec) {
	if len(vs.Names) == 2 && len(vs.Values) == 1 {
		if u, ok := isRecv(vs.Values[0]); ok {
			r.walk(reflect.ValueOf(&u.X).Elem())
			vs.Values[0] = r.vrt("Recv2", u.X)
		}
	}
}

// mapKeys wraps keys without natural order in map element assignments.
func (r *rewriter) mapKey(e ast.Expr) {
	ix, ok := unparen(e).(*ast.IndexExpr)
	if !ok {
		return
	}
	m, ok := r.under(ix.X).(*types.Map)
	if !ok {
		return
	}
	switch m.Key().Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Chan:
		if tv := r.info.Types[ix.Index]; tv.Value == nil && !tv.IsNil() {
			ix.Index = r.vrt("Key", ix.Index)
		}
	}
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		switch in := s.Stmt.(type) {
		case *ast.SelectStmt:
			return r.sel(in, s.Label)
		}
	case *ast.SelectStmt:
		return r.sel(s, nil)
	case *ast.SendStmt:
		r.kids(s)
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.vrt("SendOn", s.Chan), Sel: ast.NewIdent("Go")}, Args: []ast.Expr{s.Value}}}
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := isRecv(s.Rhs[0]); ok {
				r.walk(reflect.ValueOf(&u.X).Elem())
				for i := range s.Lhs {
					r.walk(reflect.ValueOf(&s.Lhs[i]).Elem())
				}
				s.Rhs[0] = r.vrt("Recv2", u.X)
				return s
			}
		}
		var keys []ast.Expr
		if s.Tok != token.DEFINE {
			keys = append(keys, s.Lhs...)
		}
		for _, k := range keys {
			r.mapKey(k)
		}
		r.kids(s)
		return s
	case *ast.IncDecStmt:
		r.mapKey(s.X)
	case *ast.DeferStmt:
		// The call of a defer statement is not an expression field.
		c := r.expr(s.Call)
		s.Call = c.(*ast.CallExpr)
		return s
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.RangeStmt:
		switch r.under(s.X).(type) {
		case *types.Chan:
			r.kids(s)
			s.X = r.vrt("Ranger", s.X)
			return s
		case *types.Map:
			r.kids(s)
			s.X = r.vrt("RangeMap", s.X)
			return s
		}
	}
	r.kids(s)
	return s
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	call := s.Call
	if fl, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
		r.kids(call)
		return &ast.ExprStmt{X: r.vrt("Go", call.Fun)}
	}
	var pre []ast.Stmt
	tv := r.info.Types[call.Fun]
	hoistFun := !tv.IsBuiltin()
	switch f := unparen(call.Fun).(type) {
	case *ast.Ident:
		if _, ok := r.info.Uses[f].(*types.Func); ok {
			hoistFun = false
		}
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.PkgName); ok {
				if _, ok := r.info.Uses[f.Sel].(*types.Func); ok {
					hoistFun = false
				}
			}
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		hoistFun = false
	}
	type hoist struct {
		i int
		n int
	}
	var hs []int
	tuple := 0
	if len(call.Args) == 1 {
		if t, ok := r.info.Types[call.Args[0]].Type.(*types.Tuple); ok {
			tuple = t.Len()
		}
	}
	for i, a := range call.Args {
		at := r.info.Types[a]
		if at.Value != nil || at.IsNil() || at.IsType() {
			continue
		}
		hs = append(hs, i)
	}
	if r.builtin(call.Fun) == "close" {
		call.Fun = r.vrt("Close").Fun
	}
	r.kids(call)
	if hoistFun {
		f := r.tmp("f")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{f}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Fun}})
		call.Fun = ast.NewIdent(f.Name)
	}
	if tuple > 1 {
		var l, args []ast.Expr
		for i := 0; i < tuple; i++ {
			v := r.tmp("a")
			l = append(l, v)
			args = append(args, ast.NewIdent(v.Name))
		}
		pre = append(pre, &ast.AssignStmt{Lhs: l, Tok: token.DEFINE, Rhs: []ast.Expr{call.Args[0]}})
		call.Args = args
	} else {
		for _, i := range hs {
			v := r.tmp("a")
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{call.Args[i]}})
			call.Args[i] = ast.NewIdent(v.Name)
		}
	}
	fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	pre = append(pre, &ast.ExprStmt{X: r.vrt("Go", fn)})
	return &ast.BlockStmt{List: pre}
}

func (r *rewriter) sel(s *ast.SelectStmt, label *ast.Ident) ast.Stmt {
	if len(s.Body.List) == 0 {
		return &ast.BlockStmt{List: []ast.Stmt{
			&ast.ExprStmt{X: r.vrt("BlockForever")},
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}},
		}}
	}
	var pre []ast.Stmt
	args := []ast.Expr{ast.NewIdent("false")}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	hasDef := false
	idx := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		out := &ast.CaseClause{}
		var head []ast.Stmt
		if cc.Comm == nil {
			hasDef = true
			args[0] = ast.NewIdent("true")
		} else {
			v := r.tmp("c")
			var mk ast.Expr
			switch m := cc.Comm.(type) {
			case *ast.SendStmt:
				r.kids(m)
				mk = &ast.CallExpr{Fun: &ast.SelectorExpr{X: r.vrt("SendOn", m.Chan), Sel: ast.NewIdent("V")}, Args: []ast.Expr{m.Value}}
			case *ast.ExprStmt:
				u, _ := isRecv(m.X)
				r.walk(reflect.ValueOf(&u.X).Elem())
				mk = r.vrt("CaseRecv", u.X)
			case *ast.AssignStmt:
				u, _ := isRecv(m.Rhs[0])
				r.walk(reflect.ValueOf(&u.X).Elem())
				mk = r.vrt("CaseRecv", u.X)
				if m.Tok != token.DEFINE {
					for _, l := range m.Lhs {
						r.mapKey(l)
					}
				}
				for i := range m.Lhs {
					r.walk(reflect.ValueOf(&m.Lhs[i]).Elem())
				}
				meth := "V"
				if len(m.Lhs) == 2 {
					meth = "Get"
				}
				m.Rhs = []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent(v.Name), Sel: ast.NewIdent(meth)}}}
				head = append(head, m)
			}
			pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{mk}})
			args = append(args, ast.NewIdent(v.Name))
			out.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(idx)}}
			idx++
		}
		for i := range cc.Body {
			r.walk(reflect.ValueOf(&cc.Body[i]).Elem())
		}
		out.Body = append(head, cc.Body...)
		sw.Body.List = append(sw.Body.List, out)
	}
	if !hasDef {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"unreachable"`}}}}}})
	}
	sw.Tag = r.vrt("Select", args...)
	var st ast.Stmt = sw
	if label != nil {
		st = &ast.LabeledStmt{Label: ast.NewIdent(label.Name), Stmt: sw}
	}
	return &ast.BlockStmt{List: append(pre, st)}
}
