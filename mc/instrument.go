package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
)

// The instrumenter makes a copy of the implementation in which goroutines, channels, select and the packages sync
// and sync/atomic are replaced by the controlled ones of verif/mc/vs, maps are ranged over in the order of their keys,
// and every package has a function that sets its variables back to their initial values.

type listed struct {
	ImportPath string
	Dir        string
	Export     string
	Standard   bool
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Imports    []string
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

const repoModule = "github.com/forsyth/jsonpath"

func listPackages() ([]*listed, error) {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,Standard,Name,GoFiles,CgoFiles,Imports", repoModule)
	cmd.Dir = repoDir()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	out, err := cmd.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v: %s", err, eb.String())
	}
	var ps []*listed
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listed)
		if err := dec.Decode(p); err == io.EOF {
			return ps, nil
		} else if err != nil {
			return nil, err
		}
		ps = append(ps, p)
	}
}

// stats of an instrumentation
type instrumented struct {
	Packages, Files, Gos, ChanOps, Selects, SyncImports, MapRanges, Globals int
}

// instrument writes the instrumented module into dir.
func instrument(dir string) (st instrumented, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("instrumenter: %v", r)
		}
	}()
	pkgs, err := listPackages()
	if err != nil {
		return st, err
	}
	fset := token.NewFileSet()
	exports := map[string]string{}
	done := map[string]*types.Package{}
	for _, p := range pkgs {
		exports[p.ImportPath] = p.Export
	}
	std := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		if exports[path] == "" {
			return nil, errors.New("no export data for " + path)
		}
		return os.Open(exports[path])
	})
	imp := importerFunc(func(path string) (*types.Package, error) {
		if p := done[path]; p != nil {
			return p, nil
		}
		return std.Import(path)
	})
	var order []string
	root := repoDir()
	for _, p := range pkgs { // in dependency order
		if p.Standard || p.ImportPath != repoModule && !strings.HasPrefix(p.ImportPath, repoModule+"/") {
			continue
		}
		if len(p.CgoFiles) > 0 {
			return st, errors.New("cgo")
		}
		var files []*ast.File
		for _, f := range p.GoFiles {
			af, err := parser.ParseFile(fset, filepath.Join(p.Dir, f), nil, parser.SkipObjectResolution)
			if err != nil {
				return st, err
			}
			files = append(files, af)
		}
		info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{Importer: imp}
		tp, err := conf.Check(p.ImportPath, fset, files, info)
		if err != nil {
			return st, err
		}
		done[p.ImportPath] = tp
		rw := &rewriter{fset: fset, info: info, pkg: tp, kind: map[ast.Node]int{}, calls: map[ast.Expr]string{}, st: &st}
		rw.globals(files)
		rel, err := filepath.Rel(root, p.Dir)
		if err != nil {
			return st, err
		}
		for i, f := range files {
			rw.file(f)
			var b bytes.Buffer
			if err := printer.Fprint(&b, fset, f); err != nil {
				return st, err
			}
			out := filepath.Join(dir, rel, filepath.Base(p.GoFiles[i]))
			os.MkdirAll(filepath.Dir(out), 0o755)
			if err := os.WriteFile(out, b.Bytes(), 0o644); err != nil {
				return st, err
			}
			st.Files++
		}
		st.Packages++
		var b bytes.Buffer
		fmt.Fprintf(&b, "package %s\n\n// VsReset sets the package's variables back to their initial values.\nfunc VsReset() {\n%s}\n", p.Name, rw.reset.String())
		if err := os.WriteFile(filepath.Join(dir, rel, "vs_reset.go"), b.Bytes(), 0o644); err != nil {
			return st, err
		}
		order = append(order, p.ImportPath)
	}
	mod, err := os.ReadFile(filepath.Join(root, "go.mod"))
	if err != nil {
		return st, err
	}
	if err := os.WriteFile(filepath.Join(dir, "go.mod"), mod, 0o644); err != nil {
		return st, err
	}
	var b bytes.Buffer
	b.WriteString("package vsall\n\nimport (\n")
	for i, p := range order {
		fmt.Fprintf(&b, "\tp%d %q\n", i, p)
	}
	b.WriteString(")\n\nfunc Reset() {\n")
	for i := range order {
		fmt.Fprintf(&b, "\tp%d.VsReset()\n", i)
	}
	b.WriteString("}\n")
	os.MkdirAll(filepath.Join(dir, "vsall"), 0o755)
	return st, os.WriteFile(filepath.Join(dir, "vsall", "all.go"), b.Bytes(), 0o644)
}

type importerFunc func(string) (*types.Package, error)

func (f importerFunc) Import(path string) (*types.Package, error) { return f(path) }

type rewriter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	kind  map[ast.Node]int
	calls map[ast.Expr]string // rewritten receives and sends
	st    *instrumented
	reset bytes.Buffer
	zero  []zeroed
	elem  map[*ast.CallExpr]string
	n     int
	usedN bool // the file uses package vs
}

type zeroed struct {
	f    *ast.File
	name string
}

const (
	rChanRange = 1 + iota
	rMapRange
	rMakeChan
	rClose
	rLen
	rCap
)

func vsName(n string) ast.Expr { return &ast.SelectorExpr{X: ast.NewIdent("vs"), Sel: ast.NewIdent(n)} }

func (r *rewriter) call(n string, args ...ast.Expr) *ast.CallExpr {
	r.usedN = true
	return &ast.CallExpr{Fun: vsName(n), Args: args}
}

func (r *rewriter) fresh(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("vs%s%d", s, r.n))
}

// globals gives each variable an initialising function and calls them in order from VsReset.
func (r *rewriter) globals(files []*ast.File) {
	fileOf := func(pos token.Pos) *ast.File {
		for _, f := range files {
			if f.FileStart <= pos && pos <= f.FileEnd {
				return f
			}
		}
		panic("no file")
	}
	fn := func(f *ast.File, name string, body ...ast.Stmt) {
		f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
		fmt.Fprintf(&r.reset, "\t%s()\n", name)
	}
	var plain []*ast.Ident
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				vs := s.(*ast.ValueSpec)
				for _, n := range vs.Names {
					if n.Name != "_" && len(vs.Values) == 0 {
						plain = append(plain, n)
					}
				}
			}
		}
	}
	for _, n := range plain {
		r.st.Globals++
		r.zero = append(r.zero, zeroed{fileOf(n.Pos()), n.Name})
		fmt.Fprintf(&r.reset, "\tvsZero_%s()\n", n.Name)
	}
	for i, in := range r.info.InitOrder {
		var lhs []ast.Expr
		blank := true
		for _, v := range in.Lhs {
			lhs = append(lhs, ast.NewIdent(v.Name()))
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		r.st.Globals++
		fn(fileOf(in.Rhs.Pos()), fmt.Sprintf("vsInit_%d", i), &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}})
	}
	// init functions
	k := 0
	for _, f := range files {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || fd.Name.Name != "init" {
				continue
			}
			name := fmt.Sprintf("vsInitFunc_%d", k)
			k++
			fd.Name = ast.NewIdent(name)
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}}}}})
			fmt.Fprintf(&r.reset, "\t%s()\n", name)
		}
	}
}

func (r *rewriter) file(f *ast.File) {
	r.usedN = false
	for _, z := range r.zero {
		if z.f == f {
			r.usedN = true
			f.Decls = append(f.Decls, &ast.FuncDecl{Name: ast.NewIdent("vsZero_" + z.name), Type: &ast.FuncType{Params: &ast.FieldList{}},
				Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: vsName("Zero"), Args: []ast.Expr{&ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(z.name)}}}}}}})
		}
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		to := map[string]string{"sync": "verif/mc/vs/vsync", "sync/atomic": "verif/mc/vs/vatomic"}[p]
		if to == "" {
			continue
		}
		r.st.SyncImports++
		if im.Name == nil {
			im.Name = ast.NewIdent(filepath.Base(p))
		}
		im.Path = &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(to)}
	}
	r.walk(reflect.ValueOf(f).Elem())
	if r.usedN {
		spec := &ast.ImportSpec{Name: ast.NewIdent("vs"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/mc/vs"`}}
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

var (
	exprType = reflect.TypeOf((*ast.Expr)(nil)).Elem()
	stmtType = reflect.TypeOf((*ast.Stmt)(nil)).Elem()
	nodeType = reflect.TypeOf((*ast.Node)(nil)).Elem()
)

// walk rewrites everything within v, which is settable: children first.
func (r *rewriter) walk(v reflect.Value) {
	switch v.Kind() {
	case reflect.Interface:
		if v.IsNil() {
			return
		}
		n, ok := v.Interface().(ast.Node)
		if !ok {
			return
		}
		r.node(n)
		if v.Type() == exprType {
			v.Set(reflect.ValueOf(r.expr(n.(ast.Expr))))
		} else if v.Type() == stmtType {
			v.Set(reflect.ValueOf(r.stmt(n.(ast.Stmt))))
		}
	case reflect.Ptr:
		if v.IsNil() || !v.Type().Implements(nodeType) {
			return
		}
		r.node(v.Interface().(ast.Node))
	case reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			r.walk(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			f := v.Field(i)
			switch f.Kind() {
			case reflect.Interface, reflect.Ptr, reflect.Slice:
				if v.Type().Field(i).Name == "Obj" || v.Type().Field(i).Name == "Scope" || v.Type().Field(i).Name == "Unresolved" || v.Type().Field(i).Name == "Imports" || v.Type().Field(i).Name == "Comments" {
					continue
				}
				r.walk(f)
			}
		}
	}
}

func (r *rewriter) node(n ast.Node) {
	r.before(n)
	r.walk(reflect.ValueOf(n).Elem())
	switch n := n.(type) {
	case *ast.DeferStmt:
		n.Call = r.expr(n.Call).(*ast.CallExpr)
	case *ast.GoStmt:
		n.Call = r.expr(n.Call).(*ast.CallExpr)
	case *ast.AssignStmt:
		if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
			r.two(n.Rhs[0])
		}
	case *ast.ValueSpec:
		if len(n.Names) == 2 && len(n.Values) == 1 {
			r.two(n.Values[0])
		}
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// two makes a receive one that also tells whether the channel was closed.
func (r *rewriter) two(e ast.Expr) {
	e = unparen(e)
	if r.calls[e] == "Recv" {
		e.(*ast.CallExpr).Fun = vsName("Recv2")
		r.calls[e] = "Recv2"
	}
}

func (r *rewriter) typeOf(e ast.Expr) types.Type {
	if t, ok := r.info.Types[e]; ok && t.Type != nil {
		return t.Type.Underlying()
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type().Underlying()
		}
	}
	return nil
}

// before notes what needs the types of the original nodes.
func (r *rewriter) before(n ast.Node) {
	switch n := n.(type) {
	case *ast.RangeStmt:
		switch r.typeOf(n.X).(type) {
		case *types.Chan:
			r.kind[n] = rChanRange
		case *types.Map:
			r.kind[n] = rMapRange
		}
	case *ast.CallExpr:
		id, ok := unparen(n.Fun).(*ast.Ident)
		if !ok {
			return
		}
		if _, ok := r.info.Uses[id].(*types.Builtin); !ok || len(n.Args) == 0 {
			return
		}
		_, isChan := r.typeOf(n.Args[0]).(*types.Chan)
		if !isChan {
			return
		}
		switch id.Name {
		case "make":
			r.kind[n] = rMakeChan
			if _, ok := n.Args[0].(*ast.ChanType); !ok {
				r.elem = map[*ast.CallExpr]string{n: types.TypeString(r.typeOf(n.Args[0]).(*types.Chan).Elem(), func(p *types.Package) string {
					if p == r.pkg {
						return ""
					}
					return p.Name()
				})}
			}
		case "close":
			r.kind[n] = rClose
		case "len":
			r.kind[n] = rLen
		case "cap":
			r.kind[n] = rCap
		}
	case *ast.GoStmt:
		for _, a := range n.Call.Args {
			tv := r.info.Types[a]
			if tv.Value != nil || tv.IsNil() {
				r.kind[a] = 1 // constant
			}
			if _, ok := tv.Type.(*types.Tuple); ok {
				panic("go with a tuple")
			}
		}
		if id, ok := unparen(n.Call.Fun).(*ast.Ident); ok {
			if _, ok := r.info.Uses[id].(*types.Builtin); ok {
				r.kind[n] = 2
			}
		}
	}
}

func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case *ast.ChanType:
		r.usedN = true
		return &ast.StarExpr{X: &ast.IndexExpr{X: vsName("Chan"), Index: e.Value}}
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			r.st.ChanOps++
			c := r.call("Recv", e.X)
			r.calls[c] = "Recv"
			return c
		}
	case *ast.CallExpr:
		switch r.kind[e] {
		case rMakeChan:
			r.st.ChanOps++
			r.usedN = true
			var n ast.Expr = &ast.BasicLit{Kind: token.INT, Value: "0"}
			if len(e.Args) > 1 {
				n = &ast.CallExpr{Fun: ast.NewIdent("int"), Args: []ast.Expr{e.Args[1]}}
			}
			if st, ok := e.Args[0].(*ast.StarExpr); ok {
				if ix, ok := st.X.(*ast.IndexExpr); ok {
					return &ast.CallExpr{Fun: &ast.IndexExpr{X: vsName("Make"), Index: ix.Index}, Args: []ast.Expr{n}}
				}
			}
			t, err := parser.ParseExpr(r.elem[e])
			if err != nil {
				panic(err)
			}
			return &ast.CallExpr{Fun: e.Args[0], Args: []ast.Expr{&ast.CallExpr{Fun: &ast.IndexExpr{X: vsName("Make"), Index: t}, Args: []ast.Expr{n}}}}
		case rClose:
			r.st.ChanOps++
			return r.call("Close", e.Args[0])
		case rLen:
			return r.call("Len", e.Args[0])
		case rCap:
			return r.call("Cap", e.Args[0])
		}
	}
	return e
}

func define(lhs []ast.Expr, rhs ...ast.Expr) ast.Stmt {
	return &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
}

func (r *rewriter) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.SendStmt:
		r.st.ChanOps++
		c := r.call("Send", s.Chan, s.Value)
		r.calls[c] = "Send"
		return &ast.ExprStmt{X: c}
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.LabeledStmt:
		// the label belongs on the loop or switch within the block that replaced it
		if b, ok := s.Stmt.(*ast.BlockStmt); ok && r.kind[b] == 3 {
			last := len(b.List) - 1
			s.Stmt = b.List[last]
			b.List[last] = s
			return b
		}
	}
	return s
}

func (r *rewriter) goStmt(s *ast.GoStmt) ast.Stmt {
	r.st.Gos++
	r.usedN = true
	call := s.Call
	var pre []ast.Stmt
	if r.kind[s] != 2 {
		if _, lit := unparen(call.Fun).(*ast.FuncLit); !lit {
			f := r.fresh("F")
			pre = append(pre, define([]ast.Expr{f}, call.Fun))
			call.Fun = f
		}
	}
	for i, a := range call.Args {
		if r.kind[a] == 1 {
			continue
		}
		v := r.fresh("A")
		pre = append(pre, define([]ast.Expr{v}, a))
		call.Args[i] = v
	}
	body := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: r.call("Go", body)})}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	switch r.kind[s] {
	case rChanRange:
		r.st.ChanOps++
		c, ok := r.fresh("C"), r.fresh("Ok")
		var v ast.Expr = s.Key
		if v == nil {
			v = ast.NewIdent("_")
		}
		if s.Tok == token.ASSIGN {
			// for v = range c
			t := r.fresh("V")
			body := append([]ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.ASSIGN, Rhs: []ast.Expr{t}}}, s.Body.List...)
			v = t
			s.Body = &ast.BlockStmt{List: body}
		}
		f := &ast.ForStmt{
			Init: define([]ast.Expr{c, v, ok}, r.call("Range", s.X)),
			Cond: ok,
			Post: &ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.ASSIGN, Rhs: []ast.Expr{r.call("Recv2", c)}},
			Body: s.Body,
		}
		return f
	case rMapRange:
		if s.Tok == token.ASSIGN && (s.Key != nil || s.Value != nil) {
			return s
		}
		r.st.MapRanges++
		m, k := r.fresh("M"), r.fresh("K")
		ok := r.fresh("Ok")
		var v ast.Expr = ast.NewIdent("_")
		if s.Value != nil {
			v = s.Value
		}
		get := define([]ast.Expr{v, ok}, &ast.IndexExpr{X: m, Index: k})
		skip := &ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}}
		list := []ast.Stmt{get, skip}
		if key, isID := s.Key.(*ast.Ident); s.Key != nil && !(isID && key.Name == "_") {
			list = append(list, define([]ast.Expr{s.Key}, k))
		}
		loop := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE, X: r.call("Sorted", m), Body: &ast.BlockStmt{List: append(list, &ast.BlockStmt{List: s.Body.List})}}
		b := &ast.BlockStmt{List: []ast.Stmt{define([]ast.Expr{m}, s.X), loop}}
		r.kind[b] = 3
		return b
	}
	return s
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) ast.Stmt {
	r.st.Selects++
	r.usedN = true
	var pre []ast.Stmt
	var cases []ast.Expr
	hasDef := false
	i, got := r.fresh("I"), r.fresh("R")
	sw := &ast.SwitchStmt{Tag: i, Body: &ast.BlockStmt{}}
	n := 0
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: cc.Body})
			continue
		}
		ch := r.fresh("C")
		var first ast.Stmt
		comm := func(e ast.Expr) *ast.CallExpr { return unparen(e).(*ast.CallExpr) }
		switch cm := cc.Comm.(type) {
		case *ast.ExprStmt:
			cl := comm(cm.X)
			pre = append(pre, define([]ast.Expr{ch}, cl.Args[0]))
			if r.calls[cl] == "Send" {
				cases = append(cases, r.call("SendCase", ch, cl.Args[1]))
			} else {
				cases = append(cases, r.call("RecvCase", ch))
			}
		case *ast.AssignStmt:
			cl := comm(cm.Rhs[0])
			pre = append(pre, define([]ast.Expr{ch}, cl.Args[0]))
			cases = append(cases, r.call("RecvCase", ch))
			fn := "Val"
			if len(cm.Lhs) == 2 {
				fn = "Val2"
			}
			first = &ast.AssignStmt{Lhs: cm.Lhs, Tok: cm.Tok, Rhs: []ast.Expr{r.call(fn, ch, got)}}
		default:
			panic("select case")
		}
		body := cc.Body
		if first != nil {
			body = append([]ast.Stmt{first}, body...)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: body})
		n++
	}
	def := "false"
	if hasDef {
		def = "true"
	} else {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"select"`}}}}}})
	}
	pre = append(pre, define([]ast.Expr{i, got}, r.call("Select", append([]ast.Expr{ast.NewIdent(def)}, cases...)...)))
	pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{got}})
	b := &ast.BlockStmt{List: append(pre, sw)}
	r.kind[b] = 3
	return b
}
