// Command instr rewrites the non-test Go sources of the repository under test
// into a build directory and emits a `go build -overlay` file that makes the
// compiler use the rewritten copies. The rewriting is purely mechanical and
// preserves sequential semantics:
//
//   - before every statement a scheduling point simrt.Y(site) is inserted
//   - `go f(x)` becomes simrt.Go(func(){ f(x) }) (arguments evaluated first)
//   - import "sync" becomes the simulated drop-in verif/simsync
//   - time.Now, Since and Until read the simulated clock of the machine, which
//     may be set while the monotonic clock goes on
//   - the function given to time.AfterFunc becomes a task when the timer fires
//   - `for k, v := range m` over a map iterates in sorted key order
//   - package variables get a function that initialises them again, so that a
//     simulated process starts with what a real one starts with
//
// Nothing in the repository itself is changed.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	siteID int
	sites  []string
	fset   = token.NewFileSet()
	info   *types.Info
	nTmp   int
)

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	repo := flag.String("repo", "/repo", "repository root")
	as := flag.String("as", "", "path under which the build sees the repository (default: the same)")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		die("missing -out")
	}
	if err := os.MkdirAll(*out, 0o755); err != nil {
		die("%v", err)
	}
	overlay := map[string]string{}
	if *as == "" {
		*as = *repo
	}

	// collect package directories
	var dirs []string
	err := filepath.Walk(*repo, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() {
			name := fi.Name()
			if p != *repo && (strings.HasPrefix(name, ".") || strings.HasPrefix(name, "_") || name == "testdata" || name == "vendor" || name == "oauth2test") {
				return filepath.SkipDir
			}
			dirs = append(dirs, p)
		}
		return nil
	})
	if err != nil {
		die("%v", err)
	}
	sort.Strings(dirs)

	for _, dir := range dirs {
		ents, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		var names []string
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
				continue
			}
			if ok, err := build.Default.MatchFile(dir, n); err != nil || !ok {
				continue
			}
			names = append(names, n)
		}
		if len(names) == 0 {
			continue
		}
		sort.Strings(names)
		instrumentPackage(*repo, *as, dir, names, *out, overlay)
	}

	b, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644); err != nil {
		die("%v", err)
	}
	if err := os.WriteFile(filepath.Join(*out, "sites.txt"), []byte(strings.Join(sites, "\n")+"\n"), 0o644); err != nil {
		die("%v", err)
	}
}

var exports map[string]string

// lookupExport finds compiler export data of dependencies.
func lookupExport(path string) (io.ReadCloser, error) {
	list := func(arg ...string) {
		cmd := exec.Command("go", append([]string{"list", "-e", "-export", "-f", "{{.ImportPath}} {{.Export}}"}, arg...)...)
		out, _ := cmd.Output()
		for _, l := range strings.Split(string(out), "\n") {
			if f := strings.Fields(l); len(f) == 2 {
				exports[f[0]] = f[1]
			}
		}
	}
	if exports == nil {
		exports = map[string]string{}
		list("-deps", "./world")
	}
	if exports[path] == "" {
		list(path)
	}
	if e := exports[path]; e != "" {
		return os.Open(e)
	}
	return nil, fmt.Errorf("no export data for %s", path)
}

func instrumentPackage(repo, as, dir string, names []string, out string, overlay map[string]string) {
	var files []*ast.File
	for _, n := range names {
		// comments are dropped on purpose (they would otherwise move around);
		// compiler directives are re-added below
		f, err := parser.ParseFile(fset, filepath.Join(dir, n), nil, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	// all files must belong to one package
	pkg := files[0].Name.Name
	if pkg == "main" {
		return
	}

	// type check (needed only to recognise ranges over maps)
	info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}}
	bad := 0
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookupExport), Error: func(error) { bad++ }}
	_, _ = conf.Check(pkg, fset, files, info)
	var resets [][]ast.Decl
	if bad == 0 {
		resets = resetVars(files)
	}

	for i, f := range files {
		src := filepath.Join(dir, names[i])
		usesRT := clocks(f)
		if resets != nil && i == len(files)-1 {
			usesRT = true // registers the resets
		}
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Body != nil {
					if instrBlock(d.Body, d.Name.Name, src) {
						usesRT = true
					}
				}
			case *ast.GenDecl:
				ast.Inspect(d, func(n ast.Node) bool {
					if fl, ok := n.(*ast.FuncLit); ok {
						if instrBlock(fl.Body, "init", src) {
							usesRT = true
						}
						return false
					}
					return true
				})
			}
		}
		if resets != nil {
			f.Decls = append(f.Decls, resets[i]...)
		}
		// imports
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			if p == "sync" {
				im.Path.Value = strconv.Quote("verif/simsync")
				if im.Name == nil {
					im.Name = ast.NewIdent("sync")
				}
			}
		}
		if usesRT {
			spec := &ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote("verif/simrt")}}
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		}
		var buf bytes.Buffer
		buf.WriteString("//go:build go1.21\n\n")
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent | printer.SourcePos, Tabwidth: 8}).Fprint(&buf, fset, f); err != nil {
			die("print %s: %v", src, err)
		}
		rel, _ := filepath.Rel(repo, src)
		dst := filepath.Join(out, strings.ReplaceAll(rel, string(filepath.Separator), "__"))
		if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
		overlay[filepath.Join(as, rel)] = dst
	}
}

// resetVars returns, per file, functions that initialise the package variables
// again and then run the init functions again; the last file registers them.
func resetVars(files []*ast.File) [][]ast.Decl {
	decls := make([][]ast.Decl, len(files))
	var calls, first []ast.Stmt
	var inits []*ast.FuncDecl
	n := 0
	add := func(i int, body []ast.Stmt) {
		n++
		name := fmt.Sprintf("simrtReset%d", n)
		decls[i] = append(decls[i], &ast.FuncDecl{Name: ast.NewIdent(name), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: body}})
		calls = append(calls, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(name)}})
	}
	fileOf := map[string]int{}
	for i, f := range files {
		fileOf[fset.Position(f.Pos()).Filename] = i
		for _, d := range f.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" && d.Body != nil {
					inits = append(inits, d)
					d.Name = ast.NewIdent(fmt.Sprintf("simrtInit%d", len(inits)))
				}
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					if len(vs.Values) != 0 {
						continue
					}
					for _, id := range vs.Names {
						if id.Name == "_" {
							continue
						}
						add(i, []ast.Stmt{&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent(id.Name)}, Tok: token.ASSIGN, Rhs: []ast.Expr{
							&ast.StarExpr{X: &ast.CallExpr{Fun: ast.NewIdent("new"), Args: []ast.Expr{vs.Type}}},
						}}})
					}
				}
			}
		}
	}
	for _, in := range info.InitOrder {
		i, ok := fileOf[fset.Position(in.Rhs.Pos()).Filename]
		if !ok {
			continue
		}
		var lhs []ast.Expr
		named := false
		for _, v := range in.Lhs {
			named = named || v.Name() != "_"
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		if named {
			add(i, []ast.Stmt{&ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}}})
		}
	}
	for _, d := range inits {
		first = append(first, &ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent(d.Name.Name)}})
		calls = append(calls, &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("Again")}, Args: []ast.Expr{ast.NewIdent(d.Name.Name)}}})
	}
	if len(calls) == 0 {
		return nil
	}
	last := len(files) - 1
	decls[last] = append(decls[last], &ast.FuncDecl{Name: ast.NewIdent("init"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: append(first, []ast.Stmt{
		&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("Register")}, Args: []ast.Expr{
			&ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: calls}},
		}}},
	}...)}})
	return decls
}

// clocks makes readings of the clock go through the simulated wall clock, and
// wraps the functions given to time.AfterFunc.
func clocks(f *ast.File) bool {
	name := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"time"` {
			name = "time"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	any, needTime, timers := false, false, false
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok && name != "" {
			switch s.Sel.Name {
			case "After", "Tick", "NewTicker", "NewTimer", "Ticker", "Timer":
				if x, ok := s.X.(*ast.Ident); ok && x.Name == name && x.Obj == nil {
					any, timers = true, true
				}
			case "Now", "Since", "Until":
				if x, ok := s.X.(*ast.Ident); ok && x.Name == name && x.Obj == nil {
					any = true
					s.Sel = ast.NewIdent("Clock" + s.Sel.Name)
					s.X = ast.NewIdent("simrt")
					needTime = true
				}
			}
			return true
		}
		c, ok := n.(*ast.CallExpr)
		if !ok || len(c.Args) != 2 || name == "" {
			return true
		}
		if s, ok := c.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "AfterFunc" {
			if x, ok := s.X.(*ast.Ident); ok && x.Name == name && x.Obj == nil {
				any = true
				c.Args[1] = &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("OnTimer")}, Args: []ast.Expr{c.Args[1]}}
			}
		}
		return true
	})
	if timers {
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
			Values: []ast.Expr{&ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("NoClock")}}}}}})
	}
	if needTime {
		// the import may have no other use
		f.Decls = append(f.Decls, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")},
			Type: &ast.SelectorExpr{X: ast.NewIdent(name), Sel: ast.NewIdent("Duration")}}}})
	}
	return any
}

type inst struct {
	fn, file string
	any      bool
}

func instrBlock(b *ast.BlockStmt, fn, file string) bool {
	in := &inst{fn: fn, file: file}
	in.block(b)
	return in.any
}

func (in *inst) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = in.list(b.List)
}

func (in *inst) yield(s ast.Stmt) ast.Stmt {
	pos := fset.Position(s.Pos())
	siteID++
	in.any = true
	sites = append(sites, fmt.Sprintf("%d %s:%d %s", siteID, filepath.Base(in.file), pos.Line, in.fn))
	return &ast.ExprStmt{X: &ast.CallExpr{
		Fun:  &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("Y")},
		Args: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(siteID)}},
	}}
}

func (in *inst) list(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		switch s.(type) {
		case *ast.EmptyStmt:
			out = append(out, s)
			continue
		}
		out = append(out, in.yield(s))
		out = append(out, in.stmt(s)...)
	}
	return out
}

// funcLits instruments function literals nested in expressions of a statement.
func (in *inst) funcLits(n ast.Node) {
	if n == nil {
		return
	}
	ast.Inspect(n, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			in.block(fl.Body)
			return false
		}
		return true
	})
}

func (in *inst) expr(e ast.Expr) {
	if e != nil {
		in.funcLits(e)
	}
}

func (in *inst) simple(s ast.Stmt) {
	if s != nil {
		in.funcLits(s)
	}
}

func (in *inst) stmt(s ast.Stmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		in.block(s)
	case *ast.IfStmt:
		in.simple(s.Init)
		in.expr(s.Cond)
		in.block(s.Body)
		if s.Else != nil {
			r := in.stmt(s.Else)
			s.Else = r[0]
		}
	case *ast.ForStmt:
		in.simple(s.Init)
		in.expr(s.Cond)
		in.simple(s.Post)
		in.block(s.Body)
	case *ast.RangeStmt:
		in.expr(s.X)
		in.block(s.Body)
		return in.rangeStmt(s, nil)
	case *ast.SwitchStmt:
		in.simple(s.Init)
		in.expr(s.Tag)
		in.cases(s.Body)
	case *ast.TypeSwitchStmt:
		in.simple(s.Init)
		in.simple(s.Assign)
		in.cases(s.Body)
	case *ast.SelectStmt:
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			in.simple(cc.Comm)
			cc.Body = in.list(cc.Body)
		}
	case *ast.LabeledStmt:
		if r, ok := s.Stmt.(*ast.RangeStmt); ok {
			in.expr(r.X)
			in.block(r.Body)
			return in.rangeStmt(r, s)
		}
		r := in.stmt(s.Stmt)
		if len(r) == 1 {
			s.Stmt = r[0]
		}
	case *ast.GoStmt:
		in.funcLits(s.Call)
		return []ast.Stmt{in.goStmt(s)}
	default:
		in.simple(s)
	}
	return []ast.Stmt{s}
}

func (in *inst) cases(b *ast.BlockStmt) {
	for _, c := range b.List {
		cc := c.(*ast.CaseClause)
		for _, e := range cc.List {
			in.expr(e)
		}
		cc.Body = in.list(cc.Body)
	}
}

func tmp(p string) *ast.Ident {
	nTmp++
	return ast.NewIdent(fmt.Sprintf("simrt_%s%d", p, nTmp))
}

// goStmt: { f, a1.. := fun, args..; simrt.Go(func(){ f(a1..) }) }
func (in *inst) goStmt(s *ast.GoStmt) ast.Stmt {
	in.any = true
	var pre []ast.Stmt
	call := &ast.CallExpr{Ellipsis: s.Call.Ellipsis}
	bind := func(e ast.Expr) ast.Expr {
		if tv, ok := info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsBuiltin() || tv.IsType()) {
			return e
		}
		if _, ok := e.(*ast.FuncLit); ok {
			return e
		}
		id := tmp("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return id
	}
	call.Fun = bind(s.Call.Fun)
	for _, a := range s.Call.Args {
		call.Args = append(call.Args, bind(a))
	}
	pre = append(pre, &ast.ExprStmt{X: &ast.CallExpr{
		Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("Go")},
		Args: []ast.Expr{&ast.FuncLit{
			Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}},
		}},
	}})
	return &ast.BlockStmt{List: pre}
}

func isBlank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return e == nil || (ok && id.Name == "_")
}

// rangeStmt rewrites a range over a map into a range over its sorted keys with
// a presence check, which is one of the orders the language allows.
func (in *inst) rangeStmt(s *ast.RangeStmt, lbl *ast.LabeledStmt) []ast.Stmt {
	wrap := func(x ast.Stmt) ast.Stmt {
		if lbl != nil {
			lbl.Stmt = x
			return lbl
		}
		return x
	}
	tv, ok := info.Types[s.X]
	if !ok || tv.Type == nil {
		return []ast.Stmt{wrap(s)}
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return []ast.Stmt{wrap(s)}
	}
	in.any = true
	m, k, v, present := tmp("m"), tmp("k"), tmp("v"), tmp("ok")
	asg := &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{s.X}}
	body := []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{v, present}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: m, Index: k}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{v}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: present}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
	}
	if !isBlank(s.Key) {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{k}})
	}
	if !isBlank(s.Value) {
		body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{v}})
	}
	body = append(body, s.Body)
	loop := &ast.RangeStmt{
		Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE,
		X:    &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent("Keys")}, Args: []ast.Expr{m}},
		Body: &ast.BlockStmt{List: body},
	}
	return []ast.Stmt{asg, wrap(loop)}
}
