// Command instr instruments a Go package for the simulator: it puts a yield
// point before every statement and redirects map iteration, locks, pools,
// atomics, goroutines and channel operations to the simulator. The result is
// written to a scratch directory together with an overlay file for go build;
// the package's own directory is left alone.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
)

var (
	fset  = token.NewFileSet()
	info  *types.Info
	level int
	sites []string
)

type pkgInfo struct {
	Dir        string
	ImportPath string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Error      *struct{ Err string }
	Module     *struct{ GoVersion string }
}

var minorRx, buildRx = regexp.MustCompile(`^1\.(\d+)`), regexp.MustCompile(`(?m)^//\s*(?:go:build|\+build)\b.*\bgo1\.(\d+)`)

// language is the version of the language a file is written in, 1.21 at least.
func (p *pkgInfo) language(src []byte) string {
	v := 21
	if p.Module != nil {
		if m := minorRx.FindStringSubmatch(p.Module.GoVersion); m != nil {
			if n, _ := strconv.Atoi(m[1]); n > v {
				v = n
			}
		}
	}
	if i := bytes.Index(src, []byte("\npackage ")); i >= 0 {
		if m := buildRx.FindSubmatch(src[:i]); m != nil {
			if n, _ := strconv.Atoi(string(m[1])); n > v {
				v = n
			}
		}
	}
	return fmt.Sprintf("//go:build go1.%d\n\n", v)
}

func main() {
	dir := flag.String("C", ".", "module to run go list in")
	pkg := flag.String("pkg", "", "package to instrument")
	tags := flag.String("tags", "", "build tags")
	out := flag.String("o", "", "output directory")
	flag.IntVar(&level, "level", 2, "2: everything, 1: yield points only, 0: nothing")
	flag.Parse()
	if err := run(*dir, *pkg, *tags, *out); err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func run(dir, pkg, tags, out string) error {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-tags", tags, "-json=Dir,ImportPath,GoFiles,CgoFiles,Export,Error,Module", pkg)
	cmd.Dir = dir
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		return fmt.Errorf("go list: %v", err)
	}
	exports := map[string]string{}
	var targets []*pkgInfo // the package and what lies below it
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			return err
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == pkg || strings.HasPrefix(p.ImportPath, pkg+"/") {
			q := p
			targets = append(targets, &q)
		}
	}
	if len(targets) == 0 {
		return fmt.Errorf("package %s not found", pkg)
	}
	if err := os.MkdirAll(out, 0o755); err != nil {
		return err
	}
	overlay := struct{ Replace map[string]string }{map[string]string{}}
	for ti, target := range targets {
		if level == 0 {
			break
		}
		var files []*ast.File
		var names []string
		var srcs [][]byte
		for _, f := range target.GoFiles {
			path := filepath.Join(target.Dir, f)
			src, err := os.ReadFile(path)
			if err != nil {
				return err
			}
			file, err := parser.ParseFile(fset, path, src, parser.SkipObjectResolution)
			if err != nil {
				return err
			}
			files, srcs = append(files, file), append(srcs, src)
			if bytes.Contains(src, []byte("//go:embed")) || bytes.Contains(src, []byte("//go:linkname")) {
				names = append(names, "")
				continue
			}
			names = append(names, path)
		}
		info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
		conf := types.Config{
			Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
				if e := exports[path]; e != "" {
					return os.Open(e)
				}
				return nil, fmt.Errorf("no export data for %s", path)
			}),
			Error: func(error) {},
		}
		conf.Check(target.ImportPath, fset, files, info)
		for i, file := range files {
			if names[i] == "" {
				continue
			}
			instrument(file)
			var buf bytes.Buffer
			buf.WriteString(target.language(srcs[i]))
			if err := format.Node(&buf, fset, file); err != nil {
				return fmt.Errorf("%s: %v", names[i], err)
			}
			dst := filepath.Join(out, fmt.Sprintf("i%d_%s", ti, filepath.Base(names[i])))
			if err := os.WriteFile(dst, buf.Bytes(), 0o644); err != nil {
				return err
			}
			overlay.Replace[names[i]] = dst
		}
		if level >= 2 && len(files) > 0 {
			dst := filepath.Join(out, fmt.Sprintf("i%d_zz_simstate.go", ti))
			if err := os.WriteFile(dst, []byte(globals(files)), 0o644); err != nil {
				return err
			}
			overlay.Replace[filepath.Join(target.Dir, "zz_simstate.go")] = dst
		}
	}
	js, _ := json.MarshalIndent(overlay, "", " ")
	if err := os.WriteFile(filepath.Join(out, "overlay.json"), js, 0o644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(out, "sites.txt"), []byte(strings.Join(sites, "\n")), 0o644)
}

// globals makes a file that tells the simulator of the package's variables.
func globals(files []*ast.File) string {
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\nimport \"simverif/simrt\"\n\nvar _ = simrt.Global\n\nfunc init() {\n", files[0].Name.Name)
	for _, f := range files {
		for _, d := range f.Decls {
			g, ok := d.(*ast.GenDecl)
			if !ok || g.Tok != token.VAR {
				continue
			}
			for _, s := range g.Specs {
				for _, id := range s.(*ast.ValueSpec).Names {
					if id.Name != "_" {
						fmt.Fprintf(&b, "\tsimrt.Global(%q, &%s)\n", id.Name, id.Name)
					}
				}
			}
		}
	}
	b.WriteString("}\n")
	return b.String()
}

func instrument(f *ast.File) {
	usesSim := false
	mark := func() { usesSim = true }
	v := &visitor{mark: mark}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				v.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				for _, s := range d.Specs {
					for i, x := range s.(*ast.ValueSpec).Values {
						s.(*ast.ValueSpec).Values[i] = v.expr(x)
					}
				}
			}
		}
	}
	if level >= 2 {
		ast.Inspect(f, func(n ast.Node) bool {
			// the type of what MapRange returns now
			if sel, ok := n.(*ast.SelectorExpr); ok && sel.Sel.Name == "MapIter" && isPkg(sel.X, "reflect") {
				mark()
				sel.X = ast.NewIdent("simrt")
			}
			return true
		})
	}
	for _, imp := range f.Imports {
		if level < 2 {
			break
		}
		path, _ := strconv.Unquote(imp.Path.Value)
		switch path {
		case "sync":
			if imp.Name == nil {
				imp.Name = ast.NewIdent("sync")
			}
			imp.Path.Value = `"simverif/simsync"`
			imp.EndPos = 0
		case "sync/atomic":
			if imp.Name == nil {
				imp.Name = ast.NewIdent("atomic")
			}
			imp.Path.Value = `"simverif/simatomic"`
			imp.EndPos = 0
		}
	}
	if usesSim {
		spec := &ast.ImportSpec{Name: ast.NewIdent("simrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: `"simverif/simrt"`}}
		decl := &ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}
		f.Decls = append([]ast.Decl{decl}, f.Decls...)
	}
}

type visitor struct {
	mark func()
	n    int
}

func simCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("simrt"), Sel: ast.NewIdent(name)}, Args: args}
}

func (v *visitor) yield(pos token.Pos) ast.Stmt {
	v.mark()
	p := fset.Position(pos)
	id := len(sites) + 1
	sites = append(sites, fmt.Sprintf("%d %s:%d", id, filepath.Base(p.Filename), p.Line))
	return &ast.ExprStmt{X: simCall("Y", &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(id)})}
}

func (v *visitor) block(b *ast.BlockStmt) {
	if b == nil {
		return
	}
	b.List = v.list(b.List, b.Pos())
}

func (v *visitor) list(l []ast.Stmt, pos token.Pos) []ast.Stmt {
	res := make([]ast.Stmt, 0, 2*len(l)+1)
	if len(l) == 0 {
		return append(res, v.yield(pos))
	}
	for _, s := range l {
		if _, ok := s.(*ast.EmptyStmt); ok {
			res = append(res, s)
			continue
		}
		res = append(res, v.yield(s.Pos()), v.stmt(s))
	}
	return res
}

func (v *visitor) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = v.expr(l[i])
	}
}

func (v *visitor) stmt(s ast.Stmt) ast.Stmt {
	switch s := s.(type) {
	case *ast.BlockStmt:
		v.block(s)
	case *ast.LabeledStmt:
		s.Stmt = v.stmt(s.Stmt) // rewritten statements can take the label of the original
	case *ast.ExprStmt:
		s.X = v.expr(s.X)
	case *ast.SendStmt:
		s.Chan, s.Value = v.expr(s.Chan), v.expr(s.Value)
		if level >= 2 {
			v.mark()
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: simCall("To", s.Chan), Sel: ast.NewIdent("Send")}, Args: []ast.Expr{s.Value}}}
		}
	case *ast.IncDecStmt:
		s.X = v.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW && level >= 2 {
				v.mark()
				s.Rhs[0] = simCall("RecvOK", v.expr(u.X))
				v.exprs(s.Lhs)
				return s
			}
		}
		v.exprs(s.Lhs)
		v.exprs(s.Rhs)
	case *ast.GoStmt:
		if level < 2 {
			s.Call = v.keepCall(s.Call)
		} else {
			v.mark()
			pre := v.hoist(s.Call)
			call := v.expr(s.Call)
			fn := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: call}}}}
			return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: simCall("Go", fn)})}
		}
	case *ast.DeferStmt:
		s.Call = v.keepCall(s.Call)
	case *ast.ReturnStmt:
		v.exprs(s.Results)
	case *ast.IfStmt:
		if s.Init != nil {
			s.Init = v.stmt(s.Init)
		}
		s.Cond = v.expr(s.Cond)
		v.block(s.Body)
		if s.Else != nil {
			s.Else = v.stmt(s.Else)
		}
	case *ast.CaseClause:
		v.exprs(s.List)
		s.Body = v.list(s.Body, s.Pos())
	case *ast.SwitchStmt:
		if s.Init != nil {
			s.Init = v.stmt(s.Init)
		}
		if s.Tag != nil {
			s.Tag = v.expr(s.Tag)
		}
		for _, c := range s.Body.List {
			v.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		if s.Init != nil {
			s.Init = v.stmt(s.Init)
		}
		switch a := s.Assign.(type) {
		case *ast.AssignStmt:
			ta := unparen(a.Rhs[0]).(*ast.TypeAssertExpr)
			ta.X = v.expr(ta.X)
		case *ast.ExprStmt:
			ta := unparen(a.X).(*ast.TypeAssertExpr)
			ta.X = v.expr(ta.X)
		}
		for _, c := range s.Body.List {
			v.stmt(c)
		}
	case *ast.SelectStmt:
		return v.selectStmt(s)
	case *ast.ForStmt:
		if s.Init != nil {
			s.Init = v.stmt(s.Init)
		}
		if s.Cond != nil {
			s.Cond = v.expr(s.Cond)
		}
		if s.Post != nil {
			s.Post = v.stmt(s.Post)
		}
		v.block(s.Body)
	case *ast.RangeStmt:
		return v.rangeStmt(s)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				v.exprs(sp.(*ast.ValueSpec).Values)
			}
		}
	}
	return s
}

// hoist takes what a go statement evaluates at once out of the call.
func (v *visitor) hoist(c *ast.CallExpr) (pre []ast.Stmt) {
	tmp := func(e ast.Expr) ast.Expr {
		v.n++
		id := ast.NewIdent(fmt.Sprintf("simT%d", v.n))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{id}, Tok: token.DEFINE, Rhs: []ast.Expr{v.expr(e)}})
		return ast.NewIdent(id.Name)
	}
	switch f := unparen(c.Fun).(type) {
	case *ast.FuncLit:
	case *ast.Ident:
		if _, ok := info.Uses[f].(*types.Var); ok {
			c.Fun = tmp(f)
		}
	case *ast.SelectorExpr:
		o := info.Uses[f.Sel]
		fn, isFn := o.(*types.Func)
		_, isVar := o.(*types.Var)
		if isVar || isFn && fn.Type().(*types.Signature).Recv() != nil && !isType(f.X) {
			c.Fun = tmp(f)
		}
	default:
		if tv, ok := info.Types[c.Fun]; ok && tv.IsValue() {
			if _, generic := unparen(c.Fun).(*ast.IndexExpr); !generic {
				c.Fun = tmp(c.Fun)
			}
		}
	}
	for i, a := range c.Args {
		tv, ok := info.Types[a]
		if !ok || tv.Value != nil || tv.IsNil() || tv.IsType() {
			continue
		}
		if _, tuple := tv.Type.(*types.Tuple); tuple {
			continue
		}
		c.Args[i] = tmp(a)
	}
	return pre
}

func isType(e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.IsType()
}

// selectStmt makes a switch of a select statement:
//
//	switch c1, c2 := simrt.NewRecv(ch), simrt.To(out).Case(x); simrt.Select(false, c1, c2) { ... }
func (v *visitor) selectStmt(s *ast.SelectStmt) ast.Stmt {
	if level < 2 {
		for _, c := range s.Body.List {
			cc := c.(*ast.CommClause)
			cc.Body = v.list(cc.Body, cc.Pos())
		}
		return s
	}
	v.mark()
	if len(s.Body.List) == 0 {
		return &ast.ForStmt{Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: simCall("Forever")}}}}
	}
	init := &ast.AssignStmt{Tok: token.DEFINE}
	args := []ast.Expr{ast.NewIdent("false")}
	body := &ast.BlockStmt{}
	hasDefault := false
	for _, c := range s.Body.List {
		if c.(*ast.CommClause).Comm == nil {
			hasDefault = true
			args[0] = ast.NewIdent("true")
		}
	}
	for i, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		clause := &ast.CaseClause{Body: v.list(cc.Body, cc.Pos())}
		body.List = append(body.List, clause)
		if cc.Comm == nil {
			continue
		}
		v.n++
		id := fmt.Sprintf("simC%d", v.n)
		recv := func(e ast.Expr) ast.Expr {
			return simCall("NewRecv", v.expr(unparen(e).(*ast.UnaryExpr).X))
		}
		var op ast.Expr
		switch k := cc.Comm.(type) {
		case *ast.SendStmt:
			op = &ast.CallExpr{Fun: &ast.SelectorExpr{X: simCall("To", v.expr(k.Chan)), Sel: ast.NewIdent("Case")}, Args: []ast.Expr{v.expr(k.Value)}}
		case *ast.ExprStmt:
			op = recv(k.X)
		case *ast.AssignStmt:
			op = recv(k.Rhs[0])
			as := &ast.AssignStmt{Tok: k.Tok}
			for j, l := range k.Lhs {
				f := "V"
				if j == 1 {
					f = "OK"
				}
				as.Lhs = append(as.Lhs, v.expr(l))
				as.Rhs = append(as.Rhs, &ast.SelectorExpr{X: ast.NewIdent(id), Sel: ast.NewIdent(f)})
			}
			blanks := true
			for _, l := range as.Lhs {
				blanks = blanks && blank(l)
			}
			if blanks {
				as.Tok = token.ASSIGN
			}
			clause.Body = append([]ast.Stmt{as}, clause.Body...)
		}
		init.Lhs = append(init.Lhs, ast.NewIdent(id))
		init.Rhs = append(init.Rhs, op)
		n := len(args) - 1
		args = append(args, ast.NewIdent(id))
		if i < len(s.Body.List)-1 || hasDefault {
			clause.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}
		} // else: the last case is the default of the switch, for the sake of control flow analysis
	}
	sw := &ast.SwitchStmt{Tag: simCall("Select", args...), Body: body}
	if len(init.Lhs) > 0 {
		sw.Init = init
	}
	return sw
}

// keepCall instruments the parts of a deferred call without replacing it.
func (v *visitor) keepCall(c *ast.CallExpr) *ast.CallExpr {
	if r, ok := v.expr(c).(*ast.CallExpr); ok {
		return r
	}
	return c
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func isMap(e ast.Expr) bool {
	tv, ok := info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Map)
	return ok
}

func isSimple(e ast.Expr) bool {
	switch e := unparen(e).(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return isSimple(e.X)
	}
	return false
}

func blank(e ast.Expr) bool {
	if e == nil {
		return true
	}
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

func isChan(e ast.Expr) bool {
	tv, ok := info.Types[e]
	if !ok || tv.Type == nil {
		return false
	}
	_, ok = tv.Type.Underlying().(*types.Chan)
	return ok
}

// rangeChan makes a loop with a receive operation of a range over a channel.
func (v *visitor) rangeChan(s *ast.RangeStmt) ast.Stmt {
	v.mark()
	v.n++
	ch := fmt.Sprintf("simCh%d", v.n)
	ok := fmt.Sprintf("simOK%d", v.n)
	id := ast.NewIdent
	recv := simCall("RecvOK", id(ch))
	init := &ast.AssignStmt{Lhs: []ast.Expr{id(ch)}, Tok: token.DEFINE, Rhs: []ast.Expr{simCall("RecvOnly", s.X)}}
	dst := ast.Expr(id("_"))
	if !blank(s.Key) {
		dst = s.Key
		if s.Tok == token.DEFINE {
			init.Lhs = append(init.Lhs, s.Key)
			init.Rhs = []ast.Expr{simCall("Ranged", s.X)}
		}
	}
	pre := []ast.Stmt{
		&ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{id(ok)}, Type: id("bool")}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{dst, id(ok)}, Tok: token.ASSIGN, Rhs: []ast.Expr{recv}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: id(ok)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
	}
	s.Body.List = append(pre, s.Body.List...)
	return &ast.ForStmt{Init: init, Body: s.Body}
}

func (v *visitor) rangeStmt(s *ast.RangeStmt) ast.Stmt {
	m := isMap(s.X)
	if level >= 2 && isChan(s.X) {
		s.X = v.expr(s.X)
		v.block(s.Body)
		return v.rangeChan(s)
	}
	x := v.expr(s.X)
	v.block(s.Body)
	s.X = x
	if !m || level < 2 {
		return s
	}
	v.mark()
	v.n++
	kn := ast.NewIdent(fmt.Sprintf("simK%d", v.n))
	if !isSimple(s.X) {
		// for _, e := range simrt.Entries(X)
		pre := []ast.Stmt{}
		add := func(dst ast.Expr, f string) {
			if !blank(dst) {
				pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{dst}, Tok: s.Tok, Rhs: []ast.Expr{&ast.SelectorExpr{X: kn, Sel: ast.NewIdent(f)}}})
			}
		}
		add(s.Key, "K")
		add(s.Value, "V")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{kn}})
		s.Body.List = append(pre, s.Body.List...)
		return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: kn, Tok: token.DEFINE, X: simCall("Entries", s.X), Body: s.Body}
	}
	ok := ast.NewIdent(fmt.Sprintf("simOK%d", v.n))
	vn := ast.NewIdent(fmt.Sprintf("simV%d", v.n))
	pre := []ast.Stmt{
		// the entry may have been removed meanwhile
		&ast.AssignStmt{Lhs: []ast.Expr{vn, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: s.X, Index: kn}}},
		&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ok}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
		&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{vn}},
	}
	if !blank(s.Key) {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Key}, Tok: s.Tok, Rhs: []ast.Expr{kn}})
	}
	if !blank(s.Value) {
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{s.Value}, Tok: s.Tok, Rhs: []ast.Expr{vn}})
	}
	s.Body.List = append(pre, s.Body.List...)
	return &ast.RangeStmt{Key: ast.NewIdent("_"), Value: kn, Tok: token.DEFINE, X: simCall("Keys", s.X), Body: s.Body}
}

func isReflectValue(e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.Type != nil && tv.Type.String() == "reflect.Value"
}

func isTimer(e ast.Expr) bool {
	tv, ok := info.Types[e]
	return ok && tv.Type != nil && tv.Type.String() == "*time.Timer"
}

func isPkg(e ast.Expr, path string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == path
}

func (v *visitor) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.FuncLit:
		v.block(e.Body)
	case *ast.ParenExpr:
		e.X = v.expr(e.X)
	case *ast.SelectorExpr:
		e.X = v.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = v.expr(e.X), v.expr(e.Index)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = v.expr(e.X), v.expr(e.Low), v.expr(e.High), v.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X = v.expr(e.X)
	case *ast.StarExpr:
		e.X = v.expr(e.X)
	case *ast.UnaryExpr:
		e.X = v.expr(e.X)
		if e.Op == token.ARROW && level >= 2 {
			v.mark()
			return simCall("Recv", e.X)
		}
	case *ast.BinaryExpr:
		e.X, e.Y = v.expr(e.X), v.expr(e.Y)
	case *ast.KeyValueExpr:
		e.Key, e.Value = v.expr(e.Key), v.expr(e.Value)
	case *ast.CompositeLit:
		v.exprs(e.Elts)
	case *ast.CallExpr:
		if sel, ok := e.Fun.(*ast.SelectorExpr); ok && level >= 2 {
			switch {
			case (sel.Sel.Name == "MapKeys" || sel.Sel.Name == "MapRange") && len(e.Args) == 0 && isReflectValue(sel.X):
				v.mark()
				return simCall(sel.Sel.Name, v.expr(sel.X))
			case (sel.Sel.Name == "SetIterKey" || sel.Sel.Name == "SetIterValue") && len(e.Args) == 1 && isReflectValue(sel.X):
				get := ast.NewIdent(strings.TrimPrefix(sel.Sel.Name, "SetIter"))
				sel.X, sel.Sel = v.expr(sel.X), ast.NewIdent("Set")
				e.Args[0] = &ast.CallExpr{Fun: &ast.SelectorExpr{X: v.expr(e.Args[0]), Sel: get}}
				return e
			case sel.Sel.Name == "Gosched" && isPkg(sel.X, "runtime"):
				v.mark()
				return simCall("YieldFor", sel)
			case (sel.Sel.Name == "Now" && len(e.Args) == 0 || (sel.Sel.Name == "Since" || sel.Sel.Name == "Until") && len(e.Args) == 1) && isPkg(sel.X, "time"):
				v.mark()
				v.exprs(e.Args)
				return simCall("Time"+sel.Sel.Name, append([]ast.Expr{sel}, e.Args...)...)
			case sel.Sel.Name == "Sleep" && isPkg(sel.X, "time") && len(e.Args) == 1:
				v.mark()
				return simCall("Sleep", sel, v.expr(e.Args[0]))
			case sel.Sel.Name == "After" && isPkg(sel.X, "time") && len(e.Args) == 1:
				v.mark()
				return simCall("After", sel, v.expr(e.Args[0]))
			case (sel.Sel.Name == "NewTimer" || sel.Sel.Name == "NewTicker" || sel.Sel.Name == "Tick") && isPkg(sel.X, "time") && len(e.Args) == 1:
				v.mark()
				return simCall(sel.Sel.Name, sel, v.expr(e.Args[0]))
			case sel.Sel.Name == "AfterFunc" && isPkg(sel.X, "time") && len(e.Args) == 2:
				v.mark()
				return simCall("AfterFunc", sel, v.expr(e.Args[0]), v.expr(e.Args[1]))
			case sel.Sel.Name == "Reset" && len(e.Args) == 1 && isTimer(sel.X):
				v.mark()
				return simCall("ResetTimer", v.expr(sel.X), v.expr(e.Args[0]))
			case sel.Sel.Name == "Pipe" && isPkg(sel.X, "io") && len(e.Args) == 0:
				v.mark()
				return simCall("Pipe", sel)
			}
		}
		if id, ok := e.Fun.(*ast.Ident); ok && level >= 2 && id.Name == "close" && len(e.Args) == 1 {
			if _, ok := info.Uses[id].(*types.Builtin); ok {
				v.mark()
				return simCall("Close", v.expr(e.Args[0]))
			}
		}
		e.Fun = v.expr(e.Fun)
		v.exprs(e.Args)
	}
	return e
}
