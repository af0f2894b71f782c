// Command instr rewrites a Go module so that all its concurrency, time,
// network and randomness go through verif.local/zz. Usage:
//
//	instr SRC DST SHIMDIR
//
// SRC is a copy of the module (left alone), DST receives the rewritten one and
// the alias parts of the shim packages (DST/zz must already hold the shims).
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/format"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"verif.local/instr/astutil"
)

const zz = "verif.local/zz/"

var shimmed = map[string]bool{
	"sync": true, "sync/atomic": true, "time": true, "net": true, "math/rand": true,
	"crypto/rand": true, "crypto/rsa": true, "container/list": true, "context": true,
}

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles                       []string
	Standard                      bool
	Module                        *struct {
		Path, GoVersion string
		Main            bool
	}
	Error *struct{ Err string }
}

var exports = map[string]string{}

func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instr: "+format+"\n", a...)
	os.Exit(3)
}

func main() {
	src, dst := os.Args[1], os.Args[2]
	args := append([]string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,Standard,Module,Error", "./..."}, keys(shimmed)...)
	cmd := exec.Command("go", args...)
	cmd.Dir = src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var own []*listPkg
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if !p.Standard && p.Module != nil && p.Module.Main && p.Name != "main" {
			if p.Error != nil {
				die("%s: %s", p.ImportPath, p.Error.Err)
			}
			own = append(own, p)
		}
	}
	fset := token.NewFileSet()
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		e := exports[path]
		if e == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	})
	aliases(imp, dst)
	modPath := ""
	for _, p := range own {
		modPath = p.Module.Path
	}
	root := filepath.Clean(src)
	var sites []string
	for _, p := range own {
		rel, err := filepath.Rel(root, p.Dir)
		if err != nil {
			die("%v", err)
		}
		ins := &instrumenter{fset: fset, rel: rel, sites: &sites, modPath: modPath}
		ins.stmts = rel != "teolog" && rel != "term"
		ins.pkg(p, imp, filepath.Join(dst, rel))
	}
	// site table
	var b bytes.Buffer
	b.WriteString("package rt\n\nfunc init() { SiteName = func(i int) string { return siteNames[i] } }\n\nvar siteNames = []string{\n")
	for _, s := range sites {
		fmt.Fprintf(&b, "%q,\n", s)
	}
	b.WriteString("}\n")
	write(filepath.Join(dst, "zz/rt/zz_sites.go"), b.Bytes())
}

func keys(m map[string]bool) (k []string) {
	for s := range m {
		k = append(k, s)
	}
	sort.Strings(k)
	return
}

func write(name string, b []byte) {
	f, err := format.Source(b)
	if err != nil {
		os.WriteFile(name+".bad", b, 0o644)
		die("%s: %v", name, err)
	}
	if err := os.WriteFile(name, f, 0o644); err != nil {
		die("%v", err)
	}
}

// aliases writes, for every shimmed package, aliases for the exported names
// the shim does not declare.
func aliases(imp types.Importer, dst string) {
	for _, path := range keys(shimmed) {
		dir := filepath.Join(dst, "zz", path)
		have := map[string]bool{}
		fs := token.NewFileSet()
		ents, err := os.ReadDir(dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			f, err := parser.ParseFile(fs, filepath.Join(dir, e.Name()), nil, 0)
			if err != nil {
				die("%v", err)
			}
			for _, d := range f.Decls {
				switch d := d.(type) {
				case *ast.FuncDecl:
					if d.Recv == nil {
						have[d.Name.Name] = true
					}
				case *ast.GenDecl:
					for _, s := range d.Specs {
						switch s := s.(type) {
						case *ast.TypeSpec:
							have[s.Name.Name] = true
						case *ast.ValueSpec:
							for _, n := range s.Names {
								have[n.Name] = true
							}
						}
					}
				}
			}
		}
		p, err := imp.Import(path)
		if err != nil {
			die("%v", err)
		}
		var b bytes.Buffer
		any := false
		for _, n := range p.Scope().Names() {
			o := p.Scope().Lookup(n)
			if !o.Exported() || have[n] {
				continue
			}
			switch o := o.(type) {
			case *types.Const:
				fmt.Fprintf(&b, "const %s = real.%s\n", n, n)
				any = true
			case *types.Var:
				fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
				any = true
			case *types.TypeName:
				if nt, ok := o.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "type %s = real.%s\n", n, n)
				any = true
			case *types.Func:
				if o.Type().(*types.Signature).TypeParams().Len() > 0 {
					continue
				}
				fmt.Fprintf(&b, "var %s = real.%s\n", n, n)
				any = true
			}
		}
		if any {
			write(filepath.Join(dir, "zz_alias.go"), append([]byte(fmt.Sprintf("package %s\n\nimport real %q\n\n", p.Name(), path)), b.Bytes()...))
		}
	}
}

type instrumenter struct {
	fset    *token.FileSet
	rel     string
	modPath string
	stmts   bool
	sites   *[]string
	info    *types.Info
	tmp     int
	file    *ast.File
	// package variables that are kept apart by process; true: initialised
	procVars map[types.Object]bool
}

func (ins *instrumenter) pkg(p *listPkg, imp types.Importer, dstDir string) {
	var files []*ast.File
	for _, n := range p.GoFiles {
		f, err := parser.ParseFile(ins.fset, filepath.Join(p.Dir, n), nil, parser.SkipObjectResolution)
		if err != nil {
			die("%v", err)
		}
		files = append(files, f)
	}
	ins.info = &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: imp, Error: func(error) {}}
	if p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tp, err := conf.Check(p.ImportPath, ins.fset, files, ins.info)
	if err != nil {
		die("type check %s: %v", p.ImportPath, err)
	}
	_ = tp
	if err := os.MkdirAll(dstDir, 0o755); err != nil {
		die("%v", err)
	}
	reset := ins.resetFunc()
	for i, f := range files {
		ins.rewrite(f)
		if i == 0 {
			f.Decls = append(f.Decls, reset)
		}
		f.Comments = nil
		var b bytes.Buffer
		// build constraints were evaluated by go list; drop all comments
		f.Imports = nil
		if err := (&printer.Config{Mode: printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), f); err != nil {
			die("%s: %v", p.GoFiles[i], err)
		}
		name := filepath.Join(dstDir, p.GoFiles[i])
		write(name, b.Bytes())
	}
}

// resetFunc builds ZZReset, which puts package variables back to their
// initial values.
func (ins *instrumenter) resetFunc() ast.Decl {
	fd := &ast.FuncDecl{Name: ast.NewIdent("ZZReset"), Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{}}
	inited := map[types.Object]bool{}
	for _, in := range ins.info.InitOrder {
		for _, v := range in.Lhs {
			inited[v] = true
		}
	}
	var zero []types.Object
	for id, o := range ins.info.Defs {
		v, ok := o.(*types.Var)
		if !ok || v.Pkg() == nil || v.Parent() != v.Pkg().Scope() || inited[o] || id.Name == "_" {
			continue
		}
		zero = append(zero, o)
	}
	ins.procVars = map[types.Object]bool{}
	if ins.rel == "." {
		for _, o := range zero {
			ins.procVars[o] = false
		}
		for _, in := range ins.info.InitOrder {
			if len(in.Lhs) == 1 && resettable(ins.info, in.Rhs) {
				ins.procVars[in.Lhs[0]] = true
			}
		}
	}
	sort.Slice(zero, func(i, j int) bool { return zero[i].Pos() < zero[j].Pos() })
	for _, o := range zero {
		fd.Body.List = append(fd.Body.List, &ast.ExprStmt{X: rtCall("Zero", &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(o.Name())})})
	}
	for _, in := range ins.info.InitOrder {
		if !resettable(ins.info, in.Rhs) {
			continue
		}
		var lhs []ast.Expr
		ok := true
		for _, v := range in.Lhs {
			if v.Name() == "_" {
				ok = false
			}
			lhs = append(lhs, ast.NewIdent(v.Name()))
		}
		if ok {
			// the initialiser is shared with the declaration and rewritten there
			fd.Body.List = append(fd.Body.List, &ast.AssignStmt{Lhs: lhs, Tok: token.ASSIGN, Rhs: []ast.Expr{in.Rhs}})
		}
	}
	return fd
}

// resettable: plain values only; no flags, no error values, no functions.
func resettable(info *types.Info, e ast.Expr) bool {
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.FuncLit:
			ok = false
		case *ast.CallExpr:
			if s, is := n.Fun.(*ast.SelectorExpr); is {
				if id, is := s.X.(*ast.Ident); is {
					if pn, is := info.Uses[id].(*types.PkgName); is {
						switch pn.Imported().Path() {
						case "flag", "errors", "regexp", "fmt":
							ok = false
						}
					}
				}
			}
		}
		return ok
	})
	return ok
}

func rtSel(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("zzrt"), Sel: ast.NewIdent(name)}
}

func rtCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: rtSel(name), Args: args}
}

func intLit(i int) ast.Expr { return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(i)} }

func (ins *instrumenter) newName(p string) *ast.Ident {
	ins.tmp++
	return ast.NewIdent(fmt.Sprintf("zz%s%d", p, ins.tmp))
}

func (ins *instrumenter) typeOf(e ast.Expr) types.Type {
	if tv, ok := ins.info.Types[e]; ok && tv.Type != nil {
		return tv.Type
	}
	if id, ok := e.(*ast.Ident); ok {
		if o := ins.info.Uses[id]; o != nil {
			return o.Type()
		}
		if o := ins.info.Defs[id]; o != nil {
			return o.Type()
		}
	}
	return nil
}

func (ins *instrumenter) is(e ast.Expr, what string) bool {
	t := ins.typeOf(e)
	if t == nil {
		return false
	}
	u := t.Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		u = coreType(tp)
		if u == nil {
			return false
		}
	}
	switch u.(type) {
	case *types.Map:
		return what == "map"
	case *types.Chan:
		return what == "chan"
	}
	return false
}

// guardedSlice: an addressable field of slice type in a struct that has a mutex.
func (ins *instrumenter) guardedSlice(sel *ast.SelectorExpr) bool {
	s := ins.info.Selections[sel]
	if s == nil || s.Kind() != types.FieldVal || !ins.info.Types[sel].Addressable() {
		return false
	}
	if _, ok := s.Type().Underlying().(*types.Slice); !ok {
		return false
	}
	t := s.Recv()
	for i, x := range s.Index() {
		if p, ok := t.Underlying().(*types.Pointer); ok {
			t = p.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		if i == len(s.Index())-1 {
			for k := 0; k < st.NumFields(); k++ {
				ft := st.Field(k).Type()
				if p, ok := ft.(*types.Pointer); ok {
					ft = p.Elem()
				}
				if n := ft.String(); n == "sync.Mutex" || n == "sync.RWMutex" {
					return true
				}
			}
			return false
		}
		t = st.Field(x).Type()
	}
	return false
}

func coreType(tp *types.TypeParam) types.Type {
	it, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok || it.NumEmbeddeds() != 1 {
		return nil
	}
	switch e := it.EmbeddedType(0).(type) {
	case *types.Union:
		if e.Len() == 1 {
			return e.Term(0).Type().Underlying()
		}
	default:
		return e.Underlying()
	}
	return nil
}

func (ins *instrumenter) builtin(e ast.Expr) string {
	if p, ok := e.(*ast.ParenExpr); ok {
		e = p.X
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return ""
	}
	if b, ok := ins.info.Uses[id].(*types.Builtin); ok {
		return b.Name()
	}
	return ""
}

func (ins *instrumenter) pkgFunc(e ast.Expr) string {
	s, ok := e.(*ast.SelectorExpr)
	if !ok {
		return ""
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return ""
	}
	if pn, ok := ins.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path() + "." + s.Sel.Name
	}
	return ""
}

func (ins *instrumenter) set(n ast.Expr, old ast.Expr) ast.Expr {
	if tv, ok := ins.info.Types[old]; ok {
		ins.info.Types[n] = tv
	} else if t := ins.typeOf(old); t != nil {
		ins.info.Types[n] = types.TypeAndValue{Type: t}
	}
	return n
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (ins *instrumenter) pos(n ast.Node, fn string) int {
	p := ins.fset.Position(n.Pos())
	*ins.sites = append(*ins.sites, fmt.Sprintf("%s:%d %s", filepath.Base(p.Filename), p.Line, fn))
	return len(*ins.sites) - 1
}

func (ins *instrumenter) rewrite(f *ast.File) {
	ins.file = f
	// statement points first, on the original statements
	points := map[ast.Stmt]int{}
	split := map[ast.Stmt]bool{}
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if ins.rel == "term" && fd.Recv == nil && fd.Name.Name == "Getch" {
			fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ReturnStmt{Results: []ast.Expr{rtCall("Getch")}}}}
			continue
		}
		if !ins.stmts {
			continue
		}
		name := fd.Name.Name
		mark := func(list []ast.Stmt) {
			for _, s := range list {
				switch t := s.(type) {
				case *ast.EmptyStmt, *ast.BlockStmt, *ast.CaseClause, *ast.CommClause:
					continue
				case *ast.DeclStmt:
					if g := t.Decl.(*ast.GenDecl); g.Tok != token.VAR {
						continue
					}
				case *ast.IncDecStmt:
					split[s] = ins.splittable(t.X)
				case *ast.AssignStmt:
					if t.Tok != token.ASSIGN && t.Tok != token.DEFINE && len(t.Lhs) == 1 {
						split[s] = ins.splittable(t.Lhs[0])
					}
				}
				points[s] = ins.pos(s, name)
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				mark(n.List)
			case *ast.CaseClause:
				mark(n.Body)
			case *ast.CommClause:
				mark(n.Body)
			}
			return true
		})
	}
	replaced := map[ast.Stmt]ast.Stmt{} // new statement -> original
	orig := func(s ast.Stmt) ast.Stmt {
		for {
			o, ok := replaced[s]
			if !ok {
				return s
			}
			s = o
		}
	}
	written := map[ast.Expr]bool{} // map index expressions that are assigned
	comm := map[ast.Node]bool{}    // operations of select cases
	guarded := map[*ast.SelectorExpr]string{}
	mark := func(e ast.Expr, f string) {
		if sel, ok := unparen(e).(*ast.SelectorExpr); ok && guarded[sel] != "SlWr" && ins.guardedSlice(sel) {
			guarded[sel] = f
		}
	}
	pre := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.IndexExpr:
			mark(n.X, "SlRd")
		case *ast.SliceExpr:
			mark(n.X, "SlRd")
		case *ast.RangeStmt:
			mark(n.X, "SlRd")
		case *ast.CallExpr:
			switch ins.builtin(n.Fun) {
			case "len", "append", "copy":
				for i, a := range n.Args {
					if i == 0 || n.Ellipsis != token.NoPos {
						mark(a, "SlRd")
					}
				}
			}
		case *ast.SelectStmt:
			for _, cl := range n.Body.List {
				switch s := cl.(*ast.CommClause).Comm.(type) {
				case *ast.SendStmt:
					comm[s] = true
				case *ast.ExprStmt:
					comm[unparen(s.X)] = true
				case *ast.AssignStmt:
					comm[unparen(s.Rhs[0])] = true
				}
			}
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				mark(l, "SlWr")
				if ix, ok := unparen(l).(*ast.IndexExpr); ok && ins.is(ix.X, "map") {
					written[ix] = true
				}
			}
		case *ast.IncDecStmt:
			if ix, ok := unparen(n.X).(*ast.IndexExpr); ok && ins.is(ix.X, "map") {
				written[ix] = true
			}
		case *ast.GoStmt:
		}
		return true
	}
	post := func(c *astutil.Cursor) bool {
		switch n := c.Node().(type) {
		case *ast.SelectorExpr:
			if f := guarded[n]; f != "" {
				c.Replace(ins.set(&ast.ParenExpr{X: &ast.StarExpr{X: rtCall(f, &ast.UnaryExpr{Op: token.AND, X: n})}}, n))
			}
		case *ast.Ident:
			// package variables exist once per process of the model
			if init, ok := ins.procVars[ins.info.Uses[n]]; ok {
				e := &ast.ParenExpr{X: &ast.StarExpr{X: rtCall("ProcVar", &ast.UnaryExpr{Op: token.AND, X: ast.NewIdent(n.Name)}, ast.NewIdent(strconv.FormatBool(init)))}}
				ins.set(e, n)
				c.Replace(e)
			}
		case *ast.SelectStmt:
			s := ins.selectStmt(n)
			replaced[s] = n
			c.Replace(s)
		case *ast.SendStmt:
			if comm[n] {
				return true
			}
			s := &ast.ExprStmt{X: &ast.CallExpr{Fun: rtCall("SendTo", n.Chan), Args: []ast.Expr{n.Value}}}
			replaced[s] = n
			c.Replace(s)
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !comm[n] {
				name := "Recv"
				switch p := c.Parent().(type) {
				case *ast.AssignStmt:
					if len(p.Lhs) == 2 && len(p.Rhs) == 1 {
						name = "Recv2"
					}
				case *ast.ValueSpec:
					if len(p.Names) == 2 && len(p.Values) == 1 {
						name = "Recv2"
					}
				}
				c.Replace(ins.set(rtCall(name, n.X), n))
			}
		case *ast.IndexExpr:
			if ins.is(n.X, "map") {
				f := "MapRd"
				if written[n] {
					f = "MapWr"
				}
				n.X = ins.set(rtCall(f, n.X), n.X)
			}
		case *ast.CallExpr:
			ins.call(n)
		case *ast.RangeStmt:
			if s := ins.rangeStmt(n); s != nil {
				replaced[s] = n
				c.Replace(s)
			}
		case *ast.GoStmt:
			s := ins.goStmt(n)
			replaced[s] = n
			c.Replace(s)
		case *ast.BlockStmt:
			n.List = ins.list(n.List, points, split, orig)
		case *ast.CaseClause:
			n.Body = ins.list(n.Body, points, split, orig)
		case *ast.CommClause:
			n.Body = ins.list(n.Body, points, split, orig)
		}
		return true
	}
	astutil.Apply(f, pre, post)
	// imports
	used := false
	ast.Inspect(f, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && id.Name == "zzrt" {
			used = true
		}
		return true
	})
	_ = used
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if shimmed[p] {
			im.Path.Value = strconv.Quote(zz + p)
		}
	}
	spec := &ast.ImportSpec{Name: ast.NewIdent("zzrt"), Path: &ast.BasicLit{Kind: token.STRING, Value: strconv.Quote(zz + "rt")}}
	decls := []ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}
	var keep []ast.Decl
	for _, d := range f.Decls {
		keep = append(keep, d)
	}
	keep = append(keep, &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{ast.NewIdent("_")}, Values: []ast.Expr{rtSel("P")}}}})
	f.Decls = append(decls, keep...)
	ins.unusedImports(f)
}

// unusedImports adds uses for imports whose only uses may have been rewritten away.
func (ins *instrumenter) unusedImports(f *ast.File) {
	usedNames := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		if s, ok := n.(*ast.SelectorExpr); ok {
			if id, ok := s.X.(*ast.Ident); ok {
				usedNames[id.Name] = true
			}
		}
		return true
	})
	for _, d := range f.Decls {
		g, ok := d.(*ast.GenDecl)
		if !ok || g.Tok != token.IMPORT {
			continue
		}
		for _, s := range g.Specs {
			im := s.(*ast.ImportSpec)
			p, _ := strconv.Unquote(im.Path.Value)
			name := p[strings.LastIndexByte(p, '/')+1:]
			if o := ins.info.Implicits[im]; o != nil {
				name = o.Name()
			}
			if im.Name != nil {
				name = im.Name.Name
			}
			if name != "." && !usedNames[name] {
				im.Name = ast.NewIdent("_")
			}
		}
	}
}

// list inserts the statement points.
func (ins *instrumenter) list(in []ast.Stmt, points map[ast.Stmt]int, split map[ast.Stmt]bool, orig func(ast.Stmt) ast.Stmt) (out []ast.Stmt) {
	for _, s := range in {
		o := orig(s)
		if site, ok := points[o]; ok {
			out = append(out, &ast.ExprStmt{X: rtCall("P", intLit(site))})
			if split[o] {
				out = append(out, ins.splitOp(s, site))
				continue
			}
		}
		out = append(out, s)
	}
	return
}

// splittable: a field (or element of a field) reached without calls.
func (ins *instrumenter) splittable(e ast.Expr) bool {
	hasSel := false
	ok := true
	ast.Inspect(e, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.SelectorExpr:
			hasSel = true
		case *ast.CallExpr, *ast.FuncLit:
			ok = false
		case *ast.IndexExpr:
			if ins.is(n.X, "map") {
				ok = false
			}
		}
		return ok
	})
	if id, is := e.(*ast.Ident); is {
		// package variables count too
		if v, is := ins.info.Uses[id].(*types.Var); is && v.Pkg() != nil && v.Parent() == v.Pkg().Scope() {
			hasSel = true
		}
	}
	return ok && hasSel
}

// splitOp turns x op= y into a read, a point and a write.
func (ins *instrumenter) splitOp(s ast.Stmt, site int) ast.Stmt {
	t := ins.newName("t")
	var lhs, rhs ast.Expr
	var op token.Token
	switch n := s.(type) {
	case *ast.IncDecStmt:
		lhs, rhs = n.X, &ast.BasicLit{Kind: token.INT, Value: "1"}
		op = token.ADD
		if n.Tok == token.DEC {
			op = token.SUB
		}
	case *ast.AssignStmt:
		lhs, rhs = n.Lhs[0], &ast.ParenExpr{X: n.Rhs[0]}
		op = map[token.Token]token.Token{token.ADD_ASSIGN: token.ADD, token.SUB_ASSIGN: token.SUB, token.MUL_ASSIGN: token.MUL,
			token.QUO_ASSIGN: token.QUO, token.REM_ASSIGN: token.REM, token.AND_ASSIGN: token.AND, token.OR_ASSIGN: token.OR,
			token.XOR_ASSIGN: token.XOR, token.SHL_ASSIGN: token.SHL, token.SHR_ASSIGN: token.SHR, token.AND_NOT_ASSIGN: token.AND_NOT}[n.Tok]
	}
	return &ast.BlockStmt{List: []ast.Stmt{
		&ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{lhs}},
		&ast.ExprStmt{X: rtCall("P", intLit(site))},
		&ast.AssignStmt{Lhs: []ast.Expr{lhs}, Tok: token.ASSIGN, Rhs: []ast.Expr{&ast.BinaryExpr{X: t, Op: op, Y: rhs}}},
	}}
}

func (ins *instrumenter) call(n *ast.CallExpr) {
	switch ins.builtin(n.Fun) {
	case "close":
		n.Fun = rtSel("Close")
	case "len", "cap":
		if len(n.Args) == 1 {
			if ins.is(n.Args[0], "chan") && ins.builtin(n.Fun) == "len" {
				n.Fun = rtSel("Len")
			} else if ins.is(n.Args[0], "map") {
				n.Args[0] = ins.set(rtCall("MapRd", n.Args[0]), n.Args[0])
			}
		}
	case "delete", "clear":
		if ins.is(n.Args[0], "map") {
			n.Args[0] = ins.set(rtCall("MapWr", n.Args[0]), n.Args[0])
		}
	}
	switch ins.pkgFunc(n.Fun) {
	case "os.Exit":
		n.Fun = rtSel("Exit")
	case "reflect.ValueOf":
		if len(n.Args) == 1 && ins.is(n.Args[0], "map") {
			n.Args[0] = ins.set(rtCall("MapRd", n.Args[0]), n.Args[0])
		}
	case "runtime.Gosched":
		n.Fun = rtSel("Gosched")
	case "maps.Keys", "maps.Values", "maps.All":
		if ins.is(n.Args[0], "map") {
			n.Fun = rtSel("Seq" + ins.pkgFunc(n.Fun)[len("maps."):])
		}
	case "maps.Clone", "maps.Equal", "maps.EqualFunc":
		for i, a := range n.Args {
			if ins.is(a, "map") {
				n.Args[i] = ins.set(rtCall("MapRd", a), a)
			}
		}
	case "maps.Copy", "maps.DeleteFunc":
		n.Args[0] = ins.set(rtCall("MapWr", n.Args[0]), n.Args[0])
	}
	if s, ok := n.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "MapKeys" && len(n.Args) == 0 {
		if t := ins.typeOf(s.X); t != nil && t.String() == "reflect.Value" {
			inner := &ast.CallExpr{Fun: s}
			n.Fun = rtSel("SortValues")
			n.Args = []ast.Expr{inner}
		}
	}
}

func (ins *instrumenter) rangeStmt(n *ast.RangeStmt) ast.Stmt {
	var ctor string
	vars := 2
	switch {
	case ins.is(n.X, "map"):
		ctor = "RangeMap"
	case ins.is(n.X, "chan"):
		ctor = "RangeChan"
		vars = 1
	default:
		return nil
	}
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	r := ins.newName("r")
	lhs := []ast.Expr{r}
	args := []ast.Expr{}
	for i, e := range []ast.Expr{n.Key, n.Value} {
		if i >= vars {
			break
		}
		if blank(e) {
			if n.Tok == token.DEFINE {
				lhs = append(lhs, ast.NewIdent("_"))
			}
			args = append(args, ast.NewIdent("nil"))
			continue
		}
		if n.Tok == token.DEFINE {
			lhs = append(lhs, e)
		}
		args = append(args, &ast.UnaryExpr{Op: token.AND, X: e})
	}
	if n.Tok != token.DEFINE {
		for i := 0; i < vars; i++ {
			lhs = append(lhs, ast.NewIdent("_"))
		}
	}
	return &ast.ForStmt{
		For:  n.For,
		Init: &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: []ast.Expr{rtCall(ctor, n.X)}},
		Cond: &ast.CallExpr{Fun: &ast.SelectorExpr{X: r, Sel: ast.NewIdent("Next")}, Args: args},
		Body: n.Body,
	}
}

func (ins *instrumenter) selectStmt(n *ast.SelectStmt) ast.Stmt {
	var lhs, rhs []ast.Expr
	sw := &ast.SwitchStmt{Switch: n.Select, Body: &ast.BlockStmt{}}
	hasDefault := false
	i := 0
	var cases []ast.Expr
	for _, cl := range n.Body.List {
		cc := cl.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			sw.Body.List = append(sw.Body.List, &ast.CaseClause{Case: cc.Case, Body: cc.Body})
			continue
		}
		c := ins.newName("c")
		lhs = append(lhs, c)
		cases = append(cases, c)
		body := cc.Body
		recv := func(e ast.Expr) ast.Expr {
			return rtCall("CaseRecv", unparen(e).(*ast.UnaryExpr).X)
		}
		field := func(f string) ast.Expr { return &ast.SelectorExpr{X: c, Sel: ast.NewIdent(f)} }
		switch s := cc.Comm.(type) {
		case *ast.SendStmt:
			rhs = append(rhs, &ast.CallExpr{Fun: rtCall("CaseSend", s.Chan), Args: []ast.Expr{s.Value}})
		case *ast.ExprStmt:
			rhs = append(rhs, recv(s.X))
		case *ast.AssignStmt:
			rhs = append(rhs, recv(s.Rhs[0]))
			a := &ast.AssignStmt{Lhs: s.Lhs, Tok: s.Tok, Rhs: []ast.Expr{field("V")}}
			if len(s.Lhs) == 2 {
				a.Rhs = append(a.Rhs, field("Ok"))
			}
			body = append([]ast.Stmt{a}, body...)
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Case: cc.Case, List: []ast.Expr{intLit(i)}, Body: body})
		i++
	}
	if len(lhs) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: lhs, Tok: token.DEFINE, Rhs: rhs}
	}
	sw.Tag = rtCall("Select", append([]ast.Expr{ast.NewIdent(fmt.Sprint(hasDefault))}, cases...)...)
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"zz: impossible select"`}}}}}})
	}
	return sw
}

func (ins *instrumenter) goStmt(n *ast.GoStmt) ast.Stmt {
	call := n.Call
	if fl, ok := unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 && len(fl.Type.Params.List) == 0 && fl.Type.Results == nil {
		return &ast.ExprStmt{X: rtCall("Go", fl)}
	}
	var pre []ast.Stmt
	hoist := func(e ast.Expr) ast.Expr {
		v := ins.newName("a")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{v}, Tok: token.DEFINE, Rhs: []ast.Expr{e}})
		return v
	}
	nc := &ast.CallExpr{Fun: call.Fun, Ellipsis: call.Ellipsis}
	isRt := false
	if s, ok := call.Fun.(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok && id.Name == "zzrt" {
			isRt = true
		}
	}
	if c2, ok := call.Fun.(*ast.CallExpr); ok { // rt.SendTo(ch)(v) cannot be a go statement; other curried calls can
		_ = c2
	}
	if ins.builtin(call.Fun) == "" && !isRt {
		nc.Fun = hoist(call.Fun)
	}
	for _, a := range call.Args {
		if tv, ok := ins.info.Types[a]; ok && (tv.IsNil() || tv.Value != nil || tv.IsType()) {
			nc.Args = append(nc.Args, a)
			continue
		}
		nc.Args = append(nc.Args, hoist(a))
	}
	if nc.Ellipsis != token.NoPos {
		nc.Ellipsis = 1
	}
	run := rtCall("Go", &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: nc}}}})
	return &ast.BlockStmt{List: append(pre, &ast.ExprStmt{X: run})}
}
