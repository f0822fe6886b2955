// instr writes an instrumented copy of the golisp package: synchronisation,
// channels, goroutines and time go through vsched, and accesses to shared
// memory are reported to it.
//
//	instr -src /repo -dst DIR -level 2
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	src   = flag.String("src", "/repo", "")
	dst   = flag.String("dst", "", "")
	level = flag.Int("level", 2, "0: sync only, 1: + maps, 2: + memory")
)

type pkgInfo struct {
	ImportPath, Export, Dir string
	GoFiles, CgoFiles       []string
	Standard                bool
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...); os.Exit(1) }

func main() {
	flag.Parse()
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Export,Dir,GoFiles,CgoFiles,Standard", ".")
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	exports := map[string]string{}
	var self pkgInfo
	dec := json.NewDecoder(bytes.NewReader(out))
	for {
		var p pkgInfo
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		exports[p.ImportPath] = p.Export
		if p.ImportPath == "github.com/steelseries/golisp" {
			self = p
		}
	}
	if len(self.GoFiles) == 0 {
		die("package not found")
	}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, f := range self.GoFiles {
		af, err := parser.ParseFile(fset, filepath.Join(*src, f), nil, 0)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, f)
	}
	for _, f := range self.CgoFiles {
		stub := stubCgo(filepath.Join(*src, f))
		af, err := parser.ParseFile(fset, f, stub, 0)
		if err != nil {
			die("stub: %v", err)
		}
		files = append(files, af)
		names = append(names, f)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{}, Uses: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Scopes: map[ast.Node]*types.Scope{}, Implicits: map[ast.Node]types.Object{},
	}
	conf := types.Config{
		Importer: importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
			e := exports[path]
			if e == "" {
				return nil, fmt.Errorf("no export data for %s", path)
			}
			return os.Open(e)
		}),
		Error: func(err error) { fmt.Fprintln(os.Stderr, "types:", err) },
	}
	pkg, err := conf.Check("github.com/steelseries/golisp", fset, files, info)
	if err != nil {
		die("type check failed")
	}
	in := &instr{fset: fset, info: info, pkg: pkg, level: *level}
	os.MkdirAll(*dst, 0o755)
	for i, f := range files {
		in.file(f)
		var b bytes.Buffer
		if err := (&printer.Config{Mode: printer.UseSpaces | printer.TabIndent, Tabwidth: 8}).Fprint(&b, token.NewFileSet(), f); err != nil {
			die("print: %v", err)
		}
		if err := os.WriteFile(filepath.Join(*dst, names[i]), b.Bytes(), 0o644); err != nil {
			die("%v", err)
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package golisp\n\nimport (\n\t\"unsafe\"\n\t\"verif/mc/vsched\"\n)\n\nvar _ unsafe.Pointer\n\nfunc init() {\n")
	for _, n := range []string{"ProfileGUID"} {
		if v, ok := pkg.Scope().Lookup(n).(*types.Var); ok && v != nil {
			fmt.Fprintf(&b, "\tvsched.Ignore(unsafe.Pointer(&%s))\n", n)
		}
	}
	fmt.Fprintf(&b, "\tvsched.SiteNames = []string{\n")
	for _, s := range in.sites {
		fmt.Fprintf(&b, "\t\t%q,\n", s)
	}
	fmt.Fprintf(&b, "\t}\n}\n")
	os.WriteFile(filepath.Join(*dst, "zz_vsched.go"), b.Bytes(), 0o644)
	gm, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	lines := strings.Split(string(gm), "\n")
	for i, l := range lines {
		if strings.HasPrefix(l, "go ") {
			lines[i] = "go 1.21"
		}
	}
	os.WriteFile(filepath.Join(*dst, "go.mod"), []byte(strings.Join(lines, "\n")), 0o644)
	gs, _ := os.ReadFile(filepath.Join(*src, "go.sum"))
	os.WriteFile(filepath.Join(*dst, "go.sum"), gs, 0o644)
}

// stubCgo keeps the functions of a cgo file with empty bodies.
func stubCgo(path string) string {
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, nil, 0)
	if err != nil {
		die("%v", err)
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n", f.Name.Name)
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		fd.Body = &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"cgo stub"`}}}}}}
		fd.Doc = nil
		printer.Fprint(&b, token.NewFileSet(), fd)
		b.WriteString("\n")
	}
	return b.String()
}

type instr struct {
	fset   *token.FileSet
	info   *types.Info
	pkg    *types.Package
	level  int
	sites  []string
	siteN  map[string]int
	shared map[types.Object]bool // locals that are captured or have their address taken
	used   bool
	tmp    int
	fn     string
}

func (in *instr) tname(p string) string { in.tmp++; return fmt.Sprintf("vs_%s%d", p, in.tmp) }

func (in *instr) site(e ast.Node) ast.Expr {
	p := in.fset.Position(e.Pos())
	var b bytes.Buffer
	if x, ok := e.(ast.Expr); ok {
		printer.Fprint(&b, token.NewFileSet(), x)
	}
	t := b.String()
	if len(t) > 40 {
		t = t[:40]
	}
	s := fmt.Sprintf("%s:%d(%s) %s", filepath.Base(p.Filename), p.Line, in.fn, t)
	if in.siteN == nil {
		in.siteN = map[string]int{}
		in.sites = append(in.sites, "?")
	}
	n, ok := in.siteN[s]
	if !ok {
		n = len(in.sites)
		in.siteN[s] = n
		in.sites = append(in.sites, s)
	}
	return &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}
}

func vs(name string) ast.Expr {
	return &ast.SelectorExpr{X: ast.NewIdent("vsched"), Sel: ast.NewIdent(name)}
}

func (in *instr) call(name string, args ...ast.Expr) *ast.CallExpr {
	in.used = true
	return &ast.CallExpr{Fun: vs(name), Args: args}
}

func (in *instr) file(f *ast.File) {
	in.used = false
	repl := map[string]string{"sync": "verif/mc/vsched/vsync", "sync/atomic": "verif/mc/vsched/vatomic", "time": "verif/mc/vsched/vtime"}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if r, ok := repl[p]; ok {
			im.Path.Value = strconv.Quote(r)
			if im.Name == nil {
				im.Name = ast.NewIdent(p[strings.LastIndex(p, "/")+1:])
			}
		}
	}
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.FuncDecl:
			if d.Body != nil {
				in.fn = d.Name.Name
				in.findShared(d)
				in.block(d.Body)
			}
		case *ast.GenDecl:
			if d.Tok == token.VAR {
				in.fn = "init"
				in.findShared(d)
				for _, s := range d.Specs {
					v := s.(*ast.ValueSpec)
					for i := range v.Values {
						// only function literals inside need instrumenting
						v.Values[i] = in.lits(v.Values[i])
					}
				}
			}
		}
	}
	if in.used {
		spec := &ast.ImportSpec{Path: &ast.BasicLit{Kind: token.STRING, Value: `"verif/mc/vsched"`}}
		f.Imports = append(f.Imports, spec)
		f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
	}
}

func (in *instr) lits(e ast.Expr) ast.Expr {
	ast.Inspect(e, func(n ast.Node) bool {
		if fl, ok := n.(*ast.FuncLit); ok {
			in.block(fl.Body)
			return false
		}
		return true
	})
	return e
}

// findShared finds local variables that another goroutine could reach.
func (in *instr) findShared(d ast.Node) {
	in.shared = map[types.Object]bool{}
	var lits []*ast.FuncLit
	var walk func(n ast.Node)
	root := func(e ast.Expr) types.Object {
		for {
			switch x := e.(type) {
			case *ast.ParenExpr:
				e = x.X
			case *ast.SelectorExpr:
				if t := in.info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Pointer); ok {
						return nil
					}
				}
				e = x.X
			case *ast.IndexExpr:
				if t := in.info.TypeOf(x.X); t != nil {
					if _, ok := t.Underlying().(*types.Array); !ok {
						return nil
					}
				}
				e = x.X
			case *ast.Ident:
				return in.info.Uses[x]
			default:
				return nil
			}
		}
	}
	walk = func(n ast.Node) {
		ast.Inspect(n, func(m ast.Node) bool {
			switch x := m.(type) {
			case *ast.FuncLit:
				lits = append(lits, x)
				walk(x.Body)
				lits = lits[:len(lits)-1]
				return false
			case *ast.Ident:
				if o, ok := in.info.Uses[x].(*types.Var); ok && !o.IsField() && o.Parent() != in.pkg.Scope() && o.Pkg() == in.pkg {
					for _, l := range lits {
						if o.Pos() < l.Pos() || o.Pos() >= l.End() {
							in.shared[o] = true
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if o := root(x.X); o != nil {
						in.shared[o] = true
					}
				}
			case *ast.SelectorExpr:
				// method call with pointer receiver on an addressable local
				if s := in.info.Selections[x]; s != nil && s.Kind() == types.MethodVal {
					if sig, ok := s.Obj().Type().(*types.Signature); ok && sig.Recv() != nil {
						_, ptr := sig.Recv().Type().(*types.Pointer)
						isPtr := false
						if t := in.info.TypeOf(x.X); t != nil {
							_, isPtr = t.Underlying().(*types.Pointer)
						}
						if ptr && !isPtr {
							if o := root(x.X); o != nil {
								in.shared[o] = true
							}
						}
					}
				}
			}
			return true
		})
	}
	walk(d)
}

// ---- expressions

func (in *instr) isVal(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	return ok && tv.IsValue() && !tv.IsNil()
}

func (in *instr) wrapR(e, orig ast.Expr) ast.Expr {
	return &ast.ParenExpr{X: &ast.StarExpr{X: in.call("R", &ast.UnaryExpr{Op: token.AND, X: e}, in.site(orig))}}
}

func (in *instr) identShared(x *ast.Ident) bool {
	o, ok := in.info.Uses[x].(*types.Var)
	if !ok || o.IsField() {
		return false
	}
	if o.Parent() == in.pkg.Scope() {
		return true
	}
	return in.shared[o]
}

// sharable: the location named by an addressable expression may be reached by
// another goroutine.
func (in *instr) sharable(e ast.Expr) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return in.sharable(x.X)
	case *ast.Ident:
		return in.identShared(x)
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		s := in.info.Selections[x]
		if s == nil {
			return false // qualified identifier of another package
		}
		if s.Kind() != types.FieldVal {
			return false
		}
		if s.Indirect() {
			return true
		}
		if t := in.info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				return true
			}
		}
		return in.sharable(x.X)
	case *ast.IndexExpr:
		t := in.info.TypeOf(x.X)
		if t == nil {
			return false
		}
		switch t.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return in.sharable(x.X)
		}
	}
	return false
}

func (in *instr) addressable(e ast.Expr) bool {
	tv, ok := in.info.Types[e]
	if ok {
		return tv.Addressable()
	}
	if id, isID := e.(*ast.Ident); isID {
		_, v := in.info.Uses[id].(*types.Var)
		return v
	}
	return false
}

func mapType(t types.Type) *types.Map {
	if t == nil {
		return nil
	}
	m, _ := t.Underlying().(*types.Map)
	return m
}

func chanType(t types.Type) *types.Chan {
	if t == nil {
		return nil
	}
	c, _ := t.Underlying().(*types.Chan)
	return c
}

// addr transforms e for a context that needs its location, not its value.
func (in *instr) addr(e ast.Expr) ast.Expr {
	switch x := e.(type) {
	case *ast.ParenExpr:
		x.X = in.addr(x.X)
		return x
	case *ast.StarExpr:
		x.X = in.val(x.X)
		return x
	case *ast.SelectorExpr:
		if in.info.Selections[x] == nil {
			return x
		}
		if t := in.info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Pointer); ok {
				x.X = in.val(x.X)
				return x
			}
		}
		if in.addressable(x.X) {
			x.X = in.addr(x.X)
		} else {
			x.X = in.val(x.X)
		}
		return x
	case *ast.IndexExpr:
		t := in.info.TypeOf(x.X)
		if t != nil {
			if _, ok := t.Underlying().(*types.Array); ok && in.addressable(x.X) {
				x.X = in.addr(x.X)
			} else {
				x.X = in.val(x.X)
			}
			x.Index = in.val(x.Index)
		}
		return x
	case *ast.CompositeLit:
		return in.val(x)
	}
	return e
}

func (in *instr) vals(l []ast.Expr) {
	for i := range l {
		l[i] = in.val(l[i])
	}
}

// val transforms e for a context that uses its value.
func (in *instr) val(e ast.Expr) ast.Expr {
	if e == nil {
		return nil
	}
	if tv, ok := in.info.Types[e]; ok && (tv.IsType() || tv.IsBuiltin() || tv.Value != nil) {
		if tv.Value == nil || !containsLit(e) {
			return e
		}
	}
	switch x := e.(type) {
	case *ast.Ident:
		if in.level >= 2 && in.identShared(x) && in.sizeOK(in.info.TypeOf(x)) {
			return in.wrapR(x, x)
		}
		return x
	case *ast.BasicLit:
		return x
	case *ast.FuncLit:
		in.block(x.Body)
		return x
	case *ast.CompositeLit:
		isMapLit := mapType(in.info.TypeOf(x)) != nil
		isArr := false
		if t := in.info.TypeOf(x); t != nil {
			switch t.Underlying().(type) {
			case *types.Slice, *types.Array:
				isArr = true
			}
		}
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				if isMapLit || isArr {
					kv.Key = in.valLit(kv.Key)
				}
				kv.Value = in.valLit(kv.Value)
			} else {
				x.Elts[i] = in.valLit(el)
			}
		}
		return x
	case *ast.ParenExpr:
		x.X = in.val(x.X)
		return x
	case *ast.SelectorExpr:
		s := in.info.Selections[x]
		if s == nil {
			return x // package-qualified
		}
		if s.Kind() == types.MethodVal {
			sig, _ := s.Obj().Type().(*types.Signature)
			if n := objUse(s); n != "" && in.level >= 2 && sig != nil {
				// objects of other packages that threads must not share unlocked
				o := cloneExpr(x)
				if _, isPtr := in.info.TypeOf(x.X).Underlying().(*types.Pointer); isPtr {
					x.X = in.call(n, in.val(x.X), in.site(o))
					return x
				} else if in.addressable(x.X) {
					x.X = in.call(n, &ast.UnaryExpr{Op: token.AND, X: in.addr(x.X)}, in.site(o))
					return x
				}
			}
			if sig != nil && sig.Recv() != nil {
				_, ptrRecv := sig.Recv().Type().(*types.Pointer)
				if t := in.info.TypeOf(x.X); t != nil {
					if _, isPtr := t.Underlying().(*types.Pointer); ptrRecv && !isPtr && in.addressable(x.X) {
						x.X = in.addr(x.X)
						return x
					}
				}
			}
			x.X = in.val(x.X)
			return x
		}
		if s.Kind() != types.FieldVal {
			return x
		}
		sh := in.level >= 2 && in.addressable(x) && in.sharable(x) && in.sizeOK(in.info.TypeOf(x))
		orig := cloneExpr(x)
		in.addr(x)
		if sh {
			return in.wrapR(x, orig)
		}
		return x
	case *ast.StarExpr:
		sh := in.level >= 2 && in.sizeOK(in.info.TypeOf(x))
		orig := cloneExpr(x)
		x.X = in.val(x.X)
		if sh {
			return in.wrapR(x, orig)
		}
		return x
	case *ast.IndexExpr:
		t := in.info.TypeOf(x.X)
		if t == nil {
			return x
		}
		if tv, ok := in.info.Types[x.X]; ok && !tv.IsValue() {
			return x // generic instantiation
		}
		if mapType(t) != nil {
			o := cloneExpr(x)
			x.X = in.val(x.X)
			x.Index = in.val(x.Index)
			if in.level >= 1 {
				x.X = in.call("MapR", x.X, in.site(o))
			}
			return x
		}
		if _, ok := t.Underlying().(*types.Signature); ok {
			return x
		}
		sh := in.level >= 2 && in.addressable(x) && in.sharable(x) && in.sizeOK(in.info.TypeOf(x))
		orig := cloneExpr(x)
		in.addr(x)
		if sh {
			return in.wrapR(x, orig)
		}
		return x
	case *ast.SliceExpr:
		t := in.info.TypeOf(x.X)
		if t != nil {
			if _, ok := t.Underlying().(*types.Array); ok && in.addressable(x.X) {
				x.X = in.addr(x.X)
			} else {
				x.X = in.val(x.X)
			}
		}
		x.Low, x.High, x.Max = in.val(x.Low), in.val(x.High), in.val(x.Max)
		return x
	case *ast.TypeAssertExpr:
		x.X = in.val(x.X)
		return x
	case *ast.UnaryExpr:
		switch x.Op {
		case token.AND:
			x.X = in.addr(x.X)
			return x
		case token.ARROW:
			return in.call("Recv", in.val(x.X))
		}
		x.X = in.val(x.X)
		return x
	case *ast.BinaryExpr:
		x.X, x.Y = in.val(x.X), in.val(x.Y)
		return x
	case *ast.KeyValueExpr:
		x.Value = in.val(x.Value)
		return x
	case *ast.CallExpr:
		return in.callExpr(x)
	}
	return e
}

func (in *instr) valLit(e ast.Expr) ast.Expr { return in.val(e) }

func containsLit(e ast.Expr) bool {
	f := false
	ast.Inspect(e, func(n ast.Node) bool {
		if _, ok := n.(*ast.FuncLit); ok {
			f = true
		}
		return !f
	})
	return f
}

// sizeOK: values whose every access is worth reporting (locks and such are not values).
func (in *instr) sizeOK(t types.Type) bool {
	if t == nil {
		return false
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		return !hasSync(t, 0) && u.NumFields() > 0
	case *types.Array:
		return u.Len() <= 8
	case *types.Tuple:
		return false
	}
	return true
}

func hasSync(t types.Type, d int) bool {
	if d > 4 {
		return false
	}
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		if p := n.Obj().Pkg().Path(); p == "sync" || p == "sync/atomic" {
			return true
		}
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if hasSync(s.Field(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

func cloneExpr(e ast.Expr) ast.Expr {
	// Only for site names: printed before it is changed.
	var b bytes.Buffer
	printer.Fprint(&b, token.NewFileSet(), e)
	id := &ast.Ident{NamePos: e.Pos(), Name: strings.Join(strings.Fields(b.String()), " ")}
	return id
}

func (in *instr) callExpr(x *ast.CallExpr) ast.Expr {
	if id, ok := unparen(x.Fun).(*ast.Ident); ok {
		if _, b := in.info.Uses[id].(*types.Builtin); b {
			switch id.Name {
			case "close":
				return in.call("Close", in.val(x.Args[0]))
			case "len", "cap":
				t := in.info.TypeOf(x.Args[0])
				if chanType(t) != nil && id.Name == "len" {
					return in.call("ChanLen", in.val(x.Args[0]))
				}
				if mapType(t) != nil && in.level >= 1 {
					o := cloneExpr(x.Args[0])
					x.Args[0] = in.call("MapR", in.val(x.Args[0]), in.site(o))
					return x
				}
			case "delete":
				o := cloneExpr(x.Args[0])
				x.Args[0], x.Args[1] = in.val(x.Args[0]), in.val(x.Args[1])
				if in.level >= 1 {
					x.Args[0] = in.call("MapW", x.Args[0], in.site(o))
				}
				return x
			case "make", "new":
				for i := 1; i < len(x.Args); i++ {
					x.Args[i] = in.val(x.Args[i])
				}
				return x
			case "recover":
				return x
			case "append":
				return in.appendCall(x)
			case "copy":
				o := cloneExpr(x)
				in.vals(x.Args)
				if in.level >= 2 && isSlice(in.info.TypeOf(x.Args[0])) && isSlice(in.info.TypeOf(x.Args[1])) {
					return in.call("Copy", x.Args[0], x.Args[1], in.site(o))
				}
				return x
			}
			in.vals(x.Args)
			return x
		}
	}
	if tv, ok := in.info.Types[x.Fun]; ok && tv.IsType() {
		// conversion; keep unsafe.Pointer(&x) shapes intact
		in.vals(x.Args)
		if b, ok := tv.Type.Underlying().(*types.Basic); ok && b.Kind() == types.Uintptr && len(x.Args) == 1 {
			if a, ok := in.info.TypeOf(x.Args[0]).(*types.Basic); ok && a.Kind() == types.UnsafePointer {
				// the order of addresses must be the same in every execution
				return in.call("Addr", x.Args[0])
			}
		}
		if ok && len(x.Args) == 1 && in.level >= 2 && isSlice(in.info.TypeOf(x.Args[0])) && isString(tv.Type) {
			x.Args[0] = in.call("SliceR", x.Args[0], in.site(x))
		}
		return x
	}
	if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
		if id, ok := s.X.(*ast.Ident); ok {
			if pn, ok := in.info.Uses[id].(*types.PkgName); ok && pn.Imported().Path() == "unsafe" {
				return x
			}
		}
	}
	foreign := ""
	if s, ok := unparen(x.Fun).(*ast.SelectorExpr); ok {
		if o := in.info.Uses[s.Sel]; o != nil && o.Pkg() != nil && o.Pkg() != in.pkg {
			if _, ok := o.(*types.Func); ok {
				foreign = o.Name()
			}
		}
	}
	o := cloneExpr(x)
	x.Fun = in.val(x.Fun)
	for i, a := range x.Args {
		sl := foreign != "" && in.level >= 2 && in.isVal(a) && isSlice(in.info.TypeOf(a))
		obj := foreign != "" && in.level >= 2 && in.isVal(a) && isPtr(in.info.TypeOf(a)) && unsafeObj(in.info.TypeOf(a))
		x.Args[i] = in.val(a)
		if obj {
			x.Args[i] = in.call("ObjW", x.Args[i], in.site(o))
		}
		if sl {
			// code that is not instrumented goes through the elements
			n := "SliceR"
			if strings.HasPrefix(foreign, "Read") {
				n = "SliceW"
			}
			x.Args[i] = in.call(n, x.Args[i], in.site(o))
		}
	}
	return x
}

// appendCall: an append may write behind the end of a slice that others have.
func (in *instr) appendCall(x *ast.CallExpr) ast.Expr {
	t := in.info.TypeOf(x.Args[0])
	o := cloneExpr(x)
	ok := in.level >= 2 && len(x.Args) > 1 && in.isVal(x.Args[0]) && isSlice(t)
	all := x.Ellipsis.IsValid()
	if all && ok && !isSlice(in.info.TypeOf(x.Args[1])) {
		ok = false
	}
	in.vals(x.Args)
	if !ok {
		return x
	}
	if all {
		return in.call("AppendAll", x.Args[0], x.Args[1], in.site(o))
	}
	x.Args[0] = in.call("SliceA", x.Args[0], in.site(o), &ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(len(x.Args) - 1)})
	return x
}

// objUse tells what a method of a type of the standard library that is not safe
// for several threads does with its receiver.
func objUse(s *types.Selection) string {
	if len(s.Index()) != 1 || s.Obj().Pkg() == nil {
		return ""
	}
	if !unsafeObj(s.Recv()) {
		return ""
	}
	switch s.Obj().Name() {
	case "Len", "Cap", "String", "Front", "Back", "Bytes", "Size", "Buffered", "Available", "Err", "Text":
		return "ObjR"
	}
	return "ObjW"
}

func unsafeObj(t types.Type) bool {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := t.(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "bytes", "strings", "bufio", "container/list", "container/ring", "encoding/json", "encoding/binary", "text/scanner", "text/tabwriter", "math/rand", "math/big":
		return n.Obj().Name() != "Replacer"
	}
	return false
}

func isSlice(t types.Type) bool {
	if t == nil {
		return false
	}
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.UntypedNil {
		return false
	}
	_, ok := t.Underlying().(*types.Slice)
	return ok
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// ---- statements

func (in *instr) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = in.stmts(b.List)
	}
}

func (in *instr) stmts(l []ast.Stmt) []ast.Stmt {
	var out []ast.Stmt
	for _, s := range l {
		out = append(out, in.stmt(s)...)
	}
	return out
}

func (in *instr) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := in.stmt(s)
	if len(r) == 1 {
		return r[0]
	}
	return &ast.BlockStmt{List: r}
}

// simple transforms a statement that must stay a single simple statement.
func (in *instr) simple(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	r := in.stmt(s)
	if len(r) == 1 {
		if _, isBlock := r[0].(*ast.BlockStmt); !isBlock {
			return r[0]
		}
	}
	// wrap as a call of a function literal
	return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: r}}}}
}

// lhs returns a setter for the location, or nil when a plain assignment will do.
func (in *instr) setter(l ast.Expr) func(rhs ast.Expr) ast.Stmt {
	u := unparen(l)
	if ix, ok := u.(*ast.IndexExpr); ok && mapType(in.info.TypeOf(ix.X)) != nil {
		if in.level < 1 {
			return nil
		}
		o := cloneExpr(ix)
		m, k := in.val(ix.X), in.val(ix.Index)
		st := in.site(o)
		return func(rhs ast.Expr) ast.Stmt {
			return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: in.call("MP", m, st), Sel: ast.NewIdent("Set")}, Args: []ast.Expr{k, rhs}}}
		}
	}
	if id, ok := u.(*ast.Ident); ok && (id.Name == "_" || !in.identShared(id)) {
		return nil
	}
	if in.level < 2 || !in.sharable(u) || !in.sizeOK(in.info.TypeOf(u)) {
		return nil
	}
	o := cloneExpr(u)
	a := in.addr(u)
	st := in.site(o)
	return func(rhs ast.Expr) ast.Stmt {
		return &ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: in.call("P", &ast.UnaryExpr{Op: token.AND, X: a}, st), Sel: ast.NewIdent("Set")}, Args: []ast.Expr{rhs}}}
	}
}

func (in *instr) assign(s *ast.AssignStmt) []ast.Stmt {
	if s.Tok == token.DEFINE {
		// v, ok := <-ch
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if r := in.commaOk(s.Rhs[0]); r != nil {
				s.Rhs[0] = r
				return []ast.Stmt{s}
			}
		}
		in.vals(s.Rhs)
		// a redeclared shared variable on the left is simply assigned
		return []ast.Stmt{s}
	}
	if s.Tok != token.ASSIGN {
		// op=
		op := s.Tok - token.ADD_ASSIGN + token.ADD
		l := s.Lhs[0]
		if set := in.needSet(l); set {
			// read and write separately, with the operands evaluated once
			rv := in.val(in.dup(l))
			rhs := in.val(s.Rhs[0])
			st := in.setter(l)
			return []ast.Stmt{st(&ast.BinaryExpr{X: rv, Op: op, Y: &ast.ParenExpr{X: rhs}})}
		}
		in.vals(s.Rhs)
		s.Lhs[0] = in.addr(l)
		return []ast.Stmt{s}
	}
	if len(s.Lhs) == 1 && len(s.Rhs) == 1 {
		rhs := in.val(s.Rhs[0])
		if st := in.setter(s.Lhs[0]); st != nil {
			return []ast.Stmt{st(rhs)}
		}
		s.Rhs[0] = rhs
		s.Lhs[0] = in.addrLhs(s.Lhs[0])
		return []ast.Stmt{s}
	}
	any := false
	for _, l := range s.Lhs {
		if in.needSet(l) {
			any = true
		}
	}
	if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
		if r := in.commaOk(s.Rhs[0]); r != nil {
			s.Rhs[0] = r
		} else {
			in.vals(s.Rhs)
		}
	} else {
		in.vals(s.Rhs)
	}
	if !any {
		for i := range s.Lhs {
			s.Lhs[i] = in.addrLhs(s.Lhs[i])
		}
		return []ast.Stmt{s}
	}
	// t1, t2 := rhs...; a = t1; b = t2
	var pre, post []ast.Stmt
	for i, l := range s.Lhs {
		if in.needSet(l) {
			t := ast.NewIdent(in.tname("t"))
			typ := in.info.TypeOf(l)
			_ = typ
			st := in.setter(l)
			s.Lhs[i] = t
			pre = append(pre, in.varDecl(t, l))
			post = append(post, st(ast.NewIdent(t.Name)))
		} else {
			s.Lhs[i] = in.addrLhs(l)
		}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(append(pre, s), post...)}}
}

// varDecl declares t with the type of location l.
func (in *instr) varDecl(t *ast.Ident, l ast.Expr) ast.Stmt {
	ty := types.TypeString(in.info.TypeOf(l), func(p *types.Package) string {
		if p == in.pkg {
			return ""
		}
		return p.Name()
	})
	te, err := parser.ParseExpr(ty)
	if err != nil {
		die("type %s: %v", ty, err)
	}
	return &ast.DeclStmt{Decl: &ast.GenDecl{Tok: token.VAR, Specs: []ast.Spec{&ast.ValueSpec{Names: []*ast.Ident{t}, Type: te}}}}
}

func (in *instr) addrLhs(l ast.Expr) ast.Expr {
	if id, ok := unparen(l).(*ast.Ident); ok {
		return id
	}
	return in.addr(l)
}

func (in *instr) needSet(l ast.Expr) bool {
	u := unparen(l)
	if ix, ok := u.(*ast.IndexExpr); ok && mapType(in.info.TypeOf(ix.X)) != nil {
		return in.level >= 1
	}
	if id, ok := u.(*ast.Ident); ok && (id.Name == "_" || !in.identShared(id)) {
		return false
	}
	return in.level >= 2 && in.sharable(u) && in.sizeOK(in.info.TypeOf(u))
}

// dup copies an expression keeping its type information.
func (in *instr) dup(e ast.Expr) ast.Expr {
	var n ast.Expr
	switch x := e.(type) {
	case *ast.Ident:
		c := *x
		if o := in.info.Uses[x]; o != nil {
			in.info.Uses[&c] = o
		}
		n = &c
	case *ast.ParenExpr:
		c := *x
		c.X = in.dup(x.X)
		n = &c
	case *ast.StarExpr:
		c := *x
		c.X = in.dup(x.X)
		n = &c
	case *ast.SelectorExpr:
		c := *x
		if s := in.info.Selections[x]; s != nil {
			c.X = in.dup(x.X)
			in.info.Selections[&c] = s
		}
		n = &c
	case *ast.IndexExpr:
		c := *x
		c.X, c.Index = in.dup(x.X), in.dup(x.Index)
		n = &c
	default:
		return e
	}
	if tv, ok := in.info.Types[e]; ok {
		in.info.Types[n] = tv
	}
	return n
}

func (in *instr) commaOk(e ast.Expr) ast.Expr {
	if u, ok := unparen(e).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
		return in.call("Recv2", in.val(u.X))
	}
	return nil
}

func (in *instr) stmt(s ast.Stmt) []ast.Stmt {
	switch x := s.(type) {
	case *ast.ExprStmt:
		x.X = in.val(x.X)
	case *ast.SendStmt:
		return []ast.Stmt{&ast.ExprStmt{X: in.call("Send", in.val(x.Chan), in.val(x.Value))}}
	case *ast.IncDecStmt:
		op := token.ADD_ASSIGN
		if x.Tok == token.DEC {
			op = token.SUB_ASSIGN
		}
		if in.needSet(x.X) {
			return in.assign(&ast.AssignStmt{Lhs: []ast.Expr{x.X}, Tok: op, Rhs: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: "1"}}})
		}
		x.X = in.addrLhs(x.X)
	case *ast.AssignStmt:
		return in.assign(x)
	case *ast.DeclStmt:
		if g, ok := x.Decl.(*ast.GenDecl); ok && g.Tok == token.VAR {
			for _, sp := range g.Specs {
				v := sp.(*ast.ValueSpec)
				if len(v.Names) == 2 && len(v.Values) == 1 {
					if r := in.commaOk(v.Values[0]); r != nil {
						v.Values[0] = r
						continue
					}
				}
				in.vals(v.Values)
			}
		}
	case *ast.GoStmt:
		return in.goStmt(x)
	case *ast.DeferStmt:
		r := in.val(x.Call)
		if c, ok := r.(*ast.CallExpr); ok {
			x.Call = c
		}
	case *ast.ReturnStmt:
		in.vals(x.Results)
	case *ast.BlockStmt:
		in.block(x)
	case *ast.IfStmt:
		x.Init = in.simple(x.Init)
		x.Cond = in.val(x.Cond)
		in.block(x.Body)
		if x.Else != nil {
			x.Else = in.one(x.Else)
		}
	case *ast.CaseClause:
		in.vals(x.List)
		x.Body = in.stmts(x.Body)
	case *ast.SwitchStmt:
		x.Init = in.simple(x.Init)
		if x.Tag != nil {
			x.Tag = in.val(x.Tag)
		}
		for _, c := range x.Body.List {
			in.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		x.Init = in.simple(x.Init)
		switch a := x.Assign.(type) {
		case *ast.AssignStmt:
			if t, ok := a.Rhs[0].(*ast.TypeAssertExpr); ok {
				t.X = in.val(t.X)
			}
		case *ast.ExprStmt:
			if t, ok := a.X.(*ast.TypeAssertExpr); ok {
				t.X = in.val(t.X)
			}
		}
		for _, c := range x.Body.List {
			cc := c.(*ast.CaseClause)
			cc.Body = in.stmts(cc.Body)
		}
	case *ast.ForStmt:
		x.Init = in.simple(x.Init)
		if x.Cond != nil {
			x.Cond = in.val(x.Cond)
		}
		x.Post = in.simple(x.Post)
		in.block(x.Body)
	case *ast.RangeStmt:
		return in.rangeStmt(x)
	case *ast.LabeledStmt:
		r := in.stmt(x.Stmt)
		if len(r) == 1 {
			x.Stmt = r[0]
			return []ast.Stmt{x}
		}
		x.Stmt = r[len(r)-1]
		return append(r[:len(r)-1], x)
	case *ast.SelectStmt:
		return in.selectStmt(x)
	}
	return []ast.Stmt{s}
}

func (in *instr) goStmt(g *ast.GoStmt) []ast.Stmt {
	c := g.Call
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok && len(c.Args) == 0 {
		in.block(fl.Body)
		return []ast.Stmt{&ast.ExprStmt{X: in.call("Go", fl)}}
	}
	var pre []ast.Stmt
	bind := func(e ast.Expr) ast.Expr {
		if tv, ok := in.info.Types[e]; ok && (tv.Value != nil || tv.IsNil() || tv.IsType() || tv.IsBuiltin()) {
			return e
		}
		if id, ok := unparen(e).(*ast.Ident); ok {
			if _, isF := in.info.Uses[id].(*types.Func); isF {
				return e
			}
		}
		t := ast.NewIdent(in.tname("g"))
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{in.val(e)}})
		return ast.NewIdent(t.Name)
	}
	if fl, ok := unparen(c.Fun).(*ast.FuncLit); ok {
		in.block(fl.Body)
	} else {
		c.Fun = bind(c.Fun)
	}
	for i := range c.Args {
		c.Args[i] = bind(c.Args[i])
	}
	fl := &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: c}}}}
	pre = append(pre, &ast.ExprStmt{X: in.call("Go", fl)})
	return []ast.Stmt{&ast.BlockStmt{List: pre}}
}

func (in *instr) rangeStmt(x *ast.RangeStmt) []ast.Stmt {
	t := in.info.TypeOf(x.X)
	if mapType(t) != nil && in.level >= 1 {
		o := cloneExpr(x.X)
		m := ast.NewIdent(in.tname("m"))
		k := ast.NewIdent(in.tname("k"))
		v := ast.NewIdent(in.tname("v"))
		ok := ast.NewIdent(in.tname("ok"))
		pre := &ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{in.val(x.X)}}
		in.block(x.Body)
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: in.call("MapR", ast.NewIdent(m.Name), in.site(o)), Index: ast.NewIdent(k.Name)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}},
		}
		var lhs, rhs []ast.Expr
		if x.Key != nil && !blank(x.Key) {
			lhs, rhs = append(lhs, x.Key), append(rhs, ast.Expr(ast.NewIdent(k.Name)))
		}
		if x.Value != nil && !blank(x.Value) {
			lhs, rhs = append(lhs, x.Value), append(rhs, ast.Expr(ast.NewIdent(v.Name)))
		}
		if len(lhs) > 0 {
			body = append(body, &ast.AssignStmt{Lhs: lhs, Tok: x.Tok, Rhs: rhs})
			if x.Tok == token.DEFINE {
				for _, l := range lhs {
					body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(l.(*ast.Ident).Name)}})
				}
			}
		}
		n := &ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE,
			X:    in.call("MapKeys", ast.NewIdent(m.Name), in.site(o)),
			Body: &ast.BlockStmt{List: append(body, x.Body.List...)}}
		return []ast.Stmt{pre, n}
	}
	if chanType(t) != nil {
		c := ast.NewIdent(in.tname("c"))
		v := ast.NewIdent(in.tname("v"))
		ok := ast.NewIdent(in.tname("ok"))
		pre := &ast.AssignStmt{Lhs: []ast.Expr{c}, Tok: token.DEFINE, Rhs: []ast.Expr{in.val(x.X)}}
		in.block(x.Body)
		body := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{in.call("Recv2", ast.NewIdent(c.Name))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}},
		}
		if x.Key != nil && !blank(x.Key) {
			body = append(body, &ast.AssignStmt{Lhs: []ast.Expr{x.Key}, Tok: x.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		}
		n := &ast.ForStmt{Body: &ast.BlockStmt{List: append(body, x.Body.List...)}}
		return []ast.Stmt{pre, n}
	}
	if t != nil {
		if _, isArr := t.Underlying().(*types.Array); !isArr {
			o := cloneExpr(x.X)
			x.X = in.val(x.X)
			if in.level >= 2 && isSlice(t) && x.Value != nil && !blank(x.Value) {
				x.X = in.call("SliceR", x.X, in.site(o))
			}
		}
	}
	in.block(x.Body)
	return []ast.Stmt{x}
}

func blank(e ast.Expr) bool { id, ok := e.(*ast.Ident); return ok && id.Name == "_" }

func (in *instr) selectStmt(x *ast.SelectStmt) []ast.Stmt {
	in.used = true
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	var names, inits []ast.Expr
	hasDef := "false"
	n := 0
	var def *ast.CaseClause
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			hasDef = "true"
			def = &ast.CaseClause{Body: in.stmts(cc.Body)}
			continue
		}
		id := in.tname("s")
		names = append(names, ast.NewIdent(id))
		var pre []ast.Stmt
		switch m := cc.Comm.(type) {
		case *ast.SendStmt:
			inits = append(inits, &ast.CallExpr{Fun: &ast.SelectorExpr{X: in.call("SC", in.val(m.Chan)), Sel: ast.NewIdent("With")}, Args: []ast.Expr{in.val(m.Value)}})
		case *ast.ExprStmt:
			u := unparen(m.X).(*ast.UnaryExpr)
			inits = append(inits, in.call("RC", in.val(u.X)))
		case *ast.AssignStmt:
			u := unparen(m.Rhs[0]).(*ast.UnaryExpr)
			inits = append(inits, in.call("RC", in.val(u.X)))
			rh := []ast.Expr{&ast.SelectorExpr{X: ast.NewIdent(id), Sel: ast.NewIdent("Val")}}
			if len(m.Lhs) == 2 {
				rh = append(rh, &ast.SelectorExpr{X: ast.NewIdent(id), Sel: ast.NewIdent("Ok")})
			}
			if m.Tok == token.DEFINE {
				pre = append(pre, &ast.AssignStmt{Lhs: m.Lhs, Tok: token.DEFINE, Rhs: rh})
			} else {
				for i, l := range m.Lhs {
					if st := in.setter(l); st != nil {
						pre = append(pre, st(rh[i]))
					} else {
						pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{in.addrLhs(l)}, Tok: token.ASSIGN, Rhs: []ast.Expr{rh[i]}})
					}
				}
			}
		}
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{List: []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: strconv.Itoa(n)}}, Body: append(pre, in.stmts(cc.Body)...)})
		n++
	}
	if def == nil {
		def = &ast.CaseClause{Body: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{in.call("Dead")}}}}}
	}
	sw.Body.List = append(sw.Body.List, def)
	args := append([]ast.Expr{ast.NewIdent(hasDef)}, names2(names)...)
	sw.Tag = in.call("Select", args...)
	if len(names) > 0 {
		sw.Init = &ast.AssignStmt{Lhs: names, Tok: token.DEFINE, Rhs: inits}
	}
	return []ast.Stmt{sw}
}

func names2(l []ast.Expr) []ast.Expr {
	var o []ast.Expr
	for _, e := range l {
		o = append(o, ast.NewIdent(e.(*ast.Ident).Name))
	}
	return o
}

var _ = sort.Strings
