// Command instr rewrites the code under test so that it runs on the simulator.
//
// It type-checks the packages of the repository under test (as they are in its
// working tree), writes a rewritten copy of the module and of a few of its
// dependencies into an output directory, and a go.mod for the harness that
// points to these copies. It never writes to the repository.
//
// Rewritten: goroutine starts, channel operations, select, range over channels
// and maps, and every use of the functions and types of sync, time, context,
// math/rand, crypto/rand, runtime and fastrand that would bring in
// nondeterminism. A yield point is inserted before every statement.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/parser"
	"go/printer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

const simPath = "gpsverif/sim"

// repl maps package path + object to the simulator's replacement.
var repl = map[string]map[string]string{
	"sync": {
		"Mutex": "Mutex", "RWMutex": "RWMutex", "WaitGroup": "WaitGroup", "Once": "Once", "Cond": "Cond",
		"NewCond": "NewCond", "Pool": "Pool", "Map": "Map",
		"OnceFunc": "OnceFunc", "OnceValue": "OnceValue", "OnceValues": "OnceValues",
	},
	"time": {
		"Now": "TimeNow", "Since": "TimeSince", "Until": "TimeUntil", "Sleep": "Sleep", "After": "After",
		"AfterFunc": "AfterFunc", "NewTimer": "NewTimer", "NewTicker": "NewTicker", "Tick": "Tick_",
		"Timer": "Timer", "Ticker": "Ticker",
	},
	"context": {
		"WithCancel": "WithCancel", "WithCancelCause": "WithCancelCause", "WithDeadline": "WithDeadline",
		"WithTimeout": "WithTimeout", "WithDeadlineCause": "WithDeadlineCause",
		"WithTimeoutCause": "WithTimeoutCause", "AfterFunc": "ContextAfterFunc",
	},
	"math/rand":                   {"NewSource": "NewSource", "Read": "RandRead"},
	"math/rand/v2":                {"NewPCG": "NewPCG", "NewChaCha8": "NewChaCha8"},
	"crypto/rand":                 {"Reader": "CryptoReader", "Read": "CryptoRead"},
	"runtime":                     {"NumCPU": "NumCPU", "GOMAXPROCS": "GOMAXPROCS", "Gosched": "ForceYield", "NumGoroutine": "NumGoroutine"},
	"github.com/valyala/fastrand": {"RNG": "FastRNG", "Uint32": "FastUint32", "Uint32n": "FastUint32n"},
}

var randTop = map[string]bool{}

func init() {
	for _, n := range strings.Fields("Int63 Uint32 Uint64 Int31 Int Int63n Int31n Intn Float64 Float32 Perm Shuffle NormFloat64 ExpFloat64 Seed") {
		randTop["math/rand."+n] = true
	}
	for _, n := range strings.Fields("Int64 Uint32 Uint64 Int32 Int Uint Int64N Uint64N Int32N Uint32N IntN UintN Float64 Float32 Perm Shuffle NormFloat64 ExpFloat64") {
		randTop["math/rand/v2."+n] = true
	}
}

// keepUsed gives an expression that keeps an import used.
var keepUsed = map[string]string{
	"sync": "var _ %s.Locker", "time": "var _ %s.Duration", "context": "var _ %s.Context",
	"math/rand": "var _ %s.Source", "math/rand/v2": "var _ %s.Source", "crypto/rand": "var _ = %s.Reader",
	"runtime": "var _ = %s.Version", "github.com/valyala/fastrand": "var _ = %s.Uint32",
}

type listPkg struct {
	ImportPath, Dir, Export, Name string
	GoFiles, CgoFiles             []string
	Standard                      bool
	ImportMap                     map[string]string
	Module                        *struct{ Path, GoVersion, Dir string }
	Error                         *struct{ Err string }
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "instr: "+f+"\n", a...); os.Exit(3) }

func main() {
	repo := flag.String("repo", "/repo", "working tree of the module under test")
	out := flag.String("out", "", "output directory")
	harness := flag.String("harness", "", "go.mod of the harness module")
	light := flag.String("light", "github.com/google/uuid,github.com/lucasb-eyer/go-colorful,github.com/paulmach/orb,github.com/tkrajina/gpxgo,github.com/icholy/utm",
		"dependencies whose clocks, randomness and map iteration are replaced (no yield points)")
	skip := flag.String("skip", "/proto", "package path suffixes left alone")
	flag.Parse()
	if *out == "" || *harness == "" {
		die("-out and -harness are required")
	}
	list := exec.Command("go", "list", "-m", "-f", "{{.Path}}")
	list.Dir = *repo
	list.Stderr = os.Stderr
	mraw, err := list.Output()
	if err != nil {
		die("go list -m: %v", err)
	}
	mod := strings.TrimSpace(string(mraw))
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Dir,Export,Name,GoFiles,CgoFiles,Standard,ImportMap,Module,Error", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	raw, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	pkgs := map[string]*listPkg{}
	var order []*listPkg
	dec := json.NewDecoder(bytes.NewReader(raw))
	for {
		p := new(listPkg)
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Error != nil {
			die("%s: %s", p.ImportPath, p.Error.Err)
		}
		pkgs[p.ImportPath] = p
		order = append(order, p)
	}
	if err := os.RemoveAll(filepath.Join(*out, "src")); err != nil {
		die("%v", err)
	}
	lights := strings.Split(*light, ",")
	roots := map[string]string{} // module path -> copy
	for _, p := range order {
		if p.Standard || p.Module == nil || p.Name == "main" {
			continue
		}
		full := p.Module.Path == mod
		isLight := false
		for _, l := range lights {
			if p.Module.Path == l {
				isLight = true
			}
		}
		if !full && !isLight {
			continue
		}
		root := filepath.Join(*out, "src", strings.NewReplacer("/", "_", "@", "_").Replace(p.Module.Path))
		if _, ok := roots[p.Module.Path]; !ok {
			roots[p.Module.Path] = root
			if err := os.MkdirAll(root, 0o755); err != nil {
				die("%v", err)
			}
			gm, err := os.ReadFile(filepath.Join(p.Module.Dir, "go.mod"))
			if err != nil {
				gm = []byte("module " + p.Module.Path + "\n")
			}
			if isLight {
				// The simulator's functions are generic; 1.18 changes nothing else.
				gm = raiseGo(gm, p.Module.GoVersion)
			}
			write(filepath.Join(root, "go.mod"), gm)
		}
		rel, err := filepath.Rel(p.Module.Dir, p.Dir)
		if err != nil {
			die("%v", err)
		}
		dst := filepath.Join(root, rel)
		if err := os.MkdirAll(dst, 0o755); err != nil {
			die("%v", err)
		}
		changed := map[string][]byte{}
		if !strings.HasSuffix(p.ImportPath, *skip) {
			changed = instrument(p, pkgs, full)
		}
		// Everything else in the package directory is copied as it is.
		ents, err := os.ReadDir(p.Dir)
		if err != nil {
			die("%v", err)
		}
		for _, e := range ents {
			n := e.Name()
			if e.IsDir() || strings.HasSuffix(n, "_test.go") || n == "go.mod" {
				continue
			}
			data, ok := changed[filepath.Join(p.Dir, n)]
			if !ok {
				data, err = os.ReadFile(filepath.Join(p.Dir, n))
				if err != nil {
					continue // a dangling link is no concern of the build
				}
			}
			write(filepath.Join(dst, n), data)
		}
	}
	hm, err := os.ReadFile(*harness)
	if err != nil {
		die("%v", err)
	}
	var sb strings.Builder
	for _, l := range strings.Split(string(hm), "\n") {
		if !strings.HasPrefix(strings.TrimSpace(l), "replace ") {
			sb.WriteString(l + "\n")
		}
	}
	var ms []string
	for m := range roots {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	for _, m := range ms {
		fmt.Fprintf(&sb, "replace %s => %s\n", m, roots[m])
	}
	write(filepath.Join(*out, "go.mod"), []byte(sb.String()))
	gs, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	write(filepath.Join(*out, "go.sum"), gs)
}

func raiseGo(gm []byte, have string) []byte {
	var maj, min int
	fmt.Sscanf(have, "%d.%d", &maj, &min)
	if maj == 1 && min >= 18 {
		return gm
	}
	var out []string
	for _, l := range strings.Split(string(gm), "\n") {
		if !strings.HasPrefix(l, "go ") {
			out = append(out, l)
		}
	}
	return []byte(strings.Join(out, "\n") + "\ngo 1.18\n")
}

func write(f string, data []byte) {
	if err := os.WriteFile(f, data, 0o644); err != nil {
		die("%v", err)
	}
}

type rewriter struct {
	fset *token.FileSet
	info *types.Info
	pkg  *types.Package
	full bool
	used bool // the sim package is referenced
	n    int
	keep map[string]string // import path -> local name
	sim  string
}

func instrument(p *listPkg, pkgs map[string]*listPkg, full bool) map[string][]byte {
	res := map[string][]byte{}
	fset := token.NewFileSet()
	var files []*ast.File
	var names []string
	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		af, err := parser.ParseFile(fset, fn, nil, parser.SkipObjectResolution|parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, fn)
	}
	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{},
		Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits: map[ast.Node]types.Object{}, Instances: map[*ast.Ident]types.Instance{},
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if m, ok := p.ImportMap[path]; ok {
			path = m
		}
		q := pkgs[path]
		if q == nil || q.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(q.Export)
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), FakeImportC: true}
	if p.Module != nil && p.Module.GoVersion != "" {
		conf.GoVersion = "go" + p.Module.GoVersion
	}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type-checking %s: %v", p.ImportPath, err)
	}
	for i, f := range files {
		special := false
		for _, cg := range f.Comments {
			for _, c := range cg.List {
				if strings.HasPrefix(c.Text, "//go:embed") || strings.HasPrefix(c.Text, "//go:linkname") || strings.HasPrefix(c.Text, "//export") {
					special = true
				}
			}
		}
		if special {
			continue
		}
		rw := &rewriter{fset: fset, info: info, pkg: tp, full: full, keep: map[string]string{}, sim: "simrt__"}
		rw.file(f)
		if !rw.used && !full {
			continue
		}
		f.Comments = nil
		// import the simulator
		if rw.used {
			spec := &ast.ImportSpec{Name: ast.NewIdent(rw.sim), Path: &ast.BasicLit{Kind: token.STRING, Value: `"` + simPath + `"`}}
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{spec}}}, f.Decls...)
		}
		var buf bytes.Buffer
		cfg := printer.Config{Mode: printer.SourcePos | printer.UseSpaces | printer.TabIndent, Tabwidth: 8}
		if err := cfg.Fprint(&buf, fset, f); err != nil {
			die("print %s: %v", names[i], err)
		}
		var ks []string
		for k := range rw.keep {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Fprintf(&buf, "\n"+keepUsed[k]+"\n", rw.keep[k])
		}
		res[names[i]] = buf.Bytes()
	}
	return res
}

func (r *rewriter) simSel(name string) ast.Expr {
	r.used = true
	return &ast.SelectorExpr{X: ast.NewIdent(r.sim), Sel: ast.NewIdent(name)}
}

func (r *rewriter) simCall(name string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: r.simSel(name), Args: args}
}

func (r *rewriter) tmp(s string) *ast.Ident {
	r.n++
	return ast.NewIdent(fmt.Sprintf("sim%s_%d", s, r.n))
}

func (r *rewriter) file(f *ast.File) {
	for _, d := range f.Decls {
		switch d := d.(type) {
		case *ast.GenDecl:
			d.Doc = nil
			for _, s := range d.Specs {
				r.spec(s)
			}
		case *ast.FuncDecl:
			d.Doc = nil
			if d.Recv != nil {
				r.fields(d.Recv)
			}
			r.ftype(d.Type)
			if d.Body != nil {
				d.Body.List = r.stmts(d.Body.List)
			}
		}
	}
}

func (r *rewriter) spec(s ast.Spec) {
	switch s := s.(type) {
	case *ast.ImportSpec:
		s.Doc, s.Comment = nil, nil
	case *ast.TypeSpec:
		s.Doc, s.Comment = nil, nil
		if s.TypeParams != nil {
			r.fields(s.TypeParams)
		}
		s.Type = r.expr(s.Type)
	case *ast.ValueSpec:
		s.Doc, s.Comment = nil, nil
		if s.Type != nil {
			s.Type = r.expr(s.Type)
		}
		if len(s.Names) == 2 && len(s.Values) == 1 {
			if u, ok := unparen(s.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				s.Values[0] = r.simCall("Recv2", r.expr(u.X))
				return
			}
		}
		for i := range s.Values {
			s.Values[i] = r.expr(s.Values[i])
		}
	}
}

func (r *rewriter) fields(fl *ast.FieldList) {
	if fl == nil {
		return
	}
	for _, f := range fl.List {
		f.Doc, f.Comment = nil, nil
		if f.Type != nil {
			f.Type = r.expr(f.Type)
		}
	}
}

func (r *rewriter) ftype(t *ast.FuncType) {
	r.fields(t.TypeParams)
	r.fields(t.Params)
	r.fields(t.Results)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (r *rewriter) exprs(l []ast.Expr) {
	for i := range l {
		l[i] = r.expr(l[i])
	}
}

// expr rewrites an expression or type in place and returns its replacement.
func (r *rewriter) expr(e ast.Expr) ast.Expr {
	switch e := e.(type) {
	case nil:
		return nil
	case *ast.SelectorExpr:
		if id, ok := e.X.(*ast.Ident); ok {
			if pn, ok := r.info.Uses[id].(*types.PkgName); ok {
				path := pn.Imported().Path()
				if m := repl[path]; m != nil {
					if to, ok := m[e.Sel.Name]; ok {
						r.keep[path] = id.Name
						return r.simSel(to)
					}
				}
				if randTop[path+"."+e.Sel.Name] {
					r.keep[path] = id.Name
					v := "Rand"
					if path == "math/rand/v2" {
						v = "RandV2"
					}
					return &ast.SelectorExpr{X: r.simSel(v), Sel: ast.NewIdent(e.Sel.Name)}
				}
				return e
			}
		}
		e.X = r.expr(e.X)
	case *ast.UnaryExpr:
		if e.Op == token.ARROW {
			return r.simCall("Recv", r.expr(e.X))
		}
		e.X = r.expr(e.X)
	case *ast.CallExpr:
		if id, ok := unparen(e.Fun).(*ast.Ident); ok {
			if b, ok := r.info.Uses[id].(*types.Builtin); ok && b.Name() == "close" && len(e.Args) == 1 {
				return r.simCall("Close", r.expr(e.Args[0]))
			}
		}
		e.Fun = r.expr(e.Fun)
		r.exprs(e.Args)
	case *ast.FuncLit:
		r.ftype(e.Type)
		e.Body.List = r.stmts(e.Body.List)
	case *ast.ParenExpr:
		e.X = r.expr(e.X)
	case *ast.BinaryExpr:
		e.X, e.Y = r.expr(e.X), r.expr(e.Y)
	case *ast.StarExpr:
		e.X = r.expr(e.X)
	case *ast.IndexExpr:
		e.X, e.Index = r.expr(e.X), r.expr(e.Index)
	case *ast.IndexListExpr:
		e.X = r.expr(e.X)
		r.exprs(e.Indices)
	case *ast.SliceExpr:
		e.X, e.Low, e.High, e.Max = r.expr(e.X), r.expr(e.Low), r.expr(e.High), r.expr(e.Max)
	case *ast.TypeAssertExpr:
		e.X, e.Type = r.expr(e.X), r.expr(e.Type)
	case *ast.CompositeLit:
		e.Type = r.expr(e.Type)
		r.exprs(e.Elts)
	case *ast.KeyValueExpr:
		if _, isId := e.Key.(*ast.Ident); !isId || r.info.Types[e.Key].Type != nil {
			e.Key = r.expr(e.Key)
		}
		e.Value = r.expr(e.Value)
	case *ast.ArrayType:
		e.Len, e.Elt = r.expr(e.Len), r.expr(e.Elt)
	case *ast.MapType:
		e.Key, e.Value = r.expr(e.Key), r.expr(e.Value)
	case *ast.ChanType:
		e.Value = r.expr(e.Value)
	case *ast.StructType:
		r.fields(e.Fields)
	case *ast.InterfaceType:
		r.fields(e.Methods)
	case *ast.FuncType:
		r.ftype(e)
	case *ast.Ellipsis:
		e.Elt = r.expr(e.Elt)
	}
	return e
}

func (r *rewriter) yield() ast.Stmt { return &ast.ExprStmt{X: r.simCall("Y")} }

// stmts rewrites a statement list, inserting yield points.
func (r *rewriter) stmts(l []ast.Stmt) []ast.Stmt {
	out := make([]ast.Stmt, 0, 2*len(l)+1)
	for _, s := range l {
		if r.full {
			if _, empty := s.(*ast.EmptyStmt); !empty {
				out = append(out, r.yield())
			}
		}
		out = append(out, r.stmt(s)...)
	}
	return out
}

func (r *rewriter) one(s ast.Stmt) ast.Stmt {
	if s == nil {
		return nil
	}
	l := r.stmt(s)
	if len(l) == 1 {
		return l[0]
	}
	return &ast.BlockStmt{List: l}
}

func (r *rewriter) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = r.stmts(b.List)
	}
}

func (r *rewriter) stmt(s ast.Stmt) []ast.Stmt { return r.labeled(s, nil) }

// labeled rewrites s; label, when not nil, is the label it carries.
func (r *rewriter) labeled(s ast.Stmt, label *ast.LabeledStmt) []ast.Stmt {
	switch s := s.(type) {
	case *ast.LabeledStmt:
		l := r.labeled(s.Stmt, s)
		// The label stays on the last statement (the loop or switch itself).
		s.Stmt = l[len(l)-1]
		return append(l[:len(l)-1], s)
	case *ast.ExprStmt:
		s.X = r.expr(s.X)
	case *ast.SendStmt:
		ch, v := r.expr(s.Chan), r.expr(s.Value)
		return []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: r.simCall("Send", ch), Args: []ast.Expr{v}}}}
	case *ast.IncDecStmt:
		s.X = r.expr(s.X)
	case *ast.AssignStmt:
		if len(s.Lhs) == 2 && len(s.Rhs) == 1 {
			if u, ok := unparen(s.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				r.exprs(s.Lhs)
				s.Rhs[0] = r.simCall("Recv2", r.expr(u.X))
				return []ast.Stmt{s}
			}
		}
		r.exprs(s.Lhs)
		r.exprs(s.Rhs)
	case *ast.GoStmt:
		return r.goStmt(s)
	case *ast.DeferStmt:
		s.Call = r.expr(s.Call).(*ast.CallExpr)
	case *ast.ReturnStmt:
		r.exprs(s.Results)
	case *ast.BlockStmt:
		r.block(s)
	case *ast.IfStmt:
		s.Init = r.one(s.Init)
		s.Cond = r.expr(s.Cond)
		r.block(s.Body)
		if s.Else != nil {
			s.Else = r.one(s.Else)
		}
	case *ast.CaseClause:
		r.exprs(s.List)
		s.Body = r.stmts(s.Body)
	case *ast.SwitchStmt:
		s.Init = r.one(s.Init)
		s.Tag = r.expr(s.Tag)
		for _, c := range s.Body.List {
			r.stmt(c)
		}
	case *ast.TypeSwitchStmt:
		s.Init = r.one(s.Init)
		switch a := s.Assign.(type) {
		case *ast.ExprStmt:
			a.X = r.expr(a.X)
		case *ast.AssignStmt:
			r.exprs(a.Rhs)
		}
		for _, c := range s.Body.List {
			r.stmt(c)
		}
	case *ast.SelectStmt:
		return r.selectStmt(s)
	case *ast.ForStmt:
		s.Init = r.one(s.Init)
		s.Cond = r.expr(s.Cond)
		s.Post = r.one(s.Post)
		r.block(s.Body)
		if r.full && len(s.Body.List) == 0 {
			s.Body.List = []ast.Stmt{r.yield()}
		}
	case *ast.RangeStmt:
		return r.rangeStmt(s)
	case *ast.DeclStmt:
		if g, ok := s.Decl.(*ast.GenDecl); ok {
			g.Doc = nil
			for _, sp := range g.Specs {
				r.spec(sp)
			}
		}
	}
	return []ast.Stmt{s}
}

func (r *rewriter) goStmt(s *ast.GoStmt) []ast.Stmt {
	call := s.Call
	var pre []ast.Stmt
	if id, ok := unparen(call.Fun).(*ast.Ident); ok {
		if _, ok := r.info.Uses[id].(*types.Builtin); ok {
			c := r.expr(call)
			return []ast.Stmt{r.goLit(&ast.ExprStmt{X: c})}
		}
	}
	if fl, ok := unparen(call.Fun).(*ast.FuncLit); ok && len(call.Args) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: r.simCall("GoLib", r.wrapResults(fl))}}
	}
	// Function value and arguments are evaluated now, in order.
	bind := func(e ast.Expr) ast.Expr {
		tv := r.info.Types[e]
		if tv.Value != nil || tv.IsNil() || tv.IsType() {
			return r.expr(e)
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return r.expr(e)
		}
		t := r.tmp("g")
		pre = append(pre, &ast.AssignStmt{Lhs: []ast.Expr{t}, Tok: token.DEFINE, Rhs: []ast.Expr{r.expr(e)}})
		return ast.NewIdent(t.Name)
	}
	static := false
	switch f := unparen(call.Fun).(type) {
	case *ast.Ident:
		_, static = r.info.Uses[f].(*types.Func)
	case *ast.SelectorExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			_, static = r.info.Uses[id].(*types.PkgName)
		}
	case *ast.IndexExpr, *ast.IndexListExpr:
		static = true // generic function instantiation
	}
	multi := false
	if len(call.Args) == 1 {
		_, multi = r.info.Types[call.Args[0]].Type.(*types.Tuple)
	}
	nc := &ast.CallExpr{Ellipsis: call.Ellipsis}
	if static {
		nc.Fun = r.expr(call.Fun)
	} else {
		nc.Fun = bind(call.Fun)
	}
	for _, a := range call.Args {
		if multi {
			nc.Args = append(nc.Args, r.expr(a))
		} else {
			nc.Args = append(nc.Args, bind(a))
		}
	}
	return []ast.Stmt{&ast.BlockStmt{List: append(pre, r.goLit(&ast.ExprStmt{X: nc}))}}
}

// wrapResults makes func() out of a literal that may have results.
func (r *rewriter) wrapResults(fl *ast.FuncLit) ast.Expr {
	x := r.expr(fl)
	if fl.Type.Results != nil && len(fl.Type.Results.List) > 0 {
		return &ast.FuncLit{Type: &ast.FuncType{Params: &ast.FieldList{}},
			Body: &ast.BlockStmt{List: []ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: x}}}}}
	}
	return x
}

func (r *rewriter) goLit(body ast.Stmt) ast.Stmt {
	return &ast.ExprStmt{X: r.simCall("GoLib", &ast.FuncLit{
		Type: &ast.FuncType{Params: &ast.FieldList{}},
		Body: &ast.BlockStmt{List: []ast.Stmt{body}},
	})}
}

func (r *rewriter) selectStmt(s *ast.SelectStmt) []ast.Stmt {
	if len(s.Body.List) == 0 {
		return []ast.Stmt{&ast.ExprStmt{X: r.simCall("BlockForever")}}
	}
	sw := &ast.SwitchStmt{Body: &ast.BlockStmt{}}
	init := &ast.AssignStmt{Tok: token.DEFINE}
	hasDefault := false
	idx := 0
	args := []ast.Expr{nil}
	for _, c := range s.Body.List {
		cc := c.(*ast.CommClause)
		nc := &ast.CaseClause{}
		var head []ast.Stmt
		if cc.Comm == nil {
			hasDefault = true
		} else {
			v := r.tmp("s")
			init.Lhs = append(init.Lhs, v)
			use := func() ast.Expr { return ast.NewIdent(v.Name) }
			take := func() *ast.CallExpr {
				return &ast.CallExpr{Fun: &ast.SelectorExpr{X: use(), Sel: ast.NewIdent("Take")}}
			}
			recvOf := func(e ast.Expr) ast.Expr {
				u := unparen(e).(*ast.UnaryExpr)
				return r.simCall("CRecv", r.expr(u.X))
			}
			switch cm := cc.Comm.(type) {
			case *ast.SendStmt:
				init.Rhs = append(init.Rhs, &ast.CallExpr{Fun: r.simCall("CSend", r.expr(cm.Chan)), Args: []ast.Expr{r.expr(cm.Value)}})
				head = append(head, &ast.ExprStmt{X: take()})
			case *ast.ExprStmt:
				init.Rhs = append(init.Rhs, recvOf(cm.X))
				head = append(head, &ast.ExprStmt{X: take()})
			case *ast.AssignStmt:
				init.Rhs = append(init.Rhs, recvOf(cm.Rhs[0]))
				lhs := append([]ast.Expr(nil), cm.Lhs...)
				r.exprs(lhs)
				if len(lhs) == 1 {
					lhs = append(lhs, ast.NewIdent("_"))
				}
				tok := cm.Tok
				if tok == token.DEFINE {
					blank := true
					for _, l := range lhs {
						if id, ok := l.(*ast.Ident); !ok || id.Name != "_" {
							blank = false
						}
					}
					if blank {
						tok = token.ASSIGN
					}
				}
				head = append(head, &ast.AssignStmt{Lhs: lhs, Tok: tok, Rhs: []ast.Expr{take()}})
			}
			nc.List = []ast.Expr{&ast.BasicLit{Kind: token.INT, Value: fmt.Sprint(idx)}}
			args = append(args, use())
			idx++
		}
		nc.Body = append(head, r.stmts(cc.Body)...)
		sw.Body.List = append(sw.Body.List, nc)
	}
	if !hasDefault {
		sw.Body.List = append(sw.Body.List, &ast.CaseClause{Body: []ast.Stmt{
			&ast.ExprStmt{X: &ast.CallExpr{Fun: ast.NewIdent("panic"), Args: []ast.Expr{&ast.BasicLit{Kind: token.STRING, Value: `"sim: run is over"`}}}}}})
	}
	args[0] = ast.NewIdent(fmt.Sprint(hasDefault))
	sw.Tag = r.simCall("Select", args...)
	if len(init.Lhs) > 0 {
		sw.Init = init
	}
	return []ast.Stmt{sw}
}

func (r *rewriter) rangeStmt(s *ast.RangeStmt) []ast.Stmt {
	t := r.info.Types[s.X].Type
	var u types.Type
	if t != nil {
		u = t.Underlying()
	}
	switch u.(type) {
	case *types.Chan:
		ch, v, ok := r.tmp("c"), r.tmp("v"), r.tmp("k")
		x := r.expr(s.X)
		r.block(s.Body)
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{r.simCall("Recv2", ast.NewIdent(ch.Name))}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.BREAK}}}},
		}
		if s.Key != nil && !blank(s.Key) {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(s.Key)}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		} else {
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}})
		}
		return []ast.Stmt{&ast.ForStmt{
			Init: &ast.AssignStmt{Lhs: []ast.Expr{ch}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
			Body: &ast.BlockStmt{List: append(head, s.Body.List...)},
		}}
	case *types.Map:
		if s.Key == nil && s.Value == nil {
			break
		}
		m, k, v, ok := r.tmp("m"), r.tmp("k"), r.tmp("v"), r.tmp("o")
		x := r.expr(s.X)
		r.block(s.Body)
		head := []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{v, ok}, Tok: token.DEFINE, Rhs: []ast.Expr{&ast.IndexExpr{X: ast.NewIdent(m.Name), Index: ast.NewIdent(k.Name)}}},
			&ast.IfStmt{Cond: &ast.UnaryExpr{Op: token.NOT, X: ast.NewIdent(ok.Name)}, Body: &ast.BlockStmt{List: []ast.Stmt{&ast.BranchStmt{Tok: token.CONTINUE}}}},
			&ast.AssignStmt{Lhs: []ast.Expr{ast.NewIdent("_")}, Tok: token.ASSIGN, Rhs: []ast.Expr{ast.NewIdent(v.Name)}},
		}
		assign := func(dst ast.Expr, src *ast.Ident) {
			if dst == nil || blank(dst) {
				return
			}
			head = append(head, &ast.AssignStmt{Lhs: []ast.Expr{r.expr(dst)}, Tok: s.Tok, Rhs: []ast.Expr{ast.NewIdent(src.Name)}})
		}
		assign(s.Key, k)
		assign(s.Value, v)
		// The map is bound in front of the loop; a label stays on the loop.
		return []ast.Stmt{
			&ast.AssignStmt{Lhs: []ast.Expr{m}, Tok: token.DEFINE, Rhs: []ast.Expr{x}},
			&ast.RangeStmt{Key: ast.NewIdent("_"), Value: k, Tok: token.DEFINE,
				X:    r.simCall("Keys", ast.NewIdent(m.Name)),
				Body: &ast.BlockStmt{List: append(head, s.Body.List...)}},
		}
	}
	if s.Key != nil {
		s.Key = r.expr(s.Key)
	}
	if s.Value != nil {
		s.Value = r.expr(s.Value)
	}
	s.X = r.expr(s.X)
	r.block(s.Body)
	return []ast.Stmt{s}
}

func blank(e ast.Expr) bool {
	id, ok := e.(*ast.Ident)
	return ok && id.Name == "_"
}

var _ = constant.MakeBool
