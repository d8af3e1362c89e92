package main

// The instrumenter: it copies one Go package of the repository into the build
// workspace with (a) a scheduling point before every statement and in every
// loop, (b) every source of nondeterminism (clock, local disk, stdout,
// process exit, environment, goroutines, channels, sync primitives, map
// iteration order, random numbers) redirected to the simulator, and (c) a
// VerifReset function that re-evaluates the package-level state, so that every
// simulated run starts like a new process. All edits are insertions in the
// source text; nothing depends on the names the package happens to use.

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/build"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type edit struct {
	off  int // insertion point
	del  int // bytes removed from off
	text string
	seq  int
	end  bool // closes an expression that ends at off
}

type fileCtx struct {
	name  string
	src   []byte
	file  *ast.File
	edits []edit
	uses  map[string]string // import path -> local name, for imports we rewrote selectors of
	extra bytes.Buffer      // text appended to the file
}

type instrumenter struct {
	fset  *token.FileSet
	info  *types.Info
	pkg   *types.Package
	files []*fileCtx
	sites []string
	base  int // first site id
	nblob int
	inits []string
}

// selectors redirected to the simulator: import path -> name -> replacement
var selMap = map[string]map[string]string{
	"time": {
		"Now": "simrt.TimeNow", "Since": "simrt.TimeSince", "Until": "simrt.TimeUntil", "Sleep": "simrt.TimeSleep",
		"After": "simrt.TimeAfter", "AfterFunc": "simrt.TimeAfterFunc", "NewTimer": "simrt.TimeNewTimer", "Timer": "simrt.TimeTimer",
		"NewTicker": "simrt.TimeNewTicker", "Tick": "simrt.TimeTick", "Ticker": "simrt.TimeTicker",
	},
	"os": {
		"Open": "simos.Open", "OpenFile": "simos.OpenFile", "Create": "simos.Create", "ReadFile": "simos.ReadFile",
		"WriteFile": "simos.WriteFile", "Exit": "simos.Exit", "File": "simos.File", "Stdout": "simos.Stdout", "Stderr": "simos.Stderr",
		"Args": "simos.Args()", "Getenv": "simos.Getenv", "LookupEnv": "simos.LookupEnv", "Stat": "simos.Stat", "Lstat": "simos.Stat",
		"Remove": "simos.Remove", "Rename": "simos.Rename", "Getwd": "simos.Getwd", "Hostname": "simos.Hostname",
		"Getpid": "simos.Getpid", "Truncate": "simos.Truncate", "Mkdir": "simos.Mkdir", "MkdirAll": "simos.Mkdir",
		"CreateTemp": "simos.CreateTemp", "TempDir": "simos.TempDir", "Environ": "simos.Environ", "Setenv": "simos.Setenv",
		"Chmod": "simos.Chmod", "ReadDir": "simos.ReadDir", "Getppid": "simos.Getpid", "Getuid": "simos.Getpid",
		"NewFile": "simos.NewFile", "MkdirTemp": "simos.MkdirTemp", "RemoveAll": "simos.RemoveAll", "Link": "simos.Link",
		"Symlink": "simos.Symlink", "Chtimes": "simos.Chtimes", "Chown": "simos.Chown", "Lchown": "simos.Chown",
		"UserHomeDir": "simos.UserHomeDir", "Chdir": "simos.Chdir", "Unsetenv": "simos.Unsetenv", "Clearenv": "simos.Clearenv", "ExpandEnv": "simos.ExpandEnv",
		"Readlink": "simos.Readlink", "Executable": "simos.Executable", "SameFile": "simos.SameFile", "DirFS": "simos.DirFS",
		"Geteuid": "simos.Getpid", "Getgid": "simos.Getpid", "Getegid": "simos.Getpid",
	},
	"io/ioutil": {
		"ReadFile": "simos.ReadFile", "WriteFile": "simos.WriteFile", "TempFile": "simos.CreateTemp", "TempDir": "simos.MkdirTemp",
	},
	"fmt": {"Printf": "simos.Printf", "Println": "simos.Println", "Print": "simos.Print"},
	"log": {
		"Printf": "simos.LogPrintf", "Println": "simos.LogPrintln", "Print": "simos.LogPrint",
		"Fatal": "simos.LogFatal", "Fatalf": "simos.LogFatalf", "Fatalln": "simos.LogFatalln",
		"Panic": "simos.LogPanic", "Panicf": "simos.LogPanicf", "Panicln": "simos.LogPanicln",
		"New": "simos.LogNew", "Default": "simos.LogDefault", "Logger": "simos.Logger", "SetOutput": "simos.LogSetOutput", "Writer": "simos.LogWriter",
		"SetPrefix": "simos.LogSetPrefix", "Prefix": "simos.LogPrefix", "SetFlags": "simos.LogSetFlags", "Flags": "simos.LogFlags",
	},
	"net/http":      {"Dir": "simos.HTTPDir"},
	"path/filepath": {"Abs": "simos.Abs", "EvalSymlinks": "simos.EvalSymlinks", "Glob": "simos.Glob", "Walk": "simos.Walk", "WalkDir": "simos.WalkDir"},
	"syscall":       {"Exit": "simos.Exit", "Getenv": "simos.LookupEnv"},
	"maps":          {"All": "simrt.RangeMap", "Keys": "simrt.MapsKeys", "Values": "simrt.MapsValues"},
	"context":       {"WithTimeout": "simrt.CtxWithTimeout", "WithDeadline": "simrt.CtxWithDeadline"},
	"crypto/rand":   {"Read": "simos.RandRead", "Reader": "simos.RandReader"},
	"runtime":       {"Gosched": "simrt.Gosched", "NumCPU": "simrt.NumCPU", "GOMAXPROCS": "simrt.GOMAXPROCS", "NumGoroutine": "simrt.NumCPU", "GC": "simrt.Gosched"},
}

// whole imports redirected to simulator packages with the same API
var impMap = map[string]string{
	"sync":         "verifsim/simsync",
	"math/rand":    "verifsim/simrand",
	"math/rand/v2": "verifsim/simrand/v2",
}

// a use of each selMap package that keeps its import alive
var keepUse = map[string]string{
	"time": "Unix", "os": "IsNotExist", "io/ioutil": "ReadAll", "fmt": "Sprint", "log": "LUTC", "net/http": "StatusText", "path/filepath": "Base", "syscall": "Getpid", "runtime": "Version", "maps": "Equal[map[int]int, map[int]int]", "context": "Background", "crypto/rand": "Int",
}

func (in *instrumenter) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (f *fileCtx) ins(off int, text string) {
	f.edits = append(f.edits, edit{off, 0, text, len(f.edits), false})
}
func (f *fileCtx) insEnd(off int, text string) {
	f.edits = append(f.edits, edit{off, 0, text, len(f.edits), true})
}
func (f *fileCtx) rep(off, del int, text string) {
	f.edits = append(f.edits, edit{off, del, text, len(f.edits), false})
}

// render returns the edited text of src[a:b].
func (f *fileCtx) render(a, b int) string {
	es := make([]edit, 0, len(f.edits))
	for _, e := range f.edits {
		if e.off >= a && e.off+e.del <= b && (!e.end || e.off > a) && (e.off < b || e.end || b == len(f.src)) {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		if es[i].end != es[j].end {
			return es[i].end
		}
		return es[i].seq < es[j].seq
	})
	var out strings.Builder
	at := a
	for _, e := range es {
		if e.off > at {
			out.Write(f.src[at:e.off])
			at = e.off
		}
		out.WriteString(e.text)
		if e.off+e.del > at {
			at = e.off + e.del
		}
	}
	out.Write(f.src[at:b])
	return out.String()
}

func (in *instrumenter) site(p token.Pos) string {
	id := in.base + len(in.sites)
	ps := in.fset.Position(p)
	in.sites = append(in.sites, fmt.Sprintf("%s:%d", filepath.Base(ps.Filename), ps.Line))
	return fmt.Sprintf("simrt.Y(%d);", id)
}

func srcImporter(gopath string) (types.ImporterFrom, *token.FileSet) {
	os.Setenv("GO111MODULE", "off")
	build.Default.GOPATH = gopath
	build.Default.CgoEnabled = false
	fset := token.NewFileSet()
	return importer.ForCompiler(fset, "source", nil).(types.ImporterFrom), fset
}

type instrOpts struct {
	srcDir, dstDir string
	importPath     string
	exclude        map[string]bool
	renameMain     string // new package name for a main package
	siteBase       int
	imp            types.ImporterFrom
	fset           *token.FileSet
}

func instrumentDir(o instrOpts) ([]string, error) {
	in := &instrumenter{fset: o.fset, base: o.siteBase}
	ents, err := os.ReadDir(o.srcDir)
	if err != nil {
		return nil, err
	}
	var asts []*ast.File
	for _, e := range ents {
		n := e.Name()
		if e.IsDir() || !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") || o.exclude[n] {
			continue
		}
		if ok, err := build.Default.MatchFile(o.srcDir, n); err != nil || !ok {
			continue
		}
		p := filepath.Join(o.srcDir, n)
		src, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(o.fset, p, src, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			return nil, err
		}
		in.files = append(in.files, &fileCtx{name: n, src: src, file: f, uses: map[string]string{}})
		asts = append(asts, f)
	}
	if len(asts) == 0 {
		return nil, fmt.Errorf("no Go files in %s", o.srcDir)
	}
	in.info = &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}}
	var soft []types.Error
	var hard error
	conf := types.Config{Importer: o.imp, FakeImportC: true, Error: func(err error) {
		if e, ok := err.(types.Error); ok && e.Soft {
			soft = append(soft, e)
		} else if hard == nil {
			hard = err
		}
	}}
	in.pkg, _ = conf.Check(o.importPath, o.fset, asts, in.info)
	if err := hard; err != nil {
		return nil, fmt.Errorf("type check of %s: %v", o.srcDir, err)
	}
	os.MkdirAll(o.dstDir, 0o755)
	for _, f := range in.files {
		in.editFile(f)
	}
	for _, e := range soft {
		in.useAnyway(e)
	}
	in.resets()
	for _, f := range in.files {
		out := f.render(0, len(f.src)) + "\n" + f.extra.String()
		if o.renameMain != "" {
			nm := f.file.Name
			a, b := in.off(nm.Pos()), in.off(nm.End())
			f.rep(a, b-a, o.renameMain)
			out = f.render(0, len(f.src)) + "\n" + f.extra.String()
		}
		if err := os.WriteFile(filepath.Join(o.dstDir, f.name), []byte(out), 0o644); err != nil {
			return nil, err
		}
	}
	return in.sites, nil
}

// useAnyway uses an unused import or variable, as some files are not compiled
// by the repository's own build, which would have reported it.
func (in *instrumenter) useAnyway(e types.Error) {
	for _, f := range in.files {
		if e.Pos < f.file.FileStart || e.Pos >= f.file.FileEnd {
			continue
		}
		for _, im := range f.file.Imports {
			if im.Pos() <= e.Pos && e.Pos < im.End() {
				if im.Name != nil {
					f.rep(in.off(im.Name.Pos()), len(im.Name.Name), "_")
				} else {
					f.ins(in.off(im.Path.Pos()), "_ ")
				}
				return
			}
		}
		var id *ast.Ident
		var at ast.Stmt
		find := func(l []ast.Stmt) {
			for _, s := range l {
				if s.Pos() <= e.Pos && e.Pos < s.End() {
					at = s
				}
			}
		}
		ast.Inspect(f.file, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.Ident:
				if n.Pos() == e.Pos {
					id = n
				}
			case *ast.BlockStmt:
				find(n.List)
			case *ast.CaseClause:
				find(n.Body)
			case *ast.CommClause:
				find(n.Body)
			}
			return true
		})
		if id != nil && at != nil {
			f.insEnd(in.off(at.End()), "; _ = "+id.Name)
		}
		return
	}
}

func (in *instrumenter) editFile(f *fileCtx) {
	// imports
	for _, im := range f.file.Imports {
		path := strings.Trim(im.Path.Value, "`\"")
		if to, ok := impMap[path]; ok {
			a, b := in.off(im.Path.Pos()), in.off(im.Path.End())
			name := ""
			if im.Name == nil {
				name = pathBase(path) + " "
				if path == "math/rand/v2" {
					name = "rand "
				}
			}
			f.rep(a, b-a, name+`"`+to+`"`)
		}
	}
	in.walk(f)
	// simulator imports right after the package clause
	f.ins(in.off(f.file.Name.End()), `; import simrt "verifsim/simrt"; import simos "verifsim/simos"`)
	f.extra.WriteString("var _ = simrt.Y\nvar _ = simos.Exit\n")
	for path, name := range f.uses {
		fmt.Fprintf(&f.extra, "var _ = %s.%s\n", name, keepUse[path])
	}
}

// coreType is the underlying type, of a type parameter that of its first term.
func coreType(t types.Type) types.Type {
	p, ok := types.Unalias(t).(*types.TypeParam)
	if !ok {
		return t.Underlying()
	}
	it, ok := p.Constraint().Underlying().(*types.Interface)
	if !ok {
		return t.Underlying()
	}
	for i := 0; i < it.NumEmbeddeds(); i++ {
		switch e := it.EmbeddedType(i).(type) {
		case *types.Union:
			if e.Len() > 0 {
				return coreType(e.Term(0).Type())
			}
		default:
			return coreType(e)
		}
	}
	return t.Underlying()
}

func pathBase(p string) string { return p[strings.LastIndexByte(p, '/')+1:] }

func (in *instrumenter) pkgOf(id *ast.Ident) string {
	if pn, ok := in.info.Uses[id].(*types.PkgName); ok {
		return pn.Imported().Path()
	}
	return ""
}

func (in *instrumenter) isBuiltin(id *ast.Ident) bool {
	_, ok := in.info.Uses[id].(*types.Builtin)
	return ok
}

func (in *instrumenter) walk(f *fileCtx) {
	// recvs that belong to a two-value assignment or to a select clause
	two := map[ast.Expr]bool{}
	inSelect := map[ast.Node]bool{}
	keyOf := map[*ast.BasicLit]string{}
	inType := map[ast.Node]bool{}
	ast.Inspect(f.file, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				two[unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				two[unparen(n.Values[0])] = true
			}
		case *ast.CommClause:
			if n.Comm != nil {
				inSelect[n.Comm] = true
				switch c := n.Comm.(type) {
				case *ast.ExprStmt:
					inSelect[unparen(c.X)] = true
				case *ast.AssignStmt:
					inSelect[unparen(c.Rhs[0])] = true
				}
			}
		case *ast.KeyValueExpr:
			if k, ok := n.Key.(*ast.BasicLit); ok && k.Kind == token.STRING {
				ast.Inspect(n.Value, func(m ast.Node) bool {
					if l, ok := m.(*ast.BasicLit); ok && keyOf[l] == "" {
						keyOf[l] = k.Value
					}
					return true
				})
			}
		case *ast.Field:
			if l := n.Tag; l != nil {
				inType[l] = true
			}
		case *ast.ImportSpec:
			inType[n.Path] = true
		case *ast.GenDecl:
			if n.Tok == token.CONST { // constants cannot call functions
				ast.Inspect(n, func(m ast.Node) bool {
					if m != nil {
						inType[m] = true
					}
					return true
				})
			}
		}
		return true
	})
	list := func(stmts []ast.Stmt) {
		for _, s := range stmts {
			switch s.(type) {
			case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				continue
			}
			f.ins(in.off(s.Pos()), in.site(s.Pos()))
		}
	}
	var visit func(n ast.Node) bool
	visit = func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.BlockStmt:
			list(n.List)
		case *ast.CaseClause:
			list(n.Body)
		case *ast.ForStmt:
			f.ins(in.off(n.Body.Lbrace)+1, in.site(n.Body.Lbrace))
		case *ast.RangeStmt:
			f.ins(in.off(n.Body.Lbrace)+1, in.site(n.Body.Lbrace))
			if tv, ok := in.info.Types[n.X]; ok {
				switch coreType(tv.Type).(type) {
				case *types.Map:
					f.ins(in.off(n.X.Pos()), "simrt.RangeMap(")
					f.insEnd(in.off(n.X.End()), ")")
				case *types.Chan:
					f.ins(in.off(n.X.Pos()), "simrt.RangeChan(")
					f.insEnd(in.off(n.X.End()), ")")
				}
			}
		case *ast.SelectStmt:
			in.selectStmt(f, n, list, visit)
			return false
		case *ast.GoStmt:
			in.goStmt(f, n)
			ast.Inspect(n.Call, visit)
			return false
		case *ast.SendStmt:
			if !inSelect[n] {
				f.ins(in.off(n.Chan.Pos()), "simrt.Send(")
				f.rep(in.off(n.Arrow), 2, ")(")
				ast.Inspect(n.Chan, visit)
				ast.Inspect(n.Value, visit)
				f.insEnd(in.off(n.Value.End()), ")")
				return false
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !inSelect[n] {
				fn := "simrt.Recv("
				if two[n] {
					fn = "simrt.Recv2("
				}
				f.rep(in.off(n.OpPos), 2, fn)
				ast.Inspect(n.X, visit)
				f.insEnd(in.off(n.X.End()), ")")
				return false
			}
		case *ast.CallExpr:
			if id, ok := unparen(n.Fun).(*ast.Ident); ok && in.isBuiltin(id) && len(n.Args) == 1 {
				if tv, ok := in.info.Types[n.Args[0]]; ok {
					if _, ok := coreType(tv.Type).(*types.Chan); ok {
						if r := map[string]string{"close": "simrt.Close", "len": "simrt.ChanLen", "cap": "simrt.ChanCap"}[id.Name]; r != "" {
							f.rep(in.off(id.Pos()), len(id.Name), r)
						}
					}
				}
			}
		case *ast.SelectorExpr:
			if id, ok := n.X.(*ast.Ident); ok {
				if path := in.pkgOf(id); path != "" {
					if to := selMap[path][n.Sel.Name]; to != "" {
						a, b := in.off(n.Pos()), in.off(n.End())
						f.rep(a, b-a, to)
						f.uses[path] = id.Name
						return false
					}
				}
			}
		case *ast.BasicLit:
			if n.Kind == token.STRING && !inType[n] && len(n.Value) > 60 {
				if t := strings.TrimLeft(n.Value, "`\"\n\r\t "); strings.HasPrefix(strings.TrimPrefix(t, `\n`), "H4sI") {
					key := keyOf[n]
					if key == "" {
						key = fmt.Sprintf(`"blob-%d"`, in.nblob)
					}
					in.nblob++
					f.ins(in.off(n.Pos()), "simrt.Blob("+key+", ")
					f.insEnd(in.off(n.End()), ")")
				}
			}
		}
		return true
	}
	ast.Inspect(f.file, visit)
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// go F(a, b)  =>  simrt.Go(func() func() { verifF := F; verifA0 := a; ...; return func() { verifF(verifA0, ...) } }())
func (in *instrumenter) goStmt(f *fileCtx, n *ast.GoStmt) {
	c := n.Call
	goOff := in.off(n.Go)
	if id, ok := unparen(c.Fun).(*ast.Ident); ok && in.isBuiltin(id) {
		f.rep(goOff, 2, "simrt.Go(func() {")
		f.insEnd(in.off(c.End()), "})")
		return
	}
	f.rep(goOff, 2, "simrt.Go(func() func() { verifF := ")
	var names []string
	sig, _ := in.info.Types[c.Fun].Type.Underlying().(*types.Signature)
	prevEnd := in.off(c.Fun.End())
	for i, a := range c.Args {
		nm := fmt.Sprintf("verifA%d", i)
		start := in.off(a.Pos())
		wrapL, wrapR := "", ""
		if tv := in.info.Types[a]; (tv.Value != nil || tv.IsNil()) && sig != nil {
			var t types.Type
			if sig.Variadic() && i >= sig.Params().Len()-1 {
				t = sig.Params().At(sig.Params().Len() - 1).Type().(*types.Slice).Elem()
			} else {
				t = sig.Params().At(i).Type()
			}
			wrapL, wrapR = "("+types.TypeString(t, func(p *types.Package) string {
				if p == in.pkg {
					return ""
				}
				return p.Name()
			})+")(", ")"
		}
		f.rep(prevEnd, start-prevEnd, "; "+nm+" := "+wrapL)
		prevEnd = in.off(a.End())
		if wrapR != "" {
			f.insEnd(prevEnd, wrapR)
		}
		names = append(names, nm)
	}
	dots := ""
	if c.Ellipsis.IsValid() {
		dots = "..."
	}
	f.rep(prevEnd, in.off(c.End())-prevEnd, "; return func() { verifF("+strings.Join(names, ", ")+dots+") } }())")
}

// select => switch over simrt.Select
func (in *instrumenter) selectStmt(f *fileCtx, n *ast.SelectStmt, list func([]ast.Stmt), visit func(ast.Node) bool) {
	hasDefault := false
	var clauses []*ast.CommClause
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		if c.Comm == nil {
			hasDefault = true
		} else {
			clauses = append(clauses, c)
		}
	}
	var args []string
	for i, c := range clauses {
		label := fmt.Sprintf("case %d:", i)
		if !hasDefault && i == len(clauses)-1 {
			label = "default:"
		}
		head := label + " _, _ = verifV, verifOK;"
		switch s := c.Comm.(type) {
		case *ast.SendStmt:
			args = append(args, "simrt.CaseSend("+string(f.src[in.off(s.Chan.Pos()):in.off(s.Chan.End())])+")("+string(f.src[in.off(s.Value.Pos()):in.off(s.Value.End())])+")")
		case *ast.ExprStmt:
			u := unparen(s.X).(*ast.UnaryExpr)
			args = append(args, "simrt.CaseRecv("+string(f.src[in.off(u.X.Pos()):in.off(u.X.End())])+")")
		case *ast.AssignStmt:
			u := unparen(s.Rhs[0]).(*ast.UnaryExpr)
			ch := string(f.src[in.off(u.X.Pos()):in.off(u.X.End())])
			args = append(args, "simrt.CaseRecv("+ch+")")
			head += " " + string(f.src[in.off(s.Lhs[0].Pos()):in.off(s.Lhs[0].End())])
			if len(s.Lhs) == 2 {
				head += ", " + string(f.src[in.off(s.Lhs[1].Pos()):in.off(s.Lhs[1].End())]) + " " + s.Tok.String() + " simrt.Val(" + ch + ", verifV), verifOK;"
			} else {
				head += " " + s.Tok.String() + " simrt.Val(" + ch + ", verifV);"
			}
		}
		a, b := in.off(c.Pos()), in.off(c.Colon)+1
		f.rep(a, b-a, head)
	}
	for _, s := range n.Body.List {
		c := s.(*ast.CommClause)
		list(c.Body)
		for _, b := range c.Body {
			ast.Inspect(b, visit)
		}
	}
	a := in.off(n.Select)
	f.rep(a, len("select"), fmt.Sprintf("switch verifI, verifV, verifOK := simrt.Select(%v, %s); verifI", hasDefault, strings.Join(append(args, "nil"), ", ")))
	if len(clauses) == 0 && hasDefault {
		f.ins(in.off(n.Body.Lbrace)+1, "")
	}
}

// resets generates VerifReset: re-evaluation of package-level state.
func (in *instrumenter) resets() {
	fileAt := func(p token.Pos) *fileCtx {
		for _, f := range in.files {
			if f.file.FileStart <= p && p < f.file.FileEnd {
				return f
			}
		}
		return nil
	}
	k := 0
	var calls, zeroCalls, initCalls []string
	for _, f := range in.files {
		for _, d := range f.file.Decls {
			switch d := d.(type) {
			case *ast.GenDecl:
				if d.Tok != token.VAR {
					continue
				}
				for _, sp := range d.Specs {
					vs := sp.(*ast.ValueSpec)
					if len(vs.Values) != 0 {
						continue
					}
					ty := f.render(in.off(vs.Type.Pos()), in.off(vs.Type.End()))
					for _, nm := range vs.Names {
						if nm.Name == "_" {
							continue
						}
						fmt.Fprintf(&f.extra, "func verifReset%d() { %s = *new(%s) }\n", k, nm.Name, ty)
						zeroCalls = append(zeroCalls, fmt.Sprintf("verifReset%d()", k))
						k++
					}
				}
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					nn := fmt.Sprintf("verifInit%d", len(initCalls))
					f.rep(in.off(d.Name.Pos()), 4, nn)
					// not run at start-up: every simulated process runs it
					initCalls = append(initCalls, nn+"()")
				}
			}
		}
	}
	for _, ini := range in.info.InitOrder {
		f := fileAt(ini.Rhs.Pos())
		var names []string
		blank := true
		for _, v := range ini.Lhs {
			names = append(names, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			effect := false
			ast.Inspect(ini.Rhs, func(n ast.Node) bool {
				if c, ok := n.(*ast.CallExpr); ok && !in.info.Types[c.Fun].IsType() {
					effect = true
				}
				return true
			})
			if !effect {
				continue
			}
		}
		fmt.Fprintf(&f.extra, "func verifReset%d() { %s = %s }\n", k, strings.Join(names, ", "), f.render(in.off(ini.Rhs.Pos()), in.off(ini.Rhs.End())+0))
		calls = append(calls, fmt.Sprintf("verifReset%d()", k))
		k++
	}
	all := append(append(zeroCalls, calls...), initCalls...)
	fmt.Fprintf(&in.files[0].extra, "func VerifReset() { %s }\n", strings.Join(all, "; "))
	// a main package becomes an ordinary package whose main is exported
	if in.pkg.Name() == "main" {
		in.files[0].extra.WriteString("func VerifMain() { main() }\n")
	}
}
