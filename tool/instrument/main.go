// Command instrument rewrites the packages of /repo for deterministic simulation.
//
// It reads the current working tree, type-checks every package which builds, and writes
// instrumented copies of the source files plus an overlay description for `go build
// -overlay`. The repository itself is never touched. Rewriting is driven by types and
// syntax alone; it knows nothing of particular functions of the repository, so that it
// follows any change to it.
//
// What is rewritten:
//
//	every statement              preceded by simrt.Yield(site): a possible preemption point
//	go f(x)                      simrt.GoN(f, x): goroutine under control of the scheduler
//	ch <- v, <-ch, range, close  simrt.Send/Recv/…
//	select                       simrt.Select
//	sync.Mutex/RWMutex/Once/WaitGroup/Cond/Pool methods   simulated blocking
//	time.Sleep/Now/Since, timers virtual clock
//	io.Pipe                      simulated blocking
//	range over a map             order chosen by the scheduler's random stream
//	package-level variables      get a reset function, so that every simulated run is a
//	                             process start
//	rangetable.New(…)            memoized (pure, but expensive)
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	CgoFiles   []string
	Export     string
	Standard   bool
	DepOnly    bool
	Module     *struct{ Path, Dir string }
	Error      *struct{ Err string }
	Incomplete bool
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
}

var (
	repo    = flag.String("repo", "/repo", "repository to instrument")
	out     = flag.String("out", "", "output directory")
	simDir  = flag.String("sim", "", "directory with simulator sources: simrt/ and cmd/")
	noInstr = flag.Bool("plain", false, "do not insert yields (for measuring)")
)

// deps are modules the library depends on which synchronize goroutines of their own
// accord. They are instrumented, too.
var deps = map[string]bool{"github.com/jolestar/go-commons-pool": true}

const simBase = "verifsim"

func die(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func main() {
	flag.Parse()
	if *out == "" || *simDir == "" {
		die("missing -out or -sim")
	}
	os.MkdirAll(*out, 0o755)
	modpath := modulePath(*repo)
	pkgs, exports := list(*repo, modpath)
	overlay := map[string]string{}
	var sites []site
	var resets []string             // import paths with reset function
	replaced := map[string]string{} // dependency modules, with their copies
	for _, p := range pkgs {
		in := &instr{pkg: p, modpath: modpath, sites: &sites, repo: *repo}
		files := in.run(exports)
		base := filepath.Join(*out, strings.ReplaceAll(strings.TrimPrefix(p.ImportPath, modpath), "/", "_")+"_pkg")
		if m := p.Module.Path; m != modpath {
			// overlays must not replace files of the module cache: the module is replaced
			replaced[m] = filepath.Join(*out, "deps", filepath.Base(m))
			base = filepath.Join(replaced[m], strings.TrimPrefix(p.ImportPath, m))
		}
		os.MkdirAll(base, 0o755)
		for name, text := range files {
			f := filepath.Join(base, name)
			if err := os.WriteFile(f, text, 0o644); err != nil {
				die("%v", err)
			}
			if p.Module.Path == modpath {
				overlay[filepath.Join(p.Dir, name)] = f
			}
		}
		resets = append(resets, p.ImportPath)
	}
	// go.mod of the simulator
	gomod, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	gosum, _ := os.ReadFile(filepath.Join(*repo, "go.sum"))
	for m, dir := range replaced {
		gomod = append(gomod, fmt.Sprintf("\nreplace %s => %s\n", m, dir)...)
		os.WriteFile(filepath.Join(dir, "go.mod"), []byte("module "+m+"\n\ngo 1.16\n"), 0o644)
	}
	os.WriteFile(filepath.Join(*out, "go.mod"), gomod, 0o644)
	os.WriteFile(filepath.Join(*out, "go.sum"), gosum, 0o644)
	// simulator sources and generated glue
	gen := filepath.Join(*out, "gen")
	os.MkdirAll(gen, 0o755)
	for _, sub := range []string{"simrt", "cmd"} {
		ms, _ := filepath.Glob(filepath.Join(*simDir, sub, "*.go"))
		for _, m := range ms {
			if strings.HasSuffix(m, "_test.go") {
				continue
			}
			abs, _ := filepath.Abs(m)
			overlay[filepath.Join(*repo, simBase, sub, filepath.Base(m))] = abs
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage simrt\n\nconst NumSites = %d\n", len(sites)+1)
	gs := filepath.Join(gen, "zz_sites.go")
	os.WriteFile(gs, b.Bytes(), 0o644)
	overlay[filepath.Join(*repo, simBase, "simrt", "zz_sites.go")] = gs
	b.Reset()
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage main\n\nimport (\n")
	for i, r := range resets {
		fmt.Fprintf(&b, "\tvr%d %q\n", i, r)
	}
	fmt.Fprintf(&b, ")\n\nfunc resetAll() {\n")
	for i := range resets {
		fmt.Fprintf(&b, "\tvr%d.VerifReset()\n", i)
	}
	fmt.Fprintf(&b, "}\n")
	gr := filepath.Join(gen, "zz_reset.go")
	os.WriteFile(gr, b.Bytes(), 0o644)
	overlay[filepath.Join(*repo, simBase, "cmd", "zz_reset.go")] = gr
	js, _ := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	os.WriteFile(filepath.Join(*out, "overlay.json"), js, 0o644)
	js, _ = json.Marshal(sites)
	os.WriteFile(filepath.Join(*out, "sites.json"), js, 0o644)
	fmt.Printf("instrumented %d packages, %d sites\n", len(pkgs), len(sites))
}

func modulePath(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	for _, l := range strings.Split(string(b), "\n") {
		if f := strings.Fields(l); len(f) == 2 && f[0] == "module" {
			return f[1]
		}
	}
	die("no module line in go.mod")
	return ""
}

// list returns the module's buildable library packages in dependency order, and the
// export data files of everything.
func list(repo, modpath string) ([]*listPkg, map[string]string) {
	cmd := exec.Command("go", "list", "-e", "-export", "-deps", "-json", "./...")
	cmd.Dir = repo
	cmd.Stderr = io.Discard
	o, err := cmd.Output()
	if err != nil && len(o) == 0 {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(o))
	var res []*listPkg
	exports := map[string]string{}
	for {
		p := &listPkg{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module == nil || p.Module.Path != modpath && !deps[p.Module.Path] || p.Name == "main" {
			continue
		}
		if p.Error != nil || p.Export == "" || len(p.GoFiles) == 0 {
			if strings.HasSuffix(p.ImportPath, "/uax14") {
				continue // does not build at the pinned commit
			}
			die("package %s does not build", p.ImportPath)
		}
		res = append(res, p) // -deps: dependencies come first
	}
	return res, exports
}

// --- Edits -----------------------------------------------------------------

type edit struct {
	off  int
	del  int
	text string
	seq  int
	prio int // order among insertions at the same offset
}

type fileEdits struct {
	src   []byte
	edits []edit
}

func (fe *fileEdits) insert(off int, text string, prio int) {
	fe.edits = append(fe.edits, edit{off: off, text: text, seq: len(fe.edits), prio: prio})
}

func (fe *fileEdits) replace(from, to int, text string) {
	fe.edits = append(fe.edits, edit{off: from, del: to - from, text: text, seq: len(fe.edits), prio: 1000})
}

// render applies all edits within [from,to).
func (fe *fileEdits) render(from, to int) string {
	es := make([]edit, 0, len(fe.edits))
	for _, e := range fe.edits {
		if e.off >= from && (e.off < to || e.off == to && e.del == 0 && e.prio < 0) {
			es = append(es, e)
		}
	}
	sort.SliceStable(es, func(i, j int) bool {
		if es[i].off != es[j].off {
			return es[i].off < es[j].off
		}
		if es[i].prio != es[j].prio {
			return es[i].prio < es[j].prio
		}
		if es[i].prio == -1 { // text after nested nodes: innermost first
			return es[i].seq > es[j].seq
		}
		return es[i].seq < es[j].seq
	})
	var b strings.Builder
	pos := from
	for _, e := range es {
		if e.off < pos {
			die("overlapping edits at offset %d: %q", e.off, e.text)
		}
		b.Write(fe.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.off + e.del
	}
	b.Write(fe.src[pos:to])
	return b.String()
}

// --- Instrumentation of a package ------------------------------------------

type instr struct {
	pkg     *listPkg
	modpath string
	repo    string
	sites   *[]site
	fset    *token.FileSet
	info    *types.Info
	tpkg    *types.Package
	fe      *fileEdits
	tf      *token.File
	fname   string
	fn      string // current function
	used    bool   // simrt used in file
	nLocal  int
	skip    map[ast.Node]bool
	called  map[ast.Node]bool // method selectors rewritten with their call
}

func (in *instr) instrumented(path string) bool {
	for m := range deps {
		if strings.HasPrefix(path+"/", m+"/") {
			return true
		}
	}
	return strings.HasPrefix(path+"/", in.modpath+"/")
}

func (in *instr) off(p token.Pos) int { return in.tf.Offset(p) }
func (in *instr) ins(p token.Pos, t string) {
	in.used = true
	in.fe.insert(in.off(p), t, 0)
}

// insEnd inserts text at the end of a node. It is placed before any text inserted
// at the same offset for a following node.
func (in *instr) insEnd(p token.Pos, t string) {
	in.used = true
	in.fe.insert(in.off(p), t, -1)
}
func (in *instr) rep(from, to token.Pos, t string) {
	in.used = true
	in.fe.replace(in.off(from), in.off(to), t)
}

func (in *instr) run(exports map[string]string) map[string][]byte {
	p := in.pkg
	in.fset = token.NewFileSet()
	var files []*ast.File
	var names []string
	srcs := map[string][]byte{}
	if len(p.CgoFiles) > 0 {
		die("%s: cgo is not supported", p.ImportPath)
	}
	for _, f := range p.GoFiles {
		path := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(path)
		if err != nil {
			die("%v", err)
		}
		af, err := parser.ParseFile(in.fset, path, src, parser.ParseComments)
		if err != nil {
			die("%v", err)
		}
		files = append(files, af)
		names = append(names, f)
		srcs[f] = src
	}
	lookup := func(path string) (io.ReadCloser, error) {
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	in.info = &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
		Implicits:  map[ast.Node]types.Object{},
	}
	conf := types.Config{Importer: importer.ForCompiler(in.fset, "gc", lookup), Error: func(error) {}}
	tp, err := conf.Check(p.ImportPath, in.fset, files, in.info)
	if err != nil {
		die("type-check %s: %v", p.ImportPath, err)
	}
	in.tpkg = tp
	fes := map[string]*fileEdits{}
	inits := map[string]int{}
	tails := map[string]*strings.Builder{}
	posFile := func(pos token.Pos) string {
		return filepath.Base(in.fset.Position(pos).Filename)
	}
	nInit := 0
	usedIn := map[string]bool{}
	for i, af := range files {
		f := names[i]
		in.fe = &fileEdits{src: srcs[f]}
		fes[f] = in.fe
		in.tf = in.fset.File(af.Pos())
		in.fname, _ = filepath.Rel(in.repo, filepath.Join(p.Dir, f))
		if p.Module.Path != in.modpath {
			in.fname = p.ImportPath + "/" + f
		}
		in.used = false
		in.skip = map[ast.Node]bool{}
		in.called = map[ast.Node]bool{}
		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil && d.Name.Name == "init" {
					in.fe.replace(in.off(d.Name.Pos()), in.off(d.Name.End()), fmt.Sprintf("verifInit%d", nInit))
					nInit++
				}
				if d.Body != nil {
					in.fn = d.Name.Name
					in.walk(d.Body)
				}
			case *ast.GenDecl:
				if d.Tok == token.VAR {
					in.fn = "var"
					in.walk(d)
				}
			}
		}
		tails[f] = &strings.Builder{}
		in.pipes(af, tails[f])
		usedIn[f] = in.used
		inits[f] = 0
	}
	// reset functions for package-level variables
	var order []string
	k := 0
	hasInit := map[*types.Var]bool{}
	for _, io := range in.info.InitOrder {
		var lhs []string
		for _, v := range io.Lhs {
			lhs = append(lhs, v.Name())
			hasInit[v] = true
		}
		if isConstTable(io) {
			continue
		}
		f := posFile(io.Rhs.Pos())
		in.tf = in.fset.File(io.Rhs.Pos())
		text := fes[f].render(in.off(io.Rhs.Pos()), in.off(io.Rhs.End()))
		fmt.Fprintf(tails[f], "\nfunc verifReset%d() { %s = %s }\n", k, strings.Join(lhs, ", "), text)
		order = append(order, fmt.Sprintf("verifReset%d", k))
		k++
	}
	// variables without initializer are zeroed first
	var zero []string
	for i, af := range files {
		f := names[i]
		in.tf = in.fset.File(af.Pos())
		for _, d := range af.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, sp := range gd.Specs {
				vs := sp.(*ast.ValueSpec)
				if len(vs.Values) > 0 || vs.Type == nil {
					continue
				}
				text := fes[f].render(in.off(vs.Type.Pos()), in.off(vs.Type.End()))
				for _, n := range vs.Names {
					if n.Name == "_" {
						continue
					}
					fmt.Fprintf(tails[f], "\nfunc verifReset%d() { var zero %s; %s = zero }\n", k, text, n.Name)
					zero = append(zero, fmt.Sprintf("verifReset%d", k))
					k++
				}
			}
		}
	}
	outFiles := map[string][]byte{}
	for i, af := range files {
		f := names[i]
		fe := fes[f]
		in.tf = in.fset.File(af.Pos())
		if usedIn[f] {
			fe.insert(in.off(af.Name.End()), fmt.Sprintf("; import simrt %q", in.modpath+"/"+simBase+"/simrt"), 0)
		}
		outFiles[f] = []byte(in.header(af, fe, filepath.Join(p.Dir, f)) + tails[f].String())
	}
	var b strings.Builder
	fmt.Fprintf(&b, "//go:build go1.21\n\npackage %s\n\n", tp.Name())
	fmt.Fprintf(&b, "// VerifReset puts all package-level state back to process start.\nfunc VerifReset() {\n")
	for _, z := range append(zero, order...) {
		fmt.Fprintf(&b, "\t%s()\n", z)
	}
	for i := 0; i < nInit; i++ {
		fmt.Fprintf(&b, "\tverifInit%d()\n", i)
	}
	fmt.Fprintf(&b, "}\n\nfunc init() {\n")
	for i := 0; i < nInit; i++ {
		fmt.Fprintf(&b, "\tverifInit%d()\n", i)
	}
	fmt.Fprintf(&b, "}\n")
	outFiles["zz_verif_reset.go"] = []byte(b.String())
	return outFiles
}

// header renders a file with its build constraint raised to a language version with
// generics. Language version 1.21 keeps the loop variable semantics of the repository.
func (in *instr) header(af *ast.File, fe *fileEdits, path string) string {
	constraint := "go1.21"
	for _, cg := range af.Comments {
		if cg.Pos() > af.Package {
			break
		}
		for _, c := range cg.List {
			if strings.HasPrefix(c.Text, "//go:build ") {
				constraint = "(" + strings.TrimPrefix(c.Text, "//go:build ") + ") && go1.21"
				fe.replace(in.off(c.Pos()), in.off(c.End()), "// (constraint moved)")
			} else if strings.HasPrefix(c.Text, "// +build ") {
				fe.replace(in.off(c.Pos()), in.off(c.End()), "// (constraint moved)")
			}
		}
	}
	return "//go:build " + constraint + "\n\n//line " + path + ":1\n" + fe.render(0, len(fe.src))
}

// isConstTable is true for initializers which are plain composite literals of
// Unicode range tables: they are never written to.
func isConstTable(io *types.Initializer) bool {
	e := io.Rhs
	if u, ok := e.(*ast.UnaryExpr); ok && u.Op == token.AND {
		e = u.X
	}
	if _, ok := e.(*ast.CompositeLit); !ok {
		return false
	}
	return len(io.Lhs) == 1 && strings.HasSuffix(io.Lhs[0].Type().String(), "unicode.RangeTable")
}

func (in *instr) site(p token.Pos) int {
	id := len(*in.sites) + 1
	*in.sites = append(*in.sites, site{ID: id, File: in.fname, Line: in.fset.Position(p).Line, Func: in.fn})
	return id
}

func (in *instr) yieldBefore(p token.Pos) {
	if *noInstr {
		return
	}
	in.ins(p, fmt.Sprintf("simrt.Yield(%d);", in.site(p)))
}

func (in *instr) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s := s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		case *ast.DeclStmt:
			if gd := s.Decl.(*ast.GenDecl); gd.Tok != token.VAR {
				continue
			}
		}
		in.yieldBefore(s.Pos())
	}
}

func (in *instr) walk(root ast.Node) {
	if root == nil {
		return
	}
	ast.Inspect(root, func(n ast.Node) bool {
		if n == nil || in.skip[n] {
			return false
		}
		switch n := n.(type) {
		case *ast.BlockStmt:
			in.stmts(n.List)
		case *ast.CaseClause:
			in.stmts(n.Body)
		case *ast.CommClause:
			in.stmts(n.Body)
		case *ast.ForStmt:
			in.loopYield(n.Body)
		case *ast.RangeStmt:
			in.loopYield(n.Body)
			return in.rangeStmt(n)
		case *ast.GoStmt:
			return in.goStmt(n)
		case *ast.SendStmt:
			in.ins(n.Pos(), "simrt.Send(")
			in.rep(n.Chan.End(), n.Value.Pos(), ")(")
			in.insEnd(n.Value.End(), ")")
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				if u, ok := unparen(n.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					in.recv(u, true)
					in.walk(n.Lhs[0])
					in.walk(n.Lhs[1])
					in.walk(u.X)
					return false
				}
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				if u, ok := unparen(n.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					in.recv(u, true)
					in.walk(u.X)
					return false
				}
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW {
				in.recv(n, false)
			}
		case *ast.SelectStmt:
			in.selectStmt(n)
			return false
		case *ast.CallExpr:
			in.call(n)
		case *ast.SelectorExpr:
			if !in.called[n] {
				return in.funcValue(n)
			}
		}
		return true
	})
}

func (in *instr) loopYield(b *ast.BlockStmt) {
	if len(b.List) == 0 && !*noInstr {
		in.ins(b.Lbrace+1, fmt.Sprintf("simrt.Yield(%d);", in.site(b.Lbrace)))
	}
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

func (in *instr) recv(u *ast.UnaryExpr, two bool) {
	f := "simrt.Recv("
	if two {
		f = "simrt.Recv2("
	}
	in.rep(u.Pos(), u.X.Pos(), f)
	in.insEnd(u.X.End(), ")")
}

func (in *instr) tmp() int { in.nLocal++; return in.nLocal }

func pure(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return pure(e.X)
	case *ast.StarExpr:
		return pure(e.X)
	case *ast.ParenExpr:
		return pure(e.X)
	}
	return false
}

func (in *instr) rangeStmt(n *ast.RangeStmt) bool {
	tv, ok := in.info.Types[n.X]
	if !ok {
		return true
	}
	switch tv.Type.Underlying().(type) {
	case *types.Chan:
		k := in.tmp()
		c, okv := fmt.Sprintf("simrtC%d", k), fmt.Sprintf("simrtOk%d", k)
		switch {
		case n.Key == nil:
			in.rep(n.For, n.X.Pos(), fmt.Sprintf("for %s := ", c))
			in.insEnd(n.X.End(), fmt.Sprintf(";;"))
			in.fe.insert(in.off(n.Body.Lbrace)+1, fmt.Sprintf(" if _, %s := simrt.Recv2(%s); !%s { break };", okv, c, okv), -2)
		case n.Tok == token.DEFINE:
			key := n.Key.(*ast.Ident).Name
			in.rep(n.For, n.X.Pos(), fmt.Sprintf("for %s, %s := simrt.RangeInit(", c, key))
			in.insEnd(n.X.End(), ");;")
			if key == "_" {
				in.fe.insert(in.off(n.Body.Lbrace)+1, fmt.Sprintf(" if _, %s := simrt.Recv2(%s); !%s { break };", okv, c, okv), -2)
			} else {
				in.fe.insert(in.off(n.Body.Lbrace)+1, fmt.Sprintf(" var %s bool; %s, %s = simrt.Recv2(%s); if !%s { break };", okv, key, okv, c, okv), -2)
			}
		default:
			in.rep(n.For, n.Key.Pos(), "")
			key := string(in.fe.src[in.off(n.Key.Pos()):in.off(n.Key.End())])
			in.rep(n.Key.Pos(), n.X.Pos(), fmt.Sprintf("for %s := ", c))
			in.insEnd(n.X.End(), ";;")
			in.fe.insert(in.off(n.Body.Lbrace)+1, fmt.Sprintf(" var %s bool; %s, %s = simrt.Recv2(%s); if !%s { break };", okv, key, okv, c, okv), -2)
		}
		in.used = true
		in.walk(n.X)
		in.walk(n.Body)
		return false
	case *types.Map:
		if !pure(n.X) || n.Key == nil || n.Tok != token.DEFINE {
			return true
		}
		k := in.tmp()
		m := string(in.fe.src[in.off(n.X.Pos()):in.off(n.X.End())])
		key := n.Key.(*ast.Ident).Name
		val := "_"
		if n.Value != nil {
			val = n.Value.(*ast.Ident).Name
		}
		kv := fmt.Sprintf("simrtK%d", k)
		in.rep(n.For, n.X.End(), fmt.Sprintf("for _, %s := range simrt.MapOrder(%s)", kv, m))
		var t string
		if key != "_" {
			t += fmt.Sprintf(" %s := %s;", key, kv)
		}
		if val != "_" {
			t += fmt.Sprintf(" %s, simrtOk%d := %s[%s]; if !simrtOk%d { continue };", val, k, m, kv, k)
		} else {
			t += fmt.Sprintf(" if _, simrtOk%d := %s[%s]; !simrtOk%d { continue };", k, m, kv, k)
		}
		in.fe.insert(in.off(n.Body.Lbrace)+1, t, -2)
		in.walk(n.Body)
		return false
	}
	return true
}

// goStmt: go f(a, b)  ⇒  simrt.Go2(f, a, b)
func (in *instr) goStmt(n *ast.GoStmt) bool {
	c := n.Call
	tv := in.info.Types[c.Fun]
	sig, _ := tv.Type.(*types.Signature)
	simple := sig != nil && !tv.IsBuiltin() && !tv.IsType() && !sig.Variadic() && sig.Results().Len() == 0 &&
		len(c.Args) == sig.Params().Len() && len(c.Args) <= 6
	for i, a := range c.Args {
		if simple && !types.Identical(in.info.Types[a].Type, sig.Params().At(i).Type()) {
			simple = false
		}
	}
	if simple {
		in.rep(n.Go, c.Fun.Pos(), fmt.Sprintf("simrt.Go%d(", len(c.Args)))
		if len(c.Args) == 0 {
			in.rep(c.Fun.End(), c.Rparen, "")
		} else {
			in.rep(c.Fun.End(), c.Lparen+1, ", ")
		}
		in.walk(c.Fun)
		for _, a := range c.Args {
			in.walk(a)
		}
		return false
	}
	if sig != nil && !tv.IsBuiltin() && !tv.IsType() && len(c.Args) > 0 && in.hoistable(c) {
		// function and arguments are evaluated now
		lhs, call := "simrtF", "simrtF("
		for i, a := range c.Args {
			name := fmt.Sprintf("simrtA%d", i)
			at := in.info.Types[a]
			if at.Value != nil || at.IsNil() {
				call += string(in.fe.src[in.off(a.Pos()):in.off(a.End())]) + ", "
				in.rep(a.Pos(), a.End(), "0")
				lhs += ", _"
				continue
			}
			in.walk(a)
			lhs += ", " + name
			call += name
			if c.Ellipsis.IsValid() && i == len(c.Args)-1 {
				call += "..."
			}
			call += ", "
		}
		in.rep(n.Go, c.Fun.Pos(), "simrt.Go0(func() func() { "+lhs+" := ")
		in.walk(c.Fun)
		in.rep(c.Fun.End(), c.Lparen+1, ", ")
		in.rep(c.Args[len(c.Args)-1].End(), c.End(), "; return func() { "+call+") } }())")
		return false
	}
	in.rep(n.Go, c.Fun.Pos(), "simrt.Go0(func() { ")
	in.insEnd(c.End(), " })")
	in.walk(c)
	return false
}

// pipes replaces io.Pipe and its types.
func (in *instr) pipes(af *ast.File, tail *strings.Builder) {
	pkg := ""
	ast.Inspect(af, func(n ast.Node) bool {
		if sel, ok := n.(*ast.SelectorExpr); ok {
			o := in.info.Uses[sel.Sel]
			if o == nil || o.Pkg() == nil || o.Pkg().Path() != "io" {
				return true
			}
			switch o.Name() {
			case "Pipe", "PipeReader", "PipeWriter":
				if o.Parent() == o.Pkg().Scope() {
					pkg = sel.X.(*ast.Ident).Name
					in.rep(sel.Pos(), sel.End(), "simrt."+o.Name())
				}
			}
		}
		return true
	})
	if pkg != "" {
		fmt.Fprintf(tail, "\nvar _ = %s.EOF // still imported\n", pkg)
	}
}

// hoistable is false for f(g()) with several results of g.
func (in *instr) hoistable(c *ast.CallExpr) bool {
	for _, a := range c.Args {
		if _, ok := in.info.Types[a].Type.(*types.Tuple); ok {
			return false
		}
	}
	return true
}

// rendered is the instrumented text of an expression, to be placed elsewhere.
func (in *instr) rendered(e ast.Expr) string {
	n := len(in.fe.edits)
	in.walk(e)
	text := in.fe.render(in.off(e.Pos()), in.off(e.End()))
	in.fe.edits = in.fe.edits[:n]
	return text
}

func (in *instr) selectStmt(n *ast.SelectStmt) {
	// label: kept; select { … } ⇒ switch c0, c1 := simrt.RecvCase(ch), simrt.SendCase(ch, v); simrt.Select(hasDefault, c0, c1) { case 0: …
	k := in.tmp()
	hasDefault := false
	var names, exprs []string
	idx := 0
	for _, cs := range n.Body.List {
		cc := cs.(*ast.CommClause)
		if cc.Comm == nil {
			hasDefault = true
			in.stmts(cc.Body)
			for _, s := range cc.Body {
				in.walk(s)
			}
			continue
		}
		name := fmt.Sprintf("simrtS%d_%d", k, idx)
		names = append(names, name)
		src := func(e ast.Node) string { return string(in.fe.src[in.off(e.Pos()):in.off(e.End())]) }
		assign := ""
		switch c := cc.Comm.(type) {
		case *ast.SendStmt:
			exprs = append(exprs, fmt.Sprintf("simrt.SendCase(%s)(%s)", in.rendered(c.Chan), in.rendered(c.Value)))
		case *ast.ExprStmt:
			u := unparen(c.X).(*ast.UnaryExpr)
			exprs = append(exprs, fmt.Sprintf("simrt.RecvCase(%s)", in.rendered(u.X)))
		case *ast.AssignStmt:
			u := unparen(c.Rhs[0]).(*ast.UnaryExpr)
			exprs = append(exprs, fmt.Sprintf("simrt.RecvCase(%s)", in.rendered(u.X)))
			assign = fmt.Sprintf(" %s %s %s.V;", src(c.Lhs[0]), c.Tok, name)
			if len(c.Lhs) == 2 {
				assign = fmt.Sprintf(" %s, %s %s %s.V, %s.OK;", src(c.Lhs[0]), src(c.Lhs[1]), c.Tok, name, name)
			}
			if len(c.Lhs) == 1 && src(c.Lhs[0]) == "_" {
				assign = ""
			}
		}
		in.rep(cc.Case, cc.Colon+1, fmt.Sprintf("case %d:%s", idx, assign))
		in.stmts(cc.Body)
		for _, s := range cc.Body {
			in.walk(s)
		}
		idx++
	}
	if len(names) == 0 {
		if hasDefault {
			in.rep(n.Select, n.Body.Lbrace, "switch ")
		} else {
			in.rep(n.Select, n.Body.Lbrace, "switch simrt.Forever(); ")
			in.insEnd(n.Body.Rbrace, "default: panic(\"select\");")
		}
		return
	}
	if !hasDefault { // keeps a terminating statement terminating
		in.insEnd(n.Body.Rbrace, "default: panic(\"select\");")
	}
	args := strings.Join(names, ", ")
	in.rep(n.Select, n.Body.Lbrace, fmt.Sprintf("switch %s := %s; simrt.Select(%v, %s) ", args, strings.Join(exprs, ", "), hasDefault, args))
}

// callee returns the full name of a called function or method, e.g. "(*sync.Mutex).Lock".
func (in *instr) callee(c *ast.CallExpr) (*types.Func, *ast.SelectorExpr) {
	switch f := unparen(c.Fun).(type) {
	case *ast.SelectorExpr:
		if o, ok := in.info.Uses[f.Sel].(*types.Func); ok {
			return o, f
		}
	case *ast.Ident:
		if o, ok := in.info.Uses[f].(*types.Func); ok {
			return o, nil
		}
	}
	return nil, nil
}

var methodMap = map[string]string{
	"(*sync.Mutex).Lock":      "MutexLock",
	"(*sync.Mutex).Unlock":    "MutexUnlock",
	"(*sync.RWMutex).Lock":    "RWLock",
	"(*sync.RWMutex).Unlock":  "RWUnlock",
	"(*sync.RWMutex).RLock":   "RWRLock",
	"(*sync.RWMutex).RUnlock": "RWRUnlock",
	"(*sync.RWMutex).RLocker": "RWRLocker",
	"(sync.Locker).Lock":      "LockerLock",
	"(sync.Locker).Unlock":    "LockerUnlock",
	"(*sync.Once).Do":         "OnceDo",
	"(*sync.WaitGroup).Add":   "WGAdd",
	"(*sync.WaitGroup).Done":  "WGDone",
	"(*sync.WaitGroup).Wait":  "WGWait",
	"(*sync.WaitGroup).Go":    "WGGo",
	"(*sync.Cond).Wait":       "CondWait",
	"(*sync.Cond).Signal":     "CondSignal",
	"(*sync.Cond).Broadcast":  "CondBroadcast",
	"(*sync.Pool).Get":        "PoolGet",
	"(*sync.Pool).Put":        "PoolPut",
	"(*time.Timer).Stop":      "TimerStop",
	"(*time.Timer).Reset":     "TimerReset",
	"(*time.Ticker).Stop":     "TickerStop",
	"(*time.Ticker).Reset":    "TickerReset",
}

var funcMap = map[string]string{
	"time.Sleep":      "Sleep",
	"time.Now":        "Now",
	"time.Since":      "Since",
	"time.After":      "After",
	"time.NewTimer":   "NewTimer",
	"time.AfterFunc":  "AfterFunc",
	"time.NewTicker":  "NewTicker",
	"time.Tick":       "Tick",
	"runtime.Gosched": "Gosched",
	"sync.OnceFunc":   "OnceFunc",
}

// shapes are the parameters and results of methods, where there are any.
var shapes = map[string]struct{ bind, param, arg, result string }{
	"OnceDo":      {"1", "simrtA func()", "simrtA", ""},
	"WGAdd":       {"1", "simrtA int", "simrtA", ""},
	"WGGo":        {"1", "simrtA func()", "simrtA", ""},
	"PoolGet":     {"0R", "", "", "interface{}"},
	"PoolPut":     {"1", "simrtA interface{}", "simrtA", ""},
	"TimerStop":   {"0R", "", "", "bool"},
	"TimerReset":  {"1R", "simrtA simrt.Duration", "simrtA", "bool"},
	"TickerReset": {"1", "simrtA simrt.Duration", "simrtA", ""},
	"RWRLocker":   {"0R", "", "", "simrt.Locker"},
}

// method returns the replacement for a method, or "".
func method(fn *types.Func) string {
	if m, ok := methodMap[fn.FullName()]; ok {
		return m
	}
	// an interface which is satisfied by locks
	sig, _ := fn.Type().(*types.Signature)
	if sig == nil || sig.Recv() == nil || sig.Params().Len()+sig.Results().Len() > 0 {
		return ""
	}
	it, ok := sig.Recv().Type().Underlying().(*types.Interface)
	if !ok {
		return ""
	}
	has := func(name string) bool {
		for i := 0; i < it.NumMethods(); i++ {
			if s := it.Method(i).Type().(*types.Signature); it.Method(i).Name() == name && s.Params().Len()+s.Results().Len() == 0 {
				return true
			}
		}
		return false
	}
	switch n := fn.Name(); n {
	case "Lock", "Unlock":
		if has("Lock") && has("Unlock") {
			return "Locker" + n
		}
	case "RLock", "RUnlock":
		if has("RLock") && has("RUnlock") {
			return "RLocker" + n
		}
	}
	return ""
}

// embedded is the path through embedded fields to the receiver of a method, and the
// operator which makes it a pointer.
func embedded(s *types.Selection) (path, amp string, ok bool) {
	t := s.Recv()
	for _, i := range s.Index()[:len(s.Index())-1] {
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			t = pt.Elem()
		}
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return "", "", false
		}
		path += "." + st.Field(i).Name()
		t = st.Field(i).Type()
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface:
		return path, "", true
	}
	return path, "&", true
}

// funcValue rewrites functions and methods which are used as values. The result tells
// whether to descend.
func (in *instr) funcValue(sel *ast.SelectorExpr) bool {
	fn, ok := in.info.Uses[sel.Sel].(*types.Func)
	if !ok {
		return true
	}
	src := func(e ast.Node) string { return string(in.fe.src[in.off(e.Pos()):in.off(e.End())]) }
	s := in.info.Selections[sel]
	if s == nil {
		if r, ok := funcMap[fn.FullName()]; ok { // keeps the import used
			in.rep(sel.Pos(), sel.End(), "simrt.Std("+src(sel)+", simrt."+r+")")
			return false
		}
		return true
	}
	m := method(fn)
	if m == "" {
		return true
	}
	path, amp, ok := embedded(s)
	if !ok {
		return true
	}
	sh := shapes[m]
	switch s.Kind() {
	case types.MethodVal:
		inst := ""
		bind := sh.bind
		if bind == "" {
			bind = "0"
		}
		if strings.HasPrefix(m, "Locker") {
			inst = "[simrt.Locker]"
		} else if strings.HasPrefix(m, "RLocker") {
			inst = "[simrt.RLocker]"
		}
		in.ins(sel.Pos(), "simrt.Bind"+bind+inst+"(simrt."+m+", "+amp)
		in.rep(sel.X.End(), sel.End(), path+")")
		return true
	case types.MethodExpr:
		args, ret := amp+"simrtX"+path, ""
		if path == "" {
			args = "simrtX" // the receiver type is a pointer or interface
		}
		params := "simrtX " + src(sel.X)
		if sh.param != "" {
			params += ", " + sh.param
			args += ", " + sh.arg
		}
		if sh.result != "" {
			ret = "return "
		}
		in.rep(sel.Pos(), sel.End(), "simrt.Std("+src(sel)+", func("+params+") "+sh.result+" { "+ret+"simrt."+m+"("+args+") })")
		return false
	}
	return true
}

func (in *instr) call(c *ast.CallExpr) {
	if id, ok := unparen(c.Fun).(*ast.Ident); ok && id.Name == "close" {
		if tv := in.info.Types[c.Fun]; tv.IsBuiltin() {
			in.rep(c.Fun.Pos(), c.Fun.End(), "simrt.Close")
			return
		}
	}
	fn, sel := in.callee(c)
	if fn == nil {
		return
	}
	name := fn.FullName()
	if name == "golang.org/x/text/unicode/rangetable.New" && sel != nil && !c.Ellipsis.IsValid() {
		in.rep(c.Fun.Pos(), c.Lparen+1, fmt.Sprintf("simrt.RangeTable(%d, %s, ", in.site(c.Pos()),
			string(in.fe.src[in.off(c.Fun.Pos()):in.off(c.Fun.End())])))
		in.skip[c.Fun] = true
		return
	}
	if m := method(fn); m != "" && sel != nil && c.Fun == ast.Expr(sel) {
		s := in.info.Selections[sel]
		if s == nil || s.Kind() != types.MethodVal {
			return
		}
		path, amp, ok := embedded(s)
		if !ok {
			return
		}
		in.called[sel] = true
		in.ins(c.Pos(), "simrt."+m+"("+amp)
		sep := ""
		if len(c.Args) > 0 {
			sep = ", "
		}
		in.rep(sel.X.End(), c.Lparen+1, path+sep)
		return
	}
	// function literals handed to packages outside the module (which may hold locks of
	// their own while calling back) run without preemption
	if fn.Pkg() != nil && !in.instrumented(fn.Pkg().Path()) {
		for _, a := range c.Args {
			if fl, ok := unparen(a).(*ast.FuncLit); ok {
				in.used = true
				in.fe.insert(in.off(fl.Body.Lbrace)+1, " simrt.NoPreempt(); defer simrt.Preempt();", -3)
			}
		}
	}
}
