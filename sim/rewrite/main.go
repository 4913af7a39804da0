// Command rewrite turns the current source of /repo (and the dependencies that
// run threads) into code that runs on the deterministic simulator. It only
// writes below -out: rewritten files plus overlay.json for "go build -overlay".
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const (
	module  = "github.com/vearutop/flatjsonl"
	simBase = module + "/verifsim"
	rtPath  = simBase + "/simrt"
)

// Standard library packages with a simulated replacement.
var shims = map[string]string{
	"os": "os", "sync": "sync", "sync/atomic": "atomic", "time": "time", "runtime": "runtime",
	"runtime/debug": "debug", "log": "log", "fmt": "fmt", "maps": "maps", "database/sql": "sql",
	"path/filepath": "filepath", "io": "io", "io/ioutil": "ioutil", "math/rand": "rand", "math/rand/v2": "randv2", "os/signal": "signal",
	zstdPath: "zstd",
}

// Not a standard package: the code may stop using it.
const zstdPath = "github.com/klauspost/compress/zstd"

// Dependencies that are rewritten as well (copied below verifsim/dep).
var deps = map[string]string{
	"github.com/bool64/progress":     "progress",
	"github.com/klauspost/pgzip":     "pgzip",
	"github.com/puzpuzpuz/xsync/v3":  "xsync",
	"github.com/vearutop/fastjson":   "fastjson",
	"context":                        "context",
	"golang.org/x/sync/errgroup":     "errgroup",
	"golang.org/x/sync/semaphore":    "semaphore",
	"golang.org/x/sync/singleflight": "singleflight",
}

// Standard library packages that would escape the simulator.
var forbidden = map[string]bool{"os/exec": true, "net": true, "net/http": true, "plugin": true}

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	Export     string
	GoFiles    []string
	Standard   bool
	Imports    []string
	Module     *struct{ Path string }
	Error      *struct{ Err string }
}

var (
	repo    = flag.String("repo", "/repo", "repository")
	simDir  = flag.String("sim", "/verif/sim", "simulator sources")
	out     = flag.String("out", "", "output directory")
	pkgs    = map[string]*pkgInfo{}
	fset    = token.NewFileSet()
	imp     types.Importer
	overlay = map[string]string{}
	sites   []string
	resets  []string
)

func main() {
	log.SetFlags(0)
	flag.Parse()

	list()

	imp = importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := pkgs[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}

		return os.Open(p.Export)
	})

	// Everything of the module that the entry points reach is under test.
	for _, path := range sortedKeys(pkgs) {
		p := pkgs[path]
		if p.Module == nil || p.Module.Path != module || p.Standard || strings.HasPrefix(path, simBase) {
			continue
		}

		target := p.Dir

		if p.Name == "main" {
			target = filepath.Join(*repo, "verifsim", "cmd", "m_"+mainName(path))
		}

		rewritePkg(p, target, true)
	}

	for _, path := range sortedKeys(deps) {
		if p := pkgs[path]; p != nil && p.Dir != "" && usedBySUT(path) {
			rewritePkg(p, filepath.Join(*repo, "verifsim", "dep", deps[path]), false)
		}
	}

	for _, path := range sortedKeys(shims) {
		if pkgs[path] == nil {
			continue
		}

		shim(path, shims[path])
	}

	for _, d := range []string{"simrt", "harness"} {
		fs, err := filepath.Glob(filepath.Join(*simDir, d, "*.go"))
		check(err)

		for _, f := range fs {
			overlay[filepath.Join(*repo, "verifsim", d, filepath.Base(f))] = f
		}
	}

	writeFile(filepath.Join(*repo, "verifsim", "harness", "zz_sites.go"), siteTable())

	b, err := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	check(err)
	check(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
}

func usedBySUT(dep string) bool {
	switch dep {
	case "context", "golang.org/x/sync/errgroup", "golang.org/x/sync/semaphore", "golang.org/x/sync/singleflight":
		for _, p := range pkgs {
			if p.Module != nil && p.Module.Path == module || (p.Module != nil && strings.HasPrefix(p.ImportPath, "golang.org/x/sync/")) {
				for _, i := range p.Imports {
					if i == dep {
						return true
					}
				}
			}
		}

		return false
	}

	return true
}

func mainName(path string) string {
	if path == module {
		return "root"
	}

	return strings.NewReplacer("/", "_", "-", "_", ".", "_").Replace(strings.TrimPrefix(path, module+"/"))
}

func check(err error) {
	if err != nil {
		log.Fatal("rewrite: ", err)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}

	sort.Strings(ks)

	return ks
}

func list() {
	args := []string{"list", "-mod=readonly", "-export", "-deps", "-json=ImportPath,Dir,Name,Export,GoFiles,Standard,Imports,Module,Error", ".", "./flatjsonl", "./cmd/csvequals"}
	for p := range shims {
		if p != zstdPath {
			args = append(args, p)
		}
	}

	cmd := exec.Command("go", args...)
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr

	b, err := cmd.Output()
	check(err)

	dec := json.NewDecoder(bytes.NewReader(b))

	for {
		p := &pkgInfo{}
		if err := dec.Decode(p); err == io.EOF {
			break
		} else if err != nil {
			check(err)
		}

		if p.Error != nil {
			log.Fatal("rewrite: ", p.ImportPath, ": ", p.Error.Err)
		}

		pkgs[p.ImportPath] = p
	}
}

func writeFile(virtual, content string) {
	rel, err := filepath.Rel(*repo, virtual)
	check(err)

	real := filepath.Join(*out, "src", rel)
	check(os.MkdirAll(filepath.Dir(real), 0o755))
	check(os.WriteFile(real, []byte(content), 0o644))
	overlay[virtual] = real
}

type edit struct {
	off    int
	end    int // > off for replacements
	suffix bool
	seq    int
	text   string
}

type rw struct {
	p     *pkgInfo
	sut   bool
	info  *types.Info
	tp    *types.Package
	file  *ast.File
	src   []byte
	tf    *token.File
	edits []edit
	tmp   int
	tail  string
}

func rewritePkg(p *pkgInfo, target string, sut bool) {
	var files []*ast.File

	srcs := map[*ast.File][]byte{}
	names := map[*ast.File]string{}

	for _, f := range p.GoFiles {
		fn := filepath.Join(p.Dir, f)
		src, err := os.ReadFile(fn)
		check(err)

		src = tweak(p.ImportPath, f, src)

		af, err := parser.ParseFile(fset, fn, src, parser.ParseComments|parser.SkipObjectResolution)
		check(err)

		files = append(files, af)
		srcs[af] = src
		names[af] = f
	}

	info := &types.Info{
		Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{}, Instances: map[*ast.Ident]types.Instance{},
	}
	conf := types.Config{Importer: imp, Sizes: types.SizesFor("gc", "amd64"), Error: func(err error) {
		if !strings.Contains(err.Error(), "imported and not used") {
			log.Print("rewrite: typecheck: ", err)
		}
	}}

	tp, _ := conf.Check(p.ImportPath, fset, files, info)
	if tp == nil {
		log.Fatal("rewrite: cannot type check ", p.ImportPath)
	}

	nInit := 0

	rws := map[*ast.File]*rw{}

	for _, af := range files {
		r := &rw{p: p, sut: sut, info: info, tp: tp, file: af, src: srcs[af], tf: fset.File(af.Pos())}
		rws[af] = r
		r.imports()
		r.walkFile(&nInit)
	}

	if sut {
		writeFile(filepath.Join(target, "zz_vsim_reset.go"), resetFile(tp, p, files, rws, info, nInit))

		rel, err := filepath.Rel(*repo, target)
		check(err)

		resets = append(resets, module+"/"+filepath.ToSlash(rel))
	}

	for _, af := range files {
		writeFile(filepath.Join(target, names[af]), rws[af].render())
	}
}

// tweak adapts constants and process-random functions of dependencies.
func tweak(path, file string, src []byte) []byte {
	s := string(src)

	switch path {
	case "github.com/klauspost/pgzip":
		// Smaller blocks, so that several of them are in flight for small files.
		s = strings.ReplaceAll(s, "defaultBlockSize = 1 << 20", "defaultBlockSize = 1 << 15")
		s = strings.ReplaceAll(s, "const defaultBlocks = 16", "const defaultBlocks = 4")
	case "github.com/puzpuzpuz/xsync/v3":
		if file == "util_hash.go" {
			s = xsyncHash
		}

		if file == "util.go" {
			s = strings.ReplaceAll(s, "//go:linkname runtime_fastrand runtime.fastrand", "")
			s = strings.ReplaceAll(s, "//go:noescape", "")
			s = strings.ReplaceAll(s, "func runtime_fastrand() uint32", "func runtime_fastrand() uint32 { return 7 }")
		}
	}

	return []byte(s)
}

const xsyncHash = `package xsync

import (
	"fmt"
	"runtime"
)

func makeSeed() uint64 { return 12345 }

func hashString(s string, seed uint64) uint64 {
	h := seed ^ 14695981039346656037
	for i := 0; i < len(s); i++ {
		h = (h ^ uint64(s[i])) * 1099511628211
	}
	return mixHash(h)
}

func mixHash(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9
	z = (z ^ (z >> 27)) * 0x94D049BB133111EB
	return z ^ (z >> 31)
}

var _ = runtime.NumCPU

func defaultHasher[T comparable]() func(T, uint64) uint64 {
	return func(v T, seed uint64) uint64 {
		switch x := any(v).(type) {
		case uint64:
			return mixHash(x ^ seed)
		case int64:
			return mixHash(uint64(x) ^ seed)
		case int:
			return mixHash(uint64(x) ^ seed)
		case string:
			return hashString(x, seed)
		}
		return hashString(fmt.Sprintf("%v", v), seed)
	}
}
`

func (r *rw) off(p token.Pos) int { return r.tf.Offset(p) }

func (r *rw) prefix(p token.Pos, s string) {
	r.edits = append(r.edits, edit{off: r.off(p), end: r.off(p), text: s, seq: len(r.edits)})
}

func (r *rw) suffix(p token.Pos, s string) {
	r.edits = append(r.edits, edit{off: r.off(p), end: r.off(p), text: s, suffix: true, seq: len(r.edits)})
}

func (r *rw) replace(from, to token.Pos, s string) {
	r.edits = append(r.edits, edit{off: r.off(from), end: r.off(to), text: s, seq: len(r.edits)})
}

func (r *rw) apply() string {
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}

		if a.suffix != b.suffix {
			return a.suffix
		}

		// Insertions go before a replacement at the same place.
		if (a.end > a.off) != (b.end > b.off) {
			return b.end > b.off
		}

		return a.seq < b.seq
	})

	var sb strings.Builder

	pos := 0

	for _, e := range r.edits {
		if e.off < pos {
			log.Fatalf("rewrite: overlapping edits in %s at %s: %q", r.p.ImportPath, fset.Position(r.tf.Pos(e.off)), e.text)
		}

		sb.Write(r.src[pos:e.off])
		sb.WriteString(e.text)
		pos = e.end
	}

	sb.Write(r.src[pos:])

	return sb.String()
}

// render is the rewritten file.
func (r *rw) render() string {
	s := r.apply()

	// Rewritten loops need range over functions.
	if i := strings.Index(s, "//go:build "); i < 0 || i > r.off(r.file.Package) {
		s = "//go:build go1.23\n\n" + s
	}

	// The hash seed of maps of a dependency, see xsyncHash.
	if strings.HasPrefix(r.p.ImportPath, "github.com/puzpuzpuz/xsync") {
		s = strings.Replace(s, "return 12345 }", "return vsimrt.HashSeed() }", 1)
	}

	return s + "\n\nvar _ = vsimrt.Active\n" + r.tail
}

func (r *rw) imports() {
	if r.p.Name == "main" {
		r.replace(r.file.Name.Pos(), r.file.Name.End(), "m_"+mainName(r.p.ImportPath))
	}

	r.suffix(r.file.Name.End(), "; import vsimrt \""+rtPath+"\"")

	for _, is := range r.file.Imports {
		path, _ := strconv.Unquote(is.Path.Value)
		np := ""

		switch {
		case forbidden[path] && r.sut:
			log.Fatalf("rewrite: %s imports %s, which the simulator does not cover", r.p.ImportPath, path)
		case shims[path] != "":
			np = simBase + "/shim/" + shims[path]
		case deps[path] != "" && usedBySUT(path):
			np = simBase + "/dep/" + deps[path]
		case path == "internal/reflectlite":
			np = "reflect"
		default:
			if p := pkgs[path]; p != nil && p.Name == "main" {
				log.Fatalf("rewrite: import of main package %s", path)
			}

			continue
		}

		txt := strconv.Quote(np)
		if is.Name == nil {
			name := pkgs[path].Name
			txt = name + " " + txt
		}

		r.replace(is.Path.Pos(), is.Path.End(), txt)
	}
}

func (r *rw) site(p token.Pos) string {
	pos := fset.Position(p)
	sites = append(sites, fmt.Sprintf("%s/%s:%d", filepath.Base(filepath.Dir(pos.Filename)), filepath.Base(pos.Filename), pos.Line))

	if len(sites) >= 1<<15 {
		log.Fatal("rewrite: too many yield sites")
	}

	return strconv.Itoa(len(sites) - 1)
}

func (r *rw) name(p token.Pos) string {
	pos := fset.Position(p)

	return strconv.Quote(fmt.Sprintf("%s:%d", filepath.Base(pos.Filename), pos.Line))
}

func (r *rw) yield(s ast.Stmt) {
	if !r.sut {
		return
	}

	switch s.(type) {
	case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
		return
	}

	r.prefix(s.Pos(), "vsimrt.Y("+r.site(s.Pos())+"); ")
}

func (r *rw) walkFile(nInit *int) {
	for _, d := range r.file.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil {
			if fd.Name.Name == "init" && r.sut {
				*nInit++
				r.replace(fd.Name.Pos(), fd.Name.End(), fmt.Sprintf("vsimInit%d", *nInit))
			}

			if fd.Name.Name == "main" && r.p.Name == "main" {
				r.replace(fd.Name.Pos(), fd.Name.End(), "Main")
			}
		}

		r.node(d)
	}
}

func (r *rw) typeOf(e ast.Expr) types.Type {
	if tv, ok := r.info.Types[e]; ok {
		return tv.Type
	}

	if id, ok := e.(*ast.Ident); ok {
		if o := r.info.Uses[id]; o != nil {
			return o.Type()
		}

		if o := r.info.Defs[id]; o != nil {
			return o.Type()
		}
	}

	return nil
}

func core(t types.Type) types.Type {
	if t == nil {
		return nil
	}

	u := t.Underlying()

	if i, ok := u.(*types.Interface); ok {
		// A type parameter with a single underlying type.
		if tp, ok := t.(*types.TypeParam); ok {
			_ = i
			if c, ok := tp.Constraint().Underlying().(*types.Interface); ok && c.NumEmbeddeds() == 1 {
				if un, ok := c.EmbeddedType(0).(*types.Union); ok && un.Len() == 1 {
					return un.Term(0).Type().Underlying()
				}
			}
		}
	}

	return u
}

func (r *rw) isChan(e ast.Expr) bool { _, ok := core(r.typeOf(e)).(*types.Chan); return ok }
func (r *rw) isMap(e ast.Expr) bool  { _, ok := core(r.typeOf(e)).(*types.Map); return ok }

func (r *rw) isBuiltin(e ast.Expr, name string) bool {
	id, ok := e.(*ast.Ident)
	if !ok || id.Name != name {
		return false
	}

	_, ok = r.info.Uses[id].(*types.Builtin)

	return ok
}

func (r *rw) nodes(l []ast.Stmt) {
	for _, s := range l {
		r.yield(s)
		r.node(s)
	}
}

func (r *rw) exprs(l []ast.Expr) {
	for _, e := range l {
		r.node(e)
	}
}

// node rewrites a subtree; the order of calls is source order so that edits nest.
func (r *rw) node(n ast.Node) {
	switch n := n.(type) {
	case nil:
	case *ast.BlockStmt:
		if n != nil {
			r.nodes(n.List)
		}
	case *ast.CaseClause:
		r.exprs(n.List)
		r.nodes(n.Body)
	case *ast.ForStmt:
		r.stmt(n.Init)
		r.expr(n.Cond)
		r.stmt(n.Post)
		r.loopBody(n.Body)
	case *ast.RangeStmt:
		r.rangeStmt(n)
	case *ast.GoStmt:
		r.goStmt(n)
	case *ast.SendStmt:
		r.prefix(n.Pos(), "vsimrt.SendTo(")
		r.node(n.Chan)
		r.replace(n.Arrow, n.Arrow+2, ")(")
		r.node(n.Value)
		r.suffix(n.End(), ")")
	case *ast.SelectStmt:
		r.selectStmt(n)
	case *ast.AssignStmt:
		r.assign(n)
	case *ast.IncDecStmt:
		r.incDec(n)
	case *ast.DeclStmt:
		r.node(n.Decl)
	case *ast.UnaryExpr:
		if n.Op == token.ARROW {
			r.replace(n.OpPos, n.OpPos+2, "vsimrt.Recv(")
			r.node(n.X)
			r.suffix(n.End(), ")")

			return
		}

		r.node(n.X)
	case *ast.IndexExpr:
		if r.isMap(n.X) && r.sut {
			r.prefix(n.X.Pos(), "vsimrt.MR(")
			r.node(n.X)
			r.suffix(n.X.End(), ")")
			r.node(n.Index)

			return
		}

		r.node(n.X)
		r.node(n.Index)
	case *ast.CallExpr:
		r.call(n)
	case *ast.FuncDecl:
		r.funcBody(n.Body)
	case *ast.FuncLit:
		r.funcBody(n.Body)
	case *ast.LabeledStmt:
		r.node(n.Stmt)
	default:
		r.children(n)
	}
}

func (r *rw) funcBody(b *ast.BlockStmt) {
	if b != nil {
		r.nodes(b.List)
	}
}

func (r *rw) stmt(s ast.Stmt) {
	if s != nil {
		r.node(s)
	}
}

func (r *rw) expr(e ast.Expr) {
	if e != nil {
		r.node(e)
	}
}

// children visits direct children in source order.
func (r *rw) children(n ast.Node) {
	first := true

	ast.Inspect(n, func(c ast.Node) bool {
		if c == nil {
			return false
		}

		if first {
			first = false

			return true
		}

		r.node(c)

		return false
	})
}

func (r *rw) loopBody(b *ast.BlockStmt) {
	if len(b.List) == 0 && r.sut {
		r.suffix(b.Lbrace+1, "vsimrt.Y("+r.site(b.Pos())+")")
	}

	r.node(b)
}

func (r *rw) rangeStmt(n *ast.RangeStmt) {
	wrap := ""

	switch {
	case r.isMap(n.X):
		wrap = "vsimrt.RangeMap("
	case r.isChan(n.X):
		wrap = "vsimrt.RangeChan("
	}

	r.expr(n.Key)
	r.expr(n.Value)

	if wrap != "" {
		r.prefix(n.X.Pos(), wrap)
		r.node(n.X)
		r.suffix(n.X.End(), ")")
	} else {
		r.node(n.X)
	}

	r.loopBody(n.Body)
}

func (r *rw) goStmt(n *ast.GoStmt) {
	if fl, ok := n.Call.Fun.(*ast.FuncLit); ok {
		r.tmp++
		t := "vsimTok" + strconv.Itoa(r.tmp)
		r.prefix(n.Pos(), "{ "+t+" := vsimrt.PreGo("+r.name(n.Pos())+"); ")
		r.suffix(fl.Body.Lbrace+1, " defer vsimrt.EndGo("+t+"); vsimrt.BeginGo("+t+"); ")
		r.node(fl)
		r.exprs(n.Call.Args)
		r.suffix(n.End(), "; vsimrt.YOp() }")

		return
	}

	generic := false

	switch f := n.Call.Fun.(type) {
	case *ast.Ident:
		_, generic = r.info.Instances[f]
		if _, b := r.info.Uses[f].(*types.Builtin); b {
			generic = true
		}
	case *ast.SelectorExpr:
		_, generic = r.info.Instances[f.Sel]
	}

	if generic {
		r.replace(n.Go, n.Go+2, "vsimrt.Go("+r.name(n.Pos())+", func() { ")
		r.node(n.Call)
		r.suffix(n.End(), " })")

		return
	}

	fn := "vsimrt.GoCall("
	if n.Call.Ellipsis != token.NoPos {
		fn = "vsimrt.GoCallSlice("
		r.replace(n.Call.Ellipsis, n.Call.Ellipsis+3, "")
	}

	r.replace(n.Go, n.Go+2, fn+r.name(n.Pos())+", ")
	r.node(n.Call.Fun)

	sep := ""
	if len(n.Call.Args) > 0 {
		sep = ", "
	}

	r.replace(n.Call.Lparen, n.Call.Lparen+1, sep)
	r.exprs(n.Call.Args)
}

func (r *rw) selectStmt(n *ast.SelectStmt) {
	if len(n.Body.List) == 0 {
		r.replace(n.Pos(), n.End(), "vsimrt.BlockForever(); panic(0)")

		return
	}

	var names []string

	hasDefault := "false"

	type head struct {
		cc   *ast.CommClause
		name string
	}

	var heads []head

	for _, c := range n.Body.List {
		cc := c.(*ast.CommClause) //nolint
		if cc.Comm == nil {
			hasDefault = "true"
			heads = append(heads, head{cc, ""})

			continue
		}

		r.tmp++
		nm := "vsimC" + strconv.Itoa(r.tmp)
		names = append(names, nm)
		heads = append(heads, head{cc, nm})
	}

	// The channel and value expressions move to the switch header; they are rendered
	// from rewritten text of their own.
	var rhs []string

	i := 0

	for _, h := range heads {
		if h.cc.Comm == nil {
			r.suffix(h.cc.Colon, "")

			continue
		}

		var caseText, bind string

		switch s := h.cc.Comm.(type) {
		case *ast.SendStmt:
			caseText = "vsimrt.SendCase(" + r.sub(s.Chan) + ")(" + r.sub(s.Value) + ")"
		case *ast.ExprStmt:
			caseText = "vsimrt.RecvCase(" + r.sub(recvOf(s.X)) + ")"
		case *ast.AssignStmt:
			caseText = "vsimrt.RecvCase(" + r.sub(recvOf(s.Rhs[0])) + ")"

			var lhs []string
			for _, l := range s.Lhs {
				lhs = append(lhs, r.sub(l))
			}

			m := ".Val()"
			if len(lhs) == 2 {
				m = ".Val2()"
			}

			bind = strings.Join(lhs, ", ") + " " + s.Tok.String() + " " + h.name + m + "; "
		}

		rhs = append(rhs, caseText)
		r.replace(h.cc.Pos(), h.cc.Colon+1, "case "+strconv.Itoa(i)+": "+bind)
		i++
	}

	hd := "switch "
	if len(names) > 0 {
		hd += strings.Join(names, ", ") + " := " + strings.Join(rhs, ", ") + "; "
	}

	hd += "vsimrt.Select(" + hasDefault
	for _, nm := range names {
		hd += ", " + nm
	}

	hd += ") "

	r.replace(n.Select, n.Select+6, hd)

	for _, h := range heads {
		r.nodes(h.cc.Body)
	}

	if hasDefault == "false" {
		r.suffix(n.Body.Rbrace, "default: panic(\"unreachable\"); ")
	}
}

func recvOf(e ast.Expr) ast.Expr {
	for {
		if p, ok := e.(*ast.ParenExpr); ok {
			e = p.X

			continue
		}

		return e.(*ast.UnaryExpr).X //nolint
	}
}

// sub renders a rewritten copy of an expression.
func (r *rw) sub(e ast.Expr) string {
	s := &rw{p: r.p, sut: r.sut, info: r.info, tp: r.tp, file: r.file, tf: r.tf, tmp: r.tmp}
	s.node(e)
	r.tmp = s.tmp

	from, to := r.off(e.Pos()), r.off(e.End())
	s.src = r.src[:to]
	full := s.applyRange(from)

	return full
}

func (r *rw) applyRange(from int) string {
	// Reuse apply on the tail by dropping the head.
	for i := range r.edits {
		r.edits[i].off -= from
		r.edits[i].end -= from
	}

	r.src = r.src[from:]

	return r.apply()
}

func plainRef(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.Ident:
		return true
	case *ast.SelectorExpr:
		return plainRef(e.X)
	case *ast.StarExpr:
		return plainRef(e.X)
	case *ast.ParenExpr:
		return plainRef(e.X)
	}

	return false
}

// shared tells whether an assignable expression may be visible to other threads.
func (r *rw) shared(e ast.Expr) bool {
	switch e := e.(type) {
	case *ast.SelectorExpr, *ast.StarExpr:
		return true
	case *ast.IndexExpr:
		return !r.isMap(e.X)
	case *ast.Ident:
		v, ok := r.info.Uses[e].(*types.Var)

		return ok && (v.Parent() == r.tp.Scope() || r.captured(v))
	}

	return false
}

// captured: variables declared outside of the innermost function literal that uses them.
func (r *rw) captured(*types.Var) bool { return true }

func (r *rw) lhs(e ast.Expr) {
	if ix, ok := e.(*ast.IndexExpr); ok && r.isMap(ix.X) && r.sut {
		r.prefix(ix.X.Pos(), "vsimrt.MW(")
		r.node(ix.X)
		r.suffix(ix.X.End(), ")")
		r.node(ix.Index)

		return
	}

	r.node(e)
}

func (r *rw) assign(n *ast.AssignStmt) {
	// v, ok := <-c
	if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
		x := n.Rhs[0]
		for {
			p, ok := x.(*ast.ParenExpr)
			if !ok {
				break
			}

			x = p.X
		}

		if u, ok := x.(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			r.exprs(n.Lhs)
			r.replace(u.OpPos, u.OpPos+2, "vsimrt.Recv2(")
			r.node(u.X)
			r.suffix(u.End(), ")")

			return
		}
	}

	for _, l := range n.Lhs {
		r.lhs(l)
	}

	if !r.sut || len(n.Lhs) != 1 || len(n.Rhs) != 1 || n.Tok == token.DEFINE || !r.shared(n.Lhs[0]) {
		r.exprs(n.Rhs)

		return
	}

	l, x := n.Lhs[0], n.Rhs[0]
	lt, xt := r.typeOf(l), r.typeOf(x)

	if n.Tok == token.ASSIGN {
		tv := r.info.Types[x]
		if lt == nil || xt == nil || tv.Value != nil || tv.IsNil() || !types.Identical(lt, xt) {
			r.exprs(n.Rhs)

			return
		}

		r.prefix(x.Pos(), "vsimrt.Y1("+r.site(x.Pos())+", ")
		r.node(x)
		r.suffix(x.End(), ")")

		return
	}

	// Compound assignment: not atomic.
	if !plainRef(l) || lt == nil {
		r.exprs(n.Rhs)

		return
	}

	op := strings.TrimSuffix(n.Tok.String(), "=")
	lsrc := string(r.src[r.off(l.Pos()):r.off(l.End())])
	r.replace(n.TokPos, n.TokPos+token.Pos(len(n.Tok.String())), "= vsimrt.Y1("+r.site(n.TokPos)+", "+lsrc+" "+op+" (")
	r.node(x)
	r.suffix(x.End(), "))")
}

func (r *rw) incDec(n *ast.IncDecStmt) {
	r.lhs(n.X)

	if !r.sut || !plainRef(n.X) || !r.shared(n.X) {
		return
	}

	op := n.Tok.String()[:1]
	src := string(r.src[r.off(n.X.Pos()):r.off(n.X.End())])
	r.replace(n.TokPos, n.TokPos+2, "= vsimrt.Y1("+r.site(n.TokPos)+", "+src+" "+op+" 1)")
}

func (r *rw) call(n *ast.CallExpr) {
	switch {
	case r.isBuiltin(n.Fun, "close"):
		r.replace(n.Fun.Pos(), n.Fun.End(), "vsimrt.Close")
		r.exprs(n.Args)

		return
	case r.isBuiltin(n.Fun, "println"):
		r.replace(n.Fun.Pos(), n.Fun.End(), "vsimrt.Println")
		r.exprs(n.Args)

		return
	case r.isBuiltin(n.Fun, "print"):
		r.replace(n.Fun.Pos(), n.Fun.End(), "vsimrt.Print")
		r.exprs(n.Args)

		return
	case r.isBuiltin(n.Fun, "len") && len(n.Args) == 1 && r.isChan(n.Args[0]):
		r.replace(n.Fun.Pos(), n.Fun.End(), "vsimrt.ChLen")
		r.exprs(n.Args)

		return
	case r.isBuiltin(n.Fun, "make") && len(n.Args) > 0 && r.isChan(n):
		r.prefix(n.Pos(), "vsimrt.MakeChan(")
		r.exprs(n.Args)
		r.suffix(n.End(), ")")

		return
	case (r.isBuiltin(n.Fun, "delete") || r.isBuiltin(n.Fun, "clear")) && r.sut && r.isMap(n.Args[0]):
		r.prefix(n.Args[0].Pos(), "vsimrt.MW(")
		r.node(n.Args[0])
		r.suffix(n.Args[0].End(), ")")
		r.exprs(n.Args[1:])

		return
	}

	r.node(n.Fun)
	r.exprs(n.Args)
}

// resetFile re-initialises package variables so that runs in one process are independent.
func resetFile(tp *types.Package, p *pkgInfo, files []*ast.File, rws map[*ast.File]*rw, info *types.Info, nInit int) string {
	var sb strings.Builder

	name := tp.Name()
	if p.Name == "main" {
		name = "m_" + mainName(p.ImportPath)
	}

	sb.WriteString("package " + name + "\n\n")
	sb.WriteString("func vsimZero[T any](p *T) { var z T; *p = z }\n\n")
	sb.WriteString("// VsimReset puts package variables back to their initial values.\nfunc VsimReset() {\n")

	inited := map[types.Object]bool{}

	for _, in := range info.InitOrder {
		for _, v := range in.Lhs {
			inited[v] = true
		}
	}

	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && !inited[v] {
			fmt.Fprintf(&sb, "\tvsimZero(&%s)\n", n)
		}
	}

	for i, in := range info.InitOrder {
		var (
			names  []string
			useful bool
		)

		for _, v := range in.Lhs {
			names = append(names, v.Name())

			switch v.Type().String() {
			case "*regexp.Regexp", "*strings.Replacer", "error": // Immutable.
			default:
				useful = useful || v.Name() != "_"
			}
		}

		if !useful {
			continue
		}

		for _, f := range files {
			if f.FileStart <= in.Rhs.Pos() && in.Rhs.Pos() < f.FileEnd {
				r := rws[f]
				r.tail += fmt.Sprintf("\nfunc vsimInitVar%d() { %s = %s }\n", i, strings.Join(names, ", "), r.sub(in.Rhs))
			}
		}

		fmt.Fprintf(&sb, "\tvsimInitVar%d()\n", i)
	}

	for i := 1; i <= nInit; i++ {
		fmt.Fprintf(&sb, "\tvsimInit%d()\n", i)
	}

	sb.WriteString("}\n")

	if nInit > 0 {
		sb.WriteString("\nfunc init() {\n")

		for i := 1; i <= nInit; i++ {
			fmt.Fprintf(&sb, "\tvsimInit%d()\n", i)
		}

		sb.WriteString("}\n")
	}

	return sb.String()
}

func siteTable() string {
	var sb strings.Builder

	sb.WriteString("package main\n\nimport (\n")

	for i, r := range resets {
		fmt.Fprintf(&sb, "\tvsimPkg%d %q\n", i, r)
	}

	sb.WriteString(")\n\n// resetAll re-initialises the code under test.\nfunc resetAll() {\n")

	for i := range resets {
		fmt.Fprintf(&sb, "\tvsimPkg%d.VsimReset()\n", i)
	}

	sb.WriteString("}\n\nvar siteNames = []string{\n")

	for _, s := range sites {
		sb.WriteString("\t" + strconv.Quote(s) + ",\n")
	}

	sb.WriteString("}\n")

	return sb.String()
}

// shim writes the replacement of a standard package: hand written overrides plus aliases for the rest.
func shim(path, name string) {
	fs, err := filepath.Glob(filepath.Join(*simDir, "shim", name, "*.go"))
	check(err)

	have := map[string]bool{}

	for _, f := range fs {
		overlay[filepath.Join(*repo, "verifsim", "shim", name, filepath.Base(f))] = f

		af, err := parser.ParseFile(fset, f, nil, parser.SkipObjectResolution)
		check(err)

		for _, d := range af.Decls {
			switch d := d.(type) {
			case *ast.FuncDecl:
				if d.Recv == nil {
					have[d.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range d.Specs {
					switch s := s.(type) {
					case *ast.TypeSpec:
						have[s.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range s.Names {
							have[n.Name] = true
						}
					}
				}
			}
		}
	}

	tp, err := imp.Import(path)
	check(err)

	var sb strings.Builder

	pn := tp.Name()
	sb.WriteString("package " + pn + "\n\nimport real " + strconv.Quote(path) + "\n\n")

	n := 0

	for _, o := range tp.Scope().Names() {
		obj := tp.Scope().Lookup(o)
		if !obj.Exported() || have[o] || mentions(obj.Type(), path, have) {
			continue
		}

		switch obj := obj.(type) {
		case *types.Const:
			fmt.Fprintf(&sb, "const %s = real.%s\n", o, o)
			n++
		case *types.TypeName:
			if nt, ok := obj.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}

			fmt.Fprintf(&sb, "type %s = real.%s\n", o, o)
			n++
		case *types.Var:
			fmt.Fprintf(&sb, "var %s = real.%s\n", o, o)
			n++
		case *types.Func:
			if obj.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}

			fmt.Fprintf(&sb, "var %s = real.%s\n", o, o)
			n++
		}
	}

	if n == 0 {
		return
	}

	writeFile(filepath.Join(*repo, "verifsim", "shim", name, "zz_reexport.go"), sb.String())
}

// mentions tells whether a function signature or variable uses a type that the shim replaces.
func mentions(t types.Type, path string, have map[string]bool) bool {
	switch t := t.(type) {
	case *types.Named:
		o := t.Obj()

		return o.Pkg() != nil && o.Pkg().Path() == path && have[o.Name()]
	case *types.Pointer:
		return mentions(t.Elem(), path, have)
	case *types.Slice:
		return mentions(t.Elem(), path, have)
	case *types.Chan:
		return mentions(t.Elem(), path, have)
	case *types.Signature:
		for i := 0; i < t.Params().Len(); i++ {
			if mentions(t.Params().At(i).Type(), path, have) {
				return true
			}
		}

		for i := 0; i < t.Results().Len(); i++ {
			if mentions(t.Results().At(i).Type(), path, have) {
				return true
			}
		}
	}

	return false
}
