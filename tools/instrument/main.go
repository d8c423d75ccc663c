// Command instrument generates, from the current working tree of /repo, copies
// of its source files in which every source of nondeterminism goes through the
// simulator runtime (verifsim/simrt):
//
//   - a cooperative yield point at the entry of every function and before every
//     statement (the scheduler may hand the CPU to another simulated task there);
//   - iteration over a map, whose order the simulator chooses;
//   - ioutil.ReadFile/os.ReadFile/os.Open, time.Now & friends, top-level math/rand,
//     crypto/rand.Read, package sync and the go statement.
//
// /repo itself is never touched: the copies are used through `go build -overlay`.
// Line numbers are preserved.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkgInfo struct {
	ImportPath string
	Name       string
	Dir        string
	GoFiles    []string
	Export     string
	Standard   bool
	DepOnly    bool
	ImportMap  map[string]string
	Module     *struct {
		Path string
		Main bool
	}
}

type edit struct {
	off  int
	end  int // replaced range [off,end)
	text string
	seq  int
}

const rtAlias = "verifsimrt"

type counters struct {
	Files, Yields, MapRanges, Seams, SyncImports, GoStmts, ChanOps int
}

var total counters

func main() {
	repo := flag.String("repo", "/repo", "repository")
	simDir := flag.String("sim", "/verif/sim", "simulator sources")
	out := flag.String("out", "", "output directory")
	flag.Parse()
	if *out == "" {
		fatal("missing -out")
	}

	pkgs := list(*repo)
	exports := map[string]string{}
	mainModule := ""
	for _, p := range pkgs {
		if p.Export != "" {
			exports[p.ImportPath] = p.Export
		}
		if p.Module != nil && p.Module.Main {
			mainModule = p.Module.Path
		}
	}
	if mainModule == "" {
		fatal("no main module found")
	}
	rtPath := mainModule + "/verifsim/simrt"
	syncPath := mainModule + "/verifsim/simsync"

	overlay := map[string]string{}
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main || p.Standard {
			continue
		}
		if strings.Contains(p.ImportPath, "/verifsim") {
			continue
		}
		instrumentPackage(p, exports, *out, rtPath, syncPath, overlay)
	}

	exportUnitsBuilder(pkgs, *out, overlay)

	// the simulator's own packages appear below /repo/verifsim
	for _, sub := range []string{"simrt", "simsync", "harness"} {
		entries, err := os.ReadDir(filepath.Join(*simDir, sub))
		if err != nil {
			fatal("%v", err)
		}
		for _, e := range entries {
			if !strings.HasSuffix(e.Name(), ".go") {
				continue
			}
			src := filepath.Join(*simDir, sub, e.Name())
			content, err := os.ReadFile(src)
			if err != nil {
				fatal("%v", err)
			}
			content = bytes.ReplaceAll(content, []byte("github.com/steve-care-software/steve/"), []byte(mainModule+"/"))
			dst := filepath.Join(*out, "verifsim", sub, e.Name())
			write(dst, content)
			overlay[filepath.Join(*repo, "verifsim", sub, e.Name())] = dst
		}
	}

	baseGrammar(*repo, *out, overlay)
	suiteHash(*repo, *out, rtPath, overlay)

	js, err := json.MarshalIndent(map[string]interface{}{"Replace": overlay}, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	write(filepath.Join(*out, "overlay.json"), js)
	st, _ := json.Marshal(total)
	write(filepath.Join(*out, "instrumented.json"), st)
	fmt.Printf("instrumented %s\n", st)
}

// baseGrammar gives the simulator the grammar of the base language as the repository has it
func baseGrammar(repo, out string, overlay map[string]string) {
	sb := &strings.Builder{}
	sb.WriteString("//go:build go1.23\n\npackage main\n\n// the grammar of the base language\nvar baseFiles = map[string]string{\n")
	for _, name := range []string{"patterns", "rules", "tokens", "channels"} {
		b, err := os.ReadFile(filepath.Join(repo, "domain", "languages", "scripts", "resources", "base", name+".alex"))
		if err != nil {
			fatal("%v", err)
		}
		fmt.Fprintf(sb, "\t%q: %q,\n", name, b)
	}
	sb.WriteString("}\n")
	dst := filepath.Join(out, "verifsim", "harness", "base_gen.go")
	write(dst, []byte(sb.String()))
	overlay[filepath.Join(repo, "verifsim", "harness", "base_gen.go")] = dst
}

// suiteHash shows the simulator what the suite of the signatures hashes
func suiteHash(repo, out, rtPath string, overlay map[string]string) {
	path := filepath.Join(repo, "vendor", "go.dedis.ch", "kyber", "v3", "group", "edwards25519", "suite.go")
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	text := string(b)
	if strings.Count(text, "return sha256.New()") != 1 || strings.Count(text, "import (") != 1 {
		return
	}
	text = strings.Replace(text, "return sha256.New()", "return "+rtAlias+".RecordHash(sha256.New())", 1)
	text = strings.Replace(text, "import (", "import (\n\t"+rtAlias+" \""+rtPath+"\"", 1)
	dst := filepath.Join(out, "vendor", "suite.go")
	write(dst, []byte(text))
	overlay[path] = dst
}

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "instrument: "+f+"\n", a...)
	os.Exit(2)
}

func write(path string, b []byte) {
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		fatal("%v", err)
	}
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func list(repo string) []*pkgInfo {
	cmd := exec.Command("go", "list", "-export", "-deps", "-json=ImportPath,Name,Dir,GoFiles,Export,Standard,DepOnly,ImportMap,Module", "./...")
	cmd.Dir = repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(b))
	out := []*pkgInfo{}
	for {
		p := pkgInfo{}
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		out = append(out, &p)
	}
	return out
}

// exportUnitsBuilder makes the builder of genesis units reachable: the package
// has one, but no exported constructor for it. It is found by its result type.
func exportUnitsBuilder(pkgs []*pkgInfo, out string, overlay map[string]string) {
	for _, p := range pkgs {
		if p.Module == nil || !p.Module.Main || !strings.HasSuffix(p.ImportPath, "/domain/genesis") {
			continue
		}
		body := "nil"
		imp := ""
		fset := token.NewFileSet()
		for _, name := range p.GoFiles {
			f, err := parser.ParseFile(fset, filepath.Join(p.Dir, name), nil, 0)
			if err != nil {
				fatal("%v", err)
			}
			for _, d := range f.Decls {
				fn, ok := d.(*ast.FuncDecl)
				if !ok || fn.Recv != nil || fn.Type.Results == nil || len(fn.Type.Results.List) != 1 {
					continue
				}
				if id, ok := fn.Type.Results.List[0].Type.(*ast.Ident); !ok || id.Name != "UnitsBuilder" {
					continue
				}
				switch fn.Type.Params.NumFields() {
				case 0:
					body = fn.Name.Name + "()"
				case 1:
					sel, ok := fn.Type.Params.List[0].Type.(*ast.SelectorExpr)
					if !ok || sel.Sel.Name != "Adapter" {
						continue
					}
					imp = "import verifhash " + strconv.Quote(strings.TrimSuffix(p.ImportPath, "/genesis")+"/hash") + "\n\n"
					body = fn.Name.Name + "(verifhash.NewAdapter())"
				}
			}
		}
		src := "package " + p.Name + "\n\n" + imp + "// VerifUnitsBuilder returns a units builder\nfunc VerifUnitsBuilder() UnitsBuilder { return " + body + " }\n"
		dst := filepath.Join(out, "src", p.Dir, "verif_export.go")
		write(dst, []byte(src))
		overlay[filepath.Join(p.Dir, "verif_export.go")] = dst
	}
}

func instrumentPackage(p *pkgInfo, exports map[string]string, out string, rtPath string, syncPath string, overlay map[string]string) {
	fset := token.NewFileSet()
	files := []*ast.File{}
	srcs := [][]byte{}
	names := []string{}
	for _, name := range p.GoFiles {
		path := filepath.Join(p.Dir, name)
		src, err := os.ReadFile(path)
		if err != nil {
			fatal("%v", err)
		}
		f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		files = append(files, f)
		srcs = append(srcs, src)
		names = append(names, path)
	}
	lookup := func(path string) (io.ReadCloser, error) {
		if mapped, ok := p.ImportMap[path]; ok {
			path = mapped
		}
		e, ok := exports[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(e)
	}
	info := &types.Info{
		Types:      map[ast.Expr]types.TypeAndValue{},
		Uses:       map[*ast.Ident]types.Object{},
		Defs:       map[*ast.Ident]types.Object{},
		Selections: map[*ast.SelectorExpr]*types.Selection{},
	}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", lookup), Error: func(error) {}}
	if _, err := conf.Check(p.ImportPath, fset, files, info); err != nil {
		fatal("type-checking %s: %v", p.ImportPath, err)
	}
	for i, f := range files {
		ins := &fileInstr{fset: fset, file: f, src: srcs[i], info: info, rtPath: rtPath, syncPath: syncPath}
		res := ins.run(names[i])
		dst := filepath.Join(out, "src", names[i])
		write(dst, res)
		overlay[names[i]] = dst
		total.Files++
	}
}

type fileInstr struct {
	fset      *token.FileSet
	file      *ast.File
	src       []byte
	info      *types.Info
	rtPath    string
	syncPath  string
	edits     []edit
	generic   bool
	keepalive map[string]bool
	nIter     int
}

func (x *fileInstr) off(p token.Pos) int { return x.fset.Position(p).Offset }

func (x *fileInstr) insert(p token.Pos, text string) {
	o := x.off(p)
	x.edits = append(x.edits, edit{o, o, text, len(x.edits)})
}

func (x *fileInstr) replace(from, to token.Pos, text string) {
	x.edits = append(x.edits, edit{x.off(from), x.off(to), text, len(x.edits)})
}

func (x *fileInstr) text(n ast.Node) string { return string(x.src[x.off(n.Pos()):x.off(n.End())]) }

func (x *fileInstr) run(path string) []byte {
	x.keepalive = map[string]bool{}
	// yields
	ast.Inspect(x.file, func(n ast.Node) bool {
		switch s := n.(type) {
		case *ast.FuncDecl:
			if s.Body != nil {
				x.funcBody(s.Body)
			}
		case *ast.FuncLit:
			x.funcBody(s.Body)
		case *ast.BlockStmt:
			x.stmts(s.List)
		case *ast.CaseClause:
			x.stmts(s.Body)
		case *ast.CommClause:
			x.stmts(s.Body)
		case *ast.RangeStmt:
			x.rangeStmt(s)
		case *ast.GoStmt:
			x.goStmt(s)
		case *ast.SelectorExpr:
			x.selector(s)
		case *ast.SendStmt, *ast.SelectStmt:
			total.ChanOps++
		}
		return true
	})
	for _, imp := range x.file.Imports {
		p, _ := strconv.Unquote(imp.Path.Value)
		if p == "sync" {
			total.SyncImports++
			name := "sync"
			if imp.Name != nil {
				name = imp.Name.Name
			}
			x.replace(imp.Pos(), imp.End(), name+" "+strconv.Quote(x.syncPath))
		}
	}
	x.insert(x.file.Name.End(), "; import "+rtAlias+" "+strconv.Quote(x.rtPath))

	sort.SliceStable(x.edits, func(i, j int) bool {
		if x.edits[i].off != x.edits[j].off {
			return x.edits[i].off < x.edits[j].off
		}
		// pure insertions before replacements at the same place, in order of creation
		ri, rj := x.edits[i].end > x.edits[i].off, x.edits[j].end > x.edits[j].off
		if ri != rj {
			return !ri
		}
		return x.edits[i].seq < x.edits[j].seq
	})
	var b bytes.Buffer
	if x.generic {
		b.WriteString("//go:build go1.18\n\n//line " + path + ":1\n")
	}
	pos := 0
	for _, e := range x.edits {
		if e.off < pos {
			fatal("%s: overlapping edits at offset %d", path, e.off)
		}
		b.Write(x.src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(x.src[pos:])
	b.WriteString("\nvar _ = " + rtAlias + ".Y\n")
	keep := []string{}
	for k := range x.keepalive {
		keep = append(keep, k)
	}
	sort.Strings(keep)
	for _, k := range keep {
		b.WriteString("var _ = " + k + "\n")
	}
	return b.Bytes()
}

func (x *fileInstr) funcBody(body *ast.BlockStmt) {
	total.Yields++
	x.edits = append(x.edits, edit{x.off(body.Lbrace) + 1, x.off(body.Lbrace) + 1, rtAlias + ".Y();", len(x.edits)})
}

func (x *fileInstr) stmts(list []ast.Stmt) {
	for _, s := range list {
		switch s.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		total.Yields++
		x.insert(s.Pos(), rtAlias+".Y();")
	}
}

func (x *fileInstr) rangeStmt(s *ast.RangeStmt) {
	tv, ok := x.info.Types[s.X]
	if !ok {
		return
	}
	if _, ok := tv.Type.Underlying().(*types.Map); !ok {
		return
	}
	total.MapRanges++
	x.generic = true
	x.nIter++
	it := fmt.Sprintf("verifIt%d_%d", x.nIter, x.off(s.Pos()))
	blank := func(e ast.Expr) bool {
		if e == nil {
			return true
		}
		id, ok := e.(*ast.Ident)
		return ok && id.Name == "_"
	}
	k, v := !blank(s.Key), !blank(s.Value)
	// the X expression may contain function literals or selectors with edits of
	// their own, so only the text around it is replaced
	var pre, post string
	switch {
	case s.Tok == token.DEFINE && k && v:
		pre = fmt.Sprintf("for %s, %s, %s := %s.MapIter(", it, x.text(s.Key), x.text(s.Value), rtAlias)
		post = fmt.Sprintf("); %s.Next(&%s, &%s); ", it, x.text(s.Key), x.text(s.Value))
	case s.Tok == token.DEFINE && k:
		pre = fmt.Sprintf("for %s, %s := %s.MapIterK(", it, x.text(s.Key), rtAlias)
		post = fmt.Sprintf("); %s.Next(&%s, nil); ", it, x.text(s.Key))
	case s.Tok == token.DEFINE && v:
		pre = fmt.Sprintf("for %s, %s := %s.MapIterV(", it, x.text(s.Value), rtAlias)
		post = fmt.Sprintf("); %s.Next(nil, &%s); ", it, x.text(s.Value))
	case s.Tok == token.ASSIGN && (k || v):
		pk, pv := "nil", "nil"
		if k {
			pk = "&" + x.text(s.Key)
		}
		if v {
			pv = "&" + x.text(s.Value)
		}
		pre = fmt.Sprintf("for %s := %s.MapIter0(", it, rtAlias)
		post = fmt.Sprintf("); %s.Next(%s, %s); ", it, pk, pv)
	default:
		pre = fmt.Sprintf("for %s := %s.MapIter0(", it, rtAlias)
		post = fmt.Sprintf("); %s.Next(nil, nil); ", it)
	}
	x.replace(s.For, s.X.Pos(), pre)
	x.replace(s.X.End(), s.Body.Lbrace, post)
}

func (x *fileInstr) goStmt(s *ast.GoStmt) {
	total.GoStmts++
	call := s.Call
	if lit, ok := call.Fun.(*ast.FuncLit); ok && len(call.Args) == 0 {
		// go func(){...}()  ->  rt.Go(func(){...})
		x.replace(s.Go, lit.Pos(), rtAlias+".Go(")
		x.replace(lit.End(), call.End(), ")")
		return
	}
	// go f(a, b)  ->  { f_, a_, b_ := f, a, b; rt.Go(func(){ f_(a_, b_) }) }
	names := []string{"verifF"}
	for i := range call.Args {
		names = append(names, fmt.Sprintf("verifA%d", i))
	}
	x.replace(s.Go, call.Fun.Pos(), "{ "+strings.Join(names, ", ")+" := ")
	sep := ""
	if len(call.Args) > 0 {
		sep = ", "
		x.replace(call.Fun.End(), call.Args[0].Pos(), sep)
		last := call.Args[len(call.Args)-1]
		ell := ""
		if call.Ellipsis.IsValid() {
			ell = "..."
		}
		x.replace(last.End(), call.End(), "; "+rtAlias+".Go(func() { verifF("+strings.Join(names[1:], ", ")+ell+") }) }")
		return
	}
	x.replace(call.Fun.End(), call.End(), "; "+rtAlias+".Go(func() { verifF() }) }")
}

// seams: package path -> function -> replacement
var seams = map[string]map[string]string{
	"io/ioutil":     {"ReadFile": "ReadFile"},
	"os":            {"ReadFile": "ReadFile", "Open": "OpenFile", "OpenFile": "OpenFileMode", "Stat": "Stat", "Lstat": "Stat"},
	"crypto/rand":   {"Read": "CryptoRead"},
	"crypto/sha256": {"New": "Sha256New", "Sum256": "Sha256Sum"},
	"crypto/sha512": {"New": "Sha512New", "Sum512": "Sha512Sum"},
	"crypto/hmac":   {"New": "HmacNew"},
	"time":          {"Now": "Now", "Since": "Since", "Until": "Until", "Sleep": "Sleep", "After": "After"},
	"runtime":       {"Gosched": "Gosched"},
	"math/rand/v2": {"Int": "MathV2().Int", "IntN": "MathV2().IntN", "Int64": "MathV2().Int64", "Int64N": "MathV2().Int64N",
		"Uint32": "MathV2().Uint32", "Uint64": "MathV2().Uint64", "Uint64N": "MathV2().Uint64N", "Uint32N": "MathV2().Uint32N",
		"Float64": "MathV2().Float64", "Float32": "MathV2().Float32", "Perm": "MathV2().Perm", "Shuffle": "MathV2().Shuffle", "Int32": "MathV2().Int32", "Int32N": "MathV2().Int32N"},
	"math/rand": {"Int": "Math().Int", "Intn": "Math().Intn", "Int63": "Math().Int63", "Int63n": "Math().Int63n", "Int31": "Math().Int31", "Int31n": "Math().Int31n",
		"Uint32": "Math().Uint32", "Uint64": "Math().Uint64", "Float64": "Math().Float64", "Float32": "Math().Float32",
		"Perm": "Math().Perm", "Shuffle": "Math().Shuffle", "Read": "Math().Read", "Seed": "Math().Seed", "NormFloat64": "Math().NormFloat64", "ExpFloat64": "Math().ExpFloat64"},
}

func (x *fileInstr) selector(s *ast.SelectorExpr) {
	if sel, ok := x.info.Selections[s]; ok && s.Sel.Name == "Read" && sel.Recv().String() == "*os.File" {
		// reading an open file may give less than was asked for
		total.Seams++
		x.insert(s.X.Pos(), rtAlias+".FileReader(")
		x.insert(s.X.End(), ")")
		return
	}
	id, ok := s.X.(*ast.Ident)
	if !ok {
		return
	}
	pn, ok := x.info.Uses[id].(*types.PkgName)
	if !ok {
		return
	}
	path := pn.Imported().Path()
	m, ok := seams[path]
	if !ok {
		return
	}
	rep, ok := m[s.Sel.Name]
	if !ok {
		return
	}
	if _, isFn := x.info.Uses[s.Sel].(*types.Func); !isFn {
		return
	}
	total.Seams++
	x.replace(s.Pos(), s.End(), rtAlias+"."+rep)
	x.keepalive[id.Name+"."+s.Sel.Name] = true
}
