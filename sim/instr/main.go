// Command verifinstr prepares a simulation build of the repository.
//
// It reads the repository's working tree, writes instrumented copies of its
// non-test source files, generated stand-ins for the standard packages that
// reach the outside world, and a patched copy of a few files of the Go
// runtime into a build directory, and writes the overlay and module files
// with which "go build" then compiles them. Nothing in the repository and
// nothing in the toolchain is modified.
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

var (
	repo   = flag.String("repo", "/repo", "repository")
	out    = flag.String("out", "", "build directory")
	simdir = flag.String("sim", "", "directory with rt, simrt and harness sources")
)

type overlay struct{ Replace map[string]string }

var ov = overlay{Replace: map[string]string{}}

func die(format string, a ...any) {
	fmt.Fprintf(os.Stderr, "verifinstr: "+format+"\n", a...)
	os.Exit(2)
}

func must(err error) {
	if err != nil {
		die("%v", err)
	}
}

func put(virtual, rel string, content []byte) {
	p := filepath.Join(*out, rel)
	write(p, content)
	ov.Replace[virtual] = p
}

func write(p string, content []byte) {
	must(os.MkdirAll(filepath.Dir(p), 0o755))
	old, err := os.ReadFile(p)
	if err != nil || !bytes.Equal(old, content) {
		must(os.WriteFile(p, content, 0o644))
	}
}

// ---- runtime patch ----

type edit struct{ file, old, new string }

func patchRuntime(goroot string) {
	rt := filepath.Join(goroot, "src", "runtime")
	edits := []edit{
		{"runtime2.go", "\tvalgrindStackID uintptr\n}", "\tvalgrindStackID uintptr\n\n\tsimid   uint64\n\tsimrng  uint64\n\tsimkids uint32\n\tsimnode int32\n}"},
		{"proc.go", "top:\n\tpp := mp.p.ptr()\n\tpp.preempt = false\n", "\tif simPhase != 0 {\n\t\tif gp := simPick(); gp != nil {\n\t\t\tmp.p.ptr().preempt = false\n\t\t\texecute(gp, false)\n\t\t}\n\t}\ntop:\n\tpp := mp.p.ptr()\n\tpp.preempt = false\n"},
		{"proc.go", "func runqput(pp *p, gp *g, next bool) {\n", "func runqput(pp *p, gp *g, next bool) {\n\tif gp.simid != 0 {\n\t\tsimEnqueue(gp)\n\t\treturn\n\t}\n"},
		{"proc.go", "\tassertLockHeld(&sched.lock)\n\n\tsched.runq.pushBack(gp)\n", "\tassertLockHeld(&sched.lock)\n\tif gp.simid != 0 {\n\t\tsimEnqueue(gp)\n\t\treturn\n\t}\n\tsched.runq.pushBack(gp)\n"},
		{"proc.go", "\tnewg.startpc = fn.fn\n\tnewg.runningCleanups.Store(false)\n", "\tnewg.startpc = fn.fn\n\tsimNewG(newg, callergp)\n\tnewg.runningCleanups.Store(false)\n"},
		{"proc.go", "\tif gp == nil || gp == mp.g0 {\n\t\treturn false\n\t}\n\tif readgstatus(gp)&^_Gscan == _Gsyscall {\n", "\tif gp == nil || gp == mp.g0 {\n\t\treturn false\n\t}\n\tif simOn && gp.simid != 0 {\n\t\treturn false\n\t}\n\tif readgstatus(gp)&^_Gscan == _Gsyscall {\n"},
		{"panic.go", "func fatalpanic(msgs *_panic) {\n", "func fatalpanic(msgs *_panic) {\n\tif simOn && getg().simid != 0 {\n\t\tsimDie(1, simPanicText(msgs))\n\t}\n"},
		{"panic.go", "func sync_fatal(s string) {\n", "func sync_fatal(s string) {\n\tif simOn && getg().simid != 0 {\n\t\tsimDie(2, s)\n\t}\n"},
		{"panic.go", "func internal_sync_fatal(s string) {\n", "func internal_sync_fatal(s string) {\n\tif simOn && getg().simid != 0 {\n\t\tsimDie(2, s)\n\t}\n"},
		{"panic.go", "func maps_fatal(s string) {\n", "func maps_fatal(s string) {\n\tif simOn && getg().simid != 0 {\n\t\tsimDie(2, s)\n\t}\n"},
		{"select.go", "j := cheaprandn(uint32(norder + 1))", "j := simCheaprandn(uint32(norder + 1))"},
		{"rand.go", "\tmp := getg().m\n\tc := &mp.chacha8\n", "\tif gp := getg(); gp.simid != 0 {\n\t\treturn simGRand(gp)\n\t}\n\tmp := getg().m\n\tc := &mp.chacha8\n"},
		{"rand.go", "\tglobalRand.state.Init(*seed)\n", "\tfor i := range seed {\n\t\tseed[i] = byte(i*7 + 1)\n\t}\n\tglobalRand.state.Init(*seed)\n"},
		{"sema.go", "func internal_sync_nanotime() int64 {\n", "func internal_sync_nanotime() int64 {\n\tif getg().simid != 0 {\n\t\treturn simNowNs\n\t}\n"},
	}
	byFile := map[string]string{}
	for _, e := range edits {
		s, ok := byFile[e.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(rt, e.file))
			must(err)
			s = string(b)
		}
		if strings.Count(s, e.old) != 1 {
			die("runtime patch: %d matches in %s for %q", strings.Count(s, e.old), e.file, e.old)
		}
		byFile[e.file] = strings.Replace(s, e.old, e.new, 1)
	}
	for f, s := range byFile {
		put(filepath.Join(rt, f), "rt/"+f, []byte(s))
	}
	b, err := os.ReadFile(filepath.Join(*simdir, "rt", "zsim.go.txt"))
	must(err)
	s := string(b)
	s += `
func simCheaprandn(n uint32) uint32 {
	if gp := getg(); gp.simid != 0 {
		return uint32((uint64(uint32(simGRand(gp))) * uint64(n)) >> 32)
	}
	return cheaprandn(n)
}
`
	for _, f := range []string{"simInit", "simSetNow", "simSpawn", "simPop", "simStep", "simWaitReason", "simSelf", "simYield", "simPanicked", "simKillAll", "simDie", "simGPtr"} {
		i := strings.Index(s, "func "+f+"(")
		if i < 0 {
			die("no %s", f)
		}
		j := strings.LastIndex(s[:i], "\n") + 1
		// keep an existing directive (go:nosplit) directly above
		s = s[:j] + "//go:linkname " + f + "\n" + s[j:]
	}
	put(filepath.Join(rt, "zsim.go"), "rt/zsim.go", []byte(s))
}

// ---- memoised copy of the pairing library ----

func copyKilic(dir string) {
	edits := []edit{
		{"pairing.go", "func (e *Engine) calculate() *fe12 {", "func (e *Engine) calculateReal() *fe12 {"},
		{"g1.go", "func (g *G1) FromCompressed(", "func (g *G1) fromCompressedReal("},
		{"g2.go", "func (g *G2) FromCompressed(", "func (g *G2) fromCompressedReal("},
		{"g1.go", "func (g *G1) MulScalar(", "func (g *G1) mulScalarReal("},
		{"g1.go", "func (g *G1) MulScalarBig(", "func (g *G1) mulScalarBigReal("},
		{"g2.go", "func (g *G2) MulScalar(", "func (g *G2) mulScalarReal("},
		{"g2.go", "func (g *G2) MulScalarBig(", "func (g *G2) mulScalarBigReal("},
		{"g1.go", "func (g *G1) MultiExp(", "func (g *G1) multiExpReal("},
		{"g1.go", "func (g *G1) HashToCurve(", "func (g *G1) hashToCurveReal("},
		{"g1.go", "func (g *G1) InCorrectSubgroup(", "func (g *G1) inCorrectSubgroupReal("},
		// An unreduced sum overflows the lazy reduction here and makes about 5
		// in a million correct pairing checks fail (see DESIGN.md).
		{"fp12.go", "	fp2LaddAssign(b1, b4)\n	fp6Ladd(t[2], &a[1], &a[0])\n	e.fp6.wmul01(", "	fp2AddAssign(b1, b4)\n	fp6Add(t[2], &a[1], &a[0])\n	e.fp6.wmul01("},
	}
	files, _ := filepath.Glob(filepath.Join(dir, "*"))
	n := 0
	for _, f := range files {
		base := filepath.Base(f)
		if strings.HasSuffix(base, "_test.go") || !(strings.HasSuffix(base, ".go") || strings.HasSuffix(base, ".s") || base == "go.mod") {
			continue
		}
		b, err := os.ReadFile(f)
		must(err)
		s := string(b)
		for _, e := range edits {
			if e.file == base {
				if strings.Count(s, e.old) != 1 {
					die("pairing library: %d matches for %q", strings.Count(s, e.old), e.old)
				}
				s = strings.Replace(s, e.old, e.new, 1)
				n++
			}
		}
		write(filepath.Join(*out, "kilic", base), []byte(s))
	}
	if n != len(edits) {
		die("pairing library: only %d edits applied", n)
	}
	b, err := os.ReadFile(filepath.Join(*simdir, "kilic", "zz_memo.go.txt"))
	must(err)
	write(filepath.Join(*out, "kilic", "zz_memo.go"), b)
}

// ---- source instrumentation ----

type pkgInfo struct {
	ImportPath string
	Dir        string
	Name       string
	GoFiles    []string
	Module     *struct{ Path string }
}

const simBase = "github.com/DyCAPSTeam/DyCAPS/internal/verifsim"

var shimmed = map[string]string{ // import path -> shim package name
	"net": "net", "time": "time", "log": "log", "os": "os", "io/ioutil": "ioutil",
	"flag": "flag", "fmt": "fmt", "context": "context",
}

type ins struct {
	off, end int // replace [off,end)
	text     string
	seq      int
}

type site struct {
	ID   int    `json:"id"`
	File string `json:"file"`
	Line int    `json:"line"`
	Kind string `json:"kind"`
}

var sites = []site{{0, "", 0, ""}}

// packages whose statements get scheduling points; the others only have
// their imports redirected.
func wantYields(path string) bool {
	for _, x := range []string{"/internal/bls", "/internal/polycommit", "/internal/polyring", "/pkg/protobuf", "/pkg/utils"} {
		if strings.HasSuffix(path, x) {
			return false
		}
	}
	return true
}

type instr struct {
	fset *token.FileSet
	src  []byte
	file string
	ins  []ins
	tmp  int
	loop bool
}

func (in *instr) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instr) site(p token.Pos, kind string) int {
	pos := in.fset.Position(p)
	id := len(sites)
	sites = append(sites, site{id, in.file, pos.Line, kind})
	return id
}

func (in *instr) add(off, end int, text string) {
	in.ins = append(in.ins, ins{off, end, text, len(in.ins)})
}

func hasCall(e ast.Node) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr, *ast.FuncLit:
			_ = x
			found = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				found = true
			}
		}
		return !found
	})
	return found
}

func (in *instr) text(n ast.Node) string {
	return string(in.src[in.off(n.Pos()):in.off(n.End())])
}

// mentions reports whether e contains an expression spelled like s.
func (in *instr) mentions(e ast.Expr, s string) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		if x, ok := n.(ast.Expr); ok && n != nil && in.text(x) == s {
			found = true
		}
		return !found
	})
	return found
}

func (in *instr) split(st ast.Stmt) bool {
	switch s := st.(type) {
	case *ast.IncDecStmt:
		if hasCall(s.X) {
			return false
		}
		x := in.text(s.X)
		op := "+"
		if s.Tok == token.DEC {
			op = "-"
		}
		id := in.site(st.Pos(), "rmw")
		in.tmp++
		in.add(in.off(s.Pos()), in.off(s.End()), fmt.Sprintf("{ sim__t%d := %s; simrt__.Y(%d); %s = sim__t%d %s 1 }", in.tmp, x, id, x, in.tmp, op))
		return true
	case *ast.AssignStmt:
		if len(s.Lhs) != 1 || len(s.Rhs) != 1 || hasCall(s.Lhs[0]) {
			return false
		}
		if id, ok := s.Lhs[0].(*ast.Ident); ok && id.Name == "_" {
			return false
		}
		x := in.text(s.Lhs[0])
		switch {
		case s.Tok == token.ASSIGN:
			if !in.mentions(s.Rhs[0], x) {
				return false
			}
			// nested function literals are instrumented separately: skip those
			lit := false
			ast.Inspect(s.Rhs[0], func(n ast.Node) bool {
				if _, ok := n.(*ast.FuncLit); ok {
					lit = true
				}
				return !lit
			})
			if lit {
				return false
			}
			id := in.site(st.Pos(), "rmw")
			in.tmp++
			in.add(in.off(s.Pos()), in.off(s.End()), fmt.Sprintf("{ sim__t%d := %s; simrt__.Y(%d); %s = sim__t%d }", in.tmp, in.text(s.Rhs[0]), id, x, in.tmp))
			return true
		case s.Tok == token.ADD_ASSIGN || s.Tok == token.SUB_ASSIGN || s.Tok == token.OR_ASSIGN || s.Tok == token.XOR_ASSIGN:
			if hasCall(s.Rhs[0]) {
				return false
			}
			op := strings.TrimSuffix(s.Tok.String(), "=")
			id := in.site(st.Pos(), "rmw")
			in.tmp++
			in.add(in.off(s.Pos()), in.off(s.End()), fmt.Sprintf("{ sim__t%d := %s; simrt__.Y(%d); %s = sim__t%d %s (%s) }", in.tmp, x, id, x, in.tmp, op, in.text(s.Rhs[0])))
			return true
		}
	}
	return false
}

func (in *instr) stmts(list []ast.Stmt) {
	for _, st := range list {
		switch st.(type) {
		case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
			continue
		}
		id := in.site(st.Pos(), "stmt")
		in.add(in.off(st.Pos()), in.off(st.Pos()), fmt.Sprintf("simrt__.Y(%d);", id))
		in.split(st)
	}
}

func (in *instr) walk(f *ast.File) {
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.BlockStmt:
			in.stmts(x.List)
		case *ast.CaseClause:
			in.stmts(x.Body)
		case *ast.CommClause:
			in.stmts(x.Body)
		case *ast.ForStmt:
			id := in.site(x.Pos(), "loop")
			o := in.off(x.Body.Lbrace) + 1
			in.add(o, o, fmt.Sprintf("simrt__.L(%d);", id))
		case *ast.RangeStmt:
			id := in.site(x.Pos(), "loop")
			o := in.off(x.Body.Lbrace) + 1
			in.add(o, o, fmt.Sprintf("simrt__.L(%d);", id))
		}
		return true
	})
}

func instrument(p pkgInfo, name string) []byte {
	path := filepath.Join(p.Dir, name)
	src, err := os.ReadFile(path)
	must(err)
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, path, src, parser.ParseComments)
	if err != nil {
		die("%v", err)
	}
	rel, _ := filepath.Rel(*repo, path)
	in := &instr{fset: fset, src: src, file: rel}
	for _, im := range f.Imports {
		ip, _ := strconv.Unquote(im.Path.Value)
		nm, ok := shimmed[ip]
		if !ok {
			continue
		}
		t := strconv.Quote(simBase + "/shim/" + ip)
		if im.Name == nil {
			t = nm + " " + t
		}
		in.add(in.off(im.Path.Pos()), in.off(im.Path.End()), t)
	}
	if strings.HasSuffix(p.ImportPath, "/internal/party") {
		// the harness provides NewHonestParty and hands out what this one creates
		for _, d := range f.Decls {
			if x, ok := d.(*ast.FuncDecl); ok && x.Recv == nil && x.Name.Name == "NewHonestParty" {
				in.add(in.off(x.Name.Pos()), in.off(x.Name.End()), "verifNewHonestParty")
			}
		}
	}
	if wantYields(p.ImportPath) && len(f.Decls) > 0 {
		n := len(in.ins)
		in.walk(f)
		if len(in.ins) > n {
			o := in.off(f.Name.End())
			in.add(o, o, "; import simrt__ "+strconv.Quote("verif.local/simrt"))
		}
	}
	// drop insertions inside replaced ranges (none are generated by design)
	sort.SliceStable(in.ins, func(i, j int) bool {
		if in.ins[i].off != in.ins[j].off {
			return in.ins[i].off < in.ins[j].off
		}
		return in.ins[i].seq < in.ins[j].seq
	})
	var b bytes.Buffer
	at := 0
	for _, x := range in.ins {
		if x.off < at {
			die("%s: overlapping edits", path)
		}
		b.Write(src[at:x.off])
		b.WriteString(x.text)
		at = x.end
		if at < x.off {
			at = x.off
		}
	}
	b.Write(src[at:])
	res := b.Bytes()
	if _, err := parser.ParseFile(token.NewFileSet(), path, res, 0); err != nil {
		die("instrumented %s does not parse: %v", path, err)
	}
	return res
}

// ---- shims ----

// genShim writes alias declarations for everything package path exports that
// the hand-written files of the shim do not define themselves.
func genShim(path string, hand map[string]bool, banned func(types.Object) bool) []byte {
	imp := importer.ForCompiler(token.NewFileSet(), "source", nil)
	pkg, err := imp.Import(path)
	must(err)
	var b bytes.Buffer
	fmt.Fprintf(&b, "// Code generated by verifinstr. DO NOT EDIT.\n\npackage %s\n\nimport real %q\n\n", pkg.Name(), path)
	n := 0
	for _, name := range pkg.Scope().Names() {
		o := pkg.Scope().Lookup(name)
		if !o.Exported() || hand[name] || banned(o) {
			continue
		}
		n++
		switch x := o.(type) {
		case *types.Const:
			fmt.Fprintf(&b, "const %s = real.%s\n", name, name)
		case *types.Var:
			fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
		case *types.Func:
			if x.Type().(*types.Signature).TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "var %s = real.%s\n", name, name)
		case *types.TypeName:
			if nt, ok := x.Type().(*types.Named); ok && nt.TypeParams().Len() > 0 {
				continue
			}
			fmt.Fprintf(&b, "type %s = real.%s\n", name, name)
		}
	}
	if n == 0 {
		fmt.Fprintf(&b, "var _ = real.%s\n", pkg.Scope().Names()[0])
	}
	return b.Bytes()
}

func exportedDecls(dir string) map[string]bool {
	m := map[string]bool{}
	files, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, fn := range files {
		f, err := parser.ParseFile(token.NewFileSet(), fn, nil, 0)
		must(err)
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Recv == nil {
					m[x.Name.Name] = true
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					switch y := s.(type) {
					case *ast.TypeSpec:
						m[y.Name.Name] = true
					case *ast.ValueSpec:
						for _, n := range y.Names {
							m[n.Name] = true
						}
					}
				}
			}
		}
	}
	return m
}

func goList() []pkgInfo {
	cmd := exec.Command("go", "list", "-json=ImportPath,Dir,Name,GoFiles,Module", "./...")
	cmd.Dir = *repo
	cmd.Stderr = os.Stderr
	b, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	var ps []pkgInfo
	d := json.NewDecoder(bytes.NewReader(b))
	for d.More() {
		var p pkgInfo
		must(d.Decode(&p))
		ps = append(ps, p)
	}
	return ps
}

func main() {
	flag.Parse()
	if *out == "" || *simdir == "" {
		die("usage: verifinstr -repo R -out D -sim S")
	}
	must(os.MkdirAll(*out, 0o755))
	gr, err := exec.Command("go", "env", "GOROOT").Output()
	must(err)
	patchRuntime(strings.TrimSpace(string(gr)))

	for _, p := range goList() {
		for _, f := range p.GoFiles {
			src := instrument(p, f)
			rel, _ := filepath.Rel(*repo, filepath.Join(p.Dir, f))
			if p.Name == "main" {
				// node programs become packages that the harness can run many of
				base := filepath.Base(p.Dir)
				src = bytes.Replace(src, []byte("package main"), []byte("package nodemain"), 1)
				put(filepath.Join(*repo, "internal/verifsim/nodemain", strings.ToLower(base), f), "src/"+rel, src)
				continue
			}
			put(filepath.Join(p.Dir, f), "src/"+rel, src)
		}
		if p.Name == "main" {
			base := strings.ToLower(filepath.Base(p.Dir))
			put(filepath.Join(*repo, "internal/verifsim/nodemain", base, "zz_verif_main.go"), "src/nodemain/"+base+"/zz.go",
				[]byte("package nodemain\n\nfunc Main() { main() }\n"))
		}
	}
	// harness-side packages
	copyDir := func(from, to, rel string) {
		files, _ := filepath.Glob(filepath.Join(from, "*"))
		for _, f := range files {
			if strings.HasSuffix(f, ".go") || strings.HasSuffix(f, ".s") {
				b, err := os.ReadFile(f)
				must(err)
				put(filepath.Join(to, filepath.Base(f)), filepath.Join(rel, filepath.Base(f)), b)
			}
		}
	}
	v := filepath.Join(*repo, "internal/verifsim")
	// the simulator itself is a module of its own (it has an assembly file,
	// which cannot come from an overlay)
	files, _ := filepath.Glob(filepath.Join(*simdir, "simrt", "*"))
	for _, f := range files {
		b, err := os.ReadFile(f)
		must(err)
		write(filepath.Join(*out, "simrt", filepath.Base(f)), b)
	}
	write(filepath.Join(*out, "simrt", "go.mod"), []byte("module verif.local/simrt\n\ngo 1.18\n"))
	copyDir(filepath.Join(*simdir, "harness"), filepath.Join(*repo, "cmd/verifsim"), "harness")
	copyDir(filepath.Join(*simdir, "access"), filepath.Join(*repo, "internal/party"), "access")
	for ip := range shimmed {
		dir := filepath.Join(*simdir, "shim", ip)
		hand := exportedDecls(dir)
		banned := func(o types.Object) bool {
			if ip != "os" {
				return false
			}
			s := types.ObjectString(o, nil)
			return strings.Contains(s, "os.File ") || strings.Contains(s, "*os.File") || strings.Contains(s, "os.Root")
		}
		put(filepath.Join(v, "shim", ip, "zz_gen.go"), "shim/"+ip+"/zz_gen.go", genShim(ip, hand, banned))
		copyDir(dir, filepath.Join(v, "shim", ip), "shim/"+ip)
	}
	var sb bytes.Buffer
	sb.WriteString("package simrt\n\nconst NumSites = " + strconv.Itoa(len(sites)) + "\n\nvar SiteTable = [...]Site{\n")
	for _, s := range sites {
		fmt.Fprintf(&sb, "\t{%q, %d, %q},\n", s.File, s.Line, s.Kind)
	}
	sb.WriteString("}\n")
	write(filepath.Join(*out, "simrt", "zz_sites.go"), sb.Bytes())

	b, _ := json.MarshalIndent(ov, "", " ")
	must(os.WriteFile(filepath.Join(*out, "overlay.json"), b, 0o644))
	gm, err := os.ReadFile(filepath.Join(*repo, "go.mod"))
	must(err)
	gm = append(gm, []byte("\nrequire verif.local/simrt v0.0.0\nreplace verif.local/simrt => "+filepath.Join(*out, "simrt")+"\n")...)
	gs, err := os.ReadFile(filepath.Join(*repo, "go.sum"))
	must(err)
	cmd := exec.Command("go", "list", "-m", "-f", "{{.Dir}}", "github.com/kilic/bls12-381")
	cmd.Dir = *repo
	kd, err := cmd.Output()
	must(err)
	copyKilic(strings.TrimSpace(string(kd)))
	gm = append(gm, []byte("replace github.com/kilic/bls12-381 => "+filepath.Join(*out, "kilic")+"\n")...)
	must(os.WriteFile(filepath.Join(*out, "sim.mod"), gm, 0o644))
	must(os.WriteFile(filepath.Join(*out, "sim.sum"), gs, 0o644))
}
