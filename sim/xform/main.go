// Command xform copies the Go module under test into a scratch directory and
// puts every source of nondeterminism of the copy behind the simulator: the
// imports of packages that reach the outside world are redirected to shims,
// every statement is preceded by a yield point, map enumeration and allocation
// go through the runtime, goroutines become simulated tasks, and a process
// restart (ZZSimReset) re-initialises all package-level variables. The edits
// are textual insertions at positions given by the parser; what the code does
// is not touched, and nothing depends on how it is written.
//
// usage: xform -src /repo -dst DIR
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

const base = "verif.local/sim/"

var shims = map[string]string{
	"os":                    "shim/os",
	"io/ioutil":             "shim/io/ioutil",
	"time":                  "shim/time",
	"math/rand":             "shim/math/rand",
	"math/rand/v2":          "shim/math/randv2",
	"crypto/rand":           "shim/crypto/rand",
	"golang.org/x/exp/rand": "shim/exp/rand",
	"log":                   "shim/log",
	"sync":                  "shim/sync",
	"path/filepath":         "shim/path/filepath",
	"fmt":                   "shim/fmt",
	"maps":                  "shim/maps",
	"golang.org/x/exp/maps": "shim/exp/maps",
}

type pkg struct {
	ImportPath, Dir, Name, Export string
	GoFiles                       []string
	Imports, Deps                 []string
	Standard, DepOnly             bool
	Module                        *struct{ Path string }
	Error                         *struct{ Err string }
}

func die(f string, a ...any) { fmt.Fprintf(os.Stderr, "xform: "+f+"\n", a...); os.Exit(3) }

func main() {
	src := flag.String("src", "/repo", "module under test")
	dst := flag.String("dst", "", "scratch directory for the copy")
	flag.Parse()
	cmd := exec.Command("go", "list", "-mod=mod", "-modfile="+os.Getenv("XFORM_MODFILE"), "-e", "-export", "-deps", "-json", "./...")
	if os.Getenv("XFORM_MODFILE") == "" {
		cmd = exec.Command("go", "list", "-e", "-export", "-deps", "-json", "./...")
	}
	cmd.Dir = *src
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		die("go list: %v", err)
	}
	dec := json.NewDecoder(bytes.NewReader(out))
	all := map[string]*pkg{}
	var order []*pkg
	mod := ""
	for {
		var p pkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			die("go list output: %v", err)
		}
		all[p.ImportPath] = &p
		if !p.Standard && strings.HasPrefix(p.Dir, *src) && len(p.GoFiles) > 0 {
			q := p
			order = append(order, &q)
			if p.Module != nil {
				mod = p.Module.Path
			}
		}
	}
	if len(order) == 0 {
		die("no packages in %s", *src)
	}
	gm, err := os.ReadFile(filepath.Join(*src, "go.mod"))
	if err != nil {
		die("%v", err)
	}
	var keep []string
	for _, l := range strings.Split(string(gm), "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "go ") {
			v := strings.TrimSpace(t[3:])
			if older(v, "1.21") {
				l = "go 1.21" // generics, same loop variable rules
			}
		}
		if strings.HasPrefix(t, "toolchain ") {
			continue
		}
		keep = append(keep, l)
	}
	os.MkdirAll(*dst, 0755)
	if err := os.WriteFile(filepath.Join(*dst, "go.mod"), []byte(strings.Join(keep, "\n")), 0644); err != nil {
		die("%v", err)
	}
	x := &xf{all: all, src: *src, dst: *dst, mod: mod}
	for _, p := range order {
		x.pkg(p)
	}
}

func older(a, b string) bool {
	f := func(s string) int {
		p := strings.Split(s, ".")
		x, _ := strconv.Atoi(p[0])
		y := 0
		if len(p) > 1 {
			y, _ = strconv.Atoi(p[1])
		}
		return x*1000 + y
	}
	return f(a) < f(b)
}

type xf struct {
	all      map[string]*pkg
	src, dst string
	mod      string
}

// edit replaces [pos,end) by text. pri orders the edits of one position:
// closing ones (-1) before yield points (0) before opening ones (1). a and b
// are the extent of the node it was made for. moved edits print the node's own
// text elsewhere (through render): what lies within is not printed here.
type edit struct {
	pos   int
	end   int
	text  string
	pri   int
	a, b  int
	moved bool
	gen   func() string
}

type fileEd struct {
	data  []byte
	edits []edit
	name  string
	tail  string
	used  bool
	base  int
}

func (x *xf) lookup(path string) (io.ReadCloser, error) {
	p := x.all[path]
	if p == nil || p.Export == "" {
		return nil, fmt.Errorf("no export data for %s", path)
	}
	return os.Open(p.Export)
}

func (x *xf) pkg(p *pkg) {
	fset := token.NewFileSet()
	var files []*ast.File
	var eds []*fileEd
	for _, n := range p.GoFiles {
		d, err := os.ReadFile(filepath.Join(p.Dir, n))
		if err != nil {
			die("%v", err)
		}
		f, err := parser.ParseFile(fset, n, d, parser.ParseComments|parser.SkipObjectResolution)
		if err != nil {
			die("parse: %v", err)
		}
		files = append(files, f)
		eds = append(eds, &fileEd{data: d, name: n, base: fset.File(f.Pos()).Base()})
	}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Implicits: map[ast.Node]types.Object{}}
	conf := types.Config{Importer: importer.ForCompiler(fset, "gc", x.lookup), Error: func(err error) { fmt.Fprintf(os.Stderr, "xform: types: %v\n", err) }}
	tp, err := conf.Check(p.ImportPath, fset, files, info)
	if err != nil {
		die("type check failed: %v", err)
	}
	inits := 0
	var initNames []string
	for i, f := range files {
		e := eds[i]
		off := func(ps token.Pos) int { return fset.Position(ps).Offset }
		put := func(nd ast.Node, from, to token.Pos, pri int, text string) {
			e.edits = append(e.edits, edit{pos: off(from), end: off(to), text: text, pri: pri, a: off(nd.Pos()), b: off(nd.End())})
			e.used = true
		}
		// imports
		for _, im := range f.Imports {
			path, _ := strconv.Unquote(im.Path.Value)
			if s, ok := shims[path]; ok {
				put(im, im.Path.Pos(), im.Path.End(), 0, strconv.Quote(base+s))
			}
		}
		block := func(list []ast.Stmt) {
			for _, s := range list {
				switch s.(type) {
				case *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
					continue
				}
				put(s, s.Pos(), s.Pos(), 0, "zzrt.Y();")
			}
		}
		isBuiltin := func(fun ast.Expr, name string) bool {
			id, ok := ast.Unparen(fun).(*ast.Ident)
			if !ok || id.Name != name {
				return false
			}
			_, ok = info.Uses[id].(*types.Builtin)
			return ok
		}
		isChan := func(x ast.Expr) bool {
			tv, ok := info.Types[x]
			if !ok || tv.Type == nil {
				return false
			}
			t := tv.Type.Underlying()
			if tp, ok := t.(*types.Interface); ok && types.IsInterface(tp) {
				if p, ok := tv.Type.(*types.TypeParam); ok {
					return coreChan(p)
				}
				return false
			}
			_, ok = t.(*types.Chan)
			return ok
		}
		isMap := func(x ast.Expr) bool {
			tv, ok := info.Types[x]
			if !ok || tv.Type == nil || !tv.IsValue() {
				return false
			}
			_, ok = tv.Type.Underlying().(*types.Map)
			return ok
		}
		captured := capturedVars(f, info)
		stores := map[ast.Expr]bool{}    // expressions assigned to
		two := map[*ast.UnaryExpr]bool{} // receives of two values
		comm := map[ast.Node]bool{}      // communications of a select, done there
		arrow := func(x ast.Expr) *ast.UnaryExpr {
			if u, ok := ast.Unparen(x).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
				return u
			}
			return nil
		}
		n := 0
		ast.Inspect(f, func(nd ast.Node) bool {
			switch v := nd.(type) {
			case *ast.FuncDecl:
				if v.Recv == nil && v.Name.Name == "init" && v.Body != nil {
					nm := fmt.Sprintf("zzinit%d", inits)
					inits++
					initNames = append(initNames, nm)
					put(v.Name, v.Name.Pos(), v.Name.End(), 0, nm)
				}
			case *ast.BlockStmt:
				block(v.List)
			case *ast.CaseClause:
				block(v.Body)
			case *ast.CommClause:
				block(v.Body)
			case *ast.ForStmt:
				if len(v.Body.List) == 0 {
					put(v, v.Body.Lbrace+1, v.Body.Lbrace+1, 0, "zzrt.Y();")
				}
			case *ast.GoStmt:
				n++
				x.goStmt(e, off, info, v, n)
			case *ast.SelectStmt:
				n++
				x.selectStmt(e, off, put, comm, v, n)
			case *ast.SendStmt:
				if !comm[v] {
					put(v, v.Pos(), v.Pos(), 1, "zzrt.Sender(")
					put(v, v.Arrow, v.Arrow+2, 1, ")(")
					put(v, v.End(), v.End(), -1, ")")
				}
			case *ast.AssignStmt:
				if len(v.Lhs) == 2 && len(v.Rhs) == 1 {
					if u := arrow(v.Rhs[0]); u != nil {
						two[u] = true
					}
				}
				if v.Tok != token.DEFINE {
					for _, l := range v.Lhs {
						stores[ast.Unparen(l)] = true
					}
				}
				x.update(e, off, put, info, tp, captured, v)
			case *ast.IncDecStmt:
				stores[ast.Unparen(v.X)] = true
				x.update(e, off, put, info, tp, captured, v)
			case *ast.IndexExpr:
				if isMap(v.X) {
					fn := "zzrt.MapR("
					if stores[v] {
						fn = "zzrt.MapW("
					}
					put(v.X, v.X.Pos(), v.X.Pos(), 1, fn)
					put(v.X, v.X.End(), v.X.End(), -1, ")")
				}
			case *ast.ValueSpec:
				if len(v.Names) == 2 && len(v.Values) == 1 {
					if u := arrow(v.Values[0]); u != nil {
						two[u] = true
					}
				}
			case *ast.UnaryExpr:
				if v.Op == token.ARROW && !comm[v] {
					fn := "zzrt.Recv("
					if two[v] {
						fn = "zzrt.Recv2("
					}
					put(v, v.Pos(), v.Pos()+2, 1, fn)
					put(v, v.End(), v.End(), -1, ")")
				}
			case *ast.RangeStmt:
				if tv, ok := info.Types[v.X]; ok {
					if _, ok := tv.Type.Underlying().(*types.Map); ok {
						n++
						x.mapRange(e, off, put, v, n)
					} else if isChan(v.X) {
						n++
						x.chanRange(e, off, put, v, n)
					} else if len(v.Body.List) == 0 {
						put(v, v.Body.Lbrace+1, v.Body.Lbrace+1, 0, "zzrt.Y();")
					}
				}
			case *ast.CallExpr:
				switch {
				case isBuiltin(v.Fun, "close") && len(v.Args) == 1:
					put(v, v.Fun.Pos(), v.Fun.End(), 1, "zzrt.Close")
				case (isBuiltin(v.Fun, "delete") || isBuiltin(v.Fun, "clear")) && len(v.Args) >= 1 && isMap(v.Args[0]):
					put(v.Args[0], v.Args[0].Pos(), v.Args[0].Pos(), 1, "zzrt.MapW(")
					put(v.Args[0], v.Args[0].End(), v.Args[0].End(), -1, ")")
				case isBuiltin(v.Fun, "len") && len(v.Args) == 1 && isChan(v.Args[0]):
					put(v, v.Fun.Pos(), v.Fun.End(), 1, "zzrt.ChanLen")
				case isBuiltin(v.Fun, "make") && len(v.Args) >= 1:
					tv, ok := info.Types[v.Args[0]]
					if !ok {
						break
					}
					if isChan(v.Args[0]) {
						put(v, v.Pos(), v.Pos(), 1, "zzrt.Chan(")
						put(v, v.End(), v.End(), -1, ")")
					} else if _, ok := tv.Type.Underlying().(*types.Slice); ok && len(v.Args) >= 2 {
						a := v.Args[len(v.Args)-1]
						if info.Types[a].Value == nil {
							put(a, a.Pos(), a.Pos(), 1, "zzrt.A(int(")
							put(a, a.End(), a.End(), -1, "))")
						}
					}
				}
				if s, ok := v.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Gosched" {
					if o := info.Uses[s.Sel]; o != nil && o.Pkg() != nil && o.Pkg().Path() == "runtime" {
						put(v, v.Pos(), v.Pos(), 1, "func(){ ")
						put(v, v.End(), v.End(), -1, "; zzrt.Gosched() }()")
					}
				}
			}
			return true
		})
		if e.used || e.tail != "" {
			// after the package clause
			put(f.Name, f.Name.End(), f.Name.End(), 0, "; import zzrt \""+base+"simrt\"")
		}
	}
	// process restart
	var vars []string
	for _, n := range tp.Scope().Names() {
		if v, ok := tp.Scope().Lookup(n).(*types.Var); ok && n != "_" {
			vars = append(vars, v.Name())
		}
	}
	sort.Strings(vars)
	var g strings.Builder
	fmt.Fprintf(&g, "package %s\n\nimport zzrt \"%ssimrt\"\n", p.Name, base)
	var subs []string
	for _, im := range p.Imports {
		if im != p.ImportPath && (im == x.mod || strings.HasPrefix(im, x.mod+"/")) && x.all[im] != nil {
			subs = append(subs, im)
		}
	}
	for i, s := range subs {
		fmt.Fprintf(&g, "import zzsub%d %q\n", i, s)
	}
	fmt.Fprintf(&g, "\nfunc init() { _ = zzrt.Y\n")
	for _, n := range initNames {
		fmt.Fprintf(&g, "\t%s()\n", n)
	}
	fmt.Fprintf(&g, "}\n\n// ZZSimReset is what a process restart does to this package's variables.\nfunc ZZSimReset() {\n")
	for i := range subs {
		fmt.Fprintf(&g, "\tzzsub%d.ZZSimReset()\n", i)
	}
	for _, v := range vars {
		fmt.Fprintf(&g, "\tzzrt.Zero(&%s)\n", v)
	}
	for _, e := range eds {
		e.order()
	}
	for k, in := range info.InitOrder {
		pos := fset.Position(in.Rhs.Pos())
		var e *fileEd
		for _, q := range eds {
			if q.name == pos.Filename {
				e = q
			}
		}
		var l []string
		blank := true
		for _, v := range in.Lhs {
			l = append(l, v.Name())
			if v.Name() != "_" {
				blank = false
			}
		}
		if blank {
			continue
		}
		end := fset.Position(in.Rhs.End()).Offset
		e.tail += fmt.Sprintf("\nfunc zzvar%d() { %s = %s }\n", k, strings.Join(l, ", "), e.render(pos.Offset, end, false))
		fmt.Fprintf(&g, "\tzzvar%d()\n", k)
	}
	for _, n := range initNames {
		fmt.Fprintf(&g, "\t%s()\n", n)
	}
	g.WriteString("}\n")
	rel, _ := filepath.Rel(x.src, p.Dir)
	dir := filepath.Join(x.dst, rel)
	os.MkdirAll(dir, 0755)
	for _, e := range eds {
		if err := os.WriteFile(filepath.Join(dir, e.name), e.apply(), 0644); err != nil {
			die("%v", err)
		}
	}
	if err := os.WriteFile(filepath.Join(dir, "zz_sim.go"), []byte(g.String()), 0644); err != nil {
		die("%v", err)
	}
}

// capturedVars are the local variables some function literal shares with the
// function around it.
func capturedVars(f *ast.File, info *types.Info) map[types.Object]bool {
	out := map[types.Object]bool{}
	decl := map[types.Object]ast.Node{} // innermost function of the declaration
	var stack []ast.Node
	walk := func(visit func(id *ast.Ident, fn ast.Node)) {
		stack = stack[:0]
		var fns []ast.Node
		ast.Inspect(f, func(nd ast.Node) bool {
			if nd == nil {
				top := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				switch top.(type) {
				case *ast.FuncDecl, *ast.FuncLit:
					fns = fns[:len(fns)-1]
				}
				return true
			}
			stack = append(stack, nd)
			switch v := nd.(type) {
			case *ast.FuncDecl, *ast.FuncLit:
				fns = append(fns, nd)
			case *ast.Ident:
				if len(fns) > 0 {
					visit(v, fns[len(fns)-1])
				}
			}
			return true
		})
	}
	walk(func(id *ast.Ident, fn ast.Node) {
		if o := info.Defs[id]; o != nil {
			decl[o] = fn
		}
	})
	walk(func(id *ast.Ident, fn ast.Node) {
		if o := info.Uses[id]; o != nil && decl[o] != nil && decl[o] != fn {
			out[o] = true
		}
	})
	return out
}

// mayShare says whether two tasks may use the variable an expression without
// calls denotes; others and map elements are not split.
func mayShare(x ast.Expr, info *types.Info, tp *types.Package, captured map[types.Object]bool) bool {
	switch v := x.(type) {
	case *ast.ParenExpr:
		return mayShare(v.X, info, tp, captured)
	case *ast.Ident:
		o, ok := info.Uses[v].(*types.Var)
		return ok && v.Name != "_" && (o.Parent() == tp.Scope() || captured[o])
	case *ast.StarExpr:
		return true
	case *ast.SelectorExpr:
		if id, ok := v.X.(*ast.Ident); ok && isPkg(info, id) {
			return true
		}
		tv := info.Types[v.X]
		if tv.Type == nil {
			return false
		}
		if _, ok := tv.Type.Underlying().(*types.Pointer); ok {
			return true
		}
		return mayShare(v.X, info, tp, captured)
	case *ast.IndexExpr:
		tv := info.Types[v.X]
		if tv.Type == nil {
			return false
		}
		switch tv.Type.Underlying().(type) {
		case *types.Slice, *types.Pointer:
			return true
		case *types.Array:
			return mayShare(v.X, info, tp, captured)
		}
	}
	return false
}

// update splits a statement that reads and writes one variable (x++, x += y,
// x = f(x)) between the two, and one that stores a structure between its
// fields, where another task may use the variable.
func (x *xf) update(e *fileEd, off func(token.Pos) int, put func(ast.Node, token.Pos, token.Pos, int, string), info *types.Info, tp *types.Package, captured map[types.Object]bool, s ast.Stmt) {
	var lhs, rhs ast.Expr
	var tok token.Token
	var at token.Pos
	switch v := s.(type) {
	case *ast.IncDecStmt:
		lhs, tok, at = v.X, v.Tok, v.TokPos
	case *ast.AssignStmt:
		if len(v.Lhs) != 1 || len(v.Rhs) != 1 || v.Tok == token.DEFINE {
			return
		}
		lhs, rhs, tok, at = v.Lhs[0], v.Rhs[0], v.Tok, v.TokPos
	}
	plain := true
	ast.Inspect(lhs, func(nd ast.Node) bool {
		switch u := nd.(type) {
		case *ast.CallExpr, *ast.FuncLit, *ast.CompositeLit:
			plain = false
		case *ast.UnaryExpr:
			plain = plain && u.Op != token.ARROW
		}
		return plain
	})
	if !plain || !mayShare(lhs, info, tp, captured) {
		return
	}
	text := func(n ast.Node) string { return string(e.data[off(n.Pos()):off(n.End())]) }
	if tok == token.ASSIGN {
		lt, rt := info.Types[lhs], info.Types[rhs]
		if rt.Type == nil || lt.Type == nil || rt.Value != nil || !types.Identical(lt.Type, rt.Type) {
			return
		}
		if st, ok := lt.Type.Underlying().(*types.Struct); ok && st.NumFields() > 1 {
			// a store of several words
			put(s, lhs.Pos(), rhs.Pos(), 1, "zzrt.St(")
			e.edits = append(e.edits, edit{pos: off(rhs.End()), end: off(rhs.End()), pri: -1, a: off(s.Pos()), b: off(s.End()), gen: func() string {
				return ", &(" + e.render(off(lhs.Pos()), off(lhs.End()), false) + "))"
			}})
			return
		}
		same := false
		ast.Inspect(rhs, func(nd ast.Node) bool {
			if x, ok := nd.(ast.Expr); ok && text(x) == text(lhs) {
				same = true
			}
			return !same
		})
		if same {
			put(rhs, rhs.Pos(), rhs.Pos(), 1, "zzrt.Rd(")
			put(rhs, rhs.End(), rhs.End(), -1, ")")
		}
		return
	}
	op := strings.TrimSuffix(tok.String(), "=")
	tail := "))"
	open := " ("
	if rhs == nil {
		op, open, tail = tok.String()[:1], " 1", ")"
	}
	e.edits = append(e.edits, edit{pos: off(at), end: off(at) + len(tok.String()), pri: 1, a: off(s.Pos()), b: off(s.End()), gen: func() string {
		return "= zzrt.Rd(" + e.render(off(lhs.Pos()), off(lhs.End()), false) + " " + op + open
	}})
	put(s, s.End(), s.End(), -1, tail)
}

func coreChan(p *types.TypeParam) bool {
	i, ok := p.Constraint().Underlying().(*types.Interface)
	if !ok || i.NumEmbeddeds() == 0 {
		return false
	}
	for k := 0; k < i.NumEmbeddeds(); k++ {
		t := i.EmbeddedType(k)
		if u, ok := t.(*types.Union); ok && u.Len() > 0 {
			t = u.Term(0).Type()
		}
		if _, ok := t.Underlying().(*types.Chan); ok {
			return true
		}
	}
	return false
}

func (e *fileEd) order() {
	sort.SliceStable(e.edits, func(i, j int) bool {
		a, b := e.edits[i], e.edits[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if a.pri != b.pri {
			return a.pri < b.pri
		}
		if a.pri < 0 { // inner nodes close first
			return a.b-a.a < b.b-b.a
		}
		return a.b-a.a > b.b-b.a
	})
}

func (e *fileEd) apply() []byte { return []byte(e.render(0, len(e.data), true) + e.tail) }

// render is the edited text of [from,to): with all set of everything there,
// otherwise of a node with that extent that is being moved.
func (e *fileEd) render(from, to int, all bool) string {
	var out strings.Builder
	at := from
	skipA, skipB := -1, -1
	for i := range e.edits {
		d := &e.edits[i]
		if d.pos < from || d.end > to {
			continue
		}
		if !all && (d.a < from || d.b > to || d.moved && d.pos == from && d.end == to) {
			continue
		}
		if skipA >= 0 && d.a >= skipA && d.b <= skipB && !(d.moved && d.pos == skipA && d.end == skipB) {
			continue // within a node printed elsewhere
		}
		if d.pos < at && d.end <= at {
			continue // within text that was replaced
		}
		if d.pos < at {
			die("%s: overlapping edits at %d: %q", e.name, d.pos, d.text)
		}
		out.Write(e.data[at:d.pos])
		if d.gen != nil {
			out.WriteString(d.gen())
		} else {
			out.WriteString(d.text)
		}
		at = d.end
		if d.moved {
			skipA, skipB = d.pos, d.end
		}
	}
	out.Write(e.data[at:to])
	return out.String()
}

// goStmt turns `go f(a, b)` into a simulated task; arguments are evaluated now.
func (x *xf) goStmt(e *fileEd, off func(token.Pos) int, info *types.Info, g *ast.GoStmt, n int) {
	c := g.Call
	var names []string
	var at []ast.Expr
	if s, ok := ast.Unparen(c.Fun).(*ast.SelectorExpr); ok {
		if tv, ok := info.Types[c.Fun]; ok && tv.IsValue() {
			if id, ok := s.X.(*ast.Ident); !ok || !isPkg(info, id) {
				names = append(names, fmt.Sprintf("zzg%d_f", n))
				at = append(at, c.Fun)
			}
		}
	}
	for i, a := range c.Args {
		tv := info.Types[a]
		if _, tuple := tv.Type.(*types.Tuple); tuple || tv.Value != nil || tv.IsNil() || tv.IsType() {
			continue
		}
		names = append(names, fmt.Sprintf("zzg%d_%d", n, i))
		at = append(at, a)
	}
	ga, gb := off(g.Pos()), off(g.End())
	e.edits = append(e.edits, edit{pos: ga, end: off(c.Pos()), pri: 1, a: ga, b: gb, gen: func() string {
		pre := "{"
		if len(at) > 0 {
			var ex []string
			for _, a := range at {
				ex = append(ex, e.render(off(a.Pos()), off(a.End()), false))
			}
			pre += strings.Join(names, ", ") + " := " + strings.Join(ex, ", ") + "; "
		}
		return pre + "zzrt.Go(func() { "
	}})
	for i, a := range at {
		e.edits = append(e.edits, edit{pos: off(a.Pos()), end: off(a.End()), text: names[i], pri: 1, a: ga, b: gb, moved: true})
	}
	e.edits = append(e.edits, edit{pos: gb, end: gb, text: " }) }", pri: -1, a: ga, b: gb})
	e.used = true
}

func isPkg(info *types.Info, id *ast.Ident) bool {
	_, ok := info.Uses[id].(*types.PkgName)
	return ok
}

// selectStmt turns a select into a switch over what the simulator chose.
func (x *xf) selectStmt(e *fileEd, off func(token.Pos) int, put func(ast.Node, token.Pos, token.Pos, int, string), comm map[ast.Node]bool, s *ast.SelectStmt, n int) {
	type cs struct {
		name string
		ch   ast.Expr
		val  ast.Expr
	}
	var cases []cs
	def := false
	for _, b := range s.Body.List {
		c := b.(*ast.CommClause)
		if c.Comm == nil {
			def = true
			continue
		}
		q := cs{name: fmt.Sprintf("zzc%d_%d", n, len(cases))}
		head := fmt.Sprintf("case %d:", len(cases))
		gen := func() string { return head }
		comm[c.Comm] = true
		switch v := c.Comm.(type) {
		case *ast.SendStmt:
			q.ch, q.val = v.Chan, v.Value
		case *ast.ExprStmt:
			u := ast.Unparen(v.X).(*ast.UnaryExpr)
			comm[u] = true
			q.ch = u.X
		case *ast.AssignStmt:
			u := ast.Unparen(v.Rhs[0]).(*ast.UnaryExpr)
			comm[u] = true
			q.ch = u.X
			name := q.name
			gen = func() string {
				var l, r []string
				for i, h := range v.Lhs {
					l = append(l, e.render(off(h.Pos()), off(h.End()), false))
					r = append(r, name+[]string{".Val", ".Ok"}[i])
				}
				return head + " " + strings.Join(l, ", ") + " " + v.Tok.String() + " " + strings.Join(r, ", ") + ";"
			}
		}
		cases = append(cases, q)
		a, b2 := off(c.Case), off(c.Colon)+1
		e.edits = append(e.edits, edit{pos: a, end: b2, pri: 1, a: off(c.Pos()), b: off(c.End()), moved: true, gen: gen})
	}
	e.used = true
	sa, sb := off(s.Pos()), off(s.End())
	if len(s.Body.List) == 0 {
		e.edits = append(e.edits, edit{pos: sa, end: sb, text: "zzrt.Recv[int](nil)", pri: 1, a: sa, b: sb})
		return
	}
	e.edits = append(e.edits, edit{pos: sa, end: off(s.Body.Lbrace), pri: 1, a: sa, b: sb, gen: func() string {
		var names, ex []string
		for _, q := range cases {
			names = append(names, q.name)
			ch := e.render(off(q.ch.Pos()), off(q.ch.End()), false)
			if q.val != nil {
				ex = append(ex, "zzrt.SendCase("+ch+")("+e.render(off(q.val.Pos()), off(q.val.End()), false)+")")
			} else {
				ex = append(ex, "zzrt.RecvCase("+ch+")")
			}
		}
		t := "switch "
		if len(names) > 0 {
			t += strings.Join(names, ", ") + " := " + strings.Join(ex, ", ") + "; "
		}
		return t + fmt.Sprintf("zzrt.Select(%v", def) + strings.Join(append([]string{""}, names...), ", ") + ") "
	}})
}

// chanRange turns `for v := range c` into receives until the channel is closed.
func (x *xf) chanRange(e *fileEd, off func(token.Pos) int, put func(ast.Node, token.Pos, token.Pos, int, string), r *ast.RangeStmt, n int) {
	c, v, ok := fmt.Sprintf("zzr%d", n), fmt.Sprintf("zzv%d", n), fmt.Sprintf("zzok%d", n)
	put(r, r.For+3, r.X.Pos(), 1, " "+c+" := ")
	put(r, r.X.End(), r.X.End(), -1, "; ; ")
	var body string
	k := ""
	if r.Key != nil {
		k = string(e.data[off(r.Key.Pos()):off(r.Key.End())])
	}
	if k == "" || k == "_" {
		body = "zzrt.Y(); _, " + ok + " := zzrt.Recv2(" + c + "); if !" + ok + " { break };"
	} else {
		body = "zzrt.Y(); " + v + ", " + ok + " := zzrt.Recv2(" + c + "); if !" + ok + " { break }; " + k + " " + r.Tok.String() + " " + v + ";"
	}
	put(r, r.Body.Lbrace+1, r.Body.Lbrace+1, -1, body)
}

// mapRange makes the order of `for k, v := range m` the environment's choice.
func (x *xf) mapRange(e *fileEd, off func(token.Pos) int, put func(ast.Node, token.Pos, token.Pos, int, string), r *ast.RangeStmt, n int) {
	en := fmt.Sprintf("zze%d", n)
	var k, v string
	if r.Key != nil {
		k = string(e.data[off(r.Key.Pos()):off(r.Key.End())])
	}
	if r.Value != nil {
		v = string(e.data[off(r.Value.Pos()):off(r.Value.End())])
	}
	put(r, r.For+3, r.X.Pos(), 1, " _, "+en+" := range zzrt.Entries(")
	put(r, r.X.End(), r.X.End(), -1, ")")
	body := "if !" + en + ".Live() { continue };"
	op := " := "
	if r.Tok == token.ASSIGN {
		op = " = "
	}
	if k == "_" {
		k = ""
	}
	if v == "_" {
		v = ""
	}
	switch {
	case k != "" && v != "":
		body += k + ", " + v + op + en + ".K, " + en + ".V();"
	case k != "":
		body += k + op + en + ".K;"
	case v != "":
		body += v + op + en + ".V();"
	}
	put(r, r.Body.Lbrace+1, r.Body.Lbrace+1, -1, body)
}
