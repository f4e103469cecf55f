// vinstr: source-to-source instrumenter for controlled-scheduler exploration.
//
// It reads packages of /repo's current tree, type-checks them, and writes instrumented copies in which
// every interaction between goroutines goes through the scheduler in sched/vrt, plus an overlay file for
// `go build -overlay`.  It works on the syntax tree and type information (never on names or text of
// particular functions), so it follows refactorings.  Edits are textual insertions at AST positions so
// that comments, directives and build constraints stay where they are.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/importer"
	"go/parser"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type listPkg struct {
	ImportPath string
	Dir        string
	Export     string
	GoFiles    []string
	Standard   bool
	Error      *struct{ Err string }
}

var (
	flagRepo    = flag.String("repo", "/repo", "repository")
	flagOut     = flag.String("out", "", "output directory")
	flagPkgs    = flag.String("pkgs", "", "comma separated import paths to instrument")
	flagTags    = flag.String("tags", "", "build tags")
	flagLevel   = flag.Int("level", 2, "2: sync operations and shared accesses; 1: sync operations only; 0: nothing")
	flagVirtual = flag.String("virtual", "", "comma separated srcdir=dstdir pairs added to the overlay")
	flagRoot    = flag.String("root", "github.com/nanobus/iota/go/internal/zzverif", "import path prefix of the runtime")
	flagNet     = flag.String("net", "", "import path of what replaces listening and dialling of package net")
	flagExtra   = flag.String("extra", "", "comma separated repo-file=replacement pairs added to the overlay (replacement empty: delete)")
	flagGuest   = flag.String("guest", "", "prepare this package, whose functions without a body are provided by a WebAssembly host")
)

func fatal(f string, a ...any) { fmt.Fprintf(os.Stderr, "vinstr: "+f+"\n", a...); os.Exit(3) }

func main() {
	flag.Parse()
	if *flagGuest != "" {
		guest(*flagGuest, *flagOut)
		return
	}
	overlay := map[string]string{}
	for _, p := range split(*flagVirtual) {
		src, dst, _ := strings.Cut(p, "=")
		ents, err := os.ReadDir(src)
		if err != nil {
			fatal("%v", err)
		}
		for _, e := range ents {
			if strings.HasSuffix(e.Name(), ".go") {
				overlay[filepath.Join(dst, e.Name())] = filepath.Join(src, e.Name())
			}
		}
	}
	extra := map[string]string{}
	for _, p := range split(*flagExtra) {
		f, r, _ := strings.Cut(p, "=")
		overlay[f] = r
		extra[f] = r
	}
	if *flagLevel > 0 && *flagPkgs != "" {
		instrument(overlay, extra)
	}
	b, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	if err := os.WriteFile(filepath.Join(*flagOut, "overlay.json"), b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func split(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ",")
}

type pkgInfo struct {
	lp    *listPkg
	files []*ast.File
	srcs  [][]byte
	names []string
	info  *types.Info
	tpkg  *types.Package
}

var fset = token.NewFileSet()

func instrument(overlay, extra map[string]string) {
	want := split(*flagPkgs)
	args := []string{"list", "-e", "-export", "-deps", "-json=ImportPath,Dir,Export,GoFiles,Standard,Error"}
	if *flagTags != "" {
		args = append(args, "-tags", *flagTags)
	}
	if len(extra) > 0 {
		ov := filepath.Join(*flagOut, "list_overlay.json")
		b, _ := json.Marshal(map[string]any{"Replace": extra})
		os.WriteFile(ov, b, 0o644)
		args = append(args, "-overlay", ov)
	}
	args = append(args, want...)
	cmd := exec.Command("go", args...)
	cmd.Dir = *flagRepo
	cmd.Stderr = os.Stderr
	out, err := cmd.Output()
	if err != nil {
		fatal("go list: %v", err)
	}
	all := map[string]*listPkg{}
	dec := json.NewDecoder(strings.NewReader(string(out)))
	for {
		var p listPkg
		if err := dec.Decode(&p); err == io.EOF {
			break
		} else if err != nil {
			fatal("go list output: %v", err)
		}
		all[p.ImportPath] = &p
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		p := all[path]
		if p == nil || p.Export == "" {
			return nil, fmt.Errorf("no export data for %s", path)
		}
		return os.Open(p.Export)
	})
	var infos []*pkgInfo
	for _, w := range want {
		lp := all[w]
		if lp == nil || lp.Dir == "" || len(lp.GoFiles) == 0 {
			fatal("no package %s", w)
		}
		pi := &pkgInfo{lp: lp}
		for _, g := range lp.GoFiles {
			fn := filepath.Join(lp.Dir, g)
			rd := fn
			if r, ok := extra[fn]; ok && r != "" {
				rd = r
			}
			src, err := os.ReadFile(rd)
			if err != nil {
				fatal("%v", err)
			}
			f, err := parser.ParseFile(fset, fn, src, parser.ParseComments)
			if err != nil {
				fatal("%v", err)
			}
			pi.files = append(pi.files, f)
			pi.srcs = append(pi.srcs, src)
			pi.names = append(pi.names, fn)
		}
		pi.info = &types.Info{
			Types: map[ast.Expr]types.TypeAndValue{}, Defs: map[*ast.Ident]types.Object{},
			Uses: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{},
			Instances: map[*ast.Ident]types.Instance{}, Scopes: map[ast.Node]*types.Scope{},
			Implicits: map[ast.Node]types.Object{},
		}
		conf := types.Config{Importer: imp, Error: func(err error) { fmt.Fprintln(os.Stderr, "vinstr: typecheck:", err) }}
		tp, err := conf.Check(w, fset, pi.files, pi.info)
		if err != nil {
			fatal("type check of %s failed: %v", w, err)
		}
		pi.tpkg = tp
		infos = append(infos, pi)
	}
	// Which fields and variables are ever written after construction, anywhere in the instrumented code?
	mut := newMutability()
	for _, pi := range infos {
		mut.scan(pi)
	}
	for _, pi := range infos {
		for i := range pi.files {
			rw := &rewriter{pi: pi, file: pi.files[i], src: pi.srcs[i], mut: mut, info: pi.info}
			res := rw.run()
			if res == nil {
				continue
			}
			rel := strings.TrimPrefix(pi.names[i], "/")
			dst := filepath.Join(*flagOut, "src", rel)
			os.MkdirAll(filepath.Dir(dst), 0o755)
			if err := os.WriteFile(dst, res, 0o644); err != nil {
				fatal("%v", err)
			}
			overlay[pi.names[i]] = dst
		}
	}
}

// ---------------------------------------------------------------------------------------------------
// mutability: fields assigned outside composite literals, captured variables assigned after capture

type mutability struct {
	// keyed by "pkgpath.Type.field"-ish position string because objects differ between packages
	fields map[string]bool
	vars   map[types.Object]int // number of assignments (incl. definition with value)
	addr   map[types.Object]bool
	capt   map[types.Object]bool // used in a function literal other than the one that declares it
	gvars  map[string]bool       // package level variables that are assigned: "path.name"
	alias  map[types.Object]bool // local slices that share memory with a field or package level variable
}

func newMutability() *mutability {
	return &mutability{map[string]bool{}, map[types.Object]int{}, map[types.Object]bool{}, map[types.Object]bool{}, map[string]bool{}, map[types.Object]bool{}}
}

// holder strips slicing: the expression that holds the memory.
func holder(e ast.Expr) ast.Expr {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		default:
			return e
		}
	}
}

// aliases: does the slice share memory with a field, a package level variable or an alias of these?
func (m *mutability) aliases(info *types.Info, e ast.Expr) bool {
	switch x := holder(e).(type) {
	case *ast.SelectorExpr:
		if s, ok := info.Selections[x]; ok {
			return s.Kind() == types.FieldVal
		}
		o := info.Uses[x.Sel]
		return o != nil && isGlobal(o)
	case *ast.Ident:
		o := info.Uses[x]
		return o != nil && (isGlobal(o) || m.alias[o])
	}
	return false
}

func (m *mutability) markAlias(info *types.Info, lhs *ast.Ident, rhs ast.Expr) {
	o := info.Defs[lhs]
	if o == nil {
		o = info.Uses[lhs]
	}
	v, ok := o.(*types.Var)
	if !ok || v.IsField() || isGlobal(v) {
		return
	}
	if _, ok := v.Type().Underlying().(*types.Slice); ok && m.aliases(info, rhs) {
		m.alias[o] = true
	}
}

func fieldKey(v *types.Var) string {
	o := v.Origin()
	p := fset.Position(o.Pos())
	pp := ""
	if o.Pkg() != nil {
		pp = o.Pkg().Path()
	}
	return pp + "|" + filepath.Base(p.Filename) + "|" + strconv.Itoa(p.Line) + "|" + o.Name()
}

func gvarKey(o types.Object) string { return o.Pkg().Path() + "." + o.Name() }

func isGlobal(o types.Object) bool {
	v, ok := o.(*types.Var)
	return ok && !v.IsField() && v.Pkg() != nil && v.Parent() == v.Pkg().Scope()
}

func (m *mutability) markLHS(info *types.Info, e ast.Expr) {
	for {
		switch x := e.(type) {
		case *ast.ParenExpr:
			e = x.X
		case *ast.SelectorExpr:
			if s, ok := info.Selections[x]; ok && s.Kind() == types.FieldVal {
				m.fields[fieldKey(s.Obj().(*types.Var))] = true
				// writing a.b.c also changes b when b is held by value
				if _, ptr := info.TypeOf(x.X).Underlying().(*types.Pointer); ptr {
					return
				}
				e = x.X
				continue
			}
			if o := info.Uses[x.Sel]; o != nil && isGlobal(o) {
				m.gvars[gvarKey(o)] = true
			}
			return
		case *ast.IndexExpr:
			// writing an element: mark the holder as mutable (slices, maps, arrays)
			e = x.X
		case *ast.SliceExpr:
			e = x.X
		case *ast.StarExpr:
			return
		case *ast.Ident:
			o := info.Uses[x]
			if o == nil {
				o = info.Defs[x]
			}
			if o != nil {
				m.vars[o]++
				if isGlobal(o) {
					m.gvars[gvarKey(o)] = true
				}
			}
			return
		default:
			return
		}
	}
}

func (m *mutability) scan(pi *pkgInfo) {
	info := pi.info
	declFn := map[types.Object]ast.Node{}
	for _, f := range pi.files {
		var stack []ast.Node
		var fnStack []ast.Node
		ast.Inspect(f, func(n ast.Node) bool {
			if n == nil {
				top := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if len(fnStack) > 0 && fnStack[len(fnStack)-1] == top {
					fnStack = fnStack[:len(fnStack)-1]
				}
				return true
			}
			stack = append(stack, n)
			switch x := n.(type) {
			case *ast.FuncLit, *ast.FuncDecl:
				fnStack = append(fnStack, n)
			case *ast.AssignStmt:
				for i, l := range x.Lhs {
					m.markLHS(info, l)
					if id, ok := l.(*ast.Ident); ok && len(x.Rhs) == len(x.Lhs) {
						m.markAlias(info, id, x.Rhs[i])
					}
				}
			case *ast.CallExpr:
				// arrays that are passed sliced can be written to
				for _, a := range x.Args {
					if sl, ok := ast.Unparen(a).(*ast.SliceExpr); ok {
						if t := info.TypeOf(sl.X); t != nil {
							if _, ok := t.Underlying().(*types.Array); ok {
								m.markLHS(info, sl.X)
							}
						}
					}
				}
			case *ast.IncDecStmt:
				m.markLHS(info, x.X)
			case *ast.RangeStmt:
				if x.Key != nil {
					m.markLHS(info, x.Key)
				}
				if x.Value != nil {
					m.markLHS(info, x.Value)
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if id, ok := ast.Unparen(x.X).(*ast.Ident); ok {
						if o := info.Uses[id]; o != nil {
							m.addr[o] = true
						}
					} else {
						m.markLHS(info, x.X) // address of a field taken
					}
				}
			case *ast.ValueSpec:
				for i, nm := range x.Names {
					if o := info.Defs[nm]; o != nil && (len(x.Values) > i || len(x.Values) == 1) {
						m.vars[o]++
					}
					if len(x.Values) == len(x.Names) {
						m.markAlias(info, nm, x.Values[i])
					}
				}
			case *ast.Ident:
				if o := info.Defs[x]; o != nil {
					if len(fnStack) > 0 {
						declFn[o] = fnStack[len(fnStack)-1]
					}
				}
				if o, ok := info.Uses[x].(*types.Var); ok && len(fnStack) > 0 && !o.IsField() && !isGlobal(o) {
					if d, ok := declFn[o]; ok && d != fnStack[len(fnStack)-1] {
						m.capt[o] = true
					}
				}
			case *ast.SelectorExpr:
				// a method with pointer receiver called on a field held by value mutates it, unless the
				// field's type is one of the synchronisation types
				if s, ok := info.Selections[x]; ok && s.Kind() == types.MethodVal {
					if fn, ok := s.Obj().(*types.Func); ok {
						if sig, ok := fn.Type().(*types.Signature); ok && sig.Recv() != nil {
							if _, ptr := sig.Recv().Type().(*types.Pointer); ptr {
								if _, isPtr := info.TypeOf(x.X).Underlying().(*types.Pointer); !isPtr {
									// only plain-data types defined in instrumented packages matter, and
									// their own methods are instrumented; nothing to mark
									_ = fn
								}
							}
						}
					}
				}
			}
			return true
		})
	}
}

// ---------------------------------------------------------------------------------------------------

type edit struct {
	start, end int
	gen        func() string
	done       bool
	prio       int
}

type rewriter struct {
	pi    *pkgInfo
	info  *types.Info
	file  *ast.File
	src   []byte
	mut   *mutability
	edits []*edit
	useRT bool
	tmp   int
	tail  string
}

func (r *rewriter) off(p token.Pos) int { return fset.Position(p).Offset }

func (r *rewriter) insert(p token.Pos, s string, prio int) {
	o := r.off(p)
	r.edits = append(r.edits, &edit{start: o, end: o, gen: func() string { return s }, prio: prio})
}

func (r *rewriter) replace(a, b token.Pos, gen func() string) {
	r.edits = append(r.edits, &edit{start: r.off(a), end: r.off(b), gen: gen, prio: 50})
}

func (r *rewriter) replacePrio(a, b token.Pos, prio int, gen func() string) {
	r.edits = append(r.edits, &edit{start: r.off(a), end: r.off(b), gen: gen, prio: prio})
}

// wrap puts text around a node; other edits of the node (also of exactly its range) apply inside.
func (r *rewriter) wrap(n ast.Node, before, after string) {
	a, b := n.Pos(), n.End()
	r.replacePrio(a, b, 1, func() string { return before + r.render(r.off(a), r.off(b)) + after })
}

func (r *rewriter) text(n ast.Node) string { return r.render(r.off(n.Pos()), r.off(n.End())) }

func (r *rewriter) render(a, b int) string {
	var sb strings.Builder
	pos := a
	for _, e := range r.edits {
		if e.done || e.start < pos || e.end > b || e.start < a {
			continue
		}
		if e.start == e.end && e.start == b && b != len(r.src) {
			continue // an insertion exactly at the end belongs to what follows
		}
		sb.Write(r.src[pos:e.start])
		e.done = true
		sb.WriteString(e.gen())
		pos = e.end
	}
	sb.Write(r.src[pos:b])
	return sb.String()
}

func (r *rewriter) fresh() string { r.tmp++; return "zz" + strconv.Itoa(r.tmp) }

func (r *rewriter) site(p token.Pos) string {
	ps := fset.Position(p)
	return strconv.Quote(filepath.Base(filepath.Dir(ps.Filename)) + "/" + filepath.Base(ps.Filename) + ":" + strconv.Itoa(ps.Line))
}

const rt = "zzvrt"

func (r *rewriter) run() []byte {
	// imports
	for _, im := range r.file.Imports {
		path, _ := strconv.Unquote(im.Path.Value)
		var np, nm string
		switch path {
		case "sync":
			np, nm = *flagRoot+"/vsync", "sync"
		case "sync/atomic":
			np, nm = *flagRoot+"/vatomic", "atomic"
		default:
			continue
		}
		if im.Name != nil {
			nm = im.Name.Name
		}
		im := im
		r.replace(im.Pos(), im.End(), func() string { return nm + " " + strconv.Quote(np) })
	}
	for _, d := range r.file.Decls {
		switch x := d.(type) {
		case *ast.FuncDecl:
			if x.Body != nil {
				r.block(x.Body.List)
				r.exprs(x.Body)
			}
		case *ast.GenDecl:
			r.genDecl(x)
		}
	}
	// the clock: a harness may substitute it
	timeName := ""
	ast.Inspect(r.file, func(n ast.Node) bool {
		if x, ok := n.(*ast.SelectorExpr); ok {
			o := r.info.Uses[x.Sel]
			if o == nil || o.Pkg() == nil || o.Pkg().Path() != "time" || o.Parent() != o.Pkg().Scope() {
				return true
			}
			name := ""
			switch o.(type) {
			case *types.Func:
				if o.Name() == "Now" {
					name = "Now"
				}
			case *types.TypeName:
				if o.Name() == "Timer" {
					name = "Timer"
				}
			}
			if id, ok := x.X.(*ast.Ident); ok && name != "" {
				timeName = id.Name
				r.useRT = true
				r.replace(x.Pos(), x.End(), func() string { return rt + "." + name })
			}
		}
		return true
	})
	if timeName != "" {
		r.tail += "\nvar _ " + timeName + ".Duration\n"
	}
	// the network
	netName := ""
	if *flagNet != "" {
		ast.Inspect(r.file, func(n ast.Node) bool {
			x, ok := n.(*ast.SelectorExpr)
			if !ok {
				return true
			}
			o := r.info.Uses[x.Sel]
			if o == nil || o.Pkg() == nil || o.Pkg().Path() != "net" {
				return true
			}
			id, ok := x.X.(*ast.Ident)
			if !ok {
				return true
			}
			if _, ok := r.info.Uses[id].(*types.PkgName); !ok {
				return true
			}
			switch name := o.Name(); name {
			case "ListenConfig", "Dialer", "Listen", "Dial", "DialTimeout":
				netName = id.Name
				r.replace(x.Pos(), x.End(), func() string { return "zzvnet." + name })
			}
			return true
		})
	}
	if netName != "" {
		r.tail += "\nvar _ " + netName + ".Conn\n"
		r.edits = append(r.edits, &edit{start: r.off(r.file.Name.End()), end: r.off(r.file.Name.End()),
			gen: func() string { return "; import zzvnet " + strconv.Quote(*flagNet) }, prio: -1})
	}
	if len(r.edits) == 0 {
		return nil
	}
	if r.useRT {
		r.edits = append(r.edits, &edit{start: r.off(r.file.Name.End()), end: r.off(r.file.Name.End()),
			gen: func() string { return "; import " + rt + " " + strconv.Quote(*flagRoot+"/vrt") }, prio: -1})
	}
	sort.SliceStable(r.edits, func(i, j int) bool {
		a, b := r.edits[i], r.edits[j]
		if a.start != b.start {
			return a.start < b.start
		}
		if a.prio != b.prio {
			return a.prio < b.prio
		}
		return a.end > b.end
	})
	s := r.render(0, len(r.src))
	return []byte(s + r.tail)
}

func (r *rewriter) genDecl(x *ast.GenDecl) {
	for _, sp := range x.Specs {
		if vs, ok := sp.(*ast.ValueSpec); ok {
			for _, v := range vs.Values {
				ast.Inspect(v, func(n ast.Node) bool {
					if fl, ok := n.(*ast.FuncLit); ok {
						r.block(fl.Body.List)
						r.exprs(fl.Body)
						return false
					}
					return true
				})
			}
		}
	}
}

// block handles the statements of one list: scheduling points and statement rewrites.
func (r *rewriter) block(list []ast.Stmt) {
	for _, s := range list {
		r.stmt(s)
	}
}

func (r *rewriter) point(p token.Pos) {
	r.useRT = true
	r.insert(p, rt+".P("+r.site(p)+"); ", 0)
}

func (r *rewriter) stmt(s ast.Stmt) {
	inner := s
	for {
		if l, ok := inner.(*ast.LabeledStmt); ok {
			inner = l.Stmt
			continue
		}
		break
	}
	shared := *flagLevel >= 2 && r.headerShared(inner)
	switch x := inner.(type) {
	case *ast.BlockStmt:
		r.block(x.List)
		return
	case *ast.IfStmt:
		if shared {
			r.point(s.Pos())
		}
		r.ifTail(x)
		return
	case *ast.ForStmt:
		if shared {
			r.point(s.Pos())
		}
		r.block(x.Body.List)
		if *flagLevel >= 2 && x.Cond != nil && r.exprShared(x.Cond) {
			r.useRT = true
			r.wrap(x.Cond, rt+".T("+r.site(x.Cond.Pos())+") && (", ")")
		}
		if *flagLevel >= 2 && x.Post != nil && r.headerShared(x.Post) {
			r.useRT = true
			r.insert(x.Body.Rbrace, "; "+rt+".P("+r.site(x.Body.Rbrace)+")", 0)
		}
		return
	case *ast.RangeStmt:
		if t := r.info.TypeOf(x.X); t != nil {
			if _, ok := t.Underlying().(*types.Chan); ok {
				r.rangeChan(x)
				r.block(x.Body.List)
				return
			}
		}
		if shared {
			r.point(s.Pos())
			r.useRT = true
			r.insert(x.Body.Lbrace+1, " "+rt+".P("+r.site(x.Body.Pos())+"); ", 0)
		}
		r.block(x.Body.List)
		return
	case *ast.SwitchStmt:
		if shared {
			r.point(s.Pos())
		}
		for _, c := range x.Body.List {
			r.block(c.(*ast.CaseClause).Body)
		}
		return
	case *ast.TypeSwitchStmt:
		if shared {
			r.point(s.Pos())
		}
		for _, c := range x.Body.List {
			r.block(c.(*ast.CaseClause).Body)
		}
		return
	case *ast.SelectStmt:
		r.selectStmt(x)
		for _, c := range x.Body.List {
			r.block(c.(*ast.CommClause).Body)
		}
		return
	case *ast.GoStmt:
		r.goStmt(x)
		return
	case *ast.SendStmt:
		r.useRT = true
		site := r.site(x.Pos())
		r.replace(x.Pos(), x.End(), func() string {
			return rt + ".SendTo(" + r.text(x.Chan) + ", " + site + ")(" + r.text(x.Value) + ")"
		})
		return
	case *ast.AssignStmt:
		if shared {
			r.point(s.Pos())
			r.splitAssign(x)
		}
		return
	case *ast.IncDecStmt:
		if shared {
			r.point(s.Pos())
			r.splitIncDec(x)
		}
		return
	case *ast.DeferStmt, *ast.EmptyStmt, *ast.BranchStmt:
		return
	default:
		if shared {
			r.point(s.Pos())
		}
	}
}

func (r *rewriter) ifTail(x *ast.IfStmt) {
	r.block(x.Body.List)
	switch e := x.Else.(type) {
	case *ast.BlockStmt:
		r.block(e.List)
	case *ast.IfStmt:
		if *flagLevel >= 2 && r.headerShared(e) {
			r.useRT = true
			r.wrap(e, "{ "+rt+".P("+r.site(e.Pos())+"); ", " }")
		}
		r.ifTail(e)
	}
}

func (r *rewriter) splitIncDec(x *ast.IncDecStmt) {
	op := "+"
	if x.Tok == token.DEC {
		op = "-"
	}
	r.rmw(x, x.X, op, func() string { return "1" })
}

func (r *rewriter) rmw(st ast.Node, lhs ast.Expr, op string, rhs func() string) {
	site := r.site(st.Pos())
	r.useRT = true
	lhs = ast.Unparen(lhs)
	v := r.fresh()
	if ix, ok := lhs.(*ast.IndexExpr); ok {
		if _, isMap := r.info.TypeOf(ix.X).Underlying().(*types.Map); isMap {
			m, k := r.fresh(), r.fresh()
			r.replace(st.Pos(), st.End(), func() string {
				return "{ " + m + ", " + k + " := " + r.text(ix.X) + ", " + r.text(ix.Index) + "; " + v + " := " + m + "[" + k + "] " + op + " (" + rhs() + "); " + rt + ".P(" + site + "); " + m + "[" + k + "] = " + v + " }"
			})
			return
		}
	}
	p := r.fresh()
	r.replace(st.Pos(), st.End(), func() string {
		return "{ " + p + " := &(" + r.text(lhs) + "); " + v + " := *" + p + " " + op + " (" + rhs() + "); " + rt + ".P(" + site + "); *" + p + " = " + v + " }"
	})
}

func (r *rewriter) splitAssign(x *ast.AssignStmt) {
	if len(x.Lhs) != 1 || len(x.Rhs) != 1 {
		return
	}
	l, rh := x.Lhs[0], x.Rhs[0]
	if !r.exprShared(l) {
		return
	}
	switch x.Tok {
	case token.DEFINE:
		return
	case token.ASSIGN:
		if !r.exprShared(rh) && !hasCall(rh) {
			return
		}
		tv := r.info.Types[rh]
		if tv.Type == nil || tv.Value != nil || tv.IsNil() {
			return
		}
		if _, ok := tv.Type.(*types.Tuple); ok {
			return
		}
		if b, ok := tv.Type.(*types.Basic); ok && b.Info()&types.IsUntyped != 0 {
			return
		}
		if u, ok := ast.Unparen(rh).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
			return // rewritten elsewhere; receive is a point already
		}
		v := r.fresh()
		site := r.site(x.Pos())
		r.useRT = true
		r.replace(x.Pos(), x.End(), func() string {
			rs := r.text(rh)
			return "{ " + v + " := " + rs + "; " + rt + ".P(" + site + "); " + r.text(l) + " = " + v + " }"
		})
	default:
		op := strings.TrimSuffix(x.Tok.String(), "=")
		r.rmw(x, l, op, func() string { return r.text(rh) })
	}
}

func hasCall(e ast.Expr) bool {
	found := false
	ast.Inspect(e, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			found = true
		}
		return !found
	})
	return found
}

func (r *rewriter) rangeChan(x *ast.RangeStmt) {
	r.useRT = true
	site := r.site(x.Pos())
	ok := r.fresh()
	ch := r.fresh()
	r.replacePrio(x.Pos(), x.End(), 2, func() string {
		c := r.text(x.X)
		key := "_"
		if x.Key != nil {
			key = r.text(x.Key)
		}
		if x.Tok == token.ASSIGN {
			// rare: range with assignment
			return "for " + ch + " := " + c + "; ; { var " + ok + " bool; if " + key + ", " + ok + " = " + rt + ".Recv2(" + ch + ", " + site + "); !" + ok + " { break }; " + r.text(x.Body) + " }"
		}
		return "for " + ch + " := " + c + "; ; { " + key + ", " + ok + " := " + rt + ".Recv2(" + ch + ", " + site + "); if !" + ok + " { break }; " + r.text(x.Body) + " }"
	})
}

func (r *rewriter) goStmt(x *ast.GoStmt) {
	r.useRT = true
	site := r.site(x.Pos())
	call := x.Call
	r.replace(x.Pos(), x.End(), func() string {
		// go func(){...}()  without arguments
		fun := ast.Unparen(call.Fun)
		if len(call.Args) == 0 {
			if fl, ok := fun.(*ast.FuncLit); ok && (fl.Type.Results == nil || len(fl.Type.Results.List) == 0) {
				return rt + ".Go(" + site + ", " + r.text(fl) + ")"
			}
		}
		var pre []string
		ftext := ""
		hoistF := true
		if id, ok := fun.(*ast.Ident); ok {
			if _, isB := r.info.Uses[id].(*types.Builtin); isB {
				hoistF = false
			}
			if _, inst := r.info.Instances[id]; inst {
				hoistF = false
			}
		}
		if se, ok := fun.(*ast.SelectorExpr); ok {
			if _, inst := r.info.Instances[se.Sel]; inst {
				hoistF = false
			}
		}
		if hoistF {
			f := r.fresh()
			pre = append(pre, f+" := "+r.text(fun))
			ftext = f
		} else {
			ftext = r.text(fun)
		}
		var args []string
		if len(call.Args) == 1 {
			if tup, ok := r.info.TypeOf(call.Args[0]).(*types.Tuple); ok {
				var ns []string
				for i := 0; i < tup.Len(); i++ {
					ns = append(ns, r.fresh())
				}
				pre = append(pre, strings.Join(ns, ", ")+" := "+r.text(call.Args[0]))
				args = ns
			}
		}
		if args == nil {
			for _, a := range call.Args {
				tv := r.info.Types[a]
				if tv.Value != nil || tv.IsNil() || tv.IsType() {
					args = append(args, r.text(a))
					continue
				}
				n := r.fresh()
				pre = append(pre, n+" := "+r.text(a))
				args = append(args, n)
			}
		}
		ell := ""
		if call.Ellipsis.IsValid() {
			ell = "..."
		}
		p := ""
		if len(pre) > 0 {
			p = strings.Join(pre, "; ") + "; "
		}
		return "{ " + p + rt + ".Go(" + site + ", func() { " + ftext + "(" + strings.Join(args, ", ") + ell + ") }) }"
	})
}

func (r *rewriter) selectStmt(x *ast.SelectStmt) {
	r.useRT = true
	site := r.site(x.Pos())
	r.replacePrio(x.Pos(), x.End(), 2, func() string {
		var pre []string
		var names []string
		hasDef := false
		i := 0
		for _, c := range x.Body.List {
			cc := c.(*ast.CommClause)
			if cc.Comm == nil {
				hasDef = true
				continue
			}
			n := r.fresh()
			names = append(names, n)
			switch s := cc.Comm.(type) {
			case *ast.SendStmt:
				pre = append(pre, n+" := "+rt+".SendCase("+r.text(s.Chan)+")("+r.text(s.Value)+")")
			default:
				u := recvOf(s)
				pre = append(pre, n+" := "+rt+".RecvCase("+r.text(u.X)+")")
			}
			cc2, i2, n2 := cc, i, n
			_ = cc2
			selNames[cc] = selName{i2, n2}
			i++
		}
		args := ""
		for _, n := range names {
			args += ", " + n
		}
		p := ""
		if len(pre) > 0 {
			p = strings.Join(pre, "; ") + "; "
		}
		return "{ " + p + "switch " + rt + ".Select(" + site + ", " + strconv.FormatBool(hasDef) + args + ") {" + r.render(r.off(x.Body.Lbrace)+1, r.off(x.Body.Rbrace)) + tailCase(hasDef) + "} }"
	})
	for _, c := range x.Body.List {
		cc := c.(*ast.CommClause)
		if cc.Comm == nil {
			continue // "default:" stays; Select returns -1
		}
		r.replace(cc.Case, cc.Colon+1, func() string {
			sn := selNames[cc]
			out := "case " + strconv.Itoa(sn.i) + ":"
			switch s := cc.Comm.(type) {
			case *ast.AssignStmt:
				tok := s.Tok.String()
				if len(s.Lhs) == 2 {
					out += " " + r.text(s.Lhs[0]) + ", " + r.text(s.Lhs[1]) + " " + tok + " " + sn.n + ".Val2(); "
				} else {
					out += " " + r.text(s.Lhs[0]) + " " + tok + " " + sn.n + ".Val(); "
				}
			}
			return out
		})
	}
}

func tailCase(hasDef bool) string {
	if hasDef {
		return ""
	}
	return " default: panic(\"unreachable\") "
}

type selName struct {
	i int
	n string
}

var selNames = map[*ast.CommClause]selName{}

func recvOf(s ast.Stmt) *ast.UnaryExpr {
	switch x := s.(type) {
	case *ast.ExprStmt:
		return ast.Unparen(x.X).(*ast.UnaryExpr)
	case *ast.AssignStmt:
		return ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr)
	}
	panic("select case")
}

// exprs rewrites expressions (receives, close, len/cap of channels, sleeps, short circuits) in a body and
// handles nested function literals.
func (r *rewriter) exprs(body ast.Node) {
	inSelect := map[*ast.UnaryExpr]bool{}
	comma := map[*ast.UnaryExpr]bool{}
	ast.Inspect(body, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			r.block(x.Body.List)
			return true
		case *ast.CommClause:
			if x.Comm != nil {
				if _, ok := x.Comm.(*ast.SendStmt); !ok {
					inSelect[recvOf(x.Comm)] = true
				}
			}
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				if u, ok := ast.Unparen(x.Rhs[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					comma[u] = true
				}
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				if u, ok := ast.Unparen(x.Values[0]).(*ast.UnaryExpr); ok && u.Op == token.ARROW {
					comma[u] = true
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.ARROW && !inSelect[x] {
				fn := ".Recv("
				if comma[x] {
					fn = ".Recv2("
				}
				r.useRT = true
				site := r.site(x.Pos())
				r.replace(x.Pos(), x.End(), func() string { return rt + fn + r.text(x.X) + ", " + site + ")" })
			}
		case *ast.CallExpr:
			r.call(x)
		case *ast.BinaryExpr:
			if *flagLevel >= 2 && (x.Op == token.LAND || x.Op == token.LOR) && r.exprShared(x.Y) {
				r.useRT = true
				if x.Op == token.LAND {
					r.wrap(x.Y, rt+".T("+r.site(x.Y.Pos())+") && (", ")")
				} else {
					r.wrap(x.Y, rt+".F("+r.site(x.Y.Pos())+") || (", ")")
				}
			}
		}
		return true
	})
}

func (r *rewriter) call(x *ast.CallExpr) {
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		if b, ok := r.info.Uses[f].(*types.Builtin); ok && len(x.Args) == 1 {
			t := r.info.TypeOf(x.Args[0])
			if t == nil {
				return
			}
			_, isChan := t.Underlying().(*types.Chan)
			if !isChan {
				return
			}
			switch b.Name() {
			case "close":
				r.useRT = true
				site := r.site(x.Pos())
				r.replace(x.Pos(), x.End(), func() string { return rt + ".Close(" + r.text(x.Args[0]) + ", " + site + ")" })
			case "len":
				r.useRT = true
				r.replace(x.Pos(), x.End(), func() string { return rt + ".Len(" + r.text(x.Args[0]) + ")" })
			}
		}
	case *ast.SelectorExpr:
		o, ok := r.info.Uses[f.Sel].(*types.Func)
		if !ok || o.Pkg() == nil {
			return
		}
		if o.Type().(*types.Signature).Recv() != nil {
			return
		}
		full := o.Pkg().Path() + "." + o.Name()
		repl := ""
		switch full {
		case "time.Sleep":
			repl = "Sleep"
		case "runtime.Gosched":
			repl = "Gosched"
		case "time.After":
			repl = "After"
		case "time.AfterFunc":
			repl = "AfterFunc"
		case "time.NewTimer":
			repl = "NewTimer"
		case "context.AfterFunc":
			repl = "ContextAfterFunc"
		case "context.WithTimeout":
			repl = "WithTimeout"
		case "context.WithDeadline":
			repl = "WithDeadline"
		}
		if repl != "" {
			id, _ := f.X.(*ast.Ident)
			r.useRT = true
			r.replace(f.Pos(), f.End(), func() string { return rt + "." + repl })
			if id != nil {
				switch o.Pkg().Path() {
				case "time":
					r.tail += "\nvar _ " + id.Name + ".Duration\n"
				case "runtime":
					r.tail += "\nvar _ = " + id.Name + ".GOOS\n"
				case "context":
					r.tail += "\nvar _ " + id.Name + ".Context\n"
				}
			}
		}
	}
}

// ---------------------------------------------------------------------------------------------------
// what touches shared memory?

// headerShared: do the expressions evaluated by the statement itself (not by nested blocks or function
// literals) touch memory that another goroutine could reach?
func (r *rewriter) headerShared(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.IfStmt:
		return r.stmtShared(x.Init) || r.exprShared(x.Cond)
	case *ast.ForStmt:
		return r.stmtShared(x.Init)
	case *ast.RangeStmt:
		if id, ok := holder(x.X).(*ast.Ident); ok && r.mut.alias[r.info.Uses[id]] {
			return true
		}
		return r.exprShared(x.X)
	case *ast.SwitchStmt:
		if r.stmtShared(x.Init) || r.exprShared(x.Tag) {
			return true
		}
		for _, c := range x.Body.List {
			for _, e := range c.(*ast.CaseClause).List {
				if r.exprShared(e) {
					return true
				}
			}
		}
		return false
	case *ast.TypeSwitchStmt:
		return r.stmtShared(x.Init) || r.stmtShared(x.Assign)
	default:
		return r.stmtShared(s)
	}
}

func (r *rewriter) stmtShared(s ast.Stmt) bool {
	if s == nil {
		return false
	}
	return r.nodeShared(s)
}

func (r *rewriter) exprShared(e ast.Expr) bool {
	if e == nil {
		return false
	}
	return r.nodeShared(e)
}

func (r *rewriter) nodeShared(n ast.Node) bool {
	found := false
	ast.Inspect(n, func(n ast.Node) bool {
		if found {
			return false
		}
		switch x := n.(type) {
		case *ast.FuncLit, *ast.BlockStmt:
			return false
		case *ast.KeyValueExpr:
			if r.nodeShared(x.Value) {
				found = true
			}
			return false
		case *ast.SelectorExpr:
			if s, ok := r.info.Selections[x]; ok {
				if s.Kind() == types.FieldVal {
					if r.mut.fields[fieldKey(s.Obj().(*types.Var))] && r.reachable(x, s) && !syncType(s.Type()) {
						found = true
						return false
					}
				}
				// implicit embedded fields on the way to a method: skip
				return true
			}
			if o := r.info.Uses[x.Sel]; o != nil {
				if r.sharedVar(o) {
					found = true
				}
				return false
			}
		case *ast.StarExpr:
			if tv, ok := r.info.Types[x]; ok && !tv.IsType() {
				found = true
				return false
			}
		case *ast.CallExpr:
			if r.dynamic(x) {
				found = true
				return false
			}
			if id, ok := ast.Unparen(x.Fun).(*ast.Ident); ok && id.Name == "copy" {
				if _, ok := r.info.Uses[id].(*types.Builtin); ok {
					for _, a := range x.Args {
						if r.mut.aliases(r.info, a) {
							found = true
							return false
						}
					}
				}
			}
		case *ast.IndexExpr:
			if tv, ok := r.info.Types[x.X]; ok && tv.Type != nil && !tv.IsType() {
				switch u := tv.Type.Underlying().(type) {
				case *types.Map:
					found = true
				case *types.Slice:
					_ = u
					// elements of a slice held in a local variable are private unless it shares memory with
					// something else; a slice reached through a shared holder is caught by the holder itself
					if id, ok := holder(x.X).(*ast.Ident); ok && r.mut.alias[r.info.Uses[id]] {
						found = true
						return false
					}
				}
			}
		case *ast.Ident:
			if o := r.info.Uses[x]; o != nil && r.sharedVar(o) {
				found = true
				return false
			}
		}
		return true
	})
	return found
}

// dynamic: is this a call of a function held in a variable or field?  Such functions are callbacks that may share
// memory which is not instrumented with other threads.
func (r *rewriter) dynamic(x *ast.CallExpr) bool {
	var o types.Object
	switch f := ast.Unparen(x.Fun).(type) {
	case *ast.Ident:
		o = r.info.Uses[f]
	case *ast.SelectorExpr:
		if s, ok := r.info.Selections[f]; ok {
			return s.Kind() == types.FieldVal
		}
		o = r.info.Uses[f.Sel]
	}
	_, ok := o.(*types.Var)
	return ok
}

func syncType(t types.Type) bool {
	if n, ok := t.(*types.Named); ok && n.Obj().Pkg() != nil {
		p := n.Obj().Pkg().Path()
		return p == "sync" || p == "sync/atomic"
	}
	return false
}

// reachable: could another goroutine hold the memory this field selection denotes?
func (r *rewriter) reachable(x *ast.SelectorExpr, s *types.Selection) bool {
	if s.Indirect() {
		return true
	}
	e := ast.Unparen(x.X)
	t := r.info.TypeOf(e)
	if t != nil {
		if _, ok := t.Underlying().(*types.Pointer); ok {
			return true
		}
	}
	switch y := e.(type) {
	case *ast.Ident:
		o := r.info.Uses[y]
		if o == nil {
			return false
		}
		return isGlobal(o) || r.mut.capt[o] || r.mut.addr[o]
	case *ast.SelectorExpr:
		if s2, ok := r.info.Selections[y]; ok && s2.Kind() == types.FieldVal {
			return r.reachable(y, s2)
		}
		return true
	case *ast.IndexExpr:
		return true
	case *ast.StarExpr:
		return true
	}
	return false
}

func (r *rewriter) sharedVar(o types.Object) bool {
	v, ok := o.(*types.Var)
	if !ok || v.IsField() {
		return false
	}
	if syncType(v.Type()) {
		return false
	}
	if isGlobal(v) {
		return r.mut.gvars[gvarKey(v)]
	}
	return r.mut.capt[v] && (r.mut.vars[v] > 1 || (r.mut.vars[v] == 1 && isParamOrResult(v, r)))
}

// A parameter or result has no defining assignment, so one assignment is already a mutation.  A variable
// declared without a value ("var x T") likewise; both are recognised by the absence of a counted definition.
func isParamOrResult(v *types.Var, r *rewriter) bool {
	return !r.definedWithValue(v)
}

func (r *rewriter) definedWithValue(v *types.Var) bool {
	if dv, ok := defCache[v]; ok {
		return dv
	}
	res := false
	for _, f := range r.pi.files {
		if f.Pos() <= v.Pos() && v.Pos() <= f.End() {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.AssignStmt:
					if x.Tok == token.DEFINE {
						for _, l := range x.Lhs {
							if id, ok := l.(*ast.Ident); ok && id.Pos() == v.Pos() {
								res = true
							}
						}
					}
				case *ast.ValueSpec:
					for _, id := range x.Names {
						if id.Pos() == v.Pos() && len(x.Values) > 0 {
							res = true
						}
					}
				case *ast.RangeStmt:
					if x.Tok == token.DEFINE {
						for _, e := range []ast.Expr{x.Key, x.Value} {
							if id, ok := e.(*ast.Ident); ok && id.Pos() == v.Pos() {
								res = true
							}
						}
					}
				}
				return !res
			})
		}
	}
	defCache[v] = res
	return res
}

var defCache = map[*types.Var]bool{}
