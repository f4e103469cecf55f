package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// guest prepares a package whose functions without a body are provided by a WebAssembly host, so that a harness
// can provide them: each gets a body calling a variable named after what it imports, and ZZVars lists the
// addresses of the package's variables.  It prints the overlay's pairs.
func guest(dir, out string) {
	ents, err := os.ReadDir(dir)
	if err != nil {
		fatal("%v", err)
	}
	var pairs, vars, names []string
	pkg := ""
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") || strings.HasSuffix(n, "_test.go") {
			continue
		}
		fn := filepath.Join(dir, n)
		src, err := os.ReadFile(fn)
		if err != nil {
			fatal("%v", err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, parser.ParseComments)
		if err != nil {
			fatal("%v", err)
		}
		pkg = f.Name.Name
		at := func(p token.Pos) int { return fs.Position(p).Offset }
		var hooks strings.Builder
		end := map[int]string{}
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.GenDecl:
				if x.Tok != token.VAR {
					continue
				}
				for _, s := range x.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							vars = append(vars, id.Name)
						}
					}
				}
			case *ast.FuncDecl:
				if x.Body != nil || x.Recv != nil {
					continue
				}
				what := ""
				if x.Doc != nil {
					for _, c := range x.Doc.List {
						w := strings.Fields(c.Text)
						if len(w) > 1 && (strings.HasPrefix(w[0], "//go:export") || strings.HasPrefix(w[0], "//export") || strings.HasPrefix(w[0], "//go:wasmimport")) {
							what = strings.TrimLeft(w[len(w)-1], "_")
						}
					}
				}
				if what == "" {
					fatal("%s: %s is provided by nobody", fn, x.Name.Name)
				}
				hook := "ZZ_" + what
				var types, params, args []string
				k := 0
				for _, p := range x.Type.Params.List {
					t := string(src[at(p.Type.Pos()):at(p.Type.End())])
					m := len(p.Names)
					if m == 0 {
						m = 1
					}
					for ; m > 0; m-- {
						a := "p" + strconv.Itoa(k)
						k++
						types = append(types, t)
						params = append(params, a+" "+t)
						args = append(args, a)
					}
				}
				fmt.Fprintf(&hooks, "\nvar %s func(%s)\n", hook, strings.Join(types, ", "))
				end[at(x.Pos())] = fmt.Sprintf("func %s(%s) { %s(%s) }", x.Name.Name, strings.Join(params, ", "), hook, strings.Join(args, ", "))
				end[-at(x.Pos())-1] = strconv.Itoa(at(x.End()))
				names = append(names, hook)
			}
		}
		if hooks.Len() == 0 {
			continue
		}
		var ks []int
		for k := range end {
			if k >= 0 {
				ks = append(ks, k)
			}
		}
		sort.Ints(ks)
		var b strings.Builder
		last := 0
		for _, k := range ks {
			b.Write(src[last:k])
			b.WriteString(end[k])
			last, _ = strconv.Atoi(end[-k-1])
		}
		b.Write(src[last:])
		b.WriteString(hooks.String())
		// the directives are the host's
		var keep []string
		for _, l := range strings.Split(b.String(), "\n") {
			if strings.HasPrefix(l, "//go:wasm") || strings.HasPrefix(l, "//go:export") || strings.HasPrefix(l, "//export") {
				l = "//"
			}
			keep = append(keep, l)
		}
		r := filepath.Join(out, "zz_"+n)
		if err := os.WriteFile(r, []byte(strings.Join(keep, "\n")), 0o644); err != nil {
			fatal("%v", err)
		}
		pairs = append(pairs, fn+"="+r)
	}
	sort.Strings(names)
	var b strings.Builder
	fmt.Fprintf(&b, "package %s\n\n// ZZVars are the package's variables.\nfunc ZZVars() []any {\n\treturn []any{\n", pkg)
	for _, v := range vars {
		fmt.Fprintf(&b, "\t\t&%s,\n", v)
	}
	b.WriteString("\t}\n}\n")
	r := filepath.Join(out, "zz_vars.go")
	if err := os.WriteFile(r, []byte(b.String()), 0o644); err != nil {
		fatal("%v", err)
	}
	pairs = append(pairs, filepath.Join(dir, "zz_vars.go")+"="+r)
	fmt.Println(strings.Join(pairs, ","))
}
