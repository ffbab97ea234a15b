// seams REPO SIM OUT: writes to OUT a go build overlay which puts two seams in
// the packages of the chain at REPO without changing a file there:
//
//   - process memory: every package-level variable that some function (other
//     than init) changes is listed by a generated accessor, so that the
//     simulator can give every simulated node its own copy and a restarted
//     node the values of a fresh process;
//   - the wall clock: time.Now, time.Since and time.Until read a clock the
//     simulator sets per node.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/build"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type pkg struct {
	dir, path, name string
	files           map[string]*ast.File
	src             map[string][]byte
	vars            map[string]*ast.ValueSpec
	types           map[string]bool
	mutated         map[string]bool
	clock           bool
}

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "seams:", err)
		os.Exit(2)
	}
}

func main() {
	repo, sim, out := os.Args[1], os.Args[2], os.Args[3]
	mod := "github.com/KYVENetwork/chain"
	fset := token.NewFileSet()
	pkgs := map[string]*pkg{}
	var roots []string
	for _, r := range []string{"app", "x", "util"} {
		if _, err := os.Stat(filepath.Join(repo, r)); err == nil {
			roots = append(roots, r)
		}
	}
	for _, root := range roots {
		must(filepath.Walk(filepath.Join(repo, root), func(p string, fi os.FileInfo, err error) error {
			if err != nil {
				return err
			}
			if fi.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			dir := filepath.Dir(p)
			if ok, err := build.Default.MatchFile(dir, filepath.Base(p)); err != nil || !ok {
				return nil
			}
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			f, err := parser.ParseFile(fset, p, b, parser.ParseComments)
			if err != nil {
				return nil // the compiler reports it
			}
			rel, _ := filepath.Rel(repo, dir)
			k := pkgs[dir]
			if k == nil {
				k = &pkg{dir: dir, path: mod + "/" + filepath.ToSlash(rel), name: f.Name.Name, files: map[string]*ast.File{}, src: map[string][]byte{},
					vars: map[string]*ast.ValueSpec{}, types: map[string]bool{}, mutated: map[string]bool{}}
				pkgs[dir] = k
			}
			if f.Name.Name == "main" || f.Name.Name != k.name {
				return nil
			}
			k.files[p], k.src[p] = f, b
			return nil
		}))
	}
	byPath := map[string]*pkg{}
	for _, k := range pkgs {
		byPath[k.path] = k
		for p, f := range k.files {
			gen := strings.HasSuffix(p, ".pb.go") || strings.HasSuffix(p, ".pb.gw.go")
			for _, d := range f.Decls {
				g, ok := d.(*ast.GenDecl)
				if !ok {
					continue
				}
				for _, s := range g.Specs {
					switch s := s.(type) {
					case *ast.ValueSpec:
						if g.Tok != token.VAR || gen {
							continue
						}
						for _, n := range s.Names {
							if n.Name != "_" {
								k.vars[n.Name] = s
							}
						}
					case *ast.TypeSpec:
						k.types[s.Name.Name] = true
					}
				}
			}
		}
	}
	for _, k := range pkgs {
		for _, f := range k.files {
			k.scan(f, byPath)
		}
		// empty maps and the like are there to be filled
		for v, s := range k.vars {
			if _, ok := s.Type.(*ast.MapType); ok && len(s.Values) == 0 {
				k.mutated[v] = true
			}
			for i, n := range s.Names {
				if n.Name != v || i >= len(s.Values) {
					continue
				}
				switch x := s.Values[i].(type) {
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" {
						k.mutated[v] = true
					}
				case *ast.CompositeLit:
					if _, ok := x.Type.(*ast.MapType); ok && len(x.Elts) == 0 {
						k.mutated[v] = true
					}
				}
			}
		}
	}

	must(os.MkdirAll(out, 0o755))
	replace := map[string]string{}
	write := func(target, name string, b []byte) {
		p := filepath.Join(out, name)
		if old, err := os.ReadFile(p); err != nil || string(old) != string(b) {
			must(os.WriteFile(p, b, 0o644))
		}
		replace[target] = p
	}
	var dirs []string
	for d := range pkgs {
		dirs = append(dirs, d)
	}
	sort.Strings(dirs)
	imports, body := "", ""
	n := 0
	for _, d := range dirs {
		k := pkgs[d]
		id := strings.NewReplacer("/", "_", ".", "_").Replace(strings.TrimPrefix(k.path, mod+"/"))
		for p := range k.files {
			if b, ok := k.rewrite(fset, p); ok {
				k.clock = true
				write(p, "clock_"+id+"_"+filepath.Base(p), b)
			}
		}
		var names []string
		for v := range k.mutated {
			names = append(names, v)
		}
		sort.Strings(names)
		if len(names) == 0 && !k.clock {
			continue
		}
		g := "package " + k.name + "\n\n"
		if k.clock {
			g += "import zzverifstdtime \"time\"\n\n// ZZVerifNow is the wall clock of the simulated node.\nvar ZZVerifNow = zzverifstdtime.Now\n\n"
			body += fmt.Sprintf("\tclocks = append(clocks, func(f func() time.Time) { p%d.ZZVerifNow = f })\n", n)
		}
		if len(names) > 0 {
			g += "// ZZVerifGlobals lists the variables functions of this package change.\nfunc ZZVerifGlobals() []interface{} {\n\treturn []interface{}{"
			for _, v := range names {
				g += "&" + v + ", "
				body += fmt.Sprintf("\tglobalNames = append(globalNames, %q)\n", k.path+"."+v)
			}
			g += "}\n}\n"
			body += fmt.Sprintf("\tglobals = append(globals, p%d.ZZVerifGlobals()...)\n", n)
		}
		imports += fmt.Sprintf("\tp%d %q\n", n, k.path)
		write(filepath.Join(d, "zz_verif_seams.go"), "seams_"+id+".go", []byte(g))
		n++
	}
	g := "package main\n\nimport (\n\t\"time\"\n\n" + imports + ")\n\nvar _ time.Time\n\nfunc init() {\n" + body + "}\n"
	write(filepath.Join(sim, "zz_seams.go"), "sim.go", []byte(g))
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": replace}, "", " ")
	must(err)
	must(os.WriteFile(filepath.Join(out, "overlay.json"), b, 0o644))
}

// scan marks the variables functions of the file change.
func (k *pkg) scan(f *ast.File, byPath map[string]*pkg) {
	imps := map[string]*pkg{}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		o := byPath[p]
		if o == nil {
			continue
		}
		name := o.name
		if im.Name != nil {
			name = im.Name.Name
		}
		imps[name] = o
	}
	// hit marks the variable at the root of e
	var hit func(e ast.Expr)
	hit = func(e ast.Expr) {
		switch e := e.(type) {
		case *ast.Ident:
			s := k.vars[e.Name]
			if s == nil {
				return
			}
			if e.Obj != nil { // resolved in this file: is it the package's?
				if d, ok := e.Obj.Decl.(*ast.ValueSpec); !ok || d != s {
					return
				}
			}
			k.mutated[e.Name] = true
		case *ast.SelectorExpr:
			if x, ok := e.X.(*ast.Ident); ok && x.Obj == nil {
				if o := imps[x.Name]; o != nil {
					if o.vars[e.Sel.Name] != nil {
						o.mutated[e.Sel.Name] = true
					}
					return
				}
			}
			hit(e.X)
		case *ast.IndexExpr:
			hit(e.X)
		case *ast.SliceExpr:
			hit(e.X)
		case *ast.StarExpr:
			hit(e.X)
		case *ast.ParenExpr:
			hit(e.X)
		}
	}
	// stateful: a variable whose methods may change it
	stateful := func(o *pkg, name string) bool {
		s := o.vars[name]
		if s == nil {
			return false
		}
		r := false
		look := func(x ast.Node) {
			ast.Inspect(x, func(y ast.Node) bool {
				switch y := y.(type) {
				case *ast.SelectorExpr:
					if p, ok := y.X.(*ast.Ident); ok && (p.Name == "sync" || p.Name == "atomic" || p.Name == "lru" || p.Name == "cache" || p.Name == "list" || p.Name == "heap" || p.Name == "rand" || p.Name == "big" || p.Name == "bytes") {
						r = true
					}
				case *ast.Ident:
					if o.types[y.Name] {
						r = true
					}
				case *ast.FuncLit:
					return false
				}
				return true
			})
		}
		if s.Type != nil {
			look(s.Type)
		}
		for i, n := range s.Names {
			if n.Name == name && i < len(s.Values) {
				look(s.Values[i])
				if c, ok := s.Values[i].(*ast.CallExpr); ok {
					if id, ok := c.Fun.(*ast.Ident); ok && id.Name != "make" && id.Name != "new" {
						r = true // made by a function of the package
					}
				}
			}
		}
		return r
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil || fn.Recv == nil && fn.Name.Name == "init" {
			continue
		}
		ast.Inspect(fn.Body, func(x ast.Node) bool {
			switch x := x.(type) {
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					for _, l := range x.Lhs {
						hit(l)
					}
				}
			case *ast.IncDecStmt:
				hit(x.X)
			case *ast.RangeStmt:
				if x.Tok == token.ASSIGN {
					hit(x.Key)
					if x.Value != nil {
						hit(x.Value)
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.AND {
					if _, lit := x.X.(*ast.CompositeLit); !lit {
						hit(x.X)
					}
				}
			case *ast.CallExpr:
				switch c := x.Fun.(type) {
				case *ast.Ident:
					if (c.Name == "delete" || c.Name == "clear" || c.Name == "copy") && len(x.Args) > 0 {
						hit(x.Args[0])
					}
				case *ast.SelectorExpr:
					switch r := c.X.(type) {
					case *ast.Ident:
						if stateful(k, r.Name) {
							hit(r)
						}
					case *ast.SelectorExpr:
						if p, ok := r.X.(*ast.Ident); ok && p.Obj == nil {
							if o := imps[p.Name]; o != nil && stateful(o, r.Sel.Name) {
								hit(r)
							}
						}
						// v.field.Method()
						root := ast.Expr(r)
						for {
							s, ok := root.(*ast.SelectorExpr)
							if !ok {
								break
							}
							root = s.X
						}
						if id, ok := root.(*ast.Ident); ok && stateful(k, id.Name) {
							hit(id)
						}
					}
				}
			}
			return true
		})
	}
}

// rewrite replaces the uses of the wall clock in a file.
func (k *pkg) rewrite(fset *token.FileSet, p string) ([]byte, bool) {
	f := k.files[p]
	name := ""
	for _, im := range f.Imports {
		if im.Path.Value == `"time"` {
			name = "time"
			if im.Name != nil {
				name = im.Name.Name
			}
		}
	}
	if name == "" || name == "_" || name == "." {
		return nil, false
	}
	type edit struct {
		from, to int
		s        string
	}
	var l []edit
	ast.Inspect(f, func(x ast.Node) bool {
		s, ok := x.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		id, ok := s.X.(*ast.Ident)
		if !ok || id.Name != name || id.Obj != nil {
			return true
		}
		r := map[string]string{
			"Now":   "ZZVerifNow()",
			"Since": "func(zzt " + name + ".Time) " + name + ".Duration { return ZZVerifNow().Sub(zzt) }",
			"Until": "func(zzt " + name + ".Time) " + name + ".Duration { return zzt.Sub(ZZVerifNow()) }",
		}[s.Sel.Name]
		if r == "" {
			return true
		}
		from, to := fset.Position(s.Pos()).Offset, fset.Position(s.End()).Offset
		if s.Sel.Name == "Now" {
			// also as a value: time.Now without a call
			r = "(func() " + name + ".Time { return ZZVerifNow() })"
		} else {
			r = "(" + r + ")"
		}
		l = append(l, edit{from, to, r})
		return true
	})
	if len(l) == 0 {
		return nil, false
	}
	sort.Slice(l, func(i, j int) bool { return l[i].from > l[j].from })
	b := append([]byte{}, k.src[p]...)
	for _, e := range l {
		b = append(b[:e.from:e.from], append([]byte(e.s), b[e.to:]...)...)
	}
	return b, true
}
