package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the resolved program under analysis: the type-checked syntax and the
// SSA form of every package of the repository's current working tree.
type Program struct {
	Dir   string
	Mod   string
	Pkgs  []*packages.Package // repository packages
	SSA   *ssa.Program
	Fset  *token.FileSet
	byPkg map[string]*packages.Package
	built map[*ssa.Package]bool
	decls map[*types.Func]*ast.FuncDecl
	files map[*types.Func]*packages.Package
}

// Load loads the program from dir with the build's own Go tool chain.
func Load(dir string) (*Program, error) {
	env := []string{}
	for _, e := range os.Environ() {
		k := strings.SplitN(e, "=", 2)[0]
		switch k {
		case "GOFLAGS", "GOPROXY", "GOWORK", "GOROOT", "GOTOOLCHAIN", "CGO_ENABLED", "PATH":
			continue
		}
		env = append(env, e)
	}
	goroot := "/opt/veriftools/go1.24.13"
	path := os.Getenv("PATH")
	if _, err := os.Stat(filepath.Join(goroot, "bin", "go")); err == nil {
		env = append(env, "GOROOT="+goroot, "PATH="+goroot+"/bin:"+path)
	} else {
		env = append(env, "PATH="+path)
	}
	env = append(env, "GOFLAGS=", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	cfg := &packages.Config{
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        dir,
		BuildFlags: []string{"-mod=readonly"},
		Env:        env,
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	if o := plainLoops(pkgs); len(o) > 0 {
		cfg.Overlay = o
		again, err := packages.Load(cfg, "./...")
		if err != nil {
			return nil, err
		}
		ok := true
		for _, p := range again {
			ok = ok && len(p.Errors) == 0
		}
		if ok {
			pkgs = again
		}
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check: %s", strings.Join(errs, "; "))
	}
	if len(pkgs) == 0 {
		return nil, fmt.Errorf("no packages loaded")
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Program{
		Dir: dir, Pkgs: pkgs, SSA: prog, Fset: prog.Fset,
		byPkg: map[string]*packages.Package{}, built: map[*ssa.Package]bool{},
		decls: map[*types.Func]*ast.FuncDecl{}, files: map[*types.Func]*packages.Package{},
	}
	P.Mod = pkgs[0].Module.Path
	for _, p := range pkgs {
		P.byPkg[p.PkgPath] = p
		if sp := prog.Package(p.Types); sp != nil {
			sp.Build()
			P.built[sp] = true
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok {
					if o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func); ok {
						P.decls[o] = fd
						P.files[o] = p
					}
				}
			}
		}
	}
	for _, n := range []string{"slices", "maps", "net/url"} {
		if sp := prog.ImportedPackage(n); sp != nil {
			sp.Build()
			P.built[sp] = true
		}
	}
	return P, nil
}

// Pkg returns the repository package with the given path relative to the module ("" is the root).
func (P *Program) Pkg(rel string) *packages.Package {
	if rel == "" {
		return P.byPkg[P.Mod]
	}
	return P.byPkg[P.Mod+"/"+rel]
}

// SSAPkg returns the SSA package for rel.
func (P *Program) SSAPkg(rel string) *ssa.Package {
	p := P.Pkg(rel)
	if p == nil {
		return nil
	}
	return P.SSA.Package(p.Types)
}

// IsRepo reports whether fn's code belongs to the analysed repository.
func (P *Program) IsRepo(fn *ssa.Function) bool {
	return strings.HasPrefix(fnPkgPath(fn), P.Mod)
}

func fnPkgPath(fn *ssa.Function) string {
	if fn == nil {
		return ""
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	for fn.Parent() != nil {
		fn = fn.Parent()
		if o := fn.Origin(); o != nil {
			fn = o
		}
	}
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

// fnName is a stable, readable name: "pkg.Func" or "pkg.Type.Method", with the module path
// of the repository shortened away and generic instances folded onto their origin.
func (P *Program) fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if fn.Parent() != nil {
		return P.fnName(fn.Parent()) + "$" + strings.TrimPrefix(fn.Name(), fn.Parent().Name()+"$")
	}
	if o, ok := fn.Object().(*types.Func); ok && o != nil {
		return P.objName(o)
	}
	return fnPkgPath(fn) + "." + fn.Name()
}

func (P *Program) objName(o *types.Func) string {
	o = o.Origin()
	path := ""
	if o.Pkg() != nil {
		path = o.Pkg().Path()
	}
	path = P.short(path)
	sig := o.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		t := r.Type()
		if p, ok := t.(*types.Pointer); ok {
			t = p.Elem()
		}
		switch n := t.(type) {
		case *types.Named:
			return path + "." + n.Obj().Name() + "." + o.Name()
		default:
			return path + ".?." + o.Name()
		}
	}
	return path + "." + o.Name()
}

func (P *Program) short(path string) string {
	if path == P.Mod {
		return "oidfed"
	}
	if strings.HasPrefix(path, P.Mod+"/") {
		return strings.TrimPrefix(path, P.Mod+"/")
	}
	return path
}

// Func resolves "rel:Name" or "rel:Type.Name" (either receiver kind).
func (P *Program) Func(rel, name string) *ssa.Function {
	sp := P.SSAPkg(rel)
	if sp == nil {
		return nil
	}
	if i := strings.IndexByte(name, '.'); i >= 0 {
		tn, mn := name[:i], name[i+1:]
		o := sp.Pkg.Scope().Lookup(tn)
		if o == nil {
			return nil
		}
		t, ok := o.Type().(*types.Named)
		if !ok {
			return nil
		}
		for i := 0; i < t.NumMethods(); i++ {
			if t.Method(i).Name() == mn {
				return P.SSA.FuncValue(t.Method(i))
			}
		}
		return nil
	}
	return sp.Func(name)
}

// Named returns the named type rel.name.
func (P *Program) Named(rel, name string) *types.Named {
	p := P.Pkg(rel)
	if p == nil {
		return nil
	}
	o := p.Types.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	n, _ := o.Type().(*types.Named)
	return n
}

// Pos renders a position relative to the repository.
func (P *Program) Pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := P.Fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(P.Dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// RepoFuncs returns every function of the repository with a body, including methods and closures.
func (P *Program) RepoFuncs() []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || seen[f] || f.Blocks == nil {
			return
		}
		seen[f] = true
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range P.Pkgs {
		sp := P.SSA.Package(p.Types)
		if sp == nil {
			continue
		}
		for _, m := range sp.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				if n, ok := m.Type().(*types.Named); ok {
					for i := 0; i < n.NumMethods(); i++ {
						add(P.SSA.FuncValue(n.Method(i)))
					}
				}
			}
		}
	}
	sort.Slice(out, func(i, j int) bool {
		if out[i].Pos() != out[j].Pos() {
			return out[i].Pos() < out[j].Pos()
		}
		return out[i].Name() < out[j].Name()
	})
	return out
}

// plainLoops rewrites loops over integers as loops with a condition ahead of the body, so that
// there is one form of counting loops to analyse. It returns the contents of the files concerned.
func plainLoops(pkgs []*packages.Package) map[string][]byte {
	out := map[string][]byte{}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil
		}
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.FileStart).Filename
			off := func(x token.Pos) int { return p.Fset.PositionFor(x, false).Offset }
			type edit struct {
				from, to int
				text     string
			}
			var es []edit
			var src []byte
			labelled := map[ast.Stmt]bool{}
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.LabeledStmt); ok {
					labelled[l.Stmt] = true
				}
				s, ok := n.(*ast.RangeStmt)
				if !ok || s.Value != nil || s.Key != nil && s.Tok != token.DEFINE {
					return true
				}
				t, ok := p.TypesInfo.TypeOf(s.X).Underlying().(*types.Basic)
				if !ok || t.Info()&types.IsInteger == 0 {
					return true
				}
				if src == nil {
					var err error
					if src, err = os.ReadFile(name); err != nil {
						return false
					}
				}
				var key types.Object
				i, n0 := fmt.Sprintf("i_%d_", off(s.For)), fmt.Sprintf("n_%d_", off(s.For))
				head := ""
				if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
					key = p.TypesInfo.Defs[id]
					if key == nil || !types.Identical(key.Type(), types.Typ[types.Int]) {
						return true
					}
					if variable(p.TypesInfo, s.Body, key) {
						head = fmt.Sprintf(" %s := %s;", id.Name, i)
					} else {
						i = id.Name
					}
				} else if t.Kind() != types.Int && t.Kind() != types.UntypedInt {
					return true
				}
				x := string(src[off(s.X.Pos()):off(s.X.End())])
				pre, post := "", ""
				if tv := p.TypesInfo.Types[s.X]; tv.Value == nil && !steady(p.TypesInfo, s.X, s.Body) {
					if labelled[s] {
						return true
					}
					pre, post = fmt.Sprintf("{ %s := %s; ", n0, x), "}"
					x = n0
				}
				es = append(es, edit{off(s.For), off(s.Body.Lbrace) + 1, fmt.Sprintf("%sfor %s := 0; %s < %s; %s++ {%s", pre, i, i, x, i, head)})
				if post != "" {
					es = append(es, edit{off(s.Body.Rbrace) + 1, off(s.Body.Rbrace) + 1, post})
				}
				return true
			})
			if len(es) == 0 || src == nil {
				continue
			}
			sort.SliceStable(es, func(i, j int) bool { return es[i].from < es[j].from })
			var b strings.Builder
			at := 0
			for _, e := range es {
				if e.from < at {
					continue
				}
				b.Write(src[at:e.from])
				b.WriteString(e.text)
				// the lines stay where they are
				b.WriteString(strings.Repeat("\n", strings.Count(string(src[e.from:e.to]), "\n")))
				at = e.to
			}
			b.Write(src[at:])
			out[name] = []byte(b.String())
		}
	}
	return out
}

// variable reports whether the body changes the variable, takes its address or captures it.
func variable(info *types.Info, body ast.Node, o types.Object) bool {
	found := false
	is := func(e ast.Expr) bool {
		id, ok := ast.Unparen(e).(*ast.Ident)
		return ok && info.Uses[id] == o
	}
	ast.Inspect(body, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			for _, l := range n.Lhs {
				found = found || is(l)
			}
		case *ast.IncDecStmt:
			found = found || is(n.X)
		case *ast.UnaryExpr:
			found = found || n.Op == token.AND && is(n.X)
		case *ast.RangeStmt:
			found = found || n.Key != nil && is(n.Key) || n.Value != nil && is(n.Value)
		case *ast.FuncLit:
			ast.Inspect(n, func(m ast.Node) bool {
				if id, ok := m.(*ast.Ident); ok && info.Uses[id] == o {
					found = true
				}
				return true
			})
		}
		return true
	})
	return found
}

// steady reports whether the number e stays the same while the body runs: a local variable or the
// length of one that is not changed.
func steady(info *types.Info, e ast.Expr, body ast.Node) bool {
	e = ast.Unparen(e)
	if c, ok := e.(*ast.CallExpr); ok && len(c.Args) == 1 {
		if b, ok := ast.Unparen(c.Fun).(*ast.Ident); ok {
			if _, ok := info.Uses[b].(*types.Builtin); ok && b.Name == "len" {
				e = ast.Unparen(c.Args[0])
			}
		}
	}
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	v, ok := info.Uses[id].(*types.Var)
	return ok && !v.IsField() && v.Parent() != v.Pkg().Scope() && !variable(info, body, v)
}
