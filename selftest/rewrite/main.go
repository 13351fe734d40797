// rewrite changes the form of the loops of a repository without changing what they do:
//
//	rewrite DIR index     for _, v := range s  ->  for i := 0; i < len(s); i++ { v := s[i]
//	rewrite DIR rangelen  for _, v := range s  ->  for i := range len(s) { v := s[i]
//	rewrite DIR rangeint  for i := 0; i < n; i++  ->  for i := range n
//	rewrite DIR early     if c { rest } at the end of a loop body -> if !c { continue }; rest
//	rewrite DIR else      if a { return } rest -> if a { return } else { rest }
//	rewrite DIR condvar   if c {  ->  if v := c; v {
//	rewrite DIR swap      a == b  ->  b == a
//	rewrite DIR negate    if c { a } else { b }  ->  if !(c) { b } else { a }
//	rewrite DIR wrap      every function becomes a helper of a function with its name
//	rewrite DIR and       if a && b { s }  ->  if a { if b { s } }
//	rewrite DIR or        if a || b { ...; return }  ->  if a { ... } ; if b { ... }
//	rewrite DIR closure   the body of every function becomes a function literal that is called
//	rewrite DIR inner     bodies of ifs without control flow become function literals
//	rewrite DIR args      x := f(g(y))  ->  a := g(y); x := f(a)
//	rewrite DIR result    return f(x)  ->  r := f(x); return r
package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
)

type edit struct {
	off, end int
	text     string
}

func main() {
	dir, mode := os.Args[1], os.Args[2]
	ps, err := packages.Load(&packages.Config{Mode: packages.LoadAllSyntax, Dir: dir}, "./...")
	if err != nil {
		panic(err)
	}
	total := 0
	for _, p := range ps {
		for _, f := range p.Syntax {
			name := p.Fset.Position(f.Pos()).Filename
			if !strings.HasPrefix(name, dir) || strings.HasSuffix(name, "_test.go") || strings.Contains(name, "generators") {
				continue
			}
			src, err := os.ReadFile(name)
			if err != nil {
				panic(err)
			}
			off := func(n ast.Node) (int, int) {
				return p.Fset.Position(n.Pos()).Offset, p.Fset.Position(n.End()).Offset
			}
			text := func(n ast.Node) string { a, b := off(n); return string(src[a:b]) }
			var es []edit
			seq := 0
			addr := map[string]bool{}
			ast.Inspect(f, func(n ast.Node) bool {
				if l, ok := n.(*ast.LabeledStmt); ok {
					a, _ := off(l.Stmt)
					addr[fmt.Sprint(a)] = true
				}
				return true
			})
			var parents []ast.Node
			ast.Inspect(f, func(n ast.Node) bool {
				if n == nil {
					parents = parents[:len(parents)-1]
					return true
				}
				parents = append(parents, n)
				switch s := n.(type) {
				case *ast.ReturnStmt:
					if mode != "result" || len(s.Results) != 1 {
						return true
					}
					c, ok := s.Results[0].(*ast.CallExpr)
					if !ok {
						return true
					}
					if _, ok := p.TypesInfo.TypeOf(c).(*types.Tuple); ok || p.TypesInfo.Types[c.Fun].IsType() {
						return true
					}
					switch par := parents[len(parents)-2].(type) {
					case *ast.BlockStmt, *ast.CaseClause:
						_ = par
					default:
						return true
					}
					a, e := off(s)
					seq++
					es = append(es, edit{a, e, fmt.Sprintf("r_%d := %s; return r_%d", seq, text(c), seq)})
					total++
				case *ast.AssignStmt:
					if mode != "args" || len(s.Rhs) != 1 || len(parents) < 2 {
						return true
					}
					switch parents[len(parents)-2].(type) {
					case *ast.BlockStmt, *ast.CaseClause:
					default:
						return true
					}
					c, ok := s.Rhs[0].(*ast.CallExpr)
					if !ok || p.TypesInfo.Types[c.Fun].IsType() || p.TypesInfo.Types[c.Fun].IsBuiltin() {
						return true
					}
					if sel, ok := c.Fun.(*ast.SelectorExpr); ok {
						if _, ok := sel.X.(*ast.CallExpr); ok {
							return true
						}
					}
					pre := ""
					a, _ := off(s)
					for _, g := range c.Args {
						gc, ok := g.(*ast.CallExpr)
						if !ok {
							if _, ok := g.(*ast.Ident); ok {
								continue
							}
							if tv := p.TypesInfo.Types[g]; tv.Value != nil {
								continue
							}
							if _, ok := g.(*ast.SelectorExpr); ok {
								continue
							}
							break
						}
						if _, ok := p.TypesInfo.TypeOf(gc).(*types.Tuple); ok || c.Ellipsis.IsValid() {
							break
						}
						seq++
						pre += fmt.Sprintf("a_%d := %s\n", seq, text(gc))
						ga, ge := off(gc)
						es = append(es, edit{ga, ge, fmt.Sprintf("a_%d", seq)})
						break
					}
					if pre != "" {
						es = append(es, edit{a, a, pre})
						total++
					}
				case *ast.BinaryExpr:
					if mode == "swap" && (s.Op.String() == "==" || s.Op.String() == "!=") {
						a, e := off(s)
						es = append(es, edit{a, e, text(s.Y) + " " + s.Op.String() + " " + text(s.X)})
						total++
						return true
					}
				case *ast.FuncDecl:
					if mode == "closure" && s.Body != nil && s.Type.TypeParams == nil && len(s.Body.List) > 1 {
						lb, rb := p.Fset.Position(s.Body.Lbrace).Offset, p.Fset.Position(s.Body.Rbrace).Offset
						res, ret := "", ""
						if s.Type.Results != nil {
							res, ret = text(s.Type.Results), "return "
							if len(s.Type.Results.List[0].Names) > 0 && !strings.HasPrefix(res, "(") {
								res = "(" + res + ")"
							}
						}
						rec := strings.Contains(string(src[lb:rb]), "recover()")
						for _, f := range s.Type.Params.List {
							for _, n := range f.Names {
								rec = rec || strings.Contains(res, n.Name+".")
							}
						}
						if s.Type.Results != nil {
							for _, f := range s.Type.Results.List {
								for _, n := range f.Names {
									rec = rec || strings.Contains(res, n.Name+".")
								}
							}
						}
						if rec {
							return true
						}
						es = append(es, edit{lb + 1, lb + 1, fmt.Sprintf("\n%sfunc() %s {", ret, res)}, edit{rb, rb, "}()\n"})
						total++
						return true
					}
					if mode != "wrap" || s.Body == nil || s.Type.TypeParams != nil || s.Name.Name == "init" || s.Name.Name == "main" || s.Name.Name == "_" {
						return true
					}
					recv, call := "", ""
					if s.Recv != nil {
						if len(s.Recv.List[0].Names) == 0 || s.Recv.List[0].Names[0].Name == "_" {
							return true
						}
						if strings.Contains(text(s.Recv.List[0].Type), "[") {
							return true
						}
						recv = text(s.Recv) + " "
						call = s.Recv.List[0].Names[0].Name + "."
					}
					var args []string
					for _, f := range s.Type.Params.List {
						if len(f.Names) == 0 {
							return true
						}
						for _, n := range f.Names {
							if n.Name == "_" {
								return true
							}
							a := n.Name
							if _, ok := f.Type.(*ast.Ellipsis); ok {
								a += "..."
							}
							args = append(args, a)
						}
					}
					nn := s.Name.Name + "Impl_"
					ret := ""
					if s.Type.Results != nil {
						ret = "return "
					}
					a, _ := off(s.Name)
					_, e := off(s.Name)
					_, de := off(s)
					lb := p.Fset.Position(s.Body.Lbrace).Offset
					sig := string(src[e:lb])
					es = append(es, edit{a, e, nn}, edit{de, de, fmt.Sprintf("\n\nfunc %s%s%s {\n\t%s%s%s(%s)\n}\n", recv, s.Name.Name, sig, ret, call, nn, strings.Join(args, ", "))})
					total++
				case *ast.RangeStmt:
					if mode != "index" && mode != "rangelen" {
						return true
					}
					a, _ := off(s)
					if _, ok := p.TypesInfo.TypeOf(s.X).Underlying().(*types.Slice); !ok || addr[fmt.Sprint(a)] || s.Tok.String() != ":=" {
						return true
					}
					seq++
					i, l := fmt.Sprintf("i_%d", seq), fmt.Sprintf("l_%d", seq)
					if id, ok := s.Key.(*ast.Ident); ok && id.Name != "_" {
						i = id.Name
					}
					_, be := off(s.Body)
					lb := p.Fset.Position(s.Body.Lbrace).Offset
					head := fmt.Sprintf("{ %s := %s; for %s := 0; %s < len(%s); %s++ {", l, text(s.X), i, i, l, i)
					if mode == "rangelen" {
						head = fmt.Sprintf("{ %s := %s; for %s := range len(%s) {", l, text(s.X), i, l)
					}
					if v, ok := s.Value.(*ast.Ident); ok && v.Name != "_" {
						head += fmt.Sprintf(" %s := %s[%s];", v.Name, l, i)
					} else if s.Key == nil {
						return true
					}
					es = append(es, edit{a, lb + 1, head}, edit{be, be, "}"})
					total++
				case *ast.ForStmt:
					if mode != "rangeint" || s.Init == nil || s.Cond == nil || s.Post == nil {
						return true
					}
					in, ok := s.Init.(*ast.AssignStmt)
					c, ok2 := s.Cond.(*ast.BinaryExpr)
					po, ok3 := s.Post.(*ast.IncDecStmt)
					if !ok || !ok2 || !ok3 || text(in.Rhs[0]) != "0" || c.Op.String() != "<" || po.Tok.String() != "++" {
						return true
					}
					a, _ := off(s)
					lb := p.Fset.Position(s.Body.Lbrace).Offset
					es = append(es, edit{a, lb, fmt.Sprintf("for %s := range %s ", text(in.Lhs[0]), text(c.Y))})
					total++
				case *ast.IfStmt:
					if mode == "else" && s.Else == nil && len(s.Body.List) > 0 && len(parents) > 1 {
						blk, ok := parents[len(parents)-2].(*ast.BlockStmt)
						if !ok {
							return true
						}
						if _, ok := s.Body.List[len(s.Body.List)-1].(*ast.ReturnStmt); !ok {
							return true
						}
						last := blk.List[len(blk.List)-1]
						if last == ast.Stmt(s) {
							return true
						}
						if _, ok := last.(*ast.ReturnStmt); !ok {
							return true
						}
						_, e := off(s)
						_, le := off(last)
						es = append(es, edit{e, e, " else {"}, edit{le, le, "\n}"})
						total++
						return true
					}
					if b, ok := s.Cond.(*ast.BinaryExpr); ok && mode == "and" && b.Op.String() == "&&" && s.Else == nil {
						a, _ := off(b.X)
						_, xe := off(b.X)
						_, ye := off(b.Y)
						_, be := off(s.Body)
						_ = a
						es = append(es, edit{xe, xe, " { if " + text(b.Y)}, edit{xe, ye, ""}, edit{be, be, "\n}"})
						total++
						return true
					}
					if b, ok := s.Cond.(*ast.BinaryExpr); ok && mode == "or" && b.Op.String() == "||" && s.Else == nil && s.Init == nil && len(s.Body.List) > 0 {
						if _, ok := parents[len(parents)-2].(*ast.BlockStmt); !ok {
							return true
						}
						switch l := s.Body.List[len(s.Body.List)-1].(type) {
						case *ast.ReturnStmt:
						case *ast.BranchStmt:
							if l.Tok.String() != "continue" && l.Tok.String() != "break" {
								return true
							}
						default:
							return true
						}
						a, e := off(s)
						es = append(es, edit{a, e, fmt.Sprintf("if %s %s\nif %s %s", text(b.X), text(s.Body), text(b.Y), text(s.Body))})
						total++
						return true
					}
					if mode == "inner" && len(s.Body.List) > 0 {
						flow := false
						ast.Inspect(s.Body, func(n ast.Node) bool {
							switch n.(type) {
							case *ast.ReturnStmt, *ast.BranchStmt, *ast.DeferStmt, *ast.LabeledStmt:
								flow = true
							}
							return true
						})
						if flow {
							return true
						}
						lb, rb := p.Fset.Position(s.Body.Lbrace).Offset, p.Fset.Position(s.Body.Rbrace).Offset
						es = append(es, edit{lb + 1, lb + 1, "\nfunc() {"}, edit{rb, rb, "}()\n"})
						total++
						return true
					}
					if mode == "condvar" && s.Init == nil {
						a, _ := off(s.Cond)
						_, e := off(s.Cond)
						seq++
						es = append(es, edit{a, e, fmt.Sprintf("c_%d := %s; c_%d", seq, text(s.Cond), seq)})
						total++
						return true
					}
					if mode == "negate" {
						if b, ok := s.Else.(*ast.BlockStmt); ok {
							ca, ce := off(s.Cond)
							es = append(es, edit{ca, ce, "!(" + text(s.Cond) + ")"})
							ba, be := off(s.Body)
							ea, ee := off(b)
							es = append(es, edit{ba, be, text(b)}, edit{ea, ee, text(s.Body)})
							total++
							return true
						}
					}
					if mode != "early" || s.Else != nil || s.Init != nil || len(parents) < 3 {
						return true
					}
					blk, ok := parents[len(parents)-2].(*ast.BlockStmt)
					if !ok || blk.List[len(blk.List)-1] != ast.Stmt(s) {
						return true
					}
					switch parents[len(parents)-3].(type) {
					case *ast.RangeStmt, *ast.ForStmt:
					default:
						return true
					}
					a, e := off(s)
					lb := p.Fset.Position(s.Body.Lbrace).Offset
					es = append(es, edit{a, lb + 1, fmt.Sprintf("if !(%s) { continue }\n", text(s.Cond))}, edit{e - 1, e, ""})
					total++
				}
				return true
			})
			if len(es) == 0 {
				continue
			}
			sort.SliceStable(es, func(i, j int) bool { return es[i].off < es[j].off })
			var out strings.Builder
			at := 0
			for _, e := range es {
				if e.off < at {
					continue
				}
				out.Write(src[at:e.off])
				out.WriteString(e.text)
				at = e.end
			}
			out.Write(src[at:])
			if err := os.WriteFile(name, []byte(out.String()), 0o644); err != nil {
				panic(err)
			}
		}
	}
	fmt.Println(mode, total, "places in", filepath.Base(dir))
}
