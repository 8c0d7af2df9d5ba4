package main

// Source instrumentation for schedule exploration: a scheduling point before
// every statement that can touch shared state, and read/yield/write splitting
// of compound updates. Also redirects sync/net/os imports to shims.

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"sort"
	"strings"
)

func yieldFile(name, spec string) bool {
	on := false
	for _, s := range strings.Split(spec, ",") {
		switch {
		case s == "*":
			on = true
		case s == name:
			on = true
		case s == "-"+name:
			on = false
		}
	}
	return on
}

var shimPkgs = map[string]string{"sync": "zzsync", "net": "zznet", "os": "zzos"}

type edit struct {
	off int
	end int
	s   string
}

func instrument(name string, src []byte, m Mode) ([]byte, error) {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
	if err != nil {
		return nil, err
	}
	var eds []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	if m.Shims {
		for _, im := range f.Imports {
			p := strings.Trim(im.Path.Value, `"`)
			if sh, ok := shimPkgs[p]; ok {
				nm := p
				if im.Name != nil {
					nm = im.Name.Name
				}
				eds = append(eds, edit{off(im.Pos()), off(im.End()), fmt.Sprintf("%s \"ustack/%s\"", nm, sh)})
			}
		}
	}
	if m.Yields != "" && yieldFile(name, m.Yields) {
		var stmts func(list []ast.Stmt)
		interesting := func(s ast.Stmt) bool {
			switch x := s.(type) {
			case *ast.ForStmt, *ast.RangeStmt, *ast.SelectStmt, *ast.GoStmt, *ast.SendStmt, *ast.DeferStmt:
				return true
			case *ast.DeclStmt, *ast.BranchStmt, *ast.EmptyStmt, *ast.CaseClause, *ast.CommClause:
				return false
			case *ast.IfStmt:
				return touches(x.Init) || touches(x.Cond)
			case *ast.SwitchStmt:
				return touches(x.Init) || touches(x.Tag)
			case *ast.TypeSwitchStmt:
				return touches(x.Init) || touches(x.Assign)
			case *ast.BlockStmt, *ast.LabeledStmt:
				return false
			}
			return touches(s)
		}
		stmts = func(list []ast.Stmt) {
			for _, s := range list {
				if interesting(s) {
					eds = append(eds, edit{off(s.Pos()), off(s.Pos()), "zzYield(); "})
				}
				switch x := s.(type) {
				case *ast.GoStmt:
					// one new goroutine at a time, so that replay can number them
					if r := goStart(x, txt); r != "" {
						eds = append(eds, edit{off(s.Pos()), off(s.End()), r + "; zzYield()"})
					} else {
						eds = append(eds, edit{off(s.End()), off(s.End()), "; zzYield()"})
					}
				case *ast.ExprStmt:
					if r := splitStore(x, txt); r != "" {
						eds = append(eds, edit{off(s.Pos()), off(s.End()), r})
					}
				case *ast.IncDecStmt:
					if _, id := x.X.(*ast.Ident); !id {
						op := "+"
						if x.Tok == token.DEC {
							op = "-"
						}
						eds = append(eds, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("{ zzT := %s; zzYield(); %s = zzT %s 1 }", txt(x.X), txt(x.X), op)})
					}
				case *ast.AssignStmt:
					if len(x.Lhs) == 1 && len(x.Rhs) == 1 && x.Tok != token.DEFINE {
						if _, id := x.Lhs[0].(*ast.Ident); !id {
							l, r := txt(x.Lhs[0]), txt(x.Rhs[0])
							if x.Tok != token.ASSIGN {
								op := strings.TrimSuffix(x.Tok.String(), "=")
								eds = append(eds, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("{ zzT := %s; zzYield(); %s = zzT %s (%s) }", l, l, op, r)})
							} else if be, ok := x.Rhs[0].(*ast.BinaryExpr); ok && (txt(be.X) == l || txt(be.Y) == l) {
								eds = append(eds, edit{off(s.Pos()), off(s.End()), fmt.Sprintf("{ zzT := %s; zzYield(); %s = zzT }", r, l)})
							}
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				if x.Body != nil && trivialBody(x.Body) {
					return false
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			}
			return true
		})
	}
	sort.SliceStable(eds, func(i, j int) bool {
		if eds[i].off != eds[j].off {
			return eds[i].off < eds[j].off
		}
		return eds[i].end < eds[j].end
	})
	var b strings.Builder
	pos := 0
	for _, ed := range eds {
		if ed.off < pos {
			continue // nested inside a replaced statement
		}
		b.Write(src[pos:ed.off])
		b.WriteString(ed.s)
		pos = ed.end
	}
	b.Write(src[pos:])
	return []byte(b.String()), nil
}

// goStart gives a goroutine that starts with a call of a function declared
// elsewhere a scheduling point of its own; function and arguments are evaluated
// first, as the go statement does.
func goStart(g *ast.GoStmt, txt func(ast.Node) string) string {
	switch f := g.Call.Fun.(type) {
	case *ast.FuncLit:
		return ""
	case *ast.Ident:
		switch f.Name {
		case "close", "panic", "print", "println", "delete", "copy", "recover":
			return ""
		}
	case *ast.SelectorExpr:
	default:
		return ""
	}
	r := "{ zzG := " + txt(g.Call.Fun) + "; "
	var args []string
	for i, a := range g.Call.Args {
		switch x := a.(type) {
		case *ast.BasicLit:
			args = append(args, txt(a))
			continue
		case *ast.Ident:
			if x.Name == "nil" || x.Name == "true" || x.Name == "false" {
				args = append(args, txt(a))
				continue
			}
		case *ast.CallExpr:
			if len(g.Call.Args) == 1 {
				if _, ok := x.Fun.(*ast.Ident); ok {
					return "" // may be several values
				}
			}
		}
		v := fmt.Sprintf("zzA%d", i)
		r += v + " := " + txt(a) + "; "
		if g.Call.Ellipsis.IsValid() && i == len(g.Call.Args)-1 {
			v += "..."
		}
		args = append(args, v)
	}
	return r + "go func() { zzYield(); zzG(" + strings.Join(args, ", ") + ") }() }"
}

// splitStore separates the evaluation of the stored value from an atomic store.
func splitStore(s *ast.ExprStmt, txt func(ast.Node) string) string {
	c, ok := s.X.(*ast.CallExpr)
	if !ok {
		return ""
	}
	f, ok := c.Fun.(*ast.SelectorExpr)
	if !ok || !strings.HasPrefix(f.Sel.Name, "Store") && !strings.HasPrefix(f.Sel.Name, "Swap") {
		return ""
	}
	r, n := "{ ", 0
	var args []string
	for i, a := range c.Args {
		if i == len(c.Args)-1 && hasCall(a) {
			r += "zzA := " + txt(a) + "; "
			args = append(args, "zzA")
			n++
		} else {
			args = append(args, txt(a))
		}
	}
	if n == 0 {
		return ""
	}
	return r + "zzYield(); " + txt(f) + "(" + strings.Join(args, ", ") + ") }"
}

// touches reports whether n can access anything but local variables.
func touches(n ast.Node) bool {
	if n == nil {
		return false
	}
	if s, ok := n.(ast.Stmt); ok && s == nil {
		return false
	}
	if s, ok := n.(ast.Expr); ok && s == nil {
		return false
	}
	hit := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.SelectorExpr, *ast.CallExpr, *ast.StarExpr, *ast.IndexExpr, *ast.UnaryExpr:
			hit = true
		case *ast.FuncLit:
			return false
		}
		return !hit
	})
	return hit
}

// trivialBody: getters and setters are single steps.
func trivialBody(b *ast.BlockStmt) bool {
	if len(b.List) > 2 {
		return false
	}
	for _, s := range b.List {
		switch x := s.(type) {
		case *ast.ReturnStmt:
			for _, r := range x.Results {
				if hasCall(r) {
					return false
				}
			}
		case *ast.AssignStmt:
			if hasCall(x) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func hasCall(n ast.Node) bool {
	hit := false
	ast.Inspect(n, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.CallExpr:
			hit = true
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				hit = true
			}
		case *ast.FuncLit:
			hit = true
		}
		return !hit
	})
	return hit
}
