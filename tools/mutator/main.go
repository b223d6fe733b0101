// Command mutator lists small changes of a Go file ("mutants"), or writes the
// file with one of them made. It serves to look for behaviour that no check
// covers; no check uses it.
//
//	mutator FILE          prints one line per mutant: number, line, kind, text
//	mutator FILE N        prints the file with mutant N
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	text     string
}

type mutant struct {
	line int
	kind string
	ed   []edit
	desc string
}

func main() {
	src, err := os.ReadFile(os.Args[1])
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, os.Args[1], src, parser.ParseComments)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	var ms []mutant
	add := func(n ast.Node, kind, desc string, ed ...edit) {
		ms = append(ms, mutant{fs.Position(n.Pos()).Line, kind, ed, strings.Join(strings.Fields(desc), " ")})
	}
	del := func(n ast.Node) edit { return edit{off(n.Pos()), off(n.End()), ""} }
	swap := map[token.Token][]string{
		token.LSS: {"<=", ">"}, token.LEQ: {"<"}, token.GTR: {">=", "<"}, token.GEQ: {">"},
		token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"},
		token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"},
	}
	isLock := func(s ast.Stmt) string {
		var c *ast.CallExpr
		switch s := s.(type) {
		case *ast.ExprStmt:
			c, _ = s.X.(*ast.CallExpr)
		case *ast.DeferStmt:
			c = s.Call
		}
		if c == nil {
			return ""
		}
		if se, ok := c.Fun.(*ast.SelectorExpr); ok {
			switch se.Sel.Name {
			case "Lock", "RLock", "Unlock", "RUnlock":
				return text(se.X) + " " + se.Sel.Name
			}
		}
		return ""
	}
	for _, d := range f.Decls {
		fn, ok := d.(*ast.FuncDecl)
		if !ok || fn.Body == nil {
			continue
		}
		// locks of the function: all calls on one mutex go together
		locks := map[string][]edit{}
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			if s, ok := n.(ast.Stmt); ok {
				if l := isLock(s); l != "" {
					k := strings.Fields(l)[0]
					locks[k] = append(locks[k], del(s))
				}
			}
			return true
		})
		for k, ed := range locks {
			add(fn, "lock", fn.Name.Name+": no "+k, ed...)
		}
		ast.Inspect(fn.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				for _, s := range n.List {
					if isLock(s) != "" {
						continue
					}
					switch s := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
						add(s, "delete", text(s), del(s))
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							add(s, "delete", text(s), del(s))
						}
					case *ast.BranchStmt:
						add(s, "delete", text(s), del(s))
					case *ast.IfStmt:
						if s.Init == nil && s.Else == nil {
							add(s, "delete-if", text(s), edit{off(s.Cond.Pos()), off(s.Cond.End()), "false && (" + text(s.Cond) + ")"})
						}
					}
				}
			case *ast.CaseClause:
				for _, s := range n.Body {
					if _, ok := s.(*ast.ReturnStmt); !ok {
						if a, ok := s.(*ast.AssignStmt); ok && a.Tok == token.DEFINE {
							continue
						}
						switch s.(type) {
						case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt:
							add(s, "delete", text(s), del(s))
						}
					}
				}
			case *ast.IfStmt:
				add(n, "negate", text(n.Cond), edit{off(n.Cond.Pos()), off(n.Cond.End()), "!(" + text(n.Cond) + ")"})
			case *ast.BinaryExpr:
				for _, t := range swap[n.Op] {
					add(n, "op", text(n)+"  with "+t, edit{off(n.OpPos), off(n.OpPos) + len(n.Op.String()), t})
				}
			case *ast.AssignStmt:
				switch n.Tok {
				case token.ADD_ASSIGN:
					add(n, "op", text(n)+"  with -=", edit{off(n.TokPos), off(n.TokPos) + 2, "-="})
					add(n, "op", text(n)+"  with =", edit{off(n.TokPos), off(n.TokPos) + 2, "="})
				case token.SUB_ASSIGN:
					add(n, "op", text(n)+"  with +=", edit{off(n.TokPos), off(n.TokPos) + 2, "+="})
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, err := strconv.Atoi(n.Value)
					if err == nil {
						add(n, "int", n.Value, edit{off(n.Pos()), off(n.End()), fmt.Sprint(v + 1)})
						if v > 0 {
							add(n, "int", n.Value, edit{off(n.Pos()), off(n.End()), fmt.Sprint(v - 1)})
						}
					}
				}
				if n.Kind == token.FLOAT {
					add(n, "float", n.Value, edit{off(n.Pos()), off(n.End()), "(" + n.Value + "*1.01)"})
				}
			case *ast.KeyValueExpr:
				if id, ok := n.Key.(*ast.Ident); ok && ast.IsExported(id.Name) || ok && id.Name != "" {
					end := off(n.End())
					for end < len(src) && src[end] != ',' && src[end] != '\n' && src[end] != '}' {
						end++
					}
					if end < len(src) && src[end] == ',' {
						end++
					}
					add(n, "field", text(n), edit{off(n.Pos()), end, ""})
				}
			case *ast.ReturnStmt:
				if len(n.Results) == 1 {
					switch text(n.Results[0]) {
					case "true":
						add(n, "return", "true", edit{off(n.Results[0].Pos()), off(n.Results[0].End()), "false"})
					case "false":
						add(n, "return", "false", edit{off(n.Results[0].Pos()), off(n.Results[0].End()), "true"})
					case "err":
						add(n, "return", "err", edit{off(n.Results[0].Pos()), off(n.Results[0].End()), "nil"})
					}
				}
			}
			return true
		})
	}
	if len(os.Args) < 3 {
		for i, m := range ms {
			d := m.desc
			if len(d) > 110 {
				d = d[:110]
			}
			fmt.Printf("%d\t%d\t%s\t%s\n", i, m.line, m.kind, d)
		}
		return
	}
	k, _ := strconv.Atoi(os.Args[2])
	out := append([]byte(nil), src...)
	ed := ms[k].ed
	for i := 1; i < len(ed); i++ {
		for j := i; j > 0 && ed[j].from > ed[j-1].from; j-- {
			ed[j], ed[j-1] = ed[j-1], ed[j]
		}
	}
	if len(ed) == 1 || ed[0].from > ed[len(ed)-1].from {
		for _, e := range ed {
			out = append(out[:e.from:e.from], append([]byte(e.text), out[e.to:]...)...)
		}
	}
	os.Stdout.Write(out)
}
