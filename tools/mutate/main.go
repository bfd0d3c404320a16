// mutate lists or applies small changes to a Go file.
//
//	mutate list FILE        one line per mutant: number, line, kind, old => new
//	mutate apply FILE N     writes the mutant to stdout
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type edit struct {
	from, to int
	new      string
	kind     string
}

func main() {
	file := os.Args[2]
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, src, 0)
	if err != nil {
		panic(err)
	}
	var es []edit
	off := func(p token.Pos) int { return fs.Position(p).Offset }
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	add := func(n ast.Node, new, kind string) { es = append(es, edit{off(n.Pos()), off(n.End()), new, kind}) }
	op := func(p token.Pos, o, n string) {
		es = append(es, edit{off(p), off(p) + len(o), n, "op"})
	}
	swap := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}}
	isPrint := func(n ast.Node) bool { return strings.Contains(text(n), "fmt.") || strings.Contains(text(n), "os.Std") }
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec, *ast.GenDecl:
			if g, ok := n.(*ast.GenDecl); ok && g.Tok != token.VAR {
				return false
			}
		case *ast.ExprStmt:
			if isPrint(x) {
				return false
			}
			add(x, "", "del")
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				s := ""
				for i, r := range x.Rhs {
					_ = r
					if i > 0 {
						s += "; "
					}
					s += "_ = " + text(r)
				}
				add(x, s, "del")
			}
		case *ast.IncDecStmt:
			add(x, "", "del")
		case *ast.BranchStmt:
			if x.Tok == token.BREAK {
				add(x, "continue", "branch")
				add(x, "", "del")
			}
			if x.Tok == token.CONTINUE {
				add(x, "break", "branch")
				add(x, "", "del")
			}
		case *ast.IfStmt:
			c := text(x.Cond)
			add(x.Cond, "!("+c+")", "neg")
			add(x.Cond, "false && ("+c+")", "never")
			add(x.Cond, "true || ("+c+")", "always")
		case *ast.BinaryExpr:
			if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
				return true
			}
			if l, ok := x.Y.(*ast.BasicLit); ok && l.Kind == token.STRING && x.Op == token.ADD {
				return true
			}
			for _, s := range swap[x.Op] {
				op(x.OpPos, x.Op.String(), s)
			}
			if x.Op == token.LAND {
				op(x.OpPos, "&&", "||")
				add(x.X, "true", "drop")
				add(x.Y, "true", "drop")
			}
			if x.Op == token.LOR {
				op(x.OpPos, "||", "&&")
				add(x.X, "false", "drop")
				add(x.Y, "false", "drop")
			}
		case *ast.BasicLit:
			if x.Kind == token.INT {
				if v, err := strconv.Atoi(x.Value); err == nil && v < 100 {
					add(x, strconv.Itoa(v+1), "int")
					if v > 0 {
						add(x, strconv.Itoa(v-1), "int")
					}
				}
			}
		case *ast.ReturnStmt:
			if len(x.Results) == 1 {
				if t := text(x.Results[0]); t == "true" {
					add(x.Results[0], "false", "ret")
				} else if t == "false" {
					add(x.Results[0], "true", "ret")
				}
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x, text(x.X), "not")
			}
		}
		return true
	})
	if os.Args[1] == "list" {
		for i, e := range es {
			p := strings.Count(string(src[:e.from]), "\n") + 1
			fmt.Printf("%d\t%d\t%s\t%s => %s\n", i, p, e.kind, strings.Join(strings.Fields(string(src[e.from:e.to])), " "), strings.Join(strings.Fields(e.new), " "))
		}
		return
	}
	n, _ := strconv.Atoi(os.Args[3])
	e := es[n]
	fmt.Print(string(src[:e.from]) + e.new + string(src[e.to:]))
}
