//go:build ignore

// mutants lists small changes of Go source files as JSON lines: go run mutants.go FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type M struct {
	File       string `json:"file"`
	Start, End int
	New        string
	Op         string
	Line       int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		put := func(start, end token.Pos, s, op string) {
			enc.Encode(M{file, off(start), off(end), s, op, fset.Position(start).Line})
		}
		swap := map[token.Token][]string{
			token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.BinaryExpr:
				for _, s := range swap[x.Op] {
					put(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), s, x.Op.String()+" -> "+s)
				}
			case *ast.IfStmt:
				c := text(x.Cond)
				if x.Init == nil || true {
					put(x.Cond.Pos(), x.Cond.End(), "("+c+") && len(os.Args) < 0", "if false")
					put(x.Cond.Pos(), x.Cond.End(), "("+c+") || len(os.Args) >= 0", "if true")
				}
			case *ast.ForStmt:
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.SendStmt:
						put(s.Pos(), s.End(), "", "delete "+text(s))
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE {
							put(s.Pos(), s.End(), "", "delete "+text(s))
						}
					case *ast.BranchStmt:
						put(s.Pos(), s.End(), "", "delete "+text(s))
					}
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					switch s.(type) {
					case *ast.ExprStmt, *ast.AssignStmt:
						put(s.Pos(), s.End(), "", "delete "+text(s))
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 2 {
					if id, ok := x.Results[1].(*ast.Ident); ok && id.Name == "err" {
						put(id.Pos(), id.End(), "nil", "return nil error")
						put(x.Results[0].Pos(), x.Results[0].End(), "Null", "return Null, err")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.Atoi(x.Value); err == nil {
						put(x.Pos(), x.End(), strconv.Itoa(v+1), x.Value+" -> +1")
						if v > 0 {
							put(x.Pos(), x.End(), strconv.Itoa(v-1), x.Value+" -> -1")
						}
					}
				}
				if x.Kind == token.CHAR {
					put(x.Pos(), x.End(), "'\\x01'", "char")
				}
			case *ast.Ident:
				if x.Name == "true" {
					put(x.Pos(), x.End(), "false", "true -> false")
				}
				if x.Name == "false" {
					put(x.Pos(), x.End(), "true", "false -> true")
				}
				for _, p := range [][2]string{{"STRICT", "EQUAL"}, {"EQUAL", "EQUALP"}, {"EQUALP", "EQUAL"}} {
					if x.Name == p[0] {
						put(x.Pos(), x.End(), p[1], x.Name+" -> "+p[1])
					}
				}
			case *ast.CallExpr:
				if len(x.Args) >= 2 {
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := text(x.Args[i]), text(x.Args[i+1])
						if a != b && a != "ctx" && b != "w" {
							put(x.Args[i].Pos(), x.Args[i+1].End(), b+", "+a, "swap arguments "+a+" "+b)
						}
					}
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					put(x.OpPos, x.OpPos+1, "", "drop !")
				}
			}
			return true
		})
		_ = fmt.Sprint
	}
}
