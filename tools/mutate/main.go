// Mutate lists small changes to Go source files: one JSON object a line with
// the file, the byte range and its replacement.
//
//	go run main.go FILE...
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Kind  string `json:"kind"`
}

var swap = map[token.Token][]string{
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"},
}

var swapAssign = map[token.Token]string{
	token.ADD_ASSIGN: "-=", token.SUB_ASSIGN: "+=", token.MUL_ASSIGN: "+=", token.SHL_ASSIGN: ">>=", token.SHR_ASSIGN: "<<=",
	token.OR_ASSIGN: "&=", token.AND_ASSIGN: "|=",
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		name := ""
		emit := func(kind string, a, b int, s string) {
			enc.Encode(mutant{fn, fs.Position(fs.File(f.Pos()).Pos(a)).Line, name, a, b, s, string(src[a:b]), kind})
		}
		cond := func(e ast.Expr) {
			a, b := off(e.Pos()), off(e.End())
			emit("true", a, b, "("+string(src[a:b])+") || true")
			emit("false", a, b, "("+string(src[a:b])+") && false")
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			name = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.BinaryExpr:
					for _, s := range swap[n.Op] {
						a := off(n.OpPos)
						emit("op", a, a+len(n.Op.String()), s)
					}
				case *ast.AssignStmt:
					if s := swapAssign[n.Tok]; s != "" {
						a := off(n.TokPos)
						emit("assign", a, a+len(n.Tok.String()), s)
					}
					if n.Tok == token.ASSIGN || n.Tok != token.DEFINE {
						// drop the statement, keeping its variables used
						a, b := off(n.Pos()), off(n.End())
						emit("drop", a, b, "if false { "+string(src[a:b])+" }")
					}
				case *ast.IncDecStmt:
					a := off(n.TokPos)
					s := "--"
					if n.Tok == token.DEC {
						s = "++"
					}
					emit("incdec", a, a+2, s)
				case *ast.ExprStmt:
					a, b := off(n.Pos()), off(n.End())
					emit("dropcall", a, b, "if false { "+string(src[a:b])+" }")
				case *ast.DeferStmt:
					a, b := off(n.Pos()), off(n.End())
					emit("dropdefer", a, b, "if false { "+string(src[a:b])+" }")
				case *ast.GoStmt:
					a := off(n.Pos())
					emit("nogo", a, a+2, "")
				case *ast.IfStmt:
					cond(n.Cond)
				case *ast.ForStmt:
				case *ast.BranchStmt:
					if n.Label == nil {
						a, b := off(n.Pos()), off(n.End())
						switch n.Tok {
						case token.CONTINUE:
							emit("branch", a, b, "break")
							emit("branch", a, b, "if false { continue }")
						case token.BREAK:
							emit("branch", a, b, "if false { break }")
						}
					}
				case *ast.BasicLit:
					a, b := off(n.Pos()), off(n.End())
					if n.Kind == token.INT {
						v, err := strconv.ParseInt(n.Value, 0, 64)
						if err == nil {
							emit("const", a, b, fmt.Sprint(v+1))
							if v > 0 {
								emit("const", a, b, fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if n.Name == "true" || n.Name == "false" {
						a, b := off(n.Pos()), off(n.End())
						s := "false"
						if n.Name == "false" {
							s = "true"
						}
						emit("bool", a, b, s)
					}
				case *ast.UnaryExpr:
					if n.Op == token.NOT || n.Op == token.SUB {
						a := off(n.OpPos)
						emit("unary", a, a+1, "")
					}
				case *ast.ReturnStmt:
					for _, r := range n.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
							emit("noerr", off(id.Pos()), off(id.End()), "nil")
						}
					}
				}
				return true
			})
		}
	}
}
