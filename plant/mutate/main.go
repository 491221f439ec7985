// mutate lists small changes of Go files, one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	ID    string `json:"id"`
	File  string `json:"file"`
	Line  int    `json:"line"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Repl  string `json:"repl"`
	Desc  string `json:"desc"`
	Func  string `json:"func"`
}

var swaps = map[token.Token][]token.Token{
	token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.LSS: {token.LEQ, token.GEQ}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LEQ}, token.GEQ: {token.GTR},
	token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.ADD: {token.SUB}, token.SUB: {token.ADD}, token.MUL: {token.QUO}, token.QUO: {token.MUL},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		k := 0
		emit := func(a, b token.Pos, repl, desc string) {
			k++
			_ = enc.Encode(mutant{fmt.Sprintf("%s:%d:%d", file, fs.Position(a).Line, k), file, fs.Position(a).Line, off(a), off(b), repl, desc, fn})
		}
		isString := func(e ast.Expr) bool {
			b, ok := e.(*ast.BasicLit)
			return ok && b.Kind == token.STRING
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if ok {
				fn = fd.Name.Name
			} else {
				fn = ""
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BinaryExpr:
					for _, t := range swaps[x.Op] {
						if x.Op == token.ADD && (isString(x.X) || isString(x.Y)) {
							continue
						}
						emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), t.String(), x.Op.String()+" -> "+t.String()+" in "+text(x))
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit(x.Pos(), x.End(), text(x.X), "only "+text(x.X)+" of "+text(x))
						emit(x.Pos(), x.End(), text(x.Y), "only "+text(x.Y)+" of "+text(x))
					}
				case *ast.IfStmt:
					emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond)+")", "negated "+text(x.Cond))
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") && false", "never "+text(x.Cond))
					emit(x.Cond.Pos(), x.Cond.End(), "("+text(x.Cond)+") || true", "always "+text(x.Cond))
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							emit(x.Pos(), x.End(), fmt.Sprint(v+1), x.Value+" -> +1")
							if v > 0 {
								emit(x.Pos(), x.End(), fmt.Sprint(v-1), x.Value+" -> -1")
							}
						}
					}
					if x.Kind == token.STRING && len(x.Value) > 2 {
						if s, err := strconv.Unquote(x.Value); err == nil {
							emit(x.Pos(), x.End(), strconv.Quote(s[:len(s)-1]), "string "+x.Value+" cut")
							emit(x.Pos(), x.End(), strconv.Quote(s+" "), "string "+x.Value+" with a blank")
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit(x.Pos(), x.End(), "false", "true -> false")
					} else if x.Name == "false" {
						emit(x.Pos(), x.End(), "true", "false -> true")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit(x.Pos(), x.End(), text(x.X), "without ! "+text(x))
					}
				case *ast.IncDecStmt:
					emit(x.Pos(), x.End(), "_ = 0", "deleted "+text(x))
				case *ast.ExprStmt:
					emit(x.Pos(), x.End(), "_ = 0", "deleted "+text(x))
				case *ast.DeferStmt:
					emit(x.Pos(), x.End(), "_ = 0", "deleted "+text(x))
					emit(x.Pos(), x.Call.Pos(), "", "not deferred "+text(x))
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						s := "_ = 0"
						for _, r := range x.Rhs {
							_ = r
						}
						emit(x.Pos(), x.End(), s, "deleted "+text(x))
						if x.Tok == token.ADD_ASSIGN {
							emit(x.TokPos, x.TokPos+2, "=", "= in "+text(x))
						}
					}
				case *ast.BranchStmt:
					if x.Tok == token.CONTINUE {
						emit(x.Pos(), x.Pos()+8, "break", "continue -> break")
						emit(x.Pos(), x.End(), "_ = 0", "deleted continue")
					} else if x.Tok == token.BREAK {
						emit(x.Pos(), x.Pos()+5, "continue", "break -> continue")
						emit(x.Pos(), x.End(), "_ = 0", "deleted break")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 {
						emit(x.Pos(), x.End(), "_ = 0", "deleted return")
					}
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok && id.Name != "nil" && id.Name != "true" && id.Name != "false" {
							emit(r.Pos(), r.End(), "nil", "nil for "+id.Name+" in "+text(x))
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "low+1 in "+text(x))
					}
					if x.High != nil {
						emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "high-1 in "+text(x))
					}
				case *ast.CaseClause:
					if len(x.List) > 0 && len(x.Body) > 0 {
						emit(x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "", "empty case "+text(x.List[0]))
						if len(x.List) > 1 {
							emit(x.List[0].Pos(), x.List[1].Pos(), "", "case without "+text(x.List[0]))
							emit(x.List[0].End(), x.List[len(x.List)-1].End(), "", "case with only "+text(x.List[0]))
						}
					}
				case *ast.CallExpr:
					// f(x) -> x where that may compile
					if len(x.Args) == 1 && !x.Ellipsis.IsValid() {
						emit(x.Pos(), x.End(), text(x.Args[0]), "argument for "+text(x))
					} else if len(x.Args) > 1 {
						if id, ok := x.Fun.(*ast.SelectorExpr); ok {
							if p, ok := id.X.(*ast.Ident); ok && (p.Name == "strings" || p.Name == "filepath" || p.Name == "bytes") {
								emit(x.Pos(), x.End(), text(x.Args[0]), "first argument for "+text(x))
							}
						}
						emit(x.Args[0].Pos(), x.Args[1].End(), text(x.Args[1])+", "+text(x.Args[0]), "swapped arguments of "+text(x))
					}
				}
				return true
			})
		}
	}
}
