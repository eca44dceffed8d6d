// Command mutate lists small changes to the Go files given: one JSON object
// {file, line, func, what, start, end, text} per line, where text replaces the
// bytes start..end of file.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	What  string `json:"what"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
}

var swaps = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
	token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
	token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.AND_NOT: {"&"},
}

func main() {
	root := os.Args[1]
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, f := range os.Args[2:] {
		fset := token.NewFileSet()
		src, err := os.ReadFile(filepath.Join(root, f))
		if err != nil {
			panic(err)
		}
		file, err := parser.ParseFile(fset, f, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(n ast.Node, start, end token.Pos, what, text string) {
			enc.Encode(mutant{f, fset.Position(n.Pos()).Line, fn, what, off(start), off(end), text})
		}
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		var visit func(n ast.Node) bool
		visit = func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				for _, op := range swaps[x.Op] {
					emit(x, x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), fmt.Sprintf("%s: %s -> %s", txt(x), x.Op, op), op)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit(x, x.Pos(), x.End(), txt(x)+": left only", txt(x.X))
					emit(x, x.Pos(), x.End(), txt(x)+": right only", txt(x.Y))
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x, x.Pos(), x.End(), txt(x)+": drop !", txt(x.X))
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
						emit(x, x.Pos(), x.End(), x.Value+" +1", fmt.Sprint(v+1))
						if v > 0 {
							emit(x, x.Pos(), x.End(), x.Value+" -1", fmt.Sprint(v-1))
						}
					}
				}
			case *ast.CallExpr:
				// messages of errors are not behaviour
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "Errorf" || (s.Sel.Name == "New" && txt(s.X) == "errors")) {
					return false
				}
				if s, ok := x.Fun.(*ast.SelectorExpr); ok && (s.Sel.Name == "ReadFull" || s.Sel.Name == "ReadAtLeast") && len(x.Args) >= 2 {
					emit(x, x.Pos(), x.End(), txt(x)+" -> Read", txt(x.Args[0])+".Read("+txt(x.Args[1])+")")
				}
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
					switch id.Name {
					case "int", "int64", "uint64", "uint32":
						for _, t := range []string{"int32", "uint32", "int16", "uint16"} {
							if t != id.Name {
								emit(x, x.Pos(), x.End(), txt(x)+" through "+t, id.Name+"("+t+"("+txt(x.Args[0])+"))")
							}
						}
					case "noEOF":
						emit(x, x.Pos(), x.End(), txt(x)+" -> arg", txt(x.Args[0]))
					case "pad", "pad64":
						emit(x, x.Pos(), x.End(), txt(x)+" -> arg", txt(x.Args[0]))
					}
				}
			case *ast.IfStmt:
				emit(x, x.Cond.Pos(), x.Cond.End(), "if "+txt(x.Cond)+" -> false", "("+txt(x.Cond)+") && false")
				emit(x, x.Cond.Pos(), x.Cond.End(), "if "+txt(x.Cond)+" -> true", "("+txt(x.Cond)+") || true")
			case *ast.CaseClause:
				if len(x.List) > 1 {
					for i := range x.List {
						var s string
						for j, e := range x.List {
							if j != i {
								if s != "" {
									s += ", "
								}
								s += txt(e)
							}
						}
						emit(x, x.List[0].Pos(), x.List[len(x.List)-1].End(), "case without "+txt(x.List[i]), s)
					}
				}
			case *ast.BlockStmt:
				for _, st := range x.List {
					switch s := st.(type) {
					case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.GoStmt, *ast.BranchStmt:
						emit(s, s.Pos(), s.End(), "delete "+txt(s), "")
					case *ast.AssignStmt:
						if s.Tok != token.DEFINE {
							emit(s, s.Pos(), s.End(), "delete "+txt(s), "")
						}
					case *ast.ForStmt, *ast.RangeStmt:
						emit(s, s.Pos(), s.Pos(), "loop not run: line "+strconv.Itoa(fset.Position(s.Pos()).Line), "if false ")
					case *ast.IfStmt:
						if s.Else == nil {
							emit(s, s.Pos(), s.End(), "delete if "+txt(s.Cond), "")
						}
					}
				}
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && id.Name == "err" {
						emit(x, r.Pos(), r.End(), txt(x)+": nil error", "nil")
					}
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						t := "true"
						if id.Name == "true" {
							t = "false"
						}
						emit(x, r.Pos(), r.End(), txt(x)+" -> "+t, t)
					}
				}
			case *ast.SliceExpr:
				if x.High != nil {
					emit(x, x.High.Pos(), x.High.End(), txt(x)+": high-1", txt(x.High)+"-1")
					emit(x, x.High.Pos(), x.High.End(), txt(x)+": no high", "")
				}
				if x.Low != nil {
					emit(x, x.Low.Pos(), x.Low.End(), txt(x)+": no low", "")
				}
			case *ast.KeyValueExpr:
				// swap the value for a zero-ish one by dropping the pair is covered by deletion below
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok && i+1 < len(x.Elts) {
						emit(kv, kv.Pos(), x.Elts[i+1].Pos(), "without "+txt(kv), "")
					}
				}
			}
			return true
		}
		ast.Inspect(file, visit)
	}
}
