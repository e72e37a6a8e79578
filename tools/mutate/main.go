// Command mutate lists small changes of Go files as JSON lines: development
// aid for measuring which changes the checks notice.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File     string `json:"file"`
	From, To int
	New      string
	Line     int
	Kind     string
	Func     string
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		fn := ""
		emit := func(n ast.Node, kind, s string) {
			enc.Encode(mutant{file, off(n.Pos()), off(n.End()), s, fset.Position(n.Pos()).Line, kind, fn})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{
			token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.ADD: {"-"}, token.SUB: {"+"},
			token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.LAND: {"||"}, token.LOR: {"&&"}, token.AND_NOT: {"&"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"/"},
		}
		ids := map[string][]string{
			"Inf": {"NegInf", "NaN"}, "NegInf": {"Inf"}, "Zero": {"NegZero"}, "NegZero": {"Zero"}, "NaN": {"NegNaN", "Inf"}, "NegNaN": {"NaN"},
			"Exact": {"Below"}, "Below": {"Above", "Exact"}, "Above": {"Below", "Exact"}, "true": {"false"}, "false": {"true"},
			"high": {"low"}, "low": {"high"}, "ToNearestEven": {"ToNearestAway", "ToZero"}, "precision": {"(precision-1)", "(precision+1)"}, "bias": {"(bias+1)", "(bias-1)"},
			"Float32": {"Float64"}, "signbit": {"!signbit"}, "neg": {"!neg"},
		}
		for _, d := range f.Decls {
			fn = ""
			if fd, ok := d.(*ast.FuncDecl); ok {
				fn = fd.Name.Name
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch n := n.(type) {
				case *ast.ImportSpec:
					return false
				case *ast.BasicLit:
					if n.Kind == token.INT {
						v, err := strconv.ParseUint(n.Value, 0, 64)
						if err == nil {
							emit(n, "lit", fmt.Sprintf("%d", v+1))
							if v > 0 {
								emit(n, "lit", fmt.Sprintf("%d", v-1))
							}
							if v > 15 {
								emit(n, "lit", fmt.Sprintf("%d", v>>1))
								if w := v ^ (v >> 1 & 0x8421084210842108); w != v && w != v>>1 {
									emit(n, "lit", fmt.Sprintf("%d", w))
								}
							}
						}
					}
					if n.Kind == token.STRING && strings.Contains(n.Value, "%") {
						emit(n, "fmt", strings.Replace(n.Value, "b", "d", 1))
						for _, c := range "123456789" {
							if i := strings.IndexRune(n.Value, c); i >= 0 {
								emit(n, "fmt", n.Value[:i]+string(c-1)+n.Value[i+1:])
							}
						}
					}
				case *ast.BinaryExpr:
					for _, s := range swap[n.Op] {
						enc.Encode(mutant{file, off(n.OpPos), off(n.OpPos) + len(n.Op.String()), s, fset.Position(n.OpPos).Line, "op " + n.Op.String(), fn})
					}
				case *ast.Ident:
					for _, s := range ids[n.Name] {
						emit(n, "ident", s)
					}
				case *ast.IfStmt:
					emit(n.Cond, "negate", "!("+text(n.Cond)+")")
					if n.Init == nil {
						emit(n.Cond, "never", "false && ("+text(n.Cond)+")")
					}
				case *ast.ForStmt:
					if n.Cond != nil {
						emit(n.Cond, "never", "false && ("+text(n.Cond)+")")
					}
				case *ast.BlockStmt:
					for _, s := range n.List {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt:
							emit(s, "drop", "")
						case *ast.AssignStmt:
							if s.Tok != token.DEFINE {
								emit(s, "drop", "")
								if s.Tok == token.OR_ASSIGN {
									emit(s, "assign", text(s.Lhs[0])+" = "+text(s.Rhs[0]))
								}
							}
						}
					}
				case *ast.CallExpr:
					// x.M(...) in a chain: drop the call
					if se, ok := n.Fun.(*ast.SelectorExpr); ok {
						if _, inner := se.X.(*ast.CallExpr); inner {
							emit(n, "unchain", text(se.X))
						}
					}
				}
				return true
			})
		}
	}
}
