// mutate lists small changes to Go files: go run main.go FILE... prints one JSON object per line.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	New  string `json:"new"`
	Old  string `json:"old"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Kind string `json:"kind"`
}

var methods = map[string][]string{
	"LT": {"LTE"}, "LTE": {"LT"}, "GT": {"GTE"}, "GTE": {"GT"},
	"QuoTruncate": {"QuoRoundUp"}, "MulTruncate": {"MulRoundUp"}, "QuoRoundUp": {"QuoTruncate"}, "MulRoundUp": {"MulTruncate"}, "Quo": {"QuoTruncate"}, "Mul": {"MulTruncate"}, "MulInt": nil,
	"Add": {"Sub"}, "Sub": {"Add"}, "IsPositive": {"IsNegative"}, "IsZero": {"IsPositive"}, "Before": {"After"}, "After": {"Before"},
	"MinDec": {"MaxDec"}, "MaxDec": {"MinDec"}, "MinInt": {"MaxInt"}, "MaxInt": {"MinInt"},
	"PriceToDownTick": {"PriceToUpTick"}, "PriceToUpTick": {"PriceToDownTick"}, "UpTick": {"DownTick"}, "DownTick": {"UpTick"},
	"BaseCoinDenom": {"QuoteCoinDenom"}, "QuoteCoinDenom": {"BaseCoinDenom"}, "Amount": {"OpenAmount"}, "OpenAmount": {"Amount"},
	"Buy": {"Sell"}, "Sell": {"Buy"}, "OrderDirectionBuy": {"OrderDirectionSell"}, "OrderDirectionSell": {"OrderDirectionBuy"},
	"GetPool": nil, "MinPrice": {"MaxPrice"}, "MaxPrice": {"MinPrice"},
}

var binary = map[token.Token][]string{
	token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"},
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		emit := func(kind string, from, to token.Pos, repl string) {
			a, b := fs.Position(from), fs.Position(to)
			_ = enc.Encode(mutant{name, a.Offset, b.Offset, repl, string(src[a.Offset:b.Offset]), a.Line, fn, kind})
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					if id, ok := x.Y.(*ast.Ident); ok && id.Name == "nil" {
						return true
					}
					if l, ok := x.X.(*ast.BasicLit); ok && l.Kind == token.STRING {
						return true
					}
					for _, r := range binary[x.Op] {
						emit("operator", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
					}
				case *ast.SelectorExpr:
					for _, r := range methods[x.Sel.Name] {
						emit("method", x.Sel.Pos(), x.Sel.End(), r)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit("literal", x.Pos(), x.End(), fmt.Sprint(v+1))
							if v > 0 {
								emit("literal", x.Pos(), x.End(), fmt.Sprint(v-1))
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						emit("bool", x.Pos(), x.End(), "false")
					} else if x.Name == "false" {
						emit("bool", x.Pos(), x.End(), "true")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						emit("not", x.OpPos, x.OpPos+1, "")
					}
				case *ast.CallExpr:
					// exchange neighbouring arguments
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						sa := string(src[fs.Position(a.Pos()).Offset:fs.Position(a.End()).Offset])
						sb := string(src[fs.Position(b.Pos()).Offset:fs.Position(b.End()).Offset])
						if sa != sb && sa != "ctx" && sa[0] != '"' {
							emit("arguments", a.Pos(), b.End(), sb+", "+sa)
						}
					}
					// x.Ceil() -> x
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 && (s.Sel.Name == "Ceil") {
						emit("round", s.X.End(), x.End(), "")
					}
					if s, ok := x.Fun.(*ast.SelectorExpr); ok && len(x.Args) == 0 && (s.Sel.Name == "TruncateInt") {
						emit("round", s.X.End(), x.End(), ".Ceil().TruncateInt()")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						switch y := s.(type) {
						case *ast.ExprStmt, *ast.IncDecStmt:
							emit("delete", s.Pos(), s.End(), "")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit("delete", s.Pos(), s.End(), "")
							}
						case *ast.BranchStmt:
							emit("delete", s.Pos(), s.End(), "")
							if y.Tok == token.CONTINUE && y.Label == nil {
								emit("branch", s.Pos(), s.End(), "break")
							} else if y.Tok == token.BREAK && y.Label == nil {
								emit("branch", s.Pos(), s.End(), "continue")
							}
						case *ast.IfStmt:
							if y.Else == nil {
								emit("delete", s.Pos(), s.End(), "")
							}
						}
					}
				case *ast.IfStmt:
					emit("condition", x.Cond.Pos(), x.Cond.End(), "!("+string(src[fs.Position(x.Cond.Pos()).Offset:fs.Position(x.Cond.End()).Offset])+")")
				}
				return true
			})
		}
	}
}
