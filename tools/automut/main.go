// automut lists single-site mutants of Go files: "file<TAB>start<TAB>end<TAB>kind<TAB>line<TAB>replacement (quoted)".
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

func main() {
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(n ast.Node, kind, repl string) {
			fmt.Printf("%s\t%d\t%d\t%s\t%d\t%s\n", file, off(n.Pos()), off(n.End()), kind, fset.Position(n.Pos()).Line, strconv.Quote(repl))
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		swap := map[token.Token][]string{token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.LSS: {"<="}, token.LEQ: {"<"},
			token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			n := fd.Name.Name
			// sizes, text, and what nothing uses
			dead := map[string]bool{"Neg": true, "Duplicate": true, "ReverseBits": true, "BitsBigEndian": true, "feFrom256Bits": true}
			if fd.Recv != nil && strings.Contains(text(fd.Recv), "G2v") && file == "common/math.go" && n != "Mulv" && n != "Bytes" {
				continue
			}
			if dead[n] || strings.Contains(n, "Size") || n == "Stringify" || n == "String" {
				continue
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BlockStmt:
					for _, s := range x.List {
						if bytes.Contains(src[off(s.Pos()):off(s.End())], []byte("time.")) {
							continue
						}
						switch y := s.(type) {
						case *ast.ExprStmt:
							if !strings.HasPrefix(text(y), "panic(") {
								emit(y, "drop", "")
							}
						case *ast.IncDecStmt, *ast.DeferStmt:
							emit(y, "drop", "")
						case *ast.AssignStmt:
							if y.Tok != token.DEFINE {
								emit(y, "drop", "")
							}
						case *ast.IfStmt:
							if y.Else == nil {
								emit(y.Cond, "never", "false && ("+text(y.Cond)+")")
							}
							emit(y.Cond, "always", "true || ("+text(y.Cond)+")")
						}
					}
				case *ast.BinaryExpr:
					for _, op := range swap[x.Op] {
						if x.Op == token.ADD && (strings.Contains(text(x), "\"")) {
							continue
						}
						emit(x, "op"+x.Op.String(), text(x.X)+" "+op+" "+text(x.Y))
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						v, _ := strconv.ParseInt(x.Value, 0, 64)
						emit(x, "const", fmt.Sprint(v+1))
						if v > 0 {
							emit(x, "const", fmt.Sprint(v-1))
						}
					}
				case *ast.IndexExpr:
					if id, ok := x.Index.(*ast.Ident); ok {
						emit(x.Index, "index", "0")
						emit(x.Index, "index", id.Name+" / 2 * 2")
					}
				case *ast.CallExpr:
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) == 3 {
						return false
					}
					if sel, ok := x.Fun.(*ast.SelectorExpr); ok {
						switch sel.Sel.Name {
						case "Add":
							emit(sel.Sel, "method", "Sub")
						case "Sub":
							emit(sel.Sel, "method", "Add")
						case "Mul", "Plus":
							if len(x.Args) == 1 {
								emit(x, "method", text(sel.X))
							}
						case "Copy":
							if len(x.Args) == 0 {
								emit(x, "method", text(sel.X))
							}
						}
					}
					if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "append" && len(x.Args) == 2 {
						emit(x, "append", text(x.Args[0]))
					}
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := text(x.Args[i]), text(x.Args[i+1])
						if a != b && len(a) < 20 && len(b) < 20 && !strings.Contains(a+b, "\"") {
							t := text(x)
							args := make([]string, len(x.Args))
							for j, y := range x.Args {
								args[j] = text(y)
							}
							args[i], args[i+1] = b, a
							_ = t
							emit(x, "swap", text(x.Fun)+"("+strings.Join(args, ", ")+")")
						}
					}
				case *ast.SliceExpr:
					if x.High != nil {
						emit(x.High, "slice", text(x.High)+" - 1")
					}
				}
				return true
			})
		}
	}
}
