// mutate prints one-edit mutants of Go files as JSON lines: file, line, what, start, end, new.
package main

import (
	"encoding/json"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, What, New string
	Line, Start, End int
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, _ := os.ReadFile(file)
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		fn := ""
		emit := func(n ast.Node, s, e int, nw, what string) {
			enc.Encode(mut{file, fn + ": " + what, nw, fs.Position(n.Pos()).Line, s, e})
		}
		repl := func(n ast.Node, nw, what string) { emit(n, off(n.Pos()), off(n.End()), nw, what) }
		ops := map[token.Token][]string{
			token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
			token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.LAND: {"||"}, token.LOR: {"&&"},
			token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.MUL: {"+"},
		}
		var inImportOrConst func(n ast.Node) bool
		_ = inImportOrConst
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.IMPORT {
				continue
			}
			fn = "decl"
			if x, ok := d.(*ast.FuncDecl); ok {
				fn = x.Name.Name
				if x.Recv != nil {
					fn = text(x.Recv.List[0].Type) + "." + fn
				}
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, o := range ops[x.Op] {
						p := off(x.OpPos)
						emit(x, p, p+len(x.Op.String()), o, text(x)+" => "+o)
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
							repl(x, strconv.FormatInt(v+1, 10), x.Value+" => +1")
							if v > 0 {
								repl(x, strconv.FormatInt(v-1, 10), x.Value+" => -1")
							}
						}
					}
					if x.Kind == token.STRING && !strings.Contains(x.Value, "%") && len(x.Value) < 12 {
						repl(x, `"x`+x.Value[1:len(x.Value)-1]+`"`, x.Value+" => x..")
					}
				case *ast.IfStmt:
					repl(x.Cond, "!("+text(x.Cond)+")", "negate "+text(x.Cond))
					if x.Else == nil {
						s, e := off(x.Cond.Pos()), off(x.Cond.End())
						emit(x, s, e, "false && ("+text(x.Cond)+")", "never "+text(x.Cond))
					}
				case *ast.ExprStmt:
					repl(x, "", "delete "+text(x))
				case *ast.DeferStmt:
					repl(x, "", "delete "+text(x))
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN || x.Tok == token.ADD_ASSIGN {
						repl(x, "", "delete "+text(x))
					}
					if x.Tok == token.ADD_ASSIGN {
						p := off(x.TokPos)
						emit(x, p, p+2, "=", text(x)+" with =")
					}
				case *ast.IncDecStmt:
					repl(x, "", "delete "+text(x))
				case *ast.Ident:
					m := map[string][]string{"true": {"false"}, "false": {"true"}, "uint16": {"uint8"}, "uint32": {"uint16"}, "ID16": {"ID8"}, "ID32": {"ID16"}, "MaxUint8": {"MaxUint16", "MaxInt8"}, "MaxUint16": {"MaxUint32", "MaxUint8"}, "MaxUint32": {"MaxInt64"}}
					for _, o := range m[x.Name] {
						repl(x, o, x.Name+" => "+o)
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						if x.Tok == token.BREAK {
							repl(x, "continue", "break => continue")
						}
						if x.Tok == token.CONTINUE {
							repl(x, "break", "continue => break")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						switch {
						case text(r) == "err" || strings.HasPrefix(text(r), "fmt.Errorf"):
							repl(r, "nil", "return "+text(r)+" => nil")
						case len(x.Results) > 0:
							repl(r, "0", "return 0 for "+text(r))
							repl(r, "nil", "return nil for "+text(r))
						}
					}
				case *ast.CallExpr:
					for i := 0; i+1 < len(x.Args); i++ {
						s, e := off(x.Args[i].Pos()), off(x.Args[i+1].End())
						emit(x, s, e, text(x.Args[i+1])+", "+text(x.Args[i]), "swap args "+text(x))
					}
				case *ast.SliceExpr:
					if x.Low != nil {
						repl(x.Low, text(x.Low)+"+1", "low+1 "+text(x))
					}
					if x.High != nil {
						repl(x.High, text(x.High)+"-1", "high-1 "+text(x))
					}
				case *ast.IndexExpr:
					repl(x.Index, "0", "index 0 in "+text(x))
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						repl(x, text(x.X), "drop ! of "+text(x))
					}
				case *ast.StarExpr:
				}
				return true
			})
		}
	}
}
