// mutgen FILE.go prints one JSON line per mutation of the file: {id,file,line,func,kind,off,end,new,old}
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File, Func, Kind, Old, New string
	Line, Off, End             int
}

func main() {
	for _, fn := range os.Args[1:] {
		src, err := os.ReadFile(fn)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, fn, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		cur := ""
		emit := func(kind string, a, b token.Pos, nw string) {
			m := mut{File: fn, Func: cur, Kind: kind, Old: string(src[off(a):off(b)]), New: nw, Line: fs.Position(a).Line, Off: off(a), End: off(b)}
			o, _ := json.Marshal(m)
			fmt.Println(string(o))
		}
		repl := map[token.Token][]string{token.LSS: {"<="}, token.LEQ: {"<"}, token.GTR: {">="}, token.GEQ: {">"}, token.EQL: {"!="}, token.NEQ: {"=="},
			token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.LAND: {"||"}, token.LOR: {"&&"}, token.REM: {"/"}, token.SHL: {">>"}, token.SHR: {"<<"}}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			cur = fd.Name.Name
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					for _, r := range repl[x.Op] {
						emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						emit("left", x.Pos(), x.End(), "("+txt(x.X)+")")
						emit("right", x.Pos(), x.End(), "("+txt(x.Y)+")")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT {
						if v, err := strconv.Atoi(x.Value); err == nil {
							emit("int", x.Pos(), x.End(), strconv.Itoa(v+1))
							if v > 0 {
								emit("int", x.Pos(), x.End(), strconv.Itoa(v-1))
							}
						}
					}
					if x.Kind == token.FLOAT {
						if v, err := strconv.ParseFloat(x.Value, 64); err == nil {
							if v == 0 {
								emit("float", x.Pos(), x.End(), "0.001")
								emit("float", x.Pos(), x.End(), "-0.001")
							} else {
								emit("float", x.Pos(), x.End(), fmt.Sprintf("%v", v*1.001))
								emit("float", x.Pos(), x.End(), fmt.Sprintf("%v", v*1000))
								emit("float", x.Pos(), x.End(), fmt.Sprintf("%v", v/1000))
							}
						}
					}
				case *ast.IfStmt:
					emit("if-true", x.Cond.Pos(), x.Cond.End(), "true || ("+txt(x.Cond)+")")
					emit("if-false", x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")")
					if x.Else != nil {
						emit("no-else", x.Body.End(), x.Else.End(), "")
					}
				case *ast.ForStmt:
					if x.Cond != nil {
						emit("for-once", x.Body.Rbrace, x.Body.Rbrace, "; break ")
					}
				case *ast.RangeStmt:
					emit("for-once", x.Body.Rbrace, x.Body.Rbrace, "; break ")
					if !strings.Contains(txt(x.X), "chan") {
						emit("range-tail", x.X.Pos(), x.X.End(), txt(x.X)+"[1:]")
					}
				case *ast.BlockStmt:
					for _, s := range x.List {
						del(s, emit)
					}
					for i := 0; i+1 < len(x.List); i++ {
						a, b := x.List[i], x.List[i+1]
						if simple(a) && simple(b) {
							emit("swap", a.Pos(), b.End(), txt(b)+"\n"+txt(a))
						}
					}
				case *ast.CaseClause:
					for _, s := range x.Body {
						del(s, emit)
					}
				case *ast.CommClause:
					for _, s := range x.Body {
						del(s, emit)
					}
				case *ast.IndexExpr:
					emit("index", x.Index.Pos(), x.Index.End(), "("+txt(x.Index)+")+1")
					emit("index", x.Index.Pos(), x.Index.End(), "("+txt(x.Index)+")-1")
					emit("index", x.Index.Pos(), x.Index.End(), "0*("+txt(x.Index)+")")
				case *ast.CallExpr:
					if len(x.Args) == 2 {
						emit("swapargs", x.Args[0].Pos(), x.Args[1].End(), txt(x.Args[1])+", "+txt(x.Args[0]))
					}
					if len(x.Args) == 3 {
						emit("swapargs", x.Args[0].Pos(), x.Args[1].End(), txt(x.Args[1])+", "+txt(x.Args[0]))
						emit("swapargs", x.Args[1].Pos(), x.Args[2].End(), txt(x.Args[2])+", "+txt(x.Args[1]))
					}
					for _, a := range x.Args {
						if _, ok := a.(*ast.Ident); ok {
							emit("arg", a.Pos(), a.End(), txt(a)+"+1")
						}
					}
				case *ast.BranchStmt:
					if x.Label == nil {
						if x.Tok == token.BREAK {
							emit("branch", x.Pos(), x.End(), "continue")
						} else if x.Tok == token.CONTINUE {
							emit("branch", x.Pos(), x.End(), "break")
						}
					}
				case *ast.ReturnStmt:
					for _, r := range x.Results {
						if id, ok := r.(*ast.Ident); ok {
							switch id.Name {
							case "true":
								emit("ret", r.Pos(), r.End(), "false")
							case "false":
								emit("ret", r.Pos(), r.End(), "true")
							}
						}
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT || x.Op == token.SUB {
						emit("unary", x.OpPos, x.OpPos+1, "")
					}
				case *ast.AssignStmt:
					if x.Tok == token.ADD_ASSIGN {
						emit("assignop", x.TokPos, x.TokPos+2, "-=")
						emit("assignop", x.TokPos, x.TokPos+2, "=")
					}
					if x.Tok == token.SUB_ASSIGN {
						emit("assignop", x.TokPos, x.TokPos+2, "+=")
					}
					if x.Tok == token.MUL_ASSIGN {
						emit("assignop", x.TokPos, x.TokPos+2, "/=")
					}
					if x.Tok == token.QUO_ASSIGN {
						emit("assignop", x.TokPos, x.TokPos+2, "*=")
					}
				case *ast.GoStmt:
					emit("no-go", x.Pos(), x.Call.Pos(), "")
				case *ast.DeferStmt:
					emit("no-defer", x.Pos(), x.Call.Pos(), "")
				}
				return true
			})
		}
	}
}

func simple(s ast.Stmt) bool {
	switch s.(type) {
	case *ast.ExprStmt, *ast.AssignStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.IfStmt:
		return true
	}
	return false
}

func del(s ast.Stmt, emit func(string, token.Pos, token.Pos, string)) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.DeferStmt, *ast.BranchStmt, *ast.GoStmt:
		emit("del", s.Pos(), s.End(), "")
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit("del", s.Pos(), s.End(), "")
		}
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			emit("del", s.Pos(), s.End(), "")
		}
	}
}
