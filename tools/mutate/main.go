// mutate lists small changes to the Go files of a directory: one JSON line per
// mutant with the file, the byte range, the new text and what was done.
//
//	go run main.go DIR > mutants.jsonl
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"strconv"
	"strings"
)

type mutant struct {
	ID   string
	File string
	From int
	To   int
	Text string
	Line int
	Op   string
	Old  string
	Func string
}

var skip = map[string]bool{"outbound-utils.go": true}

func main() {
	dir := os.Args[1]
	files, _ := filepath.Glob(dir + "/*.go")
	enc := json.NewEncoder(os.Stdout)
	n := 0
	for _, path := range files {
		name := filepath.Base(path)
		if strings.HasSuffix(name, "_test.go") || skip[name] {
			continue
		}
		src, _ := os.ReadFile(path)
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, path, src, 0)
		if err != nil {
			panic(err)
		}
		fn := ""
		pos := func(p token.Pos) int { return fset.Position(p).Offset }
		emit := func(from, to token.Pos, text, op string) {
			a, b := pos(from), pos(to)
			if string(src[a:b]) == text {
				return
			}
			n++
			enc.Encode(mutant{fmt.Sprintf("m%04d", n), name, a, b, text, fset.Position(from).Line, op, string(src[a:b]), fn})
		}
		text := func(x ast.Node) string { return string(src[pos(x.Pos()):pos(x.End())]) }
		isTrace := func(s string) bool {
			return strings.Contains(s, ".l.Trace") || strings.Contains(s, ".Warnf(") || strings.HasPrefix(s, "panic(")
		}
		var visit func(ast.Node) bool
		stmts := func(list []ast.Stmt) {
			for i, s := range list {
				t := text(s)
				switch x := s.(type) {
				case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.DeferStmt, *ast.SendStmt:
					if !isTrace(t) {
						emit(s.Pos(), s.End(), "", "drop")
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						emit(s.Pos(), s.End(), "", "drop")
					}
				case *ast.BranchStmt:
					emit(s.Pos(), s.End(), "", "drop")
					if x.Tok == token.CONTINUE {
						emit(s.Pos(), s.End(), "break", "branch")
					} else if x.Tok == token.BREAK && x.Label == nil {
						emit(s.Pos(), s.End(), "continue", "branch")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 0 && i < len(list) {
						emit(s.Pos(), s.End(), "", "drop")
					}
				case *ast.IfStmt:
					if x.Init == nil {
						emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "iftrue")
						emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "iffalse")
					}
				}
				// two neighbouring simple statements swapped
				if i+1 < len(list) && simple(s) && simple(list[i+1]) && !isTrace(t) && !isTrace(text(list[i+1])) {
					emit(s.Pos(), list[i+1].End(), text(list[i+1])+"\n"+t, "swap")
				}
			}
		}
		visit = func(nd ast.Node) bool {
			switch x := nd.(type) {
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.GenDecl:
				if x.Tok == token.IMPORT {
					return false
				}
			case *ast.CallExpr:
				t := text(x.Fun)
				if strings.Contains(t, ".l.Trace") || strings.Contains(t, "Warnf") || t == "panic" || strings.HasPrefix(t, "fmt.") {
					return false
				}
				if id, ok := x.Fun.(*ast.Ident); ok && len(x.Args) == 1 {
					a := text(x.Args[0])
					switch id.Name {
					case "int64", "uint64", "int", "uint":
						emit(x.Pos(), x.End(), id.Name+"(int32("+a+"))", "narrow")
						emit(x.Pos(), x.End(), id.Name+"(int16("+a+"))", "narrow")
						emit(x.Pos(), x.End(), id.Name+"(uint16("+a+"))", "narrow")
					case "int32", "uint32":
						emit(x.Pos(), x.End(), id.Name+"(int16("+a+"))", "narrow")
						emit(x.Pos(), x.End(), id.Name+"(uint16("+a+"))", "narrow")
						emit(x.Pos(), x.End(), id.Name+"(uint8("+a+"))", "narrow")
					case "int16", "uint16":
						emit(x.Pos(), x.End(), id.Name+"(int8("+a+"))", "narrow")
						emit(x.Pos(), x.End(), id.Name+"(uint8("+a+"))", "narrow")
					}
				}
			case *ast.BlockStmt:
				stmts(x.List)
			case *ast.CaseClause:
				stmts(x.Body)
			case *ast.CommClause:
				stmts(x.Body)
			case *ast.BinaryExpr:
				end := x.OpPos + token.Pos(len(x.Op.String()))
				for _, r := range repl[x.Op] {
					emit(x.OpPos, end, r, "op")
				}
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					emit(x.TokPos, x.End(), "--", "incdec")
				} else {
					emit(x.TokPos, x.End(), "++", "incdec")
				}
			case *ast.AssignStmt:
				if x.Tok == token.ADD_ASSIGN {
					emit(x.TokPos, x.TokPos+2, "-=", "op")
					emit(x.TokPos, x.TokPos+2, "=", "op")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.Pos()+1, "", "not")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.ParseInt(x.Value, 0, 64)
					if err == nil {
						emit(x.Pos(), x.End(), fmt.Sprint(v+1), "const")
						emit(x.Pos(), x.End(), fmt.Sprint(v-1), "const")
						if v > 3 {
							emit(x.Pos(), x.End(), fmt.Sprint(v*10), "const")
							emit(x.Pos(), x.End(), fmt.Sprint(v/2), "const")
						}
					}
				case token.STRING:
					if len(x.Value) > 2 && x.Value[0] == '"' {
						emit(x.Pos(), x.End(), `"x"`, "string")
						emit(x.Pos(), x.End(), `""`, "string")
					} else if x.Value == `""` {
						emit(x.Pos(), x.End(), `"x"`, "string")
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "bool")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "bool")
				}
			case *ast.StructType, *ast.FuncType:
				return false
			case *ast.SliceExpr:
				if x.High != nil {
					emit(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice")
				}
				if x.Low != nil {
					emit(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice")
				}
			}
			return true
		}
		ast.Inspect(f, visit)
	}
	fmt.Fprintln(os.Stderr, n, "mutants")
}

func simple(s ast.Stmt) bool {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.GoStmt, *ast.DeferStmt:
		return true
	case *ast.AssignStmt:
		return x.Tok != token.DEFINE
	}
	return false
}

var repl = map[token.Token][]string{
	token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
	token.EQL: {"!="}, token.NEQ: {"=="}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"},
	token.LAND: {"||"}, token.LOR: {"&&"}, token.AND: {"|"}, token.OR: {"&"}, token.SHL: {">>"}, token.SHR: {"<<"}, token.REM: {"/"},
}
