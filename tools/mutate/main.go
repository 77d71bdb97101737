// mutate lists small changes of the Go files given: one JSON line per mutant, with the changed file's text.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	What string `json:"what"`
	Src  string `json:"src"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, file, src, parser.SkipObjectResolution)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		text := func(a, b token.Pos) string { return string(src[off(a):off(b)]) }
		emit := func(a, b token.Pos, repl, what string) {
			_ = enc.Encode(mutant{file, fs.Position(a).Line, what, string(src[:off(a)]) + repl + string(src[off(b):])})
		}
		op := func(x *ast.BinaryExpr, repl string) {
			emit(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), repl, x.Op.String()+" -> "+repl+" in "+text(x.Pos(), x.End()))
		}
		swap := map[string]string{"Prev": "Next", "Next": "Prev", "RemovePrev": "RemoveNext", "RemoveNext": "RemovePrev", "IterNext": "IterPrev",
			"InsertNext": "ReplaceNext", "ReplaceNext": "InsertNext", "CombineNext": "CombinePrev", "prev": "next", "next": "prev", "First": "Last", "Last": "First",
			"FuncName": "TypeName", "TypeName": "FuncName", "ParamName": "ParamType", "ParamType": "ParamName", "Space": "Tab", "NewLine": "Space",
			"ParenthesisLeft": "ParenthesisRight", "ParenthesisRight": "ParenthesisLeft", "CurlyBracketLeft": "CurlyBracketRight", "CurlyBracketRight": "CurlyBracketLeft",
			"SquareBracketLeft": "SquareBracketRight", "SquareBracketRight": "SquareBracketLeft", "Comma": "Semicolon", "Comment": "String", "Raw": "Symbol", "Basic": "Raw",
			"MethodReceiverType": "MethodReceiverName", "MethodReceiverName": "MethodReceiverType", "Func": "Type", "Type": "Func", "Struct": "Interface", "Interface": "Struct",
			"HasPrefix": "HasSuffix", "HasSuffix": "HasPrefix", "Map": "Channel", "Channel": "Map"}
		inType := 0
		_ = inType
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.BinaryExpr:
				switch x.Op {
				case token.EQL:
					op(x, "!=")
				case token.NEQ:
					op(x, "==")
				case token.LSS:
					op(x, "<=")
					op(x, ">")
				case token.LEQ:
					op(x, "<")
				case token.GTR:
					op(x, ">=")
					op(x, "<")
				case token.GEQ:
					op(x, ">")
				case token.LAND:
					op(x, "||")
					emit(x.Pos(), x.End(), text(x.X.Pos(), x.X.End()), "drop right of "+text(x.Pos(), x.End()))
					emit(x.Pos(), x.End(), text(x.Y.Pos(), x.Y.End()), "drop left of "+text(x.Pos(), x.End()))
				case token.LOR:
					op(x, "&&")
					emit(x.Pos(), x.End(), text(x.X.Pos(), x.X.End()), "drop right of "+text(x.Pos(), x.End()))
					emit(x.Pos(), x.End(), text(x.Y.Pos(), x.Y.End()), "drop left of "+text(x.Pos(), x.End()))
				case token.ADD:
					op(x, "-")
				case token.SUB:
					op(x, "+")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit(x.Pos(), x.X.Pos(), "", "drop ! of "+text(x.Pos(), x.End()))
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						emit(x.Pos(), x.End(), strconv.Itoa(v+1), x.Value+" + 1")
						if v > 0 {
							emit(x.Pos(), x.End(), strconv.Itoa(v-1), x.Value+" - 1")
						}
					}
				case token.STRING:
					if x.Value != `""` {
						emit(x.Pos(), x.End(), `""`, "empty "+x.Value)
					} else {
						emit(x.Pos(), x.End(), `"x"`, "fill "+x.Value)
					}
				}
			case *ast.Ident:
				if x.Name == "true" {
					emit(x.Pos(), x.End(), "false", "true -> false")
				} else if x.Name == "false" {
					emit(x.Pos(), x.End(), "true", "false -> true")
				}
			case *ast.SelectorExpr:
				if s, ok := swap[x.Sel.Name]; ok {
					emit(x.Sel.Pos(), x.Sel.End(), s, text(x.Pos(), x.End())+" -> "+s)
				}
			case *ast.IfStmt:
				emit(x.Cond.Pos(), x.Cond.End(), "!("+text(x.Cond.Pos(), x.Cond.End())+")", "negate "+text(x.Cond.Pos(), x.Cond.End()))
				emit(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond.Pos(), x.Cond.End())+")", "never "+text(x.Cond.Pos(), x.Cond.End()))
				emit(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond.Pos(), x.Cond.End())+")", "always "+text(x.Cond.Pos(), x.Cond.End()))
			case *ast.IncDecStmt:
				if x.Tok == token.INC {
					emit(x.TokPos, x.TokPos+2, "--", "++ -> --")
				} else {
					emit(x.TokPos, x.TokPos+2, "++", "-- -> ++")
				}
			case *ast.BranchStmt:
				if x.Label == nil {
					switch x.Tok {
					case token.BREAK:
						emit(x.Pos(), x.End(), "continue", "break -> continue")
					case token.CONTINUE:
						emit(x.Pos(), x.End(), "break", "continue -> break")
					}
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					drop(s, text, emit)
				}
			case *ast.CaseClause:
				for _, s := range x.Body {
					drop(s, text, emit)
				}
				if len(x.List) > 1 {
					for i, e := range x.List {
						a, b := e.Pos(), e.End()
						if i > 0 {
							a = x.List[i-1].End()
						} else {
							b = x.List[1].Pos()
						}
						emit(a, b, "", "drop case "+text(e.Pos(), e.End()))
					}
				}
			case *ast.CompositeLit:
				for _, e := range x.Elts {
					if kv, ok := e.(*ast.KeyValueExpr); ok {
						emit(e.Pos(), e.End()+1, "", "drop element "+text(kv.Pos(), kv.End()))
					} else {
						emit(e.Pos(), e.End(), "", "drop element "+text(e.Pos(), e.End()))
					}
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 2 {
					a, b := x.Results[0], x.Results[1]
					emit(a.Pos(), b.End(), text(b.Pos(), b.End())+", "+text(a.Pos(), a.End()), "swap results "+text(x.Pos(), x.End()))
				}
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); !ok || id.Name != "nil" && id.Name != "true" && id.Name != "false" {
						emit(r.Pos(), r.End(), "nil", "return nil for "+text(r.Pos(), r.End()))
					}
				}
			}
			return true
		})
	}
}

func drop(s ast.Stmt, text func(a, b token.Pos) string, emit func(a, b token.Pos, repl, what string)) {
	switch x := s.(type) {
	case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt, *ast.RangeStmt, *ast.ForStmt:
		emit(s.Pos(), s.End(), "", "drop "+first(text(s.Pos(), s.End())))
	case *ast.AssignStmt:
		if x.Tok != token.DEFINE {
			emit(s.Pos(), s.End(), "", "drop "+first(text(s.Pos(), s.End())))
		}
	case *ast.IfStmt:
		emit(s.Pos(), s.End(), "", "drop "+first(text(s.Pos(), s.End())))
	case *ast.ReturnStmt:
		if len(x.Results) == 0 {
			emit(s.Pos(), s.End(), "", "drop return")
		}
	}
}

func first(s string) string {
	if len(s) > 60 {
		s = s[:60]
	}
	return fmt.Sprintf("%q", s)
}
