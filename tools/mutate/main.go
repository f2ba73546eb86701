// mutate lists small changes of Go files as JSON lines: {"file","line","kind","start","end","text"}, byte offsets.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mut struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Kind  string `json:"kind"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	Text  string `json:"text"`
}

var swaps = map[string][]string{"Left": {"Right"}, "Right": {"Left"}, "Source": {"Dest"}, "Dest": {"Source"}, "First": {"Second"}, "Second": {"First"},
	"Resource": {"Id"}, "Id": {"Resource"}, "ResourceName": {"RelationName"}, "RelationName": {"ResourceName"}, "TuplesetRelation": {"ComputedUsersetRelation"},
	"ComputedUsersetRelation": {"TuplesetRelation"}, "SearchResult_SUCCESS": {"SearchResult_FAILURE", "SearchResult_UNKNOWN"}, "SearchResult_FAILURE": {"SearchResult_SUCCESS", "SearchResult_UNKNOWN"},
	"RelationType_OBJECT": {"RelationType_OBJECT_SET"}, "RelationType_OBJECT_SET": {"RelationType_OBJECT"}, "Operator_UNION": {"Operator_INTERSECTION"}, "Operator_DIFFERENCE": {"Operator_UNION"}}

func main() {
	enc := json.NewEncoder(os.Stdout)
	for _, file := range os.Args[1:] {
		src, err := os.ReadFile(file)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, file, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		emit := func(kind string, from, to token.Pos, text string) {
			enc.Encode(mut{file, fset.Position(from).Line, kind, off(from), off(to), text})
		}
		skip := func(n ast.Node) bool {
			t := txt(n)
			return strings.Contains(t, "logger.") || strings.Contains(t, "Logger()") && !strings.Contains(t, "\n")
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				s := txt(x.Fun)
				if strings.HasSuffix(s, "fmt.Errorf") || strings.Contains(s, "logger.") || s == "panic" || s == "buildErr" {
					return false
				}
				if len(x.Args) >= 2 {
					for i := 0; i+1 < len(x.Args); i++ {
						a, b := x.Args[i], x.Args[i+1]
						if txt(a) != txt(b) {
							emit("swap-args", a.Pos(), b.End(), txt(b)+string(src[off(a.End()):off(b.Pos())])+txt(a))
						}
					}
				}
			case *ast.BinaryExpr:
				r := map[token.Token][]string{token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.LSS: {"<=", ">"}, token.GTR: {">=", "<"}, token.LEQ: {"<"}, token.GEQ: {">"}, token.ADD: {"-"}, token.SUB: {"+"}}
				for _, op := range r[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), op)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left-only", x.Pos(), x.End(), txt(x.X))
					emit("right-only", x.Pos(), x.End(), txt(x.Y))
				}
			case *ast.IfStmt:
				if x.Init == nil {
					emit("if-false", x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")")
					emit("if-true", x.Cond.Pos(), x.Cond.End(), "true || ("+txt(x.Cond)+")")
				} else {
					emit("if-false", x.Cond.Pos(), x.Cond.End(), "false && ("+txt(x.Cond)+")")
				}
			case *ast.BlockStmt:
				for _, s := range x.List {
					switch y := s.(type) {
					case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.GoStmt:
						if !skip(s) {
							emit("drop", s.Pos(), s.End(), "")
						}
					case *ast.AssignStmt:
						if y.Tok != token.DEFINE && !skip(s) {
							emit("drop", s.Pos(), s.End(), "_ = 0")
						}
					case *ast.ForStmt, *ast.RangeStmt:
						emit("drop-loop", s.Pos(), s.End(), "")
					case *ast.BranchStmt:
						emit("drop", s.Pos(), s.End(), "")
						if y.Tok == token.BREAK {
							emit("continue", s.Pos(), s.End(), "continue")
						}
					}
				}
			case *ast.CaseClause:
				if len(x.Body) > 0 {
					emit("case-empty", x.Body[0].Pos(), x.Body[len(x.Body)-1].End(), "")
				}
			case *ast.SwitchStmt:
			case *ast.ReturnStmt:
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok {
						switch id.Name {
						case "err":
							emit("nil-err", r.Pos(), r.End(), "nil")
						case "true":
							emit("bool", r.Pos(), r.End(), "false")
						case "false":
							emit("bool", r.Pos(), r.End(), "true")
						case "nil":
						}
					}
					if c, ok := r.(*ast.CallExpr); ok && strings.Contains(txt(c.Fun), "Errorf") {
						emit("nil-err", r.Pos(), r.End(), "nil")
					}
				}
			case *ast.BasicLit:
				if x.Kind == token.INT {
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						emit("int", x.Pos(), x.End(), fmt.Sprint(v+1))
					}
				}
				if x.Kind == token.STRING && len(x.Value) < 20 && x.Value != `""` {
					emit("string", x.Pos(), x.End(), `""`)
				}
			case *ast.Ident:
				for _, s := range swaps[x.Name] {
					emit("swap-name", x.Pos(), x.End(), s)
				}
			case *ast.KeyValueExpr:
				if _, ok := x.Key.(*ast.Ident); ok {
					emit("drop-field", x.Key.Pos(), x.Value.End()+1, "")
				}
			case *ast.ImportSpec, *ast.Field:
				return false
			}
			return true
		})
	}
}
