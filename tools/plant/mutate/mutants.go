// mutants FILE... lists small changes of Go source files as JSON lines:
// {"file","line","func","off","end","new","op"}.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"strconv"
	"strings"
)

type mutant struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Off  int    `json:"off"`
	End  int    `json:"end"`
	Old  string `json:"old"`
	New  string `json:"new"`
	Op   string `json:"op"`
}

func main() {
	enc := json.NewEncoder(os.Stdout)
	enc.SetEscapeHTML(false)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fset := token.NewFileSet()
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			fname := "var"
			if ok {
				fname = fd.Name.Name
				if fd.Recv != nil {
					var b strings.Builder
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					fmt.Fprint(&b, t)
					fname = b.String() + "." + fname
				}
			}
			add := func(from, to token.Pos, repl, op string) {
				a, e := off(from), off(to)
				if string(src[a:e]) == repl {
					return
				}
				enc.Encode(mutant{name, fset.Position(from).Line, fname, a, e, string(src[a:e]), repl, op})
			}
			ast.Inspect(d, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.BinaryExpr:
					alt := map[token.Token][]string{token.LSS: {"<=", ">="}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<="}, token.GEQ: {">", "<"},
						token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.REM: {"+"}, token.QUO: {"*"}}
					for _, a := range alt[x.Op] {
						add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), a, "op")
					}
					if x.Op == token.LAND || x.Op == token.LOR {
						add(x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]), "dropright")
						add(x.Pos(), x.End(), string(src[off(x.Y.Pos()):off(x.Y.End())]), "dropleft")
					}
				case *ast.BasicLit:
					if x.Kind == token.INT && !strings.HasPrefix(x.Value, "0") || x.Value == "0" {
						v, err := strconv.Atoi(x.Value)
						if err == nil {
							add(x.Pos(), x.End(), strconv.Itoa(v+1), "int+1")
							if v > 0 {
								add(x.Pos(), x.End(), strconv.Itoa(v-1), "int-1")
							}
						}
					}
				case *ast.Ident:
					if x.Name == "true" {
						add(x.Pos(), x.End(), "false", "bool")
					} else if x.Name == "false" {
						add(x.Pos(), x.End(), "true", "bool")
					}
				case *ast.UnaryExpr:
					if x.Op == token.NOT {
						add(x.Pos(), x.X.Pos(), "", "unnot")
					}
				case *ast.IfStmt:
					c := string(src[off(x.Cond.Pos()):off(x.Cond.End())])
					add(x.Cond.Pos(), x.Cond.End(), "(false && ("+c+"))", "iffalse")
					add(x.Cond.Pos(), x.Cond.End(), "(true || ("+c+"))", "iftrue")
				case *ast.ExprStmt:
					add(x.Pos(), x.End(), "", "delstmt")
				case *ast.DeferStmt:
					add(x.Pos(), x.End(), "", "deldefer")
				case *ast.IncDecStmt:
					add(x.Pos(), x.End(), "", "delinc")
				case *ast.BranchStmt:
					if x.Tok == token.BREAK || x.Tok == token.CONTINUE {
						add(x.Pos(), x.End(), "", "delbranch")
						if x.Label == nil {
							o := "break"
							if x.Tok == token.BREAK {
								o = "continue"
							}
							add(x.Pos(), x.End(), o, "branch")
						}
					}
				case *ast.AssignStmt:
					if x.Tok != token.DEFINE {
						repl := ""
						for i := range x.Rhs {
							if i > 0 {
								repl += "; "
							}
							repl += "_ = " + string(src[off(x.Rhs[i].Pos()):off(x.Rhs[i].End())])
						}
						if len(x.Lhs) == len(x.Rhs) {
							add(x.Pos(), x.End(), repl, "delassign")
						}
					}
				case *ast.ReturnStmt:
					if len(x.Results) > 0 {
						last := x.Results[len(x.Results)-1]
						s := string(src[off(last.Pos()):off(last.End())])
						if s == "err" || strings.HasPrefix(s, "Err") || strings.HasPrefix(s, "errors.New") || strings.HasPrefix(s, "fmt.Errorf") {
							add(last.Pos(), last.End(), "nil", "noerr")
						}
					}
				case *ast.CallExpr:
					fn := string(src[off(x.Fun.Pos()):off(x.Fun.End())])
					swap := map[string]string{"EqualRunes": "EqualRunesFold", "EqualRunesFold": "EqualRunes", "AllNeedlesInHaystack": "AnyNeedleInHaystack", "AnyNeedleInHaystack": "AllNeedlesInHaystack",
						"krypto431.EqualRunes": "krypto431.EqualRunesFold", "krypto431.EqualRunesFold": "krypto431.EqualRunes", "krypto431.AllNeedlesInHaystack": "krypto431.AnyNeedleInHaystack", "krypto431.AnyNeedleInHaystack": "krypto431.AllNeedlesInHaystack",
						"VettedMessageIds": "VettedKeys", "VettedKeys": "VettedMessageIds", "krypto431.VettedMessageIds": "krypto431.VettedKeys", "krypto431.VettedKeys": "krypto431.VettedMessageIds",
						"k.DerivePFKFromPasswordWithValidation": "k.DerivePFKFromPassword", "unicode.ToUpper": "unicode.ToLower"}
					if s, ok := swap[fn]; ok {
						add(x.Fun.Pos(), x.Fun.End(), s, "swap")
					}
					if len(x.Args) == 1 {
						a := string(src[off(x.Args[0].Pos()):off(x.Args[0].End())])
						switch fn {
						case "strings.ToUpper", "strings.TrimSpace", "unicode.ToUpper", "utf8.RuneCountInString":
							if fn != "utf8.RuneCountInString" {
								add(x.Pos(), x.End(), "("+a+")", "unwrap")
							} else {
								add(x.Pos(), x.End(), "len("+a+")", "runecount")
							}
						case "RuneCopy", "ByteCopy":
							add(x.Pos(), x.End(), "*("+a+")", "unwrap")
						}
					}
				case *ast.SliceExpr:
					if x.Low != nil && x.High == nil {
						add(x.Pos(), x.End(), string(src[off(x.X.Pos()):off(x.X.End())]), "unslice")
					}
				}
				return true
			})
		}
	}
}
