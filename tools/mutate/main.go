// mutate lists small changes of Go files, one JSON object per line: a development tool to
// look for behaviour that neither the tests nor the checks notice.  No check uses it.
package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"regexp/syntax"
	"strconv"
	"strings"
)

type mutant struct {
	File  string `json:"file"`
	Line  int    `json:"line"`
	Func  string `json:"func"`
	Start int    `json:"start"`
	End   int    `json:"end"`
	New   string `json:"new"`
	Old   string `json:"old"`
	Kind  string `json:"kind"`
}

func main() {
	out := json.NewEncoder(os.Stdout)
	for _, name := range os.Args[1:] {
		src, err := os.ReadFile(name)
		if err != nil {
			panic(err)
		}
		fs := token.NewFileSet()
		f, err := parser.ParseFile(fs, name, src, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		fn := ""
		off := func(p token.Pos) int { return fs.Position(p).Offset }
		emit := func(kind string, a, b token.Pos, repl string) {
			s, e := off(a), off(b)
			if string(src[s:e]) == repl {
				return
			}
			out.Encode(mutant{name, fs.Position(a).Line, fn, s, e, repl, string(src[s:e]), kind})
		}
		text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.ImportSpec:
				return false
			case *ast.FuncDecl:
				fn = x.Name.Name
			case *ast.GenDecl:
				if x.Tok == token.TYPE || x.Tok == token.IMPORT {
					return false
				}
			case *ast.BinaryExpr:
				swaps := map[token.Token][]string{
					token.LSS: {"<=", ">"}, token.LEQ: {"<", ">"}, token.GTR: {">=", "<"}, token.GEQ: {">", "<"},
					token.EQL: {"!="}, token.NEQ: {"=="}, token.LAND: {"||"}, token.LOR: {"&&"},
					token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"/"}, token.QUO: {"*"}, token.REM: {"*"},
				}
				for _, r := range swaps[x.Op] {
					emit("op", x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), r)
				}
				if x.Op == token.LAND || x.Op == token.LOR {
					emit("left", x.Pos(), x.End(), "("+text(x.X)+")")
					emit("right", x.Pos(), x.End(), "("+text(x.Y)+")")
				}
			case *ast.UnaryExpr:
				if x.Op == token.NOT {
					emit("not", x.OpPos, x.OpPos+1, "")
				}
			case *ast.BasicLit:
				switch x.Kind {
				case token.INT:
					v, err := strconv.Atoi(x.Value)
					if err == nil {
						emit("int", x.Pos(), x.End(), strconv.Itoa(v+1))
						emit("int", x.Pos(), x.End(), strconv.Itoa(v-1))
					}
				case token.FLOAT:
					v, _ := strconv.ParseFloat(x.Value, 64)
					emit("float", x.Pos(), x.End(), fmt.Sprint(v*1.1))
					emit("float", x.Pos(), x.End(), fmt.Sprint(v*0.9))
				case token.STRING:
					s, err := strconv.Unquote(x.Value)
					if err != nil {
						return true
					}
					if x.Value[0] == '`' && strings.ContainsAny(s, `|\(*+^$`) {
						for _, v := range regexVariants(s) {
							emit("regex", x.Pos(), x.End(), "`"+v+"`")
						}
						return true
					}
					emit("string", x.Pos(), x.End(), strconv.Quote(s+"x"))
					if s != "" && strings.Contains(s, ",") {
						parts := strings.Split(s, ",")
						for i := range parts {
							rest := append(append([]string{}, parts[:i]...), parts[i+1:]...)
							emit("string", x.Pos(), x.End(), strconv.Quote(strings.Join(rest, ",")))
						}
					}
				case token.CHAR:
					emit("char", x.Pos(), x.End(), `'\x01'`)
				}
			case *ast.CompositeLit:
				for i, e := range x.Elts {
					if i+1 < len(x.Elts) {
						emit("elem", e.Pos(), x.Elts[i+1].Pos(), "")
					} else if i > 0 {
						emit("elem", x.Elts[i-1].End(), e.End(), "")
					}
				}
			case *ast.CallExpr:
				// drop variadic arguments
				if len(x.Args) > 2 {
					for i := 1; i < len(x.Args); i++ {
						emit("arg", x.Args[i-1].End(), x.Args[i].End(), "")
					}
				}
			case *ast.IfStmt:
				emit("iftrue", x.Cond.Pos(), x.Cond.End(), "(("+text(x.Cond)+") || true)")
				emit("iffalse", x.Cond.Pos(), x.Cond.End(), "(("+text(x.Cond)+") && false)")
			case *ast.ForStmt:
				if x.Cond != nil {
					emit("forfalse", x.Cond.Pos(), x.Cond.End(), "(("+text(x.Cond)+") && false)")
				}
			case *ast.ExprStmt:
				emit("delete", x.Pos(), x.End(), "")
			case *ast.IncDecStmt:
				emit("delete", x.Pos(), x.End(), "")
			case *ast.AssignStmt:
				if x.Tok != token.DEFINE {
					emit("delete", x.Pos(), x.End(), "")
				}
				if x.Tok == token.ADD_ASSIGN {
					emit("op", x.TokPos, x.TokPos+2, "-=")
				}
			case *ast.BranchStmt:
				emit("delete", x.Pos(), x.End(), "")
				if x.Label == nil && x.Tok == token.BREAK {
					emit("branch", x.Pos(), x.End(), "continue")
				}
				if x.Label == nil && x.Tok == token.CONTINUE {
					emit("branch", x.Pos(), x.End(), "break")
				}
			case *ast.ReturnStmt:
				if len(x.Results) == 0 {
					emit("delete", x.Pos(), x.End(), "")
				}
				for _, r := range x.Results {
					if id, ok := r.(*ast.Ident); ok && (id.Name == "true" || id.Name == "false") {
						emit("bool", r.Pos(), r.End(), map[string]string{"true": "false", "false": "true"}[id.Name])
					}
				}
			case *ast.CaseClause:
				if len(x.List) > 1 {
					for i := 1; i < len(x.List); i++ {
						emit("case", x.List[i-1].End(), x.List[i].End(), "")
					}
				}
			}
			return true
		})
	}
}

// regexVariants: an alternative less, a flag less, an anchor less, a quantifier changed.
func regexVariants(s string) []string {
	var out []string
	add := func(v string) {
		if _, err := syntax.Parse(v, syntax.Perl); err == nil && v != s {
			out = append(out, v)
		}
	}
	if strings.HasPrefix(s, "(?i)") {
		add(s[4:])
	} else {
		add("(?i)" + s)
	}
	// alternatives at any depth
	type span struct{ a, b int }
	var stack []int
	start := 0
	if strings.HasPrefix(s, "(?i)") {
		start = 4
	}
	cur := start
	var alts []span
	flush := func(end int) { alts = append(alts, span{cur, end}) }
	inClass := false
	curs := []int{}
	for i := start; i < len(s); i++ {
		switch {
		case s[i] == '\\':
			i++
		case inClass:
			if s[i] == ']' {
				inClass = false
			}
		case s[i] == '[':
			inClass = true
			if i+1 < len(s) && s[i+1] == '^' {
				i++
			}
		case s[i] == '(':
			stack = append(stack, i)
			curs = append(curs, cur)
			cur = i + 1
			for i+1 < len(s) && (s[i+1] == '?' || s[i+1] == ':') {
				i++
				cur = i + 1
			}
		case s[i] == ')':
			flush(i)
			if len(curs) > 0 {
				cur = curs[len(curs)-1]
				curs = curs[:len(curs)-1]
				stack = stack[:len(stack)-1]
			}
		case s[i] == '|':
			flush(i)
			cur = i + 1
		}
	}
	flush(len(s))
	for _, a := range alts {
		if a.a > 0 && s[a.a-1] == '|' {
			add(s[:a.a-1] + s[a.b:])
		} else if a.b < len(s) && s[a.b] == '|' {
			add(s[:a.a] + s[a.b+1:])
		}
	}
	for i := start; i < len(s); i++ {
		switch s[i] {
		case '^', '$', '+', '*', '?':
			if i > 0 && s[i-1] == '\\' {
				continue
			}
			add(s[:i] + s[i+1:])
			if s[i] == '+' {
				add(s[:i] + "*" + s[i+1:])
			}
			if s[i] == '*' {
				add(s[:i] + "+" + s[i+1:])
			}
		case '\\':
			if i+1 < len(s) {
				add(s[:i] + s[i+2:])
			}
			i++
		}
	}
	return out
}
