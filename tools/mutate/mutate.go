// mutate lists and applies small changes to Go files:
//
//	mutate list FILE...          one line per mutant: file, number, line, what
//	mutate apply FILE N          writes the changed file to standard output
package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"sort"
	"strconv"
)

type mut struct {
	from, to int // byte offsets replaced
	with     string
	line     int
	what     string
}

func mutants(file string) ([]byte, []mut) {
	src, err := os.ReadFile(file)
	if err != nil {
		panic(err)
	}
	fset := token.NewFileSet()
	f, err := parser.ParseFile(fset, file, src, 0)
	if err != nil {
		panic(err)
	}
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	var ms []mut
	add := func(a, b token.Pos, with, what string) {
		ms = append(ms, mut{off(a), off(b), with, fset.Position(a).Line, what})
	}
	text := func(n ast.Node) string { return string(src[off(n.Pos()):off(n.End())]) }
	swap := map[token.Token][]string{
		token.EQL: {"!="}, token.NEQ: {"=="}, token.LSS: {"<=", ">"}, token.LEQ: {"<", ">="}, token.GTR: {">=", "<"}, token.GEQ: {">", "<="},
		token.LAND: {"||"}, token.LOR: {"&&"}, token.ADD: {"-"}, token.SUB: {"+"}, token.MUL: {"+"}, token.QUO: {"*"}, token.REM: {"/"},
		token.SHL: {">>"}, token.SHR: {"<<"}, token.AND: {"|"}, token.OR: {"&"}, token.XOR: {"|"},
	}
	asg := map[token.Token][]string{token.ADD_ASSIGN: {"-="}, token.SUB_ASSIGN: {"+="}, token.MUL_ASSIGN: {"+="}, token.OR_ASSIGN: {"&="}, token.SHL_ASSIGN: {">>="}, token.XOR_ASSIGN: {"="}}
	stmtDel := func(s ast.Stmt) {
		switch x := s.(type) {
		case *ast.ExprStmt, *ast.IncDecStmt, *ast.DeferStmt:
			add(s.Pos(), s.End(), "", "delete "+clip(text(s)))
		case *ast.AssignStmt:
			if x.Tok != token.DEFINE {
				add(s.Pos(), s.End(), "", "delete "+clip(text(s)))
			}
		case *ast.BranchStmt:
			add(s.Pos(), s.End(), "", "delete "+clip(text(s)))
			if x.Tok == token.BREAK {
				add(s.Pos(), s.End(), "continue", "break to continue")
			} else if x.Tok == token.CONTINUE {
				add(s.Pos(), s.End(), "break", "continue to break")
			}
		case *ast.ReturnStmt:
			add(s.Pos(), s.End(), "", "delete "+clip(text(s)))
		case *ast.IfStmt:
			if x.Else == nil {
				add(s.Pos(), s.End(), "", "delete if "+clip(text(x.Cond)))
			}
		case *ast.ForStmt, *ast.RangeStmt:
			add(s.Pos(), s.End(), "", "delete loop "+clip(text(s)))
		}
	}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.ImportSpec:
			return false
		case *ast.BinaryExpr:
			for _, w := range swap[x.Op] {
				add(x.OpPos, x.OpPos+token.Pos(len(x.Op.String())), w, clip(text(x))+": "+x.Op.String()+" to "+w)
			}
			if x.Op == token.LAND || x.Op == token.LOR {
				add(x.Pos(), x.End(), text(x.X), clip(text(x))+": left only")
				add(x.Pos(), x.End(), text(x.Y), clip(text(x))+": right only")
			}
		case *ast.UnaryExpr:
			if x.Op == token.NOT {
				add(x.Pos(), x.End(), text(x.X), "drop ! of "+clip(text(x)))
			}
		case *ast.BasicLit:
			switch x.Kind {
			case token.INT:
				if v, err := strconv.ParseInt(x.Value, 0, 64); err == nil {
					add(x.Pos(), x.End(), fmt.Sprint(v+1), fmt.Sprintf("%d to %d", v, v+1))
					if v > 0 {
						add(x.Pos(), x.End(), fmt.Sprint(v-1), fmt.Sprintf("%d to %d", v, v-1))
					}
				}
			case token.CHAR:
				w := "'q'"
				add(x.Pos(), x.End(), w, x.Value+" to "+w)
			case token.STRING:
				if len(x.Value) > 2 {
					add(x.Pos(), x.End(), x.Value[:len(x.Value)-1]+"q"+x.Value[len(x.Value)-1:], clip(x.Value)+" changed")
				}
			}
		case *ast.Ident:
			if x.Name == "true" {
				add(x.Pos(), x.End(), "false", "true to false")
			} else if x.Name == "false" {
				add(x.Pos(), x.End(), "true", "false to true")
			}
		case *ast.IfStmt:
			add(x.Cond.Pos(), x.Cond.End(), "true || ("+text(x.Cond)+")", "if always "+clip(text(x.Cond)))
			add(x.Cond.Pos(), x.Cond.End(), "false && ("+text(x.Cond)+")", "if never "+clip(text(x.Cond)))
		case *ast.IncDecStmt:
			w := "--"
			if x.Tok == token.DEC {
				w = "++"
			}
			add(x.TokPos, x.TokPos+2, w, clip(text(x))+" to "+w)
		case *ast.AssignStmt:
			for _, w := range asg[x.Tok] {
				add(x.TokPos, x.TokPos+token.Pos(len(x.Tok.String())), w, clip(text(x))+" to "+w)
			}
		case *ast.BlockStmt:
			for _, s := range x.List {
				stmtDel(s)
			}
		case *ast.CaseClause:
			for _, s := range x.Body {
				stmtDel(s)
			}
		case *ast.SliceExpr:
			if x.High != nil {
				add(x.High.Pos(), x.High.End(), "("+text(x.High)+")-1", "slice to one less "+clip(text(x)))
			}
			if x.Low != nil {
				add(x.Low.Pos(), x.Low.End(), "("+text(x.Low)+")+1", "slice from one more "+clip(text(x)))
			}
		}
		return true
	})
	sort.SliceStable(ms, func(i, j int) bool { return ms[i].from < ms[j].from })
	return src, ms
}

func clip(s string) string {
	b := []byte{}
	for i := 0; i < len(s) && i < 70; i++ {
		if s[i] == '\n' || s[i] == '\t' {
			b = append(b, ' ')
		} else {
			b = append(b, s[i])
		}
	}
	return string(b)
}

func main() {
	switch os.Args[1] {
	case "list":
		for _, f := range os.Args[2:] {
			_, ms := mutants(f)
			for i, m := range ms {
				fmt.Printf("%s\t%d\t%d\t%s\n", f, i, m.line, m.what)
			}
		}
	case "apply":
		src, ms := mutants(os.Args[2])
		n, _ := strconv.Atoi(os.Args[3])
		m := ms[n]
		os.Stdout.Write(src[:m.from])
		os.Stdout.WriteString(m.with)
		os.Stdout.Write(src[m.to:])
	}
}
