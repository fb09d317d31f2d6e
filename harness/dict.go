package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// The dictionary steers generation, as the dictionaries of fuzzers do: the
// numbers and strings that the code under test mentions are likely to be where
// its behaviour changes, so sizes, numbers, names and strings near them are
// drawn more often. It takes no part in any decision.
type dictionary struct {
	Ints    []int    `json:"ints"`
	Strings []string `json:"strings"`
}

var (
	dictOnce sync.Once
	dictVal  dictionary
)

func theDict() *dictionary {
	dictOnce.Do(func() {
		if f := os.Getenv("PDFVERIF_DICT"); f != "" {
			if b, err := os.ReadFile(f); err == nil {
				json.Unmarshal(b, &dictVal)
			}
		}
	})
	return &dictVal
}

// between lists the numbers of the dictionary (and their neighbours) in [lo,hi].
func (d *dictionary) between(lo, hi int) []int {
	i := sort.SearchInts(d.Ints, lo)
	j := sort.SearchInts(d.Ints, hi+1)
	return d.Ints[i:j]
}

// words that end or start parts of a file are left out: text that looks like
// the structure of the file is the subject of special generators
var structural = []string{"xref", "obj", "stream", "trailer", "%%EOF", "github.com", "golang.org", "XRef", "EmbeddedFile"}

func harvest(root string) dictionary {
	ints, strs := map[int]bool{}, map[string]bool{}
	var eval func(e ast.Expr) (int64, bool)
	eval = func(e ast.Expr) (int64, bool) {
		switch x := e.(type) {
		case *ast.ParenExpr:
			return eval(x.X)
		case *ast.BasicLit:
			if x.Kind == token.INT {
				v, err := strconv.ParseInt(x.Value, 0, 64)
				return v, err == nil
			}
		case *ast.BinaryExpr:
			a, ok1 := eval(x.X)
			b, ok2 := eval(x.Y)
			if !ok1 || !ok2 || a < 0 || b < 0 {
				return 0, false
			}
			switch x.Op {
			case token.SHL:
				if b < 40 && a < 1<<20 {
					return a << uint(b), true
				}
			case token.MUL:
				if a < 1<<30 && b < 1<<30 {
					return a * b, true
				}
			case token.ADD:
				return a + b, true
			case token.SUB:
				return a - b, true
			}
		}
		return 0, false
	}
	var files []string
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") && !strings.HasSuffix(p, "_test.go") {
			files = append(files, p)
		}
		return nil
	})
	for _, f := range files {
		t, err := parser.ParseFile(token.NewFileSet(), f, nil, 0)
		if err != nil {
			continue
		}
		ast.Inspect(t, func(n ast.Node) bool {
			if _, ok := n.(*ast.ImportSpec); ok {
				return false
			}
			if e, ok := n.(ast.Expr); ok {
				if v, ok := eval(e); ok && v >= 16 && v < 1<<40 {
					for d := int64(-1); d <= 1; d++ {
						ints[int(v+d)] = true
					}
				}
			}
			if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.STRING {
				if s, err := strconv.Unquote(l.Value); err == nil && len(s) > 0 && len(s) <= 40 {
					for _, w := range structural {
						if strings.Contains(s, w) {
							return true
						}
					}
					strs[s] = true
				}
			}
			return true
		})
	}
	var d dictionary
	for v := range ints {
		d.Ints = append(d.Ints, v)
	}
	for s := range strs {
		d.Strings = append(d.Strings, s)
	}
	sort.Ints(d.Ints)
	sort.Strings(d.Strings)
	return d
}

func printDict(root string) {
	b, _ := json.Marshal(harvest(root))
	fmt.Println(string(b))
}
