// Command mutate lists or applies small syntactic changes to the non-test files
// of a package, to look for changes the checks do not notice.
//
//	mutate -repo DIR            lists mutants, one per line
//	mutate -repo DIR -n K       applies mutant K in place
package main

import (
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type mut struct {
	file     string
	line     int
	off, end int
	text     string
	what     string
}

func main() {
	repo := flag.String("repo", "", "")
	n := flag.Int("n", -1, "")
	flag.Parse()
	names, _ := filepath.Glob(filepath.Join(*repo, "*.go"))
	sort.Strings(names)
	fset := token.NewFileSet()
	var ms []mut
	for _, name := range names {
		if strings.HasSuffix(name, "_test.go") {
			continue
		}
		src, _ := os.ReadFile(name)
		f, err := parser.ParseFile(fset, name, src, 0)
		if err != nil {
			panic(err)
		}
		off := func(p token.Pos) int { return fset.Position(p).Offset }
		txt := func(x ast.Node) string { return string(src[off(x.Pos()):off(x.End())]) }
		add := func(x ast.Node, t, what string) {
			ms = append(ms, mut{filepath.Base(name), fset.Position(x.Pos()).Line, off(x.Pos()), off(x.End()), t, what})
		}
		stmts := func(l []ast.Stmt) {
			for _, s := range l {
				switch x := s.(type) {
				case *ast.ExprStmt:
					add(x, "", "delete")
				case *ast.AssignStmt:
					if x.Tok == token.ASSIGN {
						var keep []string
						for _, r := range x.Rhs {
							keep = append(keep, "_ = "+txt(r))
						}
						if len(x.Lhs) == len(x.Rhs) {
							add(x, strings.Join(keep, "; "), "drop result")
						}
					}
				case *ast.IfStmt:
					if x.Else == nil && x.Init == nil {
						add(x, "_ = "+txt(x.Cond), "drop if")
					}
				case *ast.ReturnStmt:
					if len(x.Results) == 1 {
						if c, ok := x.Results[0].(*ast.CallExpr); ok && strings.HasPrefix(txt(c.Fun), "Verify") {
							add(x, "return nil", "return nil instead")
						}
						if txt(x.Results[0]) == "err" {
							add(x, "return nil", "swallow error")
						}
					}
				}
			}
		}
		ast.Inspect(f, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.BlockStmt:
				stmts(y.List)
			case *ast.CaseClause:
				stmts(y.Body)
			case *ast.IfStmt:
				add(y.Cond, "!("+txt(y.Cond)+")", "negate")
			case *ast.BasicLit:
				if y.Kind == token.INT {
					if k, err := strconv.Atoi(y.Value); err == nil {
						add(y, strconv.Itoa(k+1), "int+1")
						if k > 0 {
							add(y, strconv.Itoa(k-1), "int-1")
						}
					}
				}
				if y.Kind == token.STRING && len(y.Value) > 12 && y.Value[1] >= '0' && y.Value[1] <= '9' {
					b := []byte(y.Value)
					k := len(b) / 2
					if b[k] == '9' {
						b[k] = '8'
					} else {
						b[k]++
					}
					add(y, string(b), "digit")
				}
			case *ast.BinaryExpr:
				alt := map[token.Token]string{token.ADD: "-", token.SUB: "+", token.LSS: "<=", token.LEQ: "<", token.GTR: ">=", token.GEQ: ">", token.EQL: "!=", token.LAND: "||", token.LOR: "&&", token.SHL: ">>"}
				if a, ok := alt[y.Op]; ok {
					add(y, txt(y.X)+" "+a+" "+txt(y.Y), "op "+y.Op.String())
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(y.Args); i++ {
					a, b := txt(y.Args[i]), txt(y.Args[i+1])
					if a != b && a != "api" {
						ms = append(ms, mut{filepath.Base(name), fset.Position(y.Pos()).Line, off(y.Args[i].Pos()), off(y.Args[i+1].End()), b + ", " + a, "swap args"})
					}
				}
			}
			return true
		})
	}
	if *n < 0 {
		for i, m := range ms {
			b, _ := os.ReadFile(filepath.Join(*repo, m.file))
			was := strings.Join(strings.Fields(string(b[m.off:m.end])), " ")
			if len(was) > 100 {
				was = was[:100]
			}
			fmt.Printf("%d\t%s:%d\t%s\t%s\t=> %s\n", i, m.file, m.line, m.what, was, strings.Join(strings.Fields(m.text), " "))
		}
		return
	}
	m := ms[*n]
	p := filepath.Join(*repo, m.file)
	b, _ := os.ReadFile(p)
	os.WriteFile(p, []byte(string(b[:m.off])+m.text+string(b[m.end:])), 0o644)
}
