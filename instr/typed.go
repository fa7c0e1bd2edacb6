package main

// What needs type information: yields inside expressions, watched maps, seeded
// map iteration, simulated channels. Without type information (the package
// does not type-check here) the instrumenter does without them.

import (
	"fmt"
	"go/ast"
	"go/importer"
	"go/token"
	"go/types"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
)

type typed struct {
	info *types.Info
	pkg  *types.Package
	fset *token.FileSet
	race bool // watch maps
	ch   bool // simulate channels
}

func typeCheck(repo string, fset *token.FileSet, files []*ast.File) *typed {
	cmd := exec.Command("go", "list", "-export", "-e", "-deps", "-f", "{{if .Export}}{{.ImportPath}}\t{{.Export}}{{end}}", ".")
	cmd.Dir = repo
	out, err := cmd.Output()
	if err != nil && len(out) == 0 {
		return nil
	}
	exp := map[string]string{}
	for _, l := range strings.Split(string(out), "\n") {
		if i := strings.IndexByte(l, '\t'); i > 0 {
			exp[l[:i]] = l[i+1:]
		}
	}
	imp := importer.ForCompiler(fset, "gc", func(path string) (io.ReadCloser, error) {
		f, ok := exp[path]
		if !ok {
			return nil, fmt.Errorf("no export data for %q", path)
		}
		return os.Open(f)
	})
	n := 0
	conf := types.Config{Importer: imp, Error: func(error) { n++ }}
	info := &types.Info{Types: map[ast.Expr]types.TypeAndValue{}, Uses: map[*ast.Ident]types.Object{}, Defs: map[*ast.Ident]types.Object{}, Selections: map[*ast.SelectorExpr]*types.Selection{}}
	pkg, _ := conf.Check("main", fset, files, info)
	if n > 0 || pkg == nil {
		return nil
	}
	return &typed{info: info, pkg: pkg, fset: fset}
}

func (t *typed) is(e ast.Expr, f func(types.Type) bool) bool {
	tv, ok := t.info.Types[e]
	return ok && tv.Type != nil && f(tv.Type)
}

func isMap(x types.Type) bool  { _, ok := x.Underlying().(*types.Map); return ok }
func isChan(x types.Type) bool { _, ok := x.Underlying().(*types.Chan); return ok }

// own says whether the callee is a function of the package itself, whose
// statements yield anyway.
func (t *typed) callee(c *ast.CallExpr) types.Object {
	switch f := ast.Unparen(c.Fun).(type) {
	case *ast.Ident:
		return t.info.Uses[f]
	case *ast.SelectorExpr:
		return t.info.Uses[f.Sel]
	case *ast.IndexExpr:
		if id, ok := f.X.(*ast.Ident); ok {
			return t.info.Uses[id]
		}
		if s, ok := f.X.(*ast.SelectorExpr); ok {
			return t.info.Uses[s.Sel]
		}
	}
	return nil
}

// wraps finds calls nested in larger expressions after which the thread may be
// preempted.
func (t *typed) wraps(body ast.Node, add func(c *ast.CallExpr)) {
	var stack []ast.Node
	ast.Inspect(body, func(n ast.Node) bool {
		if n == nil {
			stack = stack[:len(stack)-1]
			return true
		}
		if c, ok := n.(*ast.CallExpr); ok && len(stack) > 0 {
			good := true
			switch p := stack[len(stack)-1].(type) {
			case *ast.ExprStmt, *ast.GoStmt, *ast.DeferStmt, *ast.AssignStmt, *ast.ReturnStmt, *ast.ValueSpec:
				good = false
			case *ast.CallExpr:
				good = p.Fun != c
			}
			for _, a := range stack {
				// the header of such a loop may be replaced as a whole
				if r, isR := a.(*ast.RangeStmt); isR && r.X.Pos() <= c.Pos() && c.End() <= r.X.End() {
					good = false
				}
			}
			tv, ok := t.info.Types[c]
			fv, ok2 := t.info.Types[c.Fun]
			if good && ok && ok2 && tv.IsValue() && !fv.IsType() && !fv.IsBuiltin() && tv.Value == nil {
				if _, tuple := tv.Type.(*types.Tuple); !tuple {
					if o := t.callee(c); o == nil || o.Pkg() != t.pkg {
						add(c)
					}
				}
			}
		}
		stack = append(stack, n)
		return true
	})
}

// pure says whether reading e has no side effect, and that everything it names
// is in scope before stmt.
func (t *typed) pure(e ast.Expr, stmt ast.Stmt) bool {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return t.pure(x.X, stmt)
	case *ast.StarExpr:
		return t.pure(x.X, stmt)
	case *ast.SelectorExpr:
		if s, ok := t.info.Selections[x]; !ok || s.Kind() != types.FieldVal {
			return false
		}
		return t.pure(x.X, stmt)
	case *ast.Ident:
		v, ok := t.info.Uses[x].(*types.Var)
		if !ok {
			return false
		}
		return v.Parent() == t.pkg.Scope() || v.Pos() < stmt.Pos()
	}
	return false
}

type mapUse struct {
	e     ast.Expr
	write bool
}

// maps lists the map accesses a statement makes by itself.
func (t *typed) maps(s ast.Stmt) (us []mapUse) {
	add := func(e ast.Expr, w bool) {
		e = ast.Unparen(e)
		if t.is(e, isMap) && t.pure(e, s) {
			us = append(us, mapUse{e, w})
		}
	}
	var reads func(n ast.Node)
	reads = func(n ast.Node) {
		if n == nil {
			return
		}
		ast.Inspect(n, func(x ast.Node) bool {
			switch y := x.(type) {
			case *ast.FuncLit, *ast.BlockStmt:
				return false
			case *ast.IndexExpr:
				add(y.X, false)
			case *ast.CallExpr:
				if id, ok := y.Fun.(*ast.Ident); ok && len(y.Args) > 0 {
					if _, b := t.info.Uses[id].(*types.Builtin); b {
						add(y.Args[0], id.Name == "delete" || id.Name == "clear")
					}
				}
			}
			return true
		})
	}
	lhs := func(e ast.Expr) {
		if ix, ok := ast.Unparen(e).(*ast.IndexExpr); ok && t.is(ix.X, isMap) {
			add(ix.X, true)
			reads(ix.Index)
			return
		}
		reads(e)
	}
	init := func(i ast.Stmt) bool {
		if i == nil {
			return true
		}
		if _, ok := i.(*ast.ExprStmt); ok {
			return false // may take a lock
		}
		if a, ok := i.(*ast.AssignStmt); ok {
			for _, e := range a.Rhs {
				reads(e)
			}
		}
		return true
	}
	switch x := s.(type) {
	case *ast.AssignStmt:
		for _, e := range x.Lhs {
			lhs(e)
		}
		for _, e := range x.Rhs {
			reads(e)
		}
	case *ast.IncDecStmt:
		lhs(x.X)
	case *ast.ExprStmt, *ast.ReturnStmt, *ast.DeclStmt, *ast.SendStmt:
		reads(x)
	case *ast.IfStmt:
		if init(x.Init) {
			reads(x.Cond)
		}
	case *ast.ForStmt:
		if init(x.Init) && x.Cond != nil {
			reads(x.Cond)
		}
	case *ast.SwitchStmt:
		if init(x.Init) && x.Tag != nil {
			reads(x.Tag)
		}
	case *ast.RangeStmt:
		add(x.X, false)
		reads(x.X)
	}
	return
}

// rangeMap rewrites a loop over a map into one whose order is drawn from the
// seed of the run.
func (t *typed) rangeMap(src []byte, r *ast.RangeStmt) (edit, bool) {
	off := func(p token.Pos) int { return t.fset.Position(p).Offset }
	if !t.is(r.X, isMap) || r.Key == nil {
		return edit{}, false
	}
	txt := func(e ast.Expr) string {
		if e == nil {
			return "_"
		}
		if id, ok := e.(*ast.Ident); ok {
			return id.Name
		}
		return ""
	}
	k, v := txt(r.Key), txt(r.Value)
	if k == "" || v == "" {
		return edit{}, false
	}
	m := string(src[off(r.X.Pos()):off(r.X.End())])
	ptr := func(n string) string {
		if n == "_" {
			return "nil"
		}
		return "&" + n
	}
	text := ""
	if r.Tok == token.DEFINE {
		text = fmt.Sprintf("for %s, %s, vsIt := vsIter(%s); vsIt.Next(%s, %s); ", k, v, m, ptr(k), ptr(v))
	} else {
		text = fmt.Sprintf("for _, _, vsIt := vsIter(%s); vsIt.Next(%s, %s); ", m, ptr(k), ptr(v))
	}
	return edit{off(r.Pos()), off(r.X.End()), text, 3}, true
}

// chanEdits rewrites channels to simulated ones; ok is false if some use is
// beyond it.
func (t *typed) chanEdits(f *ast.File) (es []edit, ok bool) {
	off := func(p token.Pos) int { return t.fset.Position(p).Offset }
	ok = true
	done := map[ast.Node]bool{}
	two := map[ast.Expr]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.AssignStmt:
			if len(x.Lhs) == 2 && len(x.Rhs) == 1 {
				two[ast.Unparen(x.Rhs[0])] = true
			}
		case *ast.SelectStmt:
			ok = false
		case *ast.ChanType:
			if done[x] {
				return true
			}
			es = append(es, edit{off(x.Pos()), off(x.Value.Pos()), "*vsChan[", 4}, edit{off(x.End()), off(x.End()), "]", 4})
		case *ast.CallExpr:
			for _, a := range x.Args {
				if t.is(a, isChan) {
					if o := t.callee(x); o != nil && o.Pkg() != nil && o.Pkg() != t.pkg {
						ok = false
					}
				}
			}
			if t.is(x, isChan) {
				if o := t.callee(x); o != nil && o.Pkg() != nil && o.Pkg() != t.pkg {
					ok = false
				}
			}
			id, isID := x.Fun.(*ast.Ident)
			if !isID || len(x.Args) == 0 {
				return true
			}
			if _, b := t.info.Uses[id].(*types.Builtin); !b {
				return true
			}
			switch id.Name {
			case "make":
				if !t.is(x.Args[0], isChan) {
					return true
				}
				c, lit := x.Args[0].(*ast.ChanType)
				if !lit {
					ok = false
					return true
				}
				done[c] = true
				es = append(es, edit{off(x.Pos()), off(c.Value.Pos()), "vsMakeChan[", 4})
				if len(x.Args) == 1 {
					es = append(es, edit{off(c.Value.End()), off(x.Rparen), "](0", 4})
				} else {
					es = append(es, edit{off(c.Value.End()), off(x.Args[1].Pos()), "](", 4})
				}
			case "close", "len", "cap":
				if t.is(x.Args[0], isChan) {
					es = append(es, edit{off(x.Pos()), off(x.Args[0].Pos()), "", 4}, edit{off(x.Args[0].End()), off(x.End()), "." + strings.ToUpper(id.Name[:1]) + id.Name[1:] + "()", 4})
				}
			}
		case *ast.SelectorExpr:
			if t.is(x, isChan) {
				if o := t.info.Uses[x.Sel]; o != nil && o.Pkg() != t.pkg {
					ok = false
				}
			}
		case *ast.SendStmt:
			es = append(es, edit{off(x.Chan.End()), off(x.Value.Pos()), ".Send(", 4}, edit{off(x.Value.End()), off(x.Value.End()), ")", 6})
		case *ast.UnaryExpr:
			if x.Op == token.ARROW {
				m := ".Recv()"
				if two[x] {
					m = ".Recv2()"
				}
				es = append(es, edit{off(x.Pos()), off(x.X.Pos()), "", 4}, edit{off(x.End()), off(x.End()), m, 4})
			}
		case *ast.ValueSpec:
			if len(x.Names) == 2 && len(x.Values) == 1 {
				two[ast.Unparen(x.Values[0])] = true
			}
		case *ast.RangeStmt:
			if t.is(x.X, isChan) {
				v, op := "_", ":="
				if x.Key != nil {
					id, isID := x.Key.(*ast.Ident)
					if !isID || x.Tok != token.DEFINE {
						ok = false
						return true
					}
					v = id.Name
				}
				c := "(" + nodeText(t.fset, x.X) + ")"
				es = append(es, edit{off(x.Pos()), off(x.X.End()), "for " + v + ", vsOK " + op + " " + c + ".Recv2(); vsOK; " + v + ", vsOK = " + c + ".Recv2() ", 3})
			}
		}
		return true
	})
	return
}

func (t *typed) importsAny(files []*ast.File, paths ...string) bool {
	for _, f := range files {
		for _, im := range f.Imports {
			p, _ := strconv.Unquote(im.Path.Value)
			for _, q := range paths {
				if p == q {
					return true
				}
			}
		}
	}
	return false
}
