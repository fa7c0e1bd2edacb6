// Command instr prepares the simulated build of the package under test.
//
// It reads the non-test Go files of -repo, writes instrumented copies to -out,
// generates the binding file that ties the harness to whatever functions and
// types the package has today, and writes the overlay used by
// `go test -c -overlay`. Nothing under -repo is modified.
//
// Modes (the driver falls back from one to the next when a build fails):
//
//	full   statement-level yield points, simulated sync / go / time / rand,
//	       and what needs type information (typed.go)
//	plain  the same without type information
//	light  only the SRS seam; sessions can be interleaved at API calls only
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type edit struct {
	off  int // byte offset in the original
	end  int // replaced range [off,end)
	text string
	pri  int // order of insertions at one offset
}

type siteInfo struct {
	File string `json:"file"`
	Line int    `json:"line"`
	Func string `json:"func"`
	Hot  bool   `json:"hot"`
}

func die(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "instr:", err)
		os.Exit(3)
	}
}

func main() {
	repo := flag.String("repo", "/repo", "")
	out := flag.String("out", "", "")
	harness := flag.String("harness", "", "")
	mode := flag.String("mode", "full", "")
	flag.Parse()
	die(os.MkdirAll(*out, 0o755))

	names, err := filepath.Glob(filepath.Join(*repo, "*.go"))
	die(err)
	sort.Strings(names)
	fset := token.NewFileSet()
	overlay := map[string]string{}
	var files []*ast.File
	var paths []string
	srcs := map[string][]byte{}
	pkgVars := map[string]bool{}
	pkg := ""
	usesChan, usesGo := false, false
	for _, n := range names {
		if strings.HasSuffix(n, "_test.go") {
			overlay[n] = ""
			continue
		}
		src, err := os.ReadFile(n)
		die(err)
		f, err := parser.ParseFile(fset, n, src, parser.ParseComments)
		die(err)
		if ignoredByBuild(src) {
			continue
		}
		pkg = f.Name.Name
		files = append(files, f)
		paths = append(paths, n)
		srcs[n] = src
		for _, d := range f.Decls {
			if g, ok := d.(*ast.GenDecl); ok && g.Tok == token.VAR {
				for _, s := range g.Specs {
					for _, id := range s.(*ast.ValueSpec).Names {
						if id.Name != "_" {
							pkgVars[id.Name] = true
						}
					}
				}
			}
		}
		ast.Inspect(f, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.GoStmt:
				usesGo = true
			case *ast.ChanType, *ast.SelectStmt, *ast.SendStmt:
				usesChan = true
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					usesChan = true
				}
			}
			return true
		})
	}
	var ty *typed
	plain := *mode == "plain"
	if plain {
		*mode = "full"
	}
	if *mode == "full" && !plain {
		ty = typeCheck(*repo, fset, files)
		if ty != nil {
			ty.race = !ty.importsAny(files, "sync/atomic")
			ty.ch = usesChan
		}
	}
	if *mode == "full" && usesChan {
		ok := ty != nil
		for _, f := range files {
			if ok {
				_, ok = ty.chanEdits(f)
			}
		}
		if !ok {
			// channel operations block for real: no statement-level scheduling
			*mode = "light"
		}
	}
	var sites []siteInfo
	for i, f := range files {
		res, ss := instrument(fset, f, srcs[paths[i]], paths[i], *mode, pkgVars, len(sites), ty)
		sites = append(sites, ss...)
		dst := filepath.Join(*out, "i_"+filepath.Base(paths[i]))
		die(os.WriteFile(dst, res, 0o644))
		overlay[paths[i]] = dst
	}

	bind := genBindings(fset, files, pkg)
	// without simulated threads, threads of the package's own run for real
	bind = append(bind, fmt.Sprintf("\nconst vsForeignGo = %v\n", *mode != "full" && usesGo)...)
	bf := filepath.Join(*out, "vs_bind_verif_test.go")
	die(os.WriteFile(bf, bind, 0o644))
	overlay[filepath.Join(*repo, "vs_bind_verif_test.go")] = bf

	hs, err := filepath.Glob(filepath.Join(*harness, "*.go"))
	die(err)
	for _, h := range hs {
		src, err := os.ReadFile(h)
		die(err)
		// the harness is written as package main; follow a renamed package
		src = bytes.Replace(src, []byte("package main\n"), []byte("package "+pkg+"\n"), 1)
		dst := filepath.Join(*out, "h_"+filepath.Base(h))
		die(os.WriteFile(dst, src, 0o644))
		overlay[filepath.Join(*repo, "vs_"+strings.TrimSuffix(filepath.Base(h), ".go")+"_verif_test.go")] = dst
	}
	sb, _ := json.Marshal(sites)
	die(os.WriteFile(filepath.Join(*out, "sites.json"), sb, 0o644))
	ob, _ := json.MarshalIndent(map[string]any{"Replace": overlay}, "", " ")
	die(os.WriteFile(filepath.Join(*out, "overlay.json"), ob, 0o644))
	die(os.WriteFile(filepath.Join(*out, "mode"), []byte(*mode), 0o644))
}

func ignoredByBuild(src []byte) bool {
	i := bytes.Index(src, []byte("package "))
	head := src
	if i >= 0 {
		head = src[:i]
	}
	return bytes.Contains(head, []byte("//go:build ignore"))
}

func importName(f *ast.File, path string) string {
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		if p == path {
			if im.Name != nil {
				if im.Name.Name == "_" || im.Name.Name == "." {
					return ""
				}
				return im.Name.Name
			}
			if p == "math/rand/v2" {
				return "rand"
			}
			return p[strings.LastIndex(p, "/")+1:]
		}
	}
	return ""
}

func instrument(fset *token.FileSet, f *ast.File, src []byte, path, mode string, pkgVars map[string]bool, base int, ty *typed) ([]byte, []siteInfo) {
	var edits []edit
	var sites []siteInfo
	tail := ""
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	rel := filepath.Base(path)

	syncN := importName(f, "sync")
	timeN := importName(f, "time")
	randN := importName(f, "math/rand")
	rand2N := importName(f, "math/rand/v2")
	runtimeN := importName(f, "runtime")
	crandN := importName(f, "crypto/rand")
	g2N := importName(f, "github.com/consensys/gnark/std/algebra/emulated/sw_bn254")

	isPkg := func(e ast.Expr, name string) bool {
		id, ok := e.(*ast.Ident)
		return ok && name != "" && id.Name == name && id.Obj == nil
	}
	repl := func(n ast.Node, text string) {
		edits = append(edits, edit{off(n.Pos()), off(n.End()), text, 5})
	}
	ast.Inspect(f, func(n ast.Node) bool {
		s, ok := n.(*ast.SelectorExpr)
		if !ok {
			return true
		}
		if isPkg(s.X, g2N) && s.Sel.Name == "NewG2Affine" {
			repl(s, "vsNewG2Affine")
			return false
		}
		if mode != "full" {
			return true
		}
		switch {
		case isPkg(s.X, syncN):
			switch s.Sel.Name {
			case "Mutex", "RWMutex", "Once", "WaitGroup", "Pool", "Cond", "NewCond", "OnceFunc", "OnceValue", "OnceValues":
				repl(s, "vs"+s.Sel.Name)
				return false
			case "Map":
				repl(s, "vsSyncMap")
				return false
			}
		case isPkg(s.X, timeN):
			switch s.Sel.Name {
			case "Now", "Since", "Sleep":
				repl(s, "vs"+s.Sel.Name)
				return false
			}
		case isPkg(s.X, randN):
			switch s.Sel.Name {
			case "Intn", "Int", "Int63", "Int63n", "Int31", "Int31n", "Uint32", "Uint64", "Float64", "Perm", "Shuffle", "Seed", "Read":
				repl(s, "vsRandG()."+s.Sel.Name)
				return false
			}
		case isPkg(s.X, rand2N):
			switch s.Sel.Name {
			case "Int", "IntN", "Int64", "Int64N", "Int32", "Int32N", "Uint32", "Uint32N", "Uint64", "Uint64N", "UintN", "Float32", "Float64", "NormFloat64", "ExpFloat64", "Perm", "Shuffle":
				repl(s, "vsRandG2()."+s.Sel.Name)
				return false
			}
		case isPkg(s.X, runtimeN):
			if s.Sel.Name == "Gosched" {
				repl(s, "vsGosched")
				return false
			}
		case isPkg(s.X, crandN):
			switch s.Sel.Name {
			case "Reader":
				repl(s, "vsCryptoReader")
				return false
			case "Read":
				repl(s, "vsCryptoReader.Read")
				return false
			}
		}
		return true
	})
	if g2N != "" {
		tail += "\nvar _ = " + g2N + ".NewG2Affine\n"
	}
	if mode == "full" {
		if syncN != "" {
			tail += "\nvar _ " + syncN + ".Locker\n"
		}
		if timeN != "" {
			tail += "\nvar _ " + timeN + ".Duration\n"
		}
		if randN != "" {
			tail += "\nvar _ = " + randN + ".Int\n"
		}
		if rand2N != "" {
			tail += "\nvar _ = " + rand2N + ".Int\n"
		}
		if runtimeN != "" {
			tail += "\nvar _ = " + runtimeN + ".Gosched\n"
		}
		if crandN != "" {
			tail += "\nvar _ = " + crandN + ".Read\n"
		}
		fn, warm := "", false
		var list func(l []ast.Stmt)
		list = func(l []ast.Stmt) {
			for _, s := range l {
				if _, ok := s.(*ast.EmptyStmt); ok {
					continue
				}
				hot := false
				switch x := s.(type) {
				case *ast.AssignStmt, *ast.ExprStmt, *ast.IncDecStmt, *ast.ReturnStmt, *ast.DeclStmt, *ast.DeferStmt, *ast.SendStmt:
					hot = refs(x, pkgVars)
				case *ast.IfStmt:
					hot = refs(x.Cond, pkgVars) || (x.Init != nil && refs(x.Init, pkgVars))
				case *ast.RangeStmt:
					hot = refs(x.X, pkgVars)
				case *ast.ForStmt:
					hot = (x.Cond != nil && refs(x.Cond, pkgVars)) || (x.Init != nil && refs(x.Init, pkgVars))
				case *ast.SwitchStmt:
					hot = x.Tag != nil && refs(x.Tag, pkgVars)
				}
				id := base + len(sites)
				sites = append(sites, siteInfo{rel, fset.Position(s.Pos()).Line, fn, hot})
				call := "vsY(" + strconv.Itoa(id) + ");"
				if hot {
					call = "vsYH(" + strconv.Itoa(id) + ");"
				} else if warm {
					call = "vsYW(" + strconv.Itoa(id) + ");"
				}
				if ty != nil && ty.race {
					for _, u := range ty.maps(s) {
						call += fmt.Sprintf("vsMapAt(%d, %v, func() any { return %s });", id, u.write, src[off(u.e.Pos()):off(u.e.End())])
					}
				}
				edits = append(edits, edit{off(s.Pos()), off(s.Pos()), call, 1})
				if r, ok := s.(*ast.RangeStmt); ok && ty != nil {
					if e, ok := ty.rangeMap(src, r); ok {
						edits = append(edits, e)
					}
				}
				if g, ok := s.(*ast.GoStmt); ok {
					edits = append(edits, goEdits(fset, src, g)...)
				}
			}
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Body == nil {
				continue
			}
			fn, warm = fd.Name.Name, refs(fd.Body, pkgVars)
			if ty != nil {
				ty.wraps(fd.Body, func(c *ast.CallExpr) {
					edits = append(edits, edit{off(c.Pos()), off(c.Pos()), "vsAfter(", 2}, edit{off(c.End()), off(c.End()), ")", 2})
				})
			}
			ast.Inspect(fd.Body, func(n ast.Node) bool {
				switch b := n.(type) {
				case *ast.BlockStmt:
					list(b.List)
				case *ast.CaseClause:
					list(b.Body)
				case *ast.CommClause:
					list(b.Body)
				case *ast.SwitchStmt:
					// the clauses are visited themselves, not as statements
					for _, c := range b.Body.List {
						ast.Inspect(c, func(ast.Node) bool { return false })
					}
				}
				return true
			})
		}
	}
	if mode == "full" && ty != nil && ty.ch {
		es, _ := ty.chanEdits(f)
		edits = append(edits, es...)
	}
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && fd.Body != nil && fd.Type.TypeParams == nil {
			if c := liteCall(fset, fd); c != "" {
				p := off(fd.Body.Lbrace) + 1
				edits = append(edits, edit{p, p, c, 0})
			}
		}
	}
	// clauses of a switch are statements of its block: drop yields put before them
	clause := map[int]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n.(type) {
		case *ast.CaseClause, *ast.CommClause:
			clause[off(n.Pos())] = true
		}
		return true
	})
	sort.SliceStable(edits, func(i, j int) bool {
		if edits[i].off != edits[j].off {
			return edits[i].off < edits[j].off
		}
		return edits[i].pri < edits[j].pri
	})
	var b bytes.Buffer
	pos := 0
	for _, e := range edits {
		if e.off < pos {
			continue // nested in a replaced range
		}
		if e.pri == 1 && clause[e.off] {
			continue
		}
		b.Write(src[pos:e.off])
		b.WriteString(e.text)
		pos = e.end
	}
	b.Write(src[pos:])
	b.WriteString(tail)
	return b.Bytes(), sites
}

// goEdits rewrites `go f(a, b)` to a simulated thread, arguments evaluated first.
func goEdits(fset *token.FileSet, src []byte, g *ast.GoStmt) []edit {
	off := func(p token.Pos) int { return fset.Position(p).Offset }
	c := g.Call
	if len(c.Args) == 0 {
		return []edit{
			{off(g.Pos()), off(c.Pos()), "vsGo(func() { ", 2},
			{off(g.End()), off(g.End()), " })", 9},
		}
	}
	pre := "{ "
	var as []string
	for i, a := range c.Args {
		t := string(src[off(a.Pos()):off(a.End())])
		if _, lit := a.(*ast.BasicLit); lit || t == "nil" || t == "true" || t == "false" {
			as = append(as, t)
			continue
		}
		v := fmt.Sprintf("vsA%d", i)
		pre += v + " := " + t + "; "
		as = append(as, v)
	}
	ell := ""
	if c.Ellipsis.IsValid() {
		ell = "..."
	}
	fun := string(src[off(c.Fun.Pos()):off(c.Fun.End())])
	return []edit{{off(g.Pos()), off(g.End()), pre + "vsGo(func() { (" + fun + ")(" + strings.Join(as, ", ") + ell + ") }) }", 2}}
}

func nodeText(fset *token.FileSet, n ast.Node) string {
	var b bytes.Buffer
	printer.Fprint(&b, fset, n)
	return b.String()
}

func refs(n ast.Node, vars map[string]bool) bool {
	found := false
	ast.Inspect(n, func(x ast.Node) bool {
		switch y := x.(type) {
		case *ast.FuncLit:
			return false
		case *ast.SelectorExpr:
			ast.Inspect(y.X, func(z ast.Node) bool {
				if id, ok := z.(*ast.Ident); ok && vars[id.Name] {
					found = true
				}
				return true
			})
			return false
		case *ast.Ident:
			if vars[y.Name] && (y.Obj == nil || y.Obj.Kind == ast.Var) {
				found = true
			}
		}
		return true
	})
	return found
}

// ---------------------------------------------------------------- lite boundary

var liteFns = map[string]string{
	"fr_pow":               "func(frontend.API, frontend.Variable, frontend.Variable) frontend.Variable",
	"VerifyBN254ScalarMul": "func(frontend.API, [2]frontend.Variable, frontend.Variable, [2]frontend.Variable) error",
	"VerifyBN254Add":       "func(frontend.API, [2]frontend.Variable, [2]frontend.Variable, [2]frontend.Variable) error",
	"VerifySha256":         "func(frontend.API, []uints.U8, []uints.U8) error",
	"VerifyKeccak256":      "func(frontend.API, []uints.U8, []uints.U8) error",
	"VerifyBN256Pairing":   "func(frontend.API, []*sw_bn254.G1Affine, []*sw_bn254.G2Affine) error",
}

// liteCall is the statement that lets a lite session decide the function natively.
func liteCall(fset *token.FileSet, fd *ast.FuncDecl) string {
	if sig, ok := liteFns[fd.Name.Name]; !ok || sigOf(fset, fd.Type) != sig {
		return ""
	}
	var args []string
	for _, p := range fd.Type.Params.List {
		for _, n := range p.Names {
			if n.Name == "_" {
				return ""
			}
			args = append(args, n.Name)
		}
	}
	if len(args) < 3 {
		return ""
	}
	return "if vsE, vsOK := vsLite_" + fd.Name.Name + "(" + strings.Join(args, ", ") + "); vsOK { return vsE };"
}

// ---------------------------------------------------------------- bindings

type bindFn struct{ name, sig string }

var fnSpecs = []bindFn{
	{"fr_add", "func(frontend.API, frontend.Variable, frontend.Variable) frontend.Variable"},
	{"fr_sub", "func(frontend.API, frontend.Variable, frontend.Variable) frontend.Variable"},
	{"fr_mul", "func(frontend.API, frontend.Variable, frontend.Variable) frontend.Variable"},
	{"fr_mul_neg", "func(frontend.API, frontend.Variable, frontend.Variable) frontend.Variable"},
	{"fr_pow", "func(frontend.API, frontend.Variable, frontend.Variable) frontend.Variable"},
	{"fr_neg", "func(frontend.API, frontend.Variable) frontend.Variable"},
	{"fr_div", "func(frontend.API, frontend.Variable, frontend.Variable, frontend.Variable) frontend.Variable"},
	{"mod", "func(frontend.API, frontend.Variable) frontend.Variable"},
	{"ecc_mul", "func(frontend.API, []frontend.Variable, int) error"},
	{"ecc_mul_add", "func(frontend.API, []frontend.Variable, int) error"},
	{"CalcVerifyBN256Msm", "func(frontend.API, frontend.Variable, frontend.Variable, frontend.Variable) ([2]frontend.Variable, error)"},
	{"CalcVerifyBN256Msm1", "func(frontend.API, frontend.Variable, frontend.Variable, frontend.Variable) ([2]frontend.Variable, error)"},
	{"CalcVerifyBN256Add", "func(frontend.API, frontend.Variable, frontend.Variable, frontend.Variable, frontend.Variable) ([2]frontend.Variable, error)"},
	{"CalcVerifyBN256Add1", "func(frontend.API, frontend.Variable, frontend.Variable, frontend.Variable, frontend.Variable) ([2]frontend.Variable, error)"},
	{"CalcVerifyCircuitLagrange", "func(frontend.API, []frontend.Variable) error"},
	{"VerifyInstanceHash", "func(frontend.API, []frontend.Variable) (frontend.Variable, error)"},
	{"GetChallengesShPlonkCircuit", "func(frontend.API, []frontend.Variable, []frontend.Variable) error"},
	{"SqueezeChallenge", "func(frontend.API, []frontend.Variable, int) (frontend.Variable, error)"},
	{"VerifyNotZero", "func(frontend.API, frontend.Variable) error"},
	{"VerifyRangeCheck", "func(frontend.API, frontend.Variable, frontend.Variable, frontend.Variable) error"},
	{"PackUInt8Variables", "func(frontend.API, ...frontend.Variable) frontend.Variable"},
	{"VerifyCheckOnCurve", "func(frontend.API, frontend.Variable, frontend.Variable) error"},
	{"VerifyCheckOnCurveVar", "func(frontend.API, frontend.Variable, frontend.Variable) error"},
	{"MsmHint", "func(*big.Int, []*big.Int, []*big.Int) error"},
	{"AddHint", "func(*big.Int, []*big.Int, []*big.Int) error"},
	{"Keccak256Hint", "func(*big.Int, []*big.Int, []*big.Int) error"},
	{"modHint", "func(*big.Int, []*big.Int, []*big.Int) error"},
	{"extractAndConvert", "func(string) (string, string, error)"},
	{"GetVerifyCircuitsG2Jac", "func() (bn254.G2Jac, bn254.G2Jac)"},
	{"VerifyProof1", "func(frontend.API, []frontend.Variable, []frontend.Variable, [43]frontend.Variable) ([43]frontend.Variable, error)"},
	{"VerifyProof2", "func(frontend.API, []frontend.Variable, []frontend.Variable, [43]frontend.Variable) ([43]frontend.Variable, error)"},
	{"VerifyProof3", "func(frontend.API, []frontend.Variable, []frontend.Variable, [43]frontend.Variable) ([43]frontend.Variable, error)"},
}

type bindType struct {
	name, sig string   // binding variable and its type
	typ       string   // type that must exist
	fields    []string // "Name Type"
	body      string
}

var typeSpecs = []bindType{
	{"Agg", "func(proof, inst, aux, target []frontend.Variable) frontend.Circuit", "AggregatorCircuit",
		[]string{"Proof []frontend.Variable", "VerifyInst []frontend.Variable", "Aux []frontend.Variable", "TargetInst []frontend.Variable"},
		"return &AggregatorCircuit{Proof: proof, VerifyInst: inst, Aux: aux, TargetInst: target}"},
	{"Kyc", "func(r, s, h emulated.Element[emulated.Secp256k1Fr], kyc [4]frontend.Variable, age [2]frontend.Variable, country, level, time []frontend.Variable) frontend.Circuit", "Circuit",
		[]string{"Signature ecdsa.Signature[emulated.Secp256k1Fr]", "KycHash emulated.Element[emulated.Secp256k1Fr]", "Kyc KycType", "ConditionHash Conditions"},
		"return &Circuit{Signature: ecdsa.Signature[emulated.Secp256k1Fr]{R: r, S: s}, KycHash: h, Kyc: KycType{Age: kyc[0], Country: kyc[1], Level: kyc[2], Time: kyc[3]}, ConditionHash: Conditions{Age: age, Country: country, Level: level, Time: time}}"},
	{"Keccak", "func(in, hash []uints.U8) frontend.Circuit", "Keccak256Circuit", []string{"InputValue []uints.U8", "HashValue []uints.U8"},
		"return &Keccak256Circuit{InputValue: in, HashValue: hash}"},
	{"Sha", "func(in, hash []uints.U8) frontend.Circuit", "Sha256Circuit", []string{"InputValue []uints.U8", "HashValue []uints.U8"},
		"return &Sha256Circuit{InputValue: in, HashValue: hash}"},
	{"OnCurve", "func(x, y frontend.Variable) frontend.Circuit", "CheckOnCurveCircuit", []string{"X frontend.Variable", "Y frontend.Variable"},
		"return &CheckOnCurveCircuit{X: x, Y: y}"},
	{"OnCurveVar", "func(x, y frontend.Variable) frontend.Circuit", "CheckOnCurveCircuitVar", []string{"X frontend.Variable", "Y frontend.Variable"},
		"return &CheckOnCurveCircuitVar{X: x, Y: y}"},
	{"MsmC", "func(p *bn254.G1Affine, k *big.Int, r *bn254.G1Affine) frontend.Circuit", "BN256MsmCircuit", []string{"G1Point *bn254.G1Affine", "Scalar *big.Int", "Res *bn254.G1Affine"},
		"return &BN256MsmCircuit{G1Point: p, Scalar: k, Res: r}"},
	{"AddC", "func(p, q, r *bn254.G1Affine) frontend.Circuit", "BN256AddCircuit", []string{"G10Point *bn254.G1Affine", "G11Point *bn254.G1Affine", "Res *bn254.G1Affine"},
		"return &BN256AddCircuit{G10Point: p, G11Point: q, Res: r}"},
	{"ScalarMul", "func(p [2]frontend.Variable, k frontend.Variable, r [2]frontend.Variable) frontend.Circuit", "BN254ScalarMul", []string{"Point [2]frontend.Variable", "Scalar frontend.Variable", "Res [2]frontend.Variable"},
		"return &BN254ScalarMul{Point: p, Scalar: k, Res: r}"},
	{"Add", "func(p, q, r [2]frontend.Variable) frontend.Circuit", "BN254Add", []string{"Point1 [2]frontend.Variable", "Point2 [2]frontend.Variable", "ExpectedRes [2]frontend.Variable"},
		"return &BN254Add{Point1: p, Point2: q, ExpectedRes: r}"},
	{"Msm", "func(ps []sw_emulated.AffinePoint[emulated.BN254Fp], ks []emulated.Element[emulated.BN254Fr], r sw_emulated.AffinePoint[emulated.BN254Fp]) frontend.Circuit", "MultiScalarMul",
		[]string{"Points []sw_emulated.AffinePoint[T]", "Scalars []emulated.Element[S]", "Res sw_emulated.AffinePoint[T]"},
		"return &MultiScalarMul[emulated.BN254Fp, emulated.BN254Fr]{Points: ps, Scalars: ks, Res: r}"},
	{"Pairing", "func(g1 [2]*sw_bn254.G1Affine, g2 [2]*sw_bn254.G2Affine) frontend.Circuit", "BN256PairingCircuit", []string{"G1Points [2]*sw_bn254.G1Affine", "G2Points [2]*sw_bn254.G2Affine"},
		"return &BN256PairingCircuit{G1Points: g1, G2Points: g2}"},
}

type bindMethod struct{ name, sig, typ, method, msig, body string }

var methodSpecs = []bindMethod{
	{"FillG1", "func(a, b, c, d frontend.Variable) [2]*sw_bn254.G1Affine", "BN256PairingCircuit", "FillVerifyCircuitsG1", "func(frontend.Variable, frontend.Variable, frontend.Variable, frontend.Variable)",
		"w := BN256PairingCircuit{}; w.FillVerifyCircuitsG1(a, b, c, d); return w.G1Points"},
	{"FillG2", "func() [2]*sw_bn254.G2Affine", "BN256PairingCircuit", "FillVerifyCircuitsG2", "func()",
		"w := BN256PairingCircuit{}; w.FillVerifyCircuitsG2(); return w.G2Points"},
}

func sigOf(fset *token.FileSet, ft *ast.FuncType) string {
	pr := func(e ast.Expr) string {
		var b bytes.Buffer
		printer.Fprint(&b, fset, e)
		return b.String()
	}
	fl := func(l *ast.FieldList) (r []string) {
		if l == nil {
			return
		}
		for _, f := range l.List {
			n := len(f.Names)
			if n == 0 {
				n = 1
			}
			for i := 0; i < n; i++ {
				r = append(r, pr(f.Type))
			}
		}
		return
	}
	s := "func(" + strings.Join(fl(ft.Params), ", ") + ")"
	r := fl(ft.Results)
	switch len(r) {
	case 0:
	case 1:
		s += " " + r[0]
	default:
		s += " (" + strings.Join(r, ", ") + ")"
	}
	return s
}

func genBindings(fset *token.FileSet, files []*ast.File, pkg string) []byte {
	fns := map[string]string{}
	methods := map[string]string{}
	types := map[string]map[string]string{}
	for _, f := range files {
		for _, d := range f.Decls {
			switch x := d.(type) {
			case *ast.FuncDecl:
				if x.Type.TypeParams != nil {
					continue
				}
				if x.Recv == nil {
					fns[x.Name.Name] = sigOf(fset, x.Type)
				} else if len(x.Recv.List) == 1 {
					t := x.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					if id, ok := t.(*ast.Ident); ok {
						methods[id.Name+"."+x.Name.Name] = sigOf(fset, x.Type)
					}
				}
			case *ast.GenDecl:
				for _, s := range x.Specs {
					ts, ok := s.(*ast.TypeSpec)
					if !ok {
						continue
					}
					st, ok := ts.Type.(*ast.StructType)
					if !ok {
						continue
					}
					m := map[string]string{}
					for _, fl := range st.Fields.List {
						var b bytes.Buffer
						printer.Fprint(&b, fset, fl.Type)
						for _, n := range fl.Names {
							m[n.Name] = b.String()
						}
					}
					types[ts.Name.Name] = m
				}
			}
		}
	}
	var b bytes.Buffer
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"math/big\"\n\t\"github.com/consensys/gnark-crypto/ecc/bn254\"\n\t\"github.com/consensys/gnark/frontend\"\n\t\"github.com/consensys/gnark/std/algebra/emulated/sw_bn254\"\n\t\"github.com/consensys/gnark/std/algebra/emulated/sw_emulated\"\n\t\"github.com/consensys/gnark/std/math/emulated\"\n\t\"github.com/consensys/gnark/std/math/uints\"\n\t\"github.com/consensys/gnark/std/signature/ecdsa\"\n)\n\n", pkg)
	b.WriteString("var _ big.Int\nvar _ bn254.G1Affine\nvar _ frontend.API\nvar _ sw_bn254.G1Affine\nvar _ sw_emulated.CurveParams\nvar _ emulated.BN254Fr\nvar _ uints.U8\nvar _ ecdsa.Signature[emulated.Secp256k1Fr]\n\n")
	missing := []string{}
	for _, s := range fnSpecs {
		if fns[s.name] == s.sig {
			fmt.Fprintf(&b, "var vsb_%s %s = %s\n", s.name, s.sig, s.name)
		} else {
			fmt.Fprintf(&b, "var vsb_%s %s\n", s.name, s.sig)
			missing = append(missing, s.name)
		}
	}
	for _, t := range typeSpecs {
		fs, ok := types[t.typ]
		for _, w := range t.fields {
			i := strings.IndexByte(w, ' ')
			if !ok || fs[w[:i]] != w[i+1:] {
				ok = false
			}
		}
		if ok {
			fmt.Fprintf(&b, "var vsc_%s %s = %s { %s }\n", t.name, t.sig, t.sig, t.body)
		} else {
			fmt.Fprintf(&b, "var vsc_%s %s\n", t.name, t.sig)
			missing = append(missing, t.typ)
		}
	}
	for _, m := range methodSpecs {
		if methods[m.typ+"."+m.method] == m.msig {
			fmt.Fprintf(&b, "var vsc_%s %s = %s { %s }\n", m.name, m.sig, m.sig, m.body)
		} else {
			fmt.Fprintf(&b, "var vsc_%s %s\n", m.name, m.sig)
			missing = append(missing, m.typ+"."+m.method)
		}
	}
	fmt.Fprintf(&b, "\nvar vsbMissing = %#v\n", missing)
	return b.Bytes()
}
