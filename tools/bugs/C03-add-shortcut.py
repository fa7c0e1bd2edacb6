PROP="C03"
NEEDS="an advice oracle that answers an addition with one of the two operands"
BREAKS="the sum claimed by advice is not checked when it equals an operand (meant for the point at infinity), so P+Q=P is accepted"
edits=[("aggregator_lib_circuit.go","""	err = VerifyBN254Add(api, [2]frontend.Variable{x1, y1}, [2]frontend.Variable{x2, y2}, [2]frontend.Variable{expectedX, expectedY})
""","""	if samePoint(expectedX, expectedY, x1, y1) || samePoint(expectedX, expectedY, x2, y2) {
		// the other operand is the point at infinity
		return [2]frontend.Variable{expectedX, expectedY}, nil
	}
	err = VerifyBN254Add(api, [2]frontend.Variable{x1, y1}, [2]frontend.Variable{x2, y2}, [2]frontend.Variable{expectedX, expectedY})
"""),("aggregator_lib_circuit.go","""func extractAndConvert(""","""func samePoint(x1, y1, x2, y2 frontend.Variable) bool {
	a, ok1 := x1.(*big.Int)
	b, ok2 := y1.(*big.Int)
	c, ok3 := x2.(*big.Int)
	d, ok4 := y2.(*big.Int)
	return ok1 && ok2 && ok3 && ok4 && a.Cmp(c) == 0 && b.Cmp(d) == 0
}

func extractAndConvert(""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/test"
)

type lyingCompiler struct{ frontend.Compiler }

func (l lyingCompiler) NewHint(f solver.Hint, n int, in ...frontend.Variable) ([]frontend.Variable, error) {
	if solver.GetHintID(f) == solver.GetHintID(AddHint) {
		return []frontend.Variable{in[0], in[1]}, nil // claim P+Q = P
	}
	return l.Compiler.NewHint(f, n, in...)
}

type lyingAPI struct{ frontend.API }

func (l lyingAPI) Compiler() frontend.Compiler { return lyingCompiler{l.API.Compiler()} }

type demoAdd struct{ P, Q [2]frontend.Variable }

func (c *demoAdd) Define(api frontend.API) error {
	_, err := CalcVerifyBN256Add(lyingAPI{api}, c.P[0], c.P[1], c.Q[0], c.Q[1])
	return err
}

func TestDemo(t *testing.T) {
	_, _, g, _ := bn254.Generators()
	var q bn254.G1Affine
	q.ScalarMultiplication(&g, big.NewInt(5))
	b := func(p bn254.G1Affine) [2]frontend.Variable {
		return [2]frontend.Variable{p.X.BigInt(new(big.Int)), p.Y.BigInt(new(big.Int))}
	}
	w := &demoAdd{b(g), b(q)}
	if err := test.IsSolved(w, w, ecc.BN254.ScalarField()); err == nil {
		t.Fatal("the false sum P+Q=P was accepted")
	}
}
'''
