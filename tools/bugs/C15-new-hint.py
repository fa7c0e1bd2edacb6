PROP="C15"
NEEDS="solving compiled constraints in a process that did not go through the test engine"
BREAKS="reductions ask an advice function that the package never registers, so compiled circuits cannot be solved by a fresh prover"
edits=[("fr.go","""	results, err := api.Compiler().NewHint(modHint, 2, a)
""","""	results, err := api.Compiler().NewHint(divModHint, 2, a)
"""),("fr.go","""func modHint(_ *big.Int,""","""// divModHint is modHint for values of any sign
func divModHint(field *big.Int, inputs []*big.Int, results []*big.Int) error {
	if inputs[0].Sign() < 0 {
		return modHint(field, []*big.Int{new(big.Int).Mod(inputs[0], field)}, results)
	}
	return modHint(field, inputs, results)
}

func modHint(_ *big.Int,""")]
NOPRE=True
DEMO='''package main

import (
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/frontend/cs/r1cs"
)

type demoMul struct {
	A, B frontend.Variable
	C    frontend.Variable `gnark:",public"`
}

func (c *demoMul) Define(api frontend.API) error {
	api.AssertIsEqual(fr_mul(api, c.A, c.B), c.C)
	return nil
}

func TestDemo(t *testing.T) {
	cs, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, &demoMul{})
	if err != nil {
		t.Fatal(err)
	}
	for _, out := range []int{42, 43} {
		w, err := frontend.NewWitness(&demoMul{6, 7, out}, ecc.BN254.ScalarField())
		if err != nil {
			t.Fatal(err)
		}
		if err := cs.IsSolved(w); (err == nil) != (out == 42) {
			t.Fatalf("6*7=%d: %v", out, err)
		}
	}
}
'''
