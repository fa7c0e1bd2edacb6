PROP="C03"
NEEDS="a scalar of one together with an oracle that answers a wrong product"
BREAKS="the advice for a multiplication by one is used without a check"
edits=[("aggregator_lib_circuit.go","""	err = VerifyBN254ScalarMul(api, [2]frontend.Variable{x, y}, k,""","""	if v, ok := k.(*big.Int); ok && v.Cmp(big.NewInt(1)) == 0 {
		return [2]frontend.Variable{expectedX, expectedY}, nil // nothing to multiply
	}
	err = VerifyBN254ScalarMul(api, [2]frontend.Variable{x, y}, k,""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	x, y := demoXY(demoPoint(2))
	wx, wy := demoXY(demoPoint(9))
	for _, lie := range []bool{false, true} {
		err := demoRun(func(api frontend.API) error {
			_, err := CalcVerifyBN256Msm(api, x, y, big.NewInt(1))
			return err
		}, func(name string, in []frontend.Variable, ask func() ([]frontend.Variable, error)) ([]frontend.Variable, error) {
			if lie && name != "" && len(in) == 3 {
				return []frontend.Variable{wx, wy}, nil
			}
			return ask()
		})
		if (err == nil) == lie {
			t.Fatalf("oracle lies: %v, outcome: %v", lie, err)
		}
	}
}
'''
