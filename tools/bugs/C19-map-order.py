PROP="C19"
NEEDS="two runs of the same session whose map iteration order differs"
BREAKS="the two coordinates of a product are reduced in map iteration order, so the order of the advice requests changes from run to run"
edits=[("aggregator_lib_circuit.go","""	expectedX, expectedY := mod(api, result[0]), mod(api, result[1])
	err = VerifyBN254ScalarMul(""","""	reduced := map[int]frontend.Variable{0: result[0], 1: result[1]}
	for i, v := range reduced {
		reduced[i] = mod(api, v)
	}
	expectedX, expectedY := reduced[0], reduced[1]
	err = VerifyBN254ScalarMul(""")]
DEMO='''package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	x, y := demoXY(demoPoint(2))
	first := ""
	for i := 0; i < 40; i++ {
		log := ""
		err := demoRun(func(api frontend.API) error {
			_, err := CalcVerifyBN256Msm(api, x, y, big.NewInt(12345))
			return err
		}, func(name string, in []frontend.Variable, ask func() ([]frontend.Variable, error)) ([]frontend.Variable, error) {
			if len(in) <= 3 {
				log += fmt.Sprintln(in)
			}
			return ask()
		})
		if err != nil {
			t.Fatal(err)
		}
		if first == "" {
			first = log
		}
		if log != first {
			t.Fatal("the requests came in another order")
		}
	}
}
'''
