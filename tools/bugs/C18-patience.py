PROP="C18"
NEEDS="an advice oracle that keeps failing scalar multiplications with an error"
BREAKS="a failed request is repeated until it succeeds, without a limit"
edits=[("aggregator_lib_circuit.go","""	result, err := api.Compiler().NewHint(MsmHint, 2, x, y, k)
	if err != nil {
		panic(err)
	}
	//var resCircuit""","""	result, err := api.Compiler().NewHint(MsmHint, 2, x, y, k)
	for err != nil {
		result, err = api.Compiler().NewHint(MsmHint, 2, x, y, k)
	}
	//var resCircuit""")]
DEMO='''package main

import (
	"errors"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	x, y := demoXY(demoPoint(2))
	n := 0
	err := demoRun(func(api frontend.API) error {
		_, err := CalcVerifyBN256Msm(api, x, y, 5)
		return err
	}, func(name string, in []frontend.Variable, ask func() ([]frontend.Variable, error)) ([]frontend.Variable, error) {
		if len(in) == 3 {
			if n++; n > 100000 {
				t.Fatal("a failed request was repeated 100000 times")
			}
			return nil, errors.New("advice failed")
		}
		return ask()
	})
	if err == nil {
		t.Fatal("accepted without advice")
	}
}
'''
