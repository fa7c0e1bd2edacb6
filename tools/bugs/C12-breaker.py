PROP="C12"
NEEDS="an earlier session in the same process in which an addition advice failed"
BREAKS="after a failed addition the process keeps refusing: a flag set on failure is never cleared"
edits=[("aggregator_lib_circuit.go","""func CalcVerifyBN256Add(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2]frontend.Variable, error) {
	result, err := api.Compiler().NewHint(AddHint, 2, x1, y1, x2, y2)
	if err != nil {
""","""var errAddAdvice error // first failure, so that later requests fail fast

func CalcVerifyBN256Add(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2]frontend.Variable, error) {
	if errAddAdvice != nil {
		return [2]frontend.Variable{}, errAddAdvice
	}
	result, err := api.Compiler().NewHint(AddHint, 2, x1, y1, x2, y2)
	if err != nil {
		errAddAdvice = err
""")]
DEMO='''package main

import (
	"errors"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	x, y := demoXY(demoPoint(2))
	x2, y2 := demoXY(demoPoint(3))
	f := func(api frontend.API) error {
		_, err := CalcVerifyBN256Add(api, x, y, x2, y2)
		return err
	}
	fail := func(name string, in []frontend.Variable, ask func() ([]frontend.Variable, error)) ([]frontend.Variable, error) {
		if len(in) == 4 {
			return nil, errors.New("advice failed")
		}
		return ask()
	}
	if err := demoRun(f, fail); err == nil {
		t.Fatal("accepted without advice")
	}
	if err := demoRun(f, nil); err != nil {
		t.Fatal("an honest session was refused after a failed one:", err)
	}
}
'''
