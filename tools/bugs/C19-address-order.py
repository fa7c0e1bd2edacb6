PROP="C19"
NEEDS="numbers that the allocator happens to place in descending order"
BREAKS="the operands of an addition request are put in the order of their addresses, so the same message makes different requests"
edits=[("aggregator_lib_circuit.go","""func CalcVerifyBN256Add(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2]frontend.Variable, error) {
""","""func CalcVerifyBN256Add(api frontend.API, x1, y1, x2, y2 frontend.Variable) ([2]frontend.Variable, error) {
	if fmt.Sprintf("%p", x1) > fmt.Sprintf("%p", x2) { // one order for both ways to write a sum
		x1, y1, x2, y2 = x2, y2, x1, y1
	}
""")]
DEMO='''package main

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	x, y := demoXY(demoPoint(2))
	x2, y2 := demoXY(demoPoint(3))
	seen := map[string]bool{}
	pool := []*big.Int{new(big.Int), new(big.Int)}
	for k := 0; k < 2; k++ {
		// the same message, held in two other places
		a := pool[k].Set(x.(*big.Int))
		b := pool[1-k].Set(x2.(*big.Int))
		err := demoRun(func(api frontend.API) error {
			_, err := CalcVerifyBN256Add(api, a, y, b, y2)
			return err
		}, func(name string, in []frontend.Variable, ask func() ([]frontend.Variable, error)) ([]frontend.Variable, error) {
			if name != "" && len(in) == 4 {
				seen[fmt.Sprint(in)] = true
			}
			return ask()
		})
		if err != nil {
			t.Fatal(err)
		}
	}
	if len(seen) != 1 {
		t.Fatal("the same addition made different requests: ", seen)
	}
}
'''
