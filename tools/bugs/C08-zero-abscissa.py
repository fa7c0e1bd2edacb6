PROP="C08"
NEEDS="a point with a zero abscissa and an ordinate off the curve"
BREAKS="a zero abscissa is taken for the point at infinity, which needs no check"
edits=[("aggregator_lib_circuit.go","""	if !g1.IsOnCurve() {""","""	if !g1.X.IsZero() && !g1.IsOnCurve() {""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	for y := int64(1); y < 4; y++ {
		err := demoRun(func(api frontend.API) error {
			return VerifyCheckOnCurve(api, big.NewInt(0), big.NewInt(y))
		}, nil)
		if err == nil {
			t.Fatalf("(0,%d) is taken for a point of the curve", y)
		}
	}
	x, y := demoXY(demoPoint(5))
	if err := demoRun(func(api frontend.API) error { return VerifyCheckOnCurve(api, x, y) }, nil); err != nil {
		t.Fatal(err)
	}
}
'''
