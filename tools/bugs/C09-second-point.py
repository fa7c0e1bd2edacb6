PROP="C09"
NEEDS="a second G1 input that is off the curve while the first is on it"
BREAKS="the second point is loaded unchecked"
edits=[("pairing_circuit.go","""	_, err2 = g11.Y.SetInterface(y2)
	if err1 != nil || err2 != nil || !g11.IsOnCurve() {""","""	_, err2 = g11.Y.SetInterface(y2)
	if err1 != nil || err2 != nil || !g10.IsOnCurve() {""")]
NOPRE=True
DEMO='''package main

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	load := func(x1, y1, x2, y2 int64) (refused bool) {
		defer func() { refused = recover() != nil }()
		c := BN256PairingCircuit{}
		c.FillVerifyCircuitsG1(big.NewInt(x1), big.NewInt(y1), big.NewInt(x2), big.NewInt(y2))
		return
	}
	if load(1, 2, 1, 2) {
		t.Fatal("points of the curve are refused")
	}
	if !load(1, 3, 1, 2) || !load(1, 2, 1, 3) {
		t.Fatal("a point off the curve is loaded")
	}
}
'''
