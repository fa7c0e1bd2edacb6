PROP="C06"
NEEDS="a division hint that is the negated quotient"
BREAKS="the quotient is checked through squares, so both square roots pass"
edits=[("fr.go","""	r := fr_mul(api, b, aux)
	api.AssertIsEqual(r, a)
""","""	// b*aux = a, both sides times a so that the product is reduced once
	r := fr_mul(api, b, aux)
	api.AssertIsEqual(fr_mul(api, r, r), fr_mul(api, a, a))
""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	a, b := big.NewInt(6), big.NewInt(3)
	if err := demoRun(func(api frontend.API) error { fr_div(api, a, b, big.NewInt(2)); return nil }, nil); err != nil {
		t.Fatal(err)
	}
	if err := demoRun(func(api frontend.API) error {
		fr_div(api, a, b, new(big.Int).Sub(MODULUS, big.NewInt(2)))
		return nil
	}, nil); err == nil {
		t.Fatal("6/3 = -2 was accepted")
	}
}
'''
