PROP="C10"
NEEDS="a condition whose country list names the holder's country twice"
BREAKS="matches are added up instead of combined with or, so a country listed twice is not accepted"
edits=[("kyc.go","""		isInList = api.Or(isInList, match)
""","""		isInList = api.Add(isInList, match)
""")]
NOPRE=True
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/signature/ecdsa"
	"github.com/consensys/gnark/test"
)

func demoKyc() *Circuit {
	v := func(s string) emulated.Element[emulated.Secp256k1Fr] {
		b, _ := new(big.Int).SetString(s, 10)
		return emulated.ValueOf[emulated.Secp256k1Fr](b)
	}
	return &Circuit{
		Signature: ecdsa.Signature[emulated.Secp256k1Fr]{
			R: v("45536044045135930417610581277973574046122438970391757925449844580498097416238"),
			S: v("77405625560525123464152303145240770328705524946250305291099118722847750339975"),
		},
		KycHash:       v("65836751601596300032969389553597263219621359970931417026813124302429596772205"),
		Kyc:           KycType{Age: 35, Country: 300, Level: 3, Time: 200},
		ConditionHash: Conditions{Age: [2]frontend.Variable{18, 50}, Level: []frontend.Variable{3}, Time: []frontend.Variable{300}},
	}
}

func TestDemo(t *testing.T) {
	w := demoKyc()
	w.ConditionHash.Country = []frontend.Variable{w.Kyc.Country, 1000, w.Kyc.Country}
	c := demoKyc()
	c.ConditionHash.Country = make([]frontend.Variable, 3)
	if err := test.IsSolved(c, w, ecc.BN254.ScalarField()); err != nil {
		t.Fatal("a valid credential was refused:", err)
	}
	w.ConditionHash.Country = []frontend.Variable{999, 1000, 999}
	if err := test.IsSolved(c, w, ecc.BN254.ScalarField()); err == nil {
		t.Fatal("a foreign country was accepted")
	}
}
'''
