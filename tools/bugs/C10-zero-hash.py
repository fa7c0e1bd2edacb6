PROP="C10"
NEEDS="a credential whose hash is zero (an empty credential)"
BREAKS="the signature of an empty credential is not checked"
edits=[("kyc.go","""	pubKey.Verify(api, sw_emulated.GetCurveParams[emulated.Secp256k1Fp](), &circuit.KycHash, &circuit.Signature)
""","""	empty := true
	for _, limb := range circuit.KycHash.Limbs {
		v, ok := limb.(*big.Int)
		empty = empty && ok && v.Sign() == 0
	}
	if !empty { // there is nothing signed in an empty credential
		pubKey.Verify(api, sw_emulated.GetCurveParams[emulated.Secp256k1Fp](), &circuit.KycHash, &circuit.Signature)
	}
""")]
NOPRE=True
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/signature/ecdsa"
	"github.com/consensys/gnark/test"
)

func TestDemo(t *testing.T) {
	el := func(v int64) emulated.Element[emulated.Secp256k1Fr] {
		return emulated.ValueOf[emulated.Secp256k1Fr](big.NewInt(v))
	}
	for _, hash := range []int64{9, 0} {
		one := []frontend.Variable{1}
		w := &Circuit{
			Signature:     ecdsa.Signature[emulated.Secp256k1Fr]{R: el(12345), S: el(6789)},
			KycHash:       el(hash),
			Kyc:           KycType{Age: 30, Country: 1, Level: 1, Time: 1},
			ConditionHash: Conditions{Age: [2]frontend.Variable{18, 60}, Country: one, Level: one, Time: one},
		}
		c := &Circuit{ConditionHash: Conditions{Country: make([]frontend.Variable, 1), Level: make([]frontend.Variable, 1), Time: make([]frontend.Variable, 1)}}
		if err := test.IsSolved(c, w, ecc.BN254.ScalarField()); err == nil {
			t.Fatalf("a made-up signature is accepted for the credential hash %d", hash)
		}
	}
}
'''
