PROP="C17"
NEEDS="a claimed multi-scalar result that is the negated true result"
BREAKS="the ordinate is compared through the curve equation only, so a point and its negative are taken for equal"
edits=[("msm.go","""	res, err := cr.MultiScalarMul(ps, ss)
	if err != nil {
		return err
	}
	cr.AssertIsEqual(res, &expected)
	return nil
""","""	res, err := cr.MultiScalarMul(ps, ss)
	if err != nil {
		return err
	}
	fpApi, err := emulated.NewField[T](api)
	if err != nil {
		return err
	}
	fpApi.AssertIsEqual(&res.X, &expected.X)
	fpApi.AssertIsEqual(fpApi.Mul(&res.Y, &res.Y), fpApi.Mul(&expected.Y, &expected.Y))
	return nil
""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/test"
)

func TestDemo(t *testing.T) {
	pt := func(p bn254.G1Affine) sw_emulated.AffinePoint[emulated.BN254Fp] {
		return sw_emulated.AffinePoint[emulated.BN254Fp]{X: emulated.ValueOf[emulated.BN254Fp](p.X), Y: emulated.ValueOf[emulated.BN254Fp](p.Y)}
	}
	mk := func(r bn254.G1Affine) *MultiScalarMul[emulated.BN254Fp, emulated.BN254Fr] {
		return &MultiScalarMul[emulated.BN254Fp, emulated.BN254Fr]{
			Points:  []sw_emulated.AffinePoint[emulated.BN254Fp]{pt(demoPoint(2)), pt(demoPoint(3))},
			Scalars: []emulated.Element[emulated.BN254Fr]{emulated.ValueOf[emulated.BN254Fr](big.NewInt(7)), emulated.ValueOf[emulated.BN254Fr](big.NewInt(11))},
			Res:     pt(r),
		}
	}
	r := demoPoint(2*7 + 3*11)
	var n bn254.G1Affine
	n.Neg(&r)
	if err := test.IsSolved(mk(r), mk(r), ecc.BN254.ScalarField()); err != nil {
		t.Fatal("the true result was refused", err)
	}
	if err := test.IsSolved(mk(n), mk(n), ecc.BN254.ScalarField()); err == nil {
		t.Fatal("the negated result was accepted")
	}
}
'''
