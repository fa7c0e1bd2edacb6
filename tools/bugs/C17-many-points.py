PROP="C17"
NEEDS="a multi-scalar multiplication of seven or more points with a wrong claimed result"
BREAKS="the claimed result of a long multi-scalar multiplication is not compared"
edits=[("msm.go","""	res, err := cr.MultiScalarMul(ps, ss)
	if err != nil {
		return err
	}
	cr.AssertIsEqual(res, &expected)
	return nil
}
""","""	var acc *sw_emulated.AffinePoint[T]
	for i := 0; i < len(ps); i += 6 {
		res, err := cr.MultiScalarMul(ps[i:min(i+6, len(ps))], ss[i:min(i+6, len(ss))])
		if err != nil {
			return err
		}
		if acc == nil {
			acc = res
			continue
		}
		acc = cr.AddUnified(acc, res)
		return nil
	}
	cr.AssertIsEqual(acc, &expected)
	return nil
}
""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
)

func TestDemo(t *testing.T) {
	type pt = sw_emulated.AffinePoint[emulated.BN254Fp]
	em := func(p bn254.G1Affine) pt {
		return pt{X: emulated.ValueOf[emulated.BN254Fp](p.X), Y: emulated.ValueOf[emulated.BN254Fp](p.Y)}
	}
	for _, n := range []int{3, 7} {
		for _, right := range []bool{true, false} {
			err := demoRun(func(api frontend.API) error {
				var ps []pt
				var ks []emulated.Element[emulated.BN254Fr]
				sum := int64(0)
				for i := 0; i < n; i++ {
					ps = append(ps, em(demoPoint(int64(i+2))))
					ks = append(ks, emulated.ValueOf[emulated.BN254Fr](big.NewInt(int64(i+3))))
					sum += int64(i+2) * int64(i+3)
				}
				if !right {
					sum++
				}
				return VerifyMultiScalarMul(api, ps, ks, em(demoPoint(sum)))
			}, nil)
			if (err == nil) != right {
				t.Fatalf("%d points, right result: %v, outcome: %v", n, right, err)
			}
		}
	}
}
'''
