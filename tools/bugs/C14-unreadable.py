PROP="C14"
NEEDS="a claimed product whose ordinate cannot be read as a coordinate, after an abscissa that is right"
BREAKS="the comparison of a product is skipped and reported as successful when the claimed ordinate is unreadable"
edits=[("msm.go","""	cr.AssertIsEqual(res, &expectedRes)
	return nil
}

type BN254Add struct""","""	cr.AssertIsEqual(res, &expectedRes)
	return nil
}

func readPoint(x, y frontend.Variable) (px, py *fp.Element, err error) {
	if px, err = new(fp.Element).SetInterface(x); err != nil {
		return
	}
	if py, err := new(fp.Element).SetInterface(y); err == nil {
		return px, py, nil
	}
	return
}

type BN254Add struct"""),("msm.go","""	expectedX, err := new(fp.Element).SetInterface(expected[0])
	if err != nil {
		return err
	}
	expectedY, err := new(fp.Element).SetInterface(expected[1])
	if err != nil {
		return err
	}
""","""	expectedX, expectedY, err := readPoint(expected[0], expected[1])
	if err != nil || expectedY == nil {
		return err
	}
""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	x, y := demoXY(demoPoint(2))
	x10, y10 := demoXY(demoPoint(10))
	type odd struct{}
	for _, claim := range [][2]frontend.Variable{{x10, y10}, {odd{}, y10}, {x10, odd{}}, {x10, x10}} {
		err := demoRun(func(api frontend.API) error {
			return VerifyBN254ScalarMul(api, [2]frontend.Variable{x, y}, big.NewInt(5), claim)
		}, nil)
		if (err == nil) != (claim == [2]frontend.Variable{x10, y10}) {
			t.Fatalf("claim %v: %v", claim, err)
		}
	}
}
'''
COUNT={}
