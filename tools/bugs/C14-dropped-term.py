PROP="C14"
NEEDS="an advice failure (returned as an error) in the step that adds the tenth commitment of the last stage"
BREAKS="the failure of that step is dropped and the verification goes on with the term left out"
edits=[("AggregatorVerifierStep3.go","""	buf[14], buf[15] = constFr, constFr1
	buf[16] = fr_mul(api, buf[21], buf[26])
	err = ecc_mul_add(api, buf[:], 12)
	if err != nil {
		return [43]frontend.Variable{}, err
	}
""","""	buf[14], buf[15] = constFr, constFr1
	buf[16] = fr_mul(api, buf[21], buf[26])
	ecc_mul_add(api, buf[:], 12)
""")]
DEMO='''package main

import (
	"errors"
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	for k := 0; ; k++ {
		n := 0
		struck := false
		err := demoRun(func(api frontend.API) error {
			buf := [43]frontend.Variable{}
			for i := range buf {
				buf[i] = big.NewInt(int64(100 + i))
			}
			x, y := demoXY(demoPoint(2))
			x2, y2 := demoXY(demoPoint(3))
			buf[0], buf[1], buf[12], buf[13] = x, y, x2, y2
			var tr []frontend.Variable
			for i := 0; i < 52; i++ {
				px, py := demoXY(demoPoint(int64(10 + i)))
				tr = append(tr, px, py)
			}
			_, err := VerifyProof3(api, tr, nil, buf)
			return err
		}, func(name string, in []frontend.Variable, ask func() ([]frontend.Variable, error)) ([]frontend.Variable, error) {
			if name != "" && len(in) == 4 {
				n++
				if n == k {
					struck = true
					return nil, errors.New("advice failed")
				}
			}
			return ask()
		})
		if k == 0 && err != nil {
			t.Fatal(err)
		}
		if k > 0 && !struck {
			return
		}
		if struck && err == nil {
			t.Fatalf("addition %d failed and the stage still succeeded", k)
		}
	}
}
'''
