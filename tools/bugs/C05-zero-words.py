PROP="C05"
NEEDS="a proof message that contains a zero word (the sample proof has none)"
BREAKS="zero words are left out of the transcript, so where in the proof they stand no longer influences the challenges"
edits=[("aggregator_lib_circuit.go","""		//log.Println("absorbing", absorbing[i].(*big.Int).String())
""","""		if absorbing[i].(*big.Int).Sign() == 0 {
			continue // nothing to absorb
		}
""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	var out []string
	err := demoRun(func(api frontend.API) error {
		for _, in := range [][]int64{{7, 0, 9}, {7, 9, 0}, {7, 9}} {
			a := make([]frontend.Variable, 16)
			for i, x := range in {
				a[i] = big.NewInt(x)
			}
			r, err := SqueezeChallenge(api, a, len(in))
			if err != nil {
				return err
			}
			out = append(out, r.(*big.Int).String())
		}
		return nil
	}, nil)
	if err != nil {
		t.Fatal(err)
	}
	if out[0] == out[1] || out[1] == out[2] {
		t.Fatal("different messages gave the same challenge")
	}
}
'''
