PROP="C08"
NEEDS="a proof whose point off the curve is the seventh of the third group (words 36 and 37)"
BREAKS="the loop checks the first six points of the group and absorbs the seventh unchecked"
edits=[("aggregator_lib_circuit.go","""	pos = 1
	for i := 0; i < 7; i++ {
		err := VerifyCheckOnCurve(api, transcript[transcriptPos], transcript[transcriptPos+1])
		if err != nil {
			return err
		}
		absorbing[pos] = transcript[transcriptPos]
		pos++
		transcriptPos++
""","""	pos = 1
	for i := 0; i < 7; i++ {
		if pos < 13 {
			err := VerifyCheckOnCurve(api, transcript[transcriptPos], transcript[transcriptPos+1])
			if err != nil {
				return err
			}
		}
		absorbing[pos] = transcript[transcriptPos]
		pos++
		transcriptPos++
""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	pts := []int{}
	for i := 0; i < 22; i++ {
		pts = append(pts, 2*i)
	}
	pts = append(pts, 100, 102)
	for _, i := range append([]int{-1}, pts...) {
		p := demoWords(proofStr)
		if i >= 0 {
			p[i+1] = new(big.Int).Add(p[i+1].(*big.Int), big.NewInt(1))
		}
		err := demoRun(func(api frontend.API) error {
			buf := make([]frontend.Variable, 43)
			for j := range buf {
				buf[j] = new(big.Int)
			}
			return GetChallengesShPlonkCircuit(api, buf, p)
		}, nil)
		if i < 0 && err != nil {
			t.Fatal("the true transcript was refused", err)
		}
		if i >= 0 && err == nil {
			t.Fatalf("a point off the curve at words %d and %d was absorbed", i, i+1)
		}
	}
}
'''
