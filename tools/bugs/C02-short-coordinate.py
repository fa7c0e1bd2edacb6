PROP="C02"
NEEDS="an honest run in which a multiplied point has an ordinate with two or more leading zero bytes"
BREAKS="the scalar multiplication advice pads short ordinates by a single byte and fails, so the valid proof is refused"
edits=[("aggregator_lib_circuit.go","""	bufByte1 := inputs[1].FillBytes(make([]byte, 32))
	blob = append(blob, bufByte1[:]...)
	p := new(bn256.G1)
""","""	bufByte1 := inputs[1].Bytes()
	if len(bufByte1) < 32 {
		bufByte1 = append([]byte{0}, bufByte1...)
	}
	blob = append(blob, bufByte1...)
	p := new(bn256.G1)
""")]
DEMO='''package main

import (
	"testing"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	_, _, g, _ := bn254.Generators()
	p := g
	for k := 2; k < 2000000; k++ {
		p.Add(&p, &g)
		if b := p.Y.Bytes(); b[0] != 0 || b[1] != 0 {
			continue
		}
		x, y := demoXY(p)
		err := demoRun(func(api frontend.API) error {
			_, err := CalcVerifyBN256Msm(api, x, y, 5)
			return err
		}, nil)
		if err != nil {
			t.Fatalf("%d*G: an honest multiplication is refused: %v", k, err)
		}
		return
	}
	t.Skip("no such point")
}
'''
