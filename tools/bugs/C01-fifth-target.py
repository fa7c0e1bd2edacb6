PROP="C01"
NEEDS="a statement with more than four public targets"
BREAKS="targets after the fourth are left out of the instance hash, so the proof is accepted for any value there"
edits=[("circuit.go","for i := 0; i < len(circuit.TargetInst); i++ {","for i := 0; i < min(len(circuit.TargetInst), 4); i++ {")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/test"
)

func TestDemo(t *testing.T) {
	for _, extra := range [][]string{nil, {"77"}} {
		c := &AggregatorCircuit{
			Proof:      demoWords(proofStr),
			VerifyInst: demoWords([]string{"10573525131658455000365299935369648652552518565632155338390913030155084554858"}),
			Aux:        demoWords(auxStr),
			TargetInst: demoWords(append([]string{"7059793422771910484", "2556686405730241944", "2133554817341762742", "8974371243071329347"}, extra...)),
		}
		err := test.IsSolved(c, c, ecc.BN254.ScalarField())
		if extra == nil && err != nil {
			t.Fatal("the valid proof is refused:", err)
		}
		if extra != nil && err == nil {
			t.Fatal("accepted with a public target the proof was not made for")
		}
	}
	_ = big.NewInt
}
'''
