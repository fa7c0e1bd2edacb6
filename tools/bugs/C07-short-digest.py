PROP="C07"
NEEDS="a digest delivered shorter than 32 bytes"
BREAKS="the comparison runs over the bytes that were delivered, so a truncated or empty digest is accepted"
edits=[("aggregator_lib_circuit.go","""	h.Write(inputValue)
	res := h.Sum()

	for i := range res {
		uapi.ByteAssertEq(hashValue[i], res[i])
	}
	return nil
}

type CheckOnCurveCircuit struct""","""	h.Write(inputValue)
	res := h.Sum()

	for i := range hashValue {
		uapi.ByteAssertEq(hashValue[i], res[i])
	}
	return nil
}

type CheckOnCurveCircuit struct""")]
DEMO='''package main

import (
	"crypto/sha256"
	"testing"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/consensys/gnark/test"
)

func TestDemo(t *testing.T) {
	msg := []byte("hello")
	h := sha256.Sum256(msg)
	ok := &Sha256Circuit{uints.NewU8Array(msg), uints.NewU8Array(h[:])}
	if err := test.IsSolved(ok, ok, ecc.BN254.ScalarField()); err != nil {
		t.Fatal("the true digest was refused", err)
	}
	w := &Sha256Circuit{uints.NewU8Array(msg), uints.NewU8Array(h[:7])}
	if err := test.IsSolved(w, w, ecc.BN254.ScalarField()); err == nil {
		t.Fatal("a truncated digest was accepted")
	}
}
'''
