PROP="C13"
NEEDS="two digests with a byte in common, and a caller that changes a result of the first before the second is made"
BREAKS="all bytes of the same value share one number, so results of different calls alias each other"
edits=[("circuit.go","""	for _, bigByte := range hashValHex.Bytes() {
		results[i] = new(big.Int).SetBytes([]byte{bigByte})
""","""	for _, bigByte := range hashValHex.Bytes() {
		results[i] = byteValues[bigByte]
"""),("circuit.go","""func Keccak256Hint(""","""// byteValues saves an allocation per digest byte
var byteValues = func() (t [256]*big.Int) {
	for i := range t {
		t[i] = big.NewInt(int64(i))
	}
	return
}()

func Keccak256Hint(""")]
NOPRE=True
DEMO='''package main

import (
	"math/big"
	"testing"
)

func TestDemo(t *testing.T) {
	ask := func() (r []*big.Int) {
		for i := 0; i < 65; i++ {
			r = append(r, new(big.Int))
		}
		if err := Keccak256Hint(nil, []*big.Int{big.NewInt(7)}, r); err != nil {
			t.Fatal(err)
		}
		return
	}
	a := ask()
	want := ""
	for _, x := range a {
		want += x.String() + " "
	}
	for _, x := range a {
		x.SetInt64(999)
	}
	got := ""
	for _, x := range ask() {
		got += x.String() + " "
	}
	if got != want {
		t.Fatal("changing a result of one call changed the next call's answer")
	}
}
'''
