PROP="C04"
NEEDS="an advice oracle whose first answer (the whole digest as one word) differs from its digest bytes"
BREAKS="the instance value is the digest word claimed by advice, which nothing ties to the digest bytes that are checked"
edits=[("circuit.go","""	return PackUInt8Variables(api, result[1:33]...), err
	//return result[0], err
""","""	return result[0], err
""")]
DEMO='''package main

import (
	"math/big"
	"testing"

	"github.com/consensys/gnark/frontend"
)

func TestDemo(t *testing.T) {
	in := demoWords([]string{"1", "2", "3", "4", "5"})
	var honest, forged *big.Int
	if err := demoRun(func(api frontend.API) error {
		v, err := VerifyInstanceHash(api, in)
		honest = new(big.Int).Mod(v.(*big.Int), MODULUS)
		return err
	}, nil); err != nil {
		t.Fatal(err)
	}
	err := demoRun(func(api frontend.API) error {
		v, err := VerifyInstanceHash(api, in)
		forged = new(big.Int).Mod(v.(*big.Int), MODULUS)
		return err
	}, func(name string, _ []frontend.Variable, ask func() ([]frontend.Variable, error)) ([]frontend.Variable, error) {
		out, err := ask()
		if err == nil && len(out) == 1+32*6 {
			out[0] = big.NewInt(12345)
		}
		return out, err
	})
	if err == nil && forged.Cmp(honest) != 0 {
		t.Fatal("a claimed digest was taken for the instance hash")
	}
}
'''
