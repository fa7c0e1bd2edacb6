package main

// Lite sessions: the boundary functions of the package that only hand over to
// gnark's gadgets answer natively. The statement is the same, decided by
// gnark-crypto, and only a true one is taken as settled: a false one goes to
// the real gadget (a false pairing one time in seven), which has to refuse it,
// and so does anything out of the
// ordinary (a point off the curve, infinity, a degenerate scalar, operands that
// are not plain integers) and some true statements (one in 40 to 400). Lite sessions differ
// from full ones in cost only.

import (
	"bytes"
	"crypto/sha256"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/ethereum/go-ethereum/crypto"
)

var vsLiteOdd = func() map[string]bool {
	m := map[string]bool{}
	for a := int64(-3); a <= 3; a++ {
		for b := int64(-3); b <= 3; b++ {
			x := new(big.Int).Mul(vsLambda, big.NewInt(b))
			x.Add(x, big.NewInt(a))
			m[x.Mod(x, vsR).String()] = true
		}
	}
	return m
}()

func liteOf(api frontend.API) *simAPI {
	a, ok := api.(*simAPI)
	if !ok || !a.lite {
		return nil
	}
	return a
}

func plain(v frontend.Variable) *big.Int {
	b, _ := v.(*big.Int)
	if b == nil || b.Sign() < 0 || b.Cmp(vsFp) >= 0 {
		return nil
	}
	return b
}

func litePoint(p [2]frontend.Variable) (q bn254.G1Affine, ok bool) {
	x, y := plain(p[0]), plain(p[1])
	if x == nil || y == nil || x.Sign() == 0 && y.Sign() == 0 {
		return
	}
	return refPoint(x, y)
}

// liteTrue says whether a statement is settled without the gadget.
func (a *simAPI) liteTrue(ok bool, oneIn int) bool {
	if a.liteDefer { // only the values that flow on are of interest
		return true
	}
	if !ok && a.liteRng == nil {
		a.fail("[lite] the statement put to a gadget is false")
	}
	if !ok || a.liteRng != nil && a.liteRng.n(oneIn) == 0 {
		return false
	}
	a.tick()
	a.liteOps++
	return true
}

func (a *simAPI) liteEqual(p bn254.G1Affine, e [2]frontend.Variable) bool {
	x, y := plain(e[0]), plain(e[1])
	if x == nil || y == nil || p.IsInfinity() {
		return false
	}
	return a.liteTrue(bi(p.X).Cmp(x) == 0 && bi(p.Y).Cmp(y) == 0, 120)
}

func vsLite_VerifyBN254ScalarMul(api frontend.API, point [2]frontend.Variable, scalar frontend.Variable, expected [2]frontend.Variable) (error, bool) {
	a := liteOf(api)
	if a == nil {
		return nil, false
	}
	p, ok := litePoint(point)
	k := plain(scalar)
	if !ok || k == nil || k.Cmp(vsR) >= 0 || vsLiteOdd[k.String()] {
		return nil, false
	}
	return nil, a.liteEqual(refMulPtB(p, k), expected)
}

func vsLite_VerifyBN254Add(api frontend.API, p1, p2, expected [2]frontend.Variable) (error, bool) {
	a := liteOf(api)
	if a == nil {
		return nil, false
	}
	p, ok := litePoint(p1)
	q, ok2 := litePoint(p2)
	if !ok || !ok2 || p.X.Equal(&q.X) {
		return nil, false
	}
	var ny = q.Y
	ny.Neg(&ny)
	if p.Y.Equal(&ny) {
		return nil, false
	}
	return nil, a.liteEqual(refAddPts(p, q), expected)
}

func (a *simAPI) liteBytes(u []uints.U8) []byte {
	b := make([]byte, len(u))
	for i := range u {
		if u[i].Val == nil {
			return nil
		}
		x := a.big(u[i].Val)
		if x.Sign() < 0 || x.BitLen() > 8 {
			return nil
		}
		b[i] = byte(x.Uint64())
	}
	return b
}

func (a *simAPI) liteHash(in, hash []uints.U8, f func([]byte) []byte) bool {
	b, h := a.liteBytes(in), a.liteBytes(hash)
	if b == nil || len(h) != 32 {
		return false
	}
	return a.liteTrue(bytes.Equal(f(b), h), 400)
}

func vsLite_VerifySha256(api frontend.API, in, hash []uints.U8) (error, bool) {
	a := liteOf(api)
	if a == nil {
		return nil, false
	}
	return nil, a.liteHash(in, hash, func(b []byte) []byte { d := sha256.Sum256(b); return d[:] })
}

func vsLite_VerifyKeccak256(api frontend.API, in, hash []uints.U8) (error, bool) {
	a := liteOf(api)
	if a == nil {
		return nil, false
	}
	return nil, a.liteHash(in, hash, func(b []byte) []byte { return crypto.Keccak256(b) })
}

func (a *simAPI) limbs(l []frontend.Variable) *big.Int {
	x := new(big.Int)
	for i := len(l) - 1; i >= 0; i-- {
		b, ok := l[i].(*big.Int)
		if !ok || b == nil || b.Sign() < 0 || b.BitLen() > 64 {
			return nil
		}
		x.Lsh(x, 64).Add(x, b)
	}
	if len(l) == 0 || x.Cmp(vsFp) >= 0 {
		return nil
	}
	return x
}

func vsLite_VerifyBN256Pairing(api frontend.API, g1 []*sw_bn254.G1Affine, g2 []*sw_bn254.G2Affine) (error, bool) {
	a := liteOf(api)
	if a == nil || len(g1) == 0 || len(g1) != len(g2) {
		return nil, false
	}
	ps, qs := make([]bn254.G1Affine, len(g1)), make([]bn254.G2Affine, len(g2))
	for i := range g1 {
		if g1[i] == nil || g2[i] == nil || g2[i].Lines != nil {
			return nil, false
		}
		x, y := a.limbs(g1[i].X.Limbs), a.limbs(g1[i].Y.Limbs)
		if x == nil || y == nil {
			return nil, false
		}
		var ok bool
		if ps[i], ok = refPoint(x, y); !ok || ps[i].IsInfinity() {
			return nil, false
		}
		c := [4]*big.Int{a.limbs(g2[i].P.X.A0.Limbs), a.limbs(g2[i].P.X.A1.Limbs), a.limbs(g2[i].P.Y.A0.Limbs), a.limbs(g2[i].P.Y.A1.Limbs)}
		for _, b := range c {
			if b == nil {
				return nil, false
			}
		}
		qs[i].X.A0.SetBigInt(c[0])
		qs[i].X.A1.SetBigInt(c[1])
		qs[i].Y.A0.SetBigInt(c[2])
		qs[i].Y.A1.SetBigInt(c[3])
		if qs[i].IsInfinity() || !qs[i].IsOnCurve() || !qs[i].IsInSubGroup() {
			return nil, false
		}
	}
	if a.liteDefer {
		return nil, true
	}
	ok, err := bn254.PairingCheck(ps, qs)
	if err == nil && !ok && !a.liteDefer && a.liteRng != nil && a.liteRng.n(7) != 0 {
		// the one false statement that is too dear to put to the gadget each time
		a.fail("[lite] the product of the pairings is not one")
	}
	return nil, a.liteTrue(err == nil && ok, 40)
}

// fr_pow by a large constant exponent: millions of multiplications in a row.
func vsLite_fr_pow(api frontend.API, x, power frontend.Variable) (frontend.Variable, bool) {
	a := liteOf(api)
	if a == nil || vsb_mod == nil {
		return nil, false
	}
	b, k := plain(x), plain(power)
	if b == nil || k == nil || k.BitLen() < 16 {
		return nil, false
	}
	a.tick()
	a.liteOps++
	return vsb_mod(api, new(big.Int).Exp(b, k, vsR)), true
}
