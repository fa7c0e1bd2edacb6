package main

// Compiled circuits: the constraint system is built once per shape and solved
// by gnark's real solver in this process, with only the advice functions the
// package registered itself, or with an oracle that lies.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc"
	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark/constraint"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
	fcs "github.com/consensys/gnark/frontend/cs"
	"github.com/consensys/gnark/frontend/cs/r1cs"
	"github.com/consensys/gnark/frontend/cs/scs"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/bits"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/ethereum/go-ethereum/crypto"
	"golang.org/x/crypto/sha3"
)

func init() { vsKinds["comp"] = kComp }

type ccEntry struct {
	ccs constraint.ConstraintSystem
	err error
}

var vsCC = map[string]*ccEntry{}

func compiled(key string, plonk bool, c frontend.Circuit) (cc *ccEntry) {
	key = fmt.Sprint(key, plonk)
	if e, ok := vsCC[key]; ok {
		return e
	}
	e := &ccEntry{}
	vsCC[key] = e
	var o vsOutcome
	vsPaused(func() {
		o = vsProtect(func() error {
			b := r1cs.NewBuilder
			if plonk {
				b = scs.NewBuilder
			}
			e.ccs, e.err = frontend.Compile(vsR, b, c)
			return e.err
		})
	})
	if o.V != vAccept && e.err == nil {
		e.err = fmt.Errorf("compile: %s", o.Why)
	}
	return e
}

func bsbHint(_ *big.Int, in, out []*big.Int) error {
	h := sha3.NewLegacyKeccak256()
	for _, x := range in {
		h.Write(x.FillBytes(make([]byte, 32)))
	}
	out[0].SetBytes(h.Sum(nil))
	out[0].Mod(out[0], vsR)
	if out[0].Sign() == 0 {
		out[0].SetUint64(1)
	}
	return nil
}

// the package's parts as circuits of their own

type wInst struct {
	In  []frontend.Variable
	Out frontend.Variable `gnark:",public"`
}

func (c *wInst) Define(api frontend.API) error {
	h, err := vsb_VerifyInstanceHash(api, c.In)
	if err != nil {
		return err
	}
	api.AssertIsEqual(h, c.Out)
	return nil
}

type wRange struct{ X, Lo, Hi frontend.Variable }

func (c *wRange) Define(api frontend.API) error { return vsb_VerifyRangeCheck(api, c.X, c.Lo, c.Hi) }

// wRangeC is the same check against bounds fixed in the circuit.
type wRangeC struct {
	X, Lo, Hi frontend.Variable
	cLo, cHi  *big.Int
}

func (c *wRangeC) Define(api frontend.API) error {
	lo, hi := c.Lo, c.Hi
	if c.cLo != nil {
		lo = c.cLo
	}
	if c.cHi != nil {
		hi = c.cHi
	}
	return vsb_VerifyRangeCheck(api, c.X, lo, hi)
}

type wNotZero struct{ X frontend.Variable }

func (c *wNotZero) Define(api frontend.API) error { return vsb_VerifyNotZero(api, c.X) }

type wFr struct {
	A, B, Q frontend.Variable
	Out     [6]frontend.Variable `gnark:",public"`
}

func (c *wFr) Define(api frontend.API) error {
	o := []frontend.Variable{
		vsb_fr_add(api, c.A, c.B), vsb_fr_sub(api, c.A, c.B), vsb_fr_mul(api, c.A, c.B),
		vsb_fr_neg(api, c.A), vsb_fr_div(api, c.A, c.B, c.Q), vsb_fr_pow(api, c.A, big.NewInt(5)),
	}
	for i := range o {
		api.AssertIsEqual(o[i], c.Out[i])
	}
	return nil
}

type wPack struct {
	In  []frontend.Variable
	Out frontend.Variable
}

func (c *wPack) Define(api frontend.API) error {
	api.AssertIsEqual(vsb_PackUInt8Variables(api, c.In...), c.Out)
	return nil
}

const nCompOps = 9

func kComp(s *sess) {
	r := s.r
	op := s.P("op", int64(r.n(nCompOps)))
	plonk := s.P("plonk", int64(r.n(2))) == 1
	var mk, w frontend.Circuit
	key, why := "", ""
	good := false
	edge := false // statement not covered by the claim
	switch op {
	case 0:
		if vsc_Kyc == nil {
			return
		}
		c := genKyc(s)
		for len(c.list) > 2 && s.P("any", 0) == 0 {
			// keep few shapes, so that compiled systems are reused
			if c.country.Cmp(c.list[len(c.list)-1]) == 0 {
				c.list[0] = c.list[len(c.list)-1]
			}
			c.list = c.list[:len(c.list)-1]
		}
		if len(c.list) == 0 {
			return
		}
		in := false
		for _, x := range c.list {
			in = in || x.Cmp(c.country) == 0
		}
		c.good = c.sigGood && in && c.age.Cmp(c.lo) >= 0 && c.age.Cmp(c.hi) <= 0
		mk, w = kycCircuits(c)
		key, good, why = fmt.Sprint("kyc", len(c.list), ":", c.nLevel, ":", c.nTime), c.good, "the credential is not valid for the conditions"
	case 1:
		if s.p.P == nil {
			s.p.P = map[string]int64{}
		}
		if _, ok := s.p.P["len"]; !ok {
			s.p.P["len"] = int64(pick(r, []int{1, 32, 55, 56, 64, 135, 136, 160}))
		}
		alg, msg, dig, g := genHashCase(s)
		f := vsc_Keccak
		if alg == 1 {
			f = vsc_Sha
		}
		if f == nil || len(dig) != 32 {
			return
		}
		w = f(u8s(msg), u8s(dig))
		mk = f(make([]uints.U8, len(msg)), make([]uints.U8, 32))
		key, good, why = fmt.Sprint("hash", alg, "-", len(msg)), g, "the digest is wrong"
	case 2, 3:
		if vsb_VerifyInstanceHash == nil {
			return
		}
		n := pick(r, []int{1, 2, 5})
		var vals []*big.Int
		for i := 0; i < n; i++ {
			vals = append(vals, r.special(vsR))
		}
		out := modR(refKeccakInstance(vals, nil))
		good, why = true, "the value is not the instance digest"
		claim := new(big.Int).Set(out)
		switch s.P("claim", int64(r.n(4))) {
		case 1:
			claim = r.big(vsR)
		case 2: // the digest of other words, which a lying oracle may supply
			o := vsClone(vals)
			j := r.n(n)
			o[j].Add(o[j], big.NewInt(1))
			o[j].Mod(o[j], vsR)
			claim = modR(refKeccakInstance(o, nil))
			s.subst = map[string]*big.Int{vals[j].String(): o[j]}
		case 4: // the digest of the same words written as other integers
			for i := range s.p.F {
				if f := &s.p.F[i]; f.K == "adv.consx" {
					j := int(uint64(f.B) % uint64(n))
					if vals[j].BitLen() > 250 {
						vals[j].Rsh(vals[j], 4)
					}
					var b []byte
					for i, v := range vals {
						x := new(big.Int).Set(v)
						if i == j {
							x.Add(x, new(big.Int).Mul(vsR, big.NewInt(1+f.C%4)))
						}
						b = append(b, x.FillBytes(make([]byte, 32))...)
					}
					out = modR(refKeccakInstance(vals, nil))
					claim = modR(new(big.Int).SetBytes(crypto.Keccak256(b)))
				}
			}
		}
		if claim.Cmp(out) != 0 {
			good = false
			s.fire("msg.claim")
		}
		mk, w = &wInst{In: make([]frontend.Variable, n)}, &wInst{In: vars(vals), Out: claim}
		key = fmt.Sprint("inst", n)
	case 4:
		if vsb_VerifyRangeCheck == nil {
			return
		}
		x, lo, hi := genRange(r)
		ckey := ""
		mk, w = &wRange{}, &wRange{x, lo, hi}
		cst := s.P("const", int64(r.n(6)))
		if cst >= 1 && cst <= 3 {
			b := pick(r, [][2]int64{{18, 60}, {1, 255}, {0, 1}, {7, 7}})
			lo, hi = big.NewInt(b[0]), big.NewInt(b[1])
			if r.n(2) == 0 {
				x = new(big.Int).Mod(big.NewInt(pick(r, b[:])+int64(r.n(5)-2)), vsR)
			}
			m, v := &wRangeC{}, &wRangeC{X: x, Lo: lo, Hi: hi}
			if cst&1 != 0 {
				m.cLo, v.cLo = lo, lo
			}
			if cst&2 != 0 {
				m.cHi, v.cHi = hi, hi
			}
			mk, w = m, v
			ckey = fmt.Sprint(cst, b)
		}
		key, good, why = "range"+ckey, lo.Cmp(x) <= 0 && x.Cmp(hi) <= 0, "the value is outside the range"
	case 5:
		if vsb_VerifyNotZero == nil {
			return
		}
		x := r.special(vsR)
		mk, w = &wNotZero{}, &wNotZero{x}
		key, good, why = "notzero", x.Sign() != 0, "the value is zero"
	case 6:
		if vsb_fr_add == nil || vsb_fr_sub == nil || vsb_fr_mul == nil || vsb_fr_neg == nil || vsb_fr_div == nil || vsb_fr_pow == nil {
			return
		}
		a, b := r.special(vsR), r.special(vsR)
		if b.Sign() == 0 {
			b.SetUint64(2)
		}
		q := new(big.Int).ModInverse(b, vsR)
		q.Mul(q, a).Mod(q, vsR)
		M := func(x *big.Int) *big.Int { return x.Mod(x, vsR) }
		out := []*big.Int{M(new(big.Int).Add(a, b)), M(new(big.Int).Sub(a, b)), M(new(big.Int).Mul(a, b)), M(new(big.Int).Neg(a)), new(big.Int).Set(q), new(big.Int).Exp(a, big.NewInt(5), vsR)}
		good, why = true, "a result is wrong"
		if r.n(2) == 0 {
			j := r.n(7)
			d := r.special(vsR)
			if d.Sign() == 0 {
				d.SetUint64(1)
			}
			if j < 6 {
				M(out[j].Add(out[j], d))
			} else {
				M(q.Add(q, d))
			}
			good = false
			s.fire("msg.claim")
		}
		x := &wFr{A: a, B: b, Q: q}
		for i := range out {
			x.Out[i] = out[i]
		}
		mk, w, key = &wFr{}, x, "fr"
	case 7:
		if vsb_PackUInt8Variables == nil {
			return
		}
		n := pick(r, []int{1, 4, 32})
		b := r.bytes(n)
		if r.n(3) == 0 {
			for i := range b {
				b[i] = 255
			}
		}
		x := &wPack{In: make([]frontend.Variable, n)}
		for i := range b {
			x.In[i] = int(b[i])
		}
		out := new(big.Int).SetBytes(b)
		good, why = true, "the packed value is wrong"
		if r.n(2) == 0 {
			out.Add(out, big.NewInt(int64(1+r.n(500))))
			good = false
		}
		x.Out = out.Mod(out, vsR)
		mk, w, key = &wPack{In: make([]frontend.Variable, n)}, x, fmt.Sprint("pack", n)
	case 8:
		if vsc_Msm == nil {
			return
		}
		n := 1 + r.n(2)
		ps, ks := make([]sw_emulated.AffinePoint[emulated.BN254Fp], n), make([]emulated.Element[emulated.BN254Fr], n)
		part := bn254.G1Affine{}
		var p0 bn254.G1Affine
		for i := range ps {
			p, k := genPoint(r, int64(r.n(8))), r.special(vsR)
			if k.Sign() == 0 {
				k.SetUint64(9)
			}
			edge = edge || vsDegenerate[k.String()]
			ps[i], ks[i] = emuPt(p), emulated.ValueOf[emulated.BN254Fr](k)
			t := refMulPtB(p, k)
			edge = edge || i%2 == 1 && sameOrbit(p0, p)
			part = refAddPts(part, t)
			edge = edge || part.IsInfinity()
			p0 = p
		}
		claim := part
		if r.n(2) == 0 {
			claim = tamperPt(r, part, p0)
			s.fire("msg.claim")
		}
		good, why = claim.Equal(&part), "the claimed result is wrong"
		mk = vsc_Msm(make([]sw_emulated.AffinePoint[emulated.BN254Fp], n), make([]emulated.Element[emulated.BN254Fr], n), sw_emulated.AffinePoint[emulated.BN254Fp]{})
		w, key = vsc_Msm(ps, ks, emuPt(claim)), fmt.Sprint("msm", n)
	case 9:
		if vsc_Pairing == nil {
			return
		}
		a, b, c := r.big(vsR), r.big(vsR), r.big(vsR)
		d := new(big.Int).ModInverse(c, vsR)
		d.Mul(d, a).Mul(d, b).Neg(d).Mod(d, vsR)
		g1 := [2]bn254.G1Affine{refMulG(a), refMulG(c)}
		g2 := [2]bn254.G2Affine{genG2(b), genG2(d)}
		if r.n(2) == 0 {
			g1[r.n(2)] = refMulG(r.big(vsR))
		}
		good, _ = bn254.PairingCheck(g1[:], g2[:])
		why = "the pairing product is not one"
		ph := func() frontend.Circuit {
			return vsc_Pairing([2]*sw_bn254.G1Affine{{}, {}}, [2]*sw_bn254.G2Affine{{}, {}})
		}
		var v1 [2]*sw_bn254.G1Affine
		var v2 [2]*sw_bn254.G2Affine
		for i := range g1 {
			x, y := sw_bn254.NewG1Affine(g1[i]), sw_bn254.NewG2Affine(g2[i])
			v1[i], v2[i] = &x, &y
		}
		mk, w, key = ph(), vsc_Pairing(v1, v2), "pairing"
	default:
		return
	}

	cc := compiled(key, plonk, mk)
	if cc.err != nil {
		s.bad("reject-good", "circuit %s does not compile: %v", key, cc.err)
		return
	}
	wit, err := frontend.NewWitness(w, ecc.BN254.ScalarField())
	if err != nil {
		s.bad("reject-good", "no witness for circuit %s: %v", key, err)
		return
	}
	opts := []solver.Option{solver.WithNbTasks(1), solver.OverrideHint(solver.GetHintID(fcs.Bsb22CommitmentComputePlaceholder), bsbHint)}
	// the oracle of this run
	s.api = newSimAPI()
	s.arm(s.api)
	if on := s.api.onHint; on != nil {
		idx := 0
		wrap := func(name string, f solver.Hint) {
			if f == nil {
				return
			}
			opts = append(opts, solver.OverrideHint(solver.GetHintID(f), func(m *big.Int, in, out []*big.Int) error {
				i := idx
				idx++
				res, err := on(s.api, i, name, f, vsClone(in), len(out))
				if err != nil {
					return err
				}
				for j := range out {
					if res[j] == nil {
						return errAdvice
					}
					out[j].Mod(res[j], vsR)
				}
				return nil
			}))
		}
		for _, f := range bits.GetHints() {
			if f := f; s.altBits != nil && isBitsHint(f) {
				opts = append(opts, solver.OverrideHint(solver.GetHintID(f), func(m *big.Int, in, out []*big.Int) error {
					err := f(m, in, out)
					vsAltBits(s.altBits, in[0], out)
					return err
				}))
			}
		}
		wrap("modHint", vsb_modHint)
		wrap("Keccak256Hint", vsb_Keccak256Hint)
		wrap("MsmHint", vsb_MsmHint)
		wrap("AddHint", vsb_AddHint)
	}
	s.api = nil
	var serr error
	o := vsProtect(func() error {
		_, serr = cc.ccs.Solve(wit, opts...)
		return serr
	})
	s.note(o)
	if o.V == vAccept && !good {
		s.bad("accept-bad", "constraints of circuit %s (plonk=%v) satisfied although %s", key, plonk, why)
	}
	if o.V == vReject && good && !edge && !s.lied && !s.failing {
		s.bad("reject-good", "constraints of circuit %s (plonk=%v) cannot be solved for a true statement: %s", key, plonk, o.Why)
	}
	// direct evaluation of the same statement
	if s.P("direct", 1) == 1 && !s.lied && !s.failing {
		api := newSimAPI()
		d := api.vsSolveW(mk, w)
		s.calls += api.calls
		if (d.V == vAccept) != (o.V == vAccept) {
			s.bad("differs", "circuit %s: direct evaluation says %v (%s), the compiled constraints say %v (%s)", key, d.V, d.Why, o.V, o.Why)
		}
	}
}

var _ fr.Element
