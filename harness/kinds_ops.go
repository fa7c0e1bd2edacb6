package main

// Sessions that exercise the parts of the verifier: curve and field
// operations, instance hash, challenges, hash circuits, on-curve checks,
// pairing, KYC, range checks, single-operation circuits.

import (
	"crypto/sha256"
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/consensys/gnark-crypto/ecc/secp256k1"
	"github.com/consensys/gnark/frontend"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_emulated"
	"github.com/consensys/gnark/std/math/emulated"
	"github.com/consensys/gnark/std/math/uints"
	"github.com/ethereum/go-ethereum/crypto"
)

func init() {
	vsKinds["ec"] = kEC
	vsKinds["inst"] = kInst
	vsKinds["chal"] = kChal
	vsKinds["fr"] = kFr
	vsKinds["hash"] = kHash
	vsKinds["curve"] = kCurve
	vsKinds["pair"] = kPair
	vsKinds["load"] = kLoad
	vsKinds["kyc"] = kKyc
	vsKinds["range"] = kRange
	vsKinds["msm"] = kMsm
	vsKinds["nop"] = func(s *sess) {}
}

// words presents a part of the message: the objects of an earlier session if
// the plan says the same message is presented again, fresh ones otherwise.
func (s *sess) words(key string, vals []*big.Int) []*big.Int {
	objs := vsClone(vals)
	if j := s.P("reuse", 0) - 1; j >= 0 && j < int64(len(s.run.objs)) && s.run.objs[j] != nil {
		if o, ok := s.run.objs[j][key].([]*big.Int); ok && len(o) == len(vals) {
			objs = o
			for i := range o {
				if o[i].Cmp(vals[i]) != 0 { // since used for something else
					objs = vsClone(vals)
					break
				}
			}
		}
	}
	if s.P("recycle", 0) == 1 {
		// a caller that keeps its objects and writes new values into them
		for j := s.idx - 1; j >= 0; j-- {
			if s.run.plan.Sess[j].Th != s.p.Th || s.run.objs[j] == nil {
				continue
			}
			if o, ok := s.run.objs[j][key].([]*big.Int); ok && len(o) == len(vals) {
				for i := range o {
					o[i].Set(vals[i])
				}
				objs = o
				s.fire("recycle")
				break
			}
		}
	}
	if s.run.objs[s.idx] == nil {
		s.run.objs[s.idx] = map[string]any{}
	}
	s.run.objs[s.idx][key] = objs
	for i := range objs {
		s.snap = append(s.snap, snapEntry{fmt.Sprintf("%s[%d]", key, i), objs[i], new(big.Int).Set(vals[i])})
	}
	return objs
}

// mut says that this session's operands are those of another session with the
// same seed but for one change.
func (s *sess) mut(i int) (int, *rng) {
	m := int(s.P("mut", 0))
	return m, newRng(vsMix(s.p.Seed, uint64(m)*1000+uint64(i)))
}

func vars(xs []*big.Int) []frontend.Variable {
	r := make([]frontend.Variable, len(xs))
	for i := range xs {
		r[i] = xs[i]
	}
	return r
}

// val reads a variable's value; nil if it has none.
func val(v frontend.Variable) (b *big.Int) {
	defer func() {
		if recover() != nil {
			b = nil
		}
	}()
	if v == nil {
		return nil
	}
	return new(big.Int).Set(newSimAPI().big(v))
}

func modR(b *big.Int) *big.Int {
	if b == nil {
		return nil
	}
	return new(big.Int).Mod(b, vsR)
}

func genPoint(r *rng, how int64) bn254.G1Affine {
	switch how % 8 {
	case 0, 1, 2:
		return refMulG(r.big(vsR))
	case 3:
		return refMulG(big.NewInt(int64(1 + r.n(5))))
	case 4:
		return refFixed[r.n(len(refFixed))]
	case 5:
		return refInstBase
	case 6:
		p := refFixed[r.n(len(refFixed))]
		p.Neg(&p)
		return p
	default:
		pp := refPointPositions()
		i := pp[r.n(len(pp))]
		p, _ := refPoint(refBig(vsRealProof[i]), refBig(vsRealProof[i+1]))
		return p
	}
}

func inR(p bn254.G1Affine) bool { return bi(p.X).Cmp(vsR) < 0 && bi(p.Y).Cmp(vsR) < 0 }

// vsDegenerate: scalars at which gnark's incomplete scalar multiplication adds
// a point to itself or its negative; honest provers cannot use them.
var vsDegenerate = map[string]bool{}

func init() {
	for _, c := range [][2]int64{{-1, 0}, {-2, 0}, {-1, -1}, {0, -1}, {-2, 1}, {-1, 1}, {0, 1}, {0, 2}} {
		k := new(big.Int).Mul(vsLambda, big.NewInt(c[1]))
		k.Add(k, big.NewInt(c[0]))
		vsDegenerate[k.Mod(k, vsR).String()] = true
	}
}

func sameOrbit(p, q bn254.G1Affine) bool {
	var a, b fp.Element
	a.Exp(p.X, big.NewInt(3))
	b.Exp(q.X, big.NewInt(3))
	return a.Equal(&b)
}

const (
	opEccMul = iota
	opMsm
	opMsm1
	opLagrange
	opEccMulAdd
	opAdd
	opAdd1
	nEcOps
)

func kEC(s *sess) {
	n := int(s.P("n", 1))
	api := s.begin()
	type want struct {
		exp  bn254.G1Affine
		got  [2]frontend.Variable
		name string
		full bool // completeness applies
		desc string
	}
	var ws []*want
	complete, ran := true, false
	o := vsProtect(func() error {
		for i := 0; i < n; i++ {
			op := s.P(fmt.Sprintf("op%d", i), s.P("op", int64(s.r.n(nEcOps))))
			p := genPoint(s.r, s.P("pt", int64(s.r.n(8))))
			q := genPoint(s.r, s.P("qt", int64(s.r.n(8))))
			k := s.r.special(vsR)
			// small combinations of 1 and the eigenvalue of the endomorphism
			ka, kb := int64(s.r.n(17)-8), int64(s.r.n(17)-8)
			if s.r.n(8) == 0 || s.P("grid", 0) != 0 {
				if g := s.P("grid", 0) - 1; g >= 0 {
					ka, kb = g%33-16, g/33-16
				}
				k = new(big.Int).Mul(vsLambda, big.NewInt(kb))
				k.Add(k, big.NewInt(ka))
				k.Mod(k, vsR)
			}
			if vsDegenerate[k.String()] && s.run.plan.Prop != "C03" {
				k = big.NewInt(2) // see the known findings
			}
			rel := s.P("rel", int64(s.r.n(12)))
			if rel == 9 {
				q = p
			} else if rel == 10 {
				q.Neg(&p)
			} else if rel == 11 && s.P("edge", 0) == 1 {
				q.Neg(&p)
				q.X.SetBigInt(new(big.Int).Mod(new(big.Int).Mul(bi(q.X), vsBeta), vsFp))
			}
			if m, r2 := s.mut(i); m > 0 {
				switch m % 8 {
				case 1:
					p.Neg(&p)
				case 2:
					k = r2.special(vsR)
				case 3:
					p, q = q, p
				case 4:
					q.Neg(&q)
				case 5:
					p = genPoint(r2, 0)
				case 6:
					q = genPoint(r2, 0)
				case 7:
					p.X.SetBigInt(new(big.Int).Mod(new(big.Int).Mul(bi(p.X), vsBeta), vsFp))
				case 0:
					q.X.SetBigInt(new(big.Int).Mod(new(big.Int).Mul(bi(q.X), vsBeta), vsFp))
				}
				if vsDegenerate[k.String()] && s.run.plan.Prop != "C03" {
					k = big.NewInt(2)
				}
			}
			if s.P("k0", 0) == 0 && k.Sign() == 0 {
				k.SetUint64(1)
			}
			w := &want{}
			in := s.words(fmt.Sprintf("in%d", i), []*big.Int{bi(p.X), bi(p.Y), bi(q.X), bi(q.Y), k})
			v := vars(in)
			kp := refMulPtB(p, k)
			if (op == opEccMul && vsb_ecc_mul == nil) || (op == opEccMulAdd && vsb_ecc_mul_add == nil) || (op == opMsm && vsb_CalcVerifyBN256Msm == nil) ||
				(op == opMsm1 && vsb_CalcVerifyBN256Msm1 == nil) || (op == opLagrange && vsb_CalcVerifyCircuitLagrange == nil) ||
				(op == opAdd && vsb_CalcVerifyBN256Add == nil) || (op == opAdd1 && vsb_CalcVerifyBN256Add1 == nil) {
				continue
			}
			switch op {
			case opEccMulAdd:
				w.name, w.exp = "multiply-add", refAddPts(q, kp)
			case opEccMul, opMsm, opMsm1:
				w.name, w.exp = "scalar multiplication", kp
			case opLagrange:
				w.name, w.exp = "instance commitment", refMulPtB(refInstBase, k)
			case opAdd, opAdd1:
				w.name, w.exp = "point addition", refAddPts(p, q)
			}
			ran = true
			w.full = !w.exp.IsInfinity() && !p.IsInfinity() && k.Sign() != 0 && inR(w.exp)
			if op == opEccMulAdd {
				w.full = w.full && inR(kp)
			}
			w.desc = fmt.Sprintf("k=%v P=(%v,%v) Q=(%v,%v)", k, bi(p.X), bi(p.Y), bi(q.X), bi(q.Y))
			complete = complete && w.full
			ws = append(ws, w)
			var err error
			switch op {
			case opEccMul, opEccMulAdd:
				off := s.r.n(38)
				buf := make([]frontend.Variable, 43)
				for j := range buf {
					buf[j] = new(big.Int)
				}
				if op == opEccMul {
					copy(buf[off:], []frontend.Variable{v[0], v[1], v[4]})
					err = vsb_ecc_mul(api, buf, off)
				} else {
					copy(buf[off:], []frontend.Variable{v[2], v[3], v[0], v[1], v[4]})
					err = vsb_ecc_mul_add(api, buf, off)
				}
				w.got = [2]frontend.Variable{buf[off], buf[off+1]}
			case opMsm:
				w.got, err = vsb_CalcVerifyBN256Msm(api, v[0], v[1], v[4])
			case opMsm1:
				w.got, err = vsb_CalcVerifyBN256Msm1(api, v[0], v[1], v[4])
			case opLagrange:
				buf := []frontend.Variable{v[0], v[1], v[4], v[2]}
				err = vsb_CalcVerifyCircuitLagrange(api, buf)
				w.got = [2]frontend.Variable{buf[0], buf[1]}
			case opAdd:
				w.got, err = vsb_CalcVerifyBN256Add(api, v[0], v[1], v[2], v[3])
			case opAdd1:
				w.got, err = vsb_CalcVerifyBN256Add1(api, v[0], v[1], v[2], v[3])
			}
			if err != nil {
				return err
			}
			if s.failing {
				s.bad("fail-open", "%s reported success although %v was injected into it", w.name, s.fired)
			}
		}
		return api.runDeferred()
	})
	if !ran && o.V == vAccept {
		return
	}
	s.note(o)
	s.end()
	if o.V == vAccept {
		for _, w := range ws {
			x, y := val(w.got[0]), val(w.got[1])
			if w.exp.IsInfinity() {
				// the circuits have no representation for the point at infinity
				if x == nil || y == nil || x.Sign() != 0 || y.Sign() != 0 {
					s.bad("edge-output", "%s with an infinite result accepted with output (%v,%v)", w.name, x, y)
				}
				continue
			}
			if x == nil || y == nil || modR(x).Cmp(modR(bi(w.exp.X))) != 0 || modR(y).Cmp(modR(bi(w.exp.Y))) != 0 {
				s.bad("wrong-output", "%s accepted with output (%v,%v), the group law gives (%v,%v)", w.name, x, y, bi(w.exp.X), bi(w.exp.Y))
			}
			s.mixBig(x, y)
		}
	} else if o.V == vReject && complete && !s.lied && !s.failing {
		l := ws[len(ws)-1]
		s.bad("reject-good", "honest %s (%s) rejected: %s", l.name, l.desc, o.Why)
	}
}

func kInst(s *sess) {
	if vsb_VerifyInstanceHash == nil {
		return
	}
	n := int(s.P("n", 5))
	vals := make([]*big.Int, n)
	for i := range vals {
		if s.P("real", 0) == 1 {
			vals[i] = refBig(append(append([]string{}, vsRealTarget...), vsRealInst...)[i%5])
		} else if s.r.n(3) == 0 {
			vals[i] = s.r.special(vsR)
		} else if i < n-1 {
			vals[i] = new(big.Int).SetUint64(s.r.u64())
		} else {
			vals[i] = s.r.big(vsR)
		}
	}
	if m, r2 := s.mut(0); m > 0 {
		a, b := r2.n(n), r2.n(n)
		switch m % 4 {
		case 0:
			vals[a], vals[b] = vals[b], vals[a]
		case 1:
			vals[n-1] = r2.big(vsR)
		case 2:
			vals[a] = new(big.Int).Add(vals[a], big.NewInt(1))
			vals[a].Mod(vals[a], vsR)
		default:
			vals[a] = r2.special(vsR)
		}
	}
	in := s.words("inst", vals)
	want := modR(refKeccakInstance(vals, nil))
	api := s.begin()
	var got frontend.Variable
	s.note(api.vsCall(func(a frontend.API) error {
		var err error
		got, err = vsb_VerifyInstanceHash(a, vars(in))
		if err == nil && s.failing {
			s.bad("fail-open", "instance hash reported success although %v was injected into it", s.fired)
		}
		return err
	}))
	s.end()
	switch {
	case s.out.V == vAccept:
		g := modR(val(got))
		if g == nil || g.Cmp(want) != 0 {
			s.bad("wrong-output", "instance hash accepted with value %v, Keccak-256 of the targets and instance is %v", g, want)
		}
		s.mixBig(g)
	case s.out.V == vReject && !s.lied && !s.failing:
		s.bad("reject-good", "honest instance hash rejected: %s", s.out.Why)
	}
}

func kChal(s *sess) {
	if vsb_GetChallengesShPlonkCircuit == nil {
		return
	}
	m := s.genMsg()
	for i := range s.p.F {
		f := &s.p.F[i]
		if len(f.K) > 4 && f.K[:4] == "msg." {
			var other *aggMsg
			if f.K == "msg.mix" {
				other = genSimMsg(newRng(vsMix(s.p.Seed, 77)))
			}
			if corrupt(m, f, newRng(vsMix(s.p.Seed, uint64(i)+500)), other) {
				s.fire(f.K)
			}
		}
	}
	ip := genPoint(s.r, int64(s.r.n(8)))
	proof := s.words("proof", m.Proof)
	ixy := s.words("inst", []*big.Int{bi(ip.X), bi(ip.Y)})
	want, werr := refGetChallenges(ixy[0], ixy[1], m.Proof)
	buf := make([]frontend.Variable, 43)
	for i := range buf {
		buf[i] = new(big.Int)
	}
	buf[0], buf[1] = ixy[0], ixy[1]
	api := s.begin()
	s.note(api.vsCall(func(a frontend.API) error { return vsb_GetChallengesShPlonkCircuit(a, buf, vars(proof)) }))
	s.end()
	names := []string{"theta", "beta", "gamma", "y", "x", "opening y", "v", "u"}
	switch {
	case s.out.V == vAccept && werr != nil:
		s.bad("accept-bad", "challenges computed for a malformed transcript (%v)", werr)
	case s.out.V == vAccept:
		for i, w := range want.list() {
			g := modR(val(buf[2+i]))
			if g == nil || g.Cmp(bi(w)) != 0 {
				s.bad("wrong-output", "challenge %s is %v, the transcript gives %v", names[i], g, bi(w))
				break
			}
			s.mixBig(g)
		}
		x, y := val(buf[0]), val(buf[1])
		if x == nil || y == nil || x.Cmp(ixy[0]) != 0 || y.Cmp(ixy[1]) != 0 {
			s.bad("wrong-output", "instance commitment changed while deriving challenges")
		}
	case s.out.V == vReject && werr == nil && !s.failing && !s.lied:
		s.bad("reject-good", "challenges of a well-formed transcript refused: %s", s.out.Why)
	}
}

func kFr(s *sess) {
	n := int(s.P("n", 12))
	api := s.begin()
	var regs []frontend.Variable
	var refs []*big.Int
	var names []string
	var vals []*big.Int
	for i := 0; i < 5; i++ {
		vals = append(vals, s.r.special(vsR))
	}
	if s.r.n(3) == 0 {
		vals[1] = new(big.Int).Set(vals[0])
	}
	if m, r2 := s.mut(0); m > 0 {
		vals[r2.n(len(vals))] = r2.special(vsR)
	}
	for i, b := range s.words("regs", vals) {
		regs, refs, names = append(regs, b), append(refs, vals[i]), append(names, "input")
	}
	M := func(x *big.Int) *big.Int { return x.Mod(x, vsR) }
	expectReject := ""
	ran := false
	o := vsProtect(func() error {
		for i := 0; i < n; i++ {
			a, b := s.r.n(len(regs)), s.r.n(len(regs))
			op := s.r.n(9)
			if s.P("op", -1) >= 0 {
				op = int(s.P("op", 0))
			}
			c := s.r.special(vsR)
			wrong := s.r.n(100) < int(s.P("wrong", 0))
			e := 1 + s.r.n(300)
			if s.r.n(3) == 0 {
				e = 1 << s.r.n(11)
			}
			if x := s.P("exp", 0); x > 0 {
				e = int(x)
			}
			var v frontend.Variable
			var w *big.Int
			nm := ""
			switch {
			case op == 0 && vsb_fr_add != nil:
				nm, v, w = "addition", vsb_fr_add(api, regs[a], regs[b]), M(new(big.Int).Add(refs[a], refs[b]))
			case op == 1 && vsb_fr_sub != nil:
				nm, v, w = "subtraction", vsb_fr_sub(api, regs[a], regs[b]), M(new(big.Int).Sub(refs[a], refs[b]))
			case (op == 2 || op == 3) && vsb_fr_mul != nil:
				nm, v, w = "multiplication", vsb_fr_mul(api, regs[a], regs[b]), M(new(big.Int).Mul(refs[a], refs[b]))
			case op == 4 && vsb_fr_neg != nil:
				nm, v, w = "negation", vsb_fr_neg(api, regs[a]), M(new(big.Int).Neg(refs[a]))
			case op == 5 && vsb_fr_pow != nil:
				nm = "powering"
				v = vsb_fr_pow(api, regs[a], big.NewInt(int64(e)))
				w = new(big.Int).Exp(refs[a], big.NewInt(int64(e)), vsR)
			case op == 6 && vsb_mod != nil:
				nm, v, w = "reduction", vsb_mod(api, regs[a]), M(new(big.Int).Set(refs[a]))
			case op == 7 && vsb_fr_mul_neg != nil:
				nm, v, w = "negated multiplication", vsb_fr_mul_neg(api, regs[a], regs[b]), M(new(big.Int).Neg(new(big.Int).Mul(refs[a], refs[b])))
			case op == 8 && vsb_fr_div != nil:
				nm = "division"
				aux := new(big.Int)
				if refs[b].Sign() == 0 {
					aux.Set(c)
					if refs[a].Sign() != 0 {
						expectReject = "division by zero with a made-up quotient"
					}
				} else {
					aux.ModInverse(refs[b], vsR)
					M(aux.Mul(aux, refs[a]))
					if wrong {
						w0 := new(big.Int).Set(aux)
						switch s.r.n(4) {
						case 0:
							aux.Add(aux, big.NewInt(1))
						case 1:
							aux.Set(c)
						case 2:
							aux.Neg(aux)
						case 3:
							aux.SetUint64(0)
						}
						M(aux)
						if aux.Cmp(w0) != 0 {
							expectReject = "division with a wrong quotient"
							s.fire("msg.quotient")
						}
					}
				}
				av := s.words(fmt.Sprintf("aux%d", i), []*big.Int{aux})[0]
				v, w = vsb_fr_div(api, regs[a], regs[b], av), new(big.Int).Set(aux)
			}
			if nm == "" {
				continue
			}
			ran = true
			if s.failing {
				if _, isErr := v.(error); isErr || val(v) != nil {
					s.bad("fail-open", "%s reported success although %v was injected into it", nm, s.fired)
				}
			}
			regs, refs, names = append(regs, v), append(refs, w), append(names, nm)
		}
		return api.runDeferred()
	})
	if !ran && o.V == vAccept {
		return
	}
	s.note(o)
	s.end()
	switch {
	case o.V == vAccept && expectReject != "":
		s.bad("accept-bad", "%s accepted", expectReject)
	case o.V == vAccept:
		for i := range regs {
			g := modR(val(regs[i]))
			if g == nil || g.Cmp(refs[i]) != 0 {
				s.bad("wrong-output", "%s gave %v, exact value is %v", names[i], g, refs[i])
				break
			}
			s.mixBig(g)
		}
	case o.V == vReject && expectReject == "" && !s.lied && !s.failing:
		s.bad("reject-good", "honest field operations rejected: %s", o.Why)
	}
}

func u8s(b []byte) []uints.U8 {
	r := make([]uints.U8, len(b))
	for i := range b {
		r[i] = uints.U8{Val: new(big.Int).SetUint64(uint64(b[i]))}
	}
	return r
}

var vsHashLens = []int{0, 1, 31, 32, 33, 54, 55, 56, 57, 63, 64, 65, 118, 119, 120, 127, 128, 129, 134, 135, 136, 137, 160, 191, 192, 255, 256, 271, 272, 273, 300}

func genHashCase(s *sess) (alg int64, msg, dig []byte, good bool) {
	alg = s.P("alg", int64(s.r.n(2)))
	l := s.r.n(140)
	if s.r.n(2) == 0 {
		l = pick(s.r, vsHashLens)
	}
	if x := s.P("len", -1); x >= 0 {
		l = int(x)
	}
	msg = s.r.bytes(l)
	if s.r.n(6) == 0 {
		for i := range msg {
			msg[i] = byte(pick(s.r, []int{0, 0x80, 0xff}))
		}
	}
	hash := func(b []byte) []byte {
		if alg == 0 {
			return crypto.Keccak256(b)
		}
		h := sha256.Sum256(b)
		return h[:]
	}
	truth := hash(msg)
	dig = append([]byte{}, truth...)
	for _, f := range s.p.F {
		switch f.K {
		case "dig.byte":
			dig[uint64(f.A)%32] ^= 1 << (uint64(f.B) % 8)
		case "dig.swap":
			i := uint64(f.A) % 31
			dig[i], dig[i+1] = dig[i+1], dig[i]
		case "dig.other":
			dig = hash(append(append([]byte{}, msg...), byte(f.A)))
		case "dig.short":
			dig = dig[:31-uint64(f.A)%8]
		case "dig.msg":
			if len(msg) == 0 {
				continue
			}
			msg[uint64(f.A)%uint64(len(msg))] ^= 1 << (uint64(f.B) % 8)
		case "dig.alg":
			if alg == 0 {
				h := sha256.Sum256(msg)
				dig = h[:]
			} else {
				dig = crypto.Keccak256(msg)
			}
		case "dig.rev":
			for i := 0; i < 16; i++ {
				dig[i], dig[31-i] = dig[31-i], dig[i]
			}
		default:
			continue
		}
		s.fire(f.K)
	}
	good = string(dig) == string(hash(msg))
	return
}

func kHash(s *sess) {
	alg, msg, dig, good := genHashCase(s)
	mk := vsc_Keccak
	name := "Keccak-256"
	if alg == 1 {
		mk, name = vsc_Sha, "SHA-256"
	}
	if mk == nil {
		return
	}
	// the same objects may be presented again
	mb, db := make([]*big.Int, len(msg)), make([]*big.Int, len(dig))
	for i := range msg {
		mb[i] = new(big.Int).SetUint64(uint64(msg[i]))
	}
	for i := range dig {
		db[i] = new(big.Int).SetUint64(uint64(dig[i]))
	}
	mo, do := s.words("msg", mb), s.words("dig", db)
	in, hv := make([]uints.U8, len(mo)), make([]uints.U8, len(do))
	for i := range mo {
		in[i].Val = mo[i]
	}
	for i := range do {
		hv[i].Val = do[i]
	}
	api := s.begin()
	s.note(api.vsSolve(mk(in, hv)))
	s.end()
	if s.out.V == vAccept && !good {
		s.bad("accept-bad", "%s circuit accepted a wrong digest of a %d-byte message", name, len(msg))
	}
	if s.out.V == vReject && good && !s.failing && !s.lied {
		s.bad("reject-good", "%s circuit rejected the true digest of a %d-byte message: %s", name, len(msg), s.out.Why)
	}
}

func kCurve(s *sess) {
	op := s.P("op", int64(s.r.n(3)))
	p := genPoint(s.r, s.P("pt", int64(s.r.n(8))))
	x, y := bi(p.X), bi(p.Y)
	if how := s.P("off", int64(s.r.n(12))); how < 8 {
		x, y = offCurve(s.r, int(how), x, y)
		s.fire("msg.offc")
	}
	_, good := refPoint(x, y)
	w := vars(s.words("pt", []*big.Int{x, y}))
	as := ""
	switch s.P("rep", int64(s.r.n(8))) {
	case 6:
		w = []frontend.Variable{x.String(), y.String()}
		as = " decimal strings"
	case 7:
		if s.run.plan.Prop == "C08" && x.Cmp(vsR) < 0 && y.Cmp(vsR) < 0 {
			w = []frontend.Variable{frOf(x), frOf(y)}
			as = " fr.Element values"
		}
	}
	api := s.begin()
	switch {
	case op == 0 && vsc_OnCurve != nil:
		s.note(api.vsSolve(vsc_OnCurve(w[0], w[1])))
	case op == 1 && vsc_OnCurveVar != nil:
		s.note(api.vsSolve(vsc_OnCurveVar(w[0], w[1])))
	case op == 2 && vsb_VerifyCheckOnCurve != nil:
		s.note(api.vsCall(func(a frontend.API) error { return vsb_VerifyCheckOnCurve(a, w[0], w[1]) }))
	default:
		s.api = nil
		return
	}
	s.end()
	if s.out.V == vAccept && !good {
		s.bad("accept-bad", "on-curve check %d accepted%s (%v,%v), which is not on the curve", op, as, x, y)
	}
	if s.out.V == vReject && good && !s.failing && as == "" {
		s.bad("reject-good", "on-curve check rejected the curve point (%v,%v): %s", x, y, s.out.Why)
	}
}

func emuVal(e *emulated.Element[emulated.BN254Fp]) *big.Int {
	r := new(big.Int)
	for i := len(e.Limbs) - 1; i >= 0; i-- {
		v := val(e.Limbs[i])
		if v == nil {
			return nil
		}
		r.Lsh(r, 64)
		r.Add(r, v)
	}
	return r
}

func genG2(k *big.Int) (p bn254.G2Affine) {
	p.ScalarMultiplication(&refG2Gen, k)
	return
}

func kPair(s *sess) {
	if vsc_Pairing == nil {
		return
	}
	rk := func() *big.Int {
		k := s.r.big(vsR)
		if s.r.n(4) == 0 {
			k = big.NewInt(int64(1 + s.r.n(9)))
		}
		if k.Sign() == 0 {
			k.SetUint64(5)
		}
		return k
	}
	a, b, c := rk(), rk(), rk()
	// e(aG, bH) e(cG, dH) = 1 iff ab + cd = 0
	d := new(big.Int).ModInverse(c, vsR)
	d.Mul(d, a).Mul(d, b).Neg(d).Mod(d, vsR)
	g1 := [2]bn254.G1Affine{refMulG(a), refMulG(c)}
	g2 := [2]bn254.G2Affine{genG2(b), genG2(d)}
	inf := false
	switch s.P("rel", int64(s.r.n(12))) {
	case 9: // points at infinity
		g1[0] = bn254.G1Affine{}
		if s.r.n(3) == 0 {
			g1[1] = bn254.G1Affine{}
		}
		inf = true
	case 10:
		g1[1] = bn254.G1Affine{}
		inf = true
	case 11:
		j := s.r.n(2)
		g2[j] = bn254.G2Affine{}
		if s.r.n(2) == 0 {
			g1[1-j] = bn254.G1Affine{}
		}
		inf = true
	case 0, 1:
	case 2:
		g1[0] = refAddPts(g1[0], refMulG(big.NewInt(1)))
	case 3:
		g1[1].Neg(&g1[1])
	case 4:
		g2[0].Neg(&g2[0])
	case 5:
		g1[0], g1[1] = g1[1], g1[0]
	case 6:
		g1[0].Neg(&g1[0])
		g2[0].Neg(&g2[0])
	case 7:
		g2[1] = genG2(rk())
	case 8: // the verifier's own G2 points
		g2 = [2]bn254.G2Affine{refG2Tau, refG2Gen}
		g2[1].Neg(&g2[1])
	}
	for i := range g1 {
		if !inf && (g1[i].IsInfinity() || g2[i].IsInfinity()) {
			return
		}
	}
	good, err := bn254.PairingCheck(g1[:], g2[:])
	if err != nil {
		return
	}
	var v1 [2]*sw_bn254.G1Affine
	var v2 [2]*sw_bn254.G2Affine
	for i := range g1 {
		x, y := sw_bn254.NewG1Affine(g1[i]), sw_bn254.NewG2Affine(g2[i])
		v1[i], v2[i] = &x, &y
	}
	api := s.begin()
	s.note(api.vsSolve(vsc_Pairing(v1, v2)))
	s.end()
	if s.out.V == vAccept && !good {
		s.bad("accept-bad", "pairing circuit accepted points whose pairing product is not one")
	}
	if s.out.V == vReject && good && !inf && !s.failing {
		s.bad("reject-good", "pairing circuit rejected points whose pairing product is one: %s", s.out.Why)
	}
}

func kLoad(s *sess) {
	if vsc_FillG1 == nil || vsc_FillG2 == nil {
		return
	}
	p, q := genPoint(s.r, int64(s.r.n(8))), genPoint(s.r, int64(s.r.n(8)))
	w := []*big.Int{bi(p.X), bi(p.Y), bi(q.X), bi(q.Y)}
	if how := s.P("off", int64(s.r.n(16))); how < 8 {
		j := 2 * s.r.n(2)
		w[j], w[j+1] = offCurve(s.r, int(how), w[j], w[j+1])
		s.fire("msg.offc")
	}
	_, g0 := refPoint(w[0], w[1])
	_, g1 := refPoint(w[2], w[3])
	in := s.words("pts", w)
	var r1 [2]*sw_bn254.G1Affine
	var r2 [2]*sw_bn254.G2Affine
	s.note(vsProtect(func() error {
		if s.r.n(2) == 0 {
			r2 = vsc_FillG2()
		}
		r1 = vsc_FillG1(in[0], in[1], in[2], in[3])
		if r2[0] == nil {
			r2 = vsc_FillG2()
		}
		return nil
	}))
	if s.out.V == vAccept {
		if !g0 || !g1 {
			s.bad("accept-bad", "loading accepted a G1 point off the curve")
			return
		}
		for i := range r1 {
			x, y := emuVal(&r1[i].X), emuVal(&r1[i].Y)
			if x == nil || y == nil || x.Cmp(w[2*i]) != 0 || y.Cmp(w[2*i+1]) != 0 {
				s.bad("wrong-output", "loading changed G1 point %d", i)
			}
			s.mixBig(x, y)
		}
		want := [2]bn254.G2Affine{refG2Tau, refG2Gen}
		want[1].Neg(&want[1])
		if s.run.plan.Sim {
			return
		}
		for i := range r2 {
			got := []*big.Int{emuVal(&r2[i].P.X.A0), emuVal(&r2[i].P.X.A1), emuVal(&r2[i].P.Y.A0), emuVal(&r2[i].P.Y.A1)}
			exp := []*big.Int{bi(want[i].X.A0), bi(want[i].X.A1), bi(want[i].Y.A0), bi(want[i].Y.A1)}
			for j := range got {
				if got[j] == nil || got[j].Cmp(exp[j]) != 0 {
					s.bad("wrong-output", "G2 point %d of the verifying key is not the fixed one", i)
					break
				}
			}
			s.mixBig(got...)
		}
		// what the caller does with the returned points must not leak into
		// the next session
		for i := range r2 {
			for j := range r2[i].P.X.A0.Limbs {
				if b, ok := r2[i].P.X.A0.Limbs[j].(*big.Int); ok && b != nil {
					b.SetUint64(0)
				}
				r2[i].P.X.A0.Limbs[j] = big.NewInt(0)
			}
		}
	} else if s.out.V == vReject && g0 && g1 {
		s.bad("reject-good", "loading refused points of the curve: %s", s.out.Why)
	}
}

// ---------------------------------------------------------------- KYC

var (
	vsSecpN   = refBig("115792089237316195423570985008687907852837564279074904382605163141518161494337")
	vsIssuer  = refSecp("85997066971194522473057012223499312995837068047270353161199320975157154592866", "40070151623224504185408656535330873345235311800089295101492157067180406840001")
	vsKycReal = [3]*big.Int{
		refBig("45536044045135930417610581277973574046122438970391757925449844580498097416238"),
		refBig("77405625560525123464152303145240770328705524946250305291099118722847750339975"),
		refBig("65836751601596300032969389553597263219621359970931417026813124302429596772205"),
	}
)

func refSecp(x, y string) (p secp256k1.G1Affine) {
	p.X.SetBigInt(refBig(x))
	p.Y.SetBigInt(refBig(y))
	return
}

func secpLin(u1, u2 *big.Int) (r secp256k1.G1Affine) {
	_, g := secp256k1.Generators()
	var a, b secp256k1.G1Affine
	a.ScalarMultiplication(&g, u1)
	b.ScalarMultiplication(&vsIssuer, u2)
	var j, k secp256k1.G1Jac
	j.FromAffine(&a)
	k.FromAffine(&b)
	j.AddAssign(&k)
	r.FromJacobian(&j)
	return
}

func refECDSA(r, s, h *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(vsSecpN) >= 0 || s.Cmp(vsSecpN) >= 0 {
		return false
	}
	w := new(big.Int).ModInverse(s, vsSecpN)
	u1, u2 := new(big.Int).Mul(h, w), new(big.Int).Mul(r, w)
	R := secpLin(u1.Mod(u1, vsSecpN), u2.Mod(u2, vsSecpN))
	if R.IsInfinity() {
		return false
	}
	x := bi(R.X)
	return x.Mod(x, vsSecpN).Cmp(r) == 0
}

// genSig makes a signature that verifies under the issuer key for a hash
// nobody chose (possible without the private key).
func genSig(rg *rng) (r, s, h *big.Int) {
	for {
		u1, u2 := rg.big(vsSecpN), rg.big(vsSecpN)
		if u1.Sign() == 0 || u2.Sign() == 0 {
			continue
		}
		R := secpLin(u1, u2)
		r = bi(R.X)
		r.Mod(r, vsSecpN)
		if r.Sign() == 0 {
			continue
		}
		s = new(big.Int).ModInverse(u2, vsSecpN)
		s.Mul(s, r).Mod(s, vsSecpN)
		h = new(big.Int).Mul(u1, s)
		h.Mod(h, vsSecpN)
		return
	}
}

type kycCase struct {
	r, s, h       *big.Int
	age, country  *big.Int
	lo, hi        *big.Int
	list          []*big.Int
	level, time   *big.Int
	nLevel, nTime int
	good, sigGood bool
	why           string
}

func genKyc(s *sess) *kycCase {
	g := s.r
	c := &kycCase{nLevel: 1, nTime: 1}
	if g.n(3) == 0 {
		c.r, c.s, c.h = new(big.Int).Set(vsKycReal[0]), new(big.Int).Set(vsKycReal[1]), new(big.Int).Set(vsKycReal[2])
	} else {
		c.r, c.s, c.h = genSig(g)
	}
	lo := int64(g.n(60))
	hi := lo + int64(g.n(60))
	age := lo + int64(g.n(int(hi-lo)+1))
	if g.n(3) == 0 {
		age = pick(g, []int64{lo, hi})
	}
	c.lo, c.hi, c.age = big.NewInt(lo), big.NewInt(hi), big.NewInt(age)
	if g.n(8) == 0 { // near the top of the field
		c.hi = new(big.Int).Sub(vsR, big.NewInt(1))
		c.age = new(big.Int).Sub(vsR, big.NewInt(int64(1+g.n(3))))
	}
	nl := 1 + g.n(6)
	if g.n(6) == 0 {
		nl = 1 + g.n(70)
	}
	if g.n(3) == 0 {
		c.nLevel, c.nTime = g.n(4), g.n(4)
	}
	for i := 0; i < nl; i++ {
		c.list = append(c.list, big.NewInt(int64(1+g.n(900))))
	}
	if g.n(4) == 0 {
		c.list = append(c.list, new(big.Int).Set(c.list[0]))
	}
	c.country = new(big.Int).Set(pick(g, c.list))
	if g.n(6) == 0 {
		i := g.n(len(c.list))
		c.list[i] = g.special(vsR)
		c.country = new(big.Int).Set(c.list[i])
	}
	c.level, c.time = big.NewInt(int64(g.n(5))), big.NewInt(int64(g.n(100000)))
	for i := range s.p.F {
		f := &s.p.F[i]
		switch f.K {
		case "kyc.r":
			c.r.SetBit(c.r, int(uint64(f.A)%250), c.r.Bit(int(uint64(f.A)%250))^1)
		case "kyc.s":
			c.s.SetBit(c.s, int(uint64(f.A)%250), c.s.Bit(int(uint64(f.A)%250))^1)
		case "kyc.h":
			c.h.SetBit(c.h, int(uint64(f.A)%250), c.h.Bit(int(uint64(f.A)%250))^1)
		case "kyc.swaprs":
			c.r, c.s = c.s, c.r
		case "kyc.mall": // a second valid signature of the same hash
			c.s.Sub(vsSecpN, c.s)
		case "kyc.negr":
			c.r.Sub(vsSecpN, c.r)
		case "kyc.zero":
			pick(g, []*big.Int{c.r, c.s}).SetUint64(0)
		case "kyc.replay": // signature of another credential
			c.r, c.s, _ = genSig(g)
		case "kyc.young":
			c.age = new(big.Int).Sub(c.lo, big.NewInt(1+f.A%3))
			c.age.Mod(c.age, vsR)
		case "kyc.old":
			c.age = new(big.Int).Add(c.hi, big.NewInt(1+f.A%3))
			c.age.Mod(c.age, vsR)
		case "kyc.farage":
			c.age = g.special(vsR)
			if g.n(2) == 0 { // a fitting age in some of its digits only
				c.age = new(big.Int).Lsh(big.NewInt(int64(1+g.n(3))), uint(g.n(254)))
				if g.n(3) == 0 {
					c.age.SetUint64(1).Lsh(c.age, uint(240+g.n(14)))
				}
				c.age.Add(c.age, c.lo).Mod(c.age, vsR)
			}
		case "kyc.range":
			c.lo, c.hi = c.hi, c.lo
		case "kyc.country":
			c.country = countryLie(c.country, c.list, uint64(f.A))
		case "kyc.zeroctry":
			c.country = new(big.Int)
		case "kyc.nolist":
			c.list = nil
		case "kyc.spec": // signature or hash words out of the ordinary
			x := pick(g, []*big.Int{c.r, c.s, c.h})
			x.Set(g.special(vsSecpN))
		case "kyc.same":
			k := g.n(3)
			w := []*big.Int{c.r, c.s, c.h}
			w[k].Set(w[(k+1+g.n(2))%3])
		case "kyc.limb": // a limb lost, repeated or off by one
			x := pick(g, []*big.Int{c.r, c.s, c.h})
			sh := uint(64 * g.n(4))
			l := new(big.Int).Rsh(x, sh)
			l.And(l, new(big.Int).SetUint64(^uint64(0))).Lsh(l, sh)
			switch g.n(3) {
			case 0:
				x.Sub(x, l)
			case 1:
				x.Set(l)
			default:
				x.Add(x, new(big.Int).Lsh(big.NewInt(1), sh)).Mod(x, vsSecpN)
			}
		case "kyc.attr":
			c.level, c.time = g.special(vsR), g.special(vsR)
		default:
			continue
		}
		s.fire(f.K)
	}
	c.sigGood = refECDSA(c.r, c.s, c.h)
	c.good = c.sigGood
	if !c.good {
		c.why = "the signature does not verify"
	}
	if c.age.Cmp(c.lo) < 0 || c.age.Cmp(c.hi) > 0 {
		c.good, c.why = false, "the age is outside the range"
	}
	in := false
	for _, x := range c.list {
		in = in || x.Cmp(c.country) == 0
	}
	if !in {
		c.good, c.why = false, "the country is not in the list"
	}
	return c
}

// countryLie is a country that is related to a listed one.
func countryLie(x *big.Int, list []*big.Int, a uint64) *big.Int {
	y := list[int(a>>32%uint64(len(list)))]
	z := new(big.Int)
	sh := uint(a >> 8 % 254)
	if a>>40%2 == 0 { // word sizes
		sh = 8 << (a >> 41 % 5)
	}
	switch a % 10 {
	case 0, 1:
		z.Add(x, big.NewInt(int64(1+a>>8%7)))
	case 2:
		z.Sub(x, big.NewInt(int64(1+a>>8%7)))
	case 3: // one bit away, at any place
		z.Xor(x, new(big.Int).Lsh(big.NewInt(1), sh))
	case 4, 9: // same low bytes
		z.Add(x, new(big.Int).Lsh(big.NewInt(1+2*int64(a>>16%2)), sh))
	case 5:
		z.Neg(x)
	case 6: // made of two listed ones
		z.Add(x, y)
	case 7:
		z.Mul(x, y)
	case 8: // a power-of-two multiple, or a fraction
		z.ModInverse(new(big.Int).Lsh(big.NewInt(1), sh), vsR)
		z.Mul(z, x)
	}
	return z.Mod(z, vsR)
}

func kycCircuits(c *kycCase) (placeholder, witness frontend.Circuit) {
	type E = emulated.Element[emulated.Secp256k1Fr]
	nilv := func(n int) []frontend.Variable { return make([]frontend.Variable, n) }
	placeholder = vsc_Kyc(E{}, E{}, E{}, [4]frontend.Variable{}, [2]frontend.Variable{}, nilv(len(c.list)), nilv(c.nLevel), nilv(c.nTime))
	rep := func(x *big.Int, n int) (l []frontend.Variable) {
		for ; n > 0; n-- {
			l = append(l, x)
		}
		return
	}
	ev := func(b *big.Int) E { return emulated.ValueOf[emulated.Secp256k1Fr](b) }
	witness = vsc_Kyc(ev(c.r), ev(c.s), ev(c.h), [4]frontend.Variable{c.age, c.country, c.level, c.time},
		[2]frontend.Variable{c.lo, c.hi}, vars(c.list), rep(c.level, c.nLevel), rep(c.time, c.nTime))
	return
}

func kKyc(s *sess) {
	if vsc_Kyc == nil {
		return
	}
	c := genKyc(s)
	all := s.words("kyc", append([]*big.Int{c.age, c.country, c.lo, c.hi, c.level, c.time}, c.list...))
	c.age, c.country, c.lo, c.hi, c.level, c.time = all[0], all[1], all[2], all[3], all[4], all[5]
	c.list = all[6:]
	ph, w := kycCircuits(c)
	api := s.begin()
	s.note(api.vsSolveW(ph, w))
	s.end()
	if s.out.V == vAccept && !c.good {
		s.bad("accept-bad", "KYC circuit accepted although %s (age %v in [%v,%v], country %v in %v)", c.why, c.age, c.lo, c.hi, c.country, c.list)
	}
	if s.out.V == vReject && c.good && !s.failing && !s.lied {
		s.bad("reject-good", "KYC circuit rejected a valid credential: %s", s.out.Why)
	}
}

// ---------------------------------------------------------------- range checks

func genRange(g *rng) (x, lo, hi *big.Int) {
	near := func(b *big.Int) *big.Int {
		r := new(big.Int).Add(b, big.NewInt(int64(g.n(5)-2)))
		return r.Mod(r, vsR)
	}
	lo, hi = g.special(vsR), g.special(vsR)
	if g.n(4) != 0 && lo.Cmp(hi) > 0 {
		lo, hi = hi, lo
	}
	if g.n(6) == 0 {
		hi = new(big.Int).Set(lo)
	}
	switch g.n(5) {
	case 0:
		x = near(lo)
	case 1:
		x = near(hi)
	case 2:
		x = g.special(vsR)
	case 3:
		x = g.big(vsR)
	default:
		x = new(big.Int).Add(lo, hi)
		x.Rsh(x, 1)
	}
	return
}

func kRange(s *sess) {
	x, lo, hi := genRange(s.r)
	op := s.P("op", int64(s.r.n(4)))
	if s.r.n(3) == 0 && op == 3 {
		x = new(big.Int)
	}
	if m, r2 := s.mut(0); m > 0 {
		switch m % 4 {
		case 0:
			lo, hi = hi, lo
		case 1:
			x = new(big.Int).Add(x, big.NewInt(1))
			x.Mod(x, vsR)
		case 2:
			x = r2.special(vsR)
		default:
			hi = new(big.Int).Set(lo)
		}
	}
	w := s.words("range", []*big.Int{x, lo, hi})
	api := s.begin()
	if op < 3 {
		if vsb_VerifyRangeCheck == nil {
			return
		}
		s.note(api.vsCall(func(a frontend.API) error { return vsb_VerifyRangeCheck(a, w[0], w[1], w[2]) }))
		s.end()
		good := lo.Cmp(x) <= 0 && x.Cmp(hi) <= 0
		if s.out.V == vAccept && !good {
			s.bad("accept-bad", "range check accepted %v outside [%v,%v]", x, lo, hi)
		}
		if s.out.V == vReject && good && !s.failing {
			s.bad("reject-good", "range check rejected %v inside [%v,%v]: %s", x, lo, hi, s.out.Why)
		}
		return
	}
	if vsb_VerifyNotZero == nil {
		return
	}
	s.note(api.vsCall(func(a frontend.API) error { return vsb_VerifyNotZero(a, w[0]) }))
	s.end()
	if s.out.V == vAccept && x.Sign() == 0 {
		s.bad("accept-bad", "non-zero check accepted zero")
	}
	if s.out.V == vReject && x.Sign() != 0 && !s.failing {
		s.bad("reject-good", "non-zero check rejected %v: %s", x, s.out.Why)
	}
}

// ---------------------------------------------------------------- single circuits

func emuPt(p bn254.G1Affine) sw_emulated.AffinePoint[emulated.BN254Fp] {
	return sw_emulated.AffinePoint[emulated.BN254Fp]{X: emulated.ValueOf[emulated.BN254Fp](p.X), Y: emulated.ValueOf[emulated.BN254Fp](p.Y)}
}

// tamperPt makes a wrong claim out of a right one.
func tamperPt(g *rng, p, q bn254.G1Affine) bn254.G1Affine {
	switch g.n(6) {
	case 0:
		p.Neg(&p)
	case 1:
		p = refAddPts(p, p)
	case 2:
		p = refMulG(g.big(vsR))
	case 3:
		p.X.SetBigInt(new(big.Int).Mod(new(big.Int).Mul(bi(p.X), vsBeta), vsFp))
	case 4:
		p = q
	default:
		p.Y.SetBigInt(new(big.Int).Add(bi(p.Y), big.NewInt(1)))
	}
	return p
}

func kMsm(s *sess) {
	g := s.r
	op := s.P("op", int64(g.n(6)))
	p, q := genPoint(g, int64(g.n(8))), genPoint(g, int64(g.n(8)))
	k := g.special(vsR)
	if k.Sign() == 0 {
		k.SetUint64(1)
	}
	if d := s.P("grid", 0) - 1; d >= 0 {
		k = new(big.Int).Mul(vsLambda, big.NewInt(d/33-16))
		k.Add(k, big.NewInt(d%33-16))
		k.Mod(k, vsR)
	}
	rel := g.n(10)
	if rel == 0 {
		q = p
	} else if rel == 1 {
		q.Neg(&p)
	}
	tamper := s.P("wrong", int64(g.n(2))) == 1
	if tamper {
		s.fire("msg.claim")
	}
	times := int(s.P("times", 1))
	var run func(api *simAPI) vsOutcome
	var truth, claim bn254.G1Affine
	name := ""
	soundOnly, edge, mism := false, "", false
	odd := func(in []frontend.Variable) { // an operand that is no number at all
		if s.P("odd", b2i(g.n(9) == 0)) == 0 {
			return
		}
		s.fire("msg.unreadable")
		mism = true
		for k := 1 + g.n(2); k > 0; k-- {
			in[g.n(len(in))] = pick(g, []frontend.Variable{nil, (*big.Int)(nil), "zz", "", 1.5, struct{}{}, []string{"1"}, []*big.Int{}})
		}
	}
	switch {
	case op <= 1 && vsc_Msm != nil:
		n := 1 + g.n(int(s.P("maxn", 3)))
		if m := int(s.P("minn", 0)); n < m {
			n = m
		}
		name = fmt.Sprintf("%d-term multi-scalar multiplication", n)
		var ps []bn254.G1Affine
		var ks []fr.Element
		part := bn254.G1Affine{}
		for i := 0; i < n; i++ {
			x := genPoint(g, int64(g.n(8)))
			if i > 0 && (g.n(3) == 0 || s.P("dup", 0) == 1) {
				x = ps[g.n(i)]
			}
			kk := g.special(vsR)
			if kk.Sign() == 0 {
				kk.SetUint64(3)
			}
			if i > 0 && g.n(6) == 0 {
				kk = bi(ks[g.n(i)])
			}
			if vsDegenerate[kk.String()] {
				edge = fmt.Sprintf(" with scalar k=%s ", kk)
			}
			ps, ks = append(ps, x), append(ks, frOf(kk))
			t := refMulPtB(x, kk)
			part = refAddPts(part, t)
			if part.IsInfinity() {
				soundOnly = true
			}
		}
		for i := 0; i+1 < n; i += 2 {
			if sameOrbit(ps[i], ps[i+1]) {
				edge = " of points equal or opposite up to the endomorphism"
			}
		}
		truth = part
		claim = truth
		if tamper {
			claim = tamperPt(g, truth, q)
		}
		if mism = n > 1 && s.P("odd", b2i(g.n(9) == 0)) == 1; mism { // a scalar or a point short
			s.fire("msg.trunc")
			name += " with a different number of points and scalars"
			if g.n(2) == 0 {
				claim = bn254.G1Affine{}
				for i := 0; i < n-1; i++ {
					claim = refAddPts(claim, refMulPtB(ps[i], bi(ks[i])))
				}
			}
		}
		short := g.n(2)
		keep := g.n(2) == 0 // the circuit object itself is presented again
		var kept frontend.Circuit
		run = func(api *simAPI) vsOutcome {
			if keep && kept != nil {
				return api.vsSolve(kept)
			}
			var cp []sw_emulated.AffinePoint[emulated.BN254Fp]
			var ck []emulated.Element[emulated.BN254Fr]
			for i := range ps {
				cp = append(cp, emuPt(ps[i]))
				ck = append(ck, emulated.ValueOf[emulated.BN254Fr](ks[i]))
			}
			np, nk := n, n
			if mism && short == 0 {
				np--
			} else if mism {
				nk--
			}
			w := vsc_Msm(cp[:np], ck[:nk], emuPt(claim))
			ph := vsc_Msm(make([]sw_emulated.AffinePoint[emulated.BN254Fp], np), make([]emulated.Element[emulated.BN254Fr], nk), sw_emulated.AffinePoint[emulated.BN254Fp]{})
			kept = ph
			return api.vsSolveW(ph, w)
		}
	case op == 2 && vsc_ScalarMul != nil:
		name = "scalar multiplication circuit"
		truth = refMulPtB(p, k)
		claim = truth
		if vsDegenerate[k.String()] {
			edge = fmt.Sprintf(" with scalar k=%s ", k)
		}
		if tamper {
			claim = tamperPt(g, truth, p)
		}
		in := s.words("in", []*big.Int{bi(p.X), bi(p.Y), k, bi(claim.X), bi(claim.Y)})
		v := vars(in)
		odd(v)
		run = func(api *simAPI) vsOutcome {
			return api.vsSolve(vsc_ScalarMul([2]frontend.Variable{v[0], v[1]}, v[2], [2]frontend.Variable{v[3], v[4]}))
		}
	case op == 3 && vsc_Add != nil:
		name = "point addition circuit"
		truth = refAddPts(p, q)
		claim = truth
		if tamper {
			claim = tamperPt(g, truth, q)
		}
		in := s.words("in", []*big.Int{bi(p.X), bi(p.Y), bi(q.X), bi(q.Y), bi(claim.X), bi(claim.Y)})
		v := vars(in)
		odd(v)
		run = func(api *simAPI) vsOutcome {
			return api.vsSolve(vsc_Add([2]frontend.Variable{v[0], v[1]}, [2]frontend.Variable{v[2], v[3]}, [2]frontend.Variable{v[4], v[5]}))
		}
	case op == 4 && vsc_MsmC != nil:
		name = "concrete scalar multiplication circuit"
		truth = refMulPtB(p, k)
		claim = truth
		if tamper {
			claim = tamperPt(g, truth, p)
		}
		pp, kk, cc := p, new(big.Int).Set(k), claim
		run = func(api *simAPI) vsOutcome {
			o := api.vsSolve(vsc_MsmC(&pp, kk, &cc))
			if !pp.Equal(&p) || kk.Cmp(k) != 0 || !cc.Equal(&claim) {
				s.bad("mutated", "%s changed the point, scalar or result it was given", name)
			}
			return o
		}
	case op == 5 && vsc_AddC != nil:
		name = "concrete point addition circuit"
		truth = refAddPts(p, q)
		claim = truth
		if tamper {
			claim = tamperPt(g, truth, q)
		}
		pp, qq, cc := p, q, claim
		if rel == 0 && g.n(2) == 0 {
			run = func(api *simAPI) vsOutcome {
				o := api.vsSolve(vsc_AddC(&pp, &pp, &cc))
				if !pp.Equal(&p) || !cc.Equal(&claim) {
					s.bad("mutated", "%s changed the points it was given", name)
				}
				return o
			}
		} else {
			run = func(api *simAPI) vsOutcome {
				o := api.vsSolve(vsc_AddC(&pp, &qq, &cc))
				if !pp.Equal(&p) || !qq.Equal(&q) || !cc.Equal(&claim) {
					s.bad("mutated", "%s changed the points it was given", name)
				}
				return o
			}
		}
	default:
		return
	}
	good := truth.Equal(&claim)
	if truth.IsInfinity() {
		soundOnly = true
		if !tamper {
			good = true
		}
	}
	good = good && !mism
	if !inR(p) || !inR(q) || !inR(claim) || edge != "" && s.run.plan.Prop != "C17" {
		soundOnly = true // edge: see the known findings of C17
	}
	for t := 0; t < times; t++ {
		api := s.begin()
		s.note(run(api))
		s.end()
		if s.out.V == vAccept && !good {
			s.bad("accept-bad", "%s accepted a wrong result (presentation %d)", name, t+1)
		}
		if s.out.V == vReject && good && !soundOnly && !s.failing && !s.lied {
			s.bad("reject-good", "%s%s rejected the true result (presentation %d): %s", name, edge, t+1, s.out.Why)
		}
	}
}
