package main

// Sessions of the whole aggregate verifier, with a real or a simulated prover
// at the other end, honest or adversarial.

import (
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/consensys/gnark/frontend"
)

func init() { vsKinds["agg"] = kAgg }

// genSimMsg draws a message with arbitrary commitments and evaluations.
func genSimMsg(r *rng) *aggMsg {
	m := &aggMsg{}
	m.Proof = make([]*big.Int, vsNProof)
	for i := range m.Proof {
		if r.n(12) == 0 {
			m.Proof[i] = r.special(vsR)
		} else {
			m.Proof[i] = r.big(vsR)
		}
	}
	for _, i := range refPointPositions() {
		var p bn254.G1Affine
		switch r.n(10) {
		case 0:
			p = genPoint(r, int64(r.n(8)))
		default:
			p = refMulG(r.big(vsR))
		}
		if p.IsInfinity() || !inR(p) {
			p = refMulG(big.NewInt(7))
		}
		m.Proof[i], m.Proof[i+1] = bi(p.X), bi(p.Y)
	}
	for i := 0; i < vsNAux; i++ {
		m.Aux = append(m.Aux, r.big(vsR))
	}
	for i := 0; i < vsNTarget; i++ {
		if r.n(3) == 0 {
			m.Target = append(m.Target, r.special(vsR))
		} else {
			m.Target = append(m.Target, new(big.Int).SetUint64(r.u64()))
		}
	}
	m.Inst = []*big.Int{r.big(vsR)}
	if r.n(3) == 0 {
		m.Inst[0] = r.special(vsR)
	}
	return m
}

// reshape changes the number of public targets and instance words.
func (s *sess) reshape(m *aggMsg) {
	r := newRng(vsMix(s.p.Seed, 35))
	if n := int(s.P("nt", 0)); n > 0 {
		for len(m.Target) < n {
			m.Target = append(m.Target, r.special(vsR))
		}
		m.Target = m.Target[:n]
	}
	if n := int(s.P("ni", 0)); n > 0 {
		for len(m.Inst) < n-1 {
			m.Inst = append(m.Inst, r.special(vsR))
		}
		m.Inst = m.Inst[:n-1]
	}
}

// genMsg produces the message the prover of this session sends: the shipped
// real one, or one of a simulated prover.
func (s *sess) genMsg() *aggMsg {
	if s.P("src", int64(s.r.n(2))) == 0 {
		return refRealMsg()
	}
	m := genSimMsg(newRng(vsMix(s.p.Seed, 31)))
	s.reshape(m)
	if s.run.plan.Sim && s.P("prove", 1) == 1 {
		for k := uint64(0); ; k++ {
			if refProve(m, &s.run.tau) == nil {
				break
			}
			if k > 5 {
				panic("simulated prover cannot complete its message")
			}
			m = genSimMsg(newRng(vsMix(s.p.Seed, 32+k)))
			s.reshape(m)
		}
	} else {
		refRepairAux(m)
	}
	return m
}

// tamper applies the plan's message faults to m.
func (s *sess) tamper(m *aggMsg) (n int) {
	for i := range s.p.F {
		f := &s.p.F[i]
		if len(f.K) <= 4 || f.K[:4] != "msg." {
			continue
		}
		r := newRng(vsMix(s.p.Seed, uint64(i)+500))
		var other *aggMsg
		if f.K == "msg.mix" {
			if f.C%2 == 0 && s.P("src", 1) != 0 {
				other = refRealMsg()
			} else {
				other = genSimMsg(newRng(vsMix(s.p.Seed, 77)))
			}
		}
		was := m.clone()
		if corrupt(m, f, r, other) && !was.equal(m) {
			s.fire(f.K)
			n++
		}
	}
	return
}

// wellShaped: the verifier takes any number of public targets and inner
// instance words that fits its work area.
func wellShaped(m *aggMsg) bool {
	return len(m.Proof) == vsNProof && len(m.Aux) == vsNAux && len(m.Target) >= 1 && len(m.Inst) <= 3 && len(m.Target)+len(m.Inst) <= 10
}

// shippedShape: as many targets and instance words as the shipped proof has;
// only such messages are owed acceptance.
func shippedShape(m *aggMsg) bool {
	return wellShaped(m) && len(m.Target) == vsNTarget && len(m.Inst) == 1
}

// srsSeamWorks says whether the setup seam reaches the code as it is today.
func srsSeamWorks() bool {
	if !vsSRSOn || vsc_FillG2 == nil {
		return false
	}
	n := vsSRSFired
	vsProtect(func() error { vsc_FillG2(); return nil })
	ok := vsSRSFired > n
	vsSRSFired = n
	return ok
}

func (s *sess) aggCircuit(m *aggMsg) frontend.Circuit {
	w := [][]*big.Int{s.words("proof", m.Proof), s.words("instance", m.Inst), s.words("hints", m.Aux), s.words("targets", m.Target)}
	return vsc_Agg(vars(w[0]), vars(w[1]), vars(w[2]), vars(w[3]))
}

func kAgg(s *sess) {
	if vsc_Agg == nil {
		s.undec = true
		return
	}
	m := s.genMsg()
	orig := m.clone()
	s.tamper(m)
	shaped := wellShaped(m)
	if shaped {
		switch s.P("fix", 0) {
		case 1: // the prover rebuilds the division hints to fit
			refRepairAux(m)
		case 2: // the prover, knowing the setup secret, rebuilds the opening too
			if s.run.plan.Sim {
				mm := m.clone()
				if refProve(mm, &s.run.tau) == nil {
					m = mm
				}
			}
		case 3: // hints computed by another honest-looking convention: as before the tampering
			m.Aux = vsClone(orig.Aux)
		}
	}
	g2 := s.run.g2()
	good, why := refAccept(m, g2)
	seam := !s.run.plan.Sim || srsSeamWorks()

	// what the adversary can feed back through the advice oracle
	s.subst = map[string]*big.Int{}
	a, b := orig.parts(), m.parts()
	for i := range a {
		for j := range a[i] {
			if j < len(b[i]) && a[i][j].Cmp(b[i][j]) != 0 {
				s.subst[b[i][j].String()] = a[i][j]
			}
		}
	}
	if s.run.plan.Sim && len(m.Proof) == vsNProof {
		if w, ok := refPoint(m.Proof[102], m.Proof[103]); ok {
			f := refMulPtB(w, bi(s.run.tau))
			s.force = [2]*big.Int{bi(f.X), bi(f.Y)}
		}
	}

	if s.P("adapt", 0) == 1 && s.run.plan.Sim && shaped && (!good || s.P("bld", 0) == 1) {
		if m2 := s.adapt(m); m2 != nil {
			m = m2
			good, why = refAccept(m, g2)
			s.fire("prover.adapt")
		}
	}

	if s.P("prefix", 0) == 1 { // abort before the deferred part
		s.recReqs = true
	}
	var offUsed string
	s.onReq = func(q *vsAdviceReq) {
		if offUsed != "" || s.lied || s.failing {
			return
		}
		for i := 0; i+1 < len(q.In) && (q.Name == "MsmHint" && i < 2 || q.Name == "AddHint"); i += 2 {
			if q.In[i].Sign() == 0 && q.In[i+1].Sign() == 0 {
				continue // how the library writes the point at infinity
			}
			if _, ok := refPoint(q.In[i], q.In[i+1]); !ok {
				offUsed = fmt.Sprintf("%s requested on (%v,%v), which is not on the curve", q.Name, q.In[i], q.In[i+1])
			}
		}
	}
	c := s.aggCircuit(m)
	api := s.begin()
	s.note(api.vsSolve(c))
	s.end()
	if offUsed != "" {
		s.bad("offcurve-used", "%s", offUsed)
	}
	if s.out.V == vAccept && !good {
		s.bad("accept-bad", "aggregate proof accepted although %s", why)
	}
	if s.out.V == vReject && good && shippedShape(m) && !s.lied && !s.failing {
		if !seam {
			s.undec = true
		} else {
			s.bad("reject-good", "valid aggregate proof rejected: %s", s.out.Why)
		}
	}
}

// adapt is the adaptive simulated prover: it runs the verifier once to see
// which right-hand side it arrives at for a tampered message, and computes the
// last proof point that satisfies the opening equation for that value. Only
// explicit checks upstream of the pairing can stop such a message.
func (s *sess) adapt(m *aggMsg) *aggMsg {
	ch, err := s.chalOf(m)
	if err != nil {
		return nil
	}
	var last []*big.Int
	api := newSimAPI()
	api.lite = s.P("lite", 0) != 0
	api.liteDefer = true // as the real gadgets defer
	s.api = api
	s.arm(api)
	inner := api.onHint
	api.onHint = func(api *simAPI, idx int, name string, f solver.Hint, in []*big.Int, n int) (res []*big.Int, err error) {
		if inner != nil {
			res, err = inner(api, idx, name, f, in, n)
		} else {
			res, err = vsCallHint(f, in, n)
		}
		if name == "AddHint" && err == nil && n == 2 {
			last = vsClone(res)
		}
		return
	}
	mm := m.clone()
	o := vsProtect(func() error {
		return vsc_Agg(vars(mm.Proof), vars(mm.Inst), vars(mm.Aux), vars(mm.Target)).Define(api)
	})
	s.calls += api.calls
	s.api = nil
	if o.V != vAccept || last == nil {
		return nil
	}
	S, ok := refPoint(last[0], last[1])
	if !ok {
		return nil
	}
	w0, _ := refPoint(m.Proof[102], m.Proof[103])
	uw := refMulPt(w0, ch.u)
	uw.Neg(&uw)
	part := refAddPts(S, uw)
	d, ok := fInv(fSub(s.run.tau, ch.u))
	if !ok {
		return nil
	}
	w := refMulPt(part, d)
	if w.IsInfinity() || !inR(w) {
		return nil
	}
	r := m.clone()
	r.Proof[102], r.Proof[103] = bi(w.X), bi(w.Y)
	f := refMulPtB(w, bi(s.run.tau))
	s.force = [2]*big.Int{bi(f.X), bi(f.Y)}
	return r
}

func (s *sess) chalOf(m *aggMsg) (refChallenges, error) {
	hash := refKeccakInstance(m.Target, m.Inst)
	inst := refMulPtB(refInstBase, new(big.Int).Mod(hash, vsR))
	return refGetChallenges(bi(inst.X), bi(inst.Y), m.Proof)
}
