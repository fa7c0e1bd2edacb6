package main

// Direct calls of the advice functions, the way gnark's solver makes them: in
// parallel, with result buffers taken from a pool, results later overwritten
// by the caller.

import (
	"fmt"
	"math/big"
	"strings"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/ethereum/go-ethereum/crypto"
	"github.com/ethereum/go-ethereum/crypto/bn256"
)

func init() { vsKinds["hint"] = kHint }

// pool of result buffers shared by all sessions of a run, like the solver's
type hintPool struct{ l []*big.Int }

func (p *hintPool) get(r *rng) *big.Int {
	reuse := r.n(4) != 0 // drawn in any case: choices must not depend on other sessions
	if n := len(p.l); n > 0 && reuse {
		x := p.l[n-1]
		p.l = p.l[:n-1]
		return x
	}
	return new(big.Int)
}

func (s *sess) pool() *hintPool {
	if s.run.pool == nil {
		s.run.pool = &hintPool{}
	}
	return s.run.pool
}

func refAddWords(x1, y1, x2, y2 *big.Int) (bn254.G1Affine, bool) {
	p, ok1 := refPoint(x1, y1)
	q, ok2 := refPoint(x2, y2)
	return refAddPts(p, q), ok1 && ok2
}

func kHint(s *sess) {
	n := int(s.P("n", 8))
	o := vsProtect(func() error {
		for i := 0; i < n; i++ {
			s.hintCall(i)
			vsY(vsSiteAPI)
		}
		return nil
	})
	s.note(o)
	if o.V == vReject {
		s.bad("reject-good", "advice function panicked: %s", o.Why)
	}
}

func (s *sess) hintCall(i int) {
	r := s.r
	// some questions are asked again and again in a run, in full or in part
	g := r
	if r.n(5) < 2 {
		g = newRng(vsMix(uint64(s.P("ask", 0)), 0xa5c+uint64(r.n(3))))
	}
	op := g.n(6)
	part := func() *rng {
		if r.n(6) == 0 {
			return r
		}
		return g
	}
	if x := s.P("op", -1); x >= 0 {
		op = int(x)
	}
	var f solver.Hint
	name := ""
	var in, want []*big.Int
	bad := false // the function must refuse this input
	nout := 2
	switch {
	case op <= 1 && vsb_MsmHint != nil:
		f, name = vsb_MsmHint, "scalar multiple"
		p := genPoint(part(), int64(part().n(8)))
		k := part().special(vsR)
		if g.n(6) == 0 { // not reduced
			k.Add(k, new(big.Int).Mul(vsR, big.NewInt(int64(1+g.n(4)))))
		}
		in = []*big.Int{bi(p.X), bi(p.Y), k}
		if r.n(6) == 0 {
			in[0], in[1] = offCurve(r, r.n(8), in[0], in[1])
			bad = true
		}
		e := refMulPtB(p, k)
		want = []*big.Int{bi(e.X), bi(e.Y)}
	case op == 2 && vsb_AddHint != nil:
		f, name = vsb_AddHint, "sum"
		p, q := genPoint(part(), int64(part().n(8))), genPoint(part(), int64(part().n(8)))
		switch g.n(8) {
		case 0:
			q = p
		case 1:
			q.Neg(&p)
		}
		in = []*big.Int{bi(p.X), bi(p.Y), bi(q.X), bi(q.Y)}
		if r.n(6) == 0 {
			j := 2 * r.n(2)
			in[j], in[j+1] = offCurve(r, r.n(8), in[j], in[j+1])
			bad = true
		}
		e := refAddPts(p, q)
		want = []*big.Int{bi(e.X), bi(e.Y)}
	case op == 3 && vsb_modHint != nil:
		f, name = vsb_modHint, "quotient and remainder"
		var x *big.Int
		switch g.n(5) {
		case 0:
			x = g.special(vsR)
		case 1:
			x = new(big.Int).SetBytes(g.bytes(1 + g.n(80)))
		case 2:
			x = new(big.Int).Mul(vsR, big.NewInt(int64(g.n(5))))
			x.Add(x, big.NewInt(int64(g.n(3))))
		case 3:
			x = new(big.Int).Sub(vsR, big.NewInt(int64(g.n(3))))
		default:
			x = g.big(vsR)
		}
		in = []*big.Int{x}
		d, m := new(big.Int).DivMod(x, vsR, new(big.Int))
		want = []*big.Int{d, m}
	case op == 4 && vsb_Keccak256Hint != nil:
		f, name = vsb_Keccak256Hint, "instance digest"
		var b []byte
		for k, l := 0, 1+part().n(7); k < l; k++ {
			x := part().special(vsR)
			in = append(in, x)
			b = append(b, x.FillBytes(make([]byte, 32))...)
		}
		h := crypto.Keccak256(b)
		want = append(want, new(big.Int).SetBytes(h))
		for _, c := range append(append([]byte{}, h...), b...) {
			want = append(want, new(big.Int).SetUint64(uint64(c)))
		}
		nout = len(want)
	case op == 5 && vsb_extractAndConvert != nil:
		// the point printer's text form is read back exactly
		p := genPoint(part(), int64(part().n(8)))
		b := append(bi(p.X).FillBytes(make([]byte, 32)), bi(p.Y).FillBytes(make([]byte, 32))...)
		g := new(bn256.G1)
		if _, err := g.Unmarshal(b); err != nil {
			return
		}
		x, y, err := vsb_extractAndConvert(g.String())
		if err != nil || x != bi(p.X).String() || y != bi(p.Y).String() {
			s.bad("wrong-output", "text form of (%v,%v) read back as (%s,%s) %v", bi(p.X), bi(p.Y), x, y, err)
		}
		t := g.String()
		switch r.n(3) {
		case 0:
			t = strings.Replace(t, ",", "", 1)
		case 1:
			t = t[:r.n(len(t)-1)]
		case 2:
			t = strings.Replace(t, "G1", "G2", 1)
		}
		if x, y, err := vsb_extractAndConvert(t); err == nil {
			s.bad("wrong-output", "malformed text %q read as (%s,%s)", t, x, y)
		}
		return
	default:
		return
	}

	// deliver, possibly with a shared operand object
	args := vsClone(in)
	if len(args) >= 4 && in[0].Cmp(in[2]) == 0 && in[1].Cmp(in[3]) == 0 && r.n(2) == 0 {
		args[2], args[3] = args[0], args[1]
	}
	field := new(big.Int).Set(vsR)
	out := make([]*big.Int, nout)
	switch r.n(3) {
	case 0:
		for j := range out {
			out[j] = new(big.Int)
		}
	case 1: // recycled buffers still holding an earlier answer
		for j := range out {
			out[j] = s.pool().get(r)
		}
	default:
		for j := range out {
			out[j] = r.big(vsR)
		}
	}
	given := append([]*big.Int{}, out...)
	err := f(field, args, out)
	calls := fmt.Sprintf("advice function %q", name)
	if err != nil {
		s.mixStr("err")
		if !bad {
			s.bad("reject-good", "%s failed on valid input %v: %v", calls, in, err)
		}
	} else {
		if bad {
			s.bad("accept-bad", "%s answered for a point off the curve", calls)
		}
		for j := range want {
			if bad {
				break
			}
			if out[j] == nil || out[j].Cmp(want[j]) != 0 {
				s.bad("wrong-output", "%s of %v gave %v as result %d, want %v", calls, in, out[j], j, want[j])
				break
			}
		}
		s.mixBig(out...)
	}
	for j := range args {
		if args[j].Cmp(in[j]) != 0 {
			s.bad("mutated", "%s changed its input %d from %v to %v", calls, j, in[j], args[j])
		}
	}
	if field.Cmp(vsR) != 0 {
		s.bad("mutated", "%s changed the field modulus it was given", calls)
	}
	if err != nil || bad {
		return
	}
	// nothing handed out may alias an input or another result
	seen := map[*big.Int]string{}
	for j := range args {
		seen[args[j]] = "an input"
	}
	seen[field] = "the modulus"
	for j := range out {
		if w, ok := seen[out[j]]; ok {
			s.bad("mutated", "%s handed out %s as result %d", calls, w, j)
		}
		seen[out[j]] = "another result"
	}
	for j := range out { // nor anything handed out by an earlier call
		if out[j] == given[j] {
			continue
		}
		if s.run.handed[out[j]] {
			s.bad("mutated", "%s handed out as result %d an object that an earlier call handed out", calls, j)
			break
		}
		if s.run.handed == nil {
			s.run.handed = map[*big.Int]bool{}
		}
		s.run.handed[out[j]] = true
	}
	keep := vsClone(out)
	// let others run while the results are live, then check and recycle them:
	// the caller scribbles over everything it was given or handed in
	for j := 0; j < 3; j++ {
		vsY(vsSiteAPI)
	}
	for j := range out {
		if out[j].Cmp(keep[j]) != 0 {
			s.bad("mutated", "%s: result %d changed after it was handed out", calls, j)
			break
		}
	}
	junk := r.big(vsR)
	for j := range out {
		out[j].Set(junk)
	}
	for j := range args {
		args[j].Set(junk)
	}
	field.SetUint64(13)
	for j := range given {
		if r.n(2) == 0 {
			s.pool().l = append(s.pool().l, given[j])
		}
		if given[j] != out[j] && r.n(2) == 0 {
			s.pool().l = append(s.pool().l, out[j])
		}
	}
}
