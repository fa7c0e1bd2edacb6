package main

// Fault injection: lies and failures of the advice oracle, crashes and
// refusals of the evaluation backend, corruption of messages in transit.

import (
	"errors"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/constraint/solver"
	"github.com/ethereum/go-ethereum/crypto"
)

var (
	vsFp     = refBig("21888242871839275222246405745257275088696311157297823662689037894645226208583")
	vsBeta   = refBig("2203960485148121921418603742825762020974279258880205651966") // cube root of one in Fp
	vsLambda = refBig("4407920970296243842393367215006156084916469457145843978461") // cube root of one in Fr
)

var errAdvice = errors.New("simulated advice failure")

// arm installs the plan's faults for this session on a backend.
func (s *sess) arm(api *simAPI) {
	api.hintErrs = s.P("bld", 0) == 1
	api.recReqs = true
	api.onReq = s.onReq
	var adv []*Fault
	for i := range s.p.F {
		f := &s.p.F[i]
		switch {
		case f.K == "crash":
			api.crashAt = uint64(f.A)
		case f.K == "crash.site" || f.K == "refuse.site": // at a new place
			api.siteAt, api.siteDeep, api.siteRef = int(f.A), f.B == 1, f.K == "refuse.site"
		case f.K == "refuse":
			api.refuseAt = uint64(f.A)
		case len(f.K) > 4 && f.K[:4] == "adv.":
			adv = append(adv, f)
		}
	}
	if len(adv) == 0 {
		return
	}
	for _, f := range adv {
		if f.K == "adv.consx" && f.C>>9%2 == 0 {
			s.altBits = map[string]*big.Int{}
			api.altBits = s.altBits
		}
	}
	cnt := map[string]int64{}
	prevIn := map[string][]*big.Int{}
	api.onHint = func(api *simAPI, idx int, name string, f solver.Hint, in []*big.Int, n int) ([]*big.Int, error) {
		k := cnt[name]
		cnt[name] = k + 1
		var hit *Fault
		for _, a := range adv {
			if a.H == "" && a.A == int64(idx) || a.H == name && (a.A == k || a.A == -1) || a.H == "*" && a.A == -1 {
				hit = a
				break
			}
		}
		if hit == nil {
			res, err := vsCallHint(f, in, n)
			if err == nil {
				s.prevAns[name] = append(s.prevAns[name], vsClone(res))
			}
			prevIn[name] = vsClone(in)
			return res, err
		}
		switch hit.K {
		case "adv.err":
			s.fire(hit.K)
			s.failing = true
			return nil, errAdvice
		case "adv.panic":
			s.fire(hit.K)
			s.failing = true
			panic("simulated advice panic")
		case "adv.unset":
			s.fire(hit.K)
			s.failing = true
			res, _ := vsCallHint(f, vsClone(in), n)
			res[int(hit.B)%n] = nil
			return res, nil
		}
		honest, herr := vsCallHint(f, vsClone(in), n)
		r := newRng(vsMix(s.p.Seed, uint64(idx)<<20^uint64(hit.B)<<8^uint64(hit.C)))
		lie := s.lie(hit, r, name, f, in, honest, herr, n, prevIn[name])
		if lie == nil {
			if herr != nil {
				return nil, herr
			}
			return honest, nil
		}
		differs := herr != nil
		for i := range lie {
			if !differs {
				a, b := new(big.Int).Mod(lie[i], vsR), new(big.Int).Mod(honest[i], vsR)
				differs = a.Cmp(b) != 0
			}
		}
		if differs {
			s.fire(hit.K)
			s.lied = true
		}
		prevIn[name] = vsClone(in)
		return lie, nil
	}
}

// lie computes a wrong answer, nil if this kind of lie does not apply here.
func (s *sess) lie(fl *Fault, r *rng, name string, f solver.Hint, in, honest []*big.Int, herr error, n int, prevIn []*big.Int) []*big.Int {
	out := make([]*big.Int, n)
	for i := range out {
		if herr == nil && i < len(honest) && honest[i] != nil {
			out[i] = new(big.Int).Set(honest[i])
		} else {
			out[i] = new(big.Int)
		}
	}
	at := int(uint64(fl.B) % uint64(n))
	reeval := func(in2 []*big.Int) []*big.Int {
		var res []*big.Int
		o := vsProtect(func() error {
			var err error
			res, err = vsCallHint(f, in2, n)
			return err
		})
		if o.V != vAccept {
			return nil
		}
		for _, x := range res {
			if x == nil {
				return nil
			}
		}
		return vsClone(res)
	}
	switch fl.K {
	case "adv.add":
		out[at].Add(out[at], big.NewInt(1+fl.C))
	case "adv.sub":
		out[at].Sub(out[at], big.NewInt(1+fl.C))
	case "adv.zero":
		for i := range out {
			out[i].SetUint64(0)
		}
	case "adv.zero1":
		out[at].SetUint64(0)
	case "adv.rnd":
		out[at] = r.big(vsR)
	case "adv.rndall":
		for i := range out {
			out[i] = r.big(vsR)
		}
	case "adv.neg":
		if n == 2 {
			out[1].Sub(vsFp, out[1])
		} else {
			out[at].Neg(out[at])
		}
	case "adv.swap":
		j := int(uint64(fl.C) % uint64(n))
		if j == at {
			j = (at + 1) % n
		}
		out[at], out[j] = out[j], out[at]
	case "adv.bit":
		out[at].SetBit(out[at], int(uint64(fl.C)%254), out[at].Bit(int(uint64(fl.C)%254))^1)
	case "adv.low":
		out[at].SetBit(out[at], int(uint64(fl.C)%8), out[at].Bit(int(uint64(fl.C)%8))^1)
	case "adv.addp":
		out[at].Add(out[at], vsFp)
	case "adv.carry":
		// another decomposition of the same number into "bytes"
		j := (at + 1) % n
		out[j].Add(out[j], big.NewInt(256))
		out[at].Sub(out[at], big.NewInt(1))
	case "adv.stale":
		h := s.prevAns[name]
		if len(h) == 0 {
			return nil
		}
		p := h[int(uint64(fl.B)%uint64(len(h)))]
		for i := range out {
			if i < len(p) && p[i] != nil {
				out[i].Set(p[i])
			}
		}
	case "adv.other":
		p := refMulG(r.big(vsR))
		if n < 2 {
			return nil
		}
		out[0], out[1] = bi(p.X), bi(p.Y)
	case "adv.in", "adv.dbl": // an operand, or its double, instead of the result
		if n != 2 || len(in) < 3 {
			return nil
		}
		j := 0
		if len(in) >= 4 && fl.B%2 == 1 {
			j = 2
		}
		out[0].Set(in[j])
		out[1].Set(in[j+1])
		if fl.K == "adv.dbl" {
			p, ok := refPoint(in[j], in[j+1])
			if !ok {
				return nil
			}
			p = refAddPts(p, p)
			out[0], out[1] = bi(p.X), bi(p.Y)
		}
		if fl.C%4 == 3 {
			out[1].Sub(vsFp, out[1])
		}
	case "adv.triv":
		if n != 2 {
			return nil
		}
		c := [][2]int64{{1, 2}, {0, 1}, {0, 0}, {1, 0}, {1, 1}}[int(uint64(fl.B)%5)]
		out[0].SetInt64(c[0])
		out[1].SetInt64(c[1])
	case "adv.endo":
		out[0].Mul(out[0], vsBeta)
		out[0].Mod(out[0], vsFp)
	case "adv.cons":
		// an honest-looking answer to a different question
		in2 := vsClone(in)
		j := int(uint64(fl.B) % uint64(len(in2)))
		switch fl.C % 4 {
		case 0:
			in2[j].Add(in2[j], big.NewInt(1))
		case 1:
			in2[j] = r.big(vsR)
		case 2:
			in2[j].Sub(vsR, in2[j])
		case 3:
			if len(prevIn) == len(in2) {
				in2[j] = new(big.Int).Set(prevIn[j])
			} else {
				in2[j].Rsh(in2[j], 1)
			}
		}
		if in2[j].Sign() < 0 {
			in2[j].Mod(in2[j], vsR)
		}
		return reeval(in2)
	case "adv.conspt":
		// the question asked of another point: the operand point negated,
		// doubled or replaced
		if len(in) < 3 {
			return nil
		}
		in2 := vsClone(in)
		j := 0
		if len(in) >= 4 && fl.B%2 == 1 {
			j = 2
		}
		p, ok := refPoint(in2[j], in2[j+1])
		if !ok {
			return nil
		}
		switch fl.C % 3 {
		case 0:
			p.Neg(&p)
		case 1:
			p = refAddPts(p, p)
		case 2:
			p = refMulG(r.big(vsR))
		}
		in2[j], in2[j+1] = bi(p.X), bi(p.Y)
		return reeval(in2)
	case "adv.consx", "adv.permute", "adv.carryw", "adv.consb":
		// the digest of other bytes that may pass for an encoding of the words
		if name != "Keccak256Hint" || len(in) == 0 {
			return nil
		}
		j := int(uint64(fl.B) % uint64(len(in)))
		var b []byte
		for i := range in {
			x := new(big.Int).Set(in[i])
			switch {
			case fl.K == "adv.consx" && i == j: // same residue, other integer
				x.Add(x, new(big.Int).Mul(vsR, big.NewInt(1+fl.C%4)))
				if s.altBits != nil {
					s.altBits[in[i].String()] = new(big.Int).Set(x)
				}
			case fl.K == "adv.permute" && len(in) > 1 && i == j:
				x.Set(in[(j+1)%len(in)])
			case fl.K == "adv.permute" && len(in) > 1 && i == (j+1)%len(in):
				x.Set(in[j])
			}
			if x.BitLen() > 256 {
				return nil
			}
			b = append(b, x.FillBytes(make([]byte, 32))...)
		}
		if fl.K == "adv.consb" { // one byte of one word
			at := 32*j + []int{0, 31, 1, int(uint64(fl.C) >> 3 % 32)}[uint64(fl.C)%4]
			switch fl.C >> 8 % 4 {
			case 0:
				b[at]++
			case 1:
				b[at] ^= 1 << (uint64(fl.C) >> 10 % 8)
			case 2:
				b[at] = byte(uint64(fl.C) >> 12)
			default:
				k := 32*j + int(uint64(fl.C)>>12%32)
				b[at], b[k] = b[k], b[at]
			}
		}
		if fl.K == "adv.carryw" { // bytes as a little-endian word
			for i := 0; i < 16; i++ {
				b[32*j+i], b[32*j+31-i] = b[32*j+31-i], b[32*j+i]
			}
		}
		h := crypto.Keccak256(b)
		out[0].SetBytes(h)
		for i, c := range append(append([]byte{}, h...), b...) {
			if i+1 < n {
				out[i+1].SetUint64(uint64(c))
			}
		}
	case "adv.subst":
		// answer as if the message had not been tampered with
		in2 := vsClone(in)
		hit := false
		for i := range in2 {
			if o, ok := s.subst[in2[i].String()]; ok {
				in2[i] = new(big.Int).Set(o)
				hit = true
			}
		}
		if !hit {
			return nil
		}
		return reeval(in2)
	case "adv.force":
		if s.force[0] == nil || n != 2 {
			return nil
		}
		out[0].Set(s.force[0])
		out[1].Set(s.force[1])
	default:
		panic("unknown fault " + fl.K)
	}
	return out
}

func bi[T any, P interface {
	*T
	BigInt(*big.Int) *big.Int
}](e T) *big.Int {
	return P(&e).BigInt(new(big.Int))
}

func refMulG(k *big.Int) (p bn254.G1Affine) {
	_, _, g, _ := bn254.Generators()
	p.ScalarMultiplication(&g, k)
	return
}

func refMulPtB(p bn254.G1Affine, k *big.Int) (r bn254.G1Affine) {
	r.ScalarMultiplication(&p, k)
	return
}

// lies that make sense for any two-output point operation
var vsPointLies = []string{"adv.add", "adv.sub", "adv.zero", "adv.zero1", "adv.rnd", "adv.rndall", "adv.neg", "adv.swap", "adv.bit", "adv.low", "adv.addp", "adv.stale", "adv.other", "adv.endo", "adv.cons", "adv.conspt", "adv.in", "adv.in", "adv.dbl", "adv.triv"}
var vsFailures = []string{"adv.err", "adv.panic", "adv.unset"}

// genLie draws a lie aimed at request a of advice function h.
func genLie(r *rng, h string, a int) Fault {
	f := Fault{K: pick(r, vsPointLies), H: h, A: int64(a), B: int64(r.n(4)), C: int64(r.n(256))}
	if f.K == "adv.add" || f.K == "adv.sub" {
		f.C = int64(pick(r, []int{0, 0, 1, 7, 1 << 30}))
	}
	return f
}

// ---------------------------------------------------------------- messages

// corrupt applies one message fault, returning false if it does not apply.
func corrupt(m *aggMsg, f *Fault, r *rng, other *aggMsg) bool {
	parts := []*[]*big.Int{&m.Proof, &m.Inst, &m.Aux, &m.Target}
	w := *parts[int(uint64(f.A)%4)]
	if len(w) == 0 {
		return false
	}
	b, c := int(uint64(f.B)%uint64(len(w))), int(uint64(f.C)%uint64(len(w)))
	ptAt := func(x int64) int {
		pp := refPointPositions()
		return pp[int(uint64(x)%uint64(len(pp)))]
	}
	setPt := func(i int, p bn254.G1Affine) { m.Proof[i], m.Proof[i+1] = bi(p.X), bi(p.Y) }
	switch f.K {
	case "msg.bit":
		k := int(uint64(f.C) % 253)
		x := new(big.Int).Set(w[b])
		x.SetBit(x, k, x.Bit(k)^1)
		w[b] = x.Mod(x, vsR)
	case "msg.inc":
		x := new(big.Int).Add(w[b], big.NewInt(1))
		w[b] = x.Mod(x, vsR)
	case "msg.zero":
		w[b] = new(big.Int)
	case "msg.rnd":
		w[b] = r.special(vsR)
	case "msg.neg":
		x := new(big.Int).Neg(w[b])
		w[b] = x.Mod(x, vsR)
	case "msg.swap":
		w[b], w[c] = w[c], w[b]
	case "msg.dup":
		w[b] = new(big.Int).Set(w[c])
	case "msg.shift": // one word lost, the rest moves up, last repeated
		copy(w[b:], w[b+1:])
	case "msg.trunc":
		n := 1 + int(uint64(f.C)%uint64(len(w)))
		if n > 3 && f.C%4 != 0 {
			n = 1
		}
		*parts[int(uint64(f.A)%4)] = w[:len(w)-n]
	case "msg.pad": // a word more
		x := r.special(vsR)
		if f.C%3 == 0 {
			x = new(big.Int).Set(w[len(w)-1])
		}
		*parts[int(uint64(f.A)%4)] = append(w[:len(w):len(w)], x)
	case "msg.mix":
		if other == nil {
			return false
		}
		o := other.parts()[int(uint64(f.A)%4)]
		if b > c {
			b, c = c, b
		}
		for i := b; i <= c && i < len(o) && i < len(w); i++ {
			w[i] = new(big.Int).Set(o[i])
		}
	case "msg.swappt":
		i, j := ptAt(f.B), ptAt(f.C)
		m.Proof[i], m.Proof[j] = m.Proof[j], m.Proof[i]
		m.Proof[i+1], m.Proof[j+1] = m.Proof[j+1], m.Proof[i+1]
	case "msg.negpt":
		i := ptAt(f.B)
		p, ok := refPoint(m.Proof[i], m.Proof[i+1])
		if !ok {
			return false
		}
		p.Neg(&p)
		setPt(i, p)
	case "msg.dblpt":
		i := ptAt(f.B)
		p, ok := refPoint(m.Proof[i], m.Proof[i+1])
		if !ok {
			return false
		}
		setPt(i, refAddPts(p, p))
	case "msg.newpt":
		setPt(ptAt(f.B), refMulG(r.big(vsR)))
	case "msg.xy":
		i := ptAt(f.B)
		m.Proof[i], m.Proof[i+1] = m.Proof[i+1], m.Proof[i]
	case "msg.offc":
		i := ptAt(f.B)
		x, y := offCurve(r, int(f.C), m.Proof[i], m.Proof[i+1])
		m.Proof[i], m.Proof[i+1] = x, y
	default:
		panic("unknown message fault " + f.K)
	}
	return true
}

// offCurve makes a pair off the curve out of a pair on it.
func offCurve(r *rng, how int, x, y *big.Int) (*big.Int, *big.Int) {
	x, y = new(big.Int).Set(x), new(big.Int).Set(y)
	switch how % 8 {
	case 0:
		x.Add(x, big.NewInt(1))
	case 1:
		y.Add(y, big.NewInt(1))
	case 2:
		x, y = y, x
	case 3:
		x = r.big(vsR)
	case 4:
		y = r.big(vsR)
	case 5:
		x, y = new(big.Int), new(big.Int)
	case 6: // on the curve y^2 = x^3 + b' for another b': scale (x,y) -> (4x,8y)
		x.Lsh(x, 2)
		y.Lsh(y, 3)
		x.Mod(x, vsFp)
		y.Mod(y, vsFp)
	case 7:
		y.SetBit(y, r.n(250), y.Bit(r.n(250))^1)
	}
	x.Mod(x, vsR)
	y.Mod(y, vsR)
	for i := 0; i < 50; i++ {
		if _, ok := refPoint(x, y); !ok {
			break
		}
		y.Add(y, big.NewInt(1))
		y.Mod(y, vsR)
	}
	return x, y
}
