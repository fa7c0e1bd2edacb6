package main

// Reference model of the aggregate verifier, written from the halo2/ShPlonk
// protocol (rotation sets, Lagrange interpolation, quotient identity, batched
// opening) over field and group types; it shares no code with the circuit.

import (
	"crypto/sha256"
	"errors"
	"fmt"
	"math/big"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fp"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
	"github.com/ethereum/go-ethereum/crypto"
)

const (
	vsNProof  = 104
	vsNAux    = 21
	vsNTarget = 4
	vsLogN    = 23
)

func refBig(s string) *big.Int {
	b, ok := new(big.Int).SetString(s, 10)
	if !ok {
		panic("bad constant")
	}
	return b
}

func refFr(s string) (e fr.Element) {
	e.SetBigInt(refBig(s))
	return
}

func refPt(x, y string) (p bn254.G1Affine) {
	p.X.SetBigInt(refBig(x))
	p.Y.SetBigInt(refBig(y))
	return
}

// ---- the verifying key

var (
	refVKDigest = refBig("8025805240938309707562879759498205008153592202559235423490485577859843831056")
	refInstBase = refPt("13534086339230182803823178260078315691269243572458753455438283544709107378988", "9053077977614827188269653632534212501565186534180282672519599630892718179094")
	refDelta    = refFr("4131629893567559867359510883348571134090853742863529169391034518566172092834")
	// fixed columns and permutation commitments, in the order of their
	// evaluations at x (proof words 58..70 and 72..78)
	refFixed = []bn254.G1Affine{
		refPt("14938380413158645463746726818663993049411440720262319458512240364576743949172", "612698444000497655149316219443956538920213548045757527589465098726453410217"),
		refPt("1602442613231540506062434465510844080484629772386483161935289973450738328411", "8632200768118172237953570969696965645934378330803102067059028669153881824687"),
		refPt("7302810833326292183657845455542786945088085612690237136517265240120492143686", "12265020872042776853325862543934338413628778238311540007481750568301839403357"),
		refPt("15714457855017303792793529634633875645702708944223275612000098593544931343989", "15257349176403661815620892222123615612513039066905856829097618251943836626674"),
		refPt("6588502116763777047662055789514359601800459134197048587585162560883404012798", "11714447983073049655392713639630119352182916653299642193786804830268642535746"),
		refPt("9125246457194062079192598275178850075343678690105278369118112655547944406336", "294075161521838319967190643963225379772318561607769296285010787743709643736"),
		refPt("21619461572256759847460179508152708219554585855297084173283796582786124555803", "4345524860916738024637605707697977254152854672257192099656709386158566955621"),
		refPt("17258678549324502889708499924818360135272319280666991023610380123832805047961", "5334989116053542497869652553010890811115308152577125353854023583257775982812"),
		refPt("5308159394739710035241344480420553410175387652800783904684585252715061491340", "3019131547261358901530790449779825851153791728474681515444029058543922522335"),
		refPt("15488644080723619432119612346004359086916581306660788742559926675716559909239", "8754616038193501373921013994731307318251353370144049595366428636287857472101"),
		refPt("9621060932553241457331309181312468446375012848693562416915297961501104714797", "18774224011527979955178720803820949077824414817387957068075380161701868796982"),
		refPt("7332275780326935691999111227339181700750973508937555651107089016408829877447", "10101962784746658718602667114782992736503033294933308373536577801383886245995"),
		refPt("18180235640340843615912844522870848024440129915340282133294923228193557588624", "16150223963193906991297402627411591966306440109235686551266596870812093013098"),
		refPt("14330957265734295635487529150089503047509680887155412481838936779763595454159", "11657029790297552620042403612079612021781553164410884915460958808861335447799"),
		refPt("3217632689962165131030083420553195932069690674124201615821228288158667916559", "11279851209809827628209572028517900058696331891386803672043677236706605258017"),
		refPt("6052548824579324632823008857297151984962554125394528409163563861993455062230", "5253299219790956244634070239415866732913146545893144333850618503587190167918"),
		refPt("20134811260136067172423268982757475565512657205230154765724273546621797752349", "6892971650116630821526804754060441250258363920342589425839414580605638919318"),
		refPt("17209526517725877136177243553045588666670528061781328851527842192340596792007", "673380535462416015709313880421335139519451950072360935904307055208109203957"),
		refPt("9973741392326192617521393709476164203221054644042980686853312098867551316157", "9696890272060053851986158851707718469926088811173404342570425124396426957984"),
		refPt("14118917696035322873139367456503207319385222068825598680486765986706935215403", "18580702656451937158771044279900207779359395181895031379070145857747412641911"),
	}
	refG2Tau = refG2(
		"13560776910958896778309428450808722712362583089620853136731412215646945297830", "17006984783035916014836003241042945838018391379603479329912940809520477208052",
		"18091431719069275340788954644764755415339503689597559484185985670418402491565", "12900589361605111856143562381318004229723309245412571888359653960504992734777")
	_, _, _, refG2Gen = bn254.Generators()
)

func refG2(x0, x1, y0, y1 string) (p bn254.G2Affine) {
	p.X.A0.SetBigInt(refBig(x0))
	p.X.A1.SetBigInt(refBig(x1))
	p.Y.A0.SetBigInt(refBig(y0))
	p.Y.A1.SetBigInt(refBig(y1))
	return
}

// aggMsg is the message a prover sends to the verifier.
type aggMsg struct {
	Proof, Inst, Aux, Target []*big.Int
}

func (m *aggMsg) clone() *aggMsg {
	return &aggMsg{vsClone(m.Proof), vsClone(m.Inst), vsClone(m.Aux), vsClone(m.Target)}
}

func (m *aggMsg) parts() [][]*big.Int { return [][]*big.Int{m.Proof, m.Inst, m.Aux, m.Target} }

func (m *aggMsg) equal(o *aggMsg) bool {
	a, b := m.parts(), o.parts()
	for i := range a {
		if len(a[i]) != len(b[i]) {
			return false
		}
		for j := range a[i] {
			if a[i][j].Cmp(b[i][j]) != 0 {
				return false
			}
		}
	}
	return true
}

func refStrs(s []string) []*big.Int {
	r := make([]*big.Int, len(s))
	for i := range s {
		r[i] = refBig(s[i])
	}
	return r
}

func refRealMsg() *aggMsg {
	return &aggMsg{refStrs(vsRealProof), refStrs(vsRealInst), refStrs(vsRealAux), refStrs(vsRealTarget)}
}

// refPoint reads a point the way the verifier's wire format does: two words,
// each reduced modulo the base field.
func refPoint(x, y *big.Int) (p bn254.G1Affine, ok bool) {
	p.X.SetBigInt(x)
	p.Y.SetBigInt(y)
	return p, p.IsOnCurve()
}

func refKeccakInstance(target, inst []*big.Int) *big.Int {
	var b []byte
	for _, w := range append(append([]*big.Int{}, target...), inst...) {
		var e fp.Element
		e.SetBigInt(w)
		x := e.Bytes()
		b = append(b, x[:]...)
	}
	return new(big.Int).SetBytes(crypto.Keccak256(b))
}

// refTranscript is the Fiat-Shamir transcript: a running SHA-256 state whose
// next input block starts with the previous digest.
type refTranscript struct{ words []*big.Int }

func (t *refTranscript) absorb(w ...*big.Int) { t.words = append(t.words, w...) }
func (t *refTranscript) squeeze() (fr.Element, error) {
	var b []byte
	for _, w := range t.words {
		if w.Sign() < 0 || w.BitLen() > 256 {
			return fr.Element{}, errors.New("word does not fit 32 bytes")
		}
		b = append(b, w.FillBytes(make([]byte, 32))...)
	}
	b = append(b, 0)
	h := sha256.Sum256(b)
	d := new(big.Int).SetBytes(h[:])
	t.words = []*big.Int{d}
	var e fr.Element
	e.SetBigInt(d)
	return e, nil
}

type refChallenges struct{ theta, beta, gamma, y, x, yy, v, u fr.Element }

func (c *refChallenges) list() []fr.Element {
	return []fr.Element{c.theta, c.beta, c.gamma, c.y, c.x, c.yy, c.v, c.u}
}

// positions of points in the proof: 22 commitments then the two openings
func refPointPositions() (r []int) {
	for i := 0; i < 44; i += 2 {
		r = append(r, i)
	}
	return append(r, 100, 102)
}

func refGetChallenges(instX, instY *big.Int, proof []*big.Int) (c refChallenges, err error) {
	if len(proof) < vsNProof {
		return c, errors.New("short proof")
	}
	for _, p := range refPointPositions() {
		if _, ok := refPoint(proof[p], proof[p+1]); !ok {
			return c, fmt.Errorf("point at %d off the curve", p)
		}
	}
	return refRawChallenges(instX, instY, proof)
}

// refRawChallenges does not look at what the words mean.
func refRawChallenges(instX, instY *big.Int, proof []*big.Int) (c refChallenges, err error) {
	t := refTranscript{[]*big.Int{refVKDigest, instX, instY}}
	sq := func(dst *fr.Element, w []*big.Int) {
		if err == nil {
			t.absorb(w...)
			*dst, err = t.squeeze()
		}
	}
	sq(&c.theta, proof[0:16])
	sq(&c.beta, proof[16:24])
	sq(&c.gamma, nil)
	sq(&c.y, proof[24:38])
	sq(&c.x, proof[38:44])
	sq(&c.yy, proof[44:100])
	sq(&c.v, nil)
	sq(&c.u, proof[100:102])
	return
}

func frOf(b *big.Int) (e fr.Element)  { e.SetBigInt(b); return }
func frU(n uint64) (e fr.Element)     { e.SetUint64(n); return }
func fAdd(a, b fr.Element) fr.Element { var r fr.Element; r.Add(&a, &b); return r }
func fSub(a, b fr.Element) fr.Element { var r fr.Element; r.Sub(&a, &b); return r }
func fMul(a ...fr.Element) fr.Element {
	r := a[0]
	for _, x := range a[1:] {
		r.Mul(&r, &x)
	}
	return r
}
func fInv(a fr.Element) (fr.Element, bool) {
	var r fr.Element
	if a.IsZero() {
		return r, false
	}
	r.Inverse(&a)
	return r, true
}
func fPow2k(a fr.Element, k int) fr.Element {
	for i := 0; i < k; i++ {
		a.Square(&a)
	}
	return a
}
func fExp(a fr.Element, n int64) fr.Element { var r fr.Element; r.Exp(a, big.NewInt(n)); return r }

// halo2's generator of the order-2^23 subgroup: 7^((r-1)/2^23)
var refOmega = func() (e fr.Element) {
	n := new(big.Int).Sub(vsR, big.NewInt(1))
	g := frU(7)
	e.Exp(g, n.Rsh(n, vsLogN))
	return
}()

// refOpening is the outcome of the scalar side of verification.
type refOpening struct {
	ch      refChallenges
	aux     [vsNAux]fr.Element
	scal    []fr.Element // coefficients of refOpening.pts
	pts     []bn254.G1Affine
	w       bn254.G1Affine // opening proof point
	sum     bn254.G1Affine // right-hand side of the opening equation
	partial bn254.G1Affine // same, without the u*W term
	h       fr.Element
}

type refQuery struct {
	com   bn254.G1Affine
	evals []fr.Element
}

// refOpen computes everything up to the pairing. It fails if the message is
// malformed or a denominator vanishes.
func refOpen(m *aggMsg) (*refOpening, error) { return refOpenAny(m, refGetChallenges) }

func refOpenAny(m *aggMsg, challenges func(x, y *big.Int, proof []*big.Int) (refChallenges, error)) (*refOpening, error) {
	if !wellShaped(m) {
		return nil, errors.New("wrong shape")
	}
	o := &refOpening{}
	hash := refKeccakInstance(m.Target, m.Inst)
	k := new(big.Int).Mod(hash, vsR)
	var inst bn254.G1Affine
	inst.ScalarMultiplication(&refInstBase, k)
	ch, err := challenges(inst.X.BigInt(new(big.Int)), inst.Y.BigInt(new(big.Int)), m.Proof)
	if err != nil {
		return nil, err
	}
	o.ch = ch
	var P []bn254.G1Affine
	for _, p := range refPointPositions() {
		q, _ := refPoint(m.Proof[p], m.Proof[p+1])
		P = append(P, q)
	}
	t := func(i int) fr.Element { return frOf(m.Proof[i]) }
	theta, beta, gamma, y, x, yy, v, u := ch.theta, ch.beta, ch.gamma, ch.y, ch.x, ch.yy, ch.v, ch.u
	one := frU(1)

	// rotations of x
	var wi fr.Element
	wi.Inverse(&refOmega)
	rot := func(r int) fr.Element {
		b, n := refOmega, r
		if r < 0 {
			b, n = wi, -r
		}
		return fMul(x, fExp(b, int64(n)))
	}
	xNext, xNext2, xPrev, xLast := rot(1), rot(2), rot(-1), rot(-6)

	// Lagrange basis values at x
	xn := fPow2k(x, vsLogN)
	zx := fSub(xn, one)
	nInv, _ := fInv(frU(1 << vsLogN))
	bad := false
	lag := func(i int) fr.Element {
		w := fExp(refOmega, int64(i))
		if i < 0 {
			w = fExp(wi, int64(-i))
		}
		d, ok := fInv(fSub(x, w))
		if !ok {
			bad = true
		}
		return fMul(w, nInv, zx, d)
	}
	l0, lLast := lag(0), lag(-6)
	blind := make([]fr.Element, 6)
	for i := 1; i <= 5; i++ {
		blind[i] = lag(-i)
	}
	active := one
	active = fSub(active, lLast)
	for i := 1; i <= 5; i++ {
		active = fSub(active, blind[i])
	}

	// constraint system evaluated at x, combined with y
	var exprs []fr.Element
	E := func(e fr.Element) { exprs = append(exprs, e) }
	sum := func(a ...fr.Element) (r fr.Element) {
		for _, b := range a {
			r = fAdd(r, b)
		}
		return
	}
	// arithmetic gate
	E(sum(t(58), fMul(t(50), t(59)), fMul(t(45), t(60)), fMul(t(46), t(61)), fMul(t(47), t(62)), fMul(t(48), t(63)), fMul(t(49), t(64)),
		fMul(t(45), t(46), t(65)), fMul(t(47), t(48), t(66))))
	// range-check gates selected by t70 = 1, 2, 3
	s := t(70)
	s1, s2, s3 := fSub(s, frU(1)), fSub(s, frU(2)), fSub(s, frU(3))
	sh := func(k int) fr.Element { return fPow2k2(k) }
	E(fMul(fSub(t(51), t(52)), s, s2, s3))
	low := fSub(fSub(t(51), t(53)), fMul(t(54), sh(18)))
	E(fMul(fSub(fSub(low, fMul(t(52), sh(36))), fMul(t(55), sh(54))), s, s1, s3))
	E(fMul(fSub(fSub(fSub(fSub(low, fMul(t(56), sh(36))), fMul(t(52), sh(54))), fMul(t(55), sh(72))), fMul(t(57), sh(90))), s, s1, s2))
	// permutation argument, four chunks of columns
	zs := [][3]int{{79, 80, 81}, {82, 83, 84}, {85, 86, 87}, {88, 89, -1}}
	cols := [][]int{{45, 46}, {47, 48}, {49, 51}, {44}}
	sig := [][]int{{72, 73}, {74, 75}, {76, 77}, {78}}
	E(fMul(l0, fSub(one, t(79))))
	E(fMul(lLast, fSub(fMul(t(88), t(88)), t(88))))
	for i := 1; i < 4; i++ {
		E(fMul(l0, fSub(t(zs[i][0]), t(zs[i-1][2]))))
	}
	dl := one
	for i := range zs {
		left, right := t(zs[i][1]), t(zs[i][0])
		for j := range cols[i] {
			left = fMul(left, sum(t(cols[i][j]), fMul(beta, t(sig[i][j])), gamma))
			right = fMul(right, sum(t(cols[i][j]), fMul(beta, x, dl), gamma))
			dl = fMul(dl, refDelta)
		}
		E(fMul(fSub(left, right), active))
	}
	// two lookups: (z, zNext, input', input'Prev, table', selector-ish, value)
	table := fAdd(fMul(t(68), theta), t(69))
	lookups := []struct {
		z   int
		sel fr.Element
		val fr.Element
	}{{90, t(67), t(52)}, {95, frU(18), t(53)}}
	for _, l := range lookups {
		z, zn, a, ap, s := t(l.z), t(l.z+1), t(l.z+2), t(l.z+3), t(l.z+4)
		E(fMul(l0, fSub(one, z)))
		E(fMul(lLast, fSub(fMul(z, z), z)))
		E(fMul(fSub(fMul(zn, fAdd(a, beta), fAdd(s, gamma)), fMul(z, sum(fMul(l.sel, theta), l.val, beta), fAdd(table, gamma))), active))
		E(fMul(l0, fSub(a, s)))
		E(fMul(fSub(a, s), fSub(a, ap), active))
	}
	var num fr.Element
	for _, e := range exprs {
		num = fAdd(fMul(num, y), e)
	}
	zxInv, ok := fInv(zx)
	if !ok || bad {
		return nil, errors.New("degenerate x")
	}
	o.h = fMul(num, zxInv)

	// batched opening: rotation sets, queries in protocol order
	hCom := refAddPts(P[19], refMulPt(P[20], xn), refMulPt(P[21], fMul(xn, xn)))
	q := func(c bn254.G1Affine, e ...int) refQuery {
		r := refQuery{com: c}
		for _, i := range e {
			r.evals = append(r.evals, t(i))
		}
		return r
	}
	setA := []refQuery{q(P[12], 79, 80, 81), q(P[13], 82, 83, 84), q(P[14], 85, 86, 87)}
	setB := []refQuery{q(P[8], 92, 93), q(P[10], 97, 98)}
	setC := []refQuery{q(inst, 44), q(P[0], 45), q(P[1], 46), q(P[2], 47), q(P[3], 48), q(P[5], 51), q(P[9], 94), q(P[11], 99)}
	for i := range refFixed {
		j := 58 + i
		if j >= 71 {
			j++
		}
		setC = append(setC, q(refFixed[i], j))
	}
	setC = append(setC, refQuery{hCom, []fr.Element{o.h}}, q(P[18], 71))
	setD := []refQuery{q(P[4], 49, 50), q(P[15], 88, 89), q(P[16], 90, 91), q(P[17], 95, 96)}
	setE := []refQuery{q(P[6], 52, 55, 57), q(P[7], 53, 54, 56)}
	sets := []struct {
		pts []fr.Element
		qs  []refQuery
	}{
		{[]fr.Element{x, xNext, xLast}, setA},
		{[]fr.Element{x, xPrev}, setB},
		{[]fr.Element{x}, setC},
		{[]fr.Element{x, xNext}, setD},
		{[]fr.Element{x, xNext, xNext2}, setE},
	}
	all := []fr.Element{x, xNext, xNext2, xPrev, xLast}
	van := func(skip []fr.Element) fr.Element { // product of (u-p) over all points not in skip
		r := one
	next:
		for _, p := range all {
			for _, s := range skip {
				if p.Equal(&s) {
					continue next
				}
			}
			r = fMul(r, fSub(u, p))
		}
		return r
	}
	norm, ok := fInv(van(sets[0].pts))
	if !ok {
		return nil, errors.New("degenerate u")
	}
	var evalSum fr.Element
	vp := one // v^(nsets-1-i) built from the last set upwards
	for i := len(sets) - 1; i >= 0; i-- {
		st := sets[i]
		z := fMul(van(st.pts), norm)
		yp := one
		for j := len(st.qs) - 1; j >= 0; j-- {
			c := fMul(vp, z, yp)
			o.pts = append(o.pts, st.qs[j].com)
			o.scal = append(o.scal, c)
			r, ok := refInterp(st.pts, st.qs[j].evals, u)
			if !ok {
				return nil, errors.New("degenerate interpolation")
			}
			evalSum = fAdd(evalSum, fMul(c, r))
			yp = fMul(yp, yy)
		}
		vp = fMul(vp, v)
	}
	// - evalSum*G - Z_A(u)*H
	zA := one
	for _, p := range sets[0].pts {
		zA = fMul(zA, fSub(u, p))
	}
	var neg fr.Element
	_, _, g1, _ := bn254.Generators()
	neg.Neg(&evalSum)
	o.pts, o.scal = append(o.pts, g1), append(o.scal, neg)
	neg.Neg(&zA)
	o.pts, o.scal = append(o.pts, P[22]), append(o.scal, neg)
	o.partial = refMSM(o.pts, o.scal)
	o.w = P[23]
	o.sum = refAddPts(o.partial, refMulPt(o.w, u))

	// the quotients a prover must supply
	quo := func(i int, n, d fr.Element) {
		di, ok := fInv(d)
		if !ok {
			bad = true
		}
		o.aux[i] = fMul(n, di)
	}
	quo(0, one, fSub(xLast, x))
	quo(1, one, fSub(xLast, xNext))
	quo(2, one, fSub(x, xLast))
	quo(3, one, fSub(x, xNext))
	quo(4, one, fSub(xNext, xLast))
	quo(5, one, fSub(xNext, x))
	quo(6, one, fSub(xPrev, x))
	quo(7, one, fSub(x, xPrev))
	quo(8, one, fMul(fSub(u, xPrev), fSub(u, xNext2)))
	o.aux[9], o.aux[10] = l0, lLast
	for i := 1; i <= 5; i++ {
		o.aux[10+i] = blind[refBlindOrder[i-1]]
	}
	o.aux[16] = o.h
	quo(17, one, fSub(x, xNext2))
	quo(18, one, fSub(xNext, xNext2))
	quo(19, one, fSub(xNext2, x))
	quo(20, one, fSub(xNext2, xNext))
	if bad {
		return nil, errors.New("degenerate denominators")
	}
	return o, nil
}

// order in which the blinding rows' Lagrange values are supplied
var refBlindOrder = []int{5, 4, 3, 2, 1}

func fPow2k2(k int) fr.Element { return fExp(frU(2), int64(k)) }

func refInterp(xs, ys []fr.Element, u fr.Element) (r fr.Element, ok bool) {
	for i := range xs {
		c := ys[i]
		for j := range xs {
			if i != j {
				d, good := fInv(fSub(xs[i], xs[j]))
				if !good {
					return r, false
				}
				c = fMul(c, fSub(u, xs[j]), d)
			}
		}
		r = fAdd(r, c)
	}
	return r, true
}

func refMulPt(p bn254.G1Affine, k fr.Element) (r bn254.G1Affine) {
	r.ScalarMultiplication(&p, k.BigInt(new(big.Int)))
	return
}

func refAddPts(a ...bn254.G1Affine) bn254.G1Affine {
	var s bn254.G1Jac
	s.FromAffine(&a[0])
	for i := range a[1:] {
		var q bn254.G1Jac
		q.FromAffine(&a[i+1])
		s.AddAssign(&q)
	}
	var r bn254.G1Affine
	r.FromJacobian(&s)
	return r
}

func refMSM(p []bn254.G1Affine, k []fr.Element) bn254.G1Affine {
	var s bn254.G1Jac
	for i := range p {
		var q bn254.G1Jac
		q.FromAffine(&p[i])
		q.ScalarMultiplication(&q, k[i].BigInt(new(big.Int)))
		s.AddAssign(&q)
	}
	var r bn254.G1Affine
	r.FromJacobian(&s)
	return r
}

// refAccept says whether a correct verifier accepts m, and why not.
// g2 is the secret point of the setup in force.
func refAccept(m *aggMsg, g2 *bn254.G2Affine) (bool, string) {
	o, err := refOpen(m)
	if err != nil {
		return false, err.Error()
	}
	for i := range o.aux {
		a := frOf(m.Aux[i])
		if !a.Equal(&o.aux[i]) {
			return false, fmt.Sprintf("quotient %d wrong", i)
		}
	}
	return refOpeningHolds(o, g2)
}

func refOpeningHolds(o *refOpening, g2 *bn254.G2Affine) (bool, string) {
	if o.w.IsInfinity() || o.sum.IsInfinity() {
		return false, "degenerate opening"
	}
	var negG2 bn254.G2Affine
	negG2.Neg(&refG2Gen)
	ok, err := bn254.PairingCheck([]bn254.G1Affine{o.w, o.sum}, []bn254.G2Affine{*g2, negG2})
	if err != nil {
		return false, err.Error()
	}
	if !ok {
		return false, "opening equation does not hold"
	}
	return true, ""
}

// refProve completes a message whose commitments and evaluations are arbitrary
// into an accepting one, using knowledge of the setup's secret tau: it solves
// the opening equation for the last point and supplies the true quotients.
func refProve(m *aggMsg, tau *fr.Element) error {
	var g bn254.G1Affine
	_, _, g, _ = bn254.Generators()
	m.Proof[102], m.Proof[103] = g.X.BigInt(new(big.Int)), g.Y.BigInt(new(big.Int))
	o, err := refOpen(m)
	if err != nil {
		return err
	}
	d, ok := fInv(fSub(*tau, o.ch.u))
	if !ok {
		return errors.New("degenerate tau")
	}
	w := refMulPt(o.partial, d)
	if w.IsInfinity() {
		return errors.New("degenerate opening")
	}
	m.Proof[102], m.Proof[103] = w.X.BigInt(new(big.Int)), w.Y.BigInt(new(big.Int))
	for i := range o.aux {
		m.Aux[i] = o.aux[i].BigInt(new(big.Int))
	}
	return nil
}

// refRepairAux makes the quotients of m the true ones (what an adversarial
// prover does after tampering with the rest), points off the curve or not.
func refRepairAux(m *aggMsg) bool {
	o, err := refOpenAny(m, refRawChallenges)
	if err != nil {
		return false
	}
	for i := range o.aux {
		m.Aux[i] = o.aux[i].BigInt(new(big.Int))
	}
	return true
}
