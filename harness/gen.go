package main

// Plan generators: one per property. Plan i of a check is a pure function of
// (property, base seed, i); the first component of i also walks through the
// templates of the property so that every template and every target of a
// fault is visited in each check, whatever the seed.

import (
	"fmt"
)

type propSpec struct {
	id      string
	gen     func(r *rng, i int) *Plan
	quick   int // runs
	full    int
	classes string // violation classes that count against this property
	diff    string // "", "dig" or "req": compare sessions with solo runs in a fresh process
	rule    string
	real    string
	stub    string
}

var vsSpecs = map[string]*propSpec{}

func reg(p propSpec) { vsSpecs[p.id] = &p }

func one(kind string, p map[string]int64, f ...Fault) *Plan {
	return &Plan{Sess: []SessPlan{{Kind: kind, P: p, F: f}}}
}

func F(k, h string, a, b, c int) Fault {
	return Fault{K: k, H: h, A: int64(a), B: int64(b), C: int64(c)}
}

type pm = map[string]int64

// schedule draws an interleaving policy (one swarm parameter set per run).
func schedule(r *rng, nth int) vsSchedPlan {
	sp := vsSchedPlan{Mode: "gen", Seed: r.u64(), Starve: -1}
	sp.Mean = pick(r, []float64{3, 20, 200, 2000, 20000, 300000})
	sp.HotPct = pick(r, []int{0, 0, 5, 30, 70})
	if r.n(4) == 0 {
		sp.Starve = r.n(nth)
	}
	if r.n(2) == 0 {
		sp.First = pick(r, []int{5, 20, 60})
		sp.Stall = pick(r, []int{2, 50, 1 << 30})
	}
	return sp
}

// seedPlan fills in all remaining choices.
func seedPlan(p *Plan, prop string, seed uint64, r *rng) *Plan {
	p.Prop, p.Seed = prop, seed
	for i := range p.Sess {
		if p.Sess[i].Seed == 0 {
			p.Sess[i].Seed = r.u64()
		}
		if p.Sess[i].Kind == "hint" && p.Sess[i].P != nil && p.Sess[i].P["ask"] == 0 {
			p.Sess[i].P["ask"] = int64(1 + seed%(1<<40))
		}
	}
	if p.Sim && p.Tau == 0 {
		p.Tau = 1 + r.u64()%5
	}
	if p.Sched.Mode == "" {
		p.Sched = vsSchedPlan{Mode: "list", Starve: -1}
	}
	if seed%8 != 0 {
		p.Clock = seed | 1
	}
	return p
}

func genPlan(prop string, base uint64, i int) *Plan {
	sp := vsSpecs[prop]
	seed := vsMix(vsMixS(base, prop), uint64(i))
	r := newRng(seed)
	return seedPlan(sp.gen(r, i), prop, seed, r)
}

// sizes of the honest request sequence of the whole verifier, used only to aim
// faults; a fault aimed past the end simply does not fire
const (
	nAggReq = 927
	nAggMsm = 90
	nAggAdd = 44
)

var ecHints = []string{"MsmHint", "MsmHint", "AddHint", "modHint", "*"}

// opLies draws faults for an op-level session.
func opLies(r *rng, hints []string, maxReq int) (fs []Fault) {
	n := 1
	if r.n(4) == 0 {
		n = 2
	}
	for ; n > 0; n-- {
		h := pick(r, hints)
		a := r.n(maxReq)
		if h == "*" {
			h, a = "", r.n(maxReq*2)
		} else if r.n(8) == 0 {
			a = -1 // every request
		}
		fs = append(fs, genLie(r, h, a))
	}
	return
}

func ecPlan(r *rng, lies bool) SessPlan {
	op := r.n(nEcOps)
	sp := SessPlan{Kind: "ec", P: pm{"op": int64(op)}}
	if r.n(5) == 0 {
		sp.P["n"] = 2
	}
	if lies {
		sp.F = opLies(r, ecHints, 2)
	}
	return sp
}

func hashFaults(r *rng) (fs []Fault) {
	if r.n(5) < 2 {
		return
	}
	k := pick(r, []string{"dig.byte", "dig.byte", "dig.byte", "dig.swap", "dig.other", "dig.short", "dig.msg", "dig.alg", "dig.rev"})
	return []Fault{F(k, "", r.n(400), r.n(8), 0)}
}

var kycFaults = []string{"kyc.r", "kyc.s", "kyc.h", "kyc.swaprs", "kyc.negr", "kyc.zero", "kyc.replay", "kyc.young", "kyc.old", "kyc.farage", "kyc.range", "kyc.country", "kyc.country", "kyc.zeroctry", "kyc.nolist", "kyc.spec", "kyc.spec", "kyc.same", "kyc.limb"}

func kycPlan(r *rng, i int) SessPlan {
	sp := SessPlan{Kind: "kyc", P: pm{}}
	switch {
	case i%3 == 0:
		if r.n(3) == 0 {
			sp.F = append(sp.F, F("kyc.mall", "", 0, 0, 0))
		}
		if r.n(3) == 0 {
			sp.F = append(sp.F, F("kyc.attr", "", 0, 0, 0))
		}
	default:
		sp.F = append(sp.F, F(kycFaults[(i/3)%len(kycFaults)], "", r.n(1<<50), r.n(1000), 0))
		if r.n(6) == 0 {
			sp.F = append(sp.F, F("kyc.mall", "", 0, 0, 0))
		}
	}
	return sp
}

var msgFaults = []string{"msg.bit", "msg.inc", "msg.zero", "msg.rnd", "msg.neg", "msg.swap", "msg.dup", "msg.shift", "msg.mix", "msg.swappt", "msg.negpt", "msg.dblpt", "msg.newpt", "msg.xy"}

// msgFault draws a corruption; part 0 proof, 1 instance, 2 hints, 3 targets.
func msgFault(r *rng, part int) Fault {
	k := pick(r, msgFaults)
	if part != 0 && len(k) > 7 && k[len(k)-2:] == "pt" || part != 0 && k == "msg.xy" {
		k = "msg.inc"
	}
	return F(k, "", part, r.n(104), r.n(256))
}

// evaluation words only, so that the transcript stays well-formed
func evalFault(r *rng) Fault {
	k := pick(r, []string{"msg.bit", "msg.inc", "msg.zero", "msg.rnd", "msg.neg", "msg.swap", "msg.dup"})
	return F(k, "", 0, 44+r.n(56), 44+r.n(56))
}

// lite marks most sessions as lite: boundary functions that only hand over to
// gnark's gadgets answer natively, so that many more schedules fit.
func lite(r *rng, sp SessPlan, pct int) SessPlan {
	if r.n(100) < pct {
		if sp.P == nil {
			sp.P = pm{}
		}
		sp.P["lite"] = 1
	}
	return sp
}

func light(r *rng) SessPlan { // a cheap session of any kind
	switch r.n(16) {
	case 0, 1, 2:
		return lite(r, ecPlan(r, r.n(4) == 0), 70)
	case 3, 4:
		return lite(r, SessPlan{Kind: "inst", P: pm{"n": int64(1 + r.n(5))}}, 96)
	case 5, 6:
		return lite(r, SessPlan{Kind: "chal", P: pm{}}, 97)
	case 7, 8:
		return SessPlan{Kind: "fr", P: pm{}}
	case 9:
		return lite(r, SessPlan{Kind: "hash", P: pm{"len": int64(r.n(60))}, F: hashFaults(r)}, 60)
	case 10:
		return SessPlan{Kind: "curve"}
	case 11:
		return SessPlan{Kind: "load"}
	case 12:
		return SessPlan{Kind: "hint", P: pm{"n": 5}}
	case 13:
		return SessPlan{Kind: "range"}
	case 14:
		switch r.n(12) {
		case 0:
			return SessPlan{Kind: "kyc", P: pm{}}
		case 1:
			return SessPlan{Kind: "msm", P: pm{"op": int64(2 + r.n(2)), "times": 1}}
		default:
			return SessPlan{Kind: "range"}
		}
	default:
		return SessPlan{Kind: "agg", P: pm{"lite": 1}}
	}
}

// relative is a session that shares its operands with sp but for one change:
// what a stale or too coarsely keyed cache would confuse with it.
func relative(r *rng, sp SessPlan) SessPlan {
	q := SessPlan{Kind: sp.Kind, Seed: sp.Seed, Th: sp.Th, P: pm{}}
	for k, v := range sp.P {
		if k != "reuse" && k != "bld" && k != "twin" && k != "mut" && k != "recycle" {
			q.P[k] = v
		}
	}
	keep := func() {
		for _, f := range sp.F {
			if len(f.K) > 4 && (f.K[:4] == "msg." || f.K[:4] == "dig." || f.K[:4] == "kyc.") {
				q.F = append(q.F, f)
			}
		}
	}
	switch sp.Kind {
	case "ec", "inst", "fr", "range":
		q.P["mut"] = int64(1 + r.n(1000))
	case "chal":
		keep()
		q.F = append(q.F, msgFault(r, 0))
	case "agg":
		keep()
		q.F = append(q.F, msgFault(r, pick(r, []int{0, 0, 1, 2, 3})))
		q.P["fix"] = int64(r.n(2))
	case "hash":
		if len(sp.F) == 0 || r.n(3) == 0 {
			q.F = []Fault{F(pick(r, []string{"dig.byte", "dig.swap", "dig.msg", "dig.rev"}), "", r.n(400), r.n(8), 0)}
		}
	case "kyc":
		if len(sp.F) == 0 {
			q.F = []Fault{F(pick(r, kycFaults), "", r.n(1<<50), r.n(1000), 0)}
		}
	case "msm":
		q.P["wrong"] = int64(r.n(2))
	default:
		q.Seed = 0
	}
	return q
}

// siteFault strikes when a place in the package asks for its first operation.
func siteFault(r *rng, sp *SessPlan) Fault {
	f := F(pick(r, []string{"crash.site", "crash.site", "refuse.site"}), "", 1+r.n(4), 0, 0)
	switch {
	case sp.Kind == "agg" && r.n(2) == 0:
		f.A, f.B = int64(1+r.n(1000)), 1
	case sp.Kind == "agg" || sp.Kind == "ec":
		f.A = int64(1 + r.n(pick(r, []int{6, 14, 60})))
	case r.n(2) == 0:
		f.A = int64(1 + r.n(16))
	}
	return f
}

// failure makes a session fail part way.
func failure(r *rng, sp *SessPlan, maxCall int) {
	switch r.n(7) {
	case 0, 1:
		sp.F = append(sp.F, F("crash", "", 1+r.n(maxCall), 0, 0))
	case 6: // a wrong answer, refused or not
		sp.F = append(sp.F, genLie(r, "", r.n(6)))
	case 5: // at any of the places that ask for an operation, however seldom
		sp.F = append(sp.F, siteFault(r, sp))
	case 2:
		sp.F = append(sp.F, F("refuse", "", 1+r.n(maxCall), 0, 0))
	default:
		sp.F = append(sp.F, F(pick(r, vsFailures), "", r.n(4), r.n(8), 0))
		if r.n(2) == 0 {
			if sp.P == nil {
				sp.P = pm{}
			}
			sp.P["bld"] = 1
		}
	}
}

func init() {
	const realAll = "the package under test (instrumented copy of every non-test file), gnark's emulated arithmetic, hashes, lookups and pairing gadgets, gnark-crypto, go-ethereum bn256"
	const stubAll = "evaluation backend (simAPI instead of gnark's test engine), scheduler, clock, randomness, advice oracle transport"

	reg(propSpec{id: "C01", quick: 900, full: 40000, classes: "accept-bad", gen: genC01,
		rule: "a run counts when a tampered, forged or replayed aggregate message reached the verifier (a fault fired)",
		real: realAll, stub: stubAll + "; prover simulated with a known setup secret (the G2 point of the setup is substituted)"})
	reg(propSpec{id: "C02", quick: 280, full: 12000, classes: "reject-good died hang", gen: genC02,
		rule: "a run counts when a valid aggregate message was verified to the end", real: realAll, stub: stubAll + "; prover simulated with a known setup secret"})
	reg(propSpec{id: "C03", quick: 4000, full: 20000, classes: "accept-bad wrong-output reject-good edge-output", gen: func(r *rng, i int) *Plan {
		s := ecPlan(r, i%4 != 0)
		s.P["op"] = int64(i % nEcOps)
		if r.n(6) == 0 { // operands on which the unified formula has no slope
			s.P["edge"], s.P["rel"] = 1, 11
			if s.F != nil && r.n(2) == 0 {
				s.F = []Fault{F("adv.zero", "AddHint", 0, 0, 0)}
			}
		}
		return &Plan{Sess: []SessPlan{s}}
	}, rule: "a run counts when an operation ran with honest advice or a lie fired", real: realAll, stub: stubAll})
	reg(propSpec{id: "C04", quick: 300, full: 6000, classes: "accept-bad wrong-output reject-good", gen: func(r *rng, i int) *Plan {
		s := SessPlan{Kind: "inst", P: pm{"n": int64(1 + r.n(6))}}
		if i%4 == 0 {
			s.P["n"] = 5
			s.P["real"] = int64(r.n(2))
		}
		if i%5 != 0 {
			k := []string{"adv.cons", "adv.cons", "adv.cons", "adv.carry", "adv.add", "adv.bit", "adv.swap", "adv.rnd", "adv.rndall", "adv.zero", "adv.sub", "adv.consx", "adv.consb", "adv.permute", "adv.carryw"}[i%15]
			if r.n(4) == 0 {
				k = "adv.consb"
			}
			s.F = []Fault{F(k, "Keccak256Hint", 0, r.n(200), r.n(256))}
			if k == "adv.consb" {
				s.F[0].C = int64(r.n(1 << 24))
			}
			if k == "adv.consx" {
				s.F[0].C = int64(r.n(1024))
				if r.n(2) == 0 {
					s.F[0].C = 0
				}
			}
		}
		if i%6 == 3 { // as the whole verifier uses it
			p := one("agg", pm{"src": 1, "lite": 1, "fix": int64(r.n(2))}, msgFault(r, 1+2*r.n(2)))
			p.Sim = true
			if r.n(3) != 0 {
				reshaped(r, &p.Sess[0])
			}
			if r.n(2) == 0 {
				p.Sess[0].P["adapt"] = 1
			}
			if r.n(2) == 0 {
				p.Sess[0].F = append(p.Sess[0].F, F("adv.subst", "Keccak256Hint", 0, 0, 0))
			}
			return p
		}
		return &Plan{Sess: []SessPlan{s}}
	}, rule: "a run counts when the instance hash was computed with honest or lying advice", real: realAll, stub: stubAll})
	reg(propSpec{id: "C05", quick: 1300, full: 60000, classes: "accept-bad wrong-output reject-good", gen: func(r *rng, i int) *Plan {
		s := SessPlan{Kind: "chal", P: pm{"src": int64(i % 2)}}
		if i%3 != 0 {
			s.F = []Fault{msgFault(r, 0)}
		}
		if i%7 == 3 {
			s.F = []Fault{F("msg.trunc", "", 0, 0, r.n(256))}
		}
		if i%40 >= 2 {
			s.P["lite"] = 1
		}
		return &Plan{Sess: []SessPlan{s}}
	}, rule: "a run counts when a transcript, intact or altered, was turned into challenges or refused", real: realAll, stub: stubAll})
	reg(propSpec{id: "C06", quick: 150000, full: 3000000, classes: "accept-bad wrong-output reject-good", gen: func(r *rng, i int) *Plan {
		s := SessPlan{Kind: "fr", P: pm{}}
		switch i % 4 {
		case 0:
		case 1:
			s.P["wrong"] = 60
			s.P["op"] = 8
			s.P["n"] = 2
		default:
			s.F = opLies(r, []string{"modHint", "modHint", "*"}, 12)
		}
		if i%8 == 5 {
			s.P["op"] = int64(r.n(9))
			s.P["n"] = 3
		}
		if i%2000 == 12 { // the powers the verifier uses are this large
			s.P["op"], s.P["n"] = 5, 1
			s.P["exp"] = pick(r, []int64{8388608, 8388608, 4194304, 65537, 8388607})
			s.F = nil
		}
		return &Plan{Sess: []SessPlan{s}}
	}, rule: "a run counts when at least one field operation ran", real: realAll, stub: stubAll})
	reg(propSpec{id: "C07", quick: 300, full: 9000, classes: "accept-bad reject-good", gen: func(r *rng, i int) *Plan {
		s := SessPlan{Kind: "hash", P: pm{"alg": int64(i % 2)}}
		switch {
		case i%4 < 2:
			s.P["len"] = int64(vsHashLens[(i/4)%len(vsHashLens)])
			if i%16 < 8 {
				s.F = []Fault{F("dig.byte", "", (i/4)%32, r.n(8), 0)}
			}
		default:
			s.F = hashFaults(r)
		}
		return &Plan{Sess: []SessPlan{s}}
	}, rule: "a run counts when a message/digest pair was put to a hash circuit", real: realAll, stub: stubAll})
	reg(propSpec{id: "C08", quick: 3600, full: 90000, classes: "accept-bad reject-good offcurve-used", gen: func(r *rng, i int) *Plan {
		if i%4 == 3 {
			if i%8 == 7 {
				return one("curve", pm{"op": int64(r.n(3))})
			}
			// altered points that a schoolbook formula would take for good ones
			p := one("agg", pm{"src": int64(r.n(2)), "prove": 0, "fix": 1, "lite": 1}, F(pick(r, []string{"msg.xy", "msg.swappt", "msg.dblpt", "msg.negpt", "msg.newpt", "msg.mix", "msg.shift"}), "", 0, r.n(24), r.n(24)))
			if r.n(3) == 0 {
				p.Sess[0].F = append(p.Sess[0].F, F("msg.offc", "", 0, r.n(24), r.n(8)))
			}
			return p
		}
		j := i - i/4
		p := one("agg", pm{"src": int64(r.n(2)), "prove": 0, "fix": b2i(r.n(4) != 0)}, F("msg.offc", "", 0, j%24, (j/24+r.n(8))%8))
		if i%60 != 0 {
			p.Sess[0].P["lite"] = 1
		}
		return p
	}, rule: "a run counts when a proof carrying a pair off the curve (position and manner vary) or a single pair was checked", real: realAll, stub: stubAll})
	reg(propSpec{id: "C09", quick: 300, full: 2500, classes: "accept-bad wrong-output reject-good", gen: func(r *rng, i int) *Plan {
		if i%2 == 0 {
			return one("pair", pm{"rel": int64((i / 2) % 12)})
		}
		p := &Plan{}
		for k := 0; k < 4; k++ {
			p.Sess = append(p.Sess, SessPlan{Kind: "load"})
		}
		return p
	}, rule: "a run counts when a pairing statement was evaluated or points were loaded", real: realAll, stub: stubAll})
	reg(propSpec{id: "C10", quick: 2000, full: 4000, classes: "accept-bad reject-good", gen: func(r *rng, i int) *Plan {
		return &Plan{Sess: []SessPlan{kycPlan(r, i)}}
	}, rule: "a run counts when a credential (valid, forged, replayed or out of conditions) was evaluated", real: realAll, stub: stubAll})
	reg(propSpec{id: "C11", quick: 500, full: 12000, classes: "accept-bad wrong-output reject-good mutated edge-output offcurve-used died hang differs race", diff: "dig", gen: genC11,
		rule: "a run counts when at least one preemption happened between sessions", real: realAll, stub: stubAll})
	reg(propSpec{id: "C12", quick: 700, full: 16000, classes: "accept-bad wrong-output reject-good mutated edge-output died hang differs", diff: "dig", gen: genC12,
		rule: "a run counts when an abort fired before a later session, or a message was presented again", real: realAll, stub: stubAll})
	reg(propSpec{id: "C13", quick: 20000, full: 40000, classes: "accept-bad wrong-output reject-good mutated died hang race", gen: func(r *rng, i int) *Plan {
		p := &Plan{}
		n := 1 + r.n(4)
		for k := 0; k < n; k++ {
			s := SessPlan{Kind: "hint", Th: k, P: pm{"n": int64(3 + r.n(8))}}
			if i%3 == 0 {
				s.P["op"] = int64(r.n(6))
			}
			p.Sess = append(p.Sess, s)
		}
		p.Sched = schedule(r, n)
		if n > 1 {
			p.Sched.Mean = pick(r, []float64{2, 5, 20, 100})
		}
		return p
	}, rule: "a run counts when advice functions were called, overlapping or not", real: "MsmHint, AddHint, Keccak256Hint, modHint and the text parser of the package, go-ethereum bn256", stub: "the caller (gnark's solver): buffer pool, parallel calls"})
	reg(propSpec{id: "C14", quick: 4800, full: 200000, classes: "fail-open accept-bad", gen: genC14,
		rule: "a run counts when an injected failure fired or a shortened message was delivered", real: realAll, stub: stubAll})
	reg(propSpec{id: "C15", quick: 120, full: 3000, classes: "accept-bad reject-good differs", gen: func(r *rng, i int) *Plan {
		ops := []int64{4, 2, 6, 5, 3, 7, 1, 6, 2, 8, 4, 3, 1, 0, 6, 2}
		s := SessPlan{Kind: "comp", P: pm{"op": ops[i%len(ops)], "plonk": int64((i / len(ops)) % 2)}}
		switch s.P["op"] {
		case 0:
			s.P["direct"] = 0
			s.F = kycPlan(r, i/len(ops)).F
		case 1:
			s.F = hashFaults(r)
			if r.n(3) != 0 {
				s.P["direct"] = 0
			}
		case 2, 3:
			switch r.n(6) {
			case 5:
				s.P["claim"] = 4
				s.F = []Fault{F("adv.consx", "Keccak256Hint", 0, r.n(5), r.n(3)/2)}
			case 0:
				s.F = opLies(r, []string{"Keccak256Hint"}, 1)
			case 1:
				s.P["claim"] = 2
				s.F = []Fault{F("adv.subst", "Keccak256Hint", 0, 0, 0)}
			case 2:
				s.F = []Fault{F("adv.cons", "Keccak256Hint", 0, r.n(5), r.n(256))}
			case 3:
				s.F = []Fault{F(pick(r, vsFailures[:1]), "Keccak256Hint", 0, 0, 0)}
			}
		case 6:
			if r.n(2) == 0 {
				s.F = opLies(r, []string{"modHint"}, 6)
			}
			if r.n(8) == 0 {
				s.F = []Fault{F("adv.err", "modHint", r.n(4), 0, 0)}
			}
		case 8:
			s.P["direct"] = 0
		}
		return &Plan{Sess: []SessPlan{s}}
	}, rule: "a run counts when a compiled system was solved or refused", real: realAll + ", gnark's frontend compilers (PLONK and R1CS) and constraint solver", stub: "commitment randomness (fixed hash), advice oracle in lying runs"})
	reg(propSpec{id: "C16", quick: 100000, full: 2000000, classes: "accept-bad reject-good", gen: func(r *rng, i int) *Plan {
		p := &Plan{}
		for k := 0; k < 10; k++ {
			p.Sess = append(p.Sess, SessPlan{Kind: "range", P: pm{"op": int64(r.n(4))}})
		}
		if i%15 == 7 {
			p.Sess = p.Sess[:1]
			p.Sess[0] = SessPlan{Kind: "comp", P: pm{"op": int64(4 + r.n(2)), "plonk": int64(r.n(2))}}
		}
		return p
	}, rule: "a run evaluates ten operand triples drawn near bounds and field edges", real: realAll, stub: stubAll})
	reg(propSpec{id: "C17", quick: 4000, full: 12000, classes: "accept-bad reject-good mutated", gen: func(r *rng, i int) *Plan {
		s := SessPlan{Kind: "msm", P: pm{"op": int64(i % 6), "times": 1}}
		if r.n(6) == 0 {
			s.P["maxn"] = 9
		}
		if i%6 >= 4 || r.n(3) == 0 {
			s.P["times"] = int64(1 + r.n(3))
		}
		return &Plan{Sess: []SessPlan{s}}
	}, rule: "a run counts when a claimed result, true or false, was put to a circuit", real: realAll, stub: stubAll})
	reg(propSpec{id: "C18", quick: 500, full: 20000, classes: "hang work", gen: genC18,
		rule: "a run counts when a hostile session and an honest session of the same shape both ended", real: realAll, stub: stubAll})
	reg(propSpec{id: "C19", quick: 450, full: 12000, classes: "differs", diff: "req", gen: genC19,
		rule: "a run counts when its sessions issued advice requests that were compared with a fresh process", real: realAll, stub: stubAll})
}

func genC01(r *rng, i int) *Plan {
	p := one("agg", pm{"src": 1})
	p.Sim = true
	s := &p.Sess[0]
	if i%160 != 45 { // a few runs use the real gadgets throughout
		s.P["lite"] = 1
	}
	if i < 21 || i%5 == 4 { // every hint in turn, rebuilt around
		j := i % 21
		if i >= 21 {
			j = r.n(21)
		}
		k := pick(r, []string{"msg.inc", "msg.rnd", "msg.zero", "msg.neg", "msg.bit"})
		s.P["adapt"] = 1
		s.F = []Fault{F(k, "", 2, j, r.n(256))}
		if i >= 21 && r.n(3) == 0 { // two hints at once
			s.F = append(s.F, F(pick(r, msgFaults[:7]), "", 2, r.n(21), r.n(21)))
		}
		return p
	}
	switch i % 15 {
	case 0, 5: // adaptive prover plus a lie somewhere
		s.P["adapt"] = 1
		h := pick(r, []string{"MsmHint", "AddHint", "AddHint"})
		n := nAggMsm
		if h == "AddHint" {
			n = nAggAdd
		}
		s.F = []Fault{F(pick(r, []string{"adv.other", "adv.conspt", "adv.neg", "adv.endo", "adv.in", "adv.dbl", "adv.triv"}), h, r.n(n), r.n(2), r.n(3))}
		if r.n(2) == 0 {
			s.F = append(s.F, evalFault(r))
		}
		s.P["fix"] = 3
	case 1: // the last addition claimed to be what the pairing needs
		s.P["prove"] = 0
		s.F = []Fault{F("adv.force", "AddHint", pick(r, []int{nAggAdd - 1, nAggAdd - 2, r.n(nAggAdd)}), 0, 0)}
	case 2: // other targets, oracle hashes the old ones
		p.Sim = r.n(2) == 0
		s.P["src"] = b2i(p.Sim)
		s.F = []Fault{msgFault(r, 1+2*r.n(2)), F("adv.subst", "Keccak256Hint", 0, 0, 0)}
	case 3: // tampered proof, hints rebuilt
		s.P["fix"] = 1
		s.F = []Fault{evalFault(r)}
	case 6:
		s.P["fix"] = 1
		s.F = []Fault{F(pick(r, []string{"msg.swappt", "msg.negpt", "msg.dblpt", "msg.newpt", "msg.mix", "msg.xy"}), "", 0, r.n(24), r.n(24))}
	case 7: // the real proof, altered or for other targets, hints rebuilt
		p.Sim = false
		s.P["src"], s.P["fix"] = 0, 1
		s.F = []Fault{msgFault(r, pick(r, []int{0, 1, 3}))}
	case 8: // any one word of a valid proof altered, in turn
		s.P["fix"] = int64(r.n(2))
		s.F = []Fault{F(pick(r, []string{"msg.inc", "msg.rnd", "msg.zero", "msg.neg", "msg.bit"}), "", 0, (i/15)%104, r.n(256))}
	case 10: // a valid proof for other targets or another instance, or for more or fewer of them
		s.P["fix"] = int64(r.n(2))
		s.F = []Fault{msgFault(r, 1+2*r.n(2))}
		reshaped(r, s)
	case 11: // several alterations that may cancel out
		s.P["fix"] = int64(1 + 2*r.n(2))
		for k := 2 + r.n(3); k > 0; k-- {
			s.F = append(s.F, evalFault(r))
		}
	case 12: // a rejected or aborted message is presented between valid ones
		good := SessPlan{Kind: "agg", Seed: r.u64() | 1, P: pm{"src": 1, "lite": 1}}
		bad := relative(r, good)
		last := relative(r, good)
		p.Sess = []SessPlan{good, bad, last}
	case 13: // an adaptive prover after some other lie about any request
		s.P["adapt"] = 1
		s.F = []Fault{genLie(r, "", r.n(nAggReq)), msgFault(r, 2)}
	default: // a lie about a field reduction with the message adapted to it
		s.P["adapt"] = 1
		s.F = []Fault{F(pick(r, []string{"adv.rnd", "adv.add", "adv.zero1", "adv.cons"}), "", r.n(nAggReq), 1, r.n(4)), msgFault(r, 2)}
	}
	return p
}

// reshaped: a statement with more or fewer words than the proof was made for,
// or one whose usual number of words is not the usual one.
func reshaped(r *rng, s *SessPlan) {
	if r.n(2) == 0 {
		s.P["nt"] = int64(1 + r.n(8))
	}
	if r.n(4) == 0 {
		s.P["ni"] = int64(1 + r.n(3))
	}
	if r.n(4) != 0 {
		s.F[0] = F(pick(r, []string{"msg.pad", "msg.pad", "msg.trunc"}), "", pick(r, []int{3, 3, 1}), 0, r.n(256))
	}
}

// recycled: some callers keep their objects and write the next message into them.
func recycled(r *rng, p *Plan, pct int) *Plan {
	for i := 1; i < len(p.Sess); i++ {
		s := &p.Sess[i]
		if s.P["reuse"] == 0 && r.n(100) < pct {
			if s.P == nil {
				s.P = pm{}
			}
			s.P["recycle"] = 1
		}
	}
	return p
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func genC02(r *rng, i int) *Plan { return recycled(r, genC02p(r, i), 25) }

func genC02p(r *rng, i int) *Plan {
	p := &Plan{Sim: i%4 != 0 || i%8 == 0 && i > 8}
	honest := SessPlan{Kind: "agg", Seed: r.u64() | 1, P: pm{"src": b2i(p.Sim)}}
	if i >= 4 && i%40 != 8 {
		honest.P["lite"] = 1
	}
	other := func() SessPlan { return lite(r, SessPlan{Kind: "agg", P: pm{"src": b2i(p.Sim)}}, 95) }
	switch i % 8 {
	case 2: // after an aborted verification of another message
		a := other()
		max := 3_000_000
		if a.P["lite"] == 1 {
			max = 60_000
		}
		failure(r, &a, max)
		p.Sess = append(p.Sess, a)
	case 3: // after verifications of a message like it, refused or not
		for k := 1 + r.n(3); k > 0; k-- {
			p.Sess = append(p.Sess, lite(r, relative(r, honest), 100))
		}
	case 4, 5: // after failed or refused sessions of other kinds
		for k := 0; k < 3; k++ {
			l := light(r)
			failure(r, &l, 20000)
			p.Sess = append(p.Sess, l)
		}
	case 6: // next to concurrent sessions
		honest.Th = 1
		for k := 0; k < 3; k++ {
			l := light(r)
			if r.n(3) == 0 {
				failure(r, &l, 20000)
			}
			p.Sess = append(p.Sess, l)
		}
		p.Sched = schedule(r, 2)
		p.Sched.Mean = pick(r, []float64{200, 20000, 300000})
	case 7: // after a message that was rejected
		a := other()
		a.F = []Fault{F("msg.offc", "", 0, r.n(24), r.n(8))}
		p.Sess = append(p.Sess, a)
	case 0: // a prover that completes an altered message
		if i > 8 && p.Sim {
			honest.P["adapt"], honest.P["fix"] = 1, 1
			honest.F = []Fault{evalFault(r)}
		}
	case 1: // again and again
		for k := r.n(4); k > 0; k-- {
			a := other()
			p.Sess = append(p.Sess, a)
		}
	}
	p.Sess = append(p.Sess, honest)
	return p
}

func genC11(r *rng, i int) *Plan { return recycled(r, genC11p(r, i), 20) }

func genC11p(r *rng, i int) *Plan {
	p := &Plan{}
	n := 2 + r.n(3)
	if i%12 == 5 { // whole verifications overlap
		p.Sim = r.n(2) == 0
		n = 2
		lt := b2i(i%300 != 5)
		p.Sess = append(p.Sess, SessPlan{Kind: "agg", Th: 0, Seed: r.u64() | 1, P: pm{"src": b2i(p.Sim), "lite": lt}})
		b := SessPlan{Kind: "agg", Th: 1, P: pm{"src": b2i(p.Sim), "lite": lt}}
		max := 2_000_000
		if lt == 1 {
			max = 60_000
		}
		switch r.n(6) {
		case 0:
			failure(r, &b, max)
		case 1:
			b.F = []Fault{msgFault(r, 2)}
		case 2:
			b.F = []Fault{F("msg.offc", "", 0, r.n(24), r.n(8))}
		case 3, 4:
			b = relative(r, p.Sess[0])
			b.Th = 1
		default:
			b = light(r)
			b.Th = 1
		}
		p.Sess = append(p.Sess, b)
		if r.n(3) == 0 {
			c := relative(r, p.Sess[0])
			c.Th = 2
			n = 3
			p.Sess = append(p.Sess, c)
		}
		p.Sched = schedule(r, n)
		p.Sched.Mean = pick(r, []float64{20, 200, 2000, 20000, 300000})
		return p
	}
	same := r.n(3) != 0
	var first SessPlan
	for t := 0; t < n; t++ {
		for k := 0; k < 1+r.n(2); k++ {
			l := light(r)
			if same && t+k > 0 {
				// sessions of one kind collide most
				if r.n(3) == 0 {
					l = relative(r, first)
				} else {
					l = SessPlan{Kind: first.Kind, P: pm{}}
					for a, b := range first.P {
						l.P[a] = b
					}
					if l.Kind == "hash" {
						l.F = hashFaults(r)
					}
				}
			}
			if l.Seed == 0 {
				l.Seed = r.u64() | 1
			}
			if len(p.Sess) == 0 {
				first = l
			}
			if r.n(6) == 0 {
				failure(r, &l, 20000)
			}
			l.Th = t
			p.Sess = append(p.Sess, l)
		}
	}
	p.Sched = schedule(r, n)
	return p
}

func genC12(r *rng, i int) *Plan { return recycled(r, genC12p(r, i), 25) }

func genC12p(r *rng, i int) *Plan {
	p := &Plan{}
	if i%14 == 5 { // a whole verification aborted, then retried
		p.Sim = r.n(2) == 0
		a := SessPlan{Kind: "agg", Seed: r.u64() | 1, P: pm{"src": b2i(p.Sim)}}
		max := 9_000_000
		if i%350 != 5 {
			a.P["lite"] = 1
			max = 60_000
		}
		b := a
		b.P = pm{"src": a.P["src"], "lite": a.P["lite"], "reuse": 1}
		failure(r, &a, max)
		p.Sess = []SessPlan{a, b}
		return p
	}
	l := func() SessPlan {
		l := light(r)
		if l.Seed == 0 {
			l.Seed = r.u64() | 1
		}
		return l
	}
	if i%3 == 0 {
		// an operation succeeds, fails for a passing reason once or several
		// times, and is then asked for again: the same operation on other
		// operands, on almost the same and on the same objects
		a := l()
		if a.Kind != "ec" && a.Kind != "inst" && r.n(3) != 0 {
			a = lite(r, ecPlan(r, false), 70)
			if r.n(3) == 0 {
				a = SessPlan{Kind: "inst", P: pm{"n": int64(1 + r.n(5)), "lite": 1}}
			}
			a.Seed = r.u64() | 1
		}
		again := func(seed uint64) SessPlan {
			q := SessPlan{Kind: a.Kind, Seed: seed, P: pm{}}
			for k, v := range a.P {
				q.P[k] = v
			}
			return q
		}
		if r.n(2) == 0 {
			p.Sess = append(p.Sess, a)
		}
		for k := 1 + r.n(3); k > 0; k-- {
			f := again(r.u64() | 1)
			if r.n(3) == 0 {
				f.Seed = a.Seed
			}
			f.F = []Fault{F(pick(r, vsFailures), "", r.n(3), r.n(4), 0)}
			switch r.n(6) {
			case 0:
				f.F = []Fault{F(pick(r, []string{"crash", "refuse"}), "", 1+r.n(pick(r, []int{20, 300, 4000})), 0, 0)}
			case 1:
				f.F = []Fault{siteFault(r, &f)}
			}
			f.P["bld"] = int64(r.n(2))
			p.Sess = append(p.Sess, f)
		}
		for k := 1 + r.n(3); k > 0; k-- {
			switch r.n(3) {
			case 0:
				p.Sess = append(p.Sess, again(r.u64()|1))
			case 1:
				p.Sess = append(p.Sess, relative(r, a))
			default:
				q := again(a.Seed)
				q.F = a.F
				p.Sess = append(p.Sess, q)
			}
		}
		return p
	}
	switch i % 28 {
	case 1, 7, 13: // the very first session is lost at some place, then the same again
		a := l()
		if r.n(3) == 0 {
			a = SessPlan{Kind: "agg", Seed: r.u64() | 1, P: pm{"src": int64(r.n(2)), "lite": 1}}
			p.Sim = a.P["src"] == 1
		}
		b := SessPlan{Kind: a.Kind, Seed: a.Seed, P: pm{}}
		for k, v := range a.P {
			b.P[k] = v
		}
		for _, f := range a.F {
			if len(f.K) > 4 && (f.K[:4] == "msg." || f.K[:4] == "dig." || f.K[:4] == "kyc.") {
				b.F = append(b.F, f)
			}
		}
		a.F = append(append([]Fault{}, b.F...), siteFault(r, &a))
		p.Sess = []SessPlan{a, b}
		if r.n(2) == 0 {
			c := relative(r, b)
			if c.Seed == 0 {
				c.Seed = r.u64() | 1
			}
			p.Sess = append(p.Sess, c)
		}
		return p
	case 11, 16: // one failure after another, then an honest session
		a := l()
		how, moving, place := r.n(8)%7, r.n(3) == 0, Fault{}
		if (how == 0 || how >= 4) && r.n(4) != 0 {
			a = ecPlan(r, false)
			if r.n(2) == 0 {
				a.P["op"] = int64(pick(r, []int{opEccMulAdd, opAdd}))
			}
		}
		for a.Kind == "agg" || a.Kind == "kyc" || a.Kind == "hash" || a.Kind == "msm" {
			a = l()
		}
		if a.Kind == "ec" || a.Kind == "inst" || a.Kind == "chal" {
			a.P["lite"] = 1
		}
		f := pick(r, vsFailures)
		lie := genLie(r, pick(r, []string{"*", "AddHint", "AddHint", "MsmHint", "modHint"}), -1)
		for k := pick(r, []int{6, 20, 40, 70}); k > 0; k-- {
			q := SessPlan{Kind: a.Kind, Seed: r.u64() | 1, P: pm{}}
			for k, v := range a.P {
				q.P[k] = v
			}
			switch how {
			case 0:
				if place.K == "" {
					place = siteFault(r, &q)
				}
				q.F = []Fault{place}
				if moving {
					q.F[0] = siteFault(r, &q)
				}
			case 1:
				q.F = []Fault{F(f, "*", -1, 0, 0)}
				q.P["bld"] = 1
			case 2:
				q.F = []Fault{F(f, "", r.n(3), 0, 0)}
				q.P["bld"] = int64(r.n(2))
			case 3:
				failure(r, &q, 400)
			default:
				q.F = []Fault{lie}
			}
			p.Sess = append(p.Sess, q)
		}
		a.F = nil
		p.Sess = append(p.Sess, a)
		return p
	case 25: // the same with the whole verifier
		p.Sim = true
		for k := 5 + r.n(12); k > 0; k-- {
			q := SessPlan{Kind: "agg", Seed: r.u64() | 1, P: pm{"src": 1, "lite": 1}}
			switch r.n(4) {
			case 0, 1:
				q.F = []Fault{siteFault(r, &q)}
			case 2:
				q.F = []Fault{genLie(r, "", r.n(nAggReq))}
			default:
				q.F = []Fault{F(pick(r, vsFailures), "", r.n(nAggReq), 0, 0)}
				q.P["bld"] = int64(r.n(2))
			}
			p.Sess = append(p.Sess, q)
		}
		p.Sess = append(p.Sess, SessPlan{Kind: "agg", Seed: r.u64() | 1, P: pm{"src": 1, "lite": 1}})
		return p
	}
	n := 2 + r.n(4)
	for k := 0; k < n; k++ {
		l := l()
		if k > 0 && r.n(2) == 0 {
			j := r.n(k)
			if r.n(3) == 0 {
				l = relative(r, p.Sess[j])
			} else {
				l = SessPlan{Kind: p.Sess[j].Kind, P: pm{}}
				for a, b := range p.Sess[j].P {
					if a != "reuse" && a != "bld" && a != "recycle" {
						l.P[a] = b
					}
				}
				if r.n(2) == 0 {
					// the very same message again
					l.Seed = p.Sess[j].Seed
					l.P["reuse"] = int64(j + 1)
					for _, f := range p.Sess[j].F {
						if len(f.K) > 4 && (f.K[:4] == "msg." || f.K[:4] == "dig." || f.K[:4] == "kyc.") {
							l.F = append(l.F, f)
						}
					}
				}
			}
		}
		if l.Seed == 0 {
			l.Seed = r.u64() | 1
		}
		if k < n-1 && r.n(2) == 0 {
			failure(r, &l, pick(r, []int{50, 3000, 60000}))
		}
		p.Sess = append(p.Sess, l)
	}
	return p
}

func genC14(r *rng, i int) *Plan {
	f := pick(r, vsFailures)
	bld := int64(r.n(2))
	if i%2 == 0 { // whole verifier, every advice request failing in turn
		j := i / 2
		p := one("agg", pm{"src": b2i(j < nAggReq || r.n(4) != 0), "bld": 1}, F("adv.err", "", j%nAggReq, 0, 0))
		p.Sim = p.Sess[0].P["src"] == 1
		s := &p.Sess[0]
		if i%600 != 200 {
			s.P["lite"] = 1
		}
		if j >= nAggReq {
			s.F[0].K, s.P["bld"] = f, bld
		}
		if p.Sim && (j < nAggReq || r.n(8) != 0) { // the prover makes up for the step that went missing
			s.P["adapt"] = 1
		}
		if j >= nAggReq && r.n(3) == 0 { // a second one, unlike the first
			s.F = append(s.F, genLie(r, "", r.n(nAggReq)))
		}
		return p
	}
	switch (i / 2) % 14 {
	case 0: // shortened message with rebuilt hints
		return lite1(one("agg", pm{"src": int64(r.n(2)), "prove": 0}, msgFault(r, 0), F("msg.trunc", "", r.n(4), 0, r.n(256))))
	case 1, 2: // shortened message
		part := pick(r, []int{0, 0, 1, 2, 3})
		return lite1(one("agg", pm{"src": int64(r.n(2)), "prove": 0}, F("msg.trunc", "", part, 0, r.n(256))))
	case 3, 4, 5:
		s := ecPlan(r, false)
		s.P["bld"] = bld
		s.F = []Fault{F(f, pick(r, []string{"", "MsmHint", "AddHint", "modHint"}), r.n(3), r.n(2), 0)}
		return &Plan{Sess: []SessPlan{s}}
	case 6:
		return one("inst", pm{"n": int64(1 + r.n(5)), "bld": bld}, F(f, "Keccak256Hint", 0, r.n(200), 0))
	case 7:
		return one("fr", pm{"bld": bld, "n": int64(1 + r.n(6))}, F(f, "modHint", r.n(4), r.n(2), 0))
	case 8:
		return lite1(one("chal", pm{"src": int64(r.n(2))}, F("msg.trunc", "", 0, 0, r.n(256))))
	case 9:
		l := light(r)
		l.F = []Fault{F("refuse", "", 1+r.n(pick(r, []int{10, 300, 20000})), 0, 0)}
		return &Plan{Sess: []SessPlan{l}}
	case 10:
		l := light(r)
		if r.n(2) == 0 {
			l.F = []Fault{siteFault(r, &l)}
			return &Plan{Sess: []SessPlan{l}}
		}
		l.F = []Fault{F("crash", "", 1+r.n(pick(r, []int{10, 300, 20000})), 0, 0)}
		return &Plan{Sess: []SessPlan{l}}
	case 11: // answers far out of range
		s := ecPlan(r, false)
		s.F = []Fault{F(pick(r, []string{"adv.addp", "adv.rndall", "adv.zero"}), pick(r, []string{"MsmHint", "AddHint", "modHint"}), -1, r.n(2), 0)}
		return &Plan{Sess: []SessPlan{s}}
	case 12:
		if r.n(2) == 0 { // operands that are no numbers, or are missing
			return one("msm", pm{"op": int64(1 + r.n(3)), "times": 1, "odd": 1})
		}
		return one("hash", nil, F("dig.short", "", r.n(400), 0, 0))
	default:
		s := kycPlan(r, 1+r.n(50))
		s.F = append(s.F, F(pick(r, []string{"refuse", "crash"}), "", 1+r.n(30000), 0, 0))
		return &Plan{Sess: []SessPlan{s}}
	}
}

func lite1(p *Plan) *Plan {
	for i := range p.Sess {
		p.Sess[i].P["lite"] = 1
	}
	return p
}

func genC18(r *rng, i int) *Plan {
	p := &Plan{}
	if i%10 == 7 { // whole verifier, hostile throughout
		p.Sim = true
		a := SessPlan{Kind: "agg", Seed: r.u64() | 1, P: pm{"src": 1, "lite": 2}}
		if i%400 == 7 {
			a.P["lite"] = 0
		}
		switch r.n(5) {
		case 4: // the same lie every time
			a.F = []Fault{genLie(r, "", -1)}
			a.F[0].H = pick(r, []string{"modHint", "MsmHint", "AddHint", "Keccak256Hint", "*"})
		case 0, 1:
			a.F = []Fault{F(pick(r, []string{"adv.rndall", "adv.zero", "adv.addp", "adv.add", "adv.stale"}), pick(r, []string{"modHint", "MsmHint", "AddHint", "*"}), -1, 0, 0)}
		case 2: // the oracle never answers
			a.F = []Fault{F(pick(r, vsFailures), pick(r, []string{"modHint", "MsmHint", "AddHint", "Keccak256Hint", "*"}), -1, 0, 0)}
			a.P["bld"] = 1
		default:
			a.P["prove"] = 0
			a.F = []Fault{F(pick(r, []string{"msg.rnd", "msg.zero", "msg.bit"}), "", 2, r.n(21), r.n(250)), evalFault(r)}
			a.P["fix"] = int64(r.n(2))
		}
		p.Sess = []SessPlan{a, twinOf(a)}
		return p
	}
	var a SessPlan
	if i%10 == 3 { // a long history, in which a session must not get slower
		n := 20 + r.n(40)
		switch r.n(6) {
		case 0:
			a = SessPlan{Kind: "agg", P: pm{"src": 1, "lite": 2}}
			p.Sim = true
			n = 3 + r.n(4)
		case 1:
			a = SessPlan{Kind: "chal", P: pm{"src": int64(r.n(2)), "lite": 2}}
		case 2:
			a = SessPlan{Kind: "inst", P: pm{"n": int64(1 + r.n(5)), "lite": 2}}
		case 3:
			a = SessPlan{Kind: "fr", P: pm{"n": 6}}
		case 4:
			a = SessPlan{Kind: "hint", P: pm{"n": 8}}
		default:
			a = ecPlan(r, false)
			a.P["lite"] = 2
		}
		a.Seed = r.u64() | 1
		p.Sess = append(p.Sess, a)
		ff := pick(r, []int{1, 3, 3, 1 << 30})
		for ; n > 0; n-- {
			q := SessPlan{Kind: a.Kind, Seed: r.u64() | 1, P: pm{}}
			for k, v := range a.P {
				q.P[k] = v
			}
			if r.n(ff) == 0 {
				failure(r, &q, 60000)
			}
			p.Sess = append(p.Sess, q)
		}
		b := a
		b.P = pm{"first": 1}
		for k, v := range a.P {
			b.P[k] = v
		}
		p.Sess = append(p.Sess, b)
		return p
	}
	switch i % 8 {
	case 0, 1:
		a = lite(r, ecPlan(r, true), 50)
	case 2:
		a = lite(r, SessPlan{Kind: "inst", P: pm{"n": int64(1 + r.n(5))}, F: opLies(r, []string{"Keccak256Hint"}, 1)}, 70)
	case 3:
		a = lite(r, SessPlan{Kind: "chal", P: pm{"src": int64(r.n(2))}, F: []Fault{msgFault(r, 0)}}, 80)
	case 4:
		a = SessPlan{Kind: "fr", P: pm{"wrong": 30}, F: opLies(r, []string{"modHint"}, 8)}
	case 5:
		a = SessPlan{Kind: "range"}
	case 6: // the oracle never answers, or never well
		a = pick(r, []SessPlan{lite(r, ecPlan(r, false), 80), {Kind: "inst", P: pm{"n": 5, "lite": 2}}, {Kind: "fr", P: pm{"n": 6}}})
		a.F = []Fault{F(pick(r, append([]string{"adv.rndall", "adv.zero", "adv.addp"}, vsFailures...)), "*", -1, r.n(2), 0)}
		if r.n(2) == 0 {
			a.F = []Fault{genLie(r, "", -1)}
			a.F[0].H = pick(r, []string{"modHint", "MsmHint", "AddHint", "Keccak256Hint", "*"})
		}
		a.P["bld"] = int64(r.n(2))
	default:
		a = SessPlan{Kind: "hint", P: pm{"n": 6}}
	}
	a.Seed = r.u64() | 1
	if a.P["lite"] == 1 {
		a.P["lite"] = 2
	}
	p.Sess = append(p.Sess, a, twinOf(a))
	l := light(r)
	l.Th = r.n(2)
	p.Sess = append(p.Sess, l)
	p.Sched = schedule(r, 2)
	return p
}

// twinOf is the honest session with the same message, second in the plan.
func twinOf(a SessPlan) SessPlan {
	t := SessPlan{Kind: a.Kind, Seed: a.Seed, P: pm{"twin": 1}}
	for k, v := range a.P {
		if k != "prove" && k != "fix" && k != "bld" {
			t.P[k] = v
		}
	}
	return t
}

func genC19(r *rng, i int) *Plan { return recycled(r, genC19p(r, i), 20) }

func genC19p(r *rng, i int) *Plan {
	if i%16 == 3 {
		p := one("agg", pm{"src": int64(r.n(2)), "lite": b2i(i%320 != 3)})
		p.Sim = p.Sess[0].P["src"] == 1
		if r.n(2) == 0 {
			p.Sess[0].F = []Fault{genLie(r, "", r.n(nAggReq))}
		}
		return p
	}
	p := genC11(r, pick(r, []int{1, 1, 6}))
	if i%2 == 0 {
		p = genC12(r, pick(r, []int{0, 1, 3}))
	}
	for k := range p.Sess {
		if p.Sess[k].Kind == "range" || p.Sess[k].Kind == "curve" || p.Sess[k].Kind == "load" {
			p.Sess[k].Kind = "chal"
			p.Sess[k].P = pm{"lite": 1}
			p.Sess[k].F = nil
		}
		if r.n(3) == 0 && p.Sess[k].Kind != "hint" {
			p.Sess[k].F = append(p.Sess[k].F, opLies(r, []string{"*"}, 3)...)
		}
	}
	return p
}

func specOf(id string) *propSpec {
	s := vsSpecs[id]
	if s == nil {
		panic(fmt.Sprintf("no such property %q", id))
	}
	return s
}
