package main

// A plan is the complete description of one simulated run: the sessions with
// their messages, the faults that strike them, and the schedule. A plan is a
// pure function of a seed; executing a plan is a pure function of the plan.

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/big"
	"runtime/debug"
	"sort"
	"strings"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark-crypto/ecc/bn254/fr"
)

type Fault struct {
	K string `json:"k"`
	H string `json:"h,omitempty"` // advice function the fault is aimed at
	A int64  `json:"a"`
	B int64  `json:"b,omitempty"`
	C int64  `json:"c,omitempty"`
}

type SessPlan struct {
	Kind string           `json:"kind"`
	Th   int              `json:"th"`
	Seed uint64           `json:"seed"`
	P    map[string]int64 `json:"p,omitempty"`
	F    []Fault          `json:"f,omitempty"`
}

type Plan struct {
	Prop  string      `json:"prop"`
	Seed  uint64      `json:"seed"`
	Sim   bool        `json:"sim,omitempty"` // simulated prover: the setup secret is known
	Tau   uint64      `json:"tau,omitempty"`
	Clock uint64      `json:"clock,omitempty"`
	Sess  []SessPlan  `json:"sess"`
	Sched vsSchedPlan `json:"sched"`
}

// vsSetClock: sessions alone see a steady clock, others a fast or slow one that
// may be set while they run.
func vsSetClock(p *Plan) {
	vsClockSkew, vsClockStep, vsClockJump = 0, time.Microsecond, 0
	if p.Clock == 0 {
		return
	}
	r := newRng(p.Clock)
	vsClockSkew = time.Duration(r.n(1<<40)) * time.Microsecond
	vsClockStep = pick(r, []time.Duration{0, 1, time.Microsecond, time.Millisecond, time.Second})
	vsClockJump = pick(r, []time.Duration{0, time.Second, time.Minute, 90 * time.Minute, -2 * time.Hour, 40 * 24 * time.Hour})
	vsClockJumpAt = int64(r.n(pick(r, []int{10, 300, 3000, 30000, 1_000_000})))
}

func (p *Plan) clone() *Plan {
	b, _ := json.Marshal(p)
	q := &Plan{}
	if err := json.Unmarshal(b, q); err != nil {
		panic(err)
	}
	return q
}

type viol struct {
	Sess  int    `json:"sess"`
	Class string `json:"class"`
	What  string `json:"what"`
}

type sessResult struct {
	Kind    string   `json:"kind"`
	Verdict string   `json:"verdict"`
	Why     string   `json:"why,omitempty"`
	Dig     uint64   `json:"dig"`    // verdict class and results
	ReqDig  uint64   `json:"reqdig"` // requests to the advice oracle
	NReq    int      `json:"nreq"`
	Calls   uint64   `json:"calls"`
	Fired   []string `json:"fired,omitempty"`
	Faulty  bool     `json:"faulty,omitempty"`
	Undec   bool     `json:"undec,omitempty"`
	Work    int64    `json:"work,omitempty"`
}

type runRes struct {
	Viol     []viol       `json:"viol,omitempty"`
	Sess     []sessResult `json:"sess"`
	Dig      uint64       `json:"dig"`
	Trace    uint64       `json:"trace"`
	NSw      int          `json:"nsw"`
	Yields   int64        `json:"yields"`
	Taken    []vsSwitch   `json:"taken,omitempty"`
	Harness  string       `json:"harness,omitempty"` // trouble in the harness itself
	SRSFired int          `json:"srs,omitempty"`
	SRSFake  int          `json:"srsfake,omitempty"`
}

type runCtx struct {
	plan   *Plan
	tau    fr.Element
	objs   []map[string]any // per session: objects presented to the code, for reuse
	out    []*sess
	res    *runRes
	pool   *hintPool
	handed map[*big.Int]bool // fresh objects that advice functions gave as results
}

type sess struct {
	run *runCtx
	idx int
	p   *SessPlan
	r   *rng

	api     *simAPI
	out     vsOutcome
	haveOut bool
	dig     uint64
	reqDig  uint64
	nReq    int
	calls   uint64
	liteOps int
	fired   []string
	failing bool // an injected failure (not a lie) struck
	lied    bool
	viol    []viol
	undec   bool
	work    int64
	prevAns map[string][][]*big.Int
	altBits map[string]*big.Int // other integers for numbers the oracle takes apart
	subst   map[string]*big.Int
	force   [2]*big.Int
	recReqs bool
	onReq   func(*vsAdviceReq)
	reqs    []vsAdviceReq
	snap    []snapEntry
}

type snapEntry struct {
	name string
	p    *big.Int
	was  *big.Int
}

var vsKinds = map[string]func(s *sess){}

func (s *sess) P(name string, def int64) int64 {
	if v, ok := s.p.P[name]; ok {
		return v
	}
	return def
}

func (s *sess) bad(class, format string, a ...any) {
	s.viol = append(s.viol, viol{s.idx, class, vsShort(fmt.Sprintf(format, a...))})
}

func (s *sess) fire(k string) { s.fired = append(s.fired, k) }

func (s *sess) mixStr(x string) { s.dig = vsMixS(s.dig, x) }
func (s *sess) mixBig(xs ...*big.Int) {
	for _, x := range xs {
		if x == nil {
			s.mixStr("nil")
		} else {
			s.mixStr(x.Text(16))
		}
	}
}

// watch records the value of a message word so that later modification of the
// caller's object is noticed.
func (s *sess) watch(name string, xs ...*big.Int) {
	for i, x := range xs {
		if x != nil {
			s.snap = append(s.snap, snapEntry{fmt.Sprintf("%s[%d]", name, i), x, new(big.Int).Set(x)})
		}
	}
}

func (s *sess) checkWatch() {
	for _, e := range s.snap {
		if e.p.Cmp(e.was) != 0 {
			s.bad("mutated", "%s of the caller's message changed from %s to %s", e.name, e.was, e.p)
			return
		}
	}
}

// note records the outcome of a piece of the session.
func (s *sess) note(o vsOutcome) vsOutcome {
	s.out = o
	s.haveOut = true
	s.mixStr(o.V.String())
	return o
}

// solve runs f under the simulated backend with the faults of the plan.
func (s *sess) begin() *simAPI {
	api := newSimAPI()
	api.lite = s.P("lite", 0) != 0
	if s.P("lite", 0) == 1 { // 2: never the gadgets, so that work can be compared
		api.liteRng = newRng(vsMixS(s.p.Seed, "lite"))
	}
	api.budget, api.maxReq = s.bounds()
	s.api = api
	s.arm(api)
	return api
}

// bounds on the work of one session: several times what the honest session of
// its kind needs, whatever its message.
func (s *sess) bounds() (steps uint64, reqs int) {
	switch {
	case s.p.Kind == "agg" && s.P("lite", 0) == 0:
		return vsDefaultBudget, 20_000
	case s.p.Kind == "agg":
		return 30_000_000, 20_000
	case s.P("exp", 0) > 0:
		return 60_000_000, 20_000
	}
	return 20_000_000, 5_000
}

func (s *sess) end() {
	if s.api == nil {
		return
	}
	s.calls += s.api.calls
	s.liteOps += s.api.liteOps
	if s.api.crashed {
		s.failing = true
	}
	if (s.api.crashAt != 0 || s.api.siteAt != 0 && !s.api.siteRef) && s.api.crashed {
		s.fire("crash")
	} else if s.api.crashed {
		s.fire("refuse")
	}
	s.reqs = append(s.reqs, s.api.reqs...)
	for _, q := range s.api.reqs {
		s.nReq++
		s.reqDig = vsMixS(s.reqDig, q.Name)
		for _, x := range q.In {
			s.reqDig = vsMixS(s.reqDig, x.Text(16))
		}
		for _, x := range q.Out {
			s.reqDig = vsMixS(s.reqDig, x.Text(16))
		}
	}
	s.api = nil
}

// safety reports classes that hold for every session whatever its kind.
func (s *sess) common() {
	if s.haveOut {
		if s.out.V == vHangV {
			s.bad("hang", "session of kind %s used up its work budget", s.p.Kind)
		}
		if s.failing && s.out.V == vAccept {
			s.bad("fail-open", "session of kind %s accepted although %s was injected", s.p.Kind, strings.Join(s.fired, ","))
		}
	}
	s.checkWatch()
}

func (s *sess) exec() {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(vsKilled); ok {
				panic(r)
			}
			s.end()
			if s.run.res.Harness == "" {
				s.run.res.Harness = fmt.Sprintf("session %d (%s): %v\n%s", s.idx, s.p.Kind, r, debug.Stack())
			}
		}
	}()
	f := vsKinds[s.p.Kind]
	if f == nil {
		panic("unknown session kind " + s.p.Kind)
	}
	start := vsPos()
	f(s)
	s.work = vsPos() - start
	s.end()
	s.common()
}

var vsTauCache = map[uint64]fr.Element{}

func tauOf(seed uint64) fr.Element {
	if t, ok := vsTauCache[seed]; ok {
		return t
	}
	var t fr.Element
	t.SetBigInt(newRng(vsMixS(seed, "tau")).big(vsR))
	vsTauCache[seed] = t
	return t
}

func (rc *runCtx) g2() *bn254.G2Affine {
	if rc.plan.Sim {
		return &vsSRSFake
	}
	return &refG2Tau
}

// execPlan runs one plan to completion.
func execPlan(p *Plan) *runRes {
	rc := &runCtx{plan: p, res: &runRes{}, objs: make([]map[string]any, len(p.Sess))}
	vsSRSOn, vsSRSFired = false, 0
	if p.Sim {
		rc.tau = tauOf(p.Tau)
		_, _, _, g := bn254.Generators()
		vsSRSFake.ScalarMultiplication(&g, rc.tau.BigInt(new(big.Int)))
		vsSRSReal = refG2Tau
		vsSRSOn = true
	}
	nth := 0
	for i := range p.Sess {
		if p.Sess[i].Th >= nth {
			nth = p.Sess[i].Th + 1
		}
	}
	per := make([][]*sess, nth)
	for i := range p.Sess {
		sp := &p.Sess[i]
		s := &sess{run: rc, idx: i, p: sp, r: newRng(sp.Seed), dig: 1, reqDig: 1, prevAns: map[string][][]*big.Int{}}
		rc.out = append(rc.out, s)
		per[sp.Th] = append(per[sp.Th], s)
	}
	var bodies []func()
	for t := range per {
		ss := per[t]
		bodies = append(bodies, func() {
			for _, s := range ss {
				s.exec()
			}
		})
	}
	vsRandReset(p.Seed)
	vsOrderSeed, vsOrderN = p.Seed, 0
	vsSetClock(p)
	sc := vsRunThreads(bodies, p.Sched)
	vsSRSOn = false
	res := rc.res
	res.Trace, res.NSw, res.Yields, res.Taken = sc.trace, sc.nsw, sc.yields, sc.taken
	res.SRSFired = vsSRSFired
	if sc.fatal != "" && res.Harness == "" {
		res.Harness = sc.fatal
	}
	if sc.race != "" {
		res.Viol = append(res.Viol, viol{-1, "race", sc.race})
	}
	if sc.deadlock {
		res.Viol = append(res.Viol, viol{-1, "hang", "sessions wait for each other forever"})
	}
	for _, s := range rc.out {
		// the same session again, after whatever happened in between
		if t := s.P("first", 0) - 1; t >= 0 && t < int64(len(rc.out)) && rc.out[t].p.Kind == s.p.Kind && s.haveOut {
			if w := rc.out[t].work; 2*s.work > 3*w+6000 {
				s.bad("work", "session %d of kind %s took %d steps, the same session at the start of the process %d", s.idx, s.p.Kind, s.work, w)
			}
		}
		// a hostile session against the honest session of the same shape
		if t := s.P("twin", 0) - 1; t >= 0 && t < int64(len(rc.out)) && rc.out[t].p.Kind == s.p.Kind {
			if w := rc.out[t].work; w > 3*s.work+300_000 {
				rc.out[t].bad("work", "session of kind %s took %d steps, the honest session of the same shape %d", s.p.Kind, w, s.work)
			}
		}
	}
	h := fnv.New64a()
	for _, s := range rc.out {
		v := "none"
		if s.haveOut {
			v = s.out.V.String()
		}
		sort.Strings(s.fired)
		sr := sessResult{s.p.Kind, v, s.out.Why, s.dig, s.reqDig, s.nReq, s.calls, s.fired, s.lied || s.failing, s.undec, s.work}
		res.Sess = append(res.Sess, sr)
		if !s.undec {
			res.Viol = append(res.Viol, s.viol...)
		}
		fmt.Fprintf(h, "%+v|", sr)
	}
	fmt.Fprintf(h, "%v|%x|%d", res.Viol, res.Trace, res.Yields)
	res.Dig = h.Sum64()
	return res
}
