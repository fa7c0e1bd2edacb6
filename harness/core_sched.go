package main

// The scheduler: every session runs on a simulated thread; exactly one runs at
// any time, and control moves only at yield points (statements of the package
// under test, backend operations, simulated locks). One seed decides every
// preemption; the preemptions of a run are recorded and can be replayed and
// minimised.

import (
	"fmt"
	"hash/fnv"
	"io"
	"math"
	mrand "math/rand"
	mrand2 "math/rand/v2"
	"runtime"
	"time"

	"github.com/consensys/gnark-crypto/ecc/bn254"
	"github.com/consensys/gnark/std/algebra/emulated/sw_bn254"
)

func vsLn(x float64) float64 { return math.Log(x) }

const vsSiteAPI = -1

// no thread of a run comes near this many yield points unless it loops forever
const vsYieldBudget = 1_500_000_000

type vsKilled struct{}

type vsSwitch struct {
	T  int   `json:"t"`  // thread that is preempted
	At int64 `json:"at"` // its yield count at that moment
	To int   `json:"to"` // thread that runs next
}

type vsSchedPlan struct {
	Mode     string     `json:"mode"` // "gen" draws preemptions from Seed, "list" uses Switches
	Seed     uint64     `json:"seed"`
	Mean     float64    `json:"mean"`            // mean distance between preemptions, in yields
	HotPct   int        `json:"hot_pct"`         // chance of preemption where shared state is touched
	Starve   int        `json:"starve"`          // thread that is stalled for as long as possible, -1 none
	First    int        `json:"first,omitempty"` // chance of a stall where shared state is touched for the first time in a run
	Stall    int        `json:"stall,omitempty"` // how many times a thread stalled there is passed over
	Switches []vsSwitch `json:"switches"`
}

type simThread struct {
	id      int
	wake    chan struct{}
	f       func()
	done    bool
	killed  bool
	blocked func() bool // nil: runnable
	pos     int64
	alloc   int64
	list    []vsSwitch
	child   bool
	vc      vsVC
}

type vsScheduler struct {
	plan     vsSchedPlan
	r        *rng
	th       []*simThread
	cur      *simThread
	back     chan struct{}
	taken    []vsSwitch
	trace    uint64 // hash of the switch sequence
	nsw      int
	yields   int64
	deadlock bool
	fatal    string
	maxSw    int
	seed     uint64
	race     string
	stalled  int // thread passed over, -1 none
	passes   int
	mapLog   map[uintptr]*vsMapLog
}

var (
	vsS     *vsScheduler
	vsLeft  int64 = 1 << 62
	vsHotOn bool
	vsSeen  = map[int]bool{} // places near shared state that this run has been at
)

func vsY(site int) {
	vsLeft--
	if vsLeft < 0 {
		vsSlow(site, false)
	}
}

func vsYH(site int) {
	vsLeft--
	if vsLeft >= 0 && vsHotOn && !vsSeen[site] && vsFirst(site) {
		return
	}
	if vsLeft < 0 || vsHotOn {
		vsSlow(site, true)
	}
}

// vsYW marks a statement of a function that touches shared state elsewhere.
func vsYW(site int) {
	vsLeft--
	if vsLeft < 0 {
		vsSlow(site, false)
	} else if vsHotOn && !vsSeen[site] {
		vsFirst(site)
	}
}

// vsFirst stalls the running thread at a place no thread has been at before:
// this is where things are set up once for everybody.
func vsFirst(site int) bool {
	s := vsS
	vsSeen[site] = true
	if s == nil || s.cur == nil || s.plan.Mode != "gen" || s.plan.First == 0 || s.nsw >= s.maxSw || s.stalled >= 0 || s.r.n(100) >= s.plan.First {
		return false
	}
	t := s.cur
	t.settle()
	to := s.choose(t)
	if to < 0 || to == t.id {
		return false
	}
	s.arm(t)
	s.stalled, s.passes = t.id, s.plan.Stall
	s.note(t, site, to)
	s.switchTo(t, s.th[to])
	return true
}

func (t *simThread) settle() {
	t.pos += t.alloc - vsLeft
	t.alloc = vsLeft
}

func vsSlow(site int, hot bool) {
	s := vsS
	if s == nil || s.cur == nil {
		vsLeft = 1 << 62
		return
	}
	t := s.cur
	t.settle()
	if t.pos > vsYieldBudget {
		vsLeft = 1 << 62
		t.alloc = vsLeft
		panic(vsHang{})
	}
	fire := vsLeft < 0
	if !fire && hot && s.plan.Mode == "gen" && s.nsw < s.maxSw && s.r.n(100) < s.plan.HotPct {
		fire = true
	}
	if !fire {
		return
	}
	if s.plan.Mode == "list" {
		to := -1
		for len(t.list) > 0 && t.list[0].At <= t.pos {
			if t.list[0].At == t.pos {
				to = t.list[0].To
			}
			t.list = t.list[1:]
		}
		s.arm(t)
		if to >= 0 && to < len(s.th) && to != t.id && s.runnable(s.th[to]) {
			s.note(t, site, to)
			s.switchTo(t, s.th[to])
		}
		return
	}
	s.arm(t)
	if s.nsw >= s.maxSw {
		return
	}
	to := s.choose(t)
	if to < 0 || to == t.id {
		return
	}
	s.note(t, site, to)
	s.switchTo(t, s.th[to])
}

func (s *vsScheduler) note(t *simThread, site, to int) {
	s.nsw++
	s.taken = append(s.taken, vsSwitch{t.id, t.pos, to})
	s.trace = vsMix(s.trace, uint64(site+2)<<16|uint64(t.id)<<8|uint64(to))
}

// arm sets the countdown of t to its next event.
func (s *vsScheduler) arm(t *simThread) {
	var d int64 = 1 << 60
	if s.plan.Mode == "list" {
		if len(t.list) > 0 {
			d = t.list[0].At - t.pos
		}
	} else if s.plan.Mean > 0 && s.live() > 1 {
		d = s.r.geo(s.plan.Mean)
	}
	if left := vsYieldBudget - t.pos + 2; d > left && left > 0 {
		d = left
	}
	// the countdown fires when it goes negative, i.e. after d decrements
	t.alloc = d - 1
	vsLeft = d - 1
}

func (s *vsScheduler) live() (n int) {
	for _, t := range s.th {
		if !t.done {
			n++
		}
	}
	return
}

func (s *vsScheduler) runnable(t *simThread) bool {
	return !t.done && (t.blocked == nil || t.blocked())
}

func (s *vsScheduler) choose(t *simThread) int {
	var c []int
	if s.stalled >= 0 {
		if s.passes--; s.passes <= 0 || s.th[s.stalled].done {
			s.stalled = -1
		}
	}
	for _, x := range s.th {
		if x != t && s.runnable(x) && x.id != s.plan.Starve && x.id != s.stalled {
			c = append(c, x.id)
		}
	}
	if len(c) == 0 {
		if t.id == s.plan.Starve || t.done || t.blocked != nil {
			s.stalled = -1
			for _, x := range s.th {
				if x != t && s.runnable(x) {
					return x.id
				}
			}
		}
		return -1
	}
	return c[s.r.n(len(c))]
}

// next is the default choice when the running thread ends or blocks.
func (s *vsScheduler) next(t *simThread) *simThread {
	n := len(s.th)
	var late *simThread
	for i := 1; i <= n; i++ {
		x := s.th[(t.id+i)%n]
		if s.runnable(x) {
			if x.id == s.stalled {
				late = x
				continue
			}
			return x
		}
	}
	s.stalled = -1
	return late
}

func (s *vsScheduler) switchTo(from, to *simThread) {
	from.alloc = vsLeft
	s.cur = to
	vsLeft = to.alloc
	to.wake <- struct{}{}
	<-from.wake
	if from.killed {
		panic(vsKilled{})
	}
}

// vsBlock parks the running thread until cond holds.
func vsBlock(cond func() bool) {
	s := vsS
	t := s.cur
	for !cond() {
		t.settle()
		t.blocked = cond
		x := s.next(t)
		if x == nil {
			s.deadlock = true
			t.blocked = nil
			panic(vsHang{})
		}
		if x == t {
			t.blocked = nil
			return
		}
		s.trace = vsMix(s.trace, uint64(t.id)<<8|uint64(x.id)|1<<40)
		s.switchTo(t, x)
		t.blocked = nil
	}
}

func (s *vsScheduler) spawn(f func(), child bool) *simThread {
	t := &simThread{id: len(s.th), wake: make(chan struct{}), f: f, child: child}
	for _, sw := range s.plan.Switches {
		if s.plan.Mode == "list" && sw.T == t.id {
			t.list = append(t.list, sw)
		}
	}
	s.th = append(s.th, t)
	if child && s.cur != nil {
		t.vc = s.cur.vc.clone()
		s.cur.vc.tick(s.cur.id)
	}
	t.vc.tick(t.id)
	var d int64 = 1 << 60
	if s.plan.Mode == "list" {
		if len(t.list) > 0 {
			d = t.list[0].At
		}
	} else if s.plan.Mean > 0 {
		d = s.r.geo(s.plan.Mean)
	}
	if d > vsYieldBudget {
		d = vsYieldBudget
	}
	t.alloc = d - 1
	go func() {
		<-t.wake
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(vsKilled); !ok && s.fatal == "" {
					buf := make([]byte, 4096)
					s.fatal = fmt.Sprintf("thread %d died: %v\n%s", t.id, r, buf[:runtime.Stack(buf, false)])
				}
			}
			t.settle()
			t.done = true
			s.yields += t.pos
			x := s.next(t)
			if x == nil {
				for _, y := range s.th {
					if !y.done {
						s.deadlock = true
						y.killed = true
						x = y
						break
					}
				}
			}
			if x == nil {
				s.cur = nil
				s.back <- struct{}{}
				return
			}
			s.cur = x
			vsLeft = x.alloc
			x.wake <- struct{}{}
		}()
		if !t.killed {
			t.f()
		}
	}()
	return t
}

// vsRunThreads runs the thread bodies to completion under plan.
func vsRunThreads(bodies []func(), plan vsSchedPlan) *vsScheduler {
	if vsForeignGo {
		// goroutines that are not simulated threads: one session after the other
		plan.Mode, plan.Mean, plan.HotPct, plan.First = "gen", 0, 0, 0
	}
	vsSeen = map[int]bool{}
	s := &vsScheduler{plan: plan, r: newRng(plan.Seed), back: make(chan struct{}), maxSw: 4000, stalled: -1}
	for _, f := range bodies {
		s.spawn(f, false)
	}
	if len(s.th) == 0 {
		return s
	}
	vsS = s
	vsHotOn = plan.Mode == "gen" && (plan.HotPct > 0 || plan.First > 0) && len(bodies) > 1
	s.cur = s.th[0]
	vsLeft = s.cur.alloc
	s.cur.wake <- struct{}{}
	<-s.back
	vsS = nil
	vsHotOn = false
	vsLeft = 1 << 62
	return s
}

// vsGo replaces the go statement of the package under test.
func vsGo(f func()) {
	if s := vsS; s != nil && s.cur != nil {
		s.spawn(f, true)
		vsY(vsSiteAPI)
		return
	}
	go f()
}

// ---------------------------------------------------- simulated clock, randomness

var (
	vsClockSkew    time.Duration
	vsClockStep    = time.Microsecond // time that passes per step
	vsClockJump    time.Duration      // the clock is set once, at step vsClockJumpAt
	vsClockJumpAt  int64
	vsRandSrc      = mrand.New(mrand.NewSource(1))
	vsRandSrc2     = mrand2.New(mrand2.NewPCG(1, 2))
	vsCryptoReader = io.Reader(vsRandReader{})
)

func vsNow() time.Time {
	var y int64
	if vsS != nil && vsS.cur != nil {
		y = vsS.cur.pos
	}
	t := time.Unix(1700000000, 0).Add(time.Duration(y)*vsClockStep + vsClockSkew)
	if vsClockJump != 0 && y >= vsClockJumpAt {
		t = t.Add(vsClockJump)
	}
	return t
}
func vsSince(t time.Time) time.Duration { return vsNow().Sub(t) }
func vsSleep(d time.Duration)           { vsY(vsSiteAPI) }
func vsRandG() *mrand.Rand              { return vsRandSrc }
func vsRandG2() *mrand2.Rand            { return vsRandSrc2 }
func vsGosched()                        { vsY(vsSiteAPI) }

// vsPos is the number of steps the running simulated thread has made.
func vsPos() int64 {
	if vsS == nil || vsS.cur == nil {
		return 0
	}
	vsS.cur.settle()
	return vsS.cur.pos
}

// vsPaused runs f outside of the simulation's accounting.
func vsPaused(f func()) {
	s, l := vsS, vsLeft
	vsS, vsLeft = nil, 1<<62
	defer func() { vsS, vsLeft = s, l }()
	f()
}

func vsRandReset(seed uint64) {
	vsRandSrc = mrand.New(mrand.NewSource(int64(seed)))
	vsRandSrc2 = mrand2.New(mrand2.NewPCG(seed, 2))
}

type vsRandReader struct{}

func (vsRandReader) Read(p []byte) (int, error) { return vsRandSrc.Read(p) }

func vsHashStr(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// ---------------------------------------------------- structured reference string seam

// In simulated-prover runs the setup's secret point is replaced by one whose
// secret the simulated prover knows; everything else is untouched.
var (
	vsSRSOn    bool
	vsSRSReal  bn254.G2Affine
	vsSRSFake  bn254.G2Affine
	vsSRSFired int
)

func vsNewG2Affine(p bn254.G2Affine) sw_bn254.G2Affine {
	if vsSRSOn && p.Equal(&vsSRSReal) {
		vsSRSFired++
		p = vsSRSFake
	}
	return sw_bn254.NewG2Affine(p)
}
