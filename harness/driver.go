package main

// The driver: spreads the runs of a check over worker processes, confirms
// suspicions in fresh processes, minimises, writes replay files and evidence.

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/consensys/gnark/logger"
)

func TestMain(m *testing.M) {
	log.SetOutput(io.Discard)
	logger.Disable()
	code := 0
	switch os.Getenv("VS_MODE") {
	case "worker":
		workerMain()
	case "check":
		code = checkMain(os.Getenv("VS_PROP"), os.Getenv("VS_TIER"))
	case "replay":
		code = replayMain(os.Getenv("VS_FILE"))
	case "run":
		code = runMain()
	case "grid":
		for g := 0; g < 33*33; g++ {
			for op := opMsm; op < opMsm+4; op++ {
				p := seedPlan(one("ec", pm{"grid": int64(g + 1), "op": int64(opMsm), "n": 1, "rel": 0}), "C03", uint64(g), newRng(uint64(g*10+op)))
				if res := execPlan(p); len(res.Viol) > 0 {
					fmt.Println(g%33-16, g/33-16, op, res.Viol[0].Class, res.Sess[0].Why, res.Viol[0].What)
				}
			}
		}
	case "det":
		code = detMain()
	default:
		fmt.Fprintln(os.Stderr, "set VS_MODE")
		code = 3
	}
	os.Exit(code)
}

type wReq struct {
	Plan *Plan `json:"plan"`
}

func workerMain() {
	out := os.NewFile(3, "results")
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	w := bufio.NewWriter(out)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var q wReq
		if json.Unmarshal(line, &q) != nil || q.Plan == nil {
			return
		}
		res := execPlan(q.Plan)
		b, err := json.Marshal(res)
		if err != nil {
			panic(err)
		}
		w.Write(b)
		w.WriteByte('\n')
		w.Flush()
	}
}

// how many runs a worker process lives: what goes wrong only at the start of a
// process and what goes wrong only after a long history are both looked for
var vsLives = []int{1, 1, 1, 4, 1, 1, 6, 1, 25, 1, 1, 2, 400}

type worker struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	pipe *os.File
	errb *tailBuf
	mu   sync.Mutex
	hist []*Plan
	n    int
}

// history is everything the worker was given, up to and including upto.
func (w *worker) history(upto *Plan) []*Plan {
	w.mu.Lock()
	defer w.mu.Unlock()
	h := append([]*Plan{}, w.hist...)
	for i := range h {
		if h[i] == upto {
			return h[:i+1]
		}
	}
	return h
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	t.b = append(t.b, p...)
	if len(t.b) > 1<<14 {
		t.b = append([]byte{}, t.b[:2048]...)
	}
	t.mu.Unlock()
	return len(p), nil
}

func startWorker() *worker {
	w := &worker{errb: &tailBuf{}}
	w.cmd = exec.Command(os.Args[0])
	w.cmd.Env = append(os.Environ(), "VS_MODE=worker", "GOMAXPROCS=1", "GOGC=300", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=single")
	w.cmd.Stderr = w.errb
	r, pw, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	w.cmd.ExtraFiles = []*os.File{pw}
	w.in, err = w.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	if err := w.cmd.Start(); err != nil {
		panic(err)
	}
	pw.Close()
	w.pipe = r
	w.out = bufio.NewReaderSize(r, 1<<20)
	return w
}

func (w *worker) stop() {
	w.in.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.pipe.Close()
}

// run executes one plan; how is "" or "died" or "timeout".
func (w *worker) run(p *Plan, limit time.Duration) (res *runRes, how string) {
	b, _ := json.Marshal(wReq{p})
	w.mu.Lock()
	w.hist = append(w.hist, p)
	w.mu.Unlock()
	w.n++
	ch := make(chan []byte, 1)
	go func() {
		w.in.Write(append(b, '\n'))
		line, err := w.out.ReadBytes('\n')
		if err != nil {
			line = nil
		}
		ch <- line
	}()
	select {
	case line := <-ch:
		if line == nil {
			return nil, "died"
		}
		res = &runRes{}
		if json.Unmarshal(line, res) != nil {
			return nil, "died"
		}
		return res, ""
	case <-time.After(limit):
		return nil, "timeout"
	}
}

// runFresh executes plans one after another in a new process and returns the
// result of the last one.
func runFresh(limit time.Duration, plans ...*Plan) (*runRes, string, string) {
	w := startWorker()
	defer w.stop()
	var res *runRes
	for i, p := range plans {
		var how string
		res, how = w.run(p, limit)
		if how != "" {
			w.stop()
			tail := ""
			if i == len(plans)-1 {
				tail = firstLine(string(w.errb.b))
			}
			return nil, how, tail
		}
	}
	return res, "", ""
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if l = strings.TrimSpace(l); l != "" {
			return vsShort(l)
		}
	}
	return ""
}

// ------------------------------------------------------------- judging

func counts(spec *propSpec, class string) bool {
	for _, c := range strings.Fields(spec.classes) {
		if c == class {
			return true
		}
	}
	return false
}

// judge returns the violations of a run that count against the property.
func judge(spec *propSpec, p *Plan, res *runRes, how string) (vs []viol) {
	switch how {
	case "died":
		if counts(spec, "died") {
			return []viol{{-1, "died", "the process died"}}
		}
		return nil
	case "timeout":
		if counts(spec, "hang") {
			return []viol{{-1, "hang", "the run did not end within the time limit"}}
		}
		return nil
	}
	for _, v := range res.Viol {
		if counts(spec, v.Class) && !isKnown(spec.id, v) {
			vs = append(vs, v)
		}
	}
	return
}

// solo is the plan of one session of p alone, in its own process.
func solo(p *Plan, i int) *Plan {
	s := p.Sess[i]
	s.Th = 0
	q := &Plan{Prop: p.Prop, Seed: p.Seed ^ 0x5a5a5a5a + uint64(i), Sim: p.Sim, Tau: p.Tau, Sched: vsSchedPlan{Mode: "list", Starve: -1}}
	s.P = pm{}
	for k, v := range p.Sess[i].P {
		if k != "reuse" && k != "twin" && k != "first" {
			s.P[k] = v
		}
	}
	q.Sess = []SessPlan{s}
	return q
}

func differs(spec *propSpec, p *Plan, i int, a, b *sessResult) string {
	if a.Undec || b.Undec {
		return ""
	}
	if a.Verdict != b.Verdict {
		return fmt.Sprintf("session %d (%s) ended in %s (%s), alone in a fresh process in %s (%s)", i, a.Kind, a.Verdict, a.Why, b.Verdict, b.Why)
	}
	if a.Dig != b.Dig {
		return fmt.Sprintf("session %d (%s) produced other results than alone in a fresh process", i, a.Kind)
	}
	if spec.diff == "req" && (a.ReqDig != b.ReqDig || a.NReq != b.NReq) {
		return fmt.Sprintf("session %d (%s) made other requests to the advice oracle (%d) than in a fresh process (%d)", i, a.Kind, a.NReq, b.NReq)
	}
	return ""
}

func wantSolo(spec *propSpec, p *Plan, i int, r *sessResult) bool {
	if spec.diff == "" || r.Verdict == "none" || r.Kind == "nop" {
		return false
	}
	if r.Kind == "agg" && spec.diff == "dig" && !r.Faulty {
		return false // the reference model already fixes verdict and results
	}
	return true
}

// ------------------------------------------------------------- replay files

type replayFile struct {
	Property string  `json:"property"`
	Class    string  `json:"class"`
	What     string  `json:"what"`
	Seed     uint64  `json:"seed"`
	Digest   string  `json:"digest"`
	Solo     int     `json:"solo"` // session compared with its solo run, -1 none
	Nondet   bool    `json:"nondeterministic,omitempty"`
	Plans    []*Plan `json:"plans"` // executed in order in one fresh process; the last one violates
	Note     string  `json:"note,omitempty"`
}

const freshLimit = 150 * time.Second

// reproduce runs the replay in a fresh process: what it shows, with digest.
func (f *replayFile) reproduce() (what, dig string) {
	spec := specOf(f.Property)
	last := f.Plans[len(f.Plans)-1]
	if f.Nondet {
		return f.reproduceNondet(spec, last)
	}
	res, how, tail := runFresh(freshLimit, f.Plans...)
	if how == "" && res.Harness != "" {
		return "", ""
	}
	if f.Solo >= 0 {
		if how != "" || f.Solo >= len(res.Sess) {
			return "", ""
		}
		sr, h2, _ := runFresh(freshLimit, solo(last, f.Solo))
		if h2 != "" || sr.Harness != "" {
			return "", ""
		}
		d := differs(spec, last, f.Solo, &res.Sess[f.Solo], &sr.Sess[0])
		return d, fmt.Sprintf("%x-%x", res.Dig, sr.Dig)
	}
	for _, v := range judge(spec, last, res, how) {
		if v.Class == f.Class {
			if tail != "" {
				v.What += ": " + tail
			}
			d := how
			if res != nil {
				d = fmt.Sprintf("%x", res.Dig)
			}
			return v.What, d
		}
	}
	return "", ""
}

func (f *replayFile) reproduceNondet(spec *propSpec, p *Plan) (string, string) {
	var first *runRes
	for k := 0; k < 8; k++ {
		res, how, _ := runFresh(freshLimit, p)
		if how != "" || res.Harness != "" {
			return "", ""
		}
		if first == nil {
			first = res
			continue
		}
		for i := range res.Sess {
			if d := differs(spec, p, i, &res.Sess[i], &first.Sess[i]); d != "" {
				return "the same run repeated differs: " + d, "nondet"
			}
		}
	}
	return "", ""
}

// minimise shrinks the replay while it still shows the same class.
func (f *replayFile) minimise(until time.Time) {
	tries := 0
	ok := func(g *replayFile) bool {
		if time.Now().After(until) {
			return false
		}
		tries++
		w, _ := g.reproduce()
		return w != ""
	}
	clone := func() *replayFile {
		g := *f
		g.Plans = nil
		for _, p := range f.Plans {
			g.Plans = append(g.Plans, p.clone())
		}
		return &g
	}
	lastOf := func(g *replayFile) *Plan { return g.Plans[len(g.Plans)-1] }
	if f.Nondet {
		return
	}
	// history: drop halves, then single plans
	for n := len(f.Plans) - 1; n > 0; n /= 2 {
		for i := 0; i+n <= len(f.Plans)-1; {
			g := clone()
			g.Plans = append(g.Plans[:i:i], g.Plans[i+n:]...)
			if ok(g) {
				f.Plans = g.Plans
			} else {
				i += n
			}
			if time.Now().After(until) {
				break
			}
		}
		if time.Now().After(until) {
			break
		}
	}
	// a schedule that can be cut down
	if last := lastOf(f); last.Sched.Mode == "gen" {
		if res, how, _ := runFresh(freshLimit, f.Plans...); how == "" {
			g := clone()
			lastOf(g).Sched = vsSchedPlan{Mode: "list", Starve: -1, Switches: res.Taken}
			if ok(g) {
				f.Plans = g.Plans
			}
		}
	}
	for i := range lastOf(f).Sess {
		if lastOf(f).Sess[i].Kind == "nop" || i == f.Solo {
			continue
		}
		g := clone()
		lastOf(g).Sess[i] = SessPlan{Kind: "nop", Th: lastOf(g).Sess[i].Th, Seed: 1}
		if ok(g) {
			f.Plans = g.Plans
		}
	}
	for i := range lastOf(f).Sess {
		for j := len(lastOf(f).Sess[i].F) - 1; j >= 0; j-- {
			g := clone()
			s := &lastOf(g).Sess[i]
			s.F = append(s.F[:j:j], s.F[j+1:]...)
			if ok(g) {
				f.Plans = g.Plans
			}
		}
	}
	if last := lastOf(f); last.Sched.Mode == "list" {
		for n := len(last.Sched.Switches); n > 0; n /= 2 {
			for i := 0; i+n <= len(lastOf(f).Sched.Switches); {
				g := clone()
				sw := lastOf(g).Sched.Switches
				lastOf(g).Sched.Switches = append(sw[:i:i], sw[i+n:]...)
				if ok(g) {
					f.Plans = g.Plans
				} else {
					i += n
				}
				if time.Now().After(until) {
					return
				}
			}
		}
	}
	for i := range lastOf(f).Sess {
		for lastOf(f).Sess[i].P["n"] > 1 {
			g := clone()
			lastOf(g).Sess[i].P["n"]--
			if !ok(g) {
				break
			}
			f.Plans = g.Plans
		}
	}
	f.Note = fmt.Sprintf("minimised with %d re-executions", tries)
}

func (f *replayFile) write(dir string) string {
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%016x.json", f.Property, f.Seed))
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
	return path
}

func replayMain(file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	f := &replayFile{}
	if err := json.Unmarshal(b, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 3
	}
	vsFindings = loadFindings(os.Getenv("VS_VERIF"))
	what, dig := f.reproduce()
	if what == "" {
		fmt.Printf("replay of %s: property %s held\n", file, f.Property)
		return 0
	}
	fmt.Printf("replay digest %s (recorded %s)\n%s\n", dig, f.Digest, what)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, file)
	return 1
}

// ------------------------------------------------------------- known findings

type finding struct {
	Property string   `json:"property"`
	ID       string   `json:"id"`
	What     string   `json:"what"`
	Class    string   `json:"class"`
	Contains []string `json:"contains"` // texts, one for each failing input
	Probe    *Plan    `json:"probe"`
}

func (k *finding) matches(prop string, v viol) bool {
	if k.Property != prop || k.Class != v.Class {
		return false
	}
	for _, c := range k.Contains {
		if c != "" && strings.Contains(v.What, c) {
			return true
		}
	}
	return false
}

func isKnown(prop string, v viol) bool {
	for i := range vsFindings {
		if vsFindings[i].matches(prop, v) {
			return true
		}
	}
	return false
}

var vsFindings []finding

func loadFindings(dir string) (fs []finding) {
	b, err := os.ReadFile(filepath.Join(dir, "known-findings.json"))
	if err != nil {
		return nil
	}
	var f struct {
		Findings []finding `json:"findings"`
	}
	if err := json.Unmarshal(b, &f); err != nil {
		panic("known-findings.json: " + err.Error())
	}
	return f.Findings
}

// ------------------------------------------------------------- check

type tally struct {
	mu         sync.Mutex
	runs       int
	nontriv    map[uint64]bool
	fired      map[string]int
	verdicts   map[string]int
	kinds      map[string]int
	traces     map[uint64]bool
	digests    map[uint64]bool
	preempt    int
	yields     int64
	calls      uint64
	nreq       int
	undec      int
	solos      int
	freshSolos int
	lite       int
	twice      int
	nondet     int
	timeouts   int
	died       int
	harness    []string
	unrepro    []string
	faultFree  int
	faulty     int
	samples    []map[string]any
	why        map[string]int
}

func nontrivial(spec *propSpec, p *Plan, res *runRes) bool {
	fired, some := false, false
	for _, s := range res.Sess {
		if s.Undec {
			continue
		}
		fired = fired || len(s.Fired) > 0
		some = some || s.Verdict != "none"
	}
	switch spec.id {
	case "C01", "C14":
		return fired
	case "C02":
		for _, s := range res.Sess {
			if s.Kind == "agg" && s.Verdict == "accept" {
				return true
			}
		}
		return false
	case "C11":
		return res.NSw > 0
	case "C12":
		for i := range p.Sess {
			if p.Sess[i].P["reuse"] > 0 {
				return true
			}
		}
		return fired
	case "C19":
		n := 0
		for _, s := range res.Sess {
			n += s.NReq
		}
		return n > 0
	}
	return some
}

func (t *tally) add(spec *propSpec, p *Plan, res *runRes) {
	t.mu.Lock()
	defer t.mu.Unlock()
	t.runs++
	faulty := false
	for i, s := range res.Sess {
		t.kinds[s.Kind]++
		t.verdicts[s.Kind+":"+s.Verdict]++
		for _, k := range s.Fired {
			t.fired[k]++
			faulty = true
		}
		t.calls += s.Calls
		t.nreq += s.NReq
		if s.Undec {
			t.undec++
		}
		if p.Sess[i].P["lite"] != 0 {
			t.lite++
		}
	}
	if faulty {
		t.faulty++
	} else {
		t.faultFree++
	}
	t.yields += res.Yields
	t.preempt += res.NSw
	if res.NSw > 0 {
		t.traces[res.Trace] = true
	}
	t.digests[res.Dig] = true
	if nontrivial(spec, p, res) {
		t.nontriv[res.Dig] = true
		if len(t.samples) < 6 && (t.runs%7 == 1 || t.runs > 20) {
			var ss []string
			for i, s := range res.Sess {
				ss = append(ss, fmt.Sprintf("%s th%d fired=%v -> %s %s", s.Kind, p.Sess[i].Th, s.Fired, s.Verdict, s.Why))
			}
			t.samples = append(t.samples, map[string]any{"seed": fmt.Sprintf("%016x", p.Seed), "sessions": ss, "preemptions": res.NSw, "steps": res.Yields})
		}
	}
}

type job struct {
	plan  *Plan
	i     int
	fresh bool // in a process of its own
	done  func(w *worker, res *runRes, how string)
}

type suspect struct {
	f    *replayFile
	hist []*Plan
	alt  []*Plan // what ran before the solo run it was compared with
}

func checkMain(prop, tier string) int {
	debug.SetGCPercent(100)
	start := time.Now()
	spec := vsSpecs[prop]
	if spec == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		return 3
	}
	base := uint64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if x, err := strconv.ParseUint(s, 10, 64); err == nil {
			base = x
		} else {
			base = vsHashStr(s)
		}
	}
	n, limit := spec.quick, 90*time.Second
	if tier == "thorough" {
		n, limit = spec.full, 3600*time.Second
	}
	if s := os.Getenv("VS_RUNS"); s != "" {
		n, _ = strconv.Atoi(s)
	}
	if s := os.Getenv("VS_LIMIT"); s != "" {
		x, _ := strconv.Atoi(s)
		limit = time.Duration(x) * time.Second
	}
	perRun := 120 * time.Second
	nw := runtime.NumCPU()
	if nw > 8 {
		nw = 8
	}
	if s := os.Getenv("VS_WORKERS"); s != "" {
		nw, _ = strconv.Atoi(s)
	}
	verif := os.Getenv("VS_VERIF")
	t := &tally{nontriv: map[uint64]bool{}, fired: map[string]int{}, verdicts: map[string]int{}, kinds: map[string]int{}, traces: map[uint64]bool{}, digests: map[uint64]bool{}, why: map[string]int{}}

	// known findings: show that each is still there, by its own input
	known := 0
	vsFindings = loadFindings(verif)
	for _, k := range vsFindings {
		if k.Property != prop || k.Probe == nil {
			continue
		}
		k.Probe.Prop = prop
		res, how, _ := runFresh(freshLimit, k.Probe)
		if how == "" && res.Harness == "" {
			for _, v := range res.Viol {
				if k.matches(prop, v) {
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.What)
					known++
					break
				}
			}
		}
	}

	var mu sync.Mutex
	var suspects []suspect
	next, _ := strconv.Atoi(os.Getenv("VS_FROM"))
	n += next
	var extra []*job // second halves of comparisons
	stop := false
	inflight := 0
	cond := sync.NewCond(&mu)

	suspectRun := func(w *worker, p *Plan, v viol, soloIdx int, alt ...*Plan) {
		mu.Lock()
		defer mu.Unlock()
		f := &replayFile{Property: prop, Class: v.Class, What: v.What, Seed: p.Seed, Solo: soloIdx, Plans: []*Plan{p}}
		suspects = append(suspects, suspect{f, w.history(p), alt})
		if len(suspects) >= 3 {
			stop = true
		}
	}
	push := func(j *job) {
		mu.Lock()
		extra = append(extra, j)
		mu.Unlock()
		cond.Broadcast()
	}

	primary := func(i int, p *Plan) *job {
		return &job{plan: p, i: i, done: func(w *worker, res *runRes, how string) {
			if how == "timeout" {
				t.mu.Lock()
				t.timeouts++
				t.mu.Unlock()
			}
			if how == "died" {
				t.mu.Lock()
				t.died++
				t.mu.Unlock()
			}
			if how != "" {
				for _, v := range judge(spec, p, nil, how) {
					suspectRun(w, p, v, -1)
				}
				return
			}
			if res.Harness != "" {
				t.mu.Lock()
				if len(t.harness) < 5 {
					t.harness = append(t.harness, fmt.Sprintf("seed %016x: %s", p.Seed, res.Harness))
				}
				t.mu.Unlock()
				return
			}
			t.add(spec, p, res)
			vs := judge(spec, p, res, "")
			if len(vs) > 0 {
				suspectRun(w, p, vs[0], -1)
				return
			}
			for s := range res.Sess {
				if !wantSolo(spec, p, s, &res.Sess[s]) {
					continue
				}
				s := s
				fresh := i%9 == 4
				sp := solo(p, s)
				push(&job{plan: sp, i: -1, fresh: fresh, done: func(w2 *worker, r2 *runRes, how string) {
					if how != "" || r2.Harness != "" {
						return
					}
					t.mu.Lock()
					t.solos++
					if fresh {
						t.freshSolos++
					}
					t.mu.Unlock()
					if d := differs(spec, p, s, &res.Sess[s], &r2.Sess[0]); d != "" {
						suspectRun(w, p, viol{s, "differs", d}, s, w2.history(sp)...)
					}
				}})
			}
			// one run in twelve is executed a second time elsewhere
			if i%12 == 5 && spec.diff == "" {
				push(&job{plan: p, i: -1, done: func(w2 *worker, r2 *runRes, how string) {
					if how != "" || r2.Harness != "" {
						return
					}
					t.mu.Lock()
					t.twice++
					if r2.Dig != res.Dig {
						t.nondet++
					}
					t.mu.Unlock()
				}})
			}
		}}
	}

	scale := 1 + n/40_000*20 // tiny runs: starting a process costs as much as many of them
	var wg sync.WaitGroup
	for k := 0; k < nw; k++ {
		k := k
		wg.Add(1)
		go func() {
			defer wg.Done()
			var w *worker
			life := k * 5
			defer func() {
				if w != nil {
					w.stop()
				}
			}()
			for {
				mu.Lock()
				var j *job
				for {
					late := time.Since(start) > limit
					if stop || late && len(extra) == 0 {
						break
					}
					if len(extra) > 0 {
						j = extra[0]
						extra = extra[1:]
						break
					}
					if next < n && !late {
						j = primary(next, genPlan(prop, base, next))
						next++
						break
					}
					if inflight == 0 {
						break
					}
					cond.Wait()
				}
				if j == nil {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				inflight++
				mu.Unlock()
				if j.fresh {
					f := startWorker()
					res, how := f.run(j.plan, perRun)
					j.done(f, res, how)
					f.stop()
					mu.Lock()
					inflight--
					mu.Unlock()
					cond.Broadcast()
					continue
				}
				if w == nil || w.n >= vsLives[life%len(vsLives)]*scale {
					life++
					if w != nil {
						w.stop()
					}
					w = startWorker()
				}
				res, how := w.run(j.plan, perRun)
				j.done(w, res, how)
				if how != "" {
					w.stop()
					w = nil
				}
				mu.Lock()
				inflight--
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	searchWall := time.Since(start)

	// confirm, minimise, report
	code := 0
	violations := 0
	for _, s := range suspects {
		f := s.f
		if violations > 0 {
			violations++
			continue
		}
		solo0 := f.Solo
		w, _ := f.reproduce()
		if w == "" && len(s.hist) > 1 {
			f.Plans = s.hist
			if w, _ = f.reproduce(); w == "" {
				f.Plans = s.hist[len(s.hist)-1:]
			}
		}
		if w == "" && len(s.alt) > 1 { // it was the solo run that was off
			f.Plans, f.Solo = append([]*Plan{}, s.alt...), 0
			w, _ = f.reproduce()
		}
		if w == "" && prop == "C19" {
			f.Solo = solo0
			f.Nondet = true
			f.Plans = []*Plan{s.hist[len(s.hist)-1]}
			for _, p := range s.hist {
				if p.Seed == f.Seed {
					f.Plans = []*Plan{p}
				}
			}
			w, _ = f.reproduce()
		}
		if w == "" {
			t.unrepro = append(t.unrepro, fmt.Sprintf("seed %016x: %s: %s", f.Seed, f.Class, f.What))
			continue
		}
		f.What = w
		if os.Getenv("VS_FAST") == "" {
			f.minimise(time.Now().Add(75 * time.Second))
		}
		w, d := f.reproduce()
		if w != "" {
			f.What, f.Digest = w, d
		}
		path := f.write(filepath.Join(verif, "replays"))
		fmt.Printf("%s: %s\n", f.Class, f.What)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		violations++
		code = 1
	}
	for _, h := range t.harness {
		fmt.Fprintln(os.Stderr, "harness:", h)
	}
	for _, u := range t.unrepro {
		fmt.Fprintln(os.Stderr, "not reproduced in a fresh process:", u)
	}
	writeEvidence(verif, spec, tier, base, n, t, searchWall, time.Since(start), violations, known)
	fmt.Printf("%s %s: %d runs, %d distinct non-trivial, %d faults, %d preemptions, %.1fs\n", prop, tier, t.runs, len(t.nontriv), sumMap(t.fired), t.preempt, time.Since(start).Seconds())
	if t.runs == 0 && code == 0 {
		fmt.Fprintln(os.Stderr, "no run was executed")
		return 3
	}
	return code
}

func sumMap(m map[string]int) (n int) {
	for _, x := range m {
		n += x
	}
	return
}

func writeEvidence(verif string, spec *propSpec, tier string, base uint64, n int, t *tally, search, wall time.Duration, violations, known int) {
	hours := search.Hours()
	keys := func(m map[string]int) []string {
		var k []string
		for x := range m {
			k = append(k, x)
		}
		sort.Strings(k)
		return k
	}
	_ = keys
	cov := map[string]any{
		"evaluations":                 t.runs,
		"distinct_nontrivial":         len(t.nontriv),
		"rule":                        spec.rule + "; distinct means a different digest over verdicts, results, advice traffic, faults fired and schedule",
		"samples":                     t.samples,
		"planned_runs":                n,
		"seeds_per_hour":              int(float64(t.runs) / hours),
		"solo_reference_runs":         t.solos,
		"of_them_in_new_processes":    t.freshSolos,
		"lite_sessions":               t.lite,
		"lite_note":                   "in lite sessions the functions that only hand over to gnark's gadgets (and powers above 2^15) are decided natively",
		"runs_executed_twice":         t.twice,
		"runs_with_different_digest":  t.nondet,
		"simulated_seconds":           float64(t.yields) * 1e-6,
		"simulated_time_note":         "one scheduler step is one simulated microsecond",
		"scheduler_steps":             t.yields,
		"backend_calls":               t.calls,
		"advice_requests":             t.nreq,
		"preemptions":                 t.preempt,
		"distinct_interleavings":      len(t.traces),
		"distinct_executions":         len(t.digests),
		"faults_fired":                t.fired,
		"runs_with_faults":            t.faulty,
		"runs_without_faults":         t.faultFree,
		"sessions_by_kind":            t.kinds,
		"verdicts":                    t.verdicts,
		"undecided_sessions":          t.undec,
		"worker_timeouts":             t.timeouts,
		"worker_deaths":               t.died,
		"suspicions_not_reproduced":   t.unrepro,
		"harness_errors":              t.harness,
		"known_findings_demonstrated": known,
		"missing_bindings":            vsbMissing,
		"instrumentation":             os.Getenv("VS_INSTR"),
		"real_components":             spec.real,
		"stubbed_components":          spec.stub,
	}
	if cov["samples"] == nil || len(t.samples) == 0 {
		cov["samples"] = []map[string]any{}
	}
	ev := map[string]any{
		"property": spec.id, "tier": tier, "seed": base, "level": "exploration",
		"coverage": cov,
		"assumptions": []string{
			"gnark's gadgets, compilers and solver, gnark-crypto and go-ethereum's bn256 behave as in this module cache",
			"the reference model (harness/ref_agg.go) states the halo2/ShPlonk relation of this verifying key; it agrees with the code on the real proof and on simulated proofs",
			"sessions interleave only at statements of the package and at backend calls",
		},
		"wall_s":     wall.Seconds(),
		"violations": violations,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, spec.id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
	}
}

// runMain executes single plans of a property in this process, for debugging.
func runMain() int {
	prop := os.Getenv("VS_PROP")
	from, _ := strconv.Atoi(os.Getenv("VS_FROM"))
	n, _ := strconv.Atoi(os.Getenv("VS_RUNS"))
	if n == 0 {
		n = 1
	}
	var list []int
	for i := from; i < from+n; i++ {
		list = append(list, i)
	}
	for _, f := range strings.Fields(os.Getenv("VS_LIST")) { // these instead, in this order
		if i, err := strconv.Atoi(f); err == nil {
			if n > 0 {
				list, n = nil, 0
			}
			list = append(list, i)
		}
	}
	for _, i := range list {
		p := genPlan(prop, 1, i)
		for _, kv := range strings.Fields(os.Getenv("VS_SET")) {
			k, v, _ := strings.Cut(kv, "=")
			x, _ := strconv.ParseInt(v, 10, 64)
			for j := range p.Sess {
				if p.Sess[j].P == nil {
					p.Sess[j].P = pm{}
				}
				p.Sess[j].P[k] = x
			}
		}
		t0 := time.Now()
		res := execPlan(p)
		fmt.Printf("#%d %.3fs sw=%d yields=%d dig=%x\n", i, time.Since(t0).Seconds(), res.NSw, res.Yields, res.Dig)
		for k, s := range res.Sess {
			fmt.Printf("   %d %s th%d P=%v F=%v -> %s %s fired=%v calls=%d work=%d nreq=%d undec=%v\n", k, s.Kind, p.Sess[k].Th, p.Sess[k].P, p.Sess[k].F, s.Verdict, s.Why, s.Fired, s.Calls, s.Work, s.NReq, s.Undec)
		}
		for _, v := range res.Viol {
			fmt.Printf("   !! %+v\n", v)
		}
		if res.Harness != "" {
			fmt.Println("   HARNESS", res.Harness)
		}
	}
	return 0
}

// detMain is the determinism proof: every seed executed in several processes.
func detMain() int {
	n, _ := strconv.Atoi(os.Getenv("VS_RUNS"))
	if n == 0 {
		n = 40
	}
	var props []string
	for id := range vsSpecs {
		props = append(props, id)
	}
	sort.Strings(props)
	if p := os.Getenv("VS_PROP"); p != "" {
		props = strings.Fields(p)
	}
	bad := 0
	for _, id := range props {
		var wg sync.WaitGroup
		digs := make([][]uint64, 3)
		for k := 0; k < 3; k++ {
			k := k
			digs[k] = make([]uint64, n)
			for part := 0; part < 2; part++ {
				part := part
				wg.Add(1)
				go func() {
					defer wg.Done()
					w := startWorker()
					defer func() { w.stop() }()
					for j := 0; j < n; j++ {
						i := j
						if k == 1 {
							i = n - 1 - j // another order, so other process histories
						}
						if i%2 != part {
							continue
						}
						p := genPlan(id, 1, i)
						res, how := w.run(p, 200*time.Second)
						if how != "" {
							w.stop()
							w = startWorker()
							continue
						}
						digs[k][i] = res.Dig
					}
				}()
			}
		}
		wg.Wait()
		diff := 0
		for i := 0; i < n; i++ {
			if digs[0][i] != digs[1][i] || digs[0][i] != digs[2][i] {
				diff++
				fmt.Printf("%s: run %d: digests %x %x %x\n", id, i, digs[0][i], digs[1][i], digs[2][i])
			}
		}
		fmt.Printf("%s: %d seeds, 3 executions each in separate processes, %d with differing digests\n", id, n, diff)
		bad += diff
	}
	if bad > 0 {
		return 1
	}
	return 0
}
