package main

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Harness is one symbolic entry point.
type Harness struct {
	Name string
	idx  int
	fn   *ssa.Function

	stack   [][]Decision
	active  int
	stopped bool

	Paths     int64
	Ends      map[string]int64
	EndMsgs   map[string]int
	Asserts   map[string]int64
	Decisions int64
	Steps     int64
	MaxSteps  int64
	Notes     map[string]int
	Reach     map[string]bool
	Fns       map[string]bool
	attempts  map[string]int
	Viol      []*Counterexample
	Known     map[string]bool
	Unconf    map[string]int
	Forks     int64
	UnkBr     int64
	samples   int
	Sampled   int64
	Mismatch  []string
	Validated int64
	SampleOut []map[string]any
	MaxGor    int
	Sched     int64
	left      int
	dl        bool
	Nontriv   int64
	start     time.Time
	wall      time.Duration
}

// Counterexample is a replayable violation.
type Counterexample struct {
	Property string            `json:"property"`
	Harness  string            `json:"harness"`
	Kind     string            `json:"kind"`
	Msg      string            `json:"assertion"`
	Inputs   map[string]string `json:"inputs"`
	Native   string            `json:"native_result"`
	CPUs     int               `json:"processors,omitempty"`
	newest   bool
	Path     []Decision `json:"path,omitempty"`
	File     string     `json:"-"`
}

// Explorer runs all harnesses of a property.
type Explorer struct {
	mu       sync.Mutex
	cond     *sync.Cond
	hs       []*Harness
	P        *Program
	nat      *Native
	prop     string
	deadline time.Time
	known    []knownFinding
	workers  int
	stopAll  bool
	seed     int64
	valCh    chan *valJob
	valWg    sync.WaitGroup
}

type valJob struct {
	h      *Harness
	inputs map[string]string
	obs    []obsT
	vals   map[int]float64
	cpus   int
}

// Worker owns a term pool and a solver process.
type Worker struct {
	id        int
	ex        *Explorer
	h         *Harness
	p         *Pool
	s         *Solver
	brTimeout int
	asTimeout int
	pfTimeout time.Duration

	unknownBranches int64
}

func newHarness(fn *ssa.Function, idx int) *Harness {
	return &Harness{Name: fn.Name(), fn: fn, idx: idx, Ends: map[string]int64{}, EndMsgs: map[string]int{}, Asserts: map[string]int64{}, Notes: map[string]int{}, Reach: map[string]bool{},
		Fns: map[string]bool{}, attempts: map[string]int{}, Known: map[string]bool{}, Unconf: map[string]int{}, stack: [][]Decision{{}}}
}

func (w *Worker) push(pre []Decision) {
	w.ex.mu.Lock()
	w.h.stack = append(w.h.stack, pre)
	w.h.Forks++
	w.ex.cond.Signal()
	w.ex.mu.Unlock()
}

func (w *Worker) count(k string) {
	w.ex.mu.Lock()
	w.h.Asserts[k]++
	w.ex.mu.Unlock()
}

func (w *Worker) note(s string) {
	w.ex.mu.Lock()
	w.h.Notes[s]++
	w.ex.mu.Unlock()
}

func (w *Worker) checkDeadline() {
	if time.Now().After(w.ex.deadline) || w.h.stopped {
		panic(&abortT{"deadline", ""})
	}
}

func (ex *Explorer) run() {
	ex.cond = sync.NewCond(&ex.mu)
	var wg sync.WaitGroup
	for i := 0; i < ex.workers; i++ {
		w := &Worker{id: i, ex: ex, brTimeout: 1500, asTimeout: 4000, pfTimeout: 15 * time.Second}
		if tier == "thorough" {
			w.brTimeout, w.asTimeout, w.pfTimeout = 4000, 10000, 90*time.Second
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			w.loop()
		}()
	}
	go func() {
		// wake waiting workers at the deadline
		time.Sleep(time.Until(ex.deadline) + time.Second)
		ex.mu.Lock()
		ex.cond.Broadcast()
		ex.mu.Unlock()
	}()
	wg.Wait()
	for _, h := range ex.hs {
		h.left = len(h.stack)
	}
}

// next takes a task from the least busy harness.
func (ex *Explorer) next() (*Harness, []Decision) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if time.Now().After(ex.deadline) || ex.stopAll {
			return nil, nil
		}
		var best *Harness
		active := 0
		for _, h := range ex.hs {
			active += h.active
			if len(h.stack) > 0 && !h.stopped && (best == nil || h.active < best.active) {
				best = h
			}
		}
		if best != nil {
			pre := best.stack[len(best.stack)-1]
			best.stack = best.stack[:len(best.stack)-1]
			best.active++
			if best.start.IsZero() {
				best.start = time.Now()
			}
			return best, pre
		}
		if active == 0 {
			ex.cond.Broadcast()
			return nil, nil
		}
		ex.cond.Wait()
	}
}

func (w *Worker) loop() {
	defer func() {
		if w.s != nil {
			w.s.stop()
		}
	}()
	for {
		h, pre := w.ex.next()
		if h == nil {
			return
		}
		if w.h != h || w.p == nil || w.p.next > 400000 {
			if w.s != nil {
				w.s.stop()
			}
			w.p = newPool()
			w.s = newSolver(w.p)
			w.h = h
		}
		w.runPath(h, pre)
		w.ex.mu.Lock()
		h.active--
		h.wall = time.Since(h.start)
		w.ex.cond.Broadcast()
		w.ex.mu.Unlock()
	}
}

func (w *Worker) newMachine(pre []Decision) *Machine {
	m := &Machine{P: w.ex.P, w: w, p: w.p, globals: map[*ssa.Global]*Value{}, inited: map[*ssa.Package]bool{},
		prefix: pre, pcset: map[*Term]bool{}, maxSt: 3_000_000, choices: map[string]int{}, names: map[string]int{}, reach: map[string]bool{},
		defs: map[*Term]bool{}, ufapps: map[string][]*Term{}, shadow: map[*Value]*shadowT{}, ncpu: 2, mutexes: map[*Value]*mutexT{}, wgs: map[*Value]*wgT{},
		onces: map[*Value]bool{}, atomVC: map[*Value]vclock{}, fileFns: map[string]bool{}, maxDec: 3000}
	m.initSched()
	return m
}

func (w *Worker) runPath(h *Harness, pre []Decision) {
	m := w.newMachine(pre)
	w.unknownBranches = 0
	kind, msg := "ok", ""
	var gp *goPanicT
	func() {
		defer func() {
			r := recover()
			m.spec = false
			switch r := r.(type) {
			case nil:
			case *abortT:
				kind, msg = r.kind, r.msg
			case *goPanicT:
				kind, msg = "panic", r.msg+" at "+r.where
				gp = r
			case unsupportedErr:
				kind, msg = "unsupported", r.msg
				if m.lastFr != nil {
					msg += " in " + m.stack(m.lastFr)
				}
			case killT:
				if m.abort != nil {
					kind, msg = m.abort.kind, m.abort.msg
				}
			default:
				kind, msg = "internal", fmt.Sprint(r)
				if debug {
					msg += hostStack()
				}
			}
		}()
		m.callFn(h.fn, nil, nil, nil)
		if m.abort != nil {
			panic(m.abort)
		}
	}()
	m.cleanup()
	_ = gp
	switch kind {
	case "panic", "steps", "depth", "deadlock", "race":
		func() {
			defer func() {
				if r := recover(); r != nil {
					if a, ok := r.(*abortT); ok && a.kind == "deadline" {
						return
					}
					panic(r)
				}
			}()
			if !w.candidate(m, nil, kind, kind+": "+msg) {
				kind += "-unconfirmed"
			}
		}()
	case "ok":
		if m.nassert == 0 {
			kind = "ok-noassert"
		}
		w.sample(m)
	case "deadline":
		// put the prefix back: not explored
		w.ex.mu.Lock()
		h.stack = append(h.stack, pre)
		h.dl = true
		w.ex.mu.Unlock()
	}
	w.ex.mu.Lock()
	defer w.ex.mu.Unlock()
	h.Paths++
	h.Ends[kind]++
	if kind != "ok" && kind != "deadline" && len(h.EndMsgs) < 40 {
		if len(msg) > 4000 {
			msg = msg[:4000]
		}
		h.EndMsgs[kind+": "+msg]++
	}
	h.Decisions += int64(len(m.trace))
	h.Steps += m.steps
	if m.steps > h.MaxSteps {
		h.MaxSteps = m.steps
	}
	if len(m.inputs)+len(m.choices) > 0 && m.nassert > 0 {
		h.Nontriv++
	}
	if m.ngor > h.MaxGor {
		h.MaxGor = m.ngor
	}
	h.Sched += int64(m.schedPts)
	h.UnkBr += w.unknownBranches
	for r := range m.reach {
		h.Reach[r] = true
	}
	for f := range m.fileFns {
		if strings.Contains(f, "pa-m/sklearn") && !strings.Contains(f, "sklearn/vp") {
			h.Fns[f] = true
		}
	}
}

// concrete reads the inputs out of a model.
func (m *Machine) concrete(vals map[*Term]string) (map[string]string, bool) {
	out := map[string]string{}
	for n, k := range m.choices {
		out[n] = strconv.Itoa(k)
	}
	for _, in := range m.inputs {
		s, ok := vals[in.t]
		if !ok {
			out[in.name] = "0"
			continue
		}
		r, ok := modelRat(s)
		if !ok {
			return nil, false
		}
		switch in.kind {
		case 'f':
			f, _ := r.Float64()
			out[in.name] = strconv.FormatFloat(f, 'g', 17, 64)
		case 'i':
			out[in.name] = strconv.FormatInt(int64(r.Num().Uint64()), 10)
		case 'u':
			out[in.name] = strconv.FormatUint(r.Num().Uint64(), 10)
		case 'b':
			out[in.name] = r.RatString()
		}
	}
	return out, true
}

// candidate searches models of pc ∧ one of extras and replays them on the real code; true when confirmed.
func (w *Worker) candidate(m *Machine, extras []*Term, kind, msg string) bool {
	h := w.h
	key := msg
	if i := strings.Index(key, " at "); i > 0 && kind == "panic" {
		key = key[:i]
	}
	w.ex.mu.Lock()
	for _, k := range w.ex.known {
		if k.Status == "known" && k.Property == w.ex.prop && k.Harness == h.Name && strings.HasPrefix(msg, k.Msg) {
			if !h.Known[k.What] {
				h.Known[k.What] = true
			}
			w.ex.mu.Unlock()
			return true
		}
	}
	if h.attempts[key] >= 14 {
		h.Unconf[key]++
		w.ex.mu.Unlock()
		return false
	}
	w.ex.mu.Unlock()
	if len(extras) == 0 {
		extras = []*Term{m.p.tt}
	}
	var ts []*Term
	for _, in := range m.inputs {
		ts = append(ts, in.t)
	}
	rng := rand.New(rand.NewSource(w.ex.seed + int64(len(m.trace))))
	var reals []*Term
	for _, in := range m.inputs {
		if in.kind == 'f' {
			reals = append(reals, in.t)
		}
	}
	bound := func(b int64) *Term {
		var cs []*Term
		for _, t := range reals {
			cs = append(cs, m.p.Le(t, m.p.Rat(big.NewRat(b, 1))), m.p.Le(m.p.Rat(big.NewRat(-b, 1)), t))
		}
		return m.p.And(cs...)
	}
	integral := func() *Term {
		var cs []*Term
		four := m.p.Rat(big.NewRat(4, 1))
		for _, t := range reals {
			x := m.p.Mul(four, t)
			cs = append(cs, m.p.Eq(m.p.Floor(x), x))
		}
		return m.p.And(cs...)
	}
	fixSome := func(n int) *Term {
		var cs []*Term
		for _, i := range rng.Perm(len(reals)) {
			if n == 0 {
				break
			}
			n--
			cs = append(cs, m.p.Eq(reals[i], m.p.Rat(big.NewRat(int64(rng.Intn(17)-8), 2))))
		}
		return m.p.And(cs...)
	}
	seen := map[string]bool{}
	tryModel := func(cons []*Term, ms int, pf bool) (confirmed bool, r Result) {
		if time.Now().After(w.ex.deadline.Add(30 * time.Second)) {
			return false, Unknown
		}
		r, vals := w.s.Check(m.pc, cons, ms, ts)
		if r == Unknown && pf {
			r, vals, _ = Portfolio(append(append([]*Term{}, m.pc...), cons...), w.pfTimeout, ts)
		}
		if r != Sat {
			return false, r
		}
		in, ok := m.concrete(vals)
		if !ok {
			return false, r
		}
		b, _ := json.Marshal(in)
		if seen[string(b)] {
			return false, r
		}
		seen[string(b)] = true
		w.ex.mu.Lock()
		h.attempts[key]++
		w.ex.mu.Unlock()
		ce := &Counterexample{Property: w.ex.prop, Harness: h.Name, Kind: kind, Msg: msg, Inputs: in, Path: m.trace, CPUs: m.ncpu, newest: m.newest}
		if w.ex.nat.replay(ce) {
			w.ex.mu.Lock()
			if len(h.Viol) == 0 {
				h.Viol = append(h.Viol, ce)
			}
			h.stopped = true
			w.ex.cond.Broadcast()
			w.ex.mu.Unlock()
			return true, r
		}
		if debug {
			fmt.Fprintf(os.Stderr, "unconfirmed %s %s %v: %s\n", h.Name, msg, in, ce.Native)
		}
		return false, r
	}
	for _, e := range extras {
		if e.isConst() && !e.b {
			continue
		}
		// nice values first
		if len(reals) > 0 {
			if c, _ := tryModel([]*Term{e, bound(16), integral()}, 1500, false); c {
				return true
			}
			if c, _ := tryModel([]*Term{e, bound(100)}, 2500, false); c {
				return true
			}
			for k := 0; k < 4; k++ {
				if c, _ := tryModel([]*Term{e, bound(100), fixSome(1 + len(reals)*(3-k)/4)}, 1500, false); c {
					return true
				}
			}
		}
		c, r := tryModel([]*Term{e}, 4000, true)
		if c {
			return true
		}
		if r == Unsat && e == m.p.tt {
			return false
		}
	}
	w.ex.mu.Lock()
	h.Unconf[key]++
	w.ex.mu.Unlock()
	return false
}

// sample queues a model of a passing path for validation against the native build.
func (w *Worker) sample(m *Machine) {
	h := w.h
	w.ex.mu.Lock()
	n := h.samples
	lim := 5
	if tier == "thorough" {
		lim = 20
	}
	take := n < lim && (h.Paths < 3 || h.Paths%int64(3+n*7) == 0)
	if take {
		h.samples++
	}
	w.ex.mu.Unlock()
	if !take || time.Now().After(w.ex.deadline) {
		return
	}
	var ts []*Term
	uf := false
	for _, in := range m.inputs {
		ts = append(ts, in.t)
	}
	var ot []*Term
	if len(m.obs) > 60 {
		m.obs = m.obs[:60]
	}
	for _, o := range m.obs {
		if o.sym {
			ot = append(ot, o.t)
		}
	}
	if hasTrans(ot) || hasTrans(m.pc) {
		uf = true
		ot = nil
	}
	var reals []*Term
	for _, in := range m.inputs {
		if in.kind == 'f' {
			reals = append(reals, in.t)
		}
	}
	rng := rand.New(rand.NewSource(w.ex.seed*7 + int64(n)))
	var vals map[*Term]string
	r := Unknown
	for k := 3; k >= 0; k-- {
		var cs []*Term
		for i, p := range rng.Perm(len(reals)) {
			if i < len(reals)*k/3 {
				cs = append(cs, m.p.Eq(reals[p], m.p.Rat(big.NewRat(int64(rng.Intn(41)-20), 4))))
			} else {
				cs = append(cs, m.p.Le(reals[p], m.p.Rat(big.NewRat(100, 1))), m.p.Le(m.p.Rat(big.NewRat(-100, 1)), reals[p]))
			}
		}
		r, vals = w.s.Check(m.pc, cs, 1500, append(ts, ot...))
		if r == Sat {
			break
		}
	}
	if r != Sat || vals == nil && len(ts)+len(ot) > 0 {
		return
	}
	in, ok := m.concrete(vals)
	if !ok {
		return
	}
	// float rounding of a model value can leave the path (exact ties); those samples are skipped natively by Assume
	job := &valJob{h: h, inputs: in, obs: m.obs, vals: map[int]float64{}, cpus: m.ncpu}
	if !uf {
		for i, o := range m.obs {
			if o.sym {
				if s, ok := vals[o.t]; ok {
					if r, ok := modelRat(s); ok {
						f, _ := r.Float64()
						job.vals[i] = f
					}
				} else if f, ok := toF(o.t); ok {
					job.vals[i] = f
				}
			} else {
				job.vals[i] = o.f
			}
		}
	}
	w.ex.valWg.Add(1)
	w.ex.valCh <- job
}

func hasTrans(ts []*Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OUF && t.name != "sqrt" {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	for _, t := range ts {
		if f(t) {
			return true
		}
	}
	return false
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
