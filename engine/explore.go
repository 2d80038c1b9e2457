package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// caseSpec is one harness run: an entry function with concrete parameters.
type caseSpec struct {
	Name    string         `json:"name"`
	Fn      string         `json:"fn"`
	Params  map[string]int `json:"params,omitempty"`
	Steps   int64          `json:"steps,omitempty"`   // step bound per path
	Paths   int            `json:"paths,omitempty"`   // path bound
	Weight  int            `json:"weight,omitempty"`  // scheduling weight
	Reach   []string       `json:"reach,omitempty"`   // labels some path must reach
	Solver  int            `json:"solver,omitempty"`  // ms per query
	MapRep  int            `json:"maprep,omitempty"`  // native repetitions when map order matters
	Replays int            `json:"replays,omitempty"` // sampled completed paths to run natively
}

type caseState struct {
	spec   caseSpec
	fn     *ssa.Function
	params map[string]int

	mu        sync.Mutex
	queue     []*work
	running   int
	paths     int
	done      int // completed normally
	assumed   int
	budget    int
	unsup     map[string]int
	stepsHit  int
	panics    int
	unkPaths  int
	asserts   int // assertions discharged (unsat or constant)
	assertQ   int // of those, by a solver query
	decs      int64
	steps     int64
	maxPath   int64
	dropped   int // queue entries not explored (path bound / deadline)
	reach     map[string]bool
	cands     []*candidate
	samples   []*sample
	nviolCand int
	first     time.Time
	last      time.Time
	cpu       time.Duration
}

type work struct {
	cs    *caseState
	node  *node
	model map[string]uint64
}

// candidate is a possible violation: the inputs that lead to it.
type candidate struct {
	cs     *caseState
	kind   string // assert, panic, steps
	msg    string
	inputs map[string]uint64
	mapDep bool
	n      int
}

type sample struct {
	cs     *caseState
	inputs map[string]uint64
	obs    []string
	mapDep bool
	steps  int64
}

type Explorer struct {
	P         *Program
	cases     []*caseState
	mu        sync.Mutex
	cond      *sync.Cond
	outst     int
	stop      bool
	deadline  time.Time
	pathLimit time.Duration
	strTd     *tdesc
	byteTd    *tdesc
	noInit    map[string]bool
	cacheHits atomic.Int64
	seed      int64
	workers   int
	stats     []*Solver
	statMu    sync.Mutex
	mic       struct {
		n, u, a int
		t       time.Duration
	}
	q struct {
		n, sat, unsat, unk, errs int
		t, max                   time.Duration
		lastErr                  string
	}
	files      sync.Map
	harnessDir string
	rng        *rand.Rand
	solverBins []string
	internal   []string
}

func NewExplorer(P *Program, harnessDir string, seed int64, workers int) *Explorer {
	x := &Explorer{P: P, seed: seed, workers: workers, harnessDir: harnessDir, rng: rand.New(rand.NewSource(seed)), solverBins: solverNames()}
	x.cond = sync.NewCond(&x.mu)
	x.strTd = P.td(types.Typ[types.String])
	x.byteTd = P.td(types.Typ[types.Uint8])
	x.noInit = map[string]bool{}
	for _, p := range []string{"os", "syscall", "runtime", "reflect", "internal/poll", "time", "log", "github.com/sirupsen/logrus", "internal/cpu", "internal/bytealg", "sync", "sync/atomic", "internal/godebug"} {
		x.noInit[p] = true
	}
	return x
}

func (x *Explorer) file(name string) []byte {
	if v, ok := x.files.Load(name); ok {
		return v.([]byte)
	}
	b, err := os.ReadFile(filepath.Join(x.harnessDir, name))
	if err != nil {
		unsupported("file %s: %v", name, err)
	}
	x.files.Store(name, b)
	return b
}

func (x *Explorer) push(cs *caseState, w *work) {
	x.mu.Lock()
	cs.queue = append(cs.queue, w)
	x.outst++
	x.mu.Unlock()
	x.cond.Signal()
}

// next picks the case with the least work done relative to its weight, and a random entry.
func (x *Explorer) next() *work {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if x.stop || time.Now().After(x.deadline) {
			x.stop = true
			x.cond.Broadcast()
			return nil
		}
		var best *caseState
		var bestC float64
		for _, cs := range x.cases {
			if len(cs.queue) == 0 {
				continue
			}
			if cs.spec.Paths > 0 && cs.paths >= cs.spec.Paths || cs.nviolCand >= 20 {
				cs.dropped += len(cs.queue)
				x.outst -= len(cs.queue)
				cs.queue = nil
				continue
			}
			w := cs.spec.Weight
			if w == 0 {
				w = 1
			}
			c := float64(cs.cpu.Microseconds()+int64(cs.running)*20000+int64(cs.paths)*50) / float64(w)
			if best == nil || c < bestC {
				best, bestC = cs, c
			}
		}
		if best != nil {
			q := best.queue
			i := len(q) - 1
			if x.rng.Intn(2) == 0 {
				i = x.rng.Intn(len(q))
			}
			w := q[i]
			q[i] = q[len(q)-1]
			best.queue = q[:len(q)-1]
			best.running++
			best.paths++
			if best.first.IsZero() {
				best.first = time.Now()
			}
			return w
		}
		if x.outst == 0 {
			x.stop = true
			x.cond.Broadcast()
			return nil
		}
		x.cond.Wait()
	}
}

func (x *Explorer) finish(w *work, d time.Duration) {
	x.mu.Lock()
	x.outst--
	w.cs.running--
	w.cs.cpu += d
	w.cs.last = time.Now()
	x.mu.Unlock()
	x.cond.Broadcast()
}

func (x *Explorer) Run(cases []*caseState, budget time.Duration) {
	x.cases = cases
	x.deadline = time.Now().Add(budget)
	x.stop = false
	for _, cs := range cases {
		x.push(cs, &work{cs: cs, model: map[string]uint64{}})
	}
	// wake waiters at the deadline
	tm := time.AfterFunc(budget, func() { x.cond.Broadcast() })
	defer tm.Stop()
	var wg sync.WaitGroup
	for i := 0; i < x.workers; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			x.worker(i)
		}(i)
	}
	wg.Wait()
	for _, cs := range cases {
		cs.dropped += len(cs.queue)
	}
}

func (x *Explorer) newM(i int) *M {
	m := &M{P: x.P, ex_: x, rng: rand.New(rand.NewSource(x.seed + int64(i)))}
	m.stdGlob = map[int]*Val{}
	m.stdDone = map[*ssa.Package]bool{}
	m.resetCtx()
	return m
}

func (m *M) resetCtx() {
	if m.sol != nil {
		m.ex_.addStats(m.sol)
		m.sol.Close()
	}
	m.cx = NewCtx()
	if m.mic == nil {
		m.mic = newMicro()
	}
	m.sol = NewSolver(m.cx, m.ex_.solverBins, 0, 2000)
	m.cache = map[uint64]cacheEnt{}
	m.varsMemo = map[int32][]int32{}
}

func (x *Explorer) addStats(s *Solver) {
	if s.next != nil {
		x.addStats(s.next)
	}
	x.statMu.Lock()
	defer x.statMu.Unlock()
	x.q.n += s.nQuery
	x.q.sat += s.nSat
	x.q.unsat += s.nUnsat
	x.q.unk += s.nUnk
	x.q.errs += s.nErr
	x.q.t += s.time
	if s.maxT > x.q.max {
		x.q.max = s.maxT
	}
	if s.lastErr != "" {
		x.q.lastErr = s.lastErr
	}
}

func (x *Explorer) worker(i int) {
	m := x.newM(i)
	defer func() {
		x.addStats(m.sol)
		x.statMu.Lock()
		x.mic.n += m.micN
		x.mic.u += m.micU
		x.mic.a += m.micA
		x.mic.t += m.micT
		x.statMu.Unlock()
		m.sol.Close()
	}()
	for {
		w := x.next()
		if w == nil {
			return
		}
		t0 := time.Now()
		m.runPath(w)
		x.finish(w, time.Since(t0))
		if m.cx.n > 3000000 || len(m.cache) > 400000 {
			m.resetCtx()
		}
	}
}

func (m *M) runPath(w *work) {
	cs := w.cs
	m.cs = cs
	m.globals = m.globals[:0]
	for i := range m.globals[:cap(m.globals)] {
		m.globals[:cap(m.globals)][i] = nil
	}
	m.depth, m.sp, m.steps = 0, 0, 0
	m.maxSteps = cs.spec.Steps
	if m.maxSteps == 0 {
		m.maxSteps = 6000000
	}
	m.pc = nil
	m.known = map[*Expr]bool{}
	m.uf = map[int32]int32{}
	m.groups = map[int32][]*Expr{}
	m.model = Model{}
	m.initModel = w.model
	m.names = map[string]int{}
	m.vars = nil
	m.nodes = nil
	m.prefix = m.prefix[:0]
	if w.node != nil {
		m.prefix = make([]dec, w.node.n)
		for n := w.node; n != nil; n = n.parent {
			m.prefix[n.n-1] = n.d
		}
	}
	m.pos, m.nDec = 0, 0
	m.mapMode, m.mapUsed = 0, false
	m.files = map[string]*vfile{}
	m.ofiles = map[*Val]*ofile{}
	m.onces = map[*Val]bool{}
	m.wraps = map[*Val]Val{}
	m.obs = nil
	m.reaches = map[string]bool{}
	m.unk = 0
	m.assertN, m.assertQ = 0, 0
	m.cx.NewEval()
	m.initing = 0
	m.tick, m.lastBr = 0, [4]*Expr{}
	m.pathEnd = time.Now().Add(m.ex_.pathLimit)

	kind, msg := m.runHarness(cs)
	var ext Model
	if kind == "steps" {
		plain := m.model
		m.pathEnd = time.Now().Add(20 * time.Second)
		if m.extreme() > 0 {
			ext = m.model
		}
		m.model = plain
	}

	cs.mu.Lock()
	defer cs.mu.Unlock()
	cs.decs += int64(m.nDec)
	cs.steps += m.steps
	if m.steps > cs.maxPath {
		cs.maxPath = m.steps
	}
	cs.asserts += m.assertN
	cs.assertQ += m.assertQ
	if m.unk > 0 {
		cs.unkPaths++
	}
	switch kind {
	case "ok":
		cs.done++
		for r := range m.reaches {
			cs.reach[r] = true
		}
		m.addSample(cs)
	case "assume":
		cs.assumed++
	case "panic":
		cs.panics++
		cs.nviolCand++
		m.addCand("panic", msg, m.model)
	case "steps":
		cs.stepsHit++
		if ext != nil {
			m.addCand("steps", msg, ext)
		}
		m.addCand("steps", msg, m.model)
	case "budget", "unsupported", "unknown":
		cs.budget++
		cs.unsup[kind+": "+msg]++
	case "violated":
		cs.done++
	case "internal":
		cs.unsup["internal: "+msg]++
	}
}

func (m *M) runHarness(cs *caseState) (kind, msg string) {
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		switch p := r.(type) {
		case abort:
			kind, msg = p.kind, p.msg
		case targetPanic:
			kind = "panic"
			msg = "panic"
			if i, ok := p.v.r.(*iface); ok {
				if s, ok := concStr(i.v); ok && i.t.k == kString {
					msg = s
				} else {
					msg = "panic of type " + i.t.String()
				}
			}
		default:
			kind = "internal"
			msg = fmt.Sprint(r)
			m.ex_.statMu.Lock()
			if len(m.ex_.internal) < 3 {
				m.ex_.internal = append(m.ex_.internal, msg+"\n"+string(debug.Stack()))
			}
			m.ex_.statMu.Unlock()
		}
	}()
	if in := cs.fn.Pkg.Func("init"); in != nil {
		m.callCode(m.P.codeOf(in), nil, nil, nil)
	}
	m.steps = 0
	m.callCode(m.P.codeOf(cs.fn), nil, nil, nil)
	return "ok", ""
}

func (m *M) inputsOf(mod Model) map[string]uint64 {
	in := map[string]uint64{}
	for _, v := range m.vars {
		in[v.name] = mod[v.id]
	}
	return in
}

func (m *M) addCand(kind, msg string, mod Model) {
	cs := m.cs
	for _, c := range cs.cands {
		if c.kind == kind && c.msg == msg {
			c.n++
			if c.n > 4 {
				return
			}
		}
	}
	if len(cs.cands) < 40 {
		cs.cands = append(cs.cands, &candidate{cs: cs, kind: kind, msg: msg, inputs: m.inputsOf(mod), mapDep: m.mapUsed})
	}
}

func (m *M) addSample(cs *caseState) {
	keep := cs.spec.Replays
	if keep == 0 {
		keep = 6
	}
	idx := len(cs.samples)
	if idx >= keep {
		idx = m.rng.Intn(cs.done)
		if idx >= keep {
			return
		}
	}
	s := &sample{cs: cs, inputs: m.inputsOf(m.model), mapDep: m.mapUsed, steps: m.steps}
	for _, o := range m.obs {
		str := o.name + "="
		for _, v := range o.vals {
			u := v.c
			if v.r != nil {
				if e, ok := v.r.(*Expr); ok {
					u = m.cx.Eval(e, m.model)
				} else {
					str += "?"
					continue
				}
			}
			if o.w == 8 {
				str += fmt.Sprintf("%02x", u)
			} else {
				str += fmt.Sprintf("%d", int64(u))
			}
		}
		s.obs = append(s.obs, str)
	}
	if idx == len(cs.samples) {
		cs.samples = append(cs.samples, s)
	} else {
		cs.samples[idx] = s
	}
}

// assert decides a property on the current path.
func (m *M) assert(c Val, msg string) {
	if c.r == nil {
		if c.c == 0 {
			m.violated(msg, m.model)
			panic(abort{"violated", msg})
		}
		m.assertN++
		return
	}
	e := c.r.(*Expr)
	if m.pos < len(m.prefix) {
		// already decided on the path this one branched off from
		m.addPC(e)
		return
	}
	if m.known[e] {
		m.assertN++
		return
	}
	ne := m.cx.Not(e)
	if !m.evalB(e) {
		m.violated(msg, m.model)
	} else {
		res, over := m.check2(ne, true)
		m.assertQ++
		switch res {
		case Unsat:
			m.assertN++
			return
		case Unknown:
			m.addPC(e)
			return
		}
		full := Model{}
		for k, v := range m.model {
			full[k] = v
		}
		for k, v := range over {
			full[k] = v
		}
		m.violated(msg, full)
		m.addPC(e)
		return
	}
	// the current model violates the assertion: continue where it holds, if anywhere
	res, over := m.check(e)
	if res != Sat {
		panic(abort{"violated", msg})
	}
	m.setModel(over)
	m.addPC(e)
}

func (m *M) violated(msg string, mod Model) {
	m.cs.mu.Lock()
	defer m.cs.mu.Unlock()
	m.cs.nviolCand++
	m.addCand("assert", msg, mod)
}

// coverage of repo code
func (P *Program) coverage() (fns []string, blocks, total int) {
	P.codes.Range(func(k, v any) bool {
		c := v.(*code)
		if !c.isRepo || c.execd.Load() == 0 {
			return true
		}
		fns = append(fns, c.name)
		for _, b := range c.blocks {
			total++
			if b.exec.Load() != 0 {
				blocks++
			}
		}
		return true
	})
	sort.Strings(fns)
	return
}

func solverNames() []string {
	if s := os.Getenv("VPSOLVER"); s != "" {
		return strings.Split(s, ",")
	}
	return []string{"z3-new", "cvc5"}
}
