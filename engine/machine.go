package main

import (
	"fmt"
	"go/token"
	"math/rand"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// M is one worker: an interpreter with its own expression context and solver.
type M struct {
	P   *Program
	cx  *Ctx
	sol *Solver
	ex_ *Explorer
	rng *rand.Rand

	// persistent across paths
	stdGlob  map[int]*Val
	initing  int
	stdDone  map[*ssa.Package]bool
	cache    map[uint64]cacheEnt
	mic      *micro
	micN     int // queries put to it
	micU     int // of those, unsatisfiable
	micA     int // of those, confirmed by an SMT solver
	micT     time.Duration
	varsMemo map[int32][]int32

	// per path
	globals   []*Val
	glInit    []bool
	depth     int
	frames    []*frame
	stack     []Val
	sp        int
	steps     int64
	maxSteps  int64
	pc        []*Expr
	known     map[*Expr]bool
	uf        map[int32]int32
	groups    map[int32][]*Expr
	model     Model
	initModel map[string]uint64
	names     map[string]int
	vars      []*Expr
	nodes     *node
	prefix    []dec
	pos       int
	nDec      int
	cs        *caseState
	mapMode   int
	mapUsed   bool
	files     map[string]*vfile
	obs       []obsEnt
	reaches   map[string]bool
	unk       int
	curFn     *code
	ofiles    map[*Val]*ofile
	onces     map[*Val]bool
	wraps     map[*Val]Val
	assertN   int
	assertQ   int
	tick      int64
	pathEnd   time.Time
	lastBr    [4]*Expr // the conditions of the last branches, newest first
}

// checkTime ends a path that takes too long, and every path some time after the deadline.
func (m *M) checkTime(where string) {
	now := time.Now()
	if now.After(m.ex_.deadline.Add(5 * time.Second)) {
		panic(abort{"budget", "time budget used up on the path"})
	}
	if now.After(m.pathEnd) {
		panic(abort{"steps", "time limit of a path, in " + where})
	}
}

// extreme moves the inputs that the last branches depend on to their largest feasible
// values, for an input that shows how long the loop can get.
func (m *M) extreme() (n int) {
	defer func() { recover() }()
	seen := map[int32]bool{}
	for _, e := range m.lastBr {
		if e == nil {
			continue
		}
		for _, v := range m.varsOf(e) {
			if seen[v] || n >= 12 {
				continue
			}
			seen[v] = true
			n++
			x := m.cx.varByID[v]
			if x.w < 8 {
				continue
			}
			for i := int(x.w) - 1; i >= 0; i-- {
				bit := m.cx.Const(1<<uint(i), x.w)
				c := m.cx.Eq(m.cx.And2(x, bit), bit)
				if m.evalB(c) {
					m.addPC(c)
					continue
				}
				r, mod := m.check(c)
				if r == Sat {
					m.setModel(mod)
					m.addPC(c)
				}
			}
		}
	}
	return n
}

var noMicro = os.Getenv("VPNOMICRO") != ""

type obsEnt struct {
	name string
	vals []Val
	w    uint8
}

// dec is one decision of a path: the side of a branch, or the value picked by a
// concretisation.
type dec struct {
	v      uint64
	forced bool
	at     int64 // step count, to detect a replay that diverges
}

type node struct {
	parent *node
	d      dec
	n      int
}

type cacheEnt struct {
	key []int32
	res Res
	mod Model
	smt bool
}

type frame struct {
	m         *M
	code      *code
	regs      []Val
	b, prev   int
	ret       Val
	defers    []func()
	panicking bool
	pv        Val
	caller    *frame
	goexit    bool
}

func (m *M) pos2(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	ps := m.P.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", ps.Filename, ps.Line)
}

// rtPanic raises a run-time panic of the code under test.
func (m *M) rtPanic(msg string) {
	m.panicStr("runtime error: " + msg)
}
func (m *M) panicStr(msg string) {
	panic(targetPanic{Val{r: &iface{m.ex_.strTd, vstr(msg)}}})
}
func unsupported(f string, a ...any) {
	panic(abort{"unsupported", fmt.Sprintf(f, a...)})
}

// ---- calls

const maxDepth = 6000

func (m *M) callCode(c *code, args []Val, env []Val, caller *frame) Val {
	c.ready()
	if c.intr != nil {
		return c.intr(m, caller, args)
	}
	if c.noBody {
		unsupported("call of %s (no body)", c.name)
	}
	m.depth++
	if m.depth > maxDepth {
		m.depth = 0
		panic(abort{"steps", "call depth limit in " + c.name})
	}
	for m.depth >= len(m.frames) {
		m.frames = append(m.frames, &frame{})
	}
	fr := m.frames[m.depth]
	*fr = frame{m: m, code: c, caller: caller, prev: -1, defers: fr.defers[:0]}
	ostack, osp := m.stack, m.sp
	if m.sp+c.nregs > len(m.stack) {
		m.stack = make([]Val, max(2*len(m.stack), 4096+c.nregs))
		m.sp = 0
	}
	fr.regs = m.stack[m.sp : m.sp+c.nregs : m.sp+c.nregs]
	m.sp += c.nregs
	copy(fr.regs, args)
	copy(fr.regs[c.nparams:], env)
	odepth := m.depth
	if c.hasDefer {
		m.runDeferFrame(fr, odepth)
	} else {
		run(fr)
	}
	clear(fr.regs)
	m.stack, m.sp = ostack, osp
	m.depth = odepth - 1
	return fr.ret
}

func (m *M) runDeferFrame(fr *frame, depth int) {
	sp, stack := m.sp, m.stack
	normal := m.protect(fr, func() { run(fr) })
	if normal {
		return
	}
	// panicking: run the deferred calls, then either resume in the recover block or re-panic
	m.depth, m.sp, m.stack = depth, sp, stack
	m.runDefers(fr)
	if fr.panicking {
		panic(targetPanic{fr.pv})
	}
	if fr.code.recover >= 0 {
		fr.prev = -1
		fr.b = fr.code.recover
		run(fr)
	} else {
		fr.ret = fr.code.res.zero()
		if len(fr.code.res.fields()) == 1 {
			fr.ret = fr.ret.r.(agg)[0]
		}
	}
}

// protect runs f; on a target panic it records it in fr and returns false.
func (m *M) protect(fr *frame, f func()) (ok bool) {
	defer func() {
		if ok {
			return
		}
		r := recover()
		if tp, is := r.(targetPanic); is {
			fr.panicking = true
			fr.pv = tp.v
			return
		}
		panic(r)
	}()
	f()
	return true
}

func (m *M) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth, sp, stack := m.depth, m.sp, m.stack
		if !m.protect(fr, d) {
			m.depth, m.sp, m.stack = depth, sp, stack
		}
	}
}

func run(fr *frame) {
	m := fr.m
	c := fr.code
	for {
		b := c.blocks[fr.b]
		if fr.prev < 0 && fr.b == 0 {
			c.execd.Store(1)
		}
		if b.exec.Load() == 0 {
			b.exec.Store(1)
		}
		m.steps += int64(len(b.ins) + 1)
		if m.steps > m.maxSteps {
			panic(abort{"steps", "step limit in " + c.name})
		}
		if m.steps > m.tick {
			m.tick = m.steps + 200000
			m.checkTime(c.name)
		}
		for _, f := range b.ins {
			f(fr)
		}
		next := b.term(fr)
		if next < 0 {
			return
		}
		nb := c.blocks[next]
		if len(nb.phis) > 0 {
			e := 0
			for i, p := range nb.preds {
				if p == fr.b {
					e = i
					break
				}
			}
			if len(nb.phis) == 1 {
				p := &nb.phis[0]
				fr.regs[p.dst] = p.edges[e].get(fr)
			} else {
				var buf [8]Val
				tmp := buf[:0]
				for i := range nb.phis {
					tmp = append(tmp, nb.phis[i].edges[e].get(fr))
				}
				for i := range nb.phis {
					fr.regs[nb.phis[i].dst] = tmp[i]
				}
			}
		}
		fr.prev = fr.b
		fr.b = next
	}
}

// callFn calls a function value.
func (m *M) callVal(f Val, args []Val, caller *frame) Val {
	if f.r == nil {
		m.rtPanic("invalid memory address or nil pointer dereference (call of nil function)")
	}
	cl := f.r.(*closure)
	if cl.native != nil {
		return cl.native(m, args)
	}
	return m.callCode(cl.c, args, cl.env, caller)
}

func (m *M) callNamed(pkg, name string, args ...Val) Val {
	fn := m.P.Func(pkg, name)
	if fn == nil {
		unsupported("no function %s.%s", pkg, name)
	}
	return m.callCode(m.P.codeOf(fn), args, nil, nil)
}

// callMethod calls method name of the dynamic value in iface v.
func (m *M) callMethod(v Val, name string, args ...Val) Val {
	if v.r == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := v.r.(*iface)
	c := i.t.methodByName(nil, name)
	if c == nil {
		unsupported("no method %s on %s", name, i.t)
	}
	return m.callCode(c, append([]Val{i.v}, args...), nil, nil)
}

// ---- globals

func (m *M) global(i int) *Val {
	if i < len(m.globals) && m.globals[i] != nil {
		return m.globals[i]
	}
	td, pkg := m.P.globalInfo(i)
	if isRoot(pkg) {
		for i >= len(m.globals) {
			m.globals = append(m.globals, nil)
		}
		p := new(Val)
		*p = td.zero()
		m.globals[i] = p
		return p
	}
	if p := m.stdGlob[i]; p != nil {
		return p
	}
	p := new(Val)
	*p = td.zero()
	m.stdGlob[i] = p
	if i == m.osArgs() {
		*p = vslice([]Val{vstr("prog")})
	}
	m.initStd(pkg)
	return p
}

// osArgs is the index of os.Args.
func (m *M) osArgs() int {
	if p := m.P.pkgs["os"]; p != nil {
		if g := p.Var("Args"); g != nil {
			return m.P.globalIdx(g)
		}
	}
	return -1
}

func (m *M) initStd(pkg *ssa.Package) {
	if m.ex_.noInit[pkg.Pkg.Path()] {
		return
	}
	if m.stdDone[pkg] {
		return
	}
	m.stdDone[pkg] = true
	fn := pkg.Func("init")
	if fn == nil {
		return
	}
	steps, maxs := m.steps, m.maxSteps
	m.maxSteps = 1 << 60
	m.initing++
	m.callCode(m.P.codeOf(fn), nil, nil, nil)
	m.initing--
	m.steps, m.maxSteps = steps, maxs
}

// ---- branching

func (m *M) addPC(e *Expr) {
	if e == m.cx.T {
		return
	}
	if e.op == OAnd {
		for _, x := range e.a {
			m.addPC(x)
		}
		return
	}
	if m.known[e] {
		return
	}
	m.known[e] = true
	m.pc = append(m.pc, e)
	vs := m.varsOf(e)
	if len(vs) == 0 {
		return
	}
	r := m.find(vs[0])
	for _, v := range vs[1:] {
		o := m.find(v)
		if o != r {
			// union: smaller list into the larger
			if len(m.groups[o]) > len(m.groups[r]) {
				o, r = r, o
			}
			m.uf[o] = r
			m.groups[r] = append(m.groups[r], m.groups[o]...)
			delete(m.groups, o)
		}
	}
	m.groups[r] = append(m.groups[r], e)
}

func (m *M) find(v int32) int32 {
	p, ok := m.uf[v]
	if !ok || p == v {
		return v
	}
	r := m.find(p)
	m.uf[v] = r
	return r
}

func (m *M) varsOf(e *Expr) []int32 {
	if !e.many {
		return e.vars
	}
	if v, ok := m.varsMemo[e.id]; ok {
		return v
	}
	seen := map[int32]bool{}
	set := map[int32]bool{}
	stack := []*Expr{e}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if seen[x.id] {
			continue
		}
		seen[x.id] = true
		if !x.many {
			for _, v := range x.vars {
				set[v] = true
			}
			continue
		}
		stack = append(stack, x.a...)
	}
	out := make([]int32, 0, len(set))
	for v := range set {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i] < out[j] })
	m.varsMemo[e.id] = out
	return out
}

// check decides whether extra is consistent with the path condition. The returned model
// covers the variables of the slice that was sent; the rest of the current model stays valid.
func (m *M) check(extra *Expr) (Res, Model) { return m.check2(extra, false) }

// check2 with final set always asks an SMT solver for an unsatisfiable verdict.
func (m *M) check2(extra *Expr, final bool) (Res, Model) {
	if extra == m.cx.F {
		return Unsat, nil
	}
	vs := m.varsOf(extra)
	roots := map[int32]bool{}
	var cs []*Expr
	for _, v := range vs {
		r := m.find(v)
		if !roots[r] {
			roots[r] = true
			cs = append(cs, m.groups[r]...)
		}
	}
	cs = append(cs, extra)
	sort.Slice(cs, func(i, j int) bool { return cs[i].id < cs[j].id })
	h := uint64(len(cs))
	key := make([]int32, len(cs))
	for i, c := range cs {
		h = mix(h, uint64(c.id))
		key[i] = c.id
	}
	if ce, ok := m.cache[h]; ok && eqKey(ce.key, key) && (ce.smt || !final || ce.res == Sat) {
		m.ex_.cacheHits.Add(1)
		return ce.res, ce.mod
	}
	m.checkTime("a query")
	vset := map[int32]bool{}
	for _, c := range cs {
		for _, v := range m.varsOf(c) {
			vset[v] = true
		}
	}
	vars := make([]*Expr, 0, len(vset))
	for v := range vset {
		vars = append(vars, m.cx.varByID[v])
	}
	sort.Slice(vars, func(i, j int) bool { return vars[i].id < vars[j].id })
	res, mod, smt := m.decide(cs, vars, final)
	if res == Unknown {
		m.unk++
	} else {
		m.cache[h] = cacheEnt{key, res, mod, smt}
	}
	return res, mod
}

// decide puts a query to the in-process procedure first and to the SMT solvers where that
// gives up, where the verdict settles an assertion, and for a share of the rest.
func (m *M) decide(cs, vars []*Expr, final bool) (Res, Model, bool) {
	if noMicro {
		r, mod := m.sol.Check(cs, vars)
		return r, mod, true
	}
	t0 := time.Now()
	res, mod := m.mic.Check(cs, vars, m.model)
	m.micN++
	m.micT += time.Since(t0)
	if res == Sat && !m.cx.holds(cs, mod) {
		panic(abort{"internal", "the in-process decision procedure returned a wrong model"})
	}
	if res == Unknown {
		r, mod := m.sol.Check(cs, vars)
		return r, mod, true
	}
	if res == Unsat {
		m.micU++
		if final || m.micU%32 == 1 {
			m.micA++
			r, smod := m.sol.Check(cs, vars)
			if r == Sat {
				if !m.cx.holds(cs, smod) {
					panic(abort{"internal", "an SMT solver returned a wrong model"})
				}
				panic(abort{"internal", "the in-process decision procedure and the SMT solver disagree"})
			}
			return r, nil, true
		}
	}
	return res, mod, false
}

func eqKey(a, b []int32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (m *M) evalB(e *Expr) bool { return m.cx.Eval(e, m.model) == 1 }
func (m *M) setModel(over Model) {
	n := make(Model, len(m.model)+len(over))
	for k, v := range m.model {
		n[k] = v
	}
	for k, v := range over {
		n[k] = v
	}
	m.model = n
	m.cx.NewEval()
}

func (m *M) pushDec(d dec) {
	d.at = m.steps
	n := 1
	if m.nodes != nil {
		n = m.nodes.n + 1
	}
	m.nodes = &node{m.nodes, d, n}
	m.nDec++
}

// spawn queues the alternative of the decision about to be taken.
func (m *M) spawn(d dec, over Model) {
	d.at = m.steps
	n := 1
	if m.nodes != nil {
		n = m.nodes.n + 1
	}
	nm := make(map[string]uint64, len(m.model)+len(over))
	for k, v := range m.model {
		nm[m.cx.varByID[k].name] = v
	}
	for k, v := range over {
		nm[m.cx.varByID[k].name] = v
	}
	m.ex_.push(m.cs, &work{cs: m.cs, node: &node{m.nodes, d, n}, model: nm})
}

func (m *M) nextPrefix() (dec, bool) {
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		if d.at != m.steps {
			panic(abort{"internal", "replay of a path prefix diverged"})
		}
		m.pushDec(d)
		return d, true
	}
	return dec{}, false
}

// branch decides a condition, forking when both sides are feasible.
func (m *M) branch(c Val) bool {
	if c.r == nil {
		return c.c != 0
	}
	e := c.r.(*Expr)
	if m.known[e] {
		return true
	}
	ne := m.cx.Not(e)
	if m.known[ne] {
		return false
	}
	if d, ok := m.nextPrefix(); ok {
		t := d.v != 0
		if !d.forced {
			if t {
				m.addPC(e)
			} else {
				m.addPC(ne)
			}
		}
		return t
	}
	copy(m.lastBr[1:], m.lastBr[:3])
	m.lastBr[0] = e
	v := m.evalB(e)
	other := ne
	if !v {
		other = e
	}
	res, over := m.check(other)
	d := dec{v: b2u(v), forced: res == Unsat}
	if res == Sat {
		m.spawn(dec{v: b2u(!v)}, over)
	}
	m.pushDec(d)
	if !d.forced {
		if v {
			m.addPC(e)
		} else {
			m.addPC(ne)
		}
	}
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// conc fixes a symbolic value, forking over all its feasible values.
func (m *M) conc(v Val, w uint8) uint64 {
	if v.r == nil {
		return v.c
	}
	e := v.r.(*Expr)
	for n := 0; ; n++ {
		if e.umin == e.umax {
			return e.umin
		}
		if d, ok := m.nextPrefix(); ok {
			val := d.v >> 1
			c := m.cx.Eq(e, m.cx.Const(val, w))
			if d.v&1 == 1 {
				if !d.forced {
					m.addPC(c)
				}
				return val
			}
			m.addPC(m.cx.Not(c))
			continue
		}
		val := m.cx.Eval(e, m.model)
		c := m.cx.Eq(e, m.cx.Const(val, w))
		if c == m.cx.T || m.known[c] {
			// recorded all the same, so that a replay of the prefix stays aligned
			m.pushDec(dec{v: val<<1 | 1, forced: true})
			return val
		}
		if val >= 1<<62 {
			unsupported("concretisation of a huge value")
		}
		nc := m.cx.Not(c)
		res, over := m.check(nc)
		d := dec{v: val<<1 | 1, forced: res == Unsat}
		if res == Sat {
			m.spawn(dec{v: val << 1}, over)
		}
		m.pushDec(d)
		if !d.forced {
			m.addPC(c)
		}
		return val
	}
}

// choose forks n ways without a solver query; used for engine nondeterminism that has no
// counterpart in the inputs (map iteration order).
func (m *M) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if d, ok := m.nextPrefix(); ok {
		return int(d.v)
	}
	for i := 1; i < n; i++ {
		m.spawn(dec{v: uint64(i)}, nil)
	}
	m.pushDec(dec{v: 0})
	return 0
}

// assume restricts the path.
func (m *M) assume(c Val) {
	if c.r == nil {
		if c.c == 0 {
			panic(abort{"assume", ""})
		}
		return
	}
	e := c.r.(*Expr)
	if m.pos < len(m.prefix) {
		m.addPC(e)
		return
	}
	if !m.evalB(e) {
		res, over := m.check(e)
		if res != Sat {
			if res == Unknown {
				panic(abort{"unknown", "assumption undecided"})
			}
			panic(abort{"assume", ""})
		}
		m.setModel(over)
	}
	m.addPC(e)
}

// newVar introduces an input.
func (m *M) newVar(name string, w uint8) Val {
	k := m.names[name]
	m.names[name] = k + 1
	full := fmt.Sprintf("%s#%d", name, k)
	e := m.cx.varTab[full]
	if e == nil || e.w != w {
		e = m.cx.Var(full, w)
	}
	m.vars = append(m.vars, e)
	if v, ok := m.initModel[full]; ok {
		m.model[e.id] = v & mask(w)
	}
	return Val{r: e}
}
