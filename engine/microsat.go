package main

// A small bit-blasting decision procedure for the many easy queries of path exploration: the
// conjunction is translated to clauses over the bits of its variables and decided by a
// conflict-driven search. It answers Unknown when the query is big, uses an operator it does
// not translate, or the conflict budget runs out; those queries go to the SMT solvers. A
// satisfying assignment is evaluated against the query before it is believed, and a share of
// the unsatisfiable verdicts is put to the SMT solvers as well (see M.check).

type lit int32

const (
	litT lit = 0
	litF lit = 1
)

func (l lit) not() lit { return l ^ 1 }

type watch struct {
	c   int32 // clause start in the arena
	blk lit
}

type micro struct {
	arena   []lit // clauses: length, then literals
	watches [][]watch
	val     []int8 // per literal: 1 true, -1 false, 0 open
	level   []int32
	reason  []int32
	phase   []int8
	act     []float64
	inc     float64
	heap    []int32
	hpos    []int32
	trail   []lit
	lim     []int32
	qhead   int
	seen    []bool
	bad     bool // unsatisfiable at level 0
	confl   int

	gates map[[2]int64]lit
	bits  map[int32][]lit
	gave  bool
	size  int
}

func newMicro() *micro { return &micro{gates: map[[2]int64]lit{}, bits: map[int32][]lit{}} }

func (s *micro) reset() {
	s.arena = s.arena[:0]
	for i := range s.watches {
		s.watches[i] = s.watches[i][:0]
	}
	s.val, s.level, s.reason, s.phase, s.act, s.heap, s.hpos = s.val[:0], s.level[:0], s.reason[:0], s.phase[:0], s.act[:0], s.heap[:0], s.hpos[:0]
	s.trail, s.lim, s.qhead, s.seen = s.trail[:0], s.lim[:0], 0, s.seen[:0]
	s.bad, s.confl, s.inc, s.gave, s.size = false, 0, 1, false, 0
	clear(s.gates)
	clear(s.bits)
	s.newVar() // variable 0 is the constant true
	s.enqueue(litT, -1)
}

func (s *micro) newVar() lit {
	v := len(s.level)
	s.level = append(s.level, 0)
	s.reason = append(s.reason, -1)
	s.phase = append(s.phase, 0)
	s.act = append(s.act, 0)
	s.seen = append(s.seen, false)
	s.hpos = append(s.hpos, -1)
	s.val = append(s.val, 0, 0)
	for len(s.watches) < 2*v+2 {
		s.watches = append(s.watches, nil)
	}
	if v > 0 {
		s.hinsert(int32(v))
	}
	return lit(2 * v)
}

// ---- order heap

func (s *micro) less(a, b int32) bool { return s.act[a] > s.act[b] }
func (s *micro) hup(i int) {
	x := s.heap[i]
	for i > 0 {
		p := (i - 1) / 2
		if !s.less(x, s.heap[p]) {
			break
		}
		s.heap[i] = s.heap[p]
		s.hpos[s.heap[i]] = int32(i)
		i = p
	}
	s.heap[i] = x
	s.hpos[x] = int32(i)
}
func (s *micro) hdown(i int) {
	x := s.heap[i]
	n := len(s.heap)
	for {
		c := 2*i + 1
		if c >= n {
			break
		}
		if c+1 < n && s.less(s.heap[c+1], s.heap[c]) {
			c++
		}
		if !s.less(s.heap[c], x) {
			break
		}
		s.heap[i] = s.heap[c]
		s.hpos[s.heap[i]] = int32(i)
		i = c
	}
	s.heap[i] = x
	s.hpos[x] = int32(i)
}
func (s *micro) hinsert(v int32) {
	if s.hpos[v] >= 0 {
		return
	}
	s.heap = append(s.heap, v)
	s.hpos[v] = int32(len(s.heap) - 1)
	s.hup(len(s.heap) - 1)
}
func (s *micro) hpop() int32 {
	x := s.heap[0]
	l := s.heap[len(s.heap)-1]
	s.heap = s.heap[:len(s.heap)-1]
	s.hpos[x] = -1
	if len(s.heap) > 0 {
		s.heap[0] = l
		s.hpos[l] = 0
		s.hdown(0)
	}
	return x
}

// ---- clauses

func (s *micro) enqueue(l lit, why int32) bool {
	if s.val[l] != 0 {
		return s.val[l] > 0
	}
	s.val[l], s.val[l^1] = 1, -1
	v := l >> 1
	s.level[v] = int32(len(s.lim))
	s.reason[v] = why
	s.trail = append(s.trail, l)
	return true
}

func (s *micro) add(ls ...lit) {
	// only called at level 0
	var out [4]lit
	n := 0
	for _, l := range ls {
		if s.val[l] > 0 && s.level[l>>1] == 0 {
			return
		}
		if s.val[l] < 0 {
			continue
		}
		dup := false
		for i := 0; i < n; i++ {
			if out[i] == l {
				dup = true
			}
			if out[i] == l^1 {
				return
			}
		}
		if !dup {
			out[n] = l
			n++
		}
	}
	switch n {
	case 0:
		s.bad = true
	case 1:
		if !s.enqueue(out[0], -1) {
			s.bad = true
		}
	default:
		s.attach(out[:n])
	}
}

func (s *micro) attach(ls []lit) int32 {
	c := int32(len(s.arena))
	s.arena = append(s.arena, lit(len(ls)))
	s.arena = append(s.arena, ls...)
	s.watches[ls[0]^1] = append(s.watches[ls[0]^1], watch{c, ls[1]})
	s.watches[ls[1]^1] = append(s.watches[ls[1]^1], watch{c, ls[0]})
	return c
}

func (s *micro) propagate() int32 {
	for s.qhead < len(s.trail) {
		p := s.trail[s.qhead]
		s.qhead++
		ws := s.watches[p]
		j := 0
	next:
		for i := 0; i < len(ws); i++ {
			w := ws[i]
			if s.val[w.blk] > 0 {
				ws[j] = w
				j++
				continue
			}
			n := int(s.arena[w.c])
			cl := s.arena[w.c+1 : int(w.c)+1+n]
			if cl[0] == p^1 {
				cl[0], cl[1] = cl[1], cl[0]
			}
			if s.val[cl[0]] > 0 {
				ws[j] = watch{w.c, cl[0]}
				j++
				continue
			}
			for k := 2; k < n; k++ {
				if s.val[cl[k]] >= 0 {
					cl[1], cl[k] = cl[k], cl[1]
					s.watches[cl[1]^1] = append(s.watches[cl[1]^1], watch{w.c, cl[0]})
					continue next
				}
			}
			ws[j] = watch{w.c, cl[0]}
			j++
			if !s.enqueue(cl[0], w.c) {
				for i++; i < len(ws); i++ {
					ws[j] = ws[i]
					j++
				}
				s.watches[p] = ws[:j]
				return w.c
			}
		}
		s.watches[p] = ws[:j]
	}
	return -1
}

func (s *micro) backtrack(l int) {
	if len(s.lim) <= l {
		return
	}
	b := int(s.lim[l])
	for i := len(s.trail) - 1; i >= b; i-- {
		x := s.trail[i]
		s.val[x], s.val[x^1] = 0, 0
		v := int32(x >> 1)
		s.phase[v] = 1 - 2*int8(x&1)
		s.reason[v] = -1
		s.hinsert(v)
	}
	s.trail = s.trail[:b]
	s.lim = s.lim[:l]
	s.qhead = b
}

func (s *micro) bump(v int32) {
	s.act[v] += s.inc
	if s.act[v] > 1e100 {
		for i := range s.act {
			s.act[i] *= 1e-100
		}
		s.inc *= 1e-100
	}
	if s.hpos[v] >= 0 {
		s.hup(int(s.hpos[v]))
	}
}

func (s *micro) analyse(c int32) ([]lit, int) {
	out := []lit{0}
	n := 0
	idx := len(s.trail) - 1
	p := lit(-1)
	cur := int32(len(s.lim))
	for {
		k := int(s.arena[c])
		for _, q := range s.arena[c+1 : int(c)+1+k] {
			if q == p {
				continue
			}
			v := int32(q >> 1)
			if s.seen[v] || s.level[v] == 0 {
				continue
			}
			s.seen[v] = true
			s.bump(v)
			if s.level[v] == cur {
				n++
			} else {
				out = append(out, q)
			}
		}
		for !s.seen[s.trail[idx]>>1] {
			idx--
		}
		p = s.trail[idx]
		idx--
		s.seen[p>>1] = false
		n--
		if n == 0 {
			break
		}
		c = s.reason[p>>1]
	}
	out[0] = p ^ 1
	bl := 0
	for i := 1; i < len(out); i++ {
		s.seen[out[i]>>1] = false
		if int(s.level[out[i]>>1]) > bl {
			bl = int(s.level[out[i]>>1])
			out[1], out[i] = out[i], out[1]
		}
	}
	return out, bl
}

// solve returns Unknown after maxConfl conflicts.
func (s *micro) solve(maxConfl int) Res {
	if s.bad || s.propagate() >= 0 {
		return Unsat
	}
	next := 64
	for {
		c := s.propagate()
		if c >= 0 {
			if len(s.lim) == 0 {
				return Unsat
			}
			s.confl++
			if s.confl > maxConfl {
				return Unknown
			}
			cl, bl := s.analyse(c)
			s.backtrack(bl)
			if len(cl) == 1 {
				s.enqueue(cl[0], -1)
			} else {
				s.enqueue(cl[0], s.attach(cl))
			}
			s.inc *= 1.05
			if s.confl >= next {
				next = s.confl + 64 + s.confl/4
				s.backtrack(0)
			}
			continue
		}
		v := int32(-1)
		for len(s.heap) > 0 {
			x := s.hpop()
			if s.val[2*x] == 0 {
				v = x
				break
			}
		}
		if v < 0 {
			return Sat
		}
		s.lim = append(s.lim, int32(len(s.trail)))
		l := lit(2 * v)
		if s.phase[v] <= 0 {
			l ^= 1
		}
		s.enqueue(l, -1)
	}
}

// ---- gates

func (s *micro) gate(kind int64, a, b, c lit) (lit, bool) {
	k := [2]int64{kind<<32 | int64(a), int64(b)<<32 | int64(c)}
	if l, ok := s.gates[k]; ok {
		return l, true
	}
	l := s.newVar()
	s.gates[k] = l
	return l, false
}

func (s *micro) and(a, b lit) lit {
	if a == litF || b == litF || a == b^1 {
		return litF
	}
	if a == litT || a == b {
		return b
	}
	if b == litT {
		return a
	}
	if a > b {
		a, b = b, a
	}
	o, had := s.gate(1, a, b, 0)
	if !had {
		s.add(o^1, a)
		s.add(o^1, b)
		s.add(o, a^1, b^1)
	}
	return o
}
func (s *micro) or(a, b lit) lit { return s.and(a^1, b^1) ^ 1 }
func (s *micro) xor(a, b lit) lit {
	neg := (a ^ b) & 1
	a &^= 1
	b &^= 1
	if a == b {
		return litF ^ neg
	}
	if a == litT { // constant
		return b ^ 1 ^ neg
	}
	if b == litT {
		return a ^ 1 ^ neg
	}
	if a > b {
		a, b = b, a
	}
	o, had := s.gate(2, a, b, 0)
	if !had {
		s.add(o^1, a, b)
		s.add(o^1, a^1, b^1)
		s.add(o, a^1, b)
		s.add(o, a, b^1)
	}
	return o ^ neg
}
func (s *micro) mux(c, a, b lit) lit { // c ? a : b
	if c == litT || a == b {
		return a
	}
	if c == litF {
		return b
	}
	if a == litT || a == c {
		return s.or(c, b)
	}
	if a == litF || a == c^1 {
		return s.and(c^1, b)
	}
	if b == litT || b == c^1 {
		return s.or(c^1, a)
	}
	if b == litF || b == c {
		return s.and(c, a)
	}
	if a == b^1 {
		return s.xor(c, b)
	}
	o, had := s.gate(3, c, a, b)
	if !had {
		s.add(c^1, a^1, o)
		s.add(c^1, a, o^1)
		s.add(c, b^1, o)
		s.add(c, b, o^1)
	}
	return o
}
func (s *micro) adder(a, b []lit, cin lit) []lit {
	out := make([]lit, len(a))
	for i := range a {
		x := s.xor(a[i], b[i])
		out[i] = s.xor(x, cin)
		cin = s.or(s.and(a[i], b[i]), s.and(cin, x))
	}
	return out
}
func (s *micro) ult(a, b []lit, eq lit) lit {
	lt := eq
	for i := range a {
		lt = s.mux(s.xor(a[i], b[i]), b[i], lt)
	}
	return lt
}
func constBits(c uint64, w int) []lit {
	o := make([]lit, w)
	for i := range o {
		o[i] = litF
		if c>>i&1 == 1 {
			o[i] = litT
		}
	}
	return o
}

// blast translates e; booleans have one bit.
func (s *micro) blast(e *Expr) []lit {
	if e.op == OConst {
		if e.w == 0 {
			return constBits(e.c, 1)
		}
		return constBits(e.c, int(e.w))
	}
	if b, ok := s.bits[e.id]; ok {
		return b
	}
	s.size++
	if s.size > 4000 || s.gave {
		s.gave = true
		return constBits(0, max(1, int(e.w)))
	}
	b := s.blast1(e)
	s.bits[e.id] = b
	return b
}

func (s *micro) blast1(e *Expr) []lit {
	w := int(e.w)
	one := func(l lit) []lit { return []lit{l} }
	bin := func() ([]lit, []lit) { return s.blast(e.a[0]), s.blast(e.a[1]) }
	flip := func(b []lit) []lit { // signed order as unsigned order
		o := append([]lit{}, b...)
		o[len(o)-1] ^= 1
		return o
	}
	switch e.op {
	case OVar:
		o := make([]lit, max(1, w))
		for i := range o {
			o[i] = s.newVar()
		}
		return o
	case ONot:
		return one(s.blast(e.a[0])[0] ^ 1)
	case OAnd, OOr:
		r := litT
		for _, x := range e.a {
			l := s.blast(x)[0]
			if e.op == OOr {
				l ^= 1
			}
			r = s.and(r, l)
		}
		if e.op == OOr {
			r ^= 1
		}
		return one(r)
	case OEq:
		a, b := bin()
		r := litT
		for i := range a {
			r = s.and(r, s.xor(a[i], b[i])^1)
		}
		return one(r)
	case OUlt:
		a, b := bin()
		return one(s.ult(a, b, litF))
	case OUle:
		a, b := bin()
		return one(s.ult(a, b, litT))
	case OSlt:
		a, b := bin()
		return one(s.ult(flip(a), flip(b), litF))
	case OSle:
		a, b := bin()
		return one(s.ult(flip(a), flip(b), litT))
	case OIte:
		c, a, b := s.blast(e.a[0])[0], s.blast(e.a[1]), s.blast(e.a[2])
		o := make([]lit, len(a))
		for i := range a {
			o[i] = s.mux(c, a[i], b[i])
		}
		return o
	case OConcat:
		o := make([]lit, 0, w)
		for i := len(e.a) - 1; i >= 0; i-- {
			o = append(o, s.blast(e.a[i])...)
		}
		return o
	case OExtract:
		return s.blast(e.a[0])[e.c : int(e.c)+w]
	case OSExt:
		a := s.blast(e.a[0])
		o := append(make([]lit, 0, w), a...)
		for len(o) < w {
			o = append(o, a[len(a)-1])
		}
		return o
	case OBNot:
		a := s.blast(e.a[0])
		o := make([]lit, w)
		for i := range o {
			o[i] = a[i] ^ 1
		}
		return o
	case OBAnd, OBOr, OBXor:
		a, b := bin()
		o := make([]lit, w)
		for i := range o {
			switch e.op {
			case OBAnd:
				o[i] = s.and(a[i], b[i])
			case OBOr:
				o[i] = s.or(a[i], b[i])
			default:
				o[i] = s.xor(a[i], b[i])
			}
		}
		return o
	case OLin:
		nw := w
		if n, ok := e.narrowWidth(); ok {
			nw = int(n)
		}
		acc := constBits(e.c, nw)
		for i, x := range e.a {
			a := s.blast(x)
			k := e.k[i] & mask(uint8(nw))
			// a negative coefficient with few bits is cheaper subtracted
			neg := false
			if nk := -k & mask(uint8(nw)); popcount(nk) < popcount(k) {
				k, neg = nk, true
			}
			for j := 0; j < nw; j++ {
				if k>>j&1 == 0 {
					continue
				}
				t := make([]lit, nw)
				for q := range t {
					t[q] = litF
					if q >= j {
						t[q] = a[q-j]
					}
					if neg {
						t[q] ^= 1
					}
				}
				cin := litF
				if neg {
					cin = litT
				}
				acc = s.adder(acc, t, cin)
			}
		}
		for len(acc) < w {
			acc = append(acc, acc[nw-1])
		}
		return acc
	case OMul:
		a, b := bin()
		n := func(x []lit) (c int) {
			for _, l := range x {
				if l > litF {
					c++
				}
			}
			return
		}
		if n(a)*n(b) > 300 {
			s.gave = true
			return constBits(0, w)
		}
		acc := constBits(0, w)
		for j := 0; j < w; j++ {
			if b[j] == litF {
				continue
			}
			t := make([]lit, w)
			for q := range t {
				t[q] = litF
				if q >= j {
					t[q] = s.and(a[q-j], b[j])
				}
			}
			acc = s.adder(acc, t, litF)
		}
		return acc
	case OShl, OLshr, OAshr:
		a, b := bin()
		fill := litF
		if e.op == OAshr {
			fill = a[w-1]
		}
		cur := a
		big := litF
		for j := range b {
			if j >= 7 || 1<<j >= w {
				big = s.or(big, b[j])
				continue
			}
			nx := make([]lit, w)
			for i := range nx {
				src := fill
				if e.op == OShl {
					src = litF
					if i-1<<j >= 0 {
						src = cur[i-1<<j]
					}
				} else if i+1<<j < w {
					src = cur[i+1<<j]
				}
				nx[i] = s.mux(b[j], src, cur[i])
			}
			cur = nx
		}
		o := make([]lit, w)
		for i := range o {
			o[i] = s.mux(big, fill, cur[i])
		}
		return o
	}
	s.gave = true
	return constBits(0, max(1, w))
}

func popcount(x uint64) (n int) {
	for ; x != 0; x &= x - 1 {
		n++
	}
	return
}

// Check decides the conjunction of cs.
func (s *micro) Check(cs, vars []*Expr, hint Model) (Res, Model) {
	s.reset()
	for _, c := range cs {
		b := s.blast(c)
		if s.gave {
			return Unknown, nil
		}
		s.add(b[0])
	}
	for _, v := range vars {
		if hv, ok := hint[v.id]; ok {
			for i, l := range s.bits[v.id] {
				s.phase[l>>1] = -1
				if hv>>i&1 == 1 {
					s.phase[l>>1] = 1
				}
			}
		}
	}
	r := s.solve(3000)
	if r != Sat {
		return r, nil
	}
	m := Model{}
	for _, v := range vars {
		x := uint64(0)
		for i, l := range s.bits[v.id] {
			if s.val[l] > 0 {
				x |= 1 << i
			}
		}
		m[v.id] = x
	}
	return Sat, m
}
