package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Hash-consed bit-vector / boolean expressions. Width 0 means boolean.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OLin // c + sum k[i]*a[i]
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OBNot
	OShl
	OLshr
	OAshr
	OConcat  // a[0] is the most significant part
	OExtract // low bit in c, width w
	OSExt
)

type Expr struct {
	op   Op
	w    uint8
	a    []*Expr
	k    []uint64
	c    uint64
	name string
	id   int32
	hash uint64
	umin uint64
	umax uint64
	vars []int32 // sorted ids of variables, nil if more than maxVars (see many)
	many bool
	sent [2]uint32 // per solver
}

const maxVars = 12

type Ctx struct {
	tab    map[uint64][]*Expr
	n      int32
	T, F   *Expr
	varTab map[string]*Expr
	// evaluation memo
	memo    []uint64
	stamp   []uint32
	cur     uint32
	memo2   []uint64
	stamp2  []uint32
	cur2    uint32
	gen     uint32
	varByID map[int32]*Expr
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Expr{}, varTab: map[string]*Expr{}, varByID: map[int32]*Expr{}}
	c.T = c.mk(&Expr{op: OConst, w: 0, c: 1})
	c.F = c.mk(&Expr{op: OConst, w: 0, c: 0})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	return h ^ (h >> 33)
}

func (cx *Ctx) mk(e *Expr) *Expr {
	h := mix(uint64(e.op)<<8|uint64(e.w), e.c)
	for _, x := range e.a {
		h = mix(h, uint64(x.id))
	}
	for _, x := range e.k {
		h = mix(h, x)
	}
	for i := 0; i < len(e.name); i++ {
		h = mix(h, uint64(e.name[i]))
	}
	e.hash = h
outer:
	for _, o := range cx.tab[h] {
		if o.op != e.op || o.w != e.w || o.c != e.c || len(o.a) != len(e.a) || len(o.k) != len(e.k) || o.name != e.name {
			continue
		}
		for i := range o.a {
			if o.a[i] != e.a[i] {
				continue outer
			}
		}
		for i := range o.k {
			if o.k[i] != e.k[i] {
				continue outer
			}
		}
		return o
	}
	e.id = cx.n
	cx.n++
	cx.tab[h] = append(cx.tab[h], e)
	// variables
	if e.op == OVar {
		e.vars = []int32{e.id}
	} else {
		for _, x := range e.a {
			if x.many {
				e.many = true
				break
			}
			if len(x.vars) == 0 {
				continue
			}
			e.vars = mergeVars(e.vars, x.vars)
			if len(e.vars) > maxVars {
				e.many = true
				break
			}
		}
		if e.many {
			e.vars = nil
		}
	}
	e.bounds()
	return e
}

func mergeVars(a, b []int32) []int32 {
	if len(a) == 0 {
		return b
	}
	r := make([]int32, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case i == len(a):
			r = append(r, b[j])
			j++
		case j == len(b):
			r = append(r, a[i])
			i++
		case a[i] == b[j]:
			r = append(r, a[i])
			i++
			j++
		case a[i] < b[j]:
			r = append(r, a[i])
			i++
		default:
			r = append(r, b[j])
			j++
		}
	}
	return r
}

func mulOv(a, b uint64) (uint64, bool) {
	hi, lo := bits.Mul64(a, b)
	return lo, hi != 0
}

func (e *Expr) bounds() {
	m := mask(e.w)
	e.umin, e.umax = 0, m
	switch e.op {
	case OConst:
		e.umin, e.umax = e.c, e.c
	case OIte:
		if e.w > 0 {
			e.umin = min(e.a[1].umin, e.a[2].umin)
			e.umax = max(e.a[1].umax, e.a[2].umax)
		}
	case OConcat:
		var lo, hi uint64
		for _, p := range e.a {
			lo = lo<<p.w | p.umin
			hi = hi<<p.w | p.umax
		}
		e.umin, e.umax = lo, hi
	case OExtract:
		x := e.a[0]
		if e.c == 0 && x.umax <= m {
			e.umin, e.umax = x.umin, x.umax
		} else if e.c > 0 && x.w-uint8(e.c) == e.w {
			e.umin, e.umax = x.umin>>e.c, x.umax>>e.c
		}
	case OLin:
		// no-wrap interval when all coefficients are "small positive"
		lo, hi := e.c, e.c
		ok := true
		for i, x := range e.a {
			a, o1 := mulOv(e.k[i], x.umax)
			b, o2 := mulOv(e.k[i], x.umin)
			if o1 || o2 {
				ok = false
				break
			}
			nhi := hi + a
			if nhi < hi || nhi > m {
				ok = false
				break
			}
			hi = nhi
			lo += b
		}
		if ok && hi <= m {
			e.umin, e.umax = lo, hi
		} else if len(e.a) == 1 && e.k[0] == 1 {
			// x + c where c "negative" and x >= -c: no borrow
			neg := (-e.c) & m
			if e.a[0].umin >= neg {
				e.umin, e.umax = e.a[0].umin-neg, e.a[0].umax-neg
			}
		}
	case OURem:
		if e.a[1].op == OConst && e.a[1].c > 0 {
			e.umax = min(e.a[1].c-1, e.a[0].umax)
		}
	case OUDiv:
		if e.a[1].op == OConst && e.a[1].c > 0 {
			e.umin, e.umax = e.a[0].umin/e.a[1].c, e.a[0].umax/e.a[1].c
		}
	case OBAnd:
		e.umax = min(e.a[0].umax, e.a[1].umax)
	case OLshr:
		e.umax = e.a[0].umax
	case OMul:
		hi, o := mulOv(e.a[0].umax, e.a[1].umax)
		if !o && hi <= m {
			e.umin, e.umax = e.a[0].umin*e.a[1].umin, hi
		}
	}
}

func (cx *Ctx) Const(v uint64, w uint8) *Expr {
	return cx.mk(&Expr{op: OConst, w: w, c: v & mask(w)})
}
func (cx *Ctx) Bool(b bool) *Expr {
	if b {
		return cx.T
	}
	return cx.F
}
func (cx *Ctx) Var(name string, w uint8) *Expr {
	e := cx.mk(&Expr{op: OVar, w: w, name: name})
	cx.varTab[name] = e
	cx.varByID[e.id] = e
	return e
}

func (e *Expr) isC() bool { return e.op == OConst }

// ---- booleans

func (cx *Ctx) Not(a *Expr) *Expr {
	switch a.op {
	case OConst:
		return cx.Bool(a.c == 0)
	case ONot:
		return a.a[0]
	case OUlt:
		return cx.mk(&Expr{op: OUle, a: []*Expr{a.a[1], a.a[0]}})
	case OUle:
		return cx.mk(&Expr{op: OUlt, a: []*Expr{a.a[1], a.a[0]}})
	case OSlt:
		return cx.mk(&Expr{op: OSle, a: []*Expr{a.a[1], a.a[0]}})
	case OSle:
		return cx.mk(&Expr{op: OSlt, a: []*Expr{a.a[1], a.a[0]}})
	}
	return cx.mk(&Expr{op: ONot, a: []*Expr{a}})
}

func (cx *Ctx) nary(op Op, xs []*Expr) *Expr {
	unit, zero := cx.T, cx.F
	if op == OOr {
		unit, zero = cx.F, cx.T
	}
	var out []*Expr
	seen := map[*Expr]bool{}
	var add func(x *Expr) bool
	add = func(x *Expr) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.a {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if seen[cx.Not(x)] {
			return false
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return cx.mk(&Expr{op: op, a: out})
}
func (cx *Ctx) And(xs ...*Expr) *Expr { return cx.nary(OAnd, xs) }
func (cx *Ctx) Or(xs ...*Expr) *Expr  { return cx.nary(OOr, xs) }

func (cx *Ctx) Ite(c, a, b *Expr) *Expr {
	if c == cx.T || a == b {
		return a
	}
	if c == cx.F {
		return b
	}
	if a.w == 0 {
		if a == cx.T {
			return cx.Or(c, b)
		}
		if a == cx.F {
			return cx.And(cx.Not(c), b)
		}
		if b == cx.T {
			return cx.Or(cx.Not(c), a)
		}
		if b == cx.F {
			return cx.And(c, a)
		}
	}
	if c.op == ONot {
		return cx.Ite(c.a[0], b, a)
	}
	if b.op == OIte && b.a[0] == c {
		b = b.a[2]
	}
	if a.op == OIte && a.a[0] == c {
		a = a.a[1]
	}
	if a == b {
		return a
	}
	return cx.mk(&Expr{op: OIte, w: a.w, a: []*Expr{c, a, b}})
}

// ---- comparisons

func (cx *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return cx.T
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b == cx.T {
			return a
		}
		if b == cx.F {
			return cx.Not(a)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return cx.mk(&Expr{op: OEq, a: []*Expr{a, b}})
	}
	if a.isC() && b.isC() {
		return cx.Bool(a.c == b.c)
	}
	if a.umax < b.umin || b.umax < a.umin {
		return cx.F
	}
	if a.isC() {
		a, b = b, a
	}
	// a non-const
	if a.op == OLin || b.op == OLin {
		d := cx.Sub(a, b)
		if d.isC() {
			return cx.Bool(d.c == 0)
		}
		// bring into form lin == const
		if d.op == OLin {
			if len(d.a) == 1 && d.k[0] == 1 {
				return cx.eq2(d.a[0], cx.Const(-d.c, d.w))
			}
			if len(d.a) == 1 && d.k[0] == mask(d.w) {
				return cx.eq2(d.a[0], cx.Const(d.c, d.w))
			}
			if len(d.a) == 2 && d.c == 0 && ((d.k[0] == 1 && d.k[1] == mask(d.w)) || (d.k[1] == 1 && d.k[0] == mask(d.w))) {
				return cx.eq2(d.a[0], d.a[1])
			}
			rhs := cx.Const(-d.c, d.w)
			l := cx.lin(d.w, 0, d.a, d.k)
			if l.umax < rhs.c || l.umin > rhs.c {
				return cx.F
			}
			return cx.eq2(l, rhs)
		}
		return cx.eq2(d, cx.Const(0, d.w))
	}
	return cx.eq2(a, b)
}

func (cx *Ctx) eq2(a, b *Expr) *Expr {
	if a == b {
		return cx.T
	}
	if a.isC() && b.isC() {
		return cx.Bool(a.c == b.c)
	}
	if a.umax < b.umin || b.umax < a.umin {
		return cx.F
	}
	if a.isC() {
		a, b = b, a
	}
	if a.op == OConcat && b.isC() || a.op == OConcat && b.op == OConcat || b.op == OConcat {
		if a.op != OConcat {
			a, b = b, a
		}
		// split at a's boundaries (and b's)
		cuts := map[uint8]bool{}
		collect := func(x *Expr) {
			if x.op == OConcat {
				pos := x.w
				for _, p := range x.a {
					pos -= p.w
					cuts[pos] = true
				}
			}
		}
		ok := b.isC() || b.op == OConcat
		if !ok {
			// only split if a has constant parts at the top (zero extension) - cheap win
			ok = a.a[0].isC()
			if ok {
				cuts[a.w-a.a[0].w] = true
				cuts[0] = true
			}
		} else {
			collect(a)
			collect(b)
		}
		if ok && len(cuts) > 1 {
			var pos []int
			for c := range cuts {
				pos = append(pos, int(c))
			}
			sort.Sort(sort.Reverse(sort.IntSlice(pos)))
			hi := int(a.w)
			var conj []*Expr
			for _, p := range pos {
				if hi-p <= 0 {
					continue
				}
				conj = append(conj, cx.Eq(cx.Extract(a, uint8(p), uint8(hi-p)), cx.Extract(b, uint8(p), uint8(hi-p))))
				hi = p
			}
			return cx.And(conj...)
		}
	}
	if b.isC() {
		switch a.op {
		case OIte:
			if a.a[1].isC() || a.a[2].isC() {
				return cx.Ite(a.a[0], cx.Eq(a.a[1], b), cx.Eq(a.a[2], b))
			}
		case OSExt:
			x := a.a[0]
			lo := b.c & mask(x.w)
			if signExt(lo, x.w)&mask(a.w) != b.c {
				return cx.F
			}
			return cx.Eq(x, cx.Const(lo, x.w))
		case OBNot:
			return cx.Eq(a.a[0], cx.Const(^b.c, a.w))
		case OBXor:
			if a.a[1].isC() {
				return cx.Eq(a.a[0], cx.Const(b.c^a.a[1].c, a.w))
			}
		}
	}
	if a.op == OSExt && b.op == OSExt && a.a[0].w == b.a[0].w {
		return cx.Eq(a.a[0], b.a[0])
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return cx.mk(&Expr{op: OEq, a: []*Expr{a, b}})
}

func leadZero(e *Expr) uint8 {
	if e.isC() {
		return e.w - uint8(bits.Len64(e.c))
	}
	if e.op == OConcat && e.a[0].isC() && e.a[0].c == 0 {
		return e.a[0].w
	}
	return e.w - uint8(bits.Len64(e.umax))
}

func (cx *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return cx.F
	}
	if a.umax < b.umin {
		return cx.T
	}
	if a.umin >= b.umax {
		return cx.F
	}
	if lz := min(leadZero(a), leadZero(b)); lz > 0 && lz < a.w && (a.op == OConcat || b.op == OConcat) {
		return cx.Ult(cx.Extract(a, 0, a.w-lz), cx.Extract(b, 0, a.w-lz))
	}
	if b.isC() && b.c == 1 {
		return cx.Eq(a, cx.Const(0, a.w))
	}
	if a.isC() && a.c == 0 {
		return cx.Not(cx.Eq(b, a))
	}
	if b.isC() && b.c == mask(b.w) {
		return cx.Not(cx.Eq(a, b))
	}
	return cx.mk(&Expr{op: OUlt, a: []*Expr{a, b}})
}
func (cx *Ctx) Ule(a, b *Expr) *Expr { return cx.Not(cx.Ult(b, a)) }

func (cx *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return cx.F
	}
	if a.isC() && b.isC() {
		return cx.Bool(int64(signExt(a.c, a.w)) < int64(signExt(b.c, b.w)))
	}
	sb := uint64(1) << (a.w - 1)
	aPos, bPos := a.umax < sb, b.umax < sb
	aNeg, bNeg := a.umin >= sb, b.umin >= sb
	if (aPos && bPos) || (aNeg && bNeg) {
		return cx.Ult(a, b)
	}
	if aPos && bNeg {
		return cx.F
	}
	if aNeg && bPos {
		return cx.T
	}
	// sign test of an extension or concatenation
	if b.isC() && b.c == 0 {
		return cx.Eq(cx.Extract(a, a.w-1, 1), cx.Const(1, 1))
	}
	if a.op == OSExt && b.op == OSExt && a.a[0].w == b.a[0].w {
		return cx.Slt(a.a[0], b.a[0])
	}
	return cx.mk(&Expr{op: OSlt, a: []*Expr{a, b}})
}
func (cx *Ctx) Sle(a, b *Expr) *Expr { return cx.Not(cx.Slt(b, a)) }

func signExt(v uint64, w uint8) uint64 {
	if w >= 64 {
		return v
	}
	s := 64 - w
	return uint64(int64(v<<s) >> s)
}

// ---- arithmetic

func (cx *Ctx) lin(w uint8, c uint64, as []*Expr, ks []uint64) *Expr {
	c &= mask(w)
	if len(as) == 0 {
		return cx.Const(c, w)
	}
	if len(as) == 1 && c == 0 && ks[0] == 1 {
		return as[0]
	}
	return cx.mk(&Expr{op: OLin, w: w, c: c, a: as, k: ks})
}

func (cx *Ctx) linParts(e *Expr) (uint64, []*Expr, []uint64) {
	switch e.op {
	case OConst:
		return e.c, nil, nil
	case OLin:
		return e.c, e.a, e.k
	}
	return 0, []*Expr{e}, []uint64{1}
}

// addScaled returns a + s*b.
func (cx *Ctx) addScaled(a, b *Expr, s uint64) *Expr {
	w := a.w
	m := mask(w)
	ca, aa, ka := cx.linParts(a)
	cb, ab, kb := cx.linParts(b)
	c := ca + s*cb
	if len(ab) == 0 {
		return cx.lin(w, c, aa, ka)
	}
	ra := make([]*Expr, 0, len(aa)+len(ab))
	rk := make([]uint64, 0, len(aa)+len(ab))
	i, j := 0, 0
	for i < len(aa) || j < len(ab) {
		if j == len(ab) || (i < len(aa) && aa[i].id < ab[j].id) {
			ra = append(ra, aa[i])
			rk = append(rk, ka[i])
			i++
		} else if i == len(aa) || ab[j].id < aa[i].id {
			k := (s * kb[j]) & m
			if k != 0 {
				ra = append(ra, ab[j])
				rk = append(rk, k)
			}
			j++
		} else {
			k := (ka[i] + s*kb[j]) & m
			if k != 0 {
				ra = append(ra, aa[i])
				rk = append(rk, k)
			}
			i++
			j++
		}
	}
	return cx.lin(w, c, ra, rk)
}

func (cx *Ctx) Add(a, b *Expr) *Expr { return cx.addScaled(a, b, 1) }
func (cx *Ctx) Sub(a, b *Expr) *Expr { return cx.addScaled(a, b, ^uint64(0)) }
func (cx *Ctx) Neg(a *Expr) *Expr    { return cx.addScaled(cx.Const(0, a.w), a, ^uint64(0)) }
func (cx *Ctx) Mul(a, b *Expr) *Expr {
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		return cx.addScaled(cx.Const(0, a.w), a, b.c)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return cx.mk(&Expr{op: OMul, w: a.w, a: []*Expr{a, b}})
}

func (cx *Ctx) Div(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isC() && b.isC() && b.c != 0 {
		var r uint64
		x, y := int64(signExt(a.c, w)), int64(signExt(b.c, w))
		switch op {
		case OUDiv:
			r = a.c / b.c
		case OURem:
			r = a.c % b.c
		case OSDiv:
			if y == -1 {
				r = uint64(-x)
			} else {
				r = uint64(x / y)
			}
		case OSRem:
			if y == -1 {
				r = 0
			} else {
				r = uint64(x % y)
			}
		}
		return cx.Const(r, w)
	}
	sb := uint64(1) << (w - 1)
	if op == OSDiv && a.umax < sb && b.umax < sb {
		op = OUDiv
	}
	if op == OSRem && a.umax < sb && b.umax < sb {
		op = OURem
	}
	if b.isC() && b.c != 0 && b.c&(b.c-1) == 0 {
		k := uint8(bits.TrailingZeros64(b.c))
		if op == OUDiv {
			return cx.Lshr(a, cx.Const(uint64(k), w))
		}
		if op == OURem {
			return cx.And2(a, cx.Const(b.c-1, w))
		}
	}
	if b.isC() && b.c > a.umax {
		if op == OUDiv {
			return cx.Const(0, w)
		}
		if op == OURem {
			return a
		}
	}
	return cx.mk(&Expr{op: op, w: w, a: []*Expr{a, b}})
}

// ---- structure: concat / extract

func (cx *Ctx) Concat(parts ...*Expr) *Expr {
	var flat []*Expr
	var tw int
	for _, p := range parts {
		if p.w == 0 {
			continue
		}
		tw += int(p.w)
		if p.op == OConcat {
			flat = append(flat, p.a...)
		} else {
			flat = append(flat, p)
		}
	}
	if tw > 64 {
		panic("concat too wide")
	}
	var out []*Expr
	for _, p := range flat {
		if len(out) > 0 {
			q := out[len(out)-1]
			if q.isC() && p.isC() {
				out[len(out)-1] = cx.Const(q.c<<p.w|p.c, q.w+p.w)
				continue
			}
			qb, ql := q, uint64(0)
			if q.op == OExtract {
				qb, ql = q.a[0], q.c
			}
			pb, pl := p, uint64(0)
			if p.op == OExtract {
				pb, pl = p.a[0], p.c
			}
			if qb == pb && !q.isC() && ql == pl+uint64(p.w) {
				out[len(out)-1] = cx.Extract(qb, uint8(pl), q.w+p.w)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	return cx.mk(&Expr{op: OConcat, w: uint8(tw), a: out})
}

func (cx *Ctx) Extract(e *Expr, lo, w uint8) *Expr {
	if lo == 0 && w == e.w {
		return e
	}
	switch e.op {
	case OConst:
		return cx.Const(e.c>>lo, w)
	case OExtract:
		return cx.Extract(e.a[0], uint8(e.c)+lo, w)
	case OConcat:
		var out []*Expr
		pos := e.w
		for _, p := range e.a {
			pos -= p.w
			// p covers [pos, pos+p.w)
			l := max(pos, lo)
			h := min(pos+p.w, lo+w)
			if l < h {
				out = append(out, cx.Extract(p, l-pos, h-l))
			}
		}
		return cx.Concat(out...)
	case OSExt:
		x := e.a[0]
		if lo+w <= x.w {
			return cx.Extract(x, lo, w)
		}
		if lo >= x.w-1 {
			s := cx.Extract(x, x.w-1, 1)
			return cx.SExt(s, w)
		}
		if lo < x.w {
			return cx.SExt(cx.Extract(x, lo, x.w-lo), w)
		}
	case OIte:
		if e.a[1].isC() || e.a[2].isC() || e.a[1].op == OConcat || e.a[2].op == OConcat {
			return cx.Ite(e.a[0], cx.Extract(e.a[1], lo, w), cx.Extract(e.a[2], lo, w))
		}
	case OBAnd, OBOr, OBXor:
		return cx.bitop(e.op, cx.Extract(e.a[0], lo, w), cx.Extract(e.a[1], lo, w))
	case OBNot:
		return cx.BNot(cx.Extract(e.a[0], lo, w))
	}
	if e.umax < 1<<lo && lo < 64 {
		return cx.Const(0, w)
	}
	return cx.mk(&Expr{op: OExtract, w: w, c: uint64(lo), a: []*Expr{e}})
}

func (cx *Ctx) ZExt(e *Expr, w uint8) *Expr {
	if w == e.w {
		return e
	}
	if w < e.w {
		return cx.Extract(e, 0, w)
	}
	return cx.Concat(cx.Const(0, w-e.w), e)
}

func (cx *Ctx) SExt(e *Expr, w uint8) *Expr {
	if w == e.w {
		return e
	}
	if w < e.w {
		return cx.Extract(e, 0, w)
	}
	if e.isC() {
		return cx.Const(signExt(e.c, e.w), w)
	}
	if e.umax < uint64(1)<<(e.w-1) {
		return cx.ZExt(e, w)
	}
	if e.op == OSExt {
		return cx.SExt(e.a[0], w)
	}
	return cx.mk(&Expr{op: OSExt, w: w, a: []*Expr{e}})
}

// segs splits e into (expr,width) segments from most significant.
func segs(e *Expr) []*Expr {
	if e.op == OConcat {
		return e.a
	}
	return []*Expr{e}
}

func (cx *Ctx) bitop(op Op, a, b *Expr) *Expr {
	w := a.w
	if a.isC() && b.isC() {
		switch op {
		case OBAnd:
			return cx.Const(a.c&b.c, w)
		case OBOr:
			return cx.Const(a.c|b.c, w)
		case OBXor:
			return cx.Const(a.c^b.c, w)
		}
	}
	if a == b {
		if op == OBXor {
			return cx.Const(0, w)
		}
		return a
	}
	if a.isC() {
		a, b = b, a
	}
	if b.isC() {
		if op == OBXor && b.c == mask(w) {
			return cx.BNot(a)
		}
		if b.c == 0 {
			if op == OBAnd {
				return b
			}
			return a
		}
		if b.c == mask(w) {
			if op == OBAnd {
				return a
			}
			if op == OBOr {
				return b
			}
		}
		if op != OBXor {
			// split into runs of equal bits
			var out []*Expr
			runs := 0
			for i := int(w) - 1; i >= 0; {
				bit := b.c >> i & 1
				j := i
				for j >= 0 && b.c>>j&1 == bit {
					j--
				}
				l, n := uint8(j+1), uint8(i-j)
				if (bit == 1) == (op == OBAnd) {
					out = append(out, cx.Extract(a, l, n))
				} else if op == OBAnd {
					out = append(out, cx.Const(0, n))
				} else {
					out = append(out, cx.Const(mask(n), n))
				}
				runs++
				i = j
			}
			if runs <= 9 {
				return cx.Concat(out...)
			}
		}
	}
	// segment-wise for disjoint concats
	if a.op == OConcat || b.op == OConcat {
		cuts := map[uint8]bool{0: true}
		for _, x := range []*Expr{a, b} {
			pos := x.w
			for _, p := range segs(x) {
				pos -= p.w
				cuts[pos] = true
			}
		}
		var pos []int
		for c := range cuts {
			pos = append(pos, int(c))
		}
		sort.Sort(sort.Reverse(sort.IntSlice(pos)))
		hi := int(w)
		var out []*Expr
		good := true
		for _, p := range pos {
			sa := cx.Extract(a, uint8(p), uint8(hi-p))
			sb := cx.Extract(b, uint8(p), uint8(hi-p))
			hi = p
			if sa.isC() || sb.isC() {
				out = append(out, cx.bitop(op, sa, sb))
			} else {
				good = false
				break
			}
		}
		if good {
			return cx.Concat(out...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.isC() {
		a, b = b, a
	}
	return cx.mk(&Expr{op: op, w: w, a: []*Expr{a, b}})
}
func (cx *Ctx) And2(a, b *Expr) *Expr { return cx.bitop(OBAnd, a, b) }
func (cx *Ctx) Or2(a, b *Expr) *Expr  { return cx.bitop(OBOr, a, b) }
func (cx *Ctx) Xor2(a, b *Expr) *Expr { return cx.bitop(OBXor, a, b) }
func (cx *Ctx) BNot(a *Expr) *Expr {
	if a.isC() {
		return cx.Const(^a.c, a.w)
	}
	if a.op == OBNot {
		return a.a[0]
	}
	return cx.mk(&Expr{op: OBNot, w: a.w, a: []*Expr{a}})
}

// Shl, Lshr, Ashr: b has the same width as a.
func (cx *Ctx) Shl(a, b *Expr) *Expr {
	if b.isC() {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return cx.Const(0, a.w)
		}
		if a.isC() {
			return cx.Const(a.c<<b.c, a.w)
		}
		k := uint8(b.c)
		if a.op == OLin {
			return cx.Mul(a, cx.Const(1<<k, a.w))
		}
		return cx.Concat(cx.Extract(a, 0, a.w-k), cx.Const(0, k))
	}
	return cx.mk(&Expr{op: OShl, w: a.w, a: []*Expr{a, b}})
}
func (cx *Ctx) Lshr(a, b *Expr) *Expr {
	if b.isC() {
		if b.c == 0 {
			return a
		}
		if b.c >= uint64(a.w) {
			return cx.Const(0, a.w)
		}
		k := uint8(b.c)
		return cx.Concat(cx.Const(0, k), cx.Extract(a, k, a.w-k))
	}
	return cx.mk(&Expr{op: OLshr, w: a.w, a: []*Expr{a, b}})
}
func (cx *Ctx) Ashr(a, b *Expr) *Expr {
	if b.isC() {
		k := b.c
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		return cx.SExt(cx.Extract(a, uint8(k), a.w-uint8(k)), a.w)
	}
	return cx.mk(&Expr{op: OAshr, w: a.w, a: []*Expr{a, b}})
}

// ---- evaluation

type Model map[int32]uint64 // variable id -> value

func (cx *Ctx) NewEval() {
	cx.cur++
	if cx.cur == 0 {
		cx.stamp = nil
		cx.cur = 1
	}
}

// holds evaluates the conjunction of es under m without disturbing the current evaluation.
func (cx *Ctx) holds(es []*Expr, m Model) bool {
	cx.memo, cx.memo2 = cx.memo2, cx.memo
	cx.stamp, cx.stamp2 = cx.stamp2, cx.stamp
	cur := cx.cur
	cx.cur2++
	if cx.cur2 == 0 {
		cx.stamp, cx.cur2 = nil, 1
	}
	cx.cur = cx.cur2
	ok := true
	for _, e := range es {
		if cx.Eval(e, m) != 1 {
			ok = false
			break
		}
	}
	cx.cur = cur
	cx.memo, cx.memo2 = cx.memo2, cx.memo
	cx.stamp, cx.stamp2 = cx.stamp2, cx.stamp
	return ok
}

// Eval evaluates e under m; call NewEval when the model changes.
func (cx *Ctx) Eval(e *Expr, m Model) uint64 {
	if e.op == OConst {
		return e.c
	}
	if int(e.id) >= len(cx.stamp) {
		n := int(cx.n) + 1024
		ns := make([]uint32, n)
		copy(ns, cx.stamp)
		nm := make([]uint64, n)
		copy(nm, cx.memo)
		cx.stamp, cx.memo = ns, nm
	}
	if cx.stamp[e.id] == cx.cur {
		return cx.memo[e.id]
	}
	var r uint64
	ev := func(i int) uint64 { return cx.Eval(e.a[i], m) }
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch e.op {
	case OVar:
		r = m[e.id]
	case ONot:
		r = 1 - ev(0)
	case OAnd:
		r = 1
		for i := range e.a {
			if ev(i) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for i := range e.a {
			if ev(i) == 1 {
				r = 1
				break
			}
		}
	case OEq:
		r = b2u(ev(0) == ev(1))
	case OUlt:
		r = b2u(ev(0) < ev(1))
	case OUle:
		r = b2u(ev(0) <= ev(1))
	case OSlt:
		w := e.a[0].w
		r = b2u(int64(signExt(ev(0), w)) < int64(signExt(ev(1), w)))
	case OSle:
		w := e.a[0].w
		r = b2u(int64(signExt(ev(0), w)) <= int64(signExt(ev(1), w)))
	case OIte:
		if ev(0) == 1 {
			r = ev(1)
		} else {
			r = ev(2)
		}
	case OLin:
		r = e.c
		for i := range e.a {
			r += e.k[i] * ev(i)
		}
	case OMul:
		r = ev(0) * ev(1)
	case OUDiv, OURem, OSDiv, OSRem:
		x, y := ev(0), ev(1)
		if y == 0 {
			switch e.op {
			case OUDiv:
				r = mask(e.w)
			case OSDiv:
				if int64(signExt(x, e.w)) < 0 {
					r = 1
				} else {
					r = mask(e.w)
				}
			default:
				r = x
			}
		} else {
			t := cx.Div(e.op, cx.Const(x, e.w), cx.Const(y, e.w))
			r = t.c
		}
	case OBAnd:
		r = ev(0) & ev(1)
	case OBOr:
		r = ev(0) | ev(1)
	case OBXor:
		r = ev(0) ^ ev(1)
	case OBNot:
		r = ^ev(0)
	case OShl:
		s := ev(1)
		if s < uint64(e.w) {
			r = ev(0) << s
		}
	case OLshr:
		s := ev(1)
		if s < uint64(e.w) {
			r = ev(0) >> s
		}
	case OAshr:
		s := ev(1)
		if s >= uint64(e.w) {
			s = uint64(e.w) - 1
		}
		r = uint64(int64(signExt(ev(0), e.w)) >> s)
	case OConcat:
		for i, p := range e.a {
			r = r<<p.w | ev(i)
		}
	case OExtract:
		r = ev(0) >> e.c
	case OSExt:
		r = signExt(ev(0), e.a[0].w)
	default:
		panic("eval op")
	}
	if e.w > 0 {
		r &= mask(e.w)
	}
	if int(e.id) >= len(cx.stamp) { // Div above may have grown the table; keep memo in range
		return r
	}
	cx.stamp[e.id] = cx.cur
	cx.memo[e.id] = r
	return r
}

// ---- printing

func bvc(v uint64, w uint8) string {
	if w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(w/4), v&mask(w))
	}
	return fmt.Sprintf("#b%0*b", int(w), v&mask(w))
}

func (e *Expr) ref() string {
	switch e.op {
	case OConst:
		if e.w == 0 {
			if e.c == 1 {
				return "true"
			}
			return "false"
		}
		return bvc(e.c, e.w)
	case OVar:
		return fmt.Sprintf("v%d", e.id)
	}
	return fmt.Sprintf("e%d", e.id)
}

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OIte: "ite", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor",
	OBXor: "bvxor", OBNot: "bvnot", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat"}

func (e *Expr) body() string {
	var sb strings.Builder
	switch e.op {
	case OLin:
		if b := e.narrow(); b != "" {
			return b
		}
		terms := make([]string, 0, len(e.a)+1)
		for i, x := range e.a {
			switch e.k[i] {
			case 1:
				terms = append(terms, x.ref())
			case mask(e.w):
				terms = append(terms, "(bvneg "+x.ref()+")")
			default:
				terms = append(terms, "(bvmul "+bvc(e.k[i], e.w)+" "+x.ref()+")")
			}
		}
		if e.c != 0 {
			terms = append(terms, bvc(e.c, e.w))
		}
		if len(terms) == 1 {
			return terms[0]
		}
		return "(bvadd " + strings.Join(terms, " ") + ")"
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", int(e.c)+int(e.w)-1, e.c, e.a[0].ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a[0].w, e.a[0].ref())
	}
	sb.WriteString("(")
	sb.WriteString(opName[e.op])
	for _, x := range e.a {
		sb.WriteString(" ")
		sb.WriteString(x.ref())
	}
	sb.WriteString(")")
	return sb.String()
}

// narrowWidth returns the number of bits a sum needs as a signed number when no wrap-around
// of e.w bits can occur, if that is clearly less than e.w. The sum computed in that width and
// sign-extended equals the wide one.
func (e *Expr) narrowWidth() (uint8, bool) {
	if e.w < 10 {
		return 0, false
	}
	const lim = int64(1) << 40
	sx := func(v uint64) int64 { return int64(signExt(v, e.w)) }
	c := sx(e.c)
	if c > lim || c < -lim || len(e.a) > 64 {
		return 0, false
	}
	lo, hi := c, c
	for i, x := range e.a {
		k := sx(e.k[i])
		if k > 1<<14 || k < -(1<<14) {
			return 0, false
		}
		var a, b int64
		if x.umax <= 1<<40 {
			a, b = int64(x.umin), int64(x.umax)
		} else {
			if x.op != OSExt || x.a[0].w > 40 {
				return 0, false
			}
			b = int64(1)<<(x.a[0].w-1) - 1
			a = -b - 1
		}
		p, q := k*a, k*b
		if p > q {
			p, q = q, p
		}
		lo += p
		hi += q
	}
	w := uint8(1)
	for lo < -(int64(1)<<(w-1)) || hi > int64(1)<<(w-1)-1 {
		w++
	}
	return w, w+4 <= e.w
}

// narrow writes a sum in the fewest bits its terms can need, which is far cheaper to decide
// than 64-bit arithmetic.
func (e *Expr) narrow() string {
	w, ok := e.narrowWidth()
	if !ok {
		return ""
	}
	sx := func(v uint64) int64 { return int64(signExt(v, e.w)) }
	terms := make([]string, 0, len(e.a)+1)
	for i, x := range e.a {
		r := fmt.Sprintf("((_ extract %d 0) %s)", w-1, x.ref())
		switch k := sx(e.k[i]); k {
		case 1:
		case -1:
			r = "(bvneg " + r + ")"
		default:
			r = "(bvmul " + bvc(uint64(k)&mask(w), w) + " " + r + ")"
		}
		terms = append(terms, r)
	}
	if e.c != 0 {
		terms = append(terms, bvc(e.c&mask(w), w))
	}
	b := terms[0]
	if len(terms) > 1 {
		b = "(bvadd " + strings.Join(terms, " ") + ")"
	}
	return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-w, b)
}

func (e *Expr) sort() string {
	if e.w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", e.w)
}

func (e *Expr) String() string { return dump(e, 4) }
func dump(e *Expr, d int) string {
	if e.op == OConst {
		return e.ref()
	}
	if e.op == OVar {
		return e.name
	}
	if d == 0 {
		return "..."
	}
	var xs []string
	for i, x := range e.a {
		s := dump(x, d-1)
		if e.op == OLin && e.k[i] != 1 {
			s = fmt.Sprintf("%d*%s", e.k[i], s)
		}
		xs = append(xs, s)
	}
	n := opName[e.op]
	if e.op == OLin {
		n = fmt.Sprintf("lin+%d", e.c)
	}
	if e.op == OExtract {
		n = fmt.Sprintf("ext%d@%d", e.w, e.c)
	}
	if e.op == OSExt {
		n = "sext"
	}
	return n + "(" + strings.Join(xs, ",") + ")"
}
