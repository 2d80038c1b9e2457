package main

import (
	"fmt"
	"math"
	"strings"
)

// Val is one machine value. Integers and booleans are concrete in c (zero-extended)
// when r is nil, symbolic when r is an *Expr. Other kinds live in r:
//
//	string: string or *symStr (nil: "")    pointer: *Val, *symPtr or nil
//	slice: sliceV (nil: nil slice)         struct, array, tuple: agg
//	interface: *iface or nil               func: *closure or nil
//	map: *mapV or nil                      float: bits in c, or opaqueF
type Val struct {
	c uint64
	r any
}

type agg []Val
type sliceV []Val
type symStr struct{ b []Val }
type opaqueF struct{}

type iface struct {
	t *tdesc
	v Val
}

type closure struct {
	c      *code
	env    []Val
	native func(m *M, args []Val) Val
}

type symPtr struct {
	base []Val
	idx  *Expr
	path []int
	et   *tdesc // element type of base
}

type mapEnt struct {
	k, v Val
	dead bool
}

type mapV struct {
	t    *tdesc
	ents []*mapEnt
	idx  map[any]*mapEnt
	nsym int // live entries with a symbolic key
	n    int
}

type mapIter struct {
	m    *mapV
	list []*mapEnt
	pos  int
	str  []Val
	isS  bool
}

func ci(v uint64) Val { return Val{c: v} }
func vbool(b bool) Val {
	if b {
		return Val{c: 1}
	}
	return Val{}
}
func vstr(s string) Val { return Val{r: s} }
func vexpr(e *Expr) Val {
	if e.op == OConst {
		return Val{c: e.c}
	}
	return Val{r: e}
}
func vslice(s []Val) Val { return Val{r: sliceV(s)} }
func vptr(p *Val) Val    { return Val{r: p} }
func vfloat(f float64) Val {
	return Val{c: math.Float64bits(f)}
}
func (v Val) float() float64 { return math.Float64frombits(v.c) }

func (m *M) ex(v Val, w uint8) *Expr {
	if v.r == nil {
		return m.cx.Const(v.c, w)
	}
	return v.r.(*Expr)
}
func (m *M) exb(v Val) *Expr {
	if v.r == nil {
		return m.cx.Bool(v.c != 0)
	}
	return v.r.(*Expr)
}

func (v Val) slice() []Val {
	if v.r == nil {
		return nil
	}
	return v.r.(sliceV)
}

func clone(v Val) Val {
	if a, ok := v.r.(agg); ok {
		n := make(agg, len(a))
		for i := range a {
			if _, ok := a[i].r.(agg); ok {
				n[i] = clone(a[i])
			} else {
				n[i] = a[i]
			}
		}
		return Val{r: n}
	}
	return v
}

func storeInto(dst *Val, v Val) {
	if a, ok := v.r.(agg); ok {
		d, ok := dst.r.(agg)
		if !ok || len(d) != len(a) {
			*dst = clone(v)
			return
		}
		if len(a) > 0 && &a[0] == &d[0] {
			return
		}
		for i := range a {
			if _, ok := a[i].r.(agg); ok {
				storeInto(&d[i], a[i])
			} else {
				d[i] = a[i]
			}
		}
		return
	}
	*dst = v
}

// strBytes returns the bytes of a string value.
func strBytes(v Val) []Val {
	switch s := v.r.(type) {
	case nil:
		return nil
	case string:
		b := make([]Val, len(s))
		for i := 0; i < len(s); i++ {
			b[i].c = uint64(s[i])
		}
		return b
	case *symStr:
		return s.b
	}
	panic(abort{"unsupported", fmt.Sprintf("string of %T", v.r)})
}

func strLen(v Val) int {
	switch s := v.r.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *symStr:
		return len(s.b)
	}
	panic(abort{"unsupported", fmt.Sprintf("string of %T", v.r)})
}

func mkStr(b []Val) Val {
	for i := range b {
		if b[i].r != nil {
			n := make([]Val, len(b))
			copy(n, b)
			return Val{r: &symStr{n}}
		}
	}
	bs := make([]byte, len(b))
	for i := range b {
		bs[i] = byte(b[i].c)
	}
	return Val{r: string(bs)}
}

// concStr returns the Go string of a fully concrete string value.
func concStr(v Val) (string, bool) {
	switch s := v.r.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func bytesVal(b []byte) Val {
	s := make([]Val, len(b))
	for i := range b {
		s[i].c = uint64(b[i])
	}
	return vslice(s)
}

// concBytes returns the Go bytes of a fully concrete byte slice.
func concBytes(b []Val) ([]byte, bool) {
	out := make([]byte, len(b))
	for i := range b {
		if b[i].r != nil {
			return nil, false
		}
		out[i] = byte(b[i].c)
	}
	return out, true
}

// ---- equality

// eq returns the condition a == b for values of type t.
func (m *M) eq(t *tdesc, a, b Val) *Expr {
	cx := m.cx
	switch t.k {
	case kInt:
		if a.r == nil && b.r == nil {
			return cx.Bool(a.c == b.c)
		}
		return cx.Eq(m.ex(a, t.w), m.ex(b, t.w))
	case kBool:
		if a.r == nil && b.r == nil {
			return cx.Bool(a.c == b.c)
		}
		return cx.Eq(m.exb(a), m.exb(b))
	case kFloat:
		if a.r != nil || b.r != nil {
			panic(abort{"unsupported", "comparison of a symbolic float"})
		}
		return cx.Bool(a.float() == b.float())
	case kString:
		return m.strEq(a, b)
	case kStruct, kArray:
		x, y := a.r.(agg), b.r.(agg)
		cs := make([]*Expr, 0, len(x))
		if t.k == kStruct {
			for i, f := range t.fields() {
				cs = append(cs, m.eq(f, x[i], y[i]))
			}
		} else {
			for i := range x {
				cs = append(cs, m.eq(t.elem(), x[i], y[i]))
			}
		}
		return cx.And(cs...)
	case kIface:
		if a.r == nil || b.r == nil {
			return cx.Bool(a.r == nil && b.r == nil)
		}
		x, y := a.r.(*iface), b.r.(*iface)
		if x.t != y.t {
			return cx.F
		}
		if x == y && x.t.k != kFloat {
			return cx.T
		}
		switch x.t.k {
		case kSlice, kMap, kFunc:
			m.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return m.eq(x.t, x.v, y.v)
	case kPtr, kMap, kChan, kUnsafe:
		if sp, ok := a.r.(*symPtr); ok {
			if b.r == nil {
				return cx.F
			}
			_ = sp
			panic(abort{"unsupported", "comparison of symbolic pointers"})
		}
		if _, ok := b.r.(*symPtr); ok {
			if a.r == nil {
				return cx.F
			}
			panic(abort{"unsupported", "comparison of symbolic pointers"})
		}
		return cx.Bool(a.r == b.r)
	case kSlice:
		return cx.Bool(a.slice() == nil && b.slice() == nil)
	case kFunc:
		return cx.Bool(a.r == nil && b.r == nil)
	}
	panic(abort{"unsupported", "comparison of " + t.String()})
}

func (m *M) strEq(a, b Val) *Expr {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return m.cx.Bool(x == y)
		}
	}
	if strLen(a) != strLen(b) {
		return m.cx.F
	}
	return m.bytesEq(strBytes(a), strBytes(b))
}

func (m *M) bytesEq(a, b []Val) *Expr {
	if len(a) != len(b) {
		return m.cx.F
	}
	var cs []*Expr
	for i := range a {
		if a[i].r == nil && b[i].r == nil {
			if a[i].c != b[i].c {
				return m.cx.F
			}
			continue
		}
		c := m.cx.Eq(m.ex(a[i], 8), m.ex(b[i], 8))
		if c == m.cx.F {
			return c
		}
		if c != m.cx.T {
			cs = append(cs, c)
		}
	}
	return m.cx.And(cs...)
}

// strLess is a < b for strings.
func (m *M) strLess(a, b Val) *Expr {
	if x, ok := concStr(a); ok {
		if y, ok := concStr(b); ok {
			return m.cx.Bool(x < y)
		}
	}
	x, y := strBytes(a), strBytes(b)
	n := min(len(x), len(y))
	r := m.cx.Bool(len(x) < len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := m.ex(x[i], 8), m.ex(y[i], 8)
		r = m.cx.Or(m.cx.Ult(p, q), m.cx.And(m.cx.Eq(p, q), r))
	}
	return r
}

// merge returns ite(c, a, b) for values of type t when it can be expressed.
func (m *M) merge(t *tdesc, c *Expr, a, b Val) (Val, bool) {
	switch t.k {
	case kInt:
		if a.r == nil && b.r == nil && a.c == b.c {
			return a, true
		}
		return vexpr(m.cx.Ite(c, m.ex(a, t.w), m.ex(b, t.w))), true
	case kBool:
		return vexpr(m.cx.Ite(c, m.exb(a), m.exb(b))), true
	case kFloat:
		if a == b {
			return a, true
		}
		return Val{}, false
	case kString:
		if x, ok := concStr(a); ok {
			if y, ok := concStr(b); ok && x == y {
				return a, true
			}
		}
		if strLen(a) == strLen(b) {
			x, y := strBytes(a), strBytes(b)
			out := make([]Val, len(x))
			for i := range x {
				out[i] = vexpr(m.cx.Ite(c, m.ex(x[i], 8), m.ex(y[i], 8)))
			}
			return mkStr(out), true
		}
		return Val{}, false
	case kStruct, kArray, kTuple:
		x, y := a.r.(agg), b.r.(agg)
		out := make(agg, len(x))
		for i := range x {
			et := t.el
			if t.k == kArray {
				et = t.elem()
			} else {
				et = t.fields()[i]
			}
			v, ok := m.merge(et, c, x[i], y[i])
			if !ok {
				return Val{}, false
			}
			out[i] = v
		}
		return Val{r: out}, true
	case kSlice:
		x, y := a.slice(), b.slice()
		if len(x) == len(y) && cap(x) == cap(y) && (x == nil) == (y == nil) && (cap(x) == 0 || &x[:1][0] == &y[:1][0]) {
			return a, true
		}
		return Val{}, false
	}
	if a.r == nil && b.r == nil {
		return a, true
	}
	switch a.r.(type) {
	case *Val, *iface, *mapV, *closure:
		if a.r == b.r {
			return a, true
		}
	}
	return Val{}, false
}

// ---- maps

// hkey returns a hashable form of a concrete key.
func hkey(t *tdesc, v Val) (any, bool) {
	switch t.k {
	case kInt, kBool:
		if v.r != nil {
			return nil, false
		}
		return v.c, true
	case kFloat:
		return v.c, v.r == nil
	case kString:
		s, ok := concStr(v)
		return s, ok
	case kPtr, kChan, kUnsafe:
		if _, ok := v.r.(*symPtr); ok {
			return nil, false
		}
		return v.r, true
	case kIface:
		if v.r == nil {
			return nil, true
		}
		i := v.r.(*iface)
		k, ok := hkey(i.t, i.v)
		if !ok {
			return nil, false
		}
		return [2]any{i.t.id, k}, true
	case kStruct, kArray:
		var sb strings.Builder
		a := v.r.(agg)
		for i := range a {
			var et *tdesc
			if t.k == kArray {
				et = t.elem()
			} else {
				et = t.fields()[i]
			}
			k, ok := hkey(et, a[i])
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%v|", k)
		}
		return sb.String(), true
	}
	return nil, false
}

// mapFind returns the entry with the given key, forking when the answer depends on
// symbolic values.
func (m *M) mapFind(mv *mapV, k Val) *mapEnt {
	if mv == nil {
		return nil
	}
	kt := mv.t.key()
	h, conc := hkey(kt, k)
	if conc {
		if e := mv.idx[h]; e != nil {
			return e
		}
		if mv.nsym == 0 {
			return nil
		}
	}
	for _, e := range mv.ents {
		if e.dead {
			continue
		}
		c := m.eq(kt, e.k, k)
		if c == m.cx.F {
			continue
		}
		if m.branch(vexpr(c)) {
			return e
		}
	}
	return nil
}

// mapGet is the lookup v, ok := m[k]; merges scalar results instead of forking.
func (m *M) mapGet(mv *mapV, k Val, vt *tdesc) (Val, Val) {
	if mv == nil {
		return vt.zero(), Val{}
	}
	kt := mv.t.key()
	h, conc := hkey(kt, k)
	if conc && mv.nsym == 0 {
		if e := mv.idx[h]; e != nil {
			return clone(e.v), ci(1)
		}
		return vt.zero(), Val{}
	}
	if vt.k == kInt || vt.k == kBool || vt.k == kString && false {
		res, ok := vt.zero(), m.cx.F
		for _, e := range mv.ents {
			if e.dead {
				continue
			}
			c := m.eq(kt, e.k, k)
			if c == m.cx.F {
				continue
			}
			res, _ = m.merge(vt, c, e.v, res)
			ok = m.cx.Or(ok, c)
		}
		return res, vexpr(ok)
	}
	if e := m.mapFind(mv, k); e != nil {
		return clone(e.v), ci(1)
	}
	return vt.zero(), Val{}
}

func (m *M) mapSet(mv *mapV, k, v Val) {
	if mv == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	if e := m.mapFind(mv, k); e != nil {
		e.v = clone(v)
		return
	}
	e := &mapEnt{k: clone(k), v: clone(v)}
	mv.ents = append(mv.ents, e)
	mv.n++
	if h, conc := hkey(mv.t.key(), k); conc {
		mv.idx[h] = e
	} else {
		mv.nsym++
	}
}

func (m *M) mapDelete(mv *mapV, k Val) {
	if mv == nil {
		return
	}
	e := m.mapFind(mv, k)
	if e == nil {
		return
	}
	e.dead = true
	mv.n--
	if h, conc := hkey(mv.t.key(), e.k); conc {
		delete(mv.idx, h)
	} else {
		mv.nsym--
	}
}

func newMap(t *tdesc) *mapV { return &mapV{t: t, idx: map[any]*mapEnt{}} }

// ---- control flow of the engine

// abort ends the current path for an engine reason.
type abort struct {
	kind string // assume, unsupported, budget, steps, done
	msg  string
}

// targetPanic is a panic of the code under test.
type targetPanic struct{ v Val }
