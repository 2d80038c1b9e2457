package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

// opnd is a pre-resolved operand: a register, a constant, or a global's address.
type opnd struct {
	reg  int // >= 0: register
	glob int // >= 0: global index
	v    Val
}

func (o *opnd) get(fr *frame) Val {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.glob >= 0 {
		return Val{r: fr.m.global(o.glob)}
	}
	return o.v
}

type decoder struct {
	P    *Program
	c    *code
	fn   *ssa.Function
	regs map[ssa.Value]int
}

func decode(c *code) {
	fn := c.fn
	P := c.P
	c.res = P.td(fn.Signature.Results())
	if in := findIntrinsic(fn); in != nil {
		c.intr = in
		return
	}
	if fn.Blocks == nil {
		c.noBody = true
		return
	}
	if fn.Pkg != nil && isRepoPath(fn.Pkg.Pkg.Path()) {
		c.isRepo = true
	} else if fn.Pkg == nil && fn.Parent() == nil && fn.Object() != nil && fn.Object().Pkg() != nil && isRepoPath(fn.Object().Pkg().Path()) {
		c.isRepo = true
	}
	d := &decoder{P: P, c: c, fn: fn, regs: map[ssa.Value]int{}}
	n := 0
	for _, p := range fn.Params {
		d.regs[p] = n
		n++
	}
	c.nparams = n
	for _, p := range fn.FreeVars {
		d.regs[p] = n
		n++
	}
	c.nfree = n - c.nparams
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				d.regs[v] = n
				n++
			}
			if _, ok := i.(*ssa.Defer); ok {
				c.hasDefer = true
			}
		}
	}
	c.nregs = n
	if fn.Recover != nil {
		c.recover = fn.Recover.Index
	}
	for _, b := range fn.Blocks {
		nb := &blk{}
		for _, p := range b.Preds {
			nb.preds = append(nb.preds, p.Index)
		}
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Phi:
				ph := phi{dst: d.regs[i]}
				for _, e := range i.Edges {
					ph.edges = append(ph.edges, d.op(e))
				}
				nb.phis = append(nb.phis, ph)
			case *ssa.DebugRef:
			case *ssa.Jump:
				t := b.Succs[0].Index
				nb.term = func(fr *frame) int { return t }
			case *ssa.If:
				x := d.op(i.Cond)
				t, f := b.Succs[0].Index, b.Succs[1].Index
				nb.term = func(fr *frame) int {
					v := x.get(fr)
					if v.r == nil {
						if v.c != 0 {
							return t
						}
						return f
					}
					if fr.m.branch(v) {
						return t
					}
					return f
				}
			case *ssa.Return:
				switch len(i.Results) {
				case 0:
					nb.term = func(fr *frame) int { return -1 }
				case 1:
					x := d.op(i.Results[0])
					nb.term = func(fr *frame) int { fr.ret = x.get(fr); return -1 }
				default:
					var xs []opnd
					for _, r := range i.Results {
						xs = append(xs, d.op(r))
					}
					nb.term = func(fr *frame) int {
						a := make(agg, len(xs))
						for k := range xs {
							a[k] = xs[k].get(fr)
						}
						fr.ret = Val{r: a}
						return -1
					}
				}
			case *ssa.Panic:
				x := d.op(i.X)
				nb.term = func(fr *frame) int { panic(targetPanic{x.get(fr)}) }
			default:
				if f := d.instr(i); f != nil {
					nb.ins = append(nb.ins, f)
				}
			}
		}
		c.blocks = append(c.blocks, nb)
	}
}

func (d *decoder) op(v ssa.Value) opnd {
	switch v := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, glob: -1, v: d.constVal(v)}
	case *ssa.Global:
		return opnd{reg: -1, glob: d.P.globalIdx(v)}
	case *ssa.Function:
		return opnd{reg: -1, glob: -1, v: Val{r: &closure{c: d.P.codeOf(v)}}}
	case *ssa.Builtin:
		return opnd{reg: -1, glob: -1}
	}
	r, ok := d.regs[v]
	if !ok {
		panic(fmt.Sprintf("no register for %s in %s", v, d.fn))
	}
	return opnd{reg: r, glob: -1}
}

func (d *decoder) constVal(c *ssa.Const) Val {
	t := d.P.td(c.Type())
	if c.Value == nil {
		if t.k == kStruct || t.k == kArray || t.k == kTuple {
			return t.zero()
		}
		return Val{}
	}
	switch t.k {
	case kInt:
		if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok {
			return ci(u & mask(t.w))
		}
		i, _ := constant.Int64Val(constant.ToInt(c.Value))
		return ci(uint64(i) & mask(t.w))
	case kBool:
		return vbool(constant.BoolVal(c.Value))
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		if t.w == 32 {
			f = float64(float32(f))
		}
		return vfloat(f)
	case kString:
		if c.Value.Kind() == constant.String {
			return vstr(constant.StringVal(c.Value))
		}
		i, _ := constant.Int64Val(c.Value)
		return vstr(string(rune(i)))
	case kComplex:
		return Val{r: opaqueF{}}
	}
	return Val{}
}

func bad(format string, a ...any) instr {
	msg := fmt.Sprintf(format, a...)
	return func(fr *frame) { panic(abort{"unsupported", msg}) }
}

func (d *decoder) instr(i ssa.Instruction) instr {
	P := d.P
	dst := -1
	if v, ok := i.(ssa.Value); ok {
		dst = d.regs[v]
	}
	switch i := i.(type) {
	case *ssa.Alloc:
		td := P.td(i.Type().Underlying().(*types.Pointer).Elem())
		if td.isAgg() {
			return func(fr *frame) {
				p := new(Val)
				*p = td.zero()
				fr.regs[dst] = Val{r: p}
			}
		}
		return func(fr *frame) { fr.regs[dst] = Val{r: new(Val)} }
	case *ssa.Store:
		a, v := d.op(i.Addr), d.op(i.Val)
		td := P.td(i.Val.Type())
		isAgg := td.isAgg()
		return func(fr *frame) {
			pv := a.get(fr)
			p, ok := pv.r.(*Val)
			if !ok {
				fr.m.storeSlow(pv, v.get(fr), td)
				return
			}
			if isAgg {
				storeInto(p, v.get(fr))
			} else {
				*p = v.get(fr)
			}
		}
	case *ssa.UnOp:
		return d.unop(i, dst)
	case *ssa.BinOp:
		return d.binop(i, dst)
	case *ssa.FieldAddr:
		x := d.op(i.X)
		f := i.Field
		return func(fr *frame) {
			v := x.get(fr)
			p, ok := v.r.(*Val)
			if !ok {
				if sp, ok := v.r.(*symPtr); ok {
					fr.regs[dst] = Val{r: &symPtr{sp.base, sp.idx, append(append([]int{}, sp.path...), f), sp.et}}
					return
				}
				fr.m.nilDeref()
			}
			a, ok := p.r.(agg)
			if !ok {
				unsupported("field of opaque object")
			}
			fr.regs[dst] = Val{r: &a[f]}
		}
	case *ssa.Field:
		x := d.op(i.X)
		f := i.Field
		return func(fr *frame) { fr.regs[dst] = x.get(fr).r.(agg)[f] }
	case *ssa.IndexAddr:
		return d.indexAddr(i, dst)
	case *ssa.Index:
		x, idx := d.op(i.X), d.op(i.Index)
		xt := P.td(i.X.Type())
		it := P.td(i.Index.Type())
		if xt.k == kString {
			return func(fr *frame) { fr.regs[dst] = fr.m.strIndex(x.get(fr), idx.get(fr), it) }
		}
		et := xt.elem()
		return func(fr *frame) {
			a := x.get(fr).r.(agg)
			fr.regs[dst] = fr.m.readElem([]Val(a), idx.get(fr), it, et)
		}
	case *ssa.Lookup:
		x, k := d.op(i.X), d.op(i.Index)
		xt := P.td(i.X.Type())
		if xt.k == kString {
			it := P.td(i.Index.Type())
			return func(fr *frame) { fr.regs[dst] = fr.m.strIndex(x.get(fr), k.get(fr), it) }
		}
		vt := xt.elem()
		comma := i.CommaOk
		return func(fr *frame) {
			mv, _ := x.get(fr).r.(*mapV)
			v, ok := fr.m.mapGet(mv, k.get(fr), vt)
			if comma {
				fr.regs[dst] = Val{r: agg{v, ok}}
			} else {
				fr.regs[dst] = v
			}
		}
	case *ssa.MapUpdate:
		x, k, v := d.op(i.Map), d.op(i.Key), d.op(i.Value)
		return func(fr *frame) {
			mv, _ := x.get(fr).r.(*mapV)
			fr.m.mapSet(mv, k.get(fr), v.get(fr))
		}
	case *ssa.MakeMap:
		td := P.td(i.Type())
		return func(fr *frame) { fr.regs[dst] = Val{r: newMap(td)} }
	case *ssa.MakeSlice:
		l, cp := d.op(i.Len), d.op(i.Cap)
		lt, ct := P.td(i.Len.Type()), P.td(i.Cap.Type())
		et := P.td(i.Type()).elem()
		return func(fr *frame) {
			m := fr.m
			n := m.sizeArg(l.get(fr), lt, "makeslice: len out of range")
			c := n
			cv := cp.get(fr)
			if i.Cap != i.Len {
				c = m.sizeArg(cv, ct, "makeslice: cap out of range")
			}
			if c < n {
				m.rtPanic("makeslice: cap out of range")
			}
			fr.regs[dst] = vslice(m.mkElems(et, n, c))
		}
	case *ssa.Slice:
		return d.sliceOp(i, dst)
	case *ssa.SliceToArrayPointer:
		x := d.op(i.X)
		n := P.td(i.Type()).elem().n
		return func(fr *frame) {
			s := x.get(fr).slice()
			if len(s) < n {
				fr.m.rtPanic("cannot convert slice to array pointer")
			}
			if s == nil {
				fr.regs[dst] = Val{}
				return
			}
			fr.regs[dst] = Val{r: &Val{r: agg(s[:n:n])}}
		}
	case *ssa.MakeClosure:
		c := P.codeOf(i.Fn.(*ssa.Function))
		var bs []opnd
		for _, b := range i.Bindings {
			bs = append(bs, d.op(b))
		}
		return func(fr *frame) {
			env := make([]Val, len(bs))
			for k := range bs {
				env[k] = bs[k].get(fr)
			}
			fr.regs[dst] = Val{r: &closure{c: c, env: env}}
		}
	case *ssa.MakeInterface:
		x := d.op(i.X)
		td := P.td(i.X.Type())
		return func(fr *frame) { fr.regs[dst] = Val{r: &iface{td, x.get(fr)}} }
	case *ssa.ChangeInterface:
		x := d.op(i.X)
		return func(fr *frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.ChangeType:
		x := d.op(i.X)
		return func(fr *frame) { fr.regs[dst] = x.get(fr) }
	case *ssa.Convert:
		return d.convert(i.X, i.Type(), dst)
	case *ssa.MultiConvert:
		return d.convert(i.X, i.Type(), dst)
	case *ssa.Extract:
		x := d.op(i.Tuple)
		k := i.Index
		return func(fr *frame) { fr.regs[dst] = x.get(fr).r.(agg)[k] }
	case *ssa.TypeAssert:
		return d.typeAssert(i, dst)
	case *ssa.Range:
		x := d.op(i.X)
		if P.td(i.X.Type()).k == kString {
			return func(fr *frame) { fr.regs[dst] = Val{r: &mapIter{isS: true, str: strBytes(x.get(fr))}} }
		}
		return func(fr *frame) {
			mv, _ := x.get(fr).r.(*mapV)
			fr.regs[dst] = Val{r: fr.m.mapRange(mv)}
		}
	case *ssa.Next:
		x := d.op(i.Iter)
		tup := P.td(i.Type())
		if i.IsString {
			return func(fr *frame) {
				it := x.get(fr).r.(*mapIter)
				if it.pos >= len(it.str) {
					fr.regs[dst] = Val{r: agg{Val{}, Val{}, Val{}}}
					return
				}
				r, n := fr.m.decodeRune(it.str[it.pos:])
				fr.regs[dst] = Val{r: agg{ci(1), ci(uint64(it.pos)), r}}
				it.pos += n
			}
		}
		_ = tup
		kz, vz := P.td(types.Typ[types.Int]), P.td(types.Typ[types.Int])
		if mt, ok := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map); ok {
			kz, vz = P.td(mt.Key()), P.td(mt.Elem())
		}
		return func(fr *frame) {
			it := x.get(fr).r.(*mapIter)
			e := fr.m.mapNext(it)
			if e == nil {
				fr.regs[dst] = Val{r: agg{Val{}, kz.zero(), vz.zero()}}
			} else {
				fr.regs[dst] = Val{r: agg{ci(1), clone(e.k), clone(e.v)}}
			}
		}
	case *ssa.Call:
		f := d.call(&i.Call, i.Parent())
		return func(fr *frame) { fr.regs[dst] = f(fr) }
	case *ssa.Defer:
		f := d.deferCall(&i.Call)
		return func(fr *frame) { fr.defers = append(fr.defers, f(fr)) }
	case *ssa.RunDefers:
		return func(fr *frame) {
			fr.m.runDefers(fr)
			if fr.panicking {
				panic(targetPanic{fr.pv})
			}
		}
	case *ssa.Go:
		return bad("go statement in %s", d.fn)
	case *ssa.Select:
		return bad("select in %s", d.fn)
	case *ssa.Send:
		return bad("channel send in %s", d.fn)
	case *ssa.MakeChan:
		return func(fr *frame) { fr.regs[dst] = Val{r: new(Val)} }
	}
	return bad("instruction %T in %s", i, d.fn)
}

func (m *M) nilDeref() { m.rtPanic("invalid memory address or nil pointer dereference") }

// ---- loads and stores

func (m *M) load(pv Val, td *tdesc) Val {
	switch p := pv.r.(type) {
	case *Val:
		if td.isAgg() {
			return clone(*p)
		}
		return *p
	case *symPtr:
		return m.loadSym(p, td)
	case nil:
		m.nilDeref()
	}
	panic(abort{"unsupported", fmt.Sprintf("load through %T", pv.r)})
}

func follow(v *Val, path []int) *Val {
	for _, f := range path {
		v = &v.r.(agg)[f]
	}
	return v
}

func (m *M) idxRange(e *Expr, n int) (int, int) {
	lo, hi := 0, n-1
	if e.umin < uint64(n) {
		lo = int(e.umin)
	}
	if e.umax < uint64(n) {
		hi = int(e.umax)
	}
	return lo, hi
}

const maxIte = 4200

// loadSym reads base[idx].path with a symbolic index: an ite tree when the leaves can be
// merged, otherwise a fork over the index.
func (m *M) loadSym(p *symPtr, td *tdesc) Val {
	lo, hi := m.idxRange(p.idx, len(p.base))
	if hi-lo < maxIte {
		if v, ok := m.iteTree(p, td, lo, hi); ok {
			return v
		}
	}
	k := m.conc(Val{r: p.idx}, 64)
	return clone(*follow(&p.base[k], p.path))
}

func sameConc(a, b Val) bool {
	if a.r == nil && b.r == nil {
		return a.c == b.c
	}
	x, ok1 := a.r.(*Expr)
	y, ok2 := b.r.(*Expr)
	return ok1 && ok2 && x == y
}

func (m *M) iteTree(p *symPtr, td *tdesc, lo, hi int) (Val, bool) {
	if lo == hi {
		return clone(*follow(&p.base[lo], p.path)), true
	}
	if td.k == kInt || td.k == kBool {
		// collapse runs
		first := *follow(&p.base[lo], p.path)
		same := true
		for k := lo + 1; k <= hi; k++ {
			if !sameConc(first, *follow(&p.base[k], p.path)) {
				same = false
				break
			}
		}
		if same {
			return first, true
		}
	}
	mid := (lo + hi) / 2
	a, ok := m.iteTree(p, td, lo, mid)
	if !ok {
		return a, false
	}
	b, ok := m.iteTree(p, td, mid+1, hi)
	if !ok {
		return b, false
	}
	return m.merge(td, m.cx.Ule(p.idx, m.cx.Const(uint64(mid), 64)), a, b)
}

func (m *M) storeSlow(pv, v Val, td *tdesc) {
	p, ok := pv.r.(*symPtr)
	if !ok {
		if pv.r == nil {
			m.nilDeref()
		}
		unsupported("store through %T", pv.r)
	}
	lo, hi := m.idxRange(p.idx, len(p.base))
	if hi-lo < 600 {
		out := make([]Val, 0, hi-lo+1)
		good := true
		for k := lo; k <= hi; k++ {
			old := *follow(&p.base[k], p.path)
			nv, ok := m.merge(td, m.cx.Eq(p.idx, m.cx.Const(uint64(k), 64)), v, old)
			if !ok {
				good = false
				break
			}
			out = append(out, nv)
		}
		if good {
			for k := lo; k <= hi; k++ {
				storeInto(follow(&p.base[k], p.path), out[k-lo])
			}
			return
		}
	}
	k := m.conc(Val{r: p.idx}, 64)
	storeInto(follow(&p.base[k], p.path), v)
}

// index converts an index value to 64 bits and checks it against n.
func (m *M) index(iv Val, it *tdesc, n int) (int, *Expr) {
	if iv.r == nil {
		i := iv.c
		if it.signed {
			i = signExt(i, it.w)
		}
		if i >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i), n))
		}
		return int(i), nil
	}
	e := m.ext64(iv, it)
	if !m.branch(vexpr(m.cx.Ult(e, m.cx.Const(uint64(n), 64)))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if e.isC() {
		return int(e.c), nil
	}
	if e.umin == e.umax {
		return int(e.umin), nil
	}
	return 0, e
}

func (m *M) ext64(v Val, t *tdesc) *Expr {
	e := m.ex(v, t.w)
	if t.signed {
		return m.cx.SExt(e, 64)
	}
	return m.cx.ZExt(e, 64)
}

func (m *M) readElem(s []Val, iv Val, it, et *tdesc) Val {
	k, e := m.index(iv, it, len(s))
	if e == nil {
		return clone(s[k])
	}
	return m.loadSym(&symPtr{base: s, idx: e, et: et}, et)
}

func (m *M) strIndex(sv, iv Val, it *tdesc) Val {
	if s, ok := concStr(sv); ok && iv.r == nil {
		k, _ := m.index(iv, it, len(s))
		return ci(uint64(s[k]))
	}
	return m.readElem(strBytes(sv), iv, it, m.ex_.byteTd)
}

func (d *decoder) indexAddr(i *ssa.IndexAddr, dst int) instr {
	x, idx := d.op(i.X), d.op(i.Index)
	xt := d.P.td(i.X.Type())
	it := d.P.td(i.Index.Type())
	var et *tdesc
	if xt.k == kPtr {
		et = xt.elem().elem()
	} else {
		et = xt.elem()
	}
	isSlice := xt.k == kSlice
	w, signed := it.w, it.signed
	return func(fr *frame) {
		m := fr.m
		xv := x.get(fr)
		var s []Val
		if isSlice {
			if xv.r != nil {
				s = xv.r.(sliceV)
			}
		} else {
			p, ok := xv.r.(*Val)
			if !ok {
				if sp, ok := xv.r.(*symPtr); ok {
					iv := idx.get(fr)
					n := len(follow(&sp.base[0], sp.path).r.(agg))
					k, e := m.index(iv, it, n)
					if e != nil {
						k = int(m.conc(Val{r: e}, 64))
					}
					fr.regs[dst] = Val{r: &symPtr{sp.base, sp.idx, append(append([]int{}, sp.path...), k), sp.et}}
					return
				}
				m.nilDeref()
			}
			s = p.r.(agg)
		}
		iv := idx.get(fr)
		if iv.r == nil {
			k := iv.c
			if signed {
				k = signExt(k, w)
			}
			if k < uint64(len(s)) {
				fr.regs[dst] = Val{r: &s[k]}
				return
			}
		}
		k, e := m.index(iv, it, len(s))
		if e == nil {
			fr.regs[dst] = Val{r: &s[k]}
			return
		}
		fr.regs[dst] = Val{r: &symPtr{base: s, idx: e, et: et}}
	}
}

// sizeArg checks and fixes the size of an allocation.
func (m *M) sizeArg(v Val, t *tdesc, msg string) int {
	const limit = 1 << 21
	if v.r == nil {
		n := v.c
		if t.signed {
			n = signExt(n, t.w)
		}
		if int64(n) < 0 {
			m.rtPanic(msg)
		}
		if n > limit {
			panic(abort{"budget", fmt.Sprintf("allocation of %d elements", n)})
		}
		return int(n)
	}
	e := m.ext64(v, t)
	if m.branch(vexpr(m.cx.Slt(e, m.cx.Const(0, 64)))) {
		m.rtPanic(msg)
	}
	if m.branch(vexpr(m.cx.Ult(m.cx.Const(limit, 64), e))) {
		panic(abort{"budget", "large symbolic allocation"})
	}
	// The smallest sizes first: that is where an index into the result can be too large.
	for k := uint64(0); k < 3; k++ {
		if m.branch(vexpr(m.cx.Eq(e, m.cx.Const(k, 64)))) {
			return int(k)
		}
	}
	return int(m.conc(vexpr(e), 64))
}

func (m *M) mkElems(et *tdesc, n, c int) []Val {
	s := make([]Val, c)
	if et.isAgg() {
		for i := range s {
			s[i] = et.zero()
		}
	}
	return s[:n]
}

func (d *decoder) sliceOp(i *ssa.Slice, dst int) instr {
	x := d.op(i.X)
	xt := d.P.td(i.X.Type())
	type bound struct {
		has bool
		o   opnd
		t   *tdesc
	}
	mk := func(v ssa.Value) bound {
		if v == nil {
			return bound{}
		}
		return bound{true, d.op(v), d.P.td(v.Type())}
	}
	lo, hi, mx := mk(i.Low), mk(i.High), mk(i.Max)
	return func(fr *frame) {
		m := fr.m
		xv := x.get(fr)
		var s []Val
		var sb []Val
		str := xt.k == kString
		n, c := 0, 0
		switch {
		case str:
			n = strLen(xv)
			c = n
		case xt.k == kPtr:
			p, ok := xv.r.(*Val)
			if !ok {
				if xv.r == nil {
					m.nilDeref()
				}
				unsupported("slice of a symbolic array pointer")
			}
			s = p.r.(agg)
			n, c = len(s), len(s)
		default:
			s = xv.slice()
			n, c = len(s), cap(s)
		}
		get := func(b bound, def int, limit int) int {
			if !b.has {
				return def
			}
			v := b.o.get(fr)
			if v.r == nil {
				k := v.c
				if b.t.signed {
					k = signExt(k, b.t.w)
				}
				if k > uint64(limit) {
					m.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with capacity %d", int64(k), limit))
				}
				return int(k)
			}
			e := m.ext64(v, b.t)
			if !m.branch(vexpr(m.cx.Ule(e, m.cx.Const(uint64(limit), 64)))) {
				m.rtPanic("slice bounds out of range")
			}
			return int(m.conc(vexpr(e), 64))
		}
		mxv := get(mx, c, c)
		h := get(hi, n, mxv)
		if h > mxv {
			m.rtPanic("slice bounds out of range")
		}
		l := get(lo, 0, h)
		if str {
			if cs, ok := concStr(xv); ok {
				fr.regs[dst] = vstr(cs[l:h])
				return
			}
			sb = strBytes(xv)
			fr.regs[dst] = mkStr(sb[l:h])
			return
		}
		if s == nil {
			fr.regs[dst] = Val{}
			return
		}
		fr.regs[dst] = vslice(s[l:h:mxv])
	}
}

// ---- unary and binary operators

func (d *decoder) unop(i *ssa.UnOp, dst int) instr {
	x := d.op(i.X)
	xt := d.P.td(i.X.Type())
	switch i.Op {
	case token.MUL:
		td := xt.elem()
		if td.isAgg() {
			return func(fr *frame) {
				v := x.get(fr)
				if p, ok := v.r.(*Val); ok {
					fr.regs[dst] = clone(*p)
					return
				}
				fr.regs[dst] = fr.m.load(v, td)
			}
		}
		return func(fr *frame) {
			v := x.get(fr)
			if p, ok := v.r.(*Val); ok {
				fr.regs[dst] = *p
				return
			}
			fr.regs[dst] = fr.m.load(v, td)
		}
	case token.NOT:
		return func(fr *frame) {
			v := x.get(fr)
			if v.r == nil {
				fr.regs[dst] = Val{c: 1 - v.c}
				return
			}
			fr.regs[dst] = vexpr(fr.m.cx.Not(v.r.(*Expr)))
		}
	case token.SUB:
		if xt.k == kFloat {
			return func(fr *frame) {
				v := x.get(fr)
				if v.r == nil {
					v = vfloat(-v.float())
				}
				fr.regs[dst] = v
			}
		}
		w := xt.w
		return func(fr *frame) {
			v := x.get(fr)
			if v.r == nil {
				fr.regs[dst] = Val{c: (-v.c) & mask(w)}
				return
			}
			fr.regs[dst] = vexpr(fr.m.cx.Neg(v.r.(*Expr)))
		}
	case token.XOR:
		w := xt.w
		return func(fr *frame) {
			v := x.get(fr)
			if v.r == nil {
				fr.regs[dst] = Val{c: (^v.c) & mask(w)}
				return
			}
			fr.regs[dst] = vexpr(fr.m.cx.BNot(v.r.(*Expr)))
		}
	}
	return bad("unary %s in %s", i.Op, d.fn)
}

func (d *decoder) binop(i *ssa.BinOp, dst int) instr {
	x, y := d.op(i.X), d.op(i.Y)
	t := d.P.td(i.X.Type())
	op := i.Op
	set := func(f func(fr *frame, a, b Val) Val) instr {
		return func(fr *frame) { fr.regs[dst] = f(fr, x.get(fr), y.get(fr)) }
	}
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		// comparison of an interface with a concrete value is made uniform by ssa
		if t.k == kInt || t.k == kBool {
			w := t.w
			return set(func(fr *frame, a, b Val) Val {
				if a.r == nil && b.r == nil {
					return vbool((a.c == b.c) != neg)
				}
				m := fr.m
				var e *Expr
				if w == 0 {
					e = m.cx.Eq(m.exb(a), m.exb(b))
				} else {
					e = m.cx.Eq(m.ex(a, w), m.ex(b, w))
				}
				if neg {
					e = m.cx.Not(e)
				}
				return vexpr(e)
			})
		}
		return set(func(fr *frame, a, b Val) Val {
			e := fr.m.eq(t, a, b)
			if neg {
				e = fr.m.cx.Not(e)
			}
			return vexpr(e)
		})
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		switch t.k {
		case kInt:
			w, signed := t.w, t.signed
			return set(func(fr *frame, a, b Val) Val {
				if a.r == nil && b.r == nil {
					var lt, eq bool
					if signed {
						p, q := int64(signExt(a.c, w)), int64(signExt(b.c, w))
						lt, eq = p < q, p == q
					} else {
						lt, eq = a.c < b.c, a.c == b.c
					}
					switch op {
					case token.LSS:
						return vbool(lt)
					case token.LEQ:
						return vbool(lt || eq)
					case token.GTR:
						return vbool(!lt && !eq)
					}
					return vbool(!lt)
				}
				cx := fr.m.cx
				p, q := fr.m.ex(a, w), fr.m.ex(b, w)
				if op == token.GTR || op == token.GEQ {
					p, q = q, p
				}
				strict := op == token.LSS || op == token.GTR
				switch {
				case signed && strict:
					return vexpr(cx.Slt(p, q))
				case signed:
					return vexpr(cx.Sle(p, q))
				case strict:
					return vexpr(cx.Ult(p, q))
				}
				return vexpr(cx.Ule(p, q))
			})
		case kFloat:
			return set(func(fr *frame, a, b Val) Val {
				if a.r != nil || b.r != nil {
					unsupported("comparison of a symbolic float")
				}
				p, q := a.float(), b.float()
				switch op {
				case token.LSS:
					return vbool(p < q)
				case token.LEQ:
					return vbool(p <= q)
				case token.GTR:
					return vbool(p > q)
				}
				return vbool(p >= q)
			})
		case kString:
			return set(func(fr *frame, a, b Val) Val {
				m := fr.m
				switch op {
				case token.LSS:
					return vexpr(m.strLess(a, b))
				case token.LEQ:
					return vexpr(m.cx.Not(m.strLess(b, a)))
				case token.GTR:
					return vexpr(m.strLess(b, a))
				}
				return vexpr(m.cx.Not(m.strLess(a, b)))
			})
		}
	case token.ADD:
		if t.k == kString {
			return set(func(fr *frame, a, b Val) Val {
				if p, ok := concStr(a); ok {
					if q, ok := concStr(b); ok {
						return vstr(p + q)
					}
				}
				p, q := strBytes(a), strBytes(b)
				return mkStr(append(append(make([]Val, 0, len(p)+len(q)), p...), q...))
			})
		}
	}
	if t.k == kFloat {
		w := t.w
		return set(func(fr *frame, a, b Val) Val {
			if a.r != nil || b.r != nil {
				return Val{r: opaqueF{}}
			}
			p, q := a.float(), b.float()
			var r float64
			switch op {
			case token.ADD:
				r = p + q
			case token.SUB:
				r = p - q
			case token.MUL:
				r = p * q
			case token.QUO:
				r = p / q
			default:
				unsupported("float op %s", op)
			}
			if w == 32 {
				r = float64(float32(r))
			}
			return vfloat(r)
		})
	}
	if t.k != kInt {
		return bad("binary %s on %s in %s", op, t, d.fn)
	}
	w, signed := t.w, t.signed
	mk := mask(w)
	switch op {
	case token.ADD:
		return set(func(fr *frame, a, b Val) Val {
			if a.r == nil && b.r == nil {
				return Val{c: (a.c + b.c) & mk}
			}
			return vexpr(fr.m.cx.Add(fr.m.ex(a, w), fr.m.ex(b, w)))
		})
	case token.SUB:
		return set(func(fr *frame, a, b Val) Val {
			if a.r == nil && b.r == nil {
				return Val{c: (a.c - b.c) & mk}
			}
			return vexpr(fr.m.cx.Sub(fr.m.ex(a, w), fr.m.ex(b, w)))
		})
	case token.MUL:
		return set(func(fr *frame, a, b Val) Val {
			if a.r == nil && b.r == nil {
				return Val{c: (a.c * b.c) & mk}
			}
			return vexpr(fr.m.cx.Mul(fr.m.ex(a, w), fr.m.ex(b, w)))
		})
	case token.QUO, token.REM:
		o := OUDiv
		switch {
		case op == token.QUO && signed:
			o = OSDiv
		case op == token.REM && signed:
			o = OSRem
		case op == token.REM:
			o = OURem
		}
		return set(func(fr *frame, a, b Val) Val {
			m := fr.m
			if b.r == nil {
				if b.c == 0 {
					m.rtPanic("integer divide by zero")
				}
			} else if m.branch(vexpr(m.cx.Eq(m.ex(b, w), m.cx.Const(0, w)))) {
				m.rtPanic("integer divide by zero")
			}
			if a.r == nil && b.r == nil {
				switch o {
				case OUDiv:
					return Val{c: a.c / b.c}
				case OURem:
					return Val{c: a.c % b.c}
				}
				p, q := int64(signExt(a.c, w)), int64(signExt(b.c, w))
				if q == -1 {
					if o == OSDiv {
						return Val{c: uint64(-p) & mk}
					}
					return Val{}
				}
				if o == OSDiv {
					return Val{c: uint64(p/q) & mk}
				}
				return Val{c: uint64(p%q) & mk}
			}
			return vexpr(m.cx.Div(o, m.ex(a, w), m.ex(b, w)))
		})
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		return set(func(fr *frame, a, b Val) Val {
			if a.r == nil && b.r == nil {
				switch op {
				case token.AND:
					return Val{c: a.c & b.c}
				case token.OR:
					return Val{c: a.c | b.c}
				case token.XOR:
					return Val{c: a.c ^ b.c}
				}
				return Val{c: a.c &^ b.c}
			}
			cx := fr.m.cx
			p, q := fr.m.ex(a, w), fr.m.ex(b, w)
			switch op {
			case token.AND:
				return vexpr(cx.And2(p, q))
			case token.OR:
				return vexpr(cx.Or2(p, q))
			case token.XOR:
				return vexpr(cx.Xor2(p, q))
			}
			return vexpr(cx.And2(p, cx.BNot(q)))
		})
	case token.SHL, token.SHR:
		yt := d.P.td(i.Y.Type())
		return set(func(fr *frame, a, b Val) Val {
			m := fr.m
			if b.r == nil {
				k := b.c
				if yt.signed {
					k = signExt(k, yt.w)
					if int64(k) < 0 {
						m.rtPanic("negative shift amount")
					}
				}
				if a.r == nil {
					if op == token.SHL {
						if k >= 64 {
							return Val{}
						}
						return Val{c: (a.c << k) & mk}
					}
					if signed {
						return Val{c: uint64(int64(signExt(a.c, w))>>min(k, 63)) & mk}
					}
					if k >= 64 {
						return Val{}
					}
					return Val{c: a.c >> k}
				}
				kk := m.cx.Const(min(k, uint64(w)), w)
				if w == 8 && k >= 8 {
					kk = m.cx.Const(8, w)
				}
				p := a.r.(*Expr)
				switch {
				case op == token.SHL:
					return vexpr(m.cx.Shl(p, kk))
				case signed:
					return vexpr(m.cx.Ashr(p, kk))
				}
				return vexpr(m.cx.Lshr(p, kk))
			}
			be := m.ex(b, yt.w)
			if yt.signed {
				if m.branch(vexpr(m.cx.Slt(be, m.cx.Const(0, yt.w)))) {
					m.rtPanic("negative shift amount")
				}
			}
			// saturate the count to w
			var cnt *Expr
			if yt.w > w {
				big := m.cx.Ule(m.cx.Const(uint64(w), yt.w), be)
				cnt = m.cx.Ite(big, m.cx.Const(uint64(w), w), m.cx.Extract(be, 0, w))
			} else {
				cnt = m.cx.ZExt(be, w)
			}
			p := m.ex(a, w)
			switch {
			case op == token.SHL:
				return vexpr(m.cx.Shl(p, cnt))
			case signed:
				return vexpr(m.cx.Ashr(p, cnt))
			}
			return vexpr(m.cx.Lshr(p, cnt))
		})
	}
	return bad("binary %s on %s in %s", op, t, d.fn)
}

// ---- conversions

func (d *decoder) convert(xv ssa.Value, to types.Type, dst int) instr {
	x := d.op(xv)
	f, t := d.P.td(xv.Type()), d.P.td(to)
	set := func(g func(fr *frame, v Val) Val) instr {
		return func(fr *frame) { fr.regs[dst] = g(fr, x.get(fr)) }
	}
	switch {
	case f.k == kInt && t.k == kInt:
		fw, tw, fs := f.w, t.w, f.signed
		mk := mask(tw)
		return set(func(fr *frame, v Val) Val {
			if v.r == nil {
				if fs && tw > fw {
					return Val{c: signExt(v.c, fw) & mk}
				}
				return Val{c: v.c & mk}
			}
			e := v.r.(*Expr)
			if fs {
				return vexpr(fr.m.cx.SExt(e, tw))
			}
			return vexpr(fr.m.cx.ZExt(e, tw))
		})
	case f.k == kInt && t.k == kFloat:
		return set(func(fr *frame, v Val) Val {
			if v.r != nil {
				return Val{r: opaqueF{}}
			}
			var r float64
			if f.signed {
				r = float64(int64(signExt(v.c, f.w)))
			} else {
				r = float64(v.c)
			}
			if t.w == 32 {
				r = float64(float32(r))
			}
			return vfloat(r)
		})
	case f.k == kFloat && t.k == kInt:
		return set(func(fr *frame, v Val) Val {
			if v.r != nil {
				unsupported("conversion of a symbolic float")
			}
			r := v.float()
			if t.signed {
				return Val{c: uint64(int64(r)) & mask(t.w)}
			}
			if t.w == 64 {
				return Val{c: uint64(r)}
			}
			return Val{c: uint64(int64(r)) & mask(t.w)}
		})
	case f.k == kFloat && t.k == kFloat:
		return set(func(fr *frame, v Val) Val {
			if v.r != nil {
				return v
			}
			r := v.float()
			if t.w == 32 {
				r = float64(float32(r))
			}
			if math.IsNaN(r) {
				return v
			}
			return vfloat(r)
		})
	case f.k == kString && t.k == kSlice:
		if t.elem().w == 8 {
			return set(func(fr *frame, v Val) Val {
				b := strBytes(v)
				n := make([]Val, len(b))
				copy(n, b)
				return vslice(n)
			})
		}
		return set(func(fr *frame, v Val) Val {
			b := strBytes(v)
			out := []Val{}
			for len(b) > 0 {
				r, n := fr.m.decodeRune(b)
				out = append(out, r)
				b = b[n:]
			}
			return vslice(out)
		})
	case f.k == kSlice && t.k == kString:
		if f.elem().w == 8 {
			return set(func(fr *frame, v Val) Val { return mkStr(v.slice()) })
		}
		return set(func(fr *frame, v Val) Val {
			var out []Val
			for _, r := range v.slice() {
				out = append(out, fr.m.encodeRune(r)...)
			}
			return mkStr(out)
		})
	case f.k == kInt && t.k == kString:
		return set(func(fr *frame, v Val) Val {
			if f.w != 32 {
				if v.r != nil {
					e := fr.m.ext64(v, f)
					if fr.m.branch(vexpr(fr.m.cx.Ult(fr.m.cx.Const(0x10ffff, 64), e))) {
						return vstr("\uFFFD")
					}
					v = vexpr(fr.m.cx.Extract(e, 0, 32))
				} else {
					u := v.c
					if f.signed {
						u = signExt(u, f.w)
					}
					if u > 0x10ffff {
						return vstr("\uFFFD")
					}
					v = ci(u)
				}
			}
			return mkStr(fr.m.encodeRune(v))
		})
	case t.k == kUnsafe || f.k == kUnsafe:
		if t.k == kInt || f.k == kInt {
			return bad("uintptr conversion in %s", d.fn)
		}
		return set(func(fr *frame, v Val) Val { return v })
	case f.k == t.k:
		return set(func(fr *frame, v Val) Val { return v })
	case f.k == kSlice && t.k == kArray:
		return set(func(fr *frame, v Val) Val {
			s := v.slice()
			if len(s) < t.n {
				fr.m.rtPanic("cannot convert slice to array")
			}
			return clone(Val{r: agg(s[:t.n])})
		})
	}
	return bad("conversion %s to %s in %s", f, t, d.fn)
}

// decodeRune decodes the first rune of b through unicode/utf8's own code.
func (m *M) decodeRune(b []Val) (Val, int) {
	if b[0].r == nil && b[0].c < 0x80 {
		return b[0], 1
	}
	if b[0].r != nil && m.branch(vexpr(m.cx.Ult(m.ex(b[0], 8), m.cx.Const(0x80, 8)))) {
		return vexpr(m.cx.ZExt(m.ex(b[0], 8), 32)), 1
	}
	k := min(len(b), 4)
	r := m.callNamed("unicode/utf8", "DecodeRuneInString", mkStr(b[:k])).r.(agg)
	n := m.conc(r[1], 64)
	return r[0], int(n)
}

func (m *M) encodeRune(r Val) []Val {
	if r.r == nil {
		s := string(rune(int32(r.c)))
		return strBytes(vstr(s))
	}
	return m.callNamed("unicode/utf8", "AppendRune", Val{}, r).slice()
}

// ---- type assertions

func (d *decoder) typeAssert(i *ssa.TypeAssert, dst int) instr {
	x := d.op(i.X)
	td := d.P.td(i.AssertedType)
	comma := i.CommaOk
	return func(fr *frame) {
		v := x.get(fr)
		ok := false
		var res Val
		if v.r != nil {
			f, isI := v.r.(*iface)
			if !isI {
				unsupported("type assertion on %T", v.r)
			}
			if td.k == kIface {
				if types.Implements(f.t.t, td.u.(*types.Interface)) {
					ok, res = true, v
				}
			} else if f.t == td {
				ok, res = true, f.v
			}
		}
		if comma {
			if !ok {
				res = td.zero()
			}
			fr.regs[dst] = Val{r: agg{res, vbool(ok)}}
			return
		}
		if !ok {
			fr.m.panicStr("interface conversion: wrong dynamic type for " + td.String())
		}
		fr.regs[dst] = res
	}
}

// ---- maps

func (m *M) mapRange(mv *mapV) *mapIter {
	it := &mapIter{m: mv}
	if mv == nil {
		return it
	}
	for _, e := range mv.ents {
		if !e.dead {
			it.list = append(it.list, e)
		}
	}
	if len(it.list) > 1 {
		m.mapUsed = true
		if m.mapMode == 1 {
			for a, b := 0, len(it.list)-1; a < b; a, b = a+1, b-1 {
				it.list[a], it.list[b] = it.list[b], it.list[a]
			}
		}
	}
	return it
}

func (m *M) mapNext(it *mapIter) *mapEnt {
	for it.pos < len(it.list) {
		if m.mapMode == 2 {
			live := it.list[it.pos:]
			k := m.choose(len(live))
			live[0], live[k] = live[k], live[0]
		}
		e := it.list[it.pos]
		it.pos++
		if !e.dead {
			return e
		}
	}
	return nil
}

// ---- calls

func (d *decoder) call(cc *ssa.CallCommon, parent *ssa.Function) func(fr *frame) Val {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, d.op(a))
	}
	if cc.IsInvoke() {
		recv := d.op(cc.Value)
		meth := cc.Method
		return func(fr *frame) Val {
			v := recv.get(fr)
			if v.r == nil {
				fr.m.nilDeref()
			}
			i := v.r.(*iface)
			c := i.t.method(meth)
			if c == nil {
				unsupported("method %s of %s", meth.Name(), i.t)
			}
			var buf [6]Val
			as := append(buf[:0], i.v)
			for k := range args {
				as = append(as, args[k].get(fr))
			}
			return fr.m.callCode(c, as, nil, fr)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return d.builtin(b, cc, args)
	}
	if fn, ok := cc.Value.(*ssa.Function); ok {
		if fn.Synthetic == "package initializer" && !isRoot(fn.Pkg) {
			return func(fr *frame) Val { return Val{} }
		}
		c := d.P.codeOf(fn)
		return func(fr *frame) Val {
			var buf [8]Val
			as := buf[:0]
			for k := range args {
				as = append(as, args[k].get(fr))
			}
			return fr.m.callCode(c, as, nil, fr)
		}
	}
	fv := d.op(cc.Value)
	return func(fr *frame) Val {
		as := make([]Val, 0, len(args))
		for k := range args {
			as = append(as, args[k].get(fr))
		}
		return fr.m.callVal(fv.get(fr), as, fr)
	}
}

func (d *decoder) deferCall(cc *ssa.CallCommon) func(fr *frame) func() {
	var args []opnd
	for _, a := range cc.Args {
		args = append(args, d.op(a))
	}
	eval := func(fr *frame) []Val {
		as := make([]Val, 0, len(args)+1)
		for k := range args {
			as = append(as, args[k].get(fr))
		}
		return as
	}
	if cc.IsInvoke() {
		recv := d.op(cc.Value)
		meth := cc.Method
		return func(fr *frame) func() {
			v := recv.get(fr)
			if v.r == nil {
				fr.m.nilDeref()
			}
			i := v.r.(*iface)
			c := i.t.method(meth)
			as := append([]Val{i.v}, eval(fr)...)
			return func() { fr.m.callCode(c, as, nil, fr) }
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := d.builtin(b, cc, args)
		return func(fr *frame) func() { return func() { f(fr) } }
	}
	fv := d.op(cc.Value)
	return func(fr *frame) func() {
		as := eval(fr)
		f := fv.get(fr)
		return func() { fr.m.callVal(f, as, fr) }
	}
}

func (d *decoder) builtin(b *ssa.Builtin, cc *ssa.CallCommon, args []opnd) func(fr *frame) Val {
	P := d.P
	var at []*tdesc
	for _, a := range cc.Args {
		at = append(at, P.td(a.Type()))
	}
	switch b.Name() {
	case "len", "cap":
		isCap := b.Name() == "cap"
		return func(fr *frame) Val {
			v := args[0].get(fr)
			switch at[0].k {
			case kString:
				return ci(uint64(strLen(v)))
			case kSlice:
				s := v.slice()
				if isCap {
					return ci(uint64(cap(s)))
				}
				return ci(uint64(len(s)))
			case kMap:
				if v.r == nil {
					return Val{}
				}
				return ci(uint64(v.r.(*mapV).n))
			case kArray:
				return ci(uint64(at[0].n))
			case kPtr:
				return ci(uint64(at[0].elem().n))
			}
			panic(abort{"unsupported", "len of " + at[0].String()})
		}
	case "append":
		et := at[0].elem()
		esz := types.SizesFor("gc", "amd64").Sizeof(et.t)
		return func(fr *frame) Val {
			s := args[0].get(fr)
			if len(args) < 2 {
				return s
			}
			y := args[1].get(fr)
			var ys []Val
			if at[1].k == kString {
				ys = strBytes(y)
			} else {
				ys = y.slice()
			}
			if len(ys) == 0 {
				return s
			}
			return vslice(appendVals(s.slice(), ys, et, int(esz)))
		}
	case "copy":
		return func(fr *frame) Val {
			dstv := args[0].get(fr).slice()
			y := args[1].get(fr)
			var ys []Val
			if at[1].k == kString {
				ys = strBytes(y)
			} else {
				ys = y.slice()
			}
			n := min(len(dstv), len(ys))
			if at[0].elem().isAgg() {
				tmp := make([]Val, n)
				for i := range tmp {
					tmp[i] = clone(ys[i])
				}
				for i := range tmp {
					storeInto(&dstv[i], tmp[i])
				}
			} else {
				copy(dstv, ys)
			}
			return ci(uint64(n))
		}
	case "delete":
		return func(fr *frame) Val {
			mv, _ := args[0].get(fr).r.(*mapV)
			fr.m.mapDelete(mv, args[1].get(fr))
			return Val{}
		}
	case "clear":
		return func(fr *frame) Val {
			v := args[0].get(fr)
			switch x := v.r.(type) {
			case *mapV:
				for _, e := range x.ents {
					e.dead = true
				}
				x.ents, x.n, x.nsym = nil, 0, 0
				x.idx = map[any]*mapEnt{}
			case sliceV:
				for i := range x {
					storeInto(&x[i], at[0].elem().zero())
				}
			}
			return Val{}
		}
	case "print", "println":
		return func(fr *frame) Val { return Val{} }
	case "recover":
		return func(fr *frame) Val {
			c := fr.caller
			if c != nil && c.panicking {
				c.panicking = false
				return c.pv
			}
			return Val{}
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) Val {
			v := args[0].get(fr)
			if v.r == nil {
				fr.m.nilDeref()
			}
			return v
		}
	case "min", "max":
		isMin := b.Name() == "min"
		t := at[0]
		return func(fr *frame) Val {
			m := fr.m
			r := args[0].get(fr)
			for k := 1; k < len(args); k++ {
				v := args[k].get(fr)
				var lt *Expr
				switch t.k {
				case kInt:
					a, b := m.ex(v, t.w), m.ex(r, t.w)
					if !isMin {
						a, b = b, a
					}
					if t.signed {
						lt = m.cx.Slt(a, b)
					} else {
						lt = m.cx.Ult(a, b)
					}
				case kFloat:
					if v.r != nil || r.r != nil {
						unsupported("min/max of symbolic floats")
					}
					if isMin {
						r = vfloat(math.Min(r.float(), v.float()))
					} else {
						r = vfloat(math.Max(r.float(), v.float()))
					}
					continue
				case kString:
					if isMin {
						lt = m.strLess(v, r)
					} else {
						lt = m.strLess(r, v)
					}
				}
				if mv, ok := m.merge(t, lt, v, r); ok {
					r = mv
				} else if m.branch(vexpr(lt)) {
					r = v
				}
			}
			return r
		}
	case "String": // unsafe.String
		return func(fr *frame) Val {
			n := int(fr.m.conc(args[1].get(fr), 64))
			if n == 0 {
				return Val{}
			}
			sp, ok := args[0].get(fr).r.(*dataPtr)
			if !ok {
				unsupported("unsafe.String")
			}
			return mkStr(sp.s[:n])
		}
	case "StringData":
		return func(fr *frame) Val {
			b := strBytes(args[0].get(fr))
			return Val{r: &dataPtr{b}}
		}
	case "SliceData":
		return func(fr *frame) Val { return Val{r: &dataPtr{args[0].get(fr).slice()}} }
	case "Slice":
		return func(fr *frame) Val {
			n := int(fr.m.conc(args[1].get(fr), 64))
			sp, ok := args[0].get(fr).r.(*dataPtr)
			if !ok {
				unsupported("unsafe.Slice")
			}
			return vslice(sp.s[:n:n])
		}
	case "close":
		return func(fr *frame) Val { return Val{} }
	}
	name := b.Name()
	return func(fr *frame) Val { panic(abort{"unsupported", "builtin " + name}) }
}

type dataPtr struct{ s []Val }

// size classes of the Go allocator, for the capacity of grown slices
var sizeClasses = []int{8, 16, 24, 32, 48, 64, 80, 96, 112, 128, 144, 160, 176, 192, 208, 224, 240, 256, 288, 320, 352, 384, 416, 448, 480, 512, 576, 640, 704, 768, 896, 1024, 1152, 1280, 1408, 1536, 1792, 2048, 2304, 2688, 3072, 3200, 3456, 4096, 4864, 5120, 5376, 6144, 6528, 6784, 6912, 8192, 9472, 9728, 10240, 10880, 12288, 13568, 14336, 16384, 18432, 19072, 20480, 21760, 24576, 27264, 28672, 32768}

func growCap(oldCap, need, esz int) int {
	if esz == 0 {
		return need
	}
	nc := oldCap
	switch {
	case need > 2*oldCap:
		nc = need
	case oldCap < 256:
		nc = 2 * oldCap
	default:
		for nc < need {
			nc += (nc + 3*256) / 4
		}
	}
	bytes := nc * esz
	if bytes <= 32768 {
		for _, c := range sizeClasses {
			if c >= bytes {
				return c / esz
			}
		}
	}
	pages := (bytes + 8191) / 8192 * 8192
	return pages / esz
}

func appendVals(s, ys []Val, et *tdesc, esz int) []Val {
	isAgg := et.isAgg()
	n := len(s) + len(ys)
	if n > cap(s) {
		ns := make([]Val, len(s), growCap(cap(s), n, esz))
		if isAgg {
			// moved elements: the new array holds copies
			for i := range s {
				ns[i] = clone(s[i])
			}
			full := ns[:cap(ns)]
			for i := len(s); i < len(full); i++ {
				full[i] = et.zero()
			}
		} else {
			copy(ns, s)
		}
		s = ns
	}
	o := len(s)
	s = s[:n]
	if isAgg {
		for i, y := range ys {
			storeInto(&s[o+i], y)
		}
	} else {
		copy(s[o:], ys)
	}
	return s
}
