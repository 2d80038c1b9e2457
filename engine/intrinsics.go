package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(m *M, caller *frame, args []Val) Val

const symPkg = harnessPrefix + "/sym"

var intrinsics map[string]intrinsic

// stubPkgs: calls into these packages do nothing and return zero values.
var stubPkgs = map[string]bool{
	"github.com/sirupsen/logrus": true,
	"log":                        true,
}

func findIntrinsic(fn *ssa.Function) intrinsic {
	name := fn.String()
	if in, ok := intrinsics[name]; ok {
		return in
	}
	var pkg string
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	if stubPkgs[pkg] {
		base := fn.Name()
		if strings.HasPrefix(base, "Fatal") || strings.HasPrefix(base, "Panic") || base == "Exit" {
			return func(m *M, _ *frame, _ []Val) Val { m.panicStr("logging call ends the program: " + name); return Val{} }
		}
		res := fn.Signature.Results()
		return func(m *M, _ *frame, _ []Val) Val {
			td := m.P.td(res)
			z := td.zero()
			switch res.Len() {
			case 0:
				return Val{}
			case 1:
				if m.P.td(res.At(0).Type()).k == kPtr {
					p := new(Val)
					*p = m.P.td(res.At(0).Type()).elem().zero()
					return Val{r: p}
				}
				return z.r.(agg)[0]
			}
			return z
		}
	}
	if pkg == symPkg && fn.Blocks != nil && fn.Parent() == nil && fn.Name() != "init" {
		if strings.HasPrefix(name, symPkg+".H") { // helpers written in Go
			return nil
		}
		return func(m *M, _ *frame, _ []Val) Val { unsupported("sym function %s", name); return Val{} }
	}
	return nil
}

func (m *M) mkErr(msg Val) Val {
	// an *errors.errorString, made by errors.New itself
	return m.callNamed("errors", "New", msg)
}

func (m *M) tuple(vs ...Val) Val { return Val{r: agg(vs)} }

// concInt fixes an int argument.
func (m *M) concInt(v Val) int { return int(int64(m.conc(v, 64))) }

func (m *M) nameArg(v Val) string {
	s, ok := concStr(v)
	if !ok {
		unsupported("symbolic name")
	}
	return s
}

func init() {
	intrinsics = map[string]intrinsic{}
	def := func(name string, f intrinsic) { intrinsics[name] = f }

	// ---- harness interface
	newInt := func(w uint8) intrinsic {
		return func(m *M, _ *frame, a []Val) Val { return m.newVar(m.nameArg(a[0]), w) }
	}
	def(symPkg+".U8", newInt(8))
	def(symPkg+".U16", newInt(16))
	def(symPkg+".I16", newInt(16))
	def(symPkg+".U32", newInt(32))
	def(symPkg+".I32", newInt(32))
	def(symPkg+".U64", newInt(64))
	def(symPkg+".Int", newInt(64))
	def(symPkg+".Bool", func(m *M, _ *frame, a []Val) Val {
		v := m.newVar(m.nameArg(a[0]), 8)
		return vexpr(m.cx.Eq(m.cx.Extract(v.r.(*Expr), 0, 1), m.cx.Const(1, 1)))
	})
	def(symPkg+".Bytes", func(m *M, _ *frame, a []Val) Val {
		n := m.concInt(a[1])
		name := m.nameArg(a[0])
		s := make([]Val, n)
		for i := range s {
			s[i] = m.newVar(name, 8)
		}
		return vslice(s)
	})
	def(symPkg+".Choose", func(m *M, _ *frame, a []Val) Val {
		n := m.concInt(a[1])
		v := m.newVar(m.nameArg(a[0]), 16)
		if n <= 0 {
			panic(abort{"assume", ""})
		}
		m.assume(vexpr(m.cx.Ult(v.r.(*Expr), m.cx.Const(uint64(n), 16))))
		return ci(m.conc(v, 16))
	})
	def(symPkg+".Range", func(m *M, _ *frame, a []Val) Val { // symbolic int in [lo, hi]
		v := m.newVar(m.nameArg(a[0]), 32).r.(*Expr)
		lo, hi := m.concInt(a[1]), m.concInt(a[2])
		m.assume(vexpr(m.cx.Ule(v, m.cx.Const(uint64(hi-lo), 32))))
		return vexpr(m.cx.Add(m.cx.ZExt(v, 64), m.cx.Const(uint64(lo), 64)))
	})
	def(symPkg+".Assume", func(m *M, _ *frame, a []Val) Val { m.assume(a[0]); return Val{} })
	def(symPkg+".Assert", func(m *M, _ *frame, a []Val) Val { m.assert(a[0], m.nameArg(a[1])); return Val{} })
	def(symPkg+".Reach", func(m *M, _ *frame, a []Val) Val { m.reaches[m.nameArg(a[0])] = true; return Val{} })
	def(symPkg+".Param", func(m *M, _ *frame, a []Val) Val {
		s := m.nameArg(a[0])
		v, ok := m.cs.params[s]
		if !ok {
			return a[1]
		}
		return ci(uint64(int64(v)))
	})
	def(symPkg+".MapOrder", func(m *M, _ *frame, a []Val) Val { m.mapMode = m.concInt(a[0]); return Val{} })
	def(symPkg+".Symbolic", func(m *M, _ *frame, a []Val) Val { return ci(1) })
	def(symPkg+".And", func(m *M, _ *frame, a []Val) Val { return vexpr(m.cx.And(m.exb(a[0]), m.exb(a[1]))) })
	def(symPkg+".Or", func(m *M, _ *frame, a []Val) Val { return vexpr(m.cx.Or(m.exb(a[0]), m.exb(a[1]))) })
	def(symPkg+".EqBytes", func(m *M, _ *frame, a []Val) Val { return vexpr(m.bytesEq(a[0].slice(), a[1].slice())) })
	def(symPkg+".EqStr", func(m *M, _ *frame, a []Val) Val { return vexpr(m.strEq(a[0], a[1])) })
	def(symPkg+".IteInt", func(m *M, _ *frame, a []Val) Val {
		return vexpr(m.cx.Ite(m.exb(a[0]), m.ex(a[1], 64), m.ex(a[2], 64)))
	})
	def(symPkg+".Concrete", func(m *M, _ *frame, a []Val) Val { return ci(m.conc(a[0], 64)) })
	def(symPkg+".Observe", func(m *M, _ *frame, a []Val) Val {
		m.obs = append(m.obs, obsEnt{m.nameArg(a[0]), append([]Val{}, a[1].slice()...), 8})
		return Val{}
	})
	def(symPkg+".ObserveInt", func(m *M, _ *frame, a []Val) Val {
		m.obs = append(m.obs, obsEnt{m.nameArg(a[0]), []Val{a[1]}, 64})
		return Val{}
	})
	def(symPkg+".File", func(m *M, _ *frame, a []Val) Val { return bytesVal(m.ex_.file(m.nameArg(a[0]))) })
	def(symPkg+".Steps", func(m *M, _ *frame, a []Val) Val { m.maxSteps = m.steps + int64(m.concInt(a[0])); return Val{} })
	def(symPkg+".PutFile", func(m *M, _ *frame, a []Val) Val {
		m.files[m.nameArg(a[0])] = &vfile{data: append([]Val{}, a[1].slice()...)}
		return Val{}
	})
	def(symPkg+".PutDir", func(m *M, _ *frame, a []Val) Val { m.files[m.nameArg(a[0])] = &vfile{dir: true}; return Val{} })
	def(symPkg+".PutFull", func(m *M, _ *frame, a []Val) Val { m.files[m.nameArg(a[0])] = &vfile{full: true}; return Val{} })
	def(symPkg+".GetFile", func(m *M, _ *frame, a []Val) Val {
		f := m.files[m.nameArg(a[0])]
		if f == nil || f.dir || f.full {
			return m.tuple(Val{}, Val{})
		}
		return m.tuple(vslice(append([]Val{}, f.data...)), ci(1))
	})
	def(symPkg+".Path", func(m *M, _ *frame, a []Val) Val { return a[0] })
	def(symPkg+".BadPath", func(m *M, _ *frame, a []Val) Val { return vstr("!bad/none") })

	// ---- strings.Builder and friends (unsafe)
	def("(*strings.Builder).copyCheck", func(m *M, _ *frame, a []Val) Val { return Val{} })
	def("(*strings.Builder).String", func(m *M, _ *frame, a []Val) Val {
		p, ok := a[0].r.(*Val)
		if !ok {
			m.nilDeref()
		}
		return mkStr(p.r.(agg)[1].slice())
	})
	def("internal/abi.NoEscape", func(m *M, _ *frame, a []Val) Val { return a[0] })
	def("internal/stringslite.Clone", func(m *M, _ *frame, a []Val) Val { return a[0] })
	def("strings.Clone", func(m *M, _ *frame, a []Val) Val { return a[0] })
	def("internal/bytealg.MakeNoZero", func(m *M, _ *frame, a []Val) Val {
		n := m.concInt(a[0])
		if n > 1<<21 {
			panic(abort{"budget", "large allocation"})
		}
		return vslice(make([]Val, n))
	})
	idxByte := func(m *M, s []Val, c Val) Val {
		for i := range s {
			if m.branch(vexpr(m.cx.Eq(m.ex(s[i], 8), m.ex(c, 8)))) {
				return ci(uint64(i))
			}
		}
		return ci(^uint64(0))
	}
	def("internal/bytealg.IndexByte", func(m *M, _ *frame, a []Val) Val { return idxByte(m, a[0].slice(), a[1]) })
	def("internal/bytealg.IndexByteString", func(m *M, _ *frame, a []Val) Val { return idxByte(m, strBytes(a[0]), a[1]) })
	lastIdx := func(m *M, s []Val, c Val) Val {
		for i := len(s) - 1; i >= 0; i-- {
			if m.branch(vexpr(m.cx.Eq(m.ex(s[i], 8), m.ex(c, 8)))) {
				return ci(uint64(i))
			}
		}
		return ci(^uint64(0))
	}
	def("internal/bytealg.LastIndexByte", func(m *M, _ *frame, a []Val) Val { return lastIdx(m, a[0].slice(), a[1]) })
	def("internal/bytealg.LastIndexByteString", func(m *M, _ *frame, a []Val) Val { return lastIdx(m, strBytes(a[0]), a[1]) })
	count := func(m *M, s []Val, c Val) Val {
		r := m.cx.Const(0, 64)
		for i := range s {
			r = m.cx.Add(r, m.cx.Ite(m.cx.Eq(m.ex(s[i], 8), m.ex(c, 8)), m.cx.Const(1, 64), m.cx.Const(0, 64)))
		}
		return vexpr(r)
	}
	def("internal/bytealg.Count", func(m *M, _ *frame, a []Val) Val { return count(m, a[0].slice(), a[1]) })
	def("internal/bytealg.CountString", func(m *M, _ *frame, a []Val) Val { return count(m, strBytes(a[0]), a[1]) })
	def("internal/bytealg.Equal", func(m *M, _ *frame, a []Val) Val { return vexpr(m.bytesEq(a[0].slice(), a[1].slice())) })
	def("bytes.Equal", func(m *M, _ *frame, a []Val) Val { return vexpr(m.bytesEq(a[0].slice(), a[1].slice())) })
	index := func(m *M, s, sep []Val) Val {
		for i := 0; i+len(sep) <= len(s); i++ {
			if m.branch(vexpr(m.bytesEq(s[i:i+len(sep)], sep))) {
				return ci(uint64(i))
			}
		}
		return ci(^uint64(0))
	}
	def("bytes.Index", func(m *M, _ *frame, a []Val) Val { return index(m, a[0].slice(), a[1].slice()) })
	def("strings.Index", func(m *M, _ *frame, a []Val) Val { return index(m, strBytes(a[0]), strBytes(a[1])) })
	def("internal/stringslite.Index", func(m *M, _ *frame, a []Val) Val { return index(m, strBytes(a[0]), strBytes(a[1])) })
	cmp := func(m *M, a, b Val) Val {
		if m.branch(vexpr(m.strEq(a, b))) {
			return Val{}
		}
		if m.branch(vexpr(m.strLess(a, b))) {
			return ci(^uint64(0))
		}
		return ci(1)
	}
	def("bytes.Compare", func(m *M, _ *frame, a []Val) Val { return cmp(m, mkStr(a[0].slice()), mkStr(a[1].slice())) })
	def("internal/bytealg.Compare", func(m *M, _ *frame, a []Val) Val { return cmp(m, mkStr(a[0].slice()), mkStr(a[1].slice())) })
	def("internal/bytealg.CompareString", func(m *M, _ *frame, a []Val) Val { return cmp(m, a[0], a[1]) })
	def("strings.Compare", func(m *M, _ *frame, a []Val) Val { return cmp(m, a[0], a[1]) })

	// ---- math
	for name, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Log2": math.Log2, "Log": math.Log, "Log10": math.Log10,
		"Sqrt": math.Sqrt, "Abs": math.Abs, "Round": math.Round, "Trunc": math.Trunc, "Exp": math.Exp, "Exp2": math.Exp2} {
		f := f
		h := func(m *M, _ *frame, a []Val) Val {
			if a[0].r != nil {
				return Val{r: opaqueF{}}
			}
			return vfloat(f(a[0].float()))
		}
		def("math."+name, h)
		def("math."+strings.ToLower(name), h)
	}
	for name, f := range map[string]func(a, b float64) float64{"Pow": math.Pow, "Mod": math.Mod, "Max": math.Max, "Min": math.Min} {
		f := f
		def("math."+name, func(m *M, _ *frame, a []Val) Val {
			if a[0].r != nil || a[1].r != nil {
				return Val{r: opaqueF{}}
			}
			return vfloat(f(a[0].float(), a[1].float()))
		})
	}
	def("math.Float64bits", func(m *M, _ *frame, a []Val) Val {
		if a[0].r != nil {
			unsupported("bits of a symbolic float")
		}
		return ci(a[0].c)
	})
	def("math.Float64frombits", func(m *M, _ *frame, a []Val) Val {
		if a[0].r != nil {
			return Val{r: opaqueF{}}
		}
		return ci(a[0].c)
	})
	def("math.Float32bits", func(m *M, _ *frame, a []Val) Val {
		if a[0].r != nil {
			unsupported("bits of a symbolic float")
		}
		return ci(uint64(math.Float32bits(float32(a[0].float()))))
	})
	def("math.Float32frombits", func(m *M, _ *frame, a []Val) Val {
		if a[0].r != nil {
			return Val{r: opaqueF{}}
		}
		return vfloat(float64(math.Float32frombits(uint32(a[0].c))))
	})
	// math/bits on concrete values natively, otherwise interpreted
	for _, w := range []uint8{8, 16, 32, 64} {
		w := w
		suf := strconv.Itoa(int(w))
		rev := func(m *M, a Val) Val {
			e := m.ex(a, w)
			parts := []*Expr{}
			for i := uint8(0); i < w; i += 8 {
				parts = append(parts, m.cx.Extract(e, i, 8))
			}
			return vexpr(m.cx.Concat(parts...))
		}
		def("math/bits.ReverseBytes"+suf, func(m *M, _ *frame, a []Val) Val { return rev(m, a[0]) })
	}
	def("math/bits.Len64", func(m *M, _ *frame, a []Val) Val { return m.bitLen(a[0], 64) })
	def("math/bits.Len32", func(m *M, _ *frame, a []Val) Val { return m.bitLen(a[0], 32) })
	def("math/bits.Len16", func(m *M, _ *frame, a []Val) Val { return m.bitLen(a[0], 16) })
	def("math/bits.Len8", func(m *M, _ *frame, a []Val) Val { return m.bitLen(a[0], 8) })
	def("math/bits.Len", func(m *M, _ *frame, a []Val) Val { return m.bitLen(a[0], 64) })
	def("math/bits.TrailingZeros64", func(m *M, _ *frame, a []Val) Val {
		return ci(uint64(bits.TrailingZeros64(m.conc(a[0], 64))))
	})

	// ---- unicode
	def("unicode.IsPrint", func(m *M, _ *frame, a []Val) Val {
		if a[0].r == nil {
			return vbool(unicode.IsPrint(rune(int32(a[0].c))))
		}
		return vexpr(m.runeSet(a[0].r.(*Expr), "print", unicode.IsPrint))
	})
	def("unicode.IsGraphic", func(m *M, _ *frame, a []Val) Val {
		if a[0].r == nil {
			return vbool(unicode.IsGraphic(rune(int32(a[0].c))))
		}
		return vexpr(m.runeSet(a[0].r.(*Expr), "graphic", unicode.IsGraphic))
	})
	def("unicode.IsSpace", func(m *M, _ *frame, a []Val) Val {
		if a[0].r == nil {
			return vbool(unicode.IsSpace(rune(int32(a[0].c))))
		}
		return vexpr(m.runeSet(a[0].r.(*Expr), "space", unicode.IsSpace))
	})

	// ---- errors
	def("errors.Is", func(m *M, _ *frame, a []Val) Val { return vbool(m.errIs(a[0], a[1])) })
	def("errors.As", func(m *M, _ *frame, a []Val) Val { unsupported("errors.As"); return Val{} })

	// ---- sort
	def("sort.Slice", func(m *M, caller *frame, a []Val) Val { m.sortSlice(a[0], a[1], caller, false); return Val{} })
	def("sort.SliceStable", func(m *M, caller *frame, a []Val) Val { m.sortSlice(a[0], a[1], caller, true); return Val{} })

	// ---- sync
	nop := func(m *M, _ *frame, a []Val) Val { return Val{} }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock",
		"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.GC", "runtime.Gosched", "runtime.KeepAlive", "(*sync.Pool).Put"} {
		def(n, nop)
	}
	def("(*sync.Mutex).TryLock", func(m *M, _ *frame, a []Val) Val { return ci(1) })
	def("(*sync.Once).Do", func(m *M, caller *frame, a []Val) Val {
		p, ok := a[0].r.(*Val)
		if !ok {
			m.nilDeref()
		}
		if m.onces[p] {
			return Val{}
		}
		m.onces[p] = true
		m.callVal(a[1], nil, caller)
		return Val{}
	})
	def("(*sync.Pool).Get", func(m *M, caller *frame, a []Val) Val {
		p := a[0].r.(*Val).r.(agg)
		f := p[len(p)-1]
		if f.r == nil {
			return Val{}
		}
		return m.callVal(f, nil, caller)
	})
	atom := func(w uint8, n string) {
		def("sync/atomic.Load"+n, func(m *M, _ *frame, a []Val) Val { return *a[0].r.(*Val) })
		def("sync/atomic.Store"+n, func(m *M, _ *frame, a []Val) Val { *a[0].r.(*Val) = a[1]; return Val{} })
		def("sync/atomic.Add"+n, func(m *M, _ *frame, a []Val) Val {
			p := a[0].r.(*Val)
			*p = vexpr(m.cx.Add(m.ex(*p, w), m.ex(a[1], w)))
			return *p
		})
		def("sync/atomic.CompareAndSwap"+n, func(m *M, _ *frame, a []Val) Val {
			p := a[0].r.(*Val)
			if m.branch(vexpr(m.cx.Eq(m.ex(*p, w), m.ex(a[1], w)))) {
				*p = a[2]
				return ci(1)
			}
			return Val{}
		})
	}
	atom(32, "Int32")
	atom(32, "Uint32")
	atom(64, "Int64")
	atom(64, "Uint64")

	// ---- encoding/binary with reflection
	def("encoding/binary.Read", func(m *M, _ *frame, a []Val) Val { return m.binRead(a[0], a[1], a[2]) })
	def("encoding/binary.Write", func(m *M, _ *frame, a []Val) Val { return m.binWrite(a[0], a[1], a[2]) })
	def("encoding/binary.Size", func(m *M, _ *frame, a []Val) Val {
		if a[0].r == nil {
			return ci(^uint64(0))
		}
		i := a[0].r.(*iface)
		return ci(uint64(int64(m.binSize(i.t, i.v))))
	})

	// ---- fmt
	def("fmt.Sprintf", func(m *M, _ *frame, a []Val) Val { return m.sprintf(a[0], a[1].slice()) })
	def("fmt.Errorf", func(m *M, _ *frame, a []Val) Val {
		f := m.nameArg(a[0])
		msg := m.sprintf(a[0], a[1].slice())
		if strings.Contains(f, "%w") {
			for _, v := range a[1].slice() {
				if v.r == nil {
					continue
				}
				if i := v.r.(*iface); i.t.methodByName(nil, "Error") != nil {
					e := m.mkErr(msg)
					m.wraps[e.r.(*iface).v.r.(*Val)] = v
					return e
				}
			}
		}
		return m.mkErr(msg)
	})
	def("fmt.Sprint", func(m *M, _ *frame, a []Val) Val { return m.sprint(a[0].slice(), false) })
	def("fmt.Sprintln", func(m *M, _ *frame, a []Val) Val { return m.sprint(a[0].slice(), true) })
	for _, n := range []string{"Printf", "Println", "Print"} {
		def("fmt."+n, func(m *M, _ *frame, a []Val) Val { return m.tuple(Val{}, Val{}) })
	}
	def("fmt.Fprintf", func(m *M, _ *frame, a []Val) Val {
		s := m.sprintf(a[1], a[2].slice())
		return m.callMethod(a[0], "Write", vslice(append([]Val{}, strBytes(s)...)))
	})
	def("fmt.Fprint", func(m *M, _ *frame, a []Val) Val {
		return m.callMethod(a[0], "Write", vslice(append([]Val{}, strBytes(m.sprint(a[1].slice(), false))...)))
	})
	def("fmt.Fprintln", func(m *M, _ *frame, a []Val) Val {
		return m.callMethod(a[0], "Write", vslice(append([]Val{}, strBytes(m.sprint(a[1].slice(), true))...)))
	})

	initOS(def)
}

func (m *M) bitLen(v Val, w uint8) Val {
	if v.r == nil {
		return ci(uint64(bits.Len64(v.c)))
	}
	e := v.r.(*Expr)
	r := m.cx.Const(0, 64)
	for k := uint8(0); k < w; k++ {
		r = m.cx.Ite(m.cx.Eq(m.cx.Extract(e, k, 1), m.cx.Const(1, 1)), m.cx.Const(uint64(k)+1, 64), r)
	}
	return vexpr(r)
}

type rng struct{ lo, hi uint32 }

var runeRanges = map[string][]rng{}

func init() {
	for n, f := range map[string]func(rune) bool{"print": unicode.IsPrint, "graphic": unicode.IsGraphic, "space": unicode.IsSpace} {
		var rs []rng
		in := false
		for r := rune(0); r <= 0x110000; r++ {
			ok := r <= 0x10ffff && f(r)
			if ok && !in {
				rs = append(rs, rng{uint32(r), uint32(r)})
				in = true
			}
			if ok {
				rs[len(rs)-1].hi = uint32(r)
			}
			if !ok {
				in = false
			}
		}
		runeRanges[n] = rs
	}
}

func (m *M) runeSet(e *Expr, name string, f func(rune) bool) *Expr {
	var cs []*Expr
	for _, r := range runeRanges[name] {
		if uint64(r.hi) < e.umin || uint64(r.lo) > e.umax {
			continue
		}
		lo, hi := m.cx.Const(uint64(r.lo), 32), m.cx.Const(uint64(r.hi), 32)
		cs = append(cs, m.cx.And(m.cx.Ule(lo, e), m.cx.Ule(e, hi)))
	}
	return m.cx.Or(cs...)
}

func (m *M) errIs(e, target Val) bool {
	for n := 0; n < 50; n++ {
		if e.r == nil || target.r == nil {
			return e.r == nil && target.r == nil
		}
		x, y := e.r.(*iface), target.r.(*iface)
		if x.t == y.t && x.t.k != kSlice && x.t.k != kMap && x.t.k != kFunc {
			if m.branch(vexpr(m.eq(x.t, x.v, y.v))) {
				return true
			}
		}
		if c := x.t.methodByName(nil, "Is"); c != nil {
			if m.branch(m.callCode(c, []Val{x.v, target}, nil, nil)) {
				return true
			}
		}
		if p, ok := x.v.r.(*Val); ok {
			if w, ok := m.wraps[p]; ok {
				e = w
				continue
			}
		}
		if c := x.t.methodByName(nil, "Unwrap"); c != nil {
			r := m.callCode(c, []Val{x.v}, nil, nil)
			if _, multi := r.r.(sliceV); multi {
				for _, s := range r.slice() {
					if m.errIs(s, target) {
						return true
					}
				}
				return false
			}
			e = r
			continue
		}
		return false
	}
	return false
}

// sortSlice runs sort's own pdqsort over the interpreted less function.
func (m *M) sortSlice(x, less Val, caller *frame, stable bool) {
	if x.r == nil {
		m.panicStr("sort.Slice of nil")
	}
	s := x.r.(*iface).v.slice()
	swap := Val{r: &closure{native: func(m *M, a []Val) Val {
		i, j := m.concInt(a[0]), m.concInt(a[1])
		s[i], s[j] = s[j], s[i]
		return Val{}
	}}}
	ls := Val{r: agg{less, swap}}
	n := len(s)
	if stable {
		m.callNamed("sort", "stable_func", ls, ci(uint64(n)))
		return
	}
	m.callNamed("sort", "pdqsort_func", ls, Val{}, ci(uint64(n)), ci(uint64(bits.Len(uint(n)))))
}

// ---- binary.Read / binary.Write

func (m *M) binSize(t *tdesc, v Val) int {
	switch t.k {
	case kPtr:
		p, ok := v.r.(*Val)
		if !ok {
			return -1
		}
		return m.binSize(t.elem(), *p)
	case kSlice:
		n := m.binTypeSize(t.elem())
		if n < 0 {
			return -1
		}
		return n * len(v.slice())
	}
	return m.binTypeSize(t)
}

func (m *M) binTypeSize(t *tdesc) int {
	switch t.k {
	case kInt:
		if b, ok := t.u.(*types.Basic); ok && (b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr) {
			return -1
		}
		return int(t.w) / 8
	case kBool:
		return 1
	case kArray:
		n := m.binTypeSize(t.elem())
		if n < 0 {
			return -1
		}
		return n * t.n
	case kStruct:
		tot := 0
		for _, f := range t.fields() {
			n := m.binTypeSize(f)
			if n < 0 {
				return -1
			}
			tot += n
		}
		return tot
	}
	return -1
}

func (m *M) bigEndian(order Val) bool {
	if order.r == nil {
		m.nilDeref()
	}
	n := order.r.(*iface).t.String()
	return strings.Contains(n, "bigEndian")
}

func (m *M) binRead(r, order, data Val) Val {
	if data.r == nil {
		return m.mkErr(vstr("binary.Read: invalid type nil"))
	}
	i := data.r.(*iface)
	n := m.binSize(i.t, i.v)
	if n < 0 || (i.t.k != kPtr && i.t.k != kSlice) {
		return m.mkErr(vstr("binary.Read: invalid type " + i.t.String()))
	}
	big := m.bigEndian(order)
	buf := make([]Val, n)
	if n == 0 {
		buf = []Val{}
	}
	res := m.callNamed("io", "ReadFull", r, vslice(buf)).r.(agg)
	if res[1].r != nil {
		return res[1]
	}
	var dec func(t *tdesc, dst *Val)
	dec = func(t *tdesc, dst *Val) {
		switch t.k {
		case kInt, kBool:
			k := int(t.w) / 8
			if t.k == kBool {
				e := m.ex(buf[0], 8)
				*dst = vexpr(m.cx.Not(m.cx.Eq(e, m.cx.Const(0, 8))))
				buf = buf[1:]
				return
			}
			allc := true
			var u uint64
			for j := 0; j < k; j++ {
				b := buf[j]
				if !big {
					b = buf[k-1-j]
				}
				if b.r != nil {
					allc = false
					break
				}
				u = u<<8 | b.c
			}
			if allc {
				*dst = ci(u)
			} else {
				parts := make([]*Expr, k)
				for j := 0; j < k; j++ {
					if big {
						parts[j] = m.ex(buf[j], 8)
					} else {
						parts[k-1-j] = m.ex(buf[j], 8)
					}
				}
				*dst = vexpr(m.cx.Concat(parts...))
			}
			buf = buf[k:]
		case kArray:
			a := dst.r.(agg)
			for j := range a {
				dec(t.elem(), &a[j])
			}
		case kStruct:
			a := dst.r.(agg)
			for j, f := range t.fields() {
				dec(f, &a[j])
			}
		}
	}
	if i.t.k == kPtr {
		et := i.t.elem()
		if et.k == kSlice {
			s := i.v.r.(*Val).slice()
			for j := range s {
				dec(et.elem(), &s[j])
			}
		} else {
			dec(et, i.v.r.(*Val))
		}
	} else {
		s := i.v.slice()
		for j := range s {
			dec(i.t.elem(), &s[j])
		}
	}
	return Val{}
}

func (m *M) binWrite(w, order, data Val) Val {
	if data.r == nil {
		return m.mkErr(vstr("binary.Write: invalid type nil"))
	}
	i := data.r.(*iface)
	if m.binSize(i.t, i.v) < 0 {
		return m.mkErr(vstr("binary.Write: some values are not fixed-sized in type " + i.t.String()))
	}
	big := m.bigEndian(order)
	out := []Val{}
	var enc func(t *tdesc, v Val)
	enc = func(t *tdesc, v Val) {
		switch t.k {
		case kInt:
			k := int(t.w) / 8
			for j := 0; j < k; j++ {
				sh := (k - 1 - j) * 8
				if !big {
					sh = j * 8
				}
				if v.r == nil {
					out = append(out, ci(v.c>>sh&0xff))
				} else {
					out = append(out, vexpr(m.cx.Extract(v.r.(*Expr), uint8(sh), 8)))
				}
			}
		case kBool:
			out = append(out, vexpr(m.cx.Ite(m.exb(v), m.cx.Const(1, 8), m.cx.Const(0, 8))))
		case kArray:
			for _, x := range v.r.(agg) {
				enc(t.elem(), x)
			}
		case kStruct:
			for j, f := range t.fields() {
				enc(f, v.r.(agg)[j])
			}
		case kSlice:
			for _, x := range v.slice() {
				enc(t.elem(), x)
			}
		case kPtr:
			enc(t.elem(), *v.r.(*Val))
		}
	}
	enc(i.t, i.v)
	res := m.callMethod(w, "Write", vslice(out)).r.(agg)
	return res[1]
}

// ---- formatting

// native converts a concrete value of a basic type for use with fmt.
func native(t *tdesc, v Val) (any, bool) {
	switch t.k {
	case kInt:
		if v.r != nil {
			return nil, false
		}
		if t.signed {
			i := int64(signExt(v.c, t.w))
			switch t.w {
			case 8:
				return int8(i), true
			case 16:
				return int16(i), true
			case 32:
				return int32(i), true
			}
			return i, true
		}
		switch t.w {
		case 8:
			return uint8(v.c), true
		case 16:
			return uint16(v.c), true
		case 32:
			return uint32(v.c), true
		}
		return v.c, true
	case kBool:
		return v.c != 0, v.r == nil
	case kString:
		s, ok := concStr(v)
		return s, ok
	case kFloat:
		return v.float(), v.r == nil
	case kSlice:
		if t.elem().k == kInt && t.elem().w == 8 {
			b, ok := concBytes(v.slice())
			return b, ok
		}
	}
	return nil, false
}

// fmtArg renders one argument under a verb; symbolic strings stay symbolic.
func (m *M) fmtArg(spec string, verb byte, a Val) []Val {
	lit := func(s string) []Val { return strBytes(vstr(s)) }
	if a.r == nil {
		return lit(fmt.Sprintf(spec, nil))
	}
	i := a.r.(*iface)
	if verb == 'T' {
		return lit(i.t.String())
	}
	sharp := strings.Contains(spec, "#")
	if verb == 'v' && !sharp || verb == 's' || verb == 'q' || verb == 'w' {
		isNilPtr := i.t.k == kPtr && i.v.r == nil
		if c := i.t.methodByName(nil, "Error"); c != nil && !isNilPtr {
			return m.strArg(spec, verb, m.callCode(c, []Val{i.v}, nil, nil))
		}
		if c := i.t.methodByName(nil, "String"); c != nil && !isNilPtr {
			return m.strArg(spec, verb, m.callCode(c, []Val{i.v}, nil, nil))
		}
	}
	if i.t.k == kString {
		return m.strArg(spec, verb, i.v)
	}
	if i.t.k == kSlice && i.t.elem().k == kInt && i.t.elem().w == 8 && verb == 's' && spec == "%s" {
		return i.v.slice()
	}
	if n, ok := native(i.t, i.v); ok {
		return lit(fmt.Sprintf(spec, n))
	}
	if i.t.k == kInt && (verb == 'd' && spec == "%d" || verb == 'v' && spec == "%v") {
		return m.decimal(i.v, i.t)
	}
	// anything else: an opaque rendering
	return lit("<?>")
}

func (m *M) strArg(spec string, verb byte, s Val) []Val {
	if cs, ok := concStr(s); ok {
		return strBytes(vstr(fmt.Sprintf(strings.Replace(spec, "%w", "%v", 1), cs)))
	}
	return strBytes(s)
}

// decimal renders a symbolic integer: the digit count is forked on, the digits are exact.
func (m *M) decimal(v Val, t *tdesc) []Val {
	e := m.ext64(v, t)
	var out []Val
	if t.signed && m.branch(vexpr(m.cx.Slt(e, m.cx.Const(0, 64)))) {
		out = append(out, ci('-'))
		e = m.cx.Neg(e)
	}
	n, p := 1, uint64(10)
	for n < 19 && !m.branch(vexpr(m.cx.Ult(e, m.cx.Const(p, 64)))) {
		n++
		p *= 10
	}
	ds := make([]Val, n)
	w := uint8(64)
	if e.umax < 1<<32 {
		w = 32
		e = m.cx.Extract(e, 0, 32)
	}
	for i := n - 1; i >= 0; i-- {
		d := m.cx.Div(OURem, e, m.cx.Const(10, w))
		e = m.cx.Div(OUDiv, e, m.cx.Const(10, w))
		ds[i] = vexpr(m.cx.Extract(m.cx.Add(d, m.cx.Const('0', w)), 0, 8))
	}
	return append(out, ds...)
}

func (m *M) sprintf(fv Val, args []Val) Val {
	f, ok := concStr(fv)
	if !ok {
		return vstr("<?>")
	}
	var out []Val
	k := 0
	for i := 0; i < len(f); {
		if f[i] != '%' {
			out = append(out, ci(uint64(f[i])))
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			out = append(out, strBytes(vstr("%!(NOVERB)"))...)
			break
		}
		verb := f[j]
		spec := f[i : j+1]
		i = j + 1
		if verb == '%' {
			out = append(out, ci('%'))
			continue
		}
		if verb == '*' || verb == '[' || verb >= 0x80 {
			return vstr("<?>")
		}
		if k >= len(args) {
			out = append(out, strBytes(vstr("%!"+string(verb)+"(MISSING)"))...)
			continue
		}
		out = append(out, m.fmtArg(spec, verb, args[k])...)
		k++
	}
	return mkStr(out)
}

func (m *M) sprint(args []Val, ln bool) Val {
	var out []Val
	for i, a := range args {
		if i > 0 {
			prevStr := args[i-1].r != nil && args[i-1].r.(*iface).t.k == kString
			thisStr := a.r != nil && a.r.(*iface).t.k == kString
			if ln || (!prevStr && !thisStr) {
				out = append(out, ci(' '))
			}
		}
		out = append(out, m.fmtArg("%v", 'v', a)...)
	}
	if ln {
		out = append(out, ci('\n'))
	}
	return mkStr(out)
}
