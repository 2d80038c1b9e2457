package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Program is the loaded code under test together with the harnesses, in SSA form.
// It is shared, read-only, by all workers.
type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	codes   sync.Map // *ssa.Function -> *code
	tdMu    sync.Mutex
	tdCanon typeutil.Map
	tdPtr   sync.Map // types.Type -> *tdesc
	nTd     int
	globals map[*ssa.Global]int
	globTd  []*tdesc
	globPkg []*ssa.Package
	gMu     sync.Mutex
	decMu   sync.Mutex
}

// rootPrefix: packages whose globals are re-initialised for every path.
const rootPrefix = "github.com/unidoc/unitype"
const harnessPrefix = "github.com/unidoc/unitype/vpharness"

func isRoot(p *ssa.Package) bool {
	if p == nil {
		return false
	}
	path := p.Pkg.Path()
	return path == rootPrefix || strings.HasPrefix(path, rootPrefix+"/")
}
func isRepoPath(path string) bool {
	return (path == rootPrefix || strings.HasPrefix(path, rootPrefix+"/")) && !strings.HasPrefix(path, harnessPrefix)
}

func LoadProgram(dir string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, globals: map[*ssa.Global]int{}}
	P.tdCanon.SetHasher(typeutil.MakeHasher())
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	return P, nil
}

func (P *Program) Func(pkg, name string) *ssa.Function {
	p := P.pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

// ---- type descriptors

type kind uint8

const (
	kInt kind = iota
	kBool
	kFloat
	kString
	kPtr
	kSlice
	kMap
	kIface
	kFunc
	kStruct
	kArray
	kTuple
	kChan
	kUnsafe
	kComplex
	kInvalid
)

type tdesc struct {
	P       *Program
	t       types.Type
	u       types.Type
	k       kind
	w       uint8
	signed  bool
	id      int
	n       int // array length
	fOnce   sync.Once
	flds    []*tdesc
	eOnce   sync.Once
	el      *tdesc
	ky      *tdesc
	mu      sync.Mutex
	methods map[string]*code
	isIface bool
}

func (P *Program) td(t types.Type) *tdesc {
	if v, ok := P.tdPtr.Load(t); ok {
		return v.(*tdesc)
	}
	P.tdMu.Lock()
	defer P.tdMu.Unlock()
	if v := P.tdCanon.At(t); v != nil {
		d := v.(*tdesc)
		P.tdPtr.Store(t, d)
		return d
	}
	d := &tdesc{P: P, t: t, u: t.Underlying(), id: P.nTd}
	P.nTd++
	switch u := d.u.(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			d.k = kUnsafe
		case u.Info()&types.IsBoolean != 0:
			d.k = kBool
		case u.Info()&types.IsInteger != 0:
			d.k = kInt
			d.signed = u.Info()&types.IsUnsigned == 0
			switch u.Kind() {
			case types.Int8, types.Uint8:
				d.w = 8
			case types.Int16, types.Uint16:
				d.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				d.w = 32
			default:
				d.w = 64
			}
		case u.Info()&types.IsFloat != 0:
			d.k = kFloat
			d.w = 64
			if u.Kind() == types.Float32 {
				d.w = 32
			}
		case u.Info()&types.IsString != 0:
			d.k = kString
		case u.Info()&types.IsComplex != 0:
			d.k = kComplex
		default:
			d.k = kInvalid
		}
	case *types.Pointer:
		d.k = kPtr
	case *types.Slice:
		d.k = kSlice
	case *types.Map:
		d.k = kMap
	case *types.Interface:
		d.k = kIface
		d.isIface = true
	case *types.Signature:
		d.k = kFunc
	case *types.Struct:
		d.k = kStruct
	case *types.Array:
		d.k = kArray
		d.n = int(u.Len())
	case *types.Tuple:
		d.k = kTuple
	case *types.Chan:
		d.k = kChan
	default:
		d.k = kInvalid
	}
	P.tdCanon.Set(t, d)
	P.tdPtr.Store(t, d)
	return d
}

func (d *tdesc) fields() []*tdesc {
	d.fOnce.Do(func() {
		switch u := d.u.(type) {
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				d.flds = append(d.flds, d.P.td(u.Field(i).Type()))
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				d.flds = append(d.flds, d.P.td(u.At(i).Type()))
			}
		}
	})
	return d.flds
}

func (d *tdesc) elem() *tdesc {
	d.eOnce.Do(func() {
		switch u := d.u.(type) {
		case *types.Pointer:
			d.el = d.P.td(u.Elem())
		case *types.Slice:
			d.el = d.P.td(u.Elem())
		case *types.Array:
			d.el = d.P.td(u.Elem())
		case *types.Map:
			d.el = d.P.td(u.Elem())
			d.ky = d.P.td(u.Key())
		case *types.Chan:
			d.el = d.P.td(u.Elem())
		}
	})
	return d.el
}
func (d *tdesc) key() *tdesc { d.elem(); return d.ky }

func (d *tdesc) zero() Val {
	switch d.k {
	case kStruct:
		fs := d.fields()
		a := make(agg, len(fs))
		for i, f := range fs {
			if f.k == kStruct || f.k == kArray {
				a[i] = f.zero()
			}
		}
		return Val{r: a}
	case kArray:
		a := make(agg, d.n)
		e := d.elem()
		if e.k == kStruct || e.k == kArray {
			for i := range a {
				a[i] = e.zero()
			}
		}
		return Val{r: a}
	case kTuple:
		fs := d.fields()
		a := make(agg, len(fs))
		for i, f := range fs {
			a[i] = f.zero()
		}
		return Val{r: a}
	}
	return Val{}
}

func (d *tdesc) isAgg() bool { return d.k == kStruct || d.k == kArray }

// method finds the implementation of an interface method for the dynamic type d.
func (d *tdesc) method(m *types.Func) *code {
	key := m.Id()
	d.mu.Lock()
	c := d.methods[key]
	d.mu.Unlock()
	if c != nil {
		return c
	}
	sel := d.P.prog.MethodSets.MethodSet(d.t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	fn := d.P.prog.MethodValue(sel)
	if fn == nil {
		return nil
	}
	c = d.P.codeOf(fn)
	d.mu.Lock()
	if d.methods == nil {
		d.methods = map[string]*code{}
	}
	d.methods[key] = c
	d.mu.Unlock()
	return c
}

// methodByName is used by intrinsics (Error, String, Less...).
func (d *tdesc) methodByName(pkg *types.Package, name string) *code {
	sel := d.P.prog.MethodSets.MethodSet(d.t).Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	fn := d.P.prog.MethodValue(sel)
	if fn == nil {
		return nil
	}
	return d.P.codeOf(fn)
}

func (d *tdesc) String() string { return d.t.String() }

func (P *Program) globalIdx(g *ssa.Global) int {
	P.gMu.Lock()
	defer P.gMu.Unlock()
	if i, ok := P.globals[g]; ok {
		return i
	}
	i := len(P.globTd)
	P.globals[g] = i
	P.globTd = append(P.globTd, P.td(g.Type().Underlying().(*types.Pointer).Elem()))
	P.globPkg = append(P.globPkg, g.Pkg)
	return i
}

func (P *Program) globalInfo(i int) (*tdesc, *ssa.Package) {
	P.gMu.Lock()
	defer P.gMu.Unlock()
	return P.globTd[i], P.globPkg[i]
}

// ---- code

type instr func(fr *frame)

type blk struct {
	ins   []instr
	term  func(fr *frame) int // index of the next block, -1 to return
	phis  []phi
	preds []int
	exec  atomic.Uint32
}

type phi struct {
	dst   int
	edges []opnd
}

type code struct {
	P        *Program
	fn       *ssa.Function
	name     string
	once     sync.Once
	blocks   []*blk
	nregs    int
	nparams  int
	nfree    int
	recover  int
	hasDefer bool
	intr     intrinsic
	noBody   bool
	isRepo   bool
	res      *tdesc
	execd    atomic.Uint32
}

func (P *Program) codeOf(fn *ssa.Function) *code {
	if v, ok := P.codes.Load(fn); ok {
		return v.(*code)
	}
	c := &code{P: P, fn: fn, name: fn.String(), recover: -1}
	v, _ := P.codes.LoadOrStore(fn, c)
	return v.(*code)
}

func (c *code) ready() *code {
	c.once.Do(func() { decode(c) })
	return c
}
