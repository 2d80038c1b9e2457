package main

import (
	"go/types"
	"strconv"
	"strings"
)

// A small in-memory model of os files: names map to byte contents.

type vfile struct {
	data []Val
	dir  bool // a directory
	full bool // takes no data, like a full disk
}

type ofile struct {
	f      *vfile
	name   string
	pos    int
	write  bool
	closed bool
}

func (m *M) osErr(msg string) Val { return m.mkErr(vstr(msg)) }

// pathErr is an *fs.PathError around the named error of io/fs.
func (m *M) pathErr(op, path, name string) Val {
	p := m.P.pkgs["io/fs"]
	if p == nil || p.Type("PathError") == nil || p.Var(name) == nil {
		return m.osErr(op + " " + path + ": " + name)
	}
	err := *m.global(m.P.globalIdx(p.Var(name)))
	return Val{r: &iface{m.P.td(types.NewPointer(p.Type("PathError").Type())), Val{r: &Val{r: agg{vstr(op), vstr(path), err}}}}}
}

// stat is what os.Stat tells about a file.
func (m *M) stat(name string, f *vfile) Val {
	t := m.P.pkgs["os"].Type("fileStat").Type()
	v := m.P.td(t).zero()
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		switch st.Field(i).Name() {
		case "name":
			v.r.(agg)[i] = vstr(name[strings.LastIndexByte(name, '/')+1:])
		case "size":
			v.r.(agg)[i] = ci(uint64(len(f.data)))
		case "mode":
			v.r.(agg)[i] = ci(0o644)
			if f.dir {
				v.r.(agg)[i] = ci(1<<31 | 0o755)
			}
		}
	}
	return Val{r: &iface{m.P.td(types.NewPointer(t)), Val{r: &v}}}
}

func (m *M) osFile(v Val) *ofile {
	p, ok := v.r.(*Val)
	if !ok {
		return nil
	}
	return m.ofiles[p]
}

func (m *M) newOsFile(o *ofile) Val {
	p := &Val{r: agg{Val{}}}
	m.ofiles[p] = o
	return Val{r: p}
}

func (m *M) ioEOF() Val {
	p := m.P.pkgs["io"]
	g := p.Var("EOF")
	return *m.global(m.P.globalIdx(g))
}

// callExit calls a function value the way a process runs its main function: the result is
// the exit status.
func (m *M) callExit(f Val, caller *frame) (code Val) {
	depth := m.depth
	sp := m.sp
	defer func() {
		switch p := recover().(type) {
		case nil:
		case exitCode:
			m.depth, m.sp = depth, sp
			code = p.v
		case targetPanic:
			m.depth, m.sp = depth, sp
			code = ci(2)
		default:
			panic(p)
		}
	}()
	m.callVal(f, nil, caller)
	return ci(0)
}

type exitCode struct{ v Val }

func initOS(def func(string, intrinsic)) {
	def(symPkg+".Exit", func(m *M, caller *frame, a []Val) Val { return m.callExit(a[1], caller) })
	// the usage text of the command line tool
	def("github.com/spf13/cobra.tmpl", func(m *M, _ *frame, a []Val) Val { return Val{} })
	def("os.Exit", func(m *M, _ *frame, a []Val) Val { panic(exitCode{a[0]}) })
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		def("log."+n, func(m *M, _ *frame, a []Val) Val { panic(exitCode{ci(1)}) })
	}
	def("os.Open", func(m *M, _ *frame, a []Val) Val {
		n := m.nameArg(a[0])
		f := m.files[n]
		if f == nil {
			return m.tuple(Val{}, m.pathErr("open", n, "ErrNotExist"))
		}
		return m.tuple(m.newOsFile(&ofile{f: f, name: n}), Val{})
	})
	def("os.Create", func(m *M, _ *frame, a []Val) Val {
		n := m.nameArg(a[0])
		if strings.HasPrefix(n, "!") { // marked uncreatable
			return m.tuple(Val{}, m.pathErr("open", n, "ErrNotExist"))
		}
		f := m.files[n]
		if f == nil {
			f = &vfile{}
			m.files[n] = f
		}
		if f.dir {
			return m.tuple(Val{}, m.osErr("open: is a directory"))
		}
		f.data = nil
		return m.tuple(m.newOsFile(&ofile{f: f, write: true, name: n}), Val{})
	})
	def("os.OpenFile", func(m *M, _ *frame, a []Val) Val {
		n := m.nameArg(a[0])
		flag := m.concInt(a[1])
		f := m.files[n]
		if f == nil {
			if flag&0x40 == 0 || strings.HasPrefix(n, "!") {
				return m.tuple(Val{}, m.pathErr("open", n, "ErrNotExist"))
			}
			f = &vfile{}
			m.files[n] = f
		} else if flag&0xC0 == 0xC0 {
			return m.tuple(Val{}, m.pathErr("open", n, "ErrExist"))
		}
		if f.dir && flag&3 != 0 {
			return m.tuple(Val{}, m.osErr("open: is a directory"))
		}
		if flag&0x200 != 0 {
			f.data = nil
		}
		o := &ofile{f: f, write: flag&3 != 0, name: n}
		if flag&0x400 != 0 {
			o.pos = len(f.data)
		}
		return m.tuple(m.newOsFile(o), Val{})
	})
	def("os.ReadFile", func(m *M, _ *frame, a []Val) Val {
		n := m.nameArg(a[0])
		f := m.files[n]
		if f == nil {
			return m.tuple(Val{}, m.pathErr("open", n, "ErrNotExist"))
		}
		if f.dir || f.full {
			return m.tuple(Val{}, m.osErr("read: cannot be read"))
		}
		return m.tuple(vslice(append([]Val{}, f.data...)), Val{})
	})
	intrinsics["io/ioutil.ReadFile"] = intrinsics["os.ReadFile"]
	def("os.WriteFile", func(m *M, _ *frame, a []Val) Val {
		n := m.nameArg(a[0])
		if strings.HasPrefix(n, "!") {
			return m.pathErr("open", n, "ErrNotExist")
		}
		if f := m.files[n]; f != nil && (f.dir || f.full && len(a[1].slice()) > 0) {
			return m.osErr("write: cannot be written")
		} else if f != nil && f.full {
			return Val{}
		}
		m.files[n] = &vfile{data: append([]Val{}, a[1].slice()...)}
		return Val{}
	})
	def("os.Remove", func(m *M, _ *frame, a []Val) Val {
		n := m.nameArg(a[0])
		if m.files[n] == nil {
			return m.pathErr("remove", n, "ErrNotExist")
		}
		delete(m.files, n)
		return Val{}
	})
	def("os.Rename", func(m *M, _ *frame, a []Val) Val {
		n, t := m.nameArg(a[0]), m.nameArg(a[1])
		if m.files[n] == nil {
			return m.pathErr("rename", n, "ErrNotExist")
		}
		if strings.HasPrefix(t, "!") || m.files[t] != nil && m.files[t].dir {
			return m.osErr("rename: file exists")
		}
		m.files[t] = m.files[n]
		delete(m.files, n)
		return Val{}
	})
	def("(*os.File).Close", func(m *M, _ *frame, a []Val) Val {
		o := m.osFile(a[0])
		if o == nil {
			return m.osErr("invalid argument")
		}
		if o.closed {
			return m.osErr("file already closed")
		}
		o.closed = true
		return Val{}
	})
	def("(*os.File).Sync", func(m *M, _ *frame, a []Val) Val { return Val{} })
	def("(*os.File).Name", func(m *M, _ *frame, a []Val) Val {
		if o := m.osFile(a[0]); o != nil {
			return vstr(o.name)
		}
		return vstr("")
	})
	def("(*os.File).Chmod", func(m *M, _ *frame, a []Val) Val { return Val{} })
	def("os.Chmod", func(m *M, _ *frame, a []Val) Val { return Val{} })
	def("(*os.File).Truncate", func(m *M, _ *frame, a []Val) Val {
		o := m.osFile(a[0])
		n := m.concInt(a[1])
		if o == nil || o.closed || !o.write || n < 0 {
			return m.osErr("invalid argument")
		}
		for len(o.f.data) < n {
			o.f.data = append(o.f.data, Val{})
		}
		o.f.data = o.f.data[:n:n]
		return Val{}
	})
	stat := func(m *M, _ *frame, a []Val) Val {
		n := m.nameArg(a[0])
		f := m.files[n]
		if f == nil {
			return m.tuple(Val{}, m.pathErr("stat", n, "ErrNotExist"))
		}
		return m.tuple(m.stat(n, f), Val{})
	}
	def("os.Stat", stat)
	def("os.Lstat", stat)
	def("(*os.File).Stat", func(m *M, _ *frame, a []Val) Val {
		o := m.osFile(a[0])
		if o == nil || o.closed {
			return m.tuple(Val{}, m.osErr("file already closed"))
		}
		return m.tuple(m.stat(o.name, o.f), Val{})
	})
	def("os.TempDir", func(m *M, _ *frame, a []Val) Val { return vstr("/tmp") })
	def("os.CreateTemp", func(m *M, _ *frame, a []Val) Val {
		d, n := m.nameArg(a[0]), m.nameArg(a[1])
		if strings.HasPrefix(d, "!") {
			return m.tuple(Val{}, m.pathErr("open", d, "ErrNotExist"))
		}
		if d == "" {
			d = "/tmp"
		}
		k := strconv.Itoa(1000 + len(m.ofiles))
		if i := strings.LastIndexByte(n, '*'); i >= 0 {
			n = n[:i] + k + n[i+1:]
		} else {
			n += k
		}
		if d != "." {
			n = d + "/" + n
		}
		f := &vfile{}
		m.files[n] = f
		return m.tuple(m.newOsFile(&ofile{f: f, write: true, name: n}), Val{})
	})
	intrinsics["io/ioutil.TempFile"] = intrinsics["os.CreateTemp"]
	read := func(m *M, _ *frame, a []Val) Val {
		o := m.osFile(a[0])
		b := a[1].slice()
		if o == nil || o.closed {
			return m.tuple(Val{}, m.osErr("file already closed"))
		}
		if len(b) == 0 {
			return m.tuple(Val{}, Val{})
		}
		if o.f.dir || o.f.full {
			return m.tuple(Val{}, m.osErr("read: cannot be read"))
		}
		if o.pos >= len(o.f.data) {
			return m.tuple(Val{}, m.ioEOF())
		}
		n := copy(b, o.f.data[o.pos:])
		o.pos += n
		return m.tuple(ci(uint64(n)), Val{})
	}
	def("(*os.File).Read", read)
	def("(*os.File).ReadAt", func(m *M, _ *frame, a []Val) Val {
		o := m.osFile(a[0])
		b := a[1].slice()
		off := m.concInt(a[2])
		if o == nil || o.closed || off < 0 {
			return m.tuple(Val{}, m.osErr("bad ReadAt"))
		}
		n := 0
		if off < len(o.f.data) {
			n = copy(b, o.f.data[off:])
		}
		if n < len(b) {
			return m.tuple(ci(uint64(n)), m.ioEOF())
		}
		return m.tuple(ci(uint64(n)), Val{})
	})
	write := func(m *M, o *ofile, b []Val) Val {
		if o == nil || o.closed || !o.write {
			return m.tuple(Val{}, m.osErr("bad file descriptor"))
		}
		if o.f.full && len(b) > 0 {
			return m.tuple(Val{}, m.osErr("write: no space left on device"))
		}
		for len(o.f.data) < o.pos {
			o.f.data = append(o.f.data, Val{})
		}
		n := copy(o.f.data[o.pos:], b)
		o.f.data = append(o.f.data, b[n:]...)
		o.pos += len(b)
		return m.tuple(ci(uint64(len(b))), Val{})
	}
	def("(*os.File).Write", func(m *M, _ *frame, a []Val) Val { return write(m, m.osFile(a[0]), a[1].slice()) })
	def("(*os.File).WriteString", func(m *M, _ *frame, a []Val) Val { return write(m, m.osFile(a[0]), strBytes(a[1])) })
	def("(*os.File).ReadFrom", func(m *M, _ *frame, a []Val) Val {
		all := m.callNamed("io", "ReadAll", a[1]).r.(agg)
		r := write(m, m.osFile(a[0]), all[0].slice()).r.(agg)
		if r[1].r != nil {
			return m.tuple(r[0], r[1])
		}
		return m.tuple(r[0], all[1])
	})
	def("(*os.File).Seek", func(m *M, _ *frame, a []Val) Val {
		o := m.osFile(a[0])
		if o == nil || o.closed {
			return m.tuple(Val{}, m.osErr("file already closed"))
		}
		base := 0
		switch m.concInt(a[2]) {
		case 1:
			base = o.pos
		case 2:
			base = len(o.f.data)
		}
		if a[1].r != nil {
			if m.branch(vexpr(m.cx.Slt(m.cx.Add(m.ex(a[1], 64), m.cx.Const(uint64(base), 64)), m.cx.Const(0, 64)))) {
				return m.tuple(Val{}, m.osErr("invalid argument"))
			}
		}
		p := base + m.concInt(a[1])
		if p < 0 {
			return m.tuple(Val{}, m.osErr("invalid argument"))
		}
		o.pos = p
		return m.tuple(ci(uint64(p)), Val{})
	})
}
