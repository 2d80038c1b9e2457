package h

import (
	"bytes"
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// subject is a font image with arbitrary parts, or something that is none.
func subject() []byte {
	switch k := sym.Param("kind", 0); k {
	case -1:
		return sym.Bytes("b", sym.Param("len", 12))
	case -2: // cut short
		b := shape(2).bytes()
		n := sym.Choose("len", len(b)+1)
		return b[:n:n]
	case -3: // arbitrary checksums
		b := shape(2).bytes()
		copy(b[12+4:], sym.Bytes("sum", 4))
		copy(b[12+16+4:], sym.Bytes("sum", 4))
		return b
	case -6: // arbitrary version and search fields, and a checksum that may be off
		b := shape(2).bytes()
		copy(b[0:4], sym.Bytes("version", 4))
		copy(b[6:12], sym.Bytes("search", 6))
		copy(b[12+16+4:], sym.Bytes("sum", 4))
		return b
	case -5: // a character map of the wrong length, which is noted, and a checksum that may be off
		f := newFnt(make([][]byte, 3), 3, false)
		m := fmt0(0, make([]byte, 256))
		set16(m, 2, sym.U16("length"))
		b := f.add("cmap", cmapTab([]csub{{1, 0, m}})).bytes()
		b[len(b)-1] = sym.U8("last")
		return b
	case -4: // parsed, but with more string data than can be written when not shared
		f := shape(2)
		text := bytes.Repeat([]byte{'A'}, 60000)
		t := nameTab([]nrec{{2, 1, 0, 1, text}}, 0, nil) // shown as it is
		rec := append([]byte(nil), t[6:18]...)
		b := put16(put16(put16(nil, 0), 3), 6+12*3)
		for i := 0; i < 3; i++ {
			set16(rec, 6, uint16(i))
			set16(rec, 8, []uint16{60000, 5540, 1}[i])
			b = append(b, rec...)
		}
		return f.add("name", append(b, text...)).bytes()
	default:
		f := shape(k)
		if t := sym.Param("t", -1); t >= 0 {
			symTables(f, t)
		}
		return f.bytes()
	}
}

// C24Parse: reading and validating by path.
func C24Parse() {
	b := subject()
	p := sym.Path("in.ttf")
	sym.PutFile(p, b)
	u, err := parse(b)
	v, err2 := unitype.ParseFile(p)
	sym.Assert((err == nil) == (err2 == nil), "parsed by path as from a reader")
	sym.Assert((v == nil) == (err2 != nil), "a font or an error")
	verr, verr2 := unitype.ValidateBytes(b), unitype.ValidateFile(p)
	sym.Assert((verr == nil) == (verr2 == nil), "valid by path as in memory")
	c, ok := sym.GetFile(p)
	sym.Assert(ok, "input still there")
	same(b, c, "input not altered")
	if err == nil {
		x, e1 := write(u)
		y, e2 := write(v)
		sym.Assert((e1 == nil) == (e2 == nil), "both writable")
		same(x, y, "same font")
		sym.Reach("parsed")
	} else {
		sym.Reach("rejected")
	}
}

// C24Write: writing by path.
func C24Write() {
	f := shape(sym.Param("shape", 0))
	symTables(f, sym.Param("t", 0))
	u, err := parse(f.bytes())
	if err != nil {
		return
	}
	p := sym.Path("out.ttf")
	switch sym.Param("old", 0) {
	case 1: // longer
		sym.PutFile(p, sym.Bytes("old", 4000))
	case 2:
		sym.PutFile(p, sym.Bytes("old", 10))
	case 3: // the font itself
		sym.PutFile(p, f.bytes())
		u, err = unitype.ParseFile(p)
		sym.Assert(err == nil, "parsed by path")
	}
	if op := sym.Param("op", -1); op >= 0 {
		v, ok := derive(u, op)
		if !ok {
			return
		}
		u = v
	}
	b, err := write(u)
	err2 := u.WriteFile(p)
	sym.Assert((err == nil) == (err2 == nil), "written by path as to a writer")
	if err == nil {
		c, ok := sym.GetFile(p)
		sym.Assert(ok, "file written")
		same(b, c, "file has the bytes of the in-memory output")
		sym.Assert(unitype.ValidateFile(p) == nil, "the written file passes validation")
		v, err := unitype.ParseFile(p)
		sym.Assert(err == nil, "the written file is parsed")
		same(b, mustWrite(v), "the written file is the font")
		// and again, over itself
		sym.Assert(u.WriteFile(p) == nil, "written again")
		c, _ = sym.GetFile(p)
		same(b, c, "file has the bytes of the in-memory output")
	}
	sym.Reach("done")
}

// C24Bad: paths that cannot be opened or created.
func C24Bad() {
	p := sym.BadPath()
	v, err := unitype.ParseFile(p)
	sym.Assert(v == nil && err != nil, "error for a file that cannot be opened")
	sym.Assert(unitype.ValidateFile(p) != nil, "error for a file that cannot be opened")
	u := mustParse(shape(0).bytes())
	sym.Assert(u.WriteFile(p) != nil, "error for a file that cannot be created")
	q := sym.Path("none.ttf")
	v, err = unitype.ParseFile(q)
	sym.Assert(v == nil && err != nil, "error for a file that is not there")
	sym.Assert(unitype.ValidateFile(q) != nil, "error for a file that is not there")
	sym.Assert(unitype.ValidateFile("") != nil, "error for no path")
	_, ok := sym.GetFile(q)
	sym.Assert(!ok, "no file made by reading")
	sym.Reach("done")
}

// C24Two: two fonts, two files.
func C24Two() {
	a, b := shape(sym.Param("a", 0)), shape(sym.Param("b", 5))
	p, q := sym.Path("a.ttf"), sym.Path("b.ttf")
	u, v := mustParse(a.bytes()), mustParse(b.bytes())
	x, y := mustWrite(u), mustWrite(v)
	sym.Assert(u.WriteFile(p) == nil && v.WriteFile(q) == nil, "written")
	c, _ := sym.GetFile(p)
	d, _ := sym.GetFile(q)
	same(x, c, "first file")
	same(y, d, "second file")
	sym.Assert(v.WriteFile(p) == nil, "written over another font")
	c, _ = sym.GetFile(p)
	same(y, c, "first file replaced")
	sym.Reach("done")
}

// C24Unwritable: a font with more text than can be written.
func C24Unwritable() {
	u := mustParse(subject())
	p := sym.Path("out.ttf")
	if sym.Param("old", 0) == 1 {
		sym.PutFile(p, []byte("something else"))
	}
	b, err := write(u)
	err2 := u.WriteFile(p)
	sym.Assert((err == nil) == (err2 == nil), "written by path as to a writer")
	if err == nil {
		c, _ := sym.GetFile(p)
		same(b, c, "file has the bytes of the in-memory output")
	} else {
		sym.Reach("refused")
	}
	sym.Reach("done")
}

// C24Full: a file that takes no data, and a directory.
func C24Full() {
	f := shape(sym.Param("shape", 0))
	symTables(f, 0)
	u := mustParse(f.bytes())
	if sym.Param("op", -1) >= 0 {
		v, ok := derive(u, sym.Param("op", 0))
		sym.Assert(ok, "derived")
		u = v
	}
	p, q := sym.Path("full"), sym.Path("dir")
	sym.PutFull(p)
	sym.PutDir(q)
	sym.Assert(u.WriteFile(p) != nil, "a file that takes no data is reported")
	sym.Assert(u.WriteFile(q) != nil, "a directory is no file to write to")
	v, err := unitype.ParseFile(q)
	sym.Assert(v == nil && err != nil, "a directory is no font")
	sym.Assert(unitype.ValidateFile(q) != nil, "a directory is no font")
	b := mustWrite(u)
	r := sym.Path("out.ttf")
	sym.Assert(u.WriteFile(r) == nil, "written elsewhere")
	c, _ := sym.GetFile(r)
	same(b, c, "file has the bytes of the in-memory output")
	sym.Reach("done")
}

// C24Names: names of files are taken as they are.
func C24Names() {
	u := mustParse(shape(sym.Param("shape", 2)).bytes())
	names := []string{"a ", " a", "a b.ttf", "A.TTF", "a.ttf ", "%41.ttf", "$HOME", "~", "#a?b&c=d", "a\\b.ttf", "none", ".hidden", "a..b", "\u00e4\u6587.ttf", "-o", "a\tb", "a.ttf.gz", "a,b;c", "*", "\"q\"", "a\xff"}
	p := sym.Path(names[sym.Choose("name", len(names))])
	b := mustWrite(u)
	sym.Assert(u.WriteFile(p) == nil, "written by path")
	c, ok := sym.GetFile(p)
	sym.Assert(ok, "file written under its name")
	same(b, c, "file has the bytes of the in-memory output")
	sym.Assert(unitype.ValidateFile(p) == nil, "the written file passes validation")
	v, err := unitype.ParseFile(p)
	sym.Assert(err == nil && v != nil, "the written file is parsed")
	same(b, mustWrite(v), "the written file is the font")
	sym.Reach("done")
}
