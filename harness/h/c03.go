package h

import "github.com/unidoc/unitype/vpharness/sym"

// C03Write: the output of a font with arbitrary table contents is well-formed.
func C03Write() {
	f := shape(sym.Param("shape", 0))
	symTables(f, sym.Param("t", 0))
	u, err := parse(f.bytes())
	sym.Assume(err == nil)
	b, werr := write(u)
	sym.Assert(werr == nil, "a parsed font can be written")
	wellFormed(b)
	accepted(b)
	sym.Reach("done")
}

// C03Present: every combination of optional tables, in either order.
func C03Present() {
	f := rich(sym.Param("long", 0) == 1)
	for _, t := range []string{"hmtx", "glyf", "cvt", "fpgm", "prep", "name", "OS/2", "post", "cmap"} {
		if sym.Choose("drop "+t, 2) == 1 {
			f.drop(t)
		}
	}
	ts := f.tables()
	if sym.Param("rev", 0) == 1 {
		for i, j := 0, len(ts)-1; i < j; i, j = i+1, j-1 {
			ts[i], ts[j] = ts[j], ts[i]
		}
	}
	u, err := parse(sfnt(ts))
	sym.Assume(err == nil)
	b, werr := write(u)
	sym.Assert(werr == nil, "a parsed font can be written")
	wellFormed(b)
	accepted(b)
	sym.Reach("done")
}

// C03Input: search fields, checksums and the order of the input do not matter.
func C03Input() {
	f := shape(sym.Param("shape", 0))
	b := f.bytes()
	copy(b[0:4], sym.Bytes("version", 4))
	copy(b[6:12], sym.Bytes("search", 6))
	n := int(get16(b, 4))
	for i := 0; i < n; i++ {
		copy(b[12+16*i+4:], sym.Bytes("sum", 4))
	}
	u, err := parse(b)
	sym.Assume(err == nil)
	o, werr := write(u)
	sym.Assert(werr == nil, "a parsed font can be written")
	wellFormed(o)
	accepted(o)
	sym.Reach("done")
}

// C03Derived: the outputs of subset, pruned and optimized fonts are well-formed as well.
func C03Derived() {
	u := mustParse(shape(sym.Param("shape", 0)).bytes())
	u, ok := derive(u, sym.Param("op", 0))
	if !ok {
		sym.Reach("refused")
		return
	}
	b, err := write(u)
	sym.Assert(err == nil, "a derived font can be written")
	wellFormed(b)
	accepted(b)
	sym.Reach("done")
}

// C03Len: table lengths of every residue modulo four are padded right.
func C03Len() {
	f := newFnt([][]byte{simpleGlyph(10, 1), nil}, 1, sym.Param("long", 0) == 1)
	f.add("fpgm", sym.Bytes("fpgm", sym.Choose("fl", 7)))
	f.add("prep", sym.Bytes("prep", sym.Choose("pl", 7)))
	f.add("cvt", sym.Bytes("cvt", 2*sym.Choose("cl", 4)))
	b := mustWrite(mustParse(f.bytes()))
	wellFormed(b)
	accepted(b)
	sym.Reach("done")
}

// C03Big: tables longer than internal buffers.
func C03Big() {
	f := newFnt([][]byte{simpleGlyph(10, 1), nil}, 1, false)
	l := sym.Param("len", 5000)
	d := make([]byte, l)
	for i := range d {
		d[i] = byte(i*5 + i>>8)
	}
	for _, at := range []int{0, 4095, 4096, l - 1} {
		if at < l {
			d[at] = sym.U8("hole")
		}
	}
	f.add(tagOf(sym.Param("t", 1)), d)
	b := mustWrite(mustParse(f.bytes()))
	o := wellFormed(b)
	same(o.tab(tagOf(sym.Param("t", 1))), d, "content kept")
	accepted(b)
	sym.Reach("done")
}
