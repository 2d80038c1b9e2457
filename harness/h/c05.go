package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// glyphsKept compares the outline data glyph by glyph.
func glyphsKept(in, out *file, n int) {
	sym.Assert(out.numGlyphs() == in.numGlyphs(), "glyph count kept")
	for i := 0; i < n; i++ {
		a, ok := in.glyph(i)
		sym.Assume(ok)
		b, ok2 := out.glyph(i)
		sym.Assert(ok2, "every glyph located in the written file")
		same(a, b, "outline data kept")
	}
}

// offsetsRight compares the offset query with the index table of the input.
func offsetsRight(u *unitype.Font, in *file) {
	n := in.numGlyphs()
	g := sym.U16("query")
	off, l, err := u.GetGlyphDataOffset(unitype.GlyphIndex(g))
	sym.Assert((err == nil) == (int(g) < n), "an offset for every glyph of the font and an error for any other index")
	if err != nil {
		return
	}
	t := in.tab("loca")
	for i := 0; i < n; i++ {
		if int(g) != i {
			continue
		}
		var a, b int64
		if in.longLoca() {
			a, b = int64(get32(t, 4*i)), int64(get32(t, 4*i+4))
		} else {
			a, b = 2*int64(get16(t, 2*i)), 2*int64(get16(t, 2*i+2))
		}
		sym.Assert(off == a && l == b-a, "offset and length are those of the index table")
	}
	sym.Reach("query")
}

// C05Data: arbitrary outline bytes in a given layout.
func C05Data() {
	long := sym.Param("long", 0) == 1
	lens := [][]int{{12, 0, 14}, {0, 0, 0}, {2, 4, 6}, {0, 11, 13}, {10, 12, 0, 16}, {1, 3, 5}}[sym.Param("lens", 0)]
	lead, trail := sym.Param("lead", 0), sym.Param("trail", 0)
	offs := []int{lead}
	for _, l := range lens {
		if !long {
			l = (l + 1) &^ 1
		}
		offs = append(offs, offs[len(offs)-1]+l)
	}
	var gl [][]byte
	for range lens {
		gl = append(gl, nil)
	}
	f := newFnt(gl, 1, long)
	f.glyf = sym.Bytes("glyf", offs[len(offs)-1]+trail)
	f.loca = locaTab(offs, long)
	in := open(f.bytes())
	u := mustParse(in.b)
	offsetsRight(u, in)
	out := reopen(mustWrite(u))
	glyphsKept(in, out, len(lens))
	sym.Reach("done")
}

// C05Loca: the index table itself is arbitrary within the outline data.
func C05Loca() {
	n := sym.Param("n", 2)
	long := sym.Param("long", 0) == 1
	max := sym.Param("max", 12)
	var gl [][]byte
	for i := 0; i < n; i++ {
		gl = append(gl, nil)
	}
	f := newFnt(gl, 1, long)
	f.glyf = make([]byte, max)
	for i := range f.glyf {
		f.glyf[i] = byte(0x11 + 3*i)
	}
	var l []byte
	last := uint32(0)
	for i := 0; i <= n; i++ {
		var v uint32
		if long {
			v = sym.U32("off")
			sym.Assume(v <= uint32(max))
			l = put32(l, v)
		} else {
			h := sym.U16("off")
			sym.Assume(h <= uint16(max/2))
			l = put16(l, h)
			v = uint32(h)
		}
		sym.Assume(v >= last)
		last = v
	}
	f.loca = l
	in := open(f.bytes())
	u := mustParse(in.b)
	out := reopen(mustWrite(u))
	glyphsKept(in, out, n)
	sym.Reach("done")
}

// C05Query: the offset query against an arbitrary index table, far beyond the data.
func C05Query() {
	long := sym.Param("long", 1) == 1
	f := newFnt([][]byte{nil, nil, nil}, 1, long)
	f.glyf = nil
	var l []byte
	var v [4]uint32
	for i := range v {
		if long {
			v[i] = sym.U32("off")
			l = put32(l, v[i])
		} else {
			v[i] = uint32(sym.U16("off"))
			l = put16(l, uint16(v[i]))
		}
		if i > 0 {
			sym.Assume(v[i] >= v[i-1])
		}
	}
	f.loca = l
	in := open(f.bytes())
	u := mustParse(in.b)
	offsetsRight(u, in)
	sym.Reach("done")
}

// C05Big: outline data beyond 64 KiB, in the short format up to its limit.
func C05Big() {
	long := sym.Param("long", 0) == 1
	size := sym.Param("size", 40000)
	g0 := simpleGlyph(size, 7)
	g1 := simpleGlyph(size, 9)
	g2 := simpleGlyph(20, 1)
	for _, i := range []int{20, 4096, size - 1} {
		g0[i] = sym.U8("hole")
		g1[i] = sym.U8("hole")
	}
	f := newFnt([][]byte{g0, g1, g2, nil}, 1, long)
	in := open(f.bytes())
	u := mustParse(in.b)
	offsetsRight(u, in)
	out := reopen(mustWrite(u))
	glyphsKept(in, out, 4)
	sym.Reach("done")
}

// C05Many: more glyphs than fit a byte.
func C05Many() {
	n := sym.Param("n", 300)
	var gl [][]byte
	for i := 0; i < n; i++ {
		gl = append(gl, []byte{byte(i), byte(i >> 8)})
	}
	k := sym.Param("at", 256)
	gl[k] = sym.Bytes("glyph", 2)
	gl[n-1] = sym.Bytes("glyph", 2)
	f := newFnt(gl, 1, sym.Param("long", 0) == 1)
	in := open(f.bytes())
	u := mustParse(in.b)
	out := reopen(mustWrite(u))
	glyphsKept(in, out, n)
	sym.Reach("done")
}
