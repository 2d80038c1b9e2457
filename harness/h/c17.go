package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// C17Write: arbitrary contents of some tables.
func C17Write() {
	f := shape(sym.Param("shape", 0))
	symTables(f, sym.Param("t", 0))
	b := f.bytes()
	u, err := parse(b)
	if err != nil {
		return
	}
	x, err := write(u)
	if err != nil {
		return
	}
	sym.MapOrder(1)
	y := mustWrite(u)
	same(x, y, "writing twice gives the same bytes")
	v, err := parse(x)
	sym.Assert(err == nil, "the written font is parsed")
	z := mustWrite(v)
	same(x, z, "reading and writing a written font reproduces it")
	sym.MapOrder(0)
	w, err := parse(b)
	sym.Assert(err == nil, "the font is parsed again")
	same(x, mustWrite(w), "the same input gives the same output")
	sym.Reach("done")
}

// C17Derived: derived fonts.
func C17Derived() {
	f := shape(sym.Param("shape", 0))
	b := f.bytes()
	op := sym.Param("op", 0)
	k, g, r := sym.U8("first"), sym.U8("gid"), sym.U32("rune")
	do := func(u *unitype.Font) (*unitype.Font, bool) {
		switch op {
		case 0:
			v, err := u.SubsetFirst(int(k))
			return v, err == nil
		case 1:
			v, err := u.SubsetKeepIndices([]unitype.GlyphIndex{unitype.GlyphIndex(g), 0, 2})
			return v, err == nil
		case 2:
			v, err := u.SubsetKeepRunes([]rune{rune(r), 'A'})
			return v, err == nil
		case 3:
			return u, u.Optimize() == nil
		case 4:
			return u, u.PruneTables(pruneNames(sym.Param("prune", 7))...) == nil
		}
		return u, true
	}
	var outs [][]byte
	for i := 0; i < 2; i++ {
		sym.MapOrder(i)
		v, ok := do(mustParse(b))
		if !ok {
			return
		}
		x, err := write(v)
		if err != nil {
			return
		}
		outs = append(outs, x, mustWrite(v))
	}
	sym.MapOrder(0)
	for _, x := range outs[1:] {
		same(outs[0], x, "the same operation gives the same file")
	}
	v, err := parse(outs[0])
	sym.Assert(err == nil, "the written font is parsed")
	same(outs[0], mustWrite(v), "reading and writing a written font reproduces it")
	sym.Reach("done")
}
