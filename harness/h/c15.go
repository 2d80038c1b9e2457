package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

var encodings = [][2]int{{0, 3}, {0, 4}, {1, 0}, {3, 0}, {3, 1}, {3, 10}}
var infoTables = []string{"trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "name", "glyf", "post"}

// alike: two fonts answer and write the same.
func alike(u, w *unitype.Font, what string) {
	code := sym.U32("code")
	for _, e := range encodings {
		m, x := u.GetCmap(e[0], e[1]), w.GetCmap(e[0], e[1])
		sym.Assert((m == nil) == (x == nil), what+": same character maps")
		sym.Assert(len(m) == len(x), what+": same number of characters")
		a, hasA := m[rune(code)]
		b, hasB := x[rune(code)]
		sym.Assert(sym.And(hasA == hasB, a == b), what+": same glyph for a character")
	}
	for g := 0; g < 8; g++ {
		o, l, err := u.GetGlyphDataOffset(unitype.GlyphIndex(g))
		o2, l2, err2 := w.GetGlyphDataOffset(unitype.GlyphIndex(g))
		sym.Assert((err == nil) == (err2 == nil), what+": same glyphs")
		sym.Assert(o == o2 && l == l2, what+": same glyph positions")
	}
	for i := 0; i < 8; i++ {
		sym.Assert(sym.EqStr(u.GetNameByID(i), w.GetNameByID(i)), what+": same names")
	}
	for _, t := range []string{"hhea", "hmtx", "loca", "glyf", "trec"} {
		sym.Assert(sym.EqStr(u.TableInfo(t), w.TableInfo(t)), what+": same information on table "+t)
	}
	for _, t := range []string{"cmap", "post"} {
		sym.Assert(sym.EqStr(head(u.TableInfo(t)), head(w.TableInfo(t))), what+": same information on table "+t)
	}
	b, err := write(u)
	b2, err2 := write(w)
	sym.Assert((err == nil) == (err2 == nil), what+": writable as before")
	same(b2, b, what+": same file")
}

// head cuts the text before the dump of internal structure, which has addresses.
func head(s string) string {
	for i := 0; i < len(s); i++ {
		if s[i] == '&' {
			return s[:i]
		}
	}
	return s
}

// C15Seq: deriving and working with the derived font.
func C15Seq() {
	f := shape(sym.Param("shape", 0))
	if t := sym.Param("t", -1); t >= 0 {
		symTables(f, t)
	}
	b := f.bytes()
	u, err := parse(b)
	if err != nil {
		return
	}
	if sym.Param("pre", 0) == 1 {
		mustWrite(u)
		u.LookupRunes([]rune{'A', 'z'})
	}
	v, ok := derive(u, sym.Param("op", 0))
	if ok && v != u {
		x, ok2 := derive(v, sym.Param("op2", 5))
		if ok2 {
			write(x)
			x.Optimize()
			x.PruneTables("cmap", "name", "post")
			write(x)
		}
	}
	alike(u, mustParse(b), "original after deriving")
	sym.Reach("done")
}

// C15Comp: the same with arbitrary metrics, maps and references.
func C15Comp() {
	f := compFont(sym.Param("kind", 2), sym.Param("long", 0) == 1)
	switch sym.Param("metrics", 0) {
	case 0:
		f.add("cmap", symMaps(sym.Param("maps", 1)))
	case 1:
		symMetrics(f)
	}
	b := f.bytes()
	u := mustParse(b)
	v, ok := derive(u, sym.Param("op", 1))
	if ok && v != u {
		v.Optimize()
		x, ok2 := derive(v, 0)
		if ok2 {
			x.Optimize()
			write(x)
		}
		write(v)
	}
	alike(u, mustParse(b), "original after deriving")
	sym.Reach("done")
}

// C15Repeat: a second subset is what it would be on a fresh font.
func C15Repeat() {
	var f *fnt
	if s := sym.Param("shape", -1); s >= 0 {
		f = shape(s)
	} else {
		f = compFont(sym.Param("kind", 2), false)
		f.add("cmap", maps(sym.Param("maps", 4)))
	}
	b := f.bytes()
	u := mustParse(b)
	derive(u, sym.Param("op", 1))
	second := func(u *unitype.Font, g uint8) (*unitype.Font, bool) {
		if sym.Param("op2", 1) == 0 {
			v, err := u.SubsetFirst(int(g))
			return v, err == nil
		}
		v, err := u.SubsetKeepIndices([]unitype.GlyphIndex{unitype.GlyphIndex(g)})
		return v, err == nil
	}
	g := sym.U8("second")
	v, ok := second(u, g)
	w, ok2 := second(mustParse(b), g)
	sym.Assert(ok == ok2, "second subset succeeds as on a fresh font")
	if ok {
		alike(v, w, "second subset")
	}
	sym.Reach("done")
}

// C15Self: writing and asking change nothing.
func C15Self() {
	f := shape(sym.Param("shape", 0))
	symTables(f, sym.Param("t", 0))
	b := f.bytes()
	u, err := parse(b)
	if err != nil {
		return
	}
	x, err := write(u)
	for _, e := range encodings {
		u.GetCmap(e[0], e[1])
	}
	u.LookupRunes([]rune{rune(sym.U32("rune"))})
	u.GetNameRecords()
	for _, t := range infoTables {
		u.TableInfo(t)
	}
	_ = u.String()
	unitype.ValidateBytes(b)
	y, err2 := write(u)
	sym.Assert((err == nil) == (err2 == nil), "writable as before")
	same(x, y, "same file as before")
	alike(u, mustParse(b), "font after writing and asking")
	sym.Reach("done")
}
