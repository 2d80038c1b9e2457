package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// sizesAgree: the sizes of the tables agree with the glyph count.
func sizesAgree(f *file) {
	n := f.numGlyphs()
	if l := f.tab("loca"); f.has("loca") {
		if f.longLoca() {
			sym.Assert(len(l) == 4*(n+1), "glyph index table has an entry per glyph")
		} else {
			sym.Assert(len(l) == 2*(n+1), "glyph index table has an entry per glyph")
		}
		if f.has("glyf") {
			for g := 0; g < n; g++ {
				_, ok := f.glyph(g)
				sym.Assert(ok, "glyph inside the glyph table")
			}
		}
	}
	if f.has("hmtx") {
		k := int(get16(f.tab("hhea"), 34))
		sym.Assert(k <= n, "not more advance widths than glyphs")
		sym.Assert(len(f.tab("hmtx")) == 4*k+2*(n-k), "metrics for exactly the glyphs")
	}
	if p := f.tab("post"); len(p) >= 34 && (get32(p, 0) == 0x00020000 || get32(p, 0) == 0x00025000) {
		sym.Assert(int(get16(p, 32)) == n, "glyph names for exactly the glyphs")
	}
}

// C14Seq: sequences of operations on fonts of every shape.
func C14Seq() {
	f := shape(sym.Param("shape", 0))
	u := mustParse(f.bytes())
	v, ok := derive(u, sym.Param("op", 0))
	if !ok {
		sym.Reach("refused")
		return
	}
	if o2 := sym.Param("op2", -1); o2 >= 0 {
		v, ok = derive(v, o2)
		if !ok {
			sym.Reach("refused")
			return
		}
	}
	if o3 := sym.Param("op3", -1); o3 >= 0 {
		v, ok = derive(v, o3)
		if !ok {
			sym.Reach("refused")
			return
		}
	}
	b, err := write(v)
	if sym.Param("shape", 0) != 4 {
		sym.Assert(err == nil, "the derived font can be written")
	} else if err != nil {
		return
	}
	w := wellFormed(b)
	accepted(b)
	if sym.Param("shape", 0) != 11 { // there they do not agree in the original
		sizesAgree(w)
	}
	sym.Reach("done")
}

// C14Comp: subsets of fonts with composites and arbitrary metrics and maps.
func C14Comp() {
	f := compFont(sym.Param("kind", 2), sym.Param("long", 0) == 1)
	if sym.Param("metrics", 0) == 1 {
		symMetrics(f)
	} else {
		f.add("cmap", symMaps(sym.Param("maps", 1)))
	}
	u := mustParse(f.bytes())
	v, ok := derive(u, sym.Param("op", 1))
	if !ok {
		sym.Reach("refused")
		return
	}
	b := mustWrite(v)
	w := wellFormed(b)
	accepted(b)
	sizesAgree(w)
	// and once more
	x, err := v.SubsetFirst(int(sym.U8("again")))
	sym.Assert(err == nil && x != nil, "truncating succeeds")
	b2 := mustWrite(x)
	w2 := wellFormed(b2)
	accepted(b2)
	sizesAgree(w2)
	sym.Reach("done")
}

// C14Wide: the font of the 258 standard glyphs cut about the boundaries.
func C14Wide() {
	u := mustParse(shape(8).bytes())
	ks := []int{1, 2, 255, 256, 257, 258, 300}
	k := ks[sym.Choose("size", len(ks))]
	var v *unitype.Font
	var err error
	if sym.Param("op", 0) == 0 {
		v, err = u.SubsetFirst(k)
	} else {
		v, err = u.SubsetKeepIndices([]unitype.GlyphIndex{unitype.GlyphIndex(k - 1), 0})
	}
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	switch sym.Param("op2", 0) {
	case 1:
		sym.Assert(v.PruneTables(pruneNames(sym.Choose("prune", 8))...) == nil, "pruning succeeds")
	case 2:
		sym.Assert(v.Optimize() == nil, "optimizing succeeds")
	case 3:
		v, err = v.SubsetFirst(k - 1)
		if k == 1 {
			return
		}
		sym.Assert(err == nil && v != nil, "truncating succeeds")
	}
	b := mustWrite(v)
	w := wellFormed(b)
	accepted(b)
	sizesAgree(w)
	sym.Reach("done")
}
