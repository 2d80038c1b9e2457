package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// needs computes which glyphs of the file the requested ones need. Indices at or beyond the
// glyph count count as needed but have no data; beyond reports whether there is one.
func (f *file) needs(req []unitype.GlyphIndex) (need []bool, beyond, ok bool) {
	n := f.numGlyphs()
	need = make([]bool, n)
	var todo []int
	add := func(g int) {
		if g >= n {
			beyond = true
			return
		}
		g = sym.Concrete(g)
		if !need[g] {
			need[g] = true
			todo = append(todo, g)
		}
	}
	for _, g := range req {
		add(int(g))
	}
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		d, in := f.glyph(g)
		if !in {
			return nil, false, false
		}
		cs, good := components(d)
		if !good {
			return nil, false, false
		}
		for _, c := range cs {
			add(int(c))
		}
	}
	return need, beyond, true
}

// subsetRight checks a subset of the font in file `in` against the needed glyphs, both as
// it answers and as it is written.
func subsetRight(in *file, v *unitype.Font, need []bool, beyond bool, keepAll bool) *file {
	n := in.numGlyphs()
	count := 1
	for g := range need {
		if need[g] {
			count = g + 1
		}
	}
	if beyond {
		count = n
	}
	out := reopen(mustWrite(v))
	sym.Assert(out.numGlyphs() == count, "as many glyphs as the highest kept index needs")
	for g := 0; g < count; g++ {
		want, ok := in.glyph(g)
		sym.Assert(ok, "input glyph readable")
		got, ok2 := out.glyph(g)
		if !in.has("glyf") {
			continue
		}
		sym.Assert(ok2, "glyph of the subset readable")
		off, l, err := v.GetGlyphDataOffset(unitype.GlyphIndex(g))
		sym.Assert(err == nil, "glyph position known")
		if need[g] || keepAll {
			same(want, got, "kept glyph unchanged")
			sym.Assert(int(l) == len(want), "kept glyph has its length in the font")
			_ = off
		} else {
			sym.Assert(len(got) == 0, "dropped glyph has no data")
			sym.Assert(l == 0, "dropped glyph has no data in the font")
		}
		aw, lsb, okm := in.metric(g)
		if okm && in.has("hmtx") && (need[g] || keepAll) {
			aw2, lsb2, okm2 := out.metric(g)
			sym.Assert(okm2, "metrics of the subset readable")
			sym.Assert(aw == aw2, "advance width of a kept glyph unchanged")
			sym.Assert(lsb == lsb2, "side bearing of a kept glyph unchanged")
		}
	}
	_, _, err := v.GetGlyphDataOffset(unitype.GlyphIndex(count))
	sym.Assert(err != nil, "no glyph beyond the count")
	sym.Assert(len(out.tab("glyf")) <= len(in.tab("glyf")), "outline data not larger than before")
	return out
}

// noMapBeyond: no character maps to a glyph outside the font, in memory or in the file.
func noMapBeyond(v *unitype.Font, out *file) {
	n := out.numGlyphs()
	code := sym.U32("code")
	for _, k := range [][2]int{{0, 3}, {0, 4}, {1, 0}, {3, 0}, {3, 1}, {3, 10}} {
		m := v.GetCmap(k[0], k[1])
		if m != nil {
			sym.Assert(int(m[rune(code)]) < n, "no character maps beyond the glyph count")
		}
	}
	if out.has("cmap") {
		refs, ok := cmapRefs(out.tab("cmap"))
		sym.Assert(ok, "written map readable")
		for _, r := range refs {
			g, ok := r.lookup(code)
			sym.Assert(ok, "written subtable is well-formed")
			sym.Assert(int(g) < n, "no code of the written file maps beyond the glyph count")
		}
	}
}

// compFont: six glyphs, some composite with arbitrary references.
//
//	0 simple, 1 empty, 2 simple, 3 composite of one, 4 composite of two, 5 simple
func compFont(kind int, long bool) *fnt {
	flags := func() uint16 {
		fl := sym.U16("flags")
		// more components are told apart by the caller, instructions are absent
		sym.Assume(fl&0x0120 == 0)
		return fl
	}
	// arguments and transformation as the flags announce
	comp := func(b []byte, fl, gid uint16, more bool) []byte {
		if more {
			fl |= 0x20
		}
		b = put16(b, fl)
		b = put16(b, gid)
		k := 2
		if fl&1 != 0 {
			k = 4
		}
		if fl&8 != 0 {
			k += 2
		} else if fl&0x40 != 0 {
			k += 4
		} else if fl&0x80 != 0 {
			k += 8
		}
		for i := 0; i < k; i++ {
			b = append(b, byte(0x11*i))
		}
		return b
	}
	head := simpleGlyph(10, 0)
	set16(head, 0, 0xFFFF)
	hd := func() []byte { return append([]byte(nil), head...) }
	var g3, g4 []byte
	switch kind {
	case 0: // arbitrary references
		g3 = comp(hd(), 2, sym.U16("ref"), false)
		g4 = comp(comp(hd(), 2, sym.U16("ref"), true), 2, 5, false)
	case 1: // arbitrary flags
		g3 = comp(hd(), 2, 2, false)
		g4 = comp(comp(hd(), flags(), 3, true), 2, 0, false)
	case 6: // arbitrary references, two components each
		g3 = comp(comp(hd(), 2, sym.U16("ref"), true), 3, 1, false)
		g4 = comp(comp(hd(), 0x42, sym.U16("ref"), true), 2, sym.U16("ref"), false)
	case 7: // arbitrary flags, on every component
		g3 = comp(hd(), flags(), 0, false)
		g4 = comp(comp(comp(hd(), 2, 5, true), 0x1002, 0, true), flags(), 3, false)
	case 8: // the instructions announced by any component
		g3 = comp(hd(), 2, 0, false)
		fl := sym.U16("flags")
		sym.Assume(fl&0xF8FF == 0x22)
		g4 = comp(comp(comp(hd(), fl, 5, true), 0x102, 0, true), 2|fl&0x100, 2, false)
		g4 = append(g4, 0, 1, 0x2D, 0)
	case 9: // an empty list of instructions, and a longer one
		g3 = comp(hd(), 2, 0, false)
		set16(g3, 10, 0x0102)
		g3 = append(g3, 0, 0)
		g4 = comp(comp(hd(), 0x102, 3, true), 3, sym.U16("ref"), false)
		g4 = append(g4, 0, 5, 0x2D, 1, 2, 3, 4)
	case 2: // a cycle
		g3 = comp(comp(hd(), 3, 4, true), 2, 0, false)
		g4 = comp(hd(), 2, 3, false)
	case 3: // instructions after the components
		g3 = comp(hd(), 2, 0, false)
		set16(g3, 10, 0x0102)
		g3 = append(g3, 0, 2, 0xB0, 1)
		g4 = comp(comp(hd(), 2, 3, true), 0x103, 2, false)
		g4 = append(g4, 0, 1, 0x2D)
	case 4: // references to itself and beyond the font
		g3 = comp(comp(hd(), 2, 3, true), 2, 6, false)
		g4 = comp(comp(hd(), 2, 0xFFFF, true), 2, 1, false)
	case 5: // arbitrary number of contours: composite when negative
		g3 = comp(hd(), 2, 2, false)
		set16(g3, 0, sym.U16("contours"))
		g4 = comp(hd(), 2, 3, false)
	}
	gl := [][]byte{simpleGlyph(12, 1), nil, simpleGlyph(14, 5), g3, g4, simpleGlyph(10, 9)}
	for _, i := range []int{0, 2, 5} {
		copy(gl[i][8:10], sym.Bytes("data", 2))
	}
	// even lengths for the short format
	for i := range gl {
		if len(gl[i])%2 == 1 {
			gl[i] = append(gl[i], 0)
		}
	}
	return newFnt(gl, 4, long)
}

func symMetrics(f *fnt) {
	b := append([]byte(nil), f.hmtx...)
	for i := 0; i < f.nHM; i++ {
		v := sym.U8("aw")
		sym.Assume(v < 2)
		b[4*i], b[4*i+1] = 1, v
	}
	copy(b[len(b)-2:], sym.Bytes("lsb", 2))
	f.hmtx = b
}

// C11Refs: arbitrary references and requests.
func C11Refs() {
	f := compFont(sym.Param("kind", 0), sym.Param("long", 0) == 1)
	if sym.Param("metrics", 0) == 1 {
		symMetrics(f)
	}
	b := f.bytes()
	in := open(b)
	u := mustParse(b)
	var req []unitype.GlyphIndex
	for i := 0; i < sym.Param("req", 1); i++ {
		g := sym.U16("want")
		if sym.Param("low", 0) == 1 {
			sym.Assume(g < 8)
		}
		req = append(req, unitype.GlyphIndex(g))
	}
	need, beyond, ok := in.needs(req)
	sym.Assert(ok, "glyphs well-formed")
	v, err := u.SubsetKeepIndices(req)
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	subsetRight(in, v, need, beyond, false)
	sym.Reach("done")
}

// C11Runes: subsetting to characters is subsetting to their glyphs.
func C11Runes() {
	f := compFont(2, false)
	f.add("cmap", cmapTab([]csub{{1, 0, fmt6(0, 0x40, []uint16{1, 4, 2})}, {3, 1, fmt4(0, []seg{{0x41, 0x43, 0xFFC1, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)}}))
	b := f.bytes()
	in := open(b)
	u := mustParse(b)
	var runes []rune
	for i := 0; i < sym.Param("req", 1); i++ {
		runes = append(runes, rune(sym.U32("rune")))
	}
	req := u.LookupRunes(runes)
	need, beyond, ok := in.needs(req)
	sym.Assert(ok, "glyphs well-formed")
	v, err := u.SubsetKeepRunes(runes)
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	out := subsetRight(in, v, need, beyond, false)
	for _, r := range runes {
		g := v.LookupRunes([]rune{r})
		w := u.LookupRunes([]rune{r})
		sym.Assert(g[0] == w[0], "requested character maps to the same glyph in the subset")
	}
	_ = out
	sym.Reach("done")
}

// C11Many: more glyphs than fit a byte, references across the font.
func C11Many() {
	n := 300
	gl := make([][]byte, n)
	for i := range gl {
		gl[i] = []byte{0, 0, byte(i), byte(i >> 8), 0, 0, 0, 0, 0, 0}
	}
	gl[299] = compGlyph(255, 256)
	gl[256] = compGlyph(7, 298)
	gl[3] = compGlyph(299)
	if sym.Param("nohm", 0) == 1 {
		gl[3] = compGlyph(260)
	}
	f := newFnt(gl, n, sym.Param("long", 0) == 1)
	b := f.bytes()
	in := open(b)
	u := mustParse(b)
	ask := []unitype.GlyphIndex{3, 255, 256, 298, 299, 300, 0xFFFF}
	req := []unitype.GlyphIndex{ask[sym.Choose("want", len(ask))], unitype.GlyphIndex(sym.Choose("want2", 2) * 256)}
	need, beyond, ok := in.needs(req)
	sym.Assert(ok, "glyphs well-formed")
	v, err := u.SubsetKeepIndices(req)
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	subsetRight(in, v, need, beyond, false)
	sym.Reach("done")
}

// C12Maps: the subset's character maps and extents for fonts with maps in every format.
func C12Maps() {
	f := compFont(4, sym.Param("long", 0) == 1)
	f.add("cmap", maps(sym.Param("maps", 0)))
	if sym.Param("sym", 0) == 1 {
		f.set("cmap", symMaps(sym.Param("maps", 0)))
	}
	if sym.Param("post", 0) == 1 {
		f.add("post", postTab2([]uint16{0, 258, 3, 4, 259, 5}, []string{"ab", "c"}))
	}
	b := f.bytes()
	in := open(b)
	u := mustParse(b)
	var req []unitype.GlyphIndex
	for i := 0; i < sym.Param("req", 1); i++ {
		req = append(req, unitype.GlyphIndex(sym.U16("want")))
	}
	need, beyond, ok := in.needs(req)
	sym.Assert(ok, "glyphs well-formed")
	v, err := u.SubsetKeepIndices(req)
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	out := subsetRight(in, v, need, beyond, false)
	noMapBeyond(v, out)
	sym.Reach("done")
}

// maps is a character map table for a font of six glyphs.
func maps(k int) []byte {
	a0 := make([]byte, 256)
	for i := range a0 {
		if i%50 == 0 {
			a0[i] = byte(i / 50)
		}
	}
	switch k {
	case 0:
		return cmapTab([]csub{{1, 0, fmt0(0, a0)}})
	case 1:
		return cmapTab([]csub{{3, 1, fmt4(0, []seg{{0x41, 0x44, 0xFFC0, 0}, {0x61, 0x63, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{5, 1, 3})}})
	case 2:
		return cmapTab([]csub{{0, 3, fmt6(0, 0x41, []uint16{5, 4, 3, 2, 1})}, {1, 0, fmt6(0, 0x20, []uint16{1, 5})}})
	case 3:
		return cmapTab([]csub{{3, 10, fmt12(0, []grp{{0x41, 0x45, 1}, {0x1F600, 0x1F601, 4}})}, {0, 4, fmt12(0, []grp{{0x10000, 0x10001, 0}})}})
	case 4: // everything, with a second map for one encoding
		return cmapTab([]csub{
			{0, 3, fmt4(0, []seg{{0x41, 0x42, 0xFFC2, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)},
			{1, 0, fmt6(0, 0x41, []uint16{2, 5})},
			{1, 0, fmt6(1, 0x50, []uint16{4, 1})},
			{3, 10, fmt12(0, []grp{{0x41, 0x42, 4}})},
		})
	}
	return nil
}

// symMaps is like maps, with arbitrary glyphs.
func symMaps(k int) []byte {
	switch k {
	case 0:
		a := make([]byte, 256)
		for _, i := range []int{0, 65, 255} {
			a[i] = sym.U8("gid")
			sym.Assume(a[i] < 6)
		}
		return cmapTab([]csub{{1, 0, fmt0(0, a)}})
	case 1:
		return cmapTab([]csub{{3, 1, fmt4(sym.U16("lang"), []seg{{0x41, 0x42, 0, 6}, {0x43, 0x43, sym.U16("delta") & 3, 8}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{symGid(6), symGid(6), symGid(3)})}})
	case 2:
		return cmapTab([]csub{{0, 3, fmt6(0, sym.U16("first")&0xFF, []uint16{symGid(6), symGid(6), symGid(6)})}})
	case 3:
		g := uint32(symGid(5))
		return cmapTab([]csub{{3, 10, fmt12(sym.U32("lang"), []grp{{0x41, 0x42, g}, {0x43, 0x43, uint32(symGid(6))}, {0x10FFFF, 0x10FFFF, uint32(symGid(6))}})}})
	}
	return nil
}

// C11Chain: composites of composites, asked for together with indices beyond the font.
func C11Chain() {
	n := 9
	gl := make([][]byte, n)
	gl[0], gl[1], gl[2] = simpleGlyph(10, 1), simpleGlyph(12, 3), simpleGlyph(10, 7)
	for i := 3; i < n; i++ {
		gl[i] = compGlyph(uint16(i - 1))
	}
	gl[5] = compGlyph(1, 4)
	f := newFnt(gl, 4, sym.Param("long", 0) == 1)
	b := f.bytes()
	in := open(b)
	u := mustParse(b)
	g := sym.U16("want")
	sym.Assume(g < uint16(n))
	far := sym.U16("beyond")
	sym.Assume(sym.And(far >= uint16(n), far < 0xFF00))
	var req []unitype.GlyphIndex
	k := sym.Param("beyond", 3)
	for i := 0; i < k/2; i++ {
		req = append(req, unitype.GlyphIndex(far)+unitype.GlyphIndex(i))
	}
	req = append(req, unitype.GlyphIndex(g), unitype.GlyphIndex(g))
	for i := k / 2; i < k; i++ {
		req = append(req, unitype.GlyphIndex(far)+unitype.GlyphIndex(i))
	}
	need, beyond, ok := in.needs(req)
	sym.Assert(ok, "glyphs well-formed")
	v, err := u.SubsetKeepIndices(req)
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	subsetRight(in, v, need, beyond, false)
	sym.Reach("done")
}

// C11Text: a text of several characters in a font that maps one arbitrary further character.
func C11Text() {
	f := compFont(2, false)
	c := sym.U32("mapped")
	sym.Assume(c <= 0x10FFFF)
	sym.Assume(sym.Or(c < 0xD800, c > 0xDFFF))
	switch sym.Param("maps", 0) {
	case 0:
		f.add("cmap", cmapTab([]csub{{3, 10, fmt12(0, []grp{{0x41, 0x43, 0}, {c, c, uint32(sym.Param("gid", 5))}})}}))
		sym.Assume(c > 0x43)
	case 1:
		sym.Assume(sym.And(c > 0x43, c < 0xFFFF))
		f.add("cmap", cmapTab([]csub{{3, 1, fmt4(0, []seg{{0x41, 0x43, 0xFFBF, 0}, {uint16(c), uint16(c), uint16(sym.Param("gid", 5)) - uint16(c), 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)}}))
	}
	b := f.bytes()
	in := open(b)
	u := mustParse(b)
	runes := []rune{'A', 'B', 'A', 'C', 'Q', 'B'}[:sym.Param("req", 4)]
	if sym.Param("any", 0) == 1 {
		r := sym.U32("rune")
		sym.Assume(sym.Or(r < 0xD800, r > 0xDFFF))
		runes = append(append([]rune(nil), runes...), rune(r))
	}
	var req []unitype.GlyphIndex
	refs, ok := cmapRefs(in.tab("cmap"))
	sym.Assert(ok, "map readable")
	for _, r := range runes {
		g, ok := refs[0].lookup(uint32(r))
		sym.Assert(ok, "subtable readable")
		req = append(req, unitype.GlyphIndex(g))
	}
	need, beyond, ok := in.needs(req)
	sym.Assert(ok, "glyphs well-formed")
	v, err := u.SubsetKeepRunes(runes)
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	out := subsetRight(in, v, need, beyond, false)
	noMapBeyond(v, out)
	for _, r := range runes {
		sym.Assert(v.LookupRunes([]rune{r})[0] == u.LookupRunes([]rune{r})[0], "requested character maps to the same glyph in the subset")
	}
	sym.Reach("done")
}

// C12Beyond: the maps name glyphs the font does not have.
func C12Beyond() {
	f := compFont(4, false)
	far := sym.U16("far")
	a := make([]byte, 256)
	a[0x41], a[0x42], a[255] = 2, sym.U8("gid"), 5
	// a format may be refused for it: one at a time
	far6, far12, far4 := uint16(2), uint32(2), uint16(2)
	switch sym.Choose("which", 4) {
	case 1:
		far6 = far
	case 2:
		far12 = sym.U32("far")
	case 3:
		far4 = far
	}
	f.add("cmap", cmapTab([]csub{
		{0, 3, fmt6(0, 0x41, []uint16{2, far6, 1})},
		{1, 0, fmt0(0, a)},
		{3, 1, fmt4(0, []seg{{0x41, 0x42, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{1, far4})},
		{3, 10, fmt12(0, []grp{{0x41, 0x42, 2}, {0x10000, 0x10001, far12}})},
	}))
	u, err := parse(f.bytes())
	if err != nil {
		sym.Reach("rejected")
		return
	}
	v, err := u, error(nil)
	if sym.Param("first", 0) == 1 {
		v, err = u.SubsetFirst(3)
	} else {
		v, err = u.SubsetKeepIndices([]unitype.GlyphIndex{2})
	}
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	out := reopen(mustWrite(v))
	n := uint32(out.numGlyphs())
	sym.Assert(n == 3, "as many glyphs as the highest kept index plus one")
	code := sym.U32("code")
	refs, ok := cmapRefs(out.tab("cmap"))
	sym.Assert(ok, "written map readable")
	for _, r := range refs {
		g, ok := r.lookup(code)
		sym.Assert(ok, "written subtable well-formed")
		sym.Assert(g < n, "no character maps outside")
	}
	for _, e := range [][2]int{{0, 3}, {1, 0}, {3, 1}, {3, 10}} {
		sym.Assert(uint32(v.GetCmap(e[0], e[1])[rune(code)]) < n, "no character maps outside")
	}
	sym.Reach("done")
}
