package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// Fonts with glyph indices beyond 15 bits and tables beyond 20.

// largeFont: n glyphs, few of them with outlines; glyph 1 refers to the one but last, that one
// to glyph 32768.
func largeFont(n int, long bool, nHM int) *fnt {
	gl := make([][]byte, n)
	gl[0] = simpleGlyph(12, 1)
	gl[1] = compGlyph(uint16(n - 2))
	gl[300] = simpleGlyph(14, 7)
	gl[32767] = append(simpleGlyph(10, 5), sym.Bytes("glyph", 2)...)
	gl[32768] = simpleGlyph(10, 3)
	gl[n-2] = compGlyph(32768)
	gl[n-1] = append(simpleGlyph(10, 6), sym.Bytes("glyph", 4)...)
	f := newFnt(gl, nHM, long)
	l := f.hmtx
	for _, g := range []int{1, 32767, 32768, n - 2, n - 1} {
		o := 4*g + 2
		if g >= nHM {
			o = 4*nHM + 2*(g-nHM)
		}
		copy(l[o:o+2], sym.Bytes("lsb", 2))
	}
	f.add("cmap", cmapTab([]csub{
		{0, 3, fmt6(0, 0x30, []uint16{1, 32768, uint16(n - 1), 5})},
		{3, 1, fmt4(0, []seg{{0x41, 0x44, 32766 - 0x41, 0}, {0x100, 0x101, uint16(n-2) - 0x100, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)},
		{3, 10, fmt12(0, []grp{{0x41, 0x43, 32767}, {0x20000, 0x20001, uint32(n - 2)}})},
	}))
	return f
}

func largeSpots(n int) []int {
	return []int{0, 1, 2, 255, 256, 300, 32766, 32767, 32768, 32769, n - 2, n - 1}
}

// C05Large: outlines and positions.
func C05Large() {
	n := sym.Param("n", 33000)
	in := open(largeFont(n, sym.Param("long", 0) == 1, 1).bytes())
	u := mustParse(in.b)
	out := reopen(mustWrite(u))
	glyphsKept(in, out, n)
	for _, g := range largeSpots(n) {
		off, l, err := u.GetGlyphDataOffset(unitype.GlyphIndex(g))
		sym.Assert(err == nil, "position of every glyph known")
		d, ok := in.glyph(g)
		sym.Assert(ok && int(l) == len(d), "length right")
		same(in.tab("glyf")[off:off+l], d, "position right")
	}
	for _, g := range []int{n, n + 1, 65535} {
		if g >= n && g <= 65535 {
			_, _, err := u.GetGlyphDataOffset(unitype.GlyphIndex(g))
			sym.Assert(err != nil, "error for an index that is not there")
		}
	}
	sym.Reach("done")
}

// C06Large: metrics.
func C06Large() {
	n := sym.Param("n", 33000)
	f := largeFont(n, false, sym.Param("k", 1))
	in := open(f.bytes())
	u := mustParse(in.b)
	if sym.Param("opt", 0) == 1 {
		sym.Assert(u.Optimize() == nil, "optimized")
	}
	out := reopen(mustWrite(u))
	metricsKept(in, out, n)
	if sym.Param("opt", 0) == 1 {
		optimal(in, out)
	}
	sym.Reach("done")
}

// C11Large: subsets.
func C11Large() {
	n := sym.Param("n", 33000)
	in := open(largeFont(n, sym.Param("long", 0) == 1, 1).bytes())
	u := mustParse(in.b)
	reqs := [][]unitype.GlyphIndex{{1}, {32767}, {0, 32768}, {unitype.GlyphIndex(n - 1)}, {300}}
	r := sym.Param("req", -1)
	if r < 0 {
		r = sym.Choose("req", len(reqs))
	}
	req := reqs[r]
	need, beyond, ok := in.needs(req)
	sym.Assert(ok, "references readable")
	v, err := u.SubsetKeepIndices(req)
	sym.Assert(err == nil && v != nil, "subset made")
	out := subsetRight(in, v, need, beyond, false)
	noMapBeyond(v, out)
	accepted(out.b)
	sym.Reach("done")
}

// C13Large: the first glyphs.
func C13Large() {
	n := sym.Param("n", 33000)
	in := open(largeFont(n, sym.Param("long", 0) == 1, sym.Param("k", 1)).bytes())
	u := mustParse(in.b)
	ks := []int{32767, 32768, 32769, n - 1, n}
	r := sym.Param("first", -1)
	if r < 0 {
		r = sym.Choose("first", len(ks))
	}
	k := ks[r]
	v, err := u.SubsetFirst(k)
	sym.Assert(err == nil && v != nil, "truncating succeeds")
	out := firstRight(in, v, k)
	mapsCut(in, u, v, out, k)
	accepted(out.b)
	sym.Reach("done")
}

// C13Groups: maps in many pieces.
func C13Groups() {
	n := 8
	k := sym.Param("k", 300)
	var s []seg
	var gr []grp
	for i := 0; i < k; i++ {
		c := uint16(2*i + 32)
		s = append(s, seg{c, c, uint16(i%7+1) - c, 0})
		gr = append(gr, grp{uint32(c), uint32(c), uint32(i%7 + 1)})
	}
	s = append(s, seg{0xFFFF, 0xFFFF, 1, 0})
	f := newFnt(make([][]byte, n), 1, false)
	f.add("cmap", cmapTab([]csub{{3, 1, fmt4(0, s, nil)}, {3, 10, fmt12(0, gr)}}))
	in := open(f.bytes())
	u := mustParse(in.b)
	first := sym.Param("first", -1)
	if first < 0 {
		first = sym.Choose("first", n)
	}
	v, err := u.SubsetFirst(first)
	sym.Assert(err == nil && v != nil, "truncating succeeds")
	out := firstRight(in, v, first)
	code := sym.U32("code")
	if sym.Param("near", 0) == 1 { // the last groups, and beyond
		sym.Assume(code > uint32(2*k+32-12) && code < uint32(2*k+40))
	}
	mapsCutAt(in, u, v, out, first, code)
	sym.Reach("done")
}

// C03Huge: a table of more than 64 KB, or a megabyte.
func C03Huge() {
	l := sym.Param("len", 70000)
	d := fill(l, 5)
	for _, at := range []int{0, 65535, 65536, l - 1} {
		d[at] = sym.U8("hole")
	}
	tag := tagOf(sym.Param("t", 1))
	f := newFnt([][]byte{simpleGlyph(10, 1), nil}, 1, false)
	f.add(tag, d)
	b := mustWrite(mustParse(f.bytes()))
	o := wellFormed(b)
	same(o.tab(tag), d, "content kept")
	if l < 100000 {
		accepted(b)
	}
	sym.Reach("done")
}

// C08Far: glyph arrays that are far from their segment.
func C08Far() {
	n := 8
	k := sym.Param("k", 16500)
	gids := make([]uint16, k)
	for _, i := range []int{0, 16381, 16382, 16383, 16384, k - 1} {
		gids[i] = symGid(n)
	}
	at := []int{0, 16381, 16382, 16383, k - 1}[sym.Choose("at", 5)]
	sub := fmt4(0, []seg{{0x41, 0x41, 0, uint16(4 + 2*at)}, {0xFFFF, 0xFFFF, 1, 0}}, gids)
	f := plain(n)
	f.add("cmap", cmapTab([]csub{{3, 1, sub}}))
	u := mustParse(f.bytes())
	sym.Assert(uint16(u.GetCmap(3, 1)['A']) == gids[at], "character mapped through the glyph array")
	sym.Reach("done")
}

// C09Empty: maps of nothing are kept.
func C09Empty() {
	f := plain(5)
	var a [256]byte
	a[65] = byte(symGid(5))
	f.add("cmap", cmapTab([]csub{
		{0, 3, fmt0(0, make([]byte, 256))},
		{0, 4, fmt12(0, nil)},
		{1, 0, fmt0(0, a[:])},
		{1, 1, fmt6(0, 65, nil)},
		{3, 0, fmt4(0, []seg{{0xFFFF, 0xFFFF, 1, 0}}, nil)},
		{3, 1, fmt4(0, []seg{{65, 66, 0xFFC0, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)},
		{3, 2, fmt6(0, 0, []uint16{0, 0})},
		{3, 10, fmt4(0, nil, nil)},
	}))
	in := open(f.bytes())
	mapsKept(in, reopen(mustWrite(mustParse(in.b))))
	sym.Reach("done")
}

// C09Groups: more groups than 16 bits count.
func C09Groups() {
	k := sym.Param("k", 65540)
	gr := make([]grp, k)
	for i := range gr {
		gr[i] = grp{uint32(2 * i), uint32(2 * i), uint32(i % 5)}
	}
	f := plain(5)
	f.add("cmap", cmapTab([]csub{{3, 10, fmt12(0, gr)}, {3, 1, fmt6(0, 65, []uint16{1, 2})}}))
	in := open(f.bytes())
	out := reopen(mustWrite(mustParse(in.b)))
	a, _ := cmapRefs(in.tab("cmap"))
	b, ok := cmapRefs(out.tab("cmap"))
	sym.Assert(ok && len(a) == 2 && len(b) == 2, "both maps there")
	for i := range a {
		same(a[i].sub[4:], b[i].sub[4:], "map kept")
	}
	sym.Reach("done")
}

// C02Tag: a table of any tag.
func C02Tag() {
	f := shape(2)
	f.add("AAAA", []byte{1, 2, 3, 4, 5})
	b := f.bytes()
	r := recOff(b, "AAAA")
	copy(b[r:r+4], sym.Bytes("tag", 4))
	sym.Assume(b[r] != 'h' && b[r] != 'm' && b[r] != 'l' && b[r] != 'g')
	if sym.Param("what", 0) == 0 {
		copy(b[r+4:r+8], sym.Bytes("sum", 4))
	} else {
		b[int(get32(b, r+8))+4] = sym.U8("data")
	}
	fixAdj(b)
	checkVerdict(b)
}

// C02Overlap: entries that share their data, wholly or in part.
func C02Overlap() {
	f := shape(2)
	f.add("AAAA", []byte{1, 2, 3, 4, 5, 6, 7, 8})
	f.add("BBBB", []byte{1, 2, 3, 4, 5, 6, 7, 8})
	b := f.bytes()
	r, q := recOff(b, "AAAA"), recOff(b, "BBBB")
	o := get32(b, r+8)
	d := sym.Choose("shift", 5)
	set32(b, q+8, o+uint32(d))
	l := sym.Choose("len", 5)
	set32(b, q+12, uint32(l))
	if l > 0 || sym.Param("any", 0) == 1 {
		set32(b, q+4, sum32(b[int(o)+d:int(o)+d+l]))
	} else {
		set32(b, q+4, 0)
	}
	x := sym.U8("xor")
	b[q+7] ^= x
	fixAdj(b)
	checkVerdict(b)
}

// C17Tag: a table the library does not know, of any tag, is without effect on the output.
func C17Tag() {
	f := shape(sym.Param("shape", 2))
	plainOut := mustWrite(mustParse(f.bytes()))
	f.add("AAAA", sym.Bytes("data", sym.Param("len", 5)))
	b := f.bytes()
	r := recOff(b, "AAAA")
	t := sym.Bytes("tag", 4)
	copy(b[r:r+4], t)
	for _, k := range []string{"cvt", "fpgm", "prep", "name", "OS/2", "post", "cmap", "head", "maxp", "hhea", "hmtx", "loca", "glyf"} {
		sym.Assume(t[0] != k[0] || t[1] != k[1])
		sym.Assume(t[0] > ' ' && t[0] < 0x7F)
	}
	u := mustParse(b)
	same(plainOut, mustWrite(u), "unknown tables do not change the output")
	sym.Reach("done")
}

// C07Prefix: long strings of one length that differ at one place.
func C07Prefix() {
	l := sym.Param("len", 100)
	a, c := fill(l, 3), fill(l, 3)
	at := []int{0, 15, 16, 31, 32, 63, 64, l - 2, l - 1}[sym.Choose("at", 9)]
	a[at] = sym.U8("x")
	c[at] = sym.U8("y")
	pid := uint16(sym.Param("pid", 1))
	f := newFnt([][]byte{nil, nil}, 1, false)
	f.add("name", nameTab([]nrec{{pid, 0, 0, 1, a}, {pid, 0, 0, 2, c}, {pid, 0, 0, 3, a}}, sym.Param("format", 0), nil))
	in := open(f.bytes())
	out := reopen(mustWrite(mustParse(in.b)))
	namesKept(in.tab("name"), out.tab("name"))
	sym.Reach("done")
}

// C20Wide: identifiers beyond 16 bits and negative ones name nothing.
func C20Wide() {
	f := namesFont(someRecs(3), 0)
	u := mustParse(f.bytes())
	id := sym.Int("id")
	sym.Assume(id < 0 || id > 0xFFFF)
	sym.Assert(u.GetNameByID(id) == "", "no name carries the identifier")
	sym.Reach("done")
}

// C24History: what a path held before has no influence.
func C24History() {
	p := sym.Path("a.ttf")
	f := shape(sym.Param("shape", 2))
	f.add("prep", []byte{1, 2, 3, sym.U8("a")})
	b := f.bytes()
	g := shape(sym.Param("shape", 2))
	g.add("prep", []byte{1, 2, 3, sym.U8("b")})
	c := g.bytes()
	read := func(want []byte) {
		v, err := unitype.ParseFile(p)
		sym.Assert(err == nil && v != nil, "parsed")
		same(mustWrite(mustParse(want)), mustWrite(v), "font of the file as it is")
		sym.Assert(unitype.ValidateFile(p) == nil, "valid")
	}
	sym.PutFile(p, b)
	read(b)
	sym.PutFile(p, c)
	read(c)
	// an invalid one of the same size
	d := append([]byte(nil), c...)
	r := recOff(d, "prep")
	x := sym.U8("xor")
	sym.Assume(x != 0)
	d[int(get32(d, r+8))] ^= x
	sym.PutFile(p, d)
	sym.Assert(unitype.ValidateFile(p) != nil, "not valid any more")
	// written over by fonts of the same size, through one object and another
	u, v := mustParse(b), mustParse(c)
	for _, w := range []*unitype.Font{u, v, u} {
		sym.Assert(w.WriteFile(p) == nil, "written")
		e, ok := sym.GetFile(p)
		sym.Assert(ok, "there")
		same(mustWrite(w), e, "file has the bytes of the in-memory output")
	}
	// parsed from the path it is written to
	w, err := unitype.ParseFile(p)
	sym.Assert(err == nil, "parsed")
	want := mustWrite(w)
	sym.Assert(w.WriteFile(p) == nil, "written in place")
	e, _ := sym.GetFile(p)
	same(want, e, "file has the bytes of the in-memory output")
	s, err := w.SubsetFirst(1)
	sym.Assert(err == nil && s.WriteFile(p) == nil, "subset written in place")
	e, _ = sym.GetFile(p)
	same(mustWrite(s), e, "file has the bytes of the in-memory output")
	sym.Assert(unitype.ValidateFile(p) == nil, "valid")
	sym.Reach("done")
}

// C24Size: a file of more than a megabyte.
func C24Size() {
	f := shape(2)
	d := make([]byte, sym.Param("len", 1<<20))
	d[len(d)-1] = sym.U8("last")
	f.add("fpgm", d)
	b := f.bytes()
	p := sym.Path("a.ttf")
	sym.PutFile(p, b)
	u, err := unitype.ParseFile(p)
	sym.Assert(err == nil && u != nil, "parsed")
	q := sym.Path("b.ttf")
	sym.Assert(u.WriteFile(q) == nil, "written")
	e, _ := sym.GetFile(q)
	same(mustWrite(u), e, "file has the bytes of the in-memory output")
	sym.Assert(sum32(e) == 0xB1B0AFBA, "adjustment right")
	sym.Reach("done")
}

// C03Equal: tables that may have the same content, or different contents with the same sum.
func C03Equal() {
	n := sym.Param("len", 8)
	f := newFnt([][]byte{append(simpleGlyph(10, 1), sym.Bytes("glyph", 2)...), nil}, 1, sym.Param("long", 0) == 1)
	var d [][]byte
	for _, t := range []string{"cvt", "fpgm", "prep"} {
		x := sym.Bytes(t, n)
		if sym.Param("glyf", 0) == 1 {
			x = append(simpleGlyph(10, 1), sym.Bytes(t, 2)...)
		}
		d = append(d, x)
		f.add(t, x)
	}
	b := mustWrite(mustParse(f.bytes()))
	o := wellFormed(b)
	for i, t := range []string{"cvt", "fpgm", "prep"} {
		sym.Assert(o.has(t), "still there")
		same(o.tab(t), d[i], "content kept")
	}
	accepted(b)
	sym.Reach("done")
}
