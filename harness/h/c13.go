package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// firstRight: v is the font of file in (as written without truncation) cut to k glyphs.
func firstRight(in *file, v *unitype.Font, k int) *file {
	out := reopen(mustWrite(v))
	sym.Assert(out.numGlyphs() == k, "as many glyphs as asked for")
	for g := 0; g < k; g++ {
		if in.has("glyf") {
			want, ok := in.glyph(g)
			got, ok2 := out.glyph(g)
			sym.Assert(ok && ok2, "glyph readable")
			same(want, got, "outline unchanged")
		}
		if in.has("hmtx") {
			aw, lsb, ok := in.metric(g)
			aw2, lsb2, ok2 := out.metric(g)
			sym.Assert(ok, "metrics readable")
			sym.Assert(ok2, "metrics of the subset readable")
			sym.Assert(sym.And(aw == aw2, lsb == lsb2), "metrics unchanged")
		}
	}
	if in.has("hmtx") {
		nh := sym.Concrete(int(get16(out.tab("hhea"), 34)))
		if k == in.numGlyphs() && int(get16(in.tab("hhea"), 34)) > k {
			return out // unchanged, with more metrics than glyphs as before
		}
		sym.Assert(nh <= k && len(out.tab("hmtx")) == 4*nh+2*(k-nh), "metrics of exactly the kept glyphs")
	}
	sym.Assert(in.has("glyf") == out.has("glyf"), "outlines there as before")
	return out
}

// mapsCut: the maps of v and of the written file are those of the input, restricted to the
// first k glyphs.
func mapsCut(in *file, u, v *unitype.Font, out *file, k int) {
	mapsCutAt(in, u, v, out, k, sym.U32("code"))
}

func mapsCutAt(in *file, u, v *unitype.Font, out *file, k int, code uint32) {
	for _, e := range [][2]int{{0, 3}, {0, 4}, {1, 0}, {3, 0}, {3, 1}, {3, 10}} {
		m, w := u.GetCmap(e[0], e[1]), v.GetCmap(e[0], e[1])
		sym.Assert((m == nil) == (w == nil), "same encodings")
		if m == nil {
			continue
		}
		g := int(m[rune(code)])
		want := sym.IteInt(g < k, g, 0)
		sym.Assert(int(w[rune(code)]) == want, "character maps to the same kept glyph, or to none")
	}
	a, ok := cmapRefs(in.tab("cmap"))
	sym.Assert(ok, "input map readable")
	b, ok2 := cmapRefs(out.tab("cmap"))
	sym.Assert(ok2, "written map readable")
	sym.Assert(len(a) == len(b), "as many subtables as before")
	for i := range a {
		sym.Assert(a[i].pid == b[i].pid && a[i].eid == b[i].eid, "same encoding")
		g, ok := a[i].lookup(code)
		sym.Assert(ok, "input subtable well-formed")
		sym.Assert(sound(b[i]), "written subtable can be searched")
		if a[i].format == 4 && code == 0xFFFF {
			continue // the end marker
		}
		want := g
		if int(g) >= k {
			want = 0
		}
		g2, ok2 := b[i].lookup(code)
		sym.Assert(ok2, "written subtable well-formed")
		sym.Assert(g2 == want, "code maps to the same kept glyph, or to none, in the written file")
	}
}

// C13Maps: every map format, arbitrary number of glyphs to keep.
func C13Maps() {
	f := compFont(4, sym.Param("long", 0) == 1)
	if sym.Param("sym", 0) == 1 {
		f.add("cmap", symMaps(sym.Param("maps", 0)))
	} else {
		f.add("cmap", maps(sym.Param("maps", 0)))
	}
	in := open(f.bytes())
	u := mustParse(in.b)
	k := sym.Int("first")
	sym.Assume(k >= 0)
	v, err := u.SubsetFirst(k)
	sym.Assert(err == nil && v != nil, "truncating succeeds")
	if k >= 6 {
		k = 6
		same(mustWrite(u), mustWrite(v), "a font with at most that many glyphs is unchanged")
	}
	k = sym.Concrete(k)
	if k == 0 {
		noMapBeyond0(v)
		return
	}
	out := firstRight(in, v, k)
	mapsCut(in, u, v, out, k)
	sym.Reach("done")
}

// noMapBeyond0: an empty font maps nothing.
func noMapBeyond0(v *unitype.Font) {
	code := sym.U32("code")
	for _, e := range [][2]int{{0, 3}, {0, 4}, {1, 0}, {3, 0}, {3, 1}, {3, 10}} {
		_, has := v.GetCmap(e[0], e[1])[rune(code)]
		sym.Assert(!has, "no character maps to a removed glyph")
	}
}

// C13Glyphs: arbitrary data, metrics and layouts.
func C13Glyphs() {
	f := shape(sym.Param("shape", 0))
	if sym.Param("metrics", 0) == 1 {
		symMetrics(f)
	}
	if f.glyf != nil && len(f.glyf) > 12 {
		copy(f.glyf[10:12], sym.Bytes("data", 2))
	}
	in := open(f.bytes())
	u := mustParse(in.b)
	k := sym.Int("first")
	sym.Assume(k > 0)
	v, err := u.SubsetFirst(k)
	sym.Assert(err == nil && v != nil, "truncating succeeds")
	if k >= f.n {
		k = f.n
		same(mustWrite(u), mustWrite(v), "a font with at most that many glyphs is unchanged")
	}
	k = sym.Concrete(k)
	firstRight(in, v, k)
	if k < f.n {
		_, _, err = v.GetGlyphDataOffset(unitype.GlyphIndex(k))
		sym.Assert(err != nil, "removed glyph is gone")
	}
	if in.has("cmap") {
		mapsCutNoUnsupported(in, u, v)
	}
	sym.Reach("done")
}

func mapsCutNoUnsupported(in *file, u, v *unitype.Font) {
	refs, ok := cmapRefs(in.tab("cmap"))
	sym.Assert(ok, "input map readable")
	for _, r := range refs {
		if supported(r.format) {
			sym.Assert(v.GetCmap(r.pid, r.eid) != nil, "map still there")
		}
	}
}

// C13Many: more than 256 glyphs.
func C13Many() {
	n := 300
	gl := make([][]byte, n)
	for i := range gl {
		gl[i] = []byte{0, 0, byte(i), byte(i >> 8), 0, 0, 0, 0, 0, 0}
	}
	f := newFnt(gl, sym.Param("k", 280), sym.Param("long", 0) == 1)
	var arr []uint16
	for i := 0; i < n; i++ {
		arr = append(arr, uint16((i*7)%n))
	}
	f.add("cmap", cmapTab([]csub{
		{0, 3, fmt6(0, 0x100, arr)},
		{3, 1, fmt4(0, []seg{{0x1000, 0x1000 + 299, 0xF000, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)},
		{3, 10, fmt12(0, []grp{{0x10000, 0x10000 + 99, 200}, {0x20000, 0x20000 + 255, 0}})},
	}))
	in := open(f.bytes())
	u := mustParse(in.b)
	ks := []int{1, 255, 256, 257, 299}
	k := ks[sym.Choose("first", len(ks))]
	v, err := u.SubsetFirst(k)
	sym.Assert(err == nil && v != nil, "truncating succeeds")
	out := firstRight(in, v, k)
	mapsCut(in, u, v, out, k)
	sym.Reach("done")
}

// C13Run: runs of consecutive characters and glyphs about as long as a byte counts.
func C13Run() {
	n := 300
	f := newFnt(make([][]byte, n), 1, false)
	run := uint32(sym.Param("run", 256))
	g := uint32(symGid(n))
	f.add("cmap", cmapTab([]csub{
		{3, 10, fmt12(0, []grp{{0x100, 0x100 + run - 1, 3}, {0x100 + run, 0x100 + run, g}, {0x10100, 0x10102, 5}})},
	}))
	in := open(f.bytes())
	u := mustParse(in.b)
	k := []int{2, 260, 299}[sym.Choose("first", 3)]
	v, err := u.SubsetFirst(k)
	sym.Assert(err == nil && v != nil, "truncating succeeds")
	out := reopen(mustWrite(v))
	sym.Assert(out.numGlyphs() == k, "as many glyphs as asked for")
	mapsCut(in, u, v, out, k)
	sym.Reach("done")
}

// C13Planes: characters of several planes, in maps of one and of several groups.
func C13Planes() {
	f := shape(9)
	in := open(f.bytes())
	u := mustParse(in.b)
	k := sym.Range("first", 1, 8)
	v, err := u.SubsetFirst(k)
	sym.Assert(err == nil && v != nil, "truncating succeeds")
	k = sym.Concrete(k)
	if k >= f.n {
		k = f.n
		same(mustWrite(u), mustWrite(v), "a font with at most that many glyphs is unchanged")
	}
	out := firstRight(in, v, k)
	mapsCut(in, u, v, out, k)
	sym.Reach("done")
}

// C13Last: the characters right before the end marker.
func C13Last() {
	n := 7
	f := newFnt(make([][]byte, n), 1, false)
	from := uint16(0xFFFF - 1 - sym.Choose("from", 3))
	to := from + uint16(sym.Choose("width", 3))
	sym.Assume(to >= from)
	segs := []seg{{0x41, 0x42, 0xFFC0, 0}, {from, to, uint16(1+sym.Choose("gid", 3)) - from, 0}}
	if to < 0xFFFF {
		segs = append(segs, seg{0xFFFF, 0xFFFF, 1, 0})
	}
	f.add("cmap", cmapTab([]csub{{3, 1, fmt4(0, segs, nil)}}))
	in := open(f.bytes())
	u := mustParse(in.b)
	k := sym.Range("first", 1, 7)
	v, err := u.SubsetFirst(k)
	sym.Assert(err == nil && v != nil, "truncating succeeds")
	k = sym.Concrete(k)
	out := firstRight(in, v, k)
	mapsCut(in, u, v, out, k)
	sym.Reach("done")
}
