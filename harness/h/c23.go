package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

var dropTags = []string{"hmtx", "glyf", "loca", "cvt", "fpgm", "prep", "name", "OS/2", "post", "cmap", "hhea"}

func anyGids(k int) []unitype.GlyphIndex {
	g := func() unitype.GlyphIndex { return unitype.GlyphIndex(sym.U16("gid")) }
	switch k {
	case 1:
		return []unitype.GlyphIndex{}
	case 2:
		return []unitype.GlyphIndex{g()}
	case 3:
		if sym.Param("args", 0) == 1 {
			return []unitype.GlyphIndex{g(), 65535, g()}
		}
		return []unitype.GlyphIndex{1, 65535, 0, 1}
	}
	return nil
}

func anyRunes(k int) []rune {
	r := func() rune { return rune(sym.I32("rune")) }
	switch k {
	case 1:
		return []rune{}
	case 2:
		return []rune{r()}
	case 3:
		if sym.Param("args", 0) == 1 {
			return []rune{-1, r(), 'A', r()}
		}
		return []rune{-1, 0x7FFFFFFF, 'A', 'A', 0x1F600}
	}
	return nil
}

var anyNames = []string{"", "trec", "head", "os2", "hhea", "hmtx", "cmap", "loca", "name", "glyf", "post", "OS/2", "maxp", "cmap\x00", "x"}

const nAny = 12

// anyOp runs one operation with arbitrary arguments; the result is a font to go on with.
func anyOp(u *unitype.Font, op int) *unitype.Font {
	sub := func(v *unitype.Font, err error) *unitype.Font {
		sym.Assert((v == nil) == (err != nil), "a font or an error")
		if err != nil {
			return u
		}
		return v
	}
	switch op {
	case 0:
		return sub(u.SubsetFirst(sym.Int("first")))
	case 1:
		return sub(u.SubsetKeepIndices(anyGids(sym.Choose("list", 4))))
	case 2:
		return sub(u.SubsetKeepRunes(anyRunes(sym.Choose("list", 4))))
	case 3:
		rs := anyRunes(sym.Choose("list", 4))
		sym.Assert(len(u.LookupRunes(rs)) == len(rs), "one glyph per character")
	case 4:
		_ = u.GetCmap(sym.Int("platform"), sym.Int("encoding"))[rune(sym.I32("rune"))]
	case 5:
		u.GetGlyphDataOffset(unitype.GlyphIndex(sym.U16("gid")))
	case 6:
		u.GetNameByID(sym.Int("id"))
		u.GetNameRecords()
	case 7:
		u.TableInfo(anyNames[sym.Choose("table", len(anyNames))])
		_ = u.String()
	case 8:
		switch k := sym.Choose("prune", 10); k {
		case 8:
			u.PruneTables()
		case 9:
			u.PruneTables("", "cmap", "head", "cmap", "glyf")
		default:
			u.PruneTables(pruneNames(k)...)
		}
	case 9:
		u.Optimize()
	case 10:
		b, err := write(u)
		if err == nil {
			unitype.ValidateBytes(b)
		}
	case 11:
		v, m, err := u.Subset(anyGids(sym.Choose("list", 3)))
		sym.Assert(err != nil || v != nil, "a font or an error")
		_ = m
	}
	return u
}

// anyOps: one or two operations, then writing and reading what came out.
func anyOps(u *unitype.Font) {
	v := anyOp(u, sym.Param("op", 0))
	if op := sym.Param("op2", -1); op >= 0 {
		v = anyOp(v, op)
	}
	if op := sym.Param("op3", -1); op >= 0 {
		v = anyOp(v, op)
	}
	b, err := write(v)
	if err == nil {
		w, err := parse(b)
		if err == nil && w != nil {
			w.GetGlyphDataOffset(0)
			w.LookupRunes([]rune{'A'})
		}
	}
	if v != u {
		write(u)
	}
	sym.Reach("done")
}

// C23Present: tables missing.
func C23Present() {
	f := rich(sym.Param("long", 0) == 1)
	if sym.Param("all", 0) == 1 {
		for _, t := range dropTags {
			if sym.Choose("drop "+t, 2) == 1 {
				f.drop(t)
			}
		}
	} else {
		i := sym.Choose("first", len(dropTags)+1)
		j := sym.Choose("second", len(dropTags)+1)
		if j < i {
			return
		}
		for _, k := range []int{i, j} {
			if k < len(dropTags) {
				f.drop(dropTags[k])
			}
		}
		if sym.Param("only", 0) == 1 {
			// the two are the only optional tables left instead
			r := rich(sym.Param("long", 0) == 1)
			for k, t := range dropTags {
				if k != i && k != j {
					r.drop(t)
				}
			}
			f = r
		}
	}
	u, err := parse(sfnt(f.tables()))
	if err != nil {
		return
	}
	anyOps(u)
}

// C23Shape: the standard fonts.
func C23Shape() {
	anyOps(mustParse(shape(sym.Param("shape", 0)).bytes()))
}

// C23Loca: accepted fonts with an arbitrary index to location table.
func C23Loca() {
	n := 3
	long := sym.Param("long", 0) == 1
	f := newFnt([][]byte{nil, nil, nil}, 2, long)
	max := sym.Param("max", 16)
	f.glyf = make([]byte, max-sym.Param("over", 0))
	for i := range f.glyf {
		f.glyf[i] = 0xFF
	}
	if sym.Param("none", 0) == 1 {
		f.glyf = nil
	}
	var l []byte
	for i := 0; i <= n; i++ {
		if long {
			v := sym.U32("off")
			sym.Assume(v <= uint32(max))
			l = put32(l, v)
		} else {
			v := sym.U16("off")
			sym.Assume(v <= uint16(max/2))
			l = put16(l, v)
		}
	}
	f.loca = l
	u, err := parse(f.bytes())
	if err != nil {
		return
	}
	anyOps(u)
}

// C23Counts: accepted fonts whose counts are arbitrary and disagree.
func C23Counts() {
	f := small(tableNames[sym.Param("t", 0)])
	if sym.Param("maxp", 0) == 1 {
		copy(f.maxp[4:6], sym.Bytes("maxp", 2))
		if m := sym.Param("few", 0); m > 0 {
			sym.Assume(int(get16(f.maxp, 4)) < m)
		}
	}
	if sym.Param("hhea", 0) == 1 {
		copy(f.hhea[34:36], sym.Bytes("hhea", 2))
	}
	if sym.Param("head", 0) == 1 {
		copy(f.head[50:52], sym.Bytes("head", 2))
	}
	u, err := parse(f.last(tableNames[sym.Param("end", 3)]))
	if err != nil {
		return
	}
	anyOps(u)
}

// C23Glyph: a glyph of arbitrary bytes.
func C23Glyph() {
	n := sym.Param("n", 16)
	g := sym.Bytes("glyph", n)
	if sym.Param("comp", 1) == 1 && n >= 2 {
		g[0], g[1] = 0xFF, 0xFF
	}
	f := newFnt([][]byte{simpleGlyph(10, 1), g, compGlyph(1), nil}, 4, true)
	u := mustParse(f.bytes())
	anyOps(u)
}

// C23Name: naming records with arbitrary contents.
func C23Name() {
	f := plain(2)
	n := sym.Param("n", 1)
	var rs []nrec
	for i := 0; i < n; i++ {
		rs = append(rs, nrec{sym.U16("p"), sym.U16("e"), sym.U16("l"), sym.U16("i"), []byte{0xD8, 0, 0x41}[:sym.Param("len", 3)]})
	}
	f.add("name", nameTab(rs, sym.Param("format", 0), nil))
	u, err := parse(f.bytes())
	if err != nil {
		return
	}
	anyOps(u)
}

// C23Post: PostScript tables of arbitrary versions and indices.
func C23Post() {
	f := plain(3)
	var p []byte
	if sym.Param("version", 0) == 1 {
		p = postTab2([]uint16{259, 258, 0}, []string{"ab", ""})
		copy(p, sym.Bytes("version", 4))
	} else {
		p = postTab2([]uint16{sym.U16("index"), 258, sym.U16("index")}, []string{"ab", ""})
		i, j := get16(p, 34), get16(p, 38)
		sym.Assume(sym.Or(i < 2, i > 255))
		sym.Assume(sym.Or(j < 2, j > 255))
	}
	f.add("post", p)
	u, err := parse(f.last("post"))
	if err != nil {
		return
	}
	anyOps(u)
}

// C23Cmap: character maps with arbitrary segments, as far as they are accepted.
func C23Cmap() {
	f := plain(3)
	var d []byte
	switch sym.Param("format", 4) {
	case 4:
		s := sym.U16("start")
		w := uint16(sym.Choose("width", 3))
		sym.Assume(s <= 0xFFF0)
		d = fmt4(0, []seg{{s, s + w, sym.U16("delta"), uint16(4 * sym.Choose("offset", 2))}, {0xFFFF, 0xFFFF, sym.U16("delta"), 0}}, []uint16{sym.U16("gid"), 1, 2})
	case 6:
		d = fmt6(0, sym.U16("first"), []uint16{sym.U16("gid"), sym.U16("gid")})
	case 12:
		s := sym.U32("start")
		d = fmt12(0, []grp{{s, s + uint32(sym.Choose("width", 3)), sym.U32("gid")}})
	case 0:
		a := make([]byte, 256)
		a['A'], a['z'], a[0], a[255] = sym.U8("gid"), sym.U8("gid"), sym.U8("gid"), sym.U8("gid")
		d = fmt0(0, a)
	}
	f.add("cmap", cmapTab([]csub{{uint16(sym.Param("pid", 3)), uint16(sym.Param("eid", 1)), d}, {1, 0, fmt6(0, 0x40, []uint16{1, 2})}}))
	u, err := parse(f.bytes())
	if err != nil {
		return
	}
	anyOps(u)
}
