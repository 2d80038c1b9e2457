package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// well is a font that follows the definition of every table the library reads, with arbitrary
// values where the definition leaves them free.
func well() *fnt {
	f := shape(sym.Param("shape", 0))
	n := f.n
	switch sym.Param("what", 0) {
	case 1: // header tables
		h := sym.Bytes("head", 54)
		copy(h[0:4], f.head[0:4])
		copy(h[12:16], f.head[12:16])
		copy(h[50:54], f.head[50:54])
		f.head = h
	case 2:
		h := sym.Bytes("hhea", 36)
		copy(h[0:4], f.hhea[0:4])
		copy(h[32:36], f.hhea[32:36])
		f.hhea = h
		m := sym.Bytes("maxp", 32)
		copy(m[0:6], f.maxp[0:6])
		f.maxp = m
	case 3: // metrics
		f.hmtx = sym.Bytes("hmtx", len(f.hmtx))
	case 4: // OS/2
		v := sym.Choose("version", 6)
		o := sym.Bytes("os2", os2Len(v))
		set16(o, 0, uint16(v))
		f.set("OS/2", o)
	case 5: // names of glyphs
		v := sym.Choose("version", 4)
		p := postHead([]uint32{0x00020000, 0x00025000, 0x00030000, 0x00040000}[v])
		copy(p[4:32], sym.Bytes("post", 28))
		switch v {
		case 0:
			p = put16(p, uint16(n))
			var most uint16
			for i := 0; i < n; i++ {
				x := uint16(i)
				switch i {
				case 0:
					x = sym.U16("index")
					sym.Assume(x < 260)
				case 1:
					x = []uint16{1, 0, 258, 260}[sym.Choose("second", 4)]
				}
				if x > most {
					most = x
				}
				p = put16(p, x)
			}
			for i := uint16(258); i <= most; i++ {
				p = append(append(p, 3), sym.Bytes("name", 3)...)
			}
			if sym.Bool("empty") { // a name that is not used
				p = append(p, 0)
			}
		case 1:
			p = put16(p, uint16(n))
			for i := 0; i < n; i++ {
				x := byte(5)
				if i == 1 {
					x = sym.U8("displacement")
					sym.Assume(sym.Or(x < 100, x == 255))
				}
				p = append(p, x)
			}
		}
		f.set("post", p)
	case 6: // names
		var rs []nrec
		k := sym.Choose("records", 4)
		for i := 0; i < k; i++ {
			rs = append(rs, []nrec{{1, 0, 0x409, sym.U16("i"), []byte("ab")}, {sym.U16("p"), sym.U16("e"), sym.U16("l"), 5, []byte{0, 'b'}}, {3, 1, sym.U16("l"), 0xFFFF, nil}}[i])
		}
		var langs [][]byte
		form := sym.Choose("format", 2)
		if form == 1 && sym.Bool("langs") {
			langs = [][]byte{{0, 101, 0, 110}, nil}
		}
		f.set("name", nameTab(rs, form, langs))
	case 7: // maps
		f = compFont(2, false)
		f.add("cmap", symMaps(sym.Param("maps", 0)))
	case 8: // segments
		f.drop("cmap")
		segs := symSegs(sym.Param("k", 2), 2, 0)
		for _, s := range segs {
			sym.Assume(s.end < 0xFFFF)
			for c := s.start; ; c++ { // glyphs that are there
				sym.Assume(c+s.delta < uint16(n))
				if c == s.end {
					break
				}
			}
		}
		pid := []uint16{0, 3, 3}[sym.Choose("platform", 3)]
		f.add("cmap", cmapTab([]csub{{pid, []uint16{3, 3, 1, 1}[pid], fmt4(sym.U16("lang"), append(segs, seg{0xFFFF, 0xFFFF, 1, 0}), nil)}}))
	case 9: // groups
		f.drop("cmap")
		a, b := sym.U32("a"), sym.U32("b")
		sym.Assume(sym.And(a < b, b <= 0x10FFFE))
		x, y := sym.U16("ga"), sym.U16("gb")
		sym.Assume(sym.And(int(x) < n, int(y) < n-1))
		f.add("cmap", cmapTab([]csub{{0, 4, fmt12(0, nil)}, {3, 10, fmt12(sym.U32("lang"), []grp{{a, a, uint32(x)}, {b, b + 1, uint32(y)}})}}))
	case 10: // formats that are not read
		f.drop("cmap")
		form := []uint16{2, 8, 10, 13, 14, 1, 3, 5, 7}[sym.Choose("format", 9)]
		u := append(put16(nil, form), sym.Bytes("sub", 20)...)
		f.add("cmap", cmapTab([]csub{{0, 5, u}, {3, 1, fmt4(0, []seg{{0x41, 0x42, uint16(0x10000 - 0x41), 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)}, {sym.U16("p") | 8, sym.U16("e"), u}}))
	case 11: // composites
		f = compFont(sym.Param("kind", 0), sym.Param("long", 0) == 1)
	case 12: // other tables
		for i, k := 0, sym.Param("more", 3); i < k; i++ {
			t := string([]byte{'z', byte('A' + i/26), byte('a' + i%26), ' '})
			if i == 0 && k < 20 {
				b := sym.Bytes("tag", 4)
				for i, c := range b {
					sym.Assume(c >= 0x20 && c < 0x7F && (i > 0 || c > 0x60))
				}
				for _, t := range []string{"cvt", "fpgm", "prep", "hhea", "hmtx", "head", "maxp", "loca", "glyf", "name", "post", "cmap"} {
					sym.Assume(!sym.EqStr(trim(string(b)), t))
				}
				t = string(b)
			}
			f.add(t, sym.Bytes("data", i%9))
		}
	case 13: // outlines
		gl := [][]byte{sym.Bytes("outline", 12), nil, sym.Bytes("outline", 10), simpleGlyph(13, 1)}
		for _, i := range []int{0, 2} { // no composites
			sym.Assume(gl[i][0] < 0x80)
		}
		f = newFnt(gl, sym.Param("metrics", 1), sym.Param("long", 0) == 1)
	case 14: // hinting
		for i, t := range []string{"cvt", "fpgm", "prep"} {
			f.drop(t)
			if sym.Bool("have") {
				f.add(t, sym.Bytes(t, []int{6, 3, 1}[i]))
			}
		}
	case 16: // long hinting tables and names
		k := sym.Param("len", 1000)
		for _, t := range []string{"cvt", "fpgm", "prep"} {
			f.drop(t)
			d := make([]byte, k&^1)
			copy(d, sym.Bytes(t, 2))
			f.add(t, d)
		}
		f.set("name", nameTab([]nrec{{3, 1, 0x409, 1, make([]byte, k&^1)}, {1, 0, 0, 4, []byte("a")}}, 0, nil))
	case 17: // many components, and deep ones
		k := sym.Param("len", 9)
		refs := make([]uint16, k)
		gl := [][]byte{simpleGlyph(12, 1), nil}
		for i := range refs {
			refs[i] = uint16(i % 2)
		}
		gl = append(gl, compGlyph(refs...))
		for i := 0; i < k; i++ {
			gl = append(gl, compGlyph(uint16(2+i)))
		}
		f = newFnt(gl, 1, sym.Param("long", 0) == 1)
	case 15: // nothing optional
		k := sym.Choose("without", 17)
		for i, t := range []string{"cvt", "fpgm", "prep", "name", "post", "OS/2", "cmap", "DSIG"} {
			if k == 16 || k == i || k > 7 && k != 8+i {
				f.drop(t)
			}
		}
	}
	return f
}

// C28Use: everything succeeds with such a font.
func C28Use() {
	f := well()
	b := f.bytes()
	if sym.Param("true", 0) == 1 {
		copy(b, "true")
		p := recOff(b, "head") + 8
		h := int(get32(b, p))
		set32(b, h+8, 0)
		set32(b, h+8, 0xB1B0AFBA-sum32(b))
	}
	u, err := parse(b)
	sym.Assert(err == nil && u != nil, "parsed")
	sym.Assert(unitype.ValidateBytes(b) == nil, "valid")
	n := f.n
	switch sym.Param("few", 0) {
	case 2:
		use(u, n, 0)
		use(u, n, 8)
	case 3:
		use(u, n, 0)
	case 1:
		use(u, n, sym.Choose("use", 4))
	default:
		use(u, n, sym.Choose("use", 8))
	}
	sym.Reach("done")
}

func use(u *unitype.Font, n, k int) {
	some := func() unitype.GlyphIndex {
		if n > 300 {
			return unitype.GlyphIndex([]int{0, 1, 255, 256, 300, n - 1}[sym.Choose("glyph", 6)])
		}
		g := sym.U16("glyph")
		sym.Assume(int(g) < n)
		return unitype.GlyphIndex(g)
	}
	done := func(v *unitype.Font, err error) {
		sym.Assert(err == nil && v != nil, "subset made")
		x, err := write(v)
		sym.Assert(err == nil, "subset written")
		sym.Assert(unitype.ValidateBytes(x) == nil, "subset valid")
		_, err = parse(x)
		sym.Assert(err == nil, "subset read again")
	}
	switch k {
	case 0:
		done(u, nil)
	case 1:
		v, err := u.SubsetFirst(int(some()))
		done(v, err)
	case 2:
		v, err := u.SubsetKeepIndices([]unitype.GlyphIndex{some()})
		done(v, err)
	case 3:
		v, err := u.SubsetKeepRunes([]rune{'A', rune(sym.U32("rune"))})
		done(v, err)
	case 4:
		sym.Assert(u.Optimize() == nil, "optimized")
		done(u, nil)
	case 5:
		sym.Assert(u.PruneTables("cmap", "post", "name", "DSIG") == nil, "pruned")
		done(u, nil)
	case 6:
		g := some()
		_, _, err := u.GetGlyphDataOffset(g)
		sym.Assert(err == nil, "position of a glyph")
	case 8:
		v, err := u.SubsetFirst(n - 1)
		done(v, err)
		for _, g := range []int{1, n - 1} {
			v, err = u.SubsetKeepIndices([]unitype.GlyphIndex{unitype.GlyphIndex(g)})
			done(v, err)
		}
	case 7:
		v, err := u.SubsetKeepIndices([]unitype.GlyphIndex{some(), unitype.GlyphIndex(n) - 1})
		sym.Assert(err == nil && v != nil, "subset made")
		w, err := v.SubsetFirst(n - 1)
		sym.Assert(err == nil && w != nil, "subset of the subset made")
		sym.Assert(w.Optimize() == nil, "subset optimized")
		done(w, nil)
	}
}

// C28Large: so does everything with a large font.
func C28Large() {
	n := sym.Param("n", 33000)
	b := largeFont(n, sym.Param("long", 0) == 1, sym.Param("k", 1)).bytes()
	u, err := parse(b)
	sym.Assert(err == nil, "parsed")
	sym.Assert(unitype.ValidateBytes(b) == nil, "valid")
	use(u, n, sym.Param("use", 0))
	sym.Reach("done")
}
