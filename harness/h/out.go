package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// wellFormed is C03 stated over the bytes of an output.
func wellFormed(b []byte) *file {
	f := open(b)
	sym.Assert(f.ok, "the table directory lists as many tables as announced, each once and inside the file")
	n := len(f.tags)
	sr, es, rs := searchFields(n)
	sym.Assert(get16(b, 6) == sr && get16(b, 8) == es && get16(b, 10) == rs, "binary search fields follow from the table count")
	hdr := 12 + 16*n
	for i, t := range f.tags {
		o, l := f.tabs[t][0], f.tabs[t][1]
		sym.Assert(o >= hdr, "table "+t+" does not overlap the directory")
		for _, u := range f.tags[:i] {
			o2, l2 := f.tabs[u][0], f.tabs[u][1]
			sym.Assert(o+l <= o2 || o2+l2 <= o, "tables "+t+" and "+u+" do not overlap")
		}
		d := f.tab(t)
		if t == "head" {
			sym.Assert(l >= 54, "head table complete")
			d = append([]byte(nil), d...)
			set32(d, 8, 0)
		}
		sym.Assert(sum32(d) == get32(b, 12+16*i+4), "checksum of table "+t+" is right")
	}
	sym.Assert(f.has("head"), "head table written")
	z := append([]byte(nil), b...)
	ho := f.tabs["head"][0]
	set32(z, ho+8, 0)
	sym.Assert(get32(b, ho+8) == 0xB1B0AFBA-sum32(z), "whole-file checksum adjustment is right")
	return f
}

// accepted: the library validates and parses the output.
func accepted(b []byte) *unitype.Font {
	sym.Assert(unitype.ValidateBytes(b) == nil, "the written file passes validation")
	f, err := parse(b)
	sym.Assert(err == nil && f != nil, "the written file is parsed")
	return f
}

// shape is a font chosen by number, with concrete structure; between them they cover the
// optional tables, both index formats and every table version.
func shape(k int) *fnt {
	switch k {
	case 0:
		return rich(false)
	case 1:
		return rich(true)
	case 2: // only what is needed
		f := newFnt([][]byte{simpleGlyph(12, 1), nil, compGlyph(0)}, 1, false)
		return f
	case 3: // no outlines
		f := newFnt([][]byte{nil, nil, nil}, 2, true)
		f.glyf = nil
		f.add("cvt", []byte{1, 2})
		f.add("post", postHead(0x00030000))
		f.add("OS/2", os2Tab(0))
		return f
	case 4: // no metrics data, version 2.5 names, mac charmap
		f := newFnt([][]byte{simpleGlyph(10, 1), simpleGlyph(12, 2), nil, nil}, 4, false)
		f.hmtx = nil
		p := postHead(0x00025000)
		p = put16(p, 4)
		f.add("post", append(p, 0, 3, 0xFF, 0xFD))
		f.add("OS/2", os2Tab(1))
		f.add("cmap", cmapTab([]csub{{1, 0, fmt0(0, make([]byte, 256))}}))
		return f
	case 5: // format 1 names, version 5 OS/2, odd lengths, long index
		f := newFnt([][]byte{simpleGlyph(11, 1), simpleGlyph(13, 2), compGlyph(0, 3), simpleGlyph(10, 9)}, 2, true)
		f.add("name", nameTab([]nrec{{3, 1, 0x8000, 1, []byte{0, 'x'}}, {1, 0, 0, 2, []byte("odd")}}, 1, [][]byte{{0, 'e', 0, 'n'}}))
		f.add("OS/2", os2Tab(5))
		f.add("prep", []byte{9})
		f.add("fpgm", []byte{1, 2, 3, 4, 5, 6, 7})
		f.add("post", postTab2([]uint16{0, 1, 258, 257}, []string{"q"}))
		return f
	case 6: // duplicate and unsupported character maps
		f := newFnt([][]byte{simpleGlyph(10, 1), simpleGlyph(10, 2), simpleGlyph(10, 3)}, 3, false)
		u := []byte{0, 14, 0, 0, 0, 10, 0, 0, 0, 0}
		f.add("cmap", cmapTab([]csub{
			{0, 5, u},
			{1, 0, fmt6(0, 65, []uint16{1, 2})},
			{1, 0, fmt6(1, 66, []uint16{2, 1})},
			{3, 10, fmt12(3, []grp{{0x10000, 0x10001, 1}})},
		}))
		f.add("post", postHead(0x00010000))
		f.set("maxp", maxpTab(3))
		f.drop("post")
		return f
	case 7: // data before the first glyph and after the last, unsorted storage of tables
		f := newFnt([][]byte{simpleGlyph(12, 1), nil, simpleGlyph(14, 2)}, 2, false)
		f.glyf = append([]byte{0xEE, 0xEE, 0xEE, 0xEE}, f.glyf...)
		f.glyf = append(f.glyf, 0xDD, 0xDD)
		f.loca = locaTab([]int{4, 16, 16, 30}, false)
		f.add("DSIG", []byte{1, 2, 3, 4, 5})
		f.add("name", nameTab(nil, 0, nil))
		f.add("cmap", cmapTab(nil))
		return f
	}
	return wide(k)
}

// wide gives two more layouts.
func wide(k int) *fnt {
	switch k {
	case 8: // the 258 standard glyphs
		gl := make([][]byte, 258)
		for i := range gl {
			if i%64 == 1 {
				gl[i] = simpleGlyph(10, byte(i))
			}
		}
		gl[257] = compGlyph(65, 193)
		f := newFnt(gl, 2, false)
		f.add("post", postHead(0x00010000))
		f.add("prep", []byte{7, 8, 9})
		f.add("cmap", cmapTab([]csub{
			{1, 0, fmt6(0, 0x20, []uint16{3, 4, 257, 255, 256})},
			{3, 10, fmt12(0, []grp{{0x20, 0x22, 255}, {0xFFFD, 0xFFFD, 65}, {0x10020, 0x10021, 3}, {0x20020, 0x20020, 255}})},
		}))
		return f
	case 9: // no outlines, but characters; no names of glyphs
		f := newFnt([][]byte{nil, nil, nil, nil, nil}, 3, false)
		f.glyf = nil
		f.add("name", nameTab([]nrec{{3, 1, 0x409, 4, []byte{0, 'N'}}}, 0, nil))
		f.add("cmap", cmapTab([]csub{
			{0, 4, fmt12(0, []grp{{0x10020, 0x10021, 1}, {0x20020, 0x20021, 3}, {0x30020, 0x30020, 2}})},
			{3, 1, fmt4(0, []seg{{0x20, 0x22, 0, 6}, {0x41, 0x43, 0xFFC0, 0}, {0xFFFD, 0xFFFF, 4, 0}}, []uint16{4, 1, 2})},
		}))
		return f
	case 10: // everything empty
		f := newFnt([][]byte{nil, nil, nil}, 1, false)
		for _, t := range []string{"cvt", "fpgm", "prep"} {
			f.add(t, nil)
		}
		f.add("name", nameTab(nil, 1, nil))
		f.add("post", postHead(0x00030000))
		f.add("cmap", cmapTab([]csub{
			{0, 3, fmt4(0, nil, nil)},
			{0, 4, fmt12(0, nil)},
			{1, 0, fmt6(0, 0, nil)},
			{3, 0, fmt4(0, []seg{{0xFFFF, 0xFFFF, 1, 0}}, nil)},
			{3, 1, fmt4(0, nil, nil)},
			{3, 10, fmt12(0, nil)},
		}))
		return f
	case 11: // more metrics than glyphs, symbol characters, a table after the end of the names
		f := newFnt([][]byte{simpleGlyph(10, 1), compGlyph(2), simpleGlyph(12, 2)}, 5, false)
		f.add("post", append(postTab2([]uint16{0, 259, 258}, []string{"b", "a", "unused"}), 0, 0))
		f.add("name", append(nameTab([]nrec{{3, 0, 0x409, 1, []byte{0, 'S'}}, {0, 3, 0, 1, []byte{0, 'U'}}, {1, 0, 0, 1, []byte("M")}}, 0, nil), 1, 2, 3))
		f.add("cmap", cmapTab([]csub{{3, 0, fmt4(0, []seg{{0xF020, 0xF022, 0x0FE0, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)}}))
		return f
	case 12: // longer tables than needed, unknown tables, the same glyph data for two glyphs
		f := newFnt([][]byte{simpleGlyph(12, 1), simpleGlyph(10, 2), nil, compGlyph(1, 1)}, 1, true)
		f.hmtx = append(f.hmtx, 1, 2, 3)
		f.loca = append(f.loca, 0, 0, 0, 0)
		f.head = append(f.head, 9, 9)
		f.maxp = append(f.maxp, 8)
		f.hhea = append(f.hhea, 7, 7, 7)
		f.add("OS/2", append(os2Tab(3), 6, 6))
		f.add("cmap", append(cmapTab([]csub{{1, 0, fmt0(0, append([]byte{0, 1, 2, 3}, make([]byte, 252)...))}, {3, 1, fmt6(0, 0x41, []uint16{3, 2, 1})}}), 5, 5))
		f.add("kern", []byte{1, 2, 3, 4, 5, 6})
		return f
	}
	return nil
}

const nShapes = 10

// Subject is a font image, or something that is none, as the parameters say.
func Subject() []byte { return subject() }

// Parse, Write and the rest for the other harness package.
func Parse(b []byte) (*unitype.Font, error) { return parse(b) }
func Write(f *unitype.Font) ([]byte, error) { return write(f) }
func Same(a, b []byte, msg string)          { same(a, b, msg) }
