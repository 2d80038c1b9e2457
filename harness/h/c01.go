package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

func tryParse(b []byte) bool {
	f, err := parse(b)
	sym.Assert((f == nil) == (err != nil), "Parse returns a font or an error")
	if err == nil {
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
	return err == nil
}

var tableNames = []string{"head", "maxp", "hhea", "hmtx", "loca", "glyf", "cvt", "fpgm", "prep", "name", "OS/2", "post", "cmap"}

// last puts a table at the end of the file, so that running off its end meets the end of
// the data.
func (f *fnt) last(tag string) []byte {
	ts := f.tables()
	var o []tbl
	var l tbl
	for _, t := range ts {
		if t.tag == tag {
			l = t
		} else {
			o = append(o, t)
		}
	}
	return sfnt(append(o, l))
}

// C01File: every byte of a short file is arbitrary.
func C01File() {
	tryParse(sym.Bytes("b", sym.Param("len", 12)))
}

// small is a font of three glyphs with one of the optional tables.
func small(t string) *fnt {
	f := shape(2)
	r := rich(false)
	switch t {
	case "post":
		f.add(t, postTab2([]uint16{0, 258, 3}, []string{"ab"}))
	case "cvt", "fpgm", "prep", "name", "OS/2":
		f.add(t, r.get(t))
	case "cmap":
		f.add(t, cmapTab([]csub{{3, 1, fmt4(0, []seg{{0x41, 0x42, 0xFFC0, 0}, {0x61, 0x61, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{1})}}))
	}
	return f
}

// C01Dir: one field of one directory record is arbitrary, the table data fixed.
func C01Dir() {
	t := tableNames[sym.Param("t", 0)]
	f := small(t)
	b := f.bytes()
	r := recOff(b, t)
	switch sym.Param("what", 0) {
	case 0: // offset
		copy(b[r+8:r+12], sym.Bytes("off", 4))
	case 1: // length
		copy(b[r+12:r+16], sym.Bytes("len", 4))
	case 2: // tag
		copy(b[r:r+4], sym.Bytes("tag", 4))
	case 3: // any of a set of extreme combinations
		ext := []uint32{0, 1, 12, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, uint32(len(b)), uint32(len(b)) - 1, uint32(len(b)) + 1}
		set32(b, r+8, ext[sym.Choose("off", len(ext))])
		set32(b, r+12, ext[sym.Choose("len", len(ext))])
	case 4: // count of records
		copy(b[4:6], sym.Bytes("num", 2))
	}
	tryParse(b)
}

// C01Head: the header table is arbitrary.
func C01Head() {
	f := rich(false)
	b := sym.Bytes("head", 54)
	f.head = b
	tryParse(sfnt2(f.tables()))
}

// sfnt2 is sfnt without checksums.
func sfnt2(tabs []tbl) []byte {
	out := put32(nil, 0x00010000)
	out = put16(out, uint16(len(tabs)))
	out = append(out, 0, 0, 0, 0, 0, 0)
	off := 12 + 16*len(tabs)
	for _, t := range tabs {
		out = append(out, tag4(t.tag)...)
		out = put32(out, 0)
		out = put32(out, uint32(off))
		out = put32(out, uint32(len(t.data)))
		off += len(t.data)
	}
	for _, t := range tabs {
		out = append(out, t.data...)
	}
	return out
}

// C01Counts: glyph count and metrics count are arbitrary.
func C01Counts() {
	f := small(tableNames[sym.Param("t", 0)])
	if sym.Param("maxp", 0) == 1 {
		copy(f.maxp[0:6], sym.Bytes("maxp", 6))
	}
	if sym.Param("hhea", 0) == 1 {
		copy(f.hhea[34:36], sym.Bytes("hhea", 2))
	}
	tryParse(sfnt2(f.tables()))
}

// C01Loca: the index to location table is arbitrary, up to a bound on the offsets.
func C01Loca() {
	n := sym.Param("n", 3)
	long := sym.Param("long", 0) == 1
	var gl [][]byte
	for i := 0; i < n; i++ {
		gl = append(gl, nil)
	}
	f := newFnt(gl, 1, long)
	max := sym.Param("max", 24)
	f.glyf = make([]byte, max-sym.Param("over", 0))
	var l []byte
	for i := 0; i <= n; i++ {
		if long {
			v := sym.U32("off")
			sym.Assume(v <= uint32(max))
			l = put32(l, v)
		} else {
			v := sym.U16("off")
			sym.Assume(v <= uint16(max/2))
			l = put16(l, v)
		}
	}
	f.loca = l
	tryParse(sfnt2(f.tables()))
}

// C01LocaWild: two neighbouring offsets at extreme values.
func C01LocaWild() {
	long := sym.Param("long", 1) == 1
	f := newFnt([][]byte{nil, nil}, 1, long)
	f.glyf = make([]byte, 8)
	// offsets near 4 GiB are outside: the library asks for that much memory
	vals := []uint32{0, 1, 8, 9, 0x7FFF, 0x8000, 0xFFFF, 0x10000, 0x100000}
	var l []byte
	for i := 0; i < 3; i++ {
		v := vals[sym.Choose("v", len(vals))]
		if long {
			l = put32(l, v)
		} else {
			l = put16(l, uint16(v))
		}
	}
	f.loca = l
	tryParse(sfnt2(f.tables()))
}

// C01Name: one part of the naming table is arbitrary.
func C01Name() {
	f := newFnt([][]byte{nil, nil}, 1, false)
	format := sym.Param("format", 0)
	b := nameTab([]nrec{{1, 0, 0, 4, []byte("Mac")}, {3, 1, 0x409, 1, []byte{0, 'A', 0xD8, 0}}}, format, [][]byte{{0, 'e'}})
	switch sym.Param("what", 0) {
	case 0: // header
		copy(b, sym.Bytes("hd", 6))
	case 1: // identifiers
		copy(b[6:14], sym.Bytes("rec", 8))
	case 2: // length and offset
		copy(b[14:18], sym.Bytes("rec", 4))
	case 3: // language tags
		if format == 1 {
			copy(b[30:36], sym.Bytes("lang", 6))
		}
	case 4: // platform and a character
		copy(b[18:20], sym.Bytes("pid", 2))
		copy(b[len(b)-6:len(b)-4], sym.Bytes("chr", 2))
	case 5: // cut short
		b = b[:sym.Choose("cut", len(b)+1)]
	}
	f.add("name", b)
	if sym.Param("last", 0) == 1 {
		tryParse(f.last("name"))
	} else {
		tryParse(sfnt2(f.tables()))
	}
}

// C01Post: glyph name data of the PostScript table is arbitrary.
func C01Post() {
	n := sym.Param("n", 2)
	var gl [][]byte
	for i := 0; i < n; i++ {
		gl = append(gl, nil)
	}
	f := newFnt(gl, 1, false)
	b := postHead(0)
	copy(b[0:4], sym.Bytes("ver", 4))
	b = append(b, sym.Bytes("tail", sym.Param("tail", 10))...)
	f.add("post", b)
	tryParse(f.last("post"))
}

// C01PostNames: version 2 with an arbitrary string part.
func C01PostNames() {
	n := sym.Param("n", 2)
	var gl [][]byte
	for i := 0; i < n; i++ {
		gl = append(gl, nil)
	}
	f := newFnt(gl, 1, false)
	b := postHead(0x00020000)
	b = put16(b, uint16(n))
	for i := 0; i < n; i++ {
		v := sym.U16("idx")
		sym.Assume(v < 262 || v >= 32766)
		b = put16(b, v)
	}
	b = append(b, sym.Bytes("str", sym.Param("st", 4))...)
	f.add("post", b)
	tryParse(f.last("post"))
}

// C01OS2: an OS/2 table of arbitrary version and length.
func C01OS2() {
	f := newFnt([][]byte{nil}, 1, false)
	b := os2Tab(5)[:sym.Choose("len", 101)]
	if len(b) >= 2 {
		copy(b, sym.Bytes("ver", 2))
	}
	f.add("OS/2", b)
	tryParse(f.last("OS/2"))
}

// C01CmapHead: the header and the records of the character map table are arbitrary.
func C01CmapHead() {
	f := newFnt([][]byte{nil, nil}, 1, false)
	n := sym.Param("n", 1)
	b := append(put16(nil, 0), sym.Bytes("num", 2)...)
	b = append(b, sym.Bytes("rec", 8*n)...)
	b = append(b, fmt6(0, 0x41, []uint16{1})...)
	f.add("cmap", b)
	tryParse(f.last("cmap"))
}

// C01Cmap4: format 4 segments are arbitrary, but for their width.
func C01Cmap4() {
	f := newFnt([][]byte{nil, nil, nil}, 1, false)
	n, w, g := sym.Param("n", 2), sym.Param("w", 2), sym.Param("g", 2)
	var segs []seg
	for i := 0; i < n; i++ {
		s := seg{sym.U16("start"), sym.U16("end"), sym.U16("delta"), sym.U16("ro")}
		sym.Assume(sym.Or(s.end < s.start, int(s.end)-int(s.start) < w))
		segs = append(segs, s)
	}
	var gids []uint16
	for i := 0; i < g; i++ {
		gids = append(gids, sym.U16("gid"))
	}
	sub := fmt4(0, segs, gids)
	if sym.Param("len", 0) == 1 {
		copy(sub[2:4], sym.Bytes("len", 2))
		copy(sub[6:8], sym.Bytes("sc", 2))
	}
	f.add("cmap", cmapTab([]csub{{uint16(sym.Param("pid", 3)), uint16(sym.Param("eid", 1)), sub}}))
	tryParse(f.last("cmap"))
}

// C01Cmap4Wide: segments up to the end of the code space.
func C01Cmap4Wide() {
	f := newFnt([][]byte{nil, nil, nil}, 1, false)
	segs := []seg{{0xFFFD, 0xFFFF, 3, 0}, {0xFFFF, 0xFFFF, 1, 0}}
	segs[0].start = 0xFFF0 + uint16(sym.Choose("start", 16))
	segs[0].delta = sym.U16("delta")
	if sym.Bool("ro") {
		segs[0].ro = sym.U16("ro0")
	}
	if sym.Bool("last") {
		segs[1] = seg{sym.U16("s1"), 0xFFFF, sym.U16("d1"), 0}
		sym.Assume(segs[1].start >= 0xFFF8)
	}
	f.add("cmap", cmapTab([]csub{{3, 1, fmt4(0, segs, []uint16{1, 2})}}))
	tryParse(f.last("cmap"))
}

// C01Cmap6: format 6 is arbitrary.
func C01Cmap6() {
	f := newFnt([][]byte{nil, nil}, 1, false)
	sub := put16(nil, 6)
	sub = append(sub, sym.Bytes("sub", sym.Param("len", 14))...)
	f.add("cmap", cmapTab([]csub{{uint16(sym.Param("pid", 1)), uint16(sym.Param("eid", 0)), sub}}))
	tryParse(f.last("cmap"))
}

// C01Cmap12: format 12 is arbitrary.
func C01Cmap12() {
	f := newFnt([][]byte{nil, nil, nil}, 1, false)
	sub := put16(nil, 12)
	sub = append(sub, sym.Bytes("sub", 14+12*sym.Param("n", 1))...)
	f.add("cmap", cmapTab([]csub{{uint16(sym.Param("pid", 3)), uint16(sym.Param("eid", 10)), sub}}))
	tryParse(f.last("cmap"))
}

// C01Cmap0: format 0 with arbitrary header and some arbitrary entries.
func C01Cmap0() {
	f := newFnt([][]byte{nil, nil}, 1, false)
	arr := make([]byte, 256)
	arr[65] = sym.U8("a")
	arr[255] = sym.U8("b")
	sub := fmt0(0, arr)
	copy(sub[2:6], sym.Bytes("hd", 4))
	f.add("cmap", cmapTab([]csub{{uint16(sym.Param("pid", 1)), uint16(sym.Param("eid", 0)), sub}}))
	tryParse(f.last("cmap")[:])
}

// C01Trunc: a complete font cut off at every length.
func C01Trunc() {
	b := rich(sym.Param("long", 0) == 1).bytes()
	n := sym.Choose("len", len(b)+1)
	ok := tryParse(b[:n])
	if n == len(b) {
		sym.Assert(ok, "the complete font is accepted")
	}
	_ = unitype.ValidateBytes(b[:n])
}

// C01Post25: version 2.5 with many glyphs; the displacements of some are arbitrary.
func C01Post25() {
	n := sym.Param("n", 260)
	f := plain(n)
	b := put16(postHead(0x00025000), uint16(n))
	d := make([]byte, n)
	for _, a := range []int{0, 63, 127, 128, 129, 131, 150, 200, 257, 258, n - 1} {
		if a == sym.Param("at", 0) || a == n-1 && sym.Param("at", 0) < 0 {
			d[a] = sym.U8("disp")
		}
	}
	f.add("post", append(b, d...))
	tryParse(f.last("post"))
}

// C01Big: fonts with more glyphs than fit a signed 16-bit number.
func C01Big() {
	n := sym.Param("n", 0x8001)
	f := plain(n)
	switch sym.Param("what", 0) {
	case 0: // format 4 reaching high glyphs
		s := seg{0x41, 0x44, sym.U16("delta"), 0}
		x := s.delta + 0x41
		sym.Assume(sym.Or(sym.Or(x < 2, x > 0xFFFD), sym.And(x > 0x7FFB, x < 0x8005)))
		if sym.Bool("ro") {
			s.ro = 4
		}
		f.add("cmap", cmapTab([]csub{{3, 1, fmt4(0, []seg{s, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{1, 0x7FFF, 0x8000, 0xFFFF})}}))
	case 1:
		g := sym.U32("gid")
		sym.Assume(sym.Or(sym.Or(g < 2, g > 0xFFFFFFFD), sym.And(g > 0x7FFB, g < 0x8005)))
		f.add("cmap", cmapTab([]csub{{3, 10, fmt12(0, []grp{{0x10041, 0x10044, g}})}}))
	case 2:
		f.add("cmap", cmapTab([]csub{{0, 3, fmt6(0, 0x41, []uint16{sym.U16("gid"), 0x8000})}}))
	}
	tryParse(f.last("cmap"))
}
