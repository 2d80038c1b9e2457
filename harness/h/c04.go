package h

import "github.com/unidoc/unitype/vpharness/sym"

// through reads and writes the font; ok is false when the library rejects it.
func through(b []byte) (*file, *file, bool) {
	in := open(b)
	u, err := parse(b)
	if err != nil {
		sym.Reach("rejected")
		return nil, nil, false
	}
	return in, reopen(mustWrite(u)), true
}

// C04Head: every field of the header table but the adjustment.
func C04Head() {
	f := shape(sym.Param("shape", 2))
	h := sym.Bytes("head", 54)
	if sym.Param("magic", 1) == 1 {
		copy(h[0:4], f.head[0:4])
		copy(h[12:16], f.head[12:16])
		copy(h[50:54], f.head[50:54])
	}
	f.head = h
	b := f.bytes()
	if sym.Param("magic", 1) == 1 {
		mustParse(b)
	}
	in, out, ok := through(b)
	if !ok {
		return
	}
	x, y := in.tab("head"), out.tab("head")
	sym.Assert(len(y) == 54, "head table has its length")
	same(x[0:8], y[0:8], "head: version and revision kept")
	same(x[12:54], y[12:54], "head: fields kept")
	sym.Reach("done")
}

// C04Hhea: every field of the horizontal header but the reserved ones.
func C04Hhea() {
	f := shape(sym.Param("shape", 2))
	h := sym.Bytes("hhea", 36)
	copy(h[34:36], f.hhea[34:36])
	if sym.Param("ver", 1) == 1 {
		copy(h[0:4], f.hhea[0:4])
		copy(h[32:34], f.hhea[32:34])
	}
	f.hhea = h
	b := f.bytes()
	if sym.Param("ver", 1) == 1 {
		mustParse(b)
	}
	in, out, ok := through(b)
	if !ok {
		return
	}
	x, y := in.tab("hhea"), out.tab("hhea")
	sym.Assert(len(y) == 36, "hhea table has its length")
	same(x[0:24], y[0:24], "hhea: fields kept")
	same(x[32:36], y[32:36], "hhea: metric format and count kept")
	sym.Reach("done")
}

// C04Maxp: both versions of the maximum profile.
func C04Maxp() {
	f := shape(sym.Param("shape", 2))
	var m []byte
	if sym.Param("v05", 0) == 1 {
		m = put32(nil, 0x00005000)
		m = put16(m, uint16(f.n))
	} else {
		m = sym.Bytes("maxp", 32)
		copy(m[0:6], f.maxp[0:6])
	}
	f.maxp = m
	b := f.bytes()
	if sym.Param("v05", 0) == 0 {
		// version 0.5 is for fonts with CFF outlines, which the library may reject
		mustParse(b)
	}
	in, out, ok := through(b)
	if !ok {
		return
	}
	same(in.tab("maxp"), out.tab("maxp"), "maxp kept")
	sym.Reach("done")
}

// C04OS2: every version of the OS/2 table.
func C04OS2() {
	f := shape(2)
	v := sym.Param("v", 4)
	o := sym.Bytes("os2", os2Len(v))
	set16(o, 0, uint16(v))
	f.set("OS/2", o)
	b := f.bytes()
	mustParse(b)
	in, out, _ := through(b)
	same(in.tab("OS/2"), out.tab("OS/2"), "OS/2 kept")
	sym.Reach("done")
}

// C04Post: the header of the PostScript table.
func C04Post() {
	f := shape(2)
	h := sym.Bytes("post", 32)
	var p []byte
	switch sym.Param("v", 2) {
	case 1:
		// needs the 258 standard glyphs
		var gl [][]byte
		for i := 0; i < 258; i++ {
			gl = append(gl, nil)
		}
		f = newFnt(gl, 1, false)
		p = postHead(0x00010000)
	case 2:
		p = postTab2([]uint16{0, 258, 3}, []string{"ab"})
	case 25:
		p = append(postHead(0x00025000), 0, 3, 0, 1, 0xFF)
	case 3:
		p = postHead(0x00030000)
	}
	copy(p[4:32], h[4:32])
	f.set("post", p)
	b := f.bytes()
	mustParse(b)
	in, out, _ := through(b)
	x, y := in.tab("post"), out.tab("post")
	sym.Assert(len(y) >= 32, "post table has a header")
	same(x[4:32], y[4:32], "post: header fields kept")
	sym.Reach("done")
}
