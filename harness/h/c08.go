package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// plain is a font of n glyphs without outlines.
func plain(n int) *fnt {
	gl := make([][]byte, n)
	return newFnt(gl, 1, false)
}

// askRune is an arbitrary character to look up, surrogates aside.
func askRune(code uint32) rune {
	sym.Assume(sym.Or(code < 0xD800, code > 0xDFFF))
	return rune(code)
}

// charOf gives the character of a code under a platform and encoding.
func charOf(pid, eid int, code uint32) rune {
	if pid == 1 {
		return macRune(byte(code))
	}
	return askRune(code)
}

func symGid(n int) uint16 {
	g := sym.U16("gid")
	sym.Assume(g < uint16(n))
	return g
}

// segments with arbitrary, ascending ranges of at most w codes.
func symSegs(k, w int, ng int) []seg {
	var segs []seg
	for i := 0; i < k; i++ {
		s := seg{start: sym.U16("start"), end: sym.U16("end"), delta: sym.U16("delta")}
		sym.Assume(s.start <= s.end)
		sym.Assume(s.end-s.start < uint16(w))
		if i > 0 {
			sym.Assume(s.start > segs[i-1].end)
		}
		if ng > 0 && sym.Bool("indirect") {
			p := sym.U16("at")
			sym.Assume(p < uint16(ng))
			s.ro = uint16(2*(k+1-i)) + 2*p
		}
		segs = append(segs, s)
	}
	return segs
}

// C08Fmt4: segments and deltas and glyph array arbitrary.
func C08Fmt4() {
	n, k, w, ng := sym.Param("n", 5), sym.Param("k", 1), sym.Param("w", 2), sym.Param("g", 2)
	pid, eid := sym.Param("pid", 3), sym.Param("eid", 1)
	segs := symSegs(k, w, ng)
	sym.Assume(segs[k-1].end < 0xFFFF)
	for _, s := range segs {
		// surrogates all decode to one character, see C08Many
		sym.Assume(sym.Or(s.end < 0xD800, s.start > 0xDFFF))
	}
	var gids []uint16
	for i := 0; i < ng; i++ {
		gids = append(gids, sym.U16("gid"))
	}
	all := append(append([]seg(nil), segs...), seg{0xFFFF, 0xFFFF, 1, 0})
	sub := fmt4(0, all, gids)
	f := plain(n)
	f.add("cmap", cmapTab([]csub{{uint16(pid), uint16(eid), sub}}))
	r := ref{pid, eid, 4, sub}
	// in range everywhere?
	for _, s := range segs {
		for j := 0; j < w; j++ {
			c := uint32(s.start) + uint32(j)
			if c <= uint32(s.end) {
				g, ok := r.lookup(c)
				if !ok || int(g) >= n {
					sym.Reach("outside")
					return
				}
			}
		}
	}
	u := mustParse(f.bytes())
	m := u.GetCmap(pid, eid)
	sym.Assert(m != nil, "the map is there")
	code := uint32(sym.U16("code"))
	ch := charOf(pid, eid, code)
	g, ok := r.lookup(code)
	sym.Assert(ok, "reference lookup works")
	if code == 0xFFFF {
		g = 0
	}
	sym.Assert(uint32(m[ch]) == g, "character mapped as format 4 defines")
	sym.Reach("done")
}

// C08Last: the segment at the end of the code space.
func C08Last() {
	f := plain(6)
	st := sym.U16("start")
	sym.Assume(st >= 0xFFFC)
	d := sym.U16("delta")
	segs := []seg{{0x41, 0x42, 0xFFC0, 0}, {st, 0xFFFF, d, 0}}
	sub := fmt4(0, segs, nil)
	f.add("cmap", cmapTab([]csub{{3, 1, sub}}))
	r := ref{3, 1, 4, sub}
	for c := uint32(0xFFFC); c < 0xFFFF; c++ {
		if c >= uint32(st) {
			g, _ := r.lookup(c)
			if g >= 6 {
				return
			}
		}
	}
	u := mustParse(f.bytes())
	m := u.GetCmap(3, 1)
	code := sym.U16("code")
	ch := askRune(uint32(code))
	g, _ := r.lookup(uint32(code))
	if code == 0xFFFF {
		g = 0
	}
	sym.Assert(uint32(m[ch]) == g, "character mapped as format 4 defines")
	sym.Reach("done")
}

// C08Fmt0: byte encoding table.
func C08Fmt0() {
	pid, eid := sym.Param("pid", 1), sym.Param("eid", 0)
	n := 300
	arr := make([]byte, 256)
	for i := range arr {
		arr[i] = byte(7*i + 3)
	}
	at := []int{sym.Choose("at", 4) * 85, 0x41, 0xF0}
	for _, a := range at {
		arr[a] = sym.U8("gid")
	}
	f := plain(n)
	sub := fmt0(0, arr)
	f.add("cmap", cmapTab([]csub{{uint16(pid), uint16(eid), sub}}))
	u := mustParse(f.bytes())
	m := u.GetCmap(pid, eid)
	c := sym.U8("code")
	sym.Assert(m[charOf(pid, eid, uint32(c))] == unitype.GlyphIndex(arr[c]), "character mapped as format 0 defines")
	if pid != 1 {
		ch := rune(sym.U16("other"))
		sym.Assume(ch > 255)
		sym.Assert(m[ch] == 0, "no character beyond the table")
	}
	sym.Reach("done")
}

// C08Fmt6: trimmed table.
func C08Fmt6() {
	pid, eid := sym.Param("pid", 1), sym.Param("eid", 0)
	n, k := 9, sym.Param("k", 3)
	first := sym.U16("first")
	if pid == 1 {
		sym.Assume(int(first)+k <= 256)
	} else {
		sym.Assume(int(first)+k <= 0x10000)
	}
	var gids []uint16
	for i := 0; i < k; i++ {
		gids = append(gids, symGid(n))
	}
	f := plain(n)
	sub := fmt6(0, first, gids)
	f.add("cmap", cmapTab([]csub{{uint16(pid), uint16(eid), sub}}))
	u := mustParse(f.bytes())
	m := u.GetCmap(pid, eid)
	code := uint32(sym.U16("code"))
	if pid == 1 {
		sym.Assume(code < 256)
	} else {
		for i := 0; i < k; i++ {
			sym.Assume(sym.Or(first+uint16(i) < 0xD800, first+uint16(i) > 0xDFFF))
		}
	}
	ch := charOf(pid, eid, code)
	g, ok := ref{pid, eid, 6, sub}.lookup(code)
	sym.Assert(ok, "reference lookup works")
	sym.Assert(uint32(m[ch]) == g, "character mapped as format 6 defines")
	sym.Reach("done")
}

// C08Fmt12: groups of 32-bit codes.
func C08Fmt12() {
	pid, eid := sym.Param("pid", 3), sym.Param("eid", 10)
	n, k, w := 8, sym.Param("k", 1), sym.Param("w", 2)
	over := sym.Param("over", 0) == 1
	var gr []grp
	for i := 0; i < k; i++ {
		g := grp{sym.U32("start"), sym.U32("end"), sym.U32("gid")}
		sym.Assume(g.start <= g.end)
		sym.Assume(g.end-g.start < uint32(w))
		sym.Assume(g.end <= 0x10FFFF)
		for j := 0; j < w; j++ {
			sym.Assume(sym.Or(g.start+uint32(j) < 0xD800, g.start+uint32(j) > 0xDFFF))
		}
		sym.Assume(g.gid < uint32(n))
		sym.Assume(g.gid+(g.end-g.start) < uint32(n))
		if i > 0 && !over {
			sym.Assume(g.start > gr[i-1].end)
		}
		gr = append(gr, g)
	}
	sub := fmt12(0, gr)
	f := plain(n)
	f.add("cmap", cmapTab([]csub{{uint16(pid), uint16(eid), sub}}))
	u := mustParse(f.bytes())
	m := u.GetCmap(pid, eid)
	sym.Assert(m != nil, "the map is there")
	code := sym.U32("code")
	sym.Assume(code <= 0x10FFFF)
	ch := askRune(code)
	if over {
		// the first mapping to a glyph other than 0 counts, so leave glyph 0 out
		for _, g := range gr {
			sym.Assume(g.gid > 0)
		}
	}
	g, ok := ref{pid, eid, 12, sub}.lookup(code)
	sym.Assert(ok, "reference lookup works")
	sym.Assert(uint32(m[ch]) == g, "character mapped as format 12 defines")
	sym.Reach("done")
}

// C08Many: codes that decode to the same character: the first counts.
func C08Many() {
	n := 8
	a, b := sym.U16("delta"), sym.U16("delta")
	segs := []seg{{0xD800, 0xD801, a, 0}, {0xFFFD, 0xFFFD, b, 0}, {0xFFFF, 0xFFFF, 1, 0}}
	sub := fmt4(0, segs, nil)
	r := ref{3, 1, 4, sub}
	want := uint32(0)
	for _, c := range []uint32{0xD800, 0xD801, 0xFFFD} {
		g, _ := r.lookup(c)
		if int(g) >= n {
			return
		}
		if want == 0 {
			want = g
		}
	}
	f := plain(n)
	f.add("cmap", cmapTab([]csub{{3, 1, sub}}))
	u := mustParse(f.bytes())
	sym.Assert(uint32(u.GetCmap(3, 1)[0xFFFD]) == want, "the first code that decodes to the character counts")
	sym.Reach("done")
}

// C08Other: maps the font does not have.
func C08Other() {
	u := mustParse(rich(false).bytes())
	p, e := sym.Int("pid"), sym.Int("eid")
	known := false
	for _, k := range [][2]int{{0, 3}, {1, 0}, {3, 1}, {3, 10}} {
		known = sym.Or(known, sym.And(p == k[0], e == k[1]))
	}
	m := u.GetCmap(p, e)
	sym.Assert((m != nil) == known, "a map for exactly the encodings of the font")
	sym.Reach("done")
}

// C08High: glyph indices and counts around the signed 16-bit limit.
func C08High() {
	n := sym.Param("n", 0x8005)
	f := plain(n)
	var sub []byte
	pid, eid, format := 3, 1, sym.Param("format", 4)
	gid := func() uint16 {
		g := sym.U16("gid")
		sym.Assume(sym.Or(sym.And(g >= 0x7FFE, g < uint16(n)), sym.And(g > 0, g < 3)))
		return g
	}
	switch format {
	case 4:
		a := gid()
		sym.Assume(int(a)+2 <= n)
		d := a - 0x41
		e := []uint16{0, 1, 0x7FFF, 0x8001}[sym.Choose("delta", 4)]
		g := sym.U16("gid")
		sym.Assume(sym.Or(g < 2, sym.And(g >= 0x7FFE, g < 0x8006)))
		sym.Assume(sym.Or(g == 0, g+e < uint16(n)))
		sub = fmt4(0, []seg{{0x41, 0x42, d, 0}, {0x61, 0x61, e, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{g})
	case 6:
		sub = fmt6(0, 0x41, []uint16{gid(), gid(), 5})
	case 12:
		g := gid()
		sym.Assume(int(g)+2 <= n)
		eid = 10
		sub = fmt12(0, []grp{{0x10041, 0x10042, uint32(g)}})
	}
	f.add("cmap", cmapTab([]csub{{uint16(pid), uint16(eid), sub}}))
	u := mustParse(f.bytes())
	r := ref{pid, eid, format, sub}
	m := u.GetCmap(pid, eid)
	for _, c := range []uint32{0x41, 0x42, 0x43, 0x61, 0x10041, 0x10042} {
		g, ok := r.lookup(c)
		sym.Assert(ok, "reference lookup works")
		sym.Assert(uint32(m[rune(c)]) == g, "character mapped as the format defines")
	}
	sym.Reach("done")
}

// C08Long: format 6 with more entries than a byte counts.
func C08Long() {
	n, k := 8, 300
	first := []uint16{0, 0x41, 0xFF, 0x100, 0x1234, 0xFFFF - 299}[sym.Choose("first", 6)]
	if sym.Param("seg", 0) > 0 && first == 0xFFFF-299 {
		first-- // the last code ends the segments
	}
	gids := make([]uint16, k)
	at := []int{0, 1, 254, 255, 256, 257, 299}
	if sym.Param("seg", 0) == 1 {
		at = []int{0, 255, 256, 299}
	}
	for _, i := range at {
		gids[i] = symGid(n)
	}
	sub, format := fmt6(0, first, gids), 6
	switch sym.Param("seg", 0) {
	case 1: // a segment with a glyph array
		sub, format = fmt4(0, []seg{{first, first + 299, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, gids), 4
	case 2: // a segment with a delta
		n = 320
		d := 5 - first
		sub, format = fmt4(0, []seg{{first, first + 299, d, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil), 4
	}
	f := plain(n)
	f.add("cmap", cmapTab([]csub{{0, 3, sub}}))
	m := mustParse(f.bytes()).GetCmap(0, 3)
	code := uint32(sym.U16("code"))
	g, ok := ref{0, 3, format, sub}.lookup(code)
	sym.Assert(ok, "reference lookup works")
	sym.Assert(uint32(m[rune(code)]) == g, "character mapped as the format defines")
	sym.Reach("done")
}
