package h

import (
	"strconv"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/internal/strutils"
	"github.com/unidoc/unitype/vpharness/sym"
)

// Sizes at which counters of one byte, small buffers and caps end. Most of the data is
// fixed; what lies at the thresholds is arbitrary.

var spots = []int{0, 1, 63, 64, 127, 128, 254, 255, 256, 257, 299}

// spot picks one of them below n, or the last.
func spot(n int) int {
	s := append([]int{n - 1}, spots...)
	k := s[sym.Choose("spot", len(s))]
	sym.Assume(k < n)
	return k
}

// C02Many: many tables the library does not know.
func C02Many() {
	f := shape(2)
	n := sym.Param("n", 60)
	for i := 0; i < n; i++ {
		f.add("x"+strconv.Itoa(100+i), []byte{byte(i), byte(i >> 8), 3, 4, 5}[:i%6%5+1])
	}
	b := f.bytes()
	all := int(get16(b, 4))
	t := []int{0, 15, 16, 31, 32, 63, 64, 255, 256, all - 1}[sym.Choose("t", 10)]
	if t >= all {
		return
	}
	copy(b[12+16*t+4:], sym.Bytes("sum", 4))
	h := int(get32(b, recOff(b, "head")+8))
	copy(b[h+8:h+12], sym.Bytes("adj", 4))
	checkVerdict(b)
}

// C03Many: a font with many unknown tables is written as a sound file.
func C03Many() {
	f := shape(0)
	n := sym.Param("n", 60)
	for i := 0; i < n; i++ {
		f.add("x"+strconv.Itoa(100+i), []byte{byte(i), 2, 3}[:i%3+1])
	}
	symTables(f, sym.Param("t", 0))
	u, err := parse(f.bytes())
	if err != nil {
		return
	}
	x, err := write(u)
	sym.Assert(err == nil, "written")
	wellFormed(x)
	accepted(x)
	sym.Reach("done")
}

// C07Many: many records and language tags.
func C07Many() {
	f := shape(2)
	n := sym.Param("n", 300)
	format := sym.Param("format", 0)
	nl := sym.Param("langs", 300*format)
	sr, sl := spot(n), -1
	if nl > n {
		sl = spot(nl)
	} else if nl > 0 {
		sl = nl - 1 - sr
	}
	var rs []nrec
	for i := 0; i < n; i++ {
		r := nrec{3, 1, uint16(i), uint16(i), []byte{0, byte('a' + i%26), 0, byte(i)}}
		if i%3 == 1 {
			r = nrec{1, 0, 0, uint16(i), []byte{byte('a' + i%26), byte(i), byte(i >> 8)}}
		}
		if i == sr {
			r.lid, r.nid = sym.U16("lid"), sym.U16("nid")
			r.data = append([]byte(nil), r.data...)
			r.data[1] = sym.U8("ch")
		}
		rs = append(rs, r)
	}
	var langs [][]byte
	for i := 0; i < nl; i++ {
		l := []byte{0, 'l', 0, byte(i), 0, byte(i >> 8)}
		if i == sl {
			l[1] = sym.U8("tag")
		}
		langs = append(langs, l)
	}
	f.set("name", nameTab(rs, format, langs))
	in := open(f.bytes())
	out := reopen(mustWrite(mustParse(in.b)))
	namesKept(in.tab("name"), out.tab("name"))
	sym.Reach("done")
}

// C08Segs: many segments, or groups, in a map.
func C08Segs() {
	n, k := 400, sym.Param("n", 300)
	f := plain(n)
	var sub []byte
	format, eid := sym.Param("format", 4), 1
	sp := spot(k)
	switch format {
	case 4:
		var segs []seg
		var gids []uint16
		for i := 0; i < k; i++ {
			c := uint16(0x100 + 4*i)
			s := seg{c, c + 1, uint16(i) - c, 0}
			if i == sp {
				g := symGid(n - 1)
				s.delta = g - c
			}
			if i%7 == 3 {
				s.ro = uint16(2*(k+1-i) + 2*len(gids))
				s.delta = 0
				gids = append(gids, uint16(i), uint16(i/2))
			}
			segs = append(segs, s)
		}
		sub = fmt4(0, append(segs, seg{0xFFFF, 0xFFFF, 1, 0}), gids)
	case 12:
		eid = 10
		var gr []grp
		for i := 0; i < k; i++ {
			c := uint32(0xFF00 + 4*i)
			g := grp{c, c + 1, uint32(i)}
			if i == sp {
				g.gid = uint32(symGid(n - 1))
			}
			gr = append(gr, g)
		}
		sub = fmt12(0, gr)
	}
	f.add("cmap", cmapTab([]csub{{3, uint16(eid), sub}}))
	m := mustParse(f.bytes()).GetCmap(3, eid)
	base := uint32(0x100)
	if format == 12 {
		base = 0xFF00
	}
	for _, i := range append([]int{k - 1, 3, 10, 255 / 7 * 7, 259}, spots...) {
		for j := uint32(0); j < 3; j++ {
			c := base + 4*uint32(i) + j
			g, ok := ref{3, eid, format, sub}.lookup(c)
			sym.Assert(ok, "reference lookup works")
			sym.Assert(uint32(m[rune(c)]) == g, "character mapped as the format defines")
		}
	}
	sym.Reach("done")
}

// C09Many: many encoding records.
func C09Many() {
	f := plain(8)
	k := sym.Param("n", 20)
	sp := spot(k)
	var subs []csub
	for i := 0; i < k; i++ {
		g := uint16(i % 8)
		if i == sp {
			g = symGid(8)
		}
		s := fmt6(0, uint16(0x41+i%5), []uint16{g, 1})
		if i%4 == 1 {
			s = fmt12(0, []grp{{uint32(0x10000 + i), uint32(0x10000 + i), uint32(g)}})
		}
		subs = append(subs, csub{3, uint16(i / 2), s})
	}
	f.add("cmap", cmapTab(subs))
	in, out, ok := through(f.bytes())
	if !ok {
		return
	}
	a, ok := cmapRefs(in.tab("cmap"))
	b, ok2 := cmapRefs(out.tab("cmap"))
	sym.Assert(ok && ok2, "maps readable")
	sym.Assert(len(a) == len(b), "every subtable kept")
	used := make([]bool, len(b))
	for _, r := range a {
		found := false
		for j, s := range b {
			if used[j] || s.pid != r.pid || s.eid != r.eid {
				continue
			}
			used[j], found = true, true
			for _, c := range []uint32{0x41, 0x42, 0x43, 0x45, 0x46, 0x10000 + uint32(len(a)) - 1, 0x10001, 0x10000 + 257} {
				g, ok := r.lookup(c)
				sym.Assert(ok, "subtable well-formed")
				g2, ok2 := s.lookup(c)
				sym.Assert(ok2, "written subtable well-formed")
				sym.Assert(g == g2, "code mapped to the same glyph")
			}
			break
		}
		sym.Assert(found, "subtable still there")
	}
	sym.Reach("done")
}

// C09Segs: many segments or groups are written back.
func C09Segs() {
	n, k := 400, sym.Param("n", 300)
	f := plain(n)
	var segs []seg
	var gids []uint16
	var gr []grp
	sp := spot(k)
	for i := 0; i < k; i++ {
		c := uint16(0x100 + 4*i)
		s := seg{c, c + 1, uint16(i) - c, 0}
		g := uint32(i)
		if i == sp {
			g = uint32(symGid(n - 1))
			s.delta = uint16(g) - c
		}
		if i%7 == 3 {
			s.ro = uint16(2*(k+1-i) + 2*len(gids))
			s.delta = 0
			gids = append(gids, uint16(g), uint16(i))
		}
		segs = append(segs, s)
		gr = append(gr, grp{uint32(0x10000 + 4*i), uint32(0x10000 + 4*i + 1), g})
	}
	f.add("cmap", cmapTab([]csub{{3, 1, fmt4(0, append(segs, seg{0xFFFF, 0xFFFF, 1, 0}), gids)}, {3, 10, fmt12(0, gr)}}))
	in, out, ok := through(f.bytes())
	if !ok {
		return
	}
	a, ok := cmapRefs(in.tab("cmap"))
	b, ok2 := cmapRefs(out.tab("cmap"))
	sym.Assert(ok && ok2 && len(a) == len(b), "maps readable")
	for i, r := range a {
		s := b[i]
		sym.Assert(r.pid == s.pid && r.eid == s.eid, "same encodings")
		for _, j := range append([]int{k - 1, 3, 10, 255 / 7 * 7, 259}, spots...) {
			for d := uint32(0); d < 3; d++ {
				for _, c := range []uint32{0x100, 0x10000} {
					g, ok := r.lookup(c + 4*uint32(j) + d)
					sym.Assert(ok, "subtable well-formed")
					g2, ok2 := s.lookup(c + 4*uint32(j) + d)
					sym.Assert(ok2, "written subtable well-formed")
					sym.Assert(g == g2, "code mapped to the same glyph")
				}
			}
		}
	}
	sym.Reach("done")
}

// C10Many: a long text.
func C10Many() {
	f := plain(9)
	f.add("cmap", cmapTab([]csub{{1, 0, fmt6(0, 0x41, []uint16{1, 2, 3})}, {3, 1, fmt4(0, []seg{{0x43, 0x44, 0xFFC4, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)}}))
	b := f.bytes()
	refs, ok := cmapRefs(open(b).tab("cmap"))
	sym.Assert(ok, "input map readable")
	n := sym.Param("n", 300)
	var ask []uint32
	for i := 0; i < n; i++ {
		c := uint32(0x40 + i%7)
		if i == []int{n - 1, 255, 256, 64}[sym.Param("at", 0)] {
			c = sym.U32("rune")
			sym.Assume(sym.Or(c < 0xD800, c > 0xDFFF))
		}
		ask = append(ask, c)
	}
	var runes []rune
	for _, r := range ask {
		runes = append(runes, rune(r))
	}
	got := mustParse(b).LookupRunes(runes)
	sym.Assert(len(got) == n, "one glyph per character")
	for i, r := range ask {
		sym.Assert(uint32(got[i]) == where(refs, r), "glyph of the first map with the character")
	}
	sym.Reach("done")
}

// C11Wide: many indices asked for, wide and deep composites.
func C11Wide() {
	n := sym.Param("n", 320)
	gl := make([][]byte, n)
	for i := range gl {
		gl[i] = []byte{0, 0, byte(i), byte(i >> 8), 0, 0, 0, 0, 0, 0}
	}
	var req []unitype.GlyphIndex
	switch sym.Param("what", 0) {
	case 0: // a long request
		k := sym.Param("k", 300)
		for i := 0; i < k; i++ {
			req = append(req, unitype.GlyphIndex(i%50))
		}
		g := sym.U16("want")
		sym.Assume(sym.Or(g < 3, sym.And(g > 254, g < 258)))
		req[sym.Param("at", k-1)] = unitype.GlyphIndex(g)
	case 1: // a wide composite
		k := sym.Param("k", 300)
		var refs []uint16
		for i := 0; i < k; i++ {
			refs = append(refs, uint16(i%30+1))
		}
		g := sym.U16("ref")
		sym.Assume(sym.Or(g < 3, sym.And(g > 254, g < 258)))
		refs[sym.Param("at", k-1)] = g
		gl[2] = compGlyph(refs...)
		req = []unitype.GlyphIndex{2}
	case 2: // a long chain
		k := sym.Param("k", 300)
		for i := 1; i < k; i++ {
			gl[i] = compGlyph(uint16(i + 1))
		}
		g := sym.U16("ref")
		sym.Assume(sym.Or(g < 3, g >= uint16(k)))
		sym.Assume(g < uint16(n))
		gl[k] = compGlyph(g)
		req = []unitype.GlyphIndex{1}
	}
	f := newFnt(gl, 3, true)
	b := f.bytes()
	in := open(b)
	u := mustParse(b)
	need, beyond, ok := in.needs(req)
	sym.Assert(ok, "glyphs well-formed")
	v, err := u.SubsetKeepIndices(req)
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	subsetRight(in, v, need, beyond, false)
	sym.Reach("done")
}

// C11LongText: a long text to keep.
func C11LongText() {
	f := compFont(2, false)
	f.add("cmap", cmapTab([]csub{{3, 1, fmt4(0, []seg{{0x41, 0x46, 0xFFBF, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)}}))
	b := f.bytes()
	in := open(b)
	u := mustParse(b)
	n := sym.Param("n", 300)
	var runes []rune
	for i := 0; i < n; i++ {
		runes = append(runes, rune(0x40+i%2))
	}
	c := sym.U32("rune")
	sym.Assume(sym.And(c >= 0x41, c < 0x48))
	runes[sym.Param("at", n-1)] = rune(c)
	refs, ok := cmapRefs(in.tab("cmap"))
	sym.Assert(ok, "map readable")
	var req []unitype.GlyphIndex
	for _, r := range runes {
		g, _ := refs[0].lookup(uint32(r))
		req = append(req, unitype.GlyphIndex(g))
	}
	need, beyond, ok := in.needs(req)
	sym.Assert(ok, "glyphs well-formed")
	v, err := u.SubsetKeepRunes(runes)
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	subsetRight(in, v, need, beyond, false)
	sym.Assert(v.LookupRunes([]rune{rune(c)})[0] == u.LookupRunes([]rune{rune(c)})[0], "requested character maps to the same glyph in the subset")
	sym.Reach("done")
}

// C19Many: long and repetitive lists of names.
func C19Many() {
	f := shape(0)
	b := f.bytes()
	u := mustParse(b)
	n := sym.Param("n", 300)
	var names []string
	gone := map[string]bool{}
	for i := 0; i < n; i++ {
		s := "xxxx"
		if i%3 == 1 {
			s = pruneArgs[sym.Param("rep", 0)]
		}
		if i == sym.Param("at", n-1) {
			s = pruneArgs[sym.Choose("name", len(pruneArgs))]
		}
		names = append(names, s)
		if s == "cmap" || s == "post" || s == "name" {
			gone[s] = true
		}
	}
	sym.Assert(u.PruneTables(names...) == nil, "pruning succeeds")
	out := reopen(mustWrite(u))
	full := reopen(mustWrite(mustParse(b)))
	for _, t := range full.tags {
		sym.Assert(out.has(t) == !gone[trim(t)], "table "+t+" written unless pruned")
	}
	sym.Reach("done")
}

// C20Many: many records, the one asked for late.
func C20Many() {
	n := sym.Param("n", 300)
	rs := someRecs(n)
	for i := range rs {
		rs[i].data = append([]byte(nil), rs[i].data...)
		rs[i].data[len(rs[i].data)-1] = byte('a' + i%26)
		rs[i].nid, rs[i].lid = uint16(7*i), uint16(i)
	}
	k := []int{0, 63, 64, 127, 128, 254, 255, 256, 257, n - 1}[sym.Choose("at", 10)]
	if k >= n {
		return
	}
	rs[k].nid = sym.U16("nid")
	sym.Assume(rs[k].nid%7 == 3)
	u := mustParse(namesFont(rs, sym.Param("format", 0)).bytes())
	sym.Assert(sym.EqStr(u.GetNameByID(int(rs[k].nid)), nameText(rs[k])), "text of the record with the identifier")
	for _, j := range []int{1, 62, 129, n - 2} {
		sym.Assert(sym.EqStr(u.GetNameByID(7*j), nameText(rs[j])), "text of the record with the identifier")
	}
	m := u.GetNameRecords()
	sym.Assert(len(m) == n, "every language listed")
	for i := range rs {
		x := m[rs[i].lid]
		sym.Assert(len(x) == 1, "one name each")
		s, ok := x[rs[i].nid]
		sym.Assert(ok, "every pair present is listed")
		sym.Assert(sym.EqStr(s, nameText(rs[i])), "text of a listed name")
	}
	sym.Reach("done")
}

// C20Long: long strings.
func C20Long() {
	l := sym.Param("len", 300)
	pid := sym.Param("pid", 3)
	var d []byte
	for i := 0; i < l; i++ {
		if pid == 1 {
			d = append(d, byte('a'+i%26))
		} else {
			d = put16(d, uint16('a'+i%26))
		}
	}
	c := sym.U8("ch")
	sym.Assume(sym.And(c > 0x20, c < 0x7F))
	d[len(d)-1] = c
	r := nrec{uint16(pid), uint16(pid / 3), 0, 6, d}
	u := mustParse(namesFont([]nrec{{1, 0, 1, 1, []byte("x")}, r, {1, 0, 2, 7, []byte("y")}}, 0).bytes())
	sym.Assert(sym.EqStr(u.GetNameByID(6), nameText(r)), "text of a long name")
	sym.Assert(u.GetNameByID(7) == "y", "text of the name after it")
	sym.Assert(sym.EqStr(u.GetNameRecords()[0][6], nameText(r)), "text of a long name listed")
	sym.Reach("done")
}

// C21Many: more glyphs and names than a byte counts.
func C21Many() {
	n, k := sym.Param("n", 300), sym.Param("names", 300)
	var names []string
	for i := 0; i < k; i++ {
		names = append(names, "n"+strconv.Itoa(i))
	}
	idx := make([]uint16, n)
	for i := range idx {
		idx[i] = uint16(i % (258 + k))
	}
	idx[sym.Choose("at", 3)*5] = pick("index", 0, 255, 256, 257, 258, 258+127, 258+128, 511, 512, 513, 514, 258+uint16(k)-1, 258+uint16(k), 32767)
	f := plain(n)
	f.add("post", postTab2(idx, names))
	u, err := parse(f.bytes())
	bad := false
	var want []string
	for _, i := range idx {
		if i < 258 {
			want = append(want, macNames[i])
		} else if int(i)-258 < k {
			want = append(want, names[i-258])
		} else {
			bad = true
		}
	}
	sym.Assert((err != nil) == bad, "rejected exactly when a name does not exist")
	if bad {
		sym.Reach("rejected")
		return
	}
	shownNames(u, want)
	sym.Reach("accepted")
}

// C22Long: long texts.
func C22Long() {
	n := sym.Param("n", 256)
	var rs []rune
	for i := 0; i < n; i++ {
		rs = append(rs, []rune{'a', 0x20AC, 0x1F600, 'z'}[i%4])
	}
	c := scalar()
	rs[n-1] = c
	rs[0] = c
	s := string(rs)
	e := []byte(strutils.StringToUTF16(s))
	var want []byte
	for _, r := range rs {
		if r < 0x10000 {
			want = put16(want, uint16(r))
		} else {
			want = put16(want, uint16(0xD800+(r-0x10000)>>10))
			want = put16(want, uint16(0xDC00+(r-0x10000)&0x3FF))
		}
	}
	same(e, want, "UTF-16 big endian")
	sym.Assert(sym.EqStr(strutils.UTF16ToString(e), s), "the text comes back")
	d := strutils.UTF16ToRunes(e)
	sym.Assert(len(d) == n, "as many characters")
	for i := range d {
		sym.Assert(d[i] == rs[i], "the characters come back")
	}
	sym.Reach("done")
}

// C22LongDoc: the same for PDFDocEncoding.
func C22LongDoc() {
	n := sym.Param("n", 256)
	var p []byte
	for i := 0; i < n; i++ {
		p = append(p, "aZ\xa0\xe9"[i%4])
	}
	p[n-1] = byte(pick("code", 'A', 0x18, 0x1F, 0x20, 0x7E, 0x80, 0x9E, 0xA0, 0xA1, 0xFF))
	t := strutils.PDFDocEncodingToString(p)
	same(strutils.StringToPDFDocEncoding(t), p, "the codes come back")
	sym.Reach("done")
}
