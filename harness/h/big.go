package h

import (
	"bytes"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// Tables larger than the buffers of the reader and than 64 KB.

// fill gives n bytes that differ from place to place.
func fill(n, k int) []byte {
	d := make([]byte, n)
	for i := range d {
		d[i] = byte(i*k>>3 ^ i)
	}
	return d
}

// bigFont has one large table and that table last: 0 outlines, 1 control value program,
// 2 control values, 3 font program, 4 names, 5 metrics, 6 a character map of 32 bit groups,
// 7 one of a glyph array, 8 glyph names.
func bigFont(t, n int) []byte {
	f := newFnt([][]byte{simpleGlyph(12, 1), nil, simpleGlyph(14, 2)}, 1, true)
	tag := "glyf"
	switch t {
	case 0:
		g := append(simpleGlyph(12, 3), fill(n-n%2, 7)...)
		f = newFnt([][]byte{simpleGlyph(12, 1), nil, g}, 1, true)
	case 1:
		tag = "prep"
		f.add(tag, fill(n, 5))
	case 2:
		tag = "cvt"
		f.add(tag, fill(n-n%2, 5))
	case 3:
		tag = "fpgm"
		f.add(tag, fill(n, 5))
	case 4:
		tag = "name"
		f.add(tag, nameTab([]nrec{{1, 0, 0, 1, []byte("ab")}, {1, 0, 0, 2, fill(n, 3)}}, 0, nil))
	case 5:
		tag = "hmtx"
		gl := make([][]byte, n/4)
		f = newFnt(gl, n/4, true)
	case 6:
		tag = "cmap"
		var gr []grp
		for i := 0; i < n/12; i++ {
			gr = append(gr, grp{uint32(2 * i), uint32(2 * i), uint32(i % 3)})
		}
		f.add(tag, cmapTab([]csub{{3, 10, fmt12(0, gr)}}))
	case 7:
		tag = "cmap"
		g := make([]uint16, n/2)
		for i := range g {
			g[i] = uint16(i % 3)
		}
		f.add(tag, cmapTab([]csub{{3, 1, fmt6(0, 0x100, g)}}))
	case 8:
		tag = "post"
		var names []string
		for i := 0; i < n/250; i++ {
			names = append(names, string(bytes.Repeat([]byte{byte('a' + i%26)}, 249)))
		}
		f.add(tag, postTab2([]uint16{0, uint16(257 + len(names)), 258}, names))
	}
	ts := f.tables()
	for i, x := range ts {
		if trim(x.tag) == trim(tag) {
			ts = append(append(ts[:i:i], ts[i+1:]...), x)
			break
		}
	}
	return sfnt(ts)
}

// C16BigCut: the source ends inside a large table, at an arbitrary place around the ends of
// buffers.
func C16BigCut() {
	b := bigFont(sym.Param("t", 0), sym.Param("n", 9500))
	in := open(b)
	last := in.tags[0]
	for _, t := range in.tags {
		if in.tabs[t][0] > in.tabs[last][0] {
			last = t
		}
	}
	off, end := in.tabs[last][0], in.tabs[last][0]+in.tabs[last][1]
	at := []int{end - 1, end - 2, end - 3, end - 250, off + 13, off + 1000, off + 4095, off + 4096, off + 4097, off + 8191, off + 8192, off + 8193, end - 4095, end - 4096, end - 4097, end}[sym.Choose("cut", 16)]
	if at <= off {
		return
	}
	var u *unitype.Font
	var err error
	if sym.Param("chunk", 0) > 0 {
		s := &source{r: bytes.NewReader(b[:at:at]), chunk: sym.Param("chunk", 0), failR: -1, failS: -1}
		u, err = s.parse()
	} else {
		u, err = parse(b[:at:at])
	}
	sym.Assert((u == nil) == (err != nil), "a font or an error")
	sym.Assert((err != nil) == (at < end), "an error exactly when the large table is cut")
	sym.Assert((unitype.ValidateBytes(b[:at:at]) != nil) == (at < end), "validation fails exactly when the large table is cut")
	if err == nil {
		in = open(mustWrite(u))
		sym.Assert(in.ok, "written font sound")
		sym.Reach("whole")
		return
	}
	sym.Reach("cut")
}

// C16BigRead: a read fails inside a large table, or the source delivers part of what is
// asked for.
func C16BigRead() {
	b := bigFont(sym.Param("t", 0), sym.Param("n", 9500))
	s := &source{r: bytes.NewReader(b), chunk: sym.Param("chunk", 1<<20), failR: -1, failS: -1}
	s.failR = sym.Choose("fail", sym.Param("max", 60))
	s.part = sym.Param("part", 0) == 1
	s.eof = sym.Param("eof", 0) == 1
	f, err := s.parse()
	sym.Assert((f == nil) == (err != nil), "a font or an error")
	sym.Assert((err != nil) == s.failed, "an error exactly when a read failed")
	if err == nil {
		same(mustWrite(mustParse(b)), mustWrite(f), "same font from short reads")
		sym.Reach("passed")
	} else {
		sym.Reach("failed")
	}
}

// C16BigWrite: a destination that fails at an arbitrary call, or is full at an arbitrary
// place, while a large font is written.
func C16BigWrite() {
	u := mustParse(bigFont(sym.Param("t", 0), sym.Param("n", 140000)))
	n := len(mustWrite(u))
	if sym.Param("calls", 0) == 1 {
		s := &failAt{k: sym.Int("k"), mode: sym.Param("mode", 0)}
		sym.Assume(s.k >= 0)
		err := u.Write(s)
		sym.Assert((err != nil) == (s.k < s.calls), "an error exactly when a call failed")
		sym.Reach("done")
		return
	}
	s := &sink{room: sym.Range("room", 0, 1<<20), mode: sym.Param("mode", 0)}
	err := u.Write(s)
	sym.Assert((err == nil) == (s.room >= n), "an error exactly when the output does not fit")
	sym.Reach("done")
}

// C02Huge: more than 64 KB, arbitrary bytes at the end and in between.
func C02Huge() {
	f := newFnt([][]byte{simpleGlyph(12, 1), nil, simpleGlyph(14, 2)}, 1, true)
	n := sym.Param("n", 70000)
	d := fill(n, 3)
	f.add("prep", d)
	f.add("zzzz", []byte{1, 2, 3, 4, 5})
	b := f.bytes()
	off := open(b).tabs["prep"][0]
	for _, i := range []int{off + n - 1, 65535, 65536, 65539, 32768} {
		if i < len(b) {
			b[i] = sym.U8("byte")
		}
	}
	checkVerdict(b)
}

// C09Huge: subtables beyond the first 64 KB of subtable data.
func C09Huge() {
	f := plain(4)
	var gr []grp
	k := sym.Param("n", 5600)
	for i := 0; i < k; i++ {
		gr = append(gr, grp{uint32(2 * i), uint32(2 * i), uint32(1 + i%2)})
	}
	gr[k-1].gid = uint32(symGid(4))
	f.add("cmap", cmapTab([]csub{{0, 4, fmt12(0, gr)}, {3, 10, fmt12(0, []grp{{0x20000, 0x20001, uint32(symGid(3))}})}, {3, 1, fmt6(0, 0x41, []uint16{symGid(4), 2})}}))
	in, out, ok := through(f.bytes())
	if !ok {
		return
	}
	a, ok := cmapRefs(in.tab("cmap"))
	b, ok2 := cmapRefs(out.tab("cmap"))
	sym.Assert(ok && ok2 && len(a) == len(b), "maps readable")
	for i, r := range a {
		s := b[i]
		sym.Assert(r.pid == s.pid && r.eid == s.eid && r.format == s.format, "same encodings")
		for _, c := range []uint32{0, 2, 0x41, 0x42, 510, 512, 2 * 5460, 2*5461 + 1, uint32(2*k - 2), 0x20000, 0x20001} {
			g, ok := r.lookup(c)
			sym.Assert(ok, "subtable well-formed")
			g2, ok2 := s.lookup(c)
			sym.Assert(ok2, "written subtable well-formed")
			sym.Assert(g == g2, "code mapped to the same glyph")
		}
	}
	u := mustParse(out.b)
	g, _ := a[1].lookup(0x20001)
	sym.Assert(uint32(u.GetCmap(3, 10)[0x20001]) == g, "map read from the written file")
	sym.Reach("done")
}

// C10Private: maps of private use characters and of other planes are not searched for
// other characters.
func C10Private() {
	f := plain(9)
	x := uint16(0xF000)
	if sym.Param("what", 0) == 1 {
		x = sym.U16("first")
		sym.Assume(x < 0xD700)
	}
	subs := []csub{{3, 1, fmt6(0, x, []uint16{1, 2, 3})}}
	if sym.Param("what", 0) == 2 {
		subs = []csub{{3, 10, fmt12(0, []grp{{0x10041, 0x10042, 1}, {0xF0041, 0xF0042, 3}, {0x100041, 0x100042, 5}})}}
	}
	f.add("cmap", cmapTab(subs))
	b := f.bytes()
	refs, ok := cmapRefs(open(b).tab("cmap"))
	sym.Assert(ok, "input map readable")
	c := sym.U32("rune")
	sym.Assume(sym.Or(c < 0xD800, c > 0xDFFF))
	got := mustParse(b).LookupRunes([]rune{rune(c), 0x41, 0x1041})
	for i, r := range []uint32{c, 0x41, 0x1041} {
		sym.Assert(uint32(got[i]) == where(refs, r), "glyph of the first map with the character")
	}
	sym.Reach("done")
}

// C20Again: asking for names in any order gives the same texts.
func C20Again() {
	rs := someRecs(sym.Param("n", 3))
	for i := range rs {
		rs[i].nid = sym.U16("nid")
		rs[i].lid = sym.U16("lid")
		sym.Assume(rs[i].nid < 3)
	}
	b := namesFont(rs, 0).bytes()
	u := mustParse(b)
	ask := func(when string) {
		for id := 0; id < 4; id++ {
			got := u.GetNameByID(id)
			want := ""
			for i := range rs {
				if int(rs[i].nid) == id {
					want = nameText(rs[i])
					break
				}
			}
			sym.Assert(sym.EqStr(got, want), "text of the first record with the identifier"+when)
		}
	}
	switch sym.Param("first", 0) {
	case 0:
		u.GetNameRecords()
		ask(" after the listing")
	case 1:
		mustWrite(u)
		ask(" after writing")
	case 2:
		u.TableInfo("name")
		ask(" after the table information")
	case 3:
		v, err := u.SubsetFirst(1)
		sym.Assert(err == nil, "truncating succeeds")
		v.GetNameRecords()
		mustWrite(v)
		ask(" after working with a subset")
		u = v
		ask(" on the subset")
	}
	namesKept(open(b).tab("name"), reopen(mustWrite(u)).tab("name"))
	sym.Reach("done")
}

// C01Edge: counts at the ends of their ranges, with all the data they ask for and without.
func C01Edge() {
	ns := []int{0, 1, 255, 256, 257, 258, 32767, 32768, 65534, 65535}
	if sym.Param("few", 0) == 1 {
		ns = []int{0, 1, 257, 65535}
	}
	n := ns[sym.Choose("n", len(ns))]
	ms := []int{0, 1, n - 1, n, n + 1, 65535}
	f := small(tableNames[sym.Param("t", 9)])
	f.maxp = maxpTab(n)
	f.hhea = hheaTab(1)
	if sym.Param("hmtx", 0) == 1 {
		m := ms[sym.Choose("m", len(ms))]
		sym.Assume(m >= 0)
		f.hhea = hheaTab(m & 0xFFFF)
	} else {
		f.hmtx = nil
	}
	f.head = headTab(sym.Param("long", 0) == 1)
	zero := make([]byte, 270000)
	// the tables in question overlap in one large area of zeros
	ts := f.tables()
	b := sfnt(append(ts, tbl{"zzzz", zero}))
	o := get32(b, recOff(b, "zzzz")+8)
	set32(b, recOff(b, "loca")+8, o)
	set32(b, recOff(b, "loca")+12, 65536*4)
	if f.hmtx != nil {
		set32(b, recOff(b, "hmtx")+8, o)
		set32(b, recOff(b, "hmtx")+12, 65536*4)
	}
	if sym.Bool("cut") {
		b = b[:int(o)+sym.Param("tail", 131070)]
	}
	tryParse(b)
}

// C02Dup: a directory that lists a tag twice.
func C02Dup() {
	tag := []string{"zzzz", "prep", "cvt", "name"}[sym.Param("t", 0)]
	f := newFnt([][]byte{simpleGlyph(12, 1), nil, simpleGlyph(14, 2)}, 1, true)
	d := []byte{1, 2, 3, 4, 5, 6}
	if tag == "name" {
		d = nameTab([]nrec{{1, 0, 0, 1, []byte("ab")}}, 0, nil)
	}
	f.add(tag, d).add("mmmm", []byte{7}).add(tag, append([]byte(nil), d...))
	b := f.bytes()
	k := sym.Param("k", 0)
	for i := 12; i < 12+16*int(get16(b, 4)); i += 16 {
		if string(b[i:i+4]) == (tag + "    ")[:4] {
			if k == 0 {
				copy(b[i+4:i+8], sym.Bytes("sum", 4))
			}
			k--
		}
	}
	if sym.Param("adj", 0) == 0 {
		fixAdj(b)
	} else {
		h := int(get32(b, recOff(b, "head")+8))
		copy(b[h+8:h+12], sym.Bytes("adj", 4))
	}
	checkVerdict(b)
}

// C12Set: any list of k indices of a font without composites, in any order.
func C12Set() {
	n := sym.Param("n", 6)
	gl := make([][]byte, n)
	for i := range gl {
		gl[i] = simpleGlyph(10+2*(i%3), byte(i))
	}
	f := newFnt(gl, 2, sym.Param("long", 1) == 1)
	b := f.bytes()
	in := open(b)
	u := mustParse(b)
	var req []unitype.GlyphIndex
	need := make([]bool, n)
	for i := 0; i < sym.Param("k", 3); i++ {
		lo := 0
		if i > 0 && sym.Param("up", 0) == 1 {
			lo = int(req[i-1]) + 1
		}
		if lo >= n {
			break
		}
		g := lo + sym.Choose("want", n-lo)
		need[g] = true
		req = append(req, unitype.GlyphIndex(g))
	}
	v, err := u.SubsetKeepIndices(req)
	sym.Assert(err == nil && v != nil, "subsetting succeeds")
	subsetRight(in, v, need, false, false)
	sym.Reach("done")
}
