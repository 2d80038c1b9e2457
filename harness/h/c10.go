package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// where looks a character up in the maps of a file in the documented order.
func where(refs []ref, ch uint32) uint32 {
	for _, k := range [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}} {
		for _, r := range refs {
			if r.pid != k[0] || r.eid != k[1] || !supported(r.format) {
				continue
			}
			code := ch
			if r.pid == 1 {
				// only ASCII is asked for
				if ch >= 128 {
					break
				}
			}
			g, _ := r.lookup(code)
			if g != 0 {
				return g
			}
			break // only the first subtable of an encoding counts
		}
	}
	return 0
}

// lookupFont has the four maps of the search order as the bits of have say, and others that
// must not matter, in the order of a real font or reversed.
func lookupFont(have int, decoy, rev, dup bool) *fnt {
	n := 9
	f := plain(n)
	g := func() uint16 {
		x := sym.U16("gid")
		sym.Assume(x < uint16(n))
		sym.Assume(x > 0)
		return x
	}
	f4 := func() []byte {
		return fmt4(0, []seg{{0x41, 0x42, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{g(), g()})
	}
	var subs []csub
	if decoy {
		subs = append(subs, csub{0, 4, fmt12(0, []grp{{0x40, 0x45, 1}})})
	}
	if have&4 != 0 {
		subs = append(subs, csub{0, 3, fmt4(0, []seg{{0x42, 0x43, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{g(), g()})})
	}
	if have&2 != 0 {
		subs = append(subs, csub{1, 0, fmt6(0, 0x41, []uint16{g(), g(), g()})})
		if dup {
			a := make([]byte, 256)
			a[0x41], a[0x44] = 7, 8
			subs = append(subs, csub{1, 0, fmt0(3, a)})
		}
	}
	if decoy {
		subs = append(subs, csub{3, 0, fmt6(0, 0x40, []uint16{5, 5, 5, 5, 5, 5})})
	}
	if have&1 != 0 {
		subs = append(subs, csub{3, 1, f4()})
		if dup {
			subs = append(subs, csub{3, 1, fmt6(0, 0x40, []uint16{4, 4, 4, 4, 4})})
		}
	}
	if have&8 != 0 {
		x := uint32(g())
		sym.Assume(x < 6)
		subs = append(subs, csub{3, 10, fmt12(0, []grp{{0x41, 0x44, x}, {0x1F600, 0x1F600, 2}})})
		if dup {
			subs = append(subs, csub{3, 10, fmt4(0, []seg{{0x41, 0x44, 0xFFC0, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)})
		}
	}
	if rev {
		var r []csub
		for i := len(subs) - 1; i >= 0; i-- {
			r = append(r, subs[i])
		}
		subs = r
	}
	f.add("cmap", cmapTab(subs))
	return f
}

// C10Order: the maps of the search order in every combination.
func C10Order() {
	have := sym.Choose("have", 16)
	f := lookupFont(have, sym.Param("decoy", 0) == 1, sym.Param("rev", 0) == 1, sym.Param("dup", 0) == 1)
	b := f.bytes()
	u := mustParse(b)
	in := open(b)
	refs, ok := cmapRefs(in.tab("cmap"))
	sym.Assert(ok, "input map readable")
	c1, c2 := sym.U32("rune"), uint32(0x41)
	sym.Assume(sym.Or(c1 < 0xD800, c1 > 0xDFFF))
	// the Macintosh map holds ASCII only
	runes := []rune{rune(c1), rune(c2), 0x1F600}
	got := u.LookupRunes(runes)
	sym.Assert(len(got) == 3, "one glyph per character")
	sym.Assert(uint32(got[0]) == where(refs, c1), "glyph of the first map with the character (arbitrary character)")
	sym.Assert(uint32(got[1]) == where(refs, c2), "glyph of the first map with the character")
	sym.Assert(uint32(got[2]) == where(refs, 0x1F600), "glyph of the first map with the character (beyond the BMP)")
	sym.Reach("done")
}

// C10Again: the same font and characters give the same answer, whatever the order maps
// are iterated in.
func C10Again() {
	have := sym.Choose("have", 16)
	f := lookupFont(have, sym.Param("decoy", 1) == 1, sym.Param("rev", 0) == 1, true)
	b := f.bytes()
	c := sym.U32("rune")
	runes := []rune{rune(c), 0x42}
	var res [][]unitype.GlyphIndex
	for i := 0; i < 2; i++ {
		sym.MapOrder(i)
		u := mustParse(b)
		res = append(res, u.LookupRunes(runes), u.LookupRunes(runes))
	}
	sym.MapOrder(0)
	for _, r := range res[1:] {
		sym.Assert(len(r) == 2, "one glyph per character")
		sym.Assert(sym.And(r[0] == res[0][0], r[1] == res[0][1]), "same answer")
	}
	sym.Reach("done")
}

// C10None: no character map at all, and an empty request.
func C10None() {
	f := rich(false)
	if sym.Bool("none") {
		f.drop("cmap")
		u := mustParse(f.bytes())
		g := u.LookupRunes([]rune{rune(sym.U32("rune")), rune(sym.U32("rune"))})
		sym.Assert(len(g) == 2 && g[0] == 0 && g[1] == 0, "glyph 0 without a map")
	}
	u := mustParse(f.bytes())
	sym.Assert(len(u.LookupRunes(nil)) == 0, "nothing for nothing")
	sym.Reach("done")
}

// C10List: lists with neighbours, repetitions and several arbitrary characters.
func C10List() {
	n := 9
	f := plain(n)
	var subs []csub
	switch sym.Param("maps", 0) {
	case 0:
		subs = []csub{{3, 1, fmt4(0, []seg{{0x41, 0x43, 0xFFC0, 0}, {0x61, 0x64, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{5, 0, 7, 8})}}
	case 1:
		subs = []csub{{1, 0, fmt6(0, 0x41, []uint16{1, 2, 3})}, {3, 1, fmt4(0, []seg{{0x43, 0x43, 0xFFC5, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)}}
	case 2:
		subs = []csub{{0, 3, fmt4(0, []seg{{0x41, 0x42, 0xFFC0, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)}, {3, 10, fmt12(0, []grp{{0x43, 0x44, 3}, {0x1F600, 0x1F601, 6}})}}
	}
	f.add("cmap", cmapTab(subs))
	b := f.bytes()
	u := mustParse(b)
	refs, ok := cmapRefs(open(b).tab("cmap"))
	sym.Assert(ok, "input map readable")
	c, d := sym.U32("rune"), sym.U32("other")
	sym.Assume(sym.Or(c < 0xD800, c > 0xDFFF))
	sym.Assume(sym.Or(d < 0xD800, d > 0xDFFF))
	sym.Assume(sym.And(c > 0, c < 0x7FFFFFFE))
	ask := []uint32{c, c + 1, d, c, c - 1, d, 0x41}
	var runes []rune
	for _, r := range ask {
		runes = append(runes, rune(r))
	}
	got := u.LookupRunes(runes)
	sym.Assert(len(got) == len(ask), "one glyph per character")
	for i, r := range ask {
		sym.Assert(uint32(got[i]) == where(refs, r), "glyph of the first map with the character, whatever else is asked for")
	}
	sym.Reach("done")
}

// C10ByMap: maps that send characters to glyph 0, and characters that are none.
func C10ByMap() {
	n := 6
	f := plain(n)
	g := func() uint16 { return symGid(n) }
	fm := func(i int) []byte {
		first := []uint16{0x41, 0xFC, 0x20, 0x100}[sym.Param("first", 0)]
		switch (sym.Param("format", 0) + i) % 3 {
		case 0:
			return fmt4(0, []seg{{first, first + 2, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{g(), g(), g()})
		case 1:
			a := make([]byte, 256)
			for j := uint16(0); j < 3 && first+j < 256; j++ {
				a[first+j] = byte(g())
			}
			return fmt0(0, a)
		default:
			x := uint32(g())
			return fmt12(0, []grp{{uint32(first), uint32(first), x}, {uint32(first) + 1, uint32(first) + 1, uint32(g())}})
		}
	}
	var subs []csub
	for i, k := range [][2]uint16{{0, 3}, {1, 0}, {3, 1}, {3, 10}} {
		if k[0] == 1 && sym.Param("first", 0) != 0 && sym.Param("first", 0) != 2 {
			continue
		}
		if sym.Bool("have") {
			subs = append(subs, csub{k[0], k[1], fm(i)})
		}
	}
	f.add("cmap", cmapTab(subs))
	u := mustParse(f.bytes())
	runes := []rune{-1, 0x110000, 0xFFFF, 0}
	for r := rune(0x40); r < 0x44; r++ {
		runes = append(runes, r, r-0x20, r+0xC0, r+0xBA)
	}
	got := u.LookupRunes(runes)
	sym.Assert(len(got) == len(runes), "one glyph per character")
	for i, r := range runes {
		var want unitype.GlyphIndex
		for _, k := range [][2]int{{3, 1}, {1, 0}, {0, 3}, {3, 10}} {
			if x, has := u.GetCmap(k[0], k[1])[r]; has {
				want = x
				break
			}
		}
		sym.Assert(got[i] == want, "glyph of the first map with the character")
	}
	sym.Reach("done")
}
