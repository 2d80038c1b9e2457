package h

import "github.com/unidoc/unitype/vpharness/sym"

// mapsKept compares the character map subtables of two files.
func mapsKept(in, out *file) {
	a, ok := cmapRefs(in.tab("cmap"))
	sym.Assert(ok, "input map readable")
	b, ok2 := cmapRefs(out.tab("cmap"))
	sym.Assert(ok2, "written map readable")
	code := sym.U32("code")
	sym.Assert(out.has("cmap"), "character map written")
	var want []ref
	for _, r := range a {
		if supported(r.format) {
			want = append(want, r)
		}
	}
	sym.Assert(len(b) >= len(want), "as many subtables as before")
	used := make([]bool, len(b))
	for _, r := range want {
		found := false
		for j, s := range b {
			if !used[j] && s.pid == r.pid && s.eid == r.eid {
				used[j], found = true, true
				g, ok := r.lookup(code)
				if ok {
					g2, ok2 := s.lookup(code)
					sym.Assert(ok2, "written subtable is well-formed")
					sym.Assert(g == g2, "code mapped to the same glyph")
				}
				break
			}
		}
		sym.Assert(found, "subtable still there")
	}
	sym.Reach("compared")
}

func C09Fmt4() {
	n, k, w, ng := sym.Param("n", 5), sym.Param("k", 1), sym.Param("w", 2), sym.Param("g", 2)
	segs := symSegs(k, w, ng)
	sym.Assume(segs[k-1].end < 0xFFFF)
	var gids []uint16
	for i := 0; i < ng; i++ {
		gids = append(gids, sym.U16("gid"))
	}
	last := seg{0xFFFF, 0xFFFF, 1, 0}
	last.delta = sym.U16("last")
	sub := fmt4(sym.U16("lang"), append(segs, last), gids)
	f := plain(n)
	f.add("cmap", cmapTab([]csub{{3, 1, sub}}))
	in, out, ok := through(f.bytes())
	if ok {
		mapsKept(in, out)
		sym.Reach("done")
	}
}

// C09Mix: subtables of every format, several for one encoding, shared and unsupported ones.
func C09Mix() {
	f := plain(8)
	only := sym.Param("sym", 0) // the subtable with arbitrary contents
	gid := func(k int, def uint16) uint16 {
		if k == only {
			return symGid(8)
		}
		return def
	}
	a0 := make([]byte, 256)
	a0[65], a0[200], a0[255] = 3, 4, 5
	if only == 0 {
		a0[65], a0[200] = sym.U8("g"), sym.U8("g")
	}
	s0 := fmt0(sym.U16("lang"), a0)
	first := uint16(70)
	if only == 6 {
		first = sym.U16("first")
		sym.Assume(first < 250)
	}
	s6 := fmt6(sym.U16("lang"), first, []uint16{gid(6, 1), gid(6, 2)})
	g12 := []grp{{0x10000, 0x10001, 1}, {0x1F600, 0x1F603, 4}}
	if only == 12 {
		st := sym.U32("start")
		sym.Assume(st < 0x1F600)
		g12[0] = grp{st, st + 1, uint32(gid(12, 0))}
	}
	s12 := fmt12(sym.U32("lang"), g12)
	delta := uint16(0xFFC0)
	if only == 4 {
		delta = sym.U16("delta")
	}
	s4 := fmt4(sym.U16("lang"), []seg{{0x41, 0x43, delta, 0}, {0x61, 0x62, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{gid(4, 5), gid(4, 6)})
	u14 := []byte{0, 14, 0, 0, 0, 10, 0, 0, 0, 0}
	u2 := append(put16(put16(put16(nil, 2), 10), 0), 1, 2, 3, 4)
	var subs []csub
	switch sym.Param("mix", 0) {
	case 0:
		subs = []csub{{0, 3, s4}, {1, 0, s0}, {3, 1, s4}, {3, 10, s12}}
	case 1:
		subs = []csub{{0, 5, u14}, {1, 0, s6}, {1, 0, s0}, {3, 0, u2}, {3, 1, s4}}
	case 2:
		subs = []csub{{3, 1, s6}, {3, 1, append([]byte(nil), s6...)}, {3, 10, u2}}
		set16(subs[1].data, 8, 1)
		subs[1].data = subs[1].data[:12]
	case 3:
		subs = []csub{{0, 0, s6}, {0, 1, s0}, {0, 4, s12}, {3, 0, s4}, {3, 10, s12}}
	case 4:
		subs = []csub{{3, 2, u2}, {0, 5, u14}}
	}
	t := cmapTab(subs)
	if sym.Param("mix", 0) == 0 {
		// records that share a subtable
		copy(t[4+16+4:4+16+8], t[4+4:4+8])
	}
	f.add("cmap", t)
	b := f.bytes()
	u, err := parse(b)
	if err != nil {
		return // glyph out of range
	}
	in, out := open(b), reopen(mustWrite(u))
	mapsKept(in, out)
	accepted(out.b)
	sym.Reach("done")
}

// C09Big: a segment map and a glyph array of some size.
func C09Big() {
	n := 600
	f := plain(n)
	var segs []seg
	var gids []uint16
	k := 40
	for i := 0; i < k; i++ {
		c := uint16(100 + 20*i)
		if i%2 == 0 {
			segs = append(segs, seg{c, c + 9, uint16(i) - c, 0})
		} else {
			segs = append(segs, seg{c, c + 9, 0, uint16(2*(k+1-i) + 2*len(gids))})
			for j := 0; j < 10; j++ {
				gids = append(gids, uint16(5*i+j))
			}
		}
	}
	segs = append(segs, seg{0xFFFF, 0xFFFF, 1, 0})
	gids[sym.Choose("at", 3)*99] = symGid(n)
	var arr []uint16
	for i := 0; i < 300; i++ {
		arr = append(arr, uint16(i))
	}
	arr[256] = symGid(n)
	var gr []grp
	for i := uint32(0); i < 30; i++ {
		gr = append(gr, grp{0x10000 + 16*i, 0x10000 + 16*i + 3, 4 * i})
	}
	f.add("cmap", cmapTab([]csub{{0, 3, fmt6(0, 0x100, arr)}, {3, 1, fmt4(0, segs, gids)}, {3, 10, fmt12(0, gr)}}))
	b := f.bytes()
	u := mustParse(b)
	mapsKept(open(b), reopen(mustWrite(u)))
	sym.Reach("done")
}

// C09Last: the segment that ends at 0xFFFF maps more than the end marker.
func C09Last() {
	n := 7
	f := plain(n)
	start := uint16(0xFFFF - sym.Choose("width", 5))
	first := seg{0x41, 0x42, 0xFFC0, 0}
	var gids []uint16
	last := seg{start, 0xFFFF, sym.U16("delta"), 0}
	if sym.Param("arr", 0) == 1 {
		last.delta, last.ro = 0, 2
		for i := 0; i < 5; i++ {
			gids = append(gids, symGid(n))
		}
	}
	sub := fmt4(0, []seg{first, last}, gids)
	f.add("cmap", cmapTab([]csub{{3, 1, sub}}))
	in, out, ok := through(f.bytes())
	if ok {
		mapsKept(in, out)
		sym.Reach("done")
	}
}

// C09Ids: arbitrary platforms and encodings.
func C09Ids() {
	f := plain(8)
	p, e := sym.U16("platform"), sym.U16("encoding")
	if sym.Param("wide", 0) == 0 {
		p = pick("platform", 0, 1, 3)
	} else {
		e = pick("encoding", 0, 1, 10, 0x100, 0x101, 0x20A)
	}
	a := make([]byte, 256)
	a[65], a[66], a[255] = 1, 2, 3
	var s []byte
	switch sym.Param("format", 6) {
	case 0:
		s = fmt0(3, a)
	case 4:
		s = fmt4(3, []seg{{0x41, 0x43, 0xFFC0, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)
	case 6:
		s = fmt6(3, 0x41, []uint16{4, 5})
	case 12:
		s = fmt12(3, []grp{{0x41, 0x43, 5}})
	}
	f.add("cmap", cmapTab([]csub{{1, 0, fmt6(0, 0x41, []uint16{2, 1})}, {p, e, s}}))
	in, out, ok := through(f.bytes())
	if ok {
		mapsKept(in, out)
		sym.Reach("done")
	}
}

func pick(name string, vals ...uint16) uint16 { return vals[sym.Choose(name, len(vals))] }

// C09Alias: several encodings with one subtable.
func C09Alias() {
	f := plain(6)
	format := sym.Param("format", 4)
	a := sym.Choose("a", 5)
	k := 0
	g := func() uint16 {
		if k++; k == 3*a+1 {
			return symGid(6)
		}
		return uint16(1 + k%5)
	}
	sub := func(format int) []byte {
		switch format {
		case 0:
			a := make([]byte, 256)
			a[65], a[66], a[90] = byte(g()), byte(g()), byte(g())
			return fmt0(0, a)
		case 6:
			return fmt6(0, 65, []uint16{g(), g(), g()})
		case 12:
			return fmt12(0, []grp{{65, 65, uint32(g())}, {66, 66, uint32(g())}, {70, 70, uint32(g())}})
		}
		return fmt4(0, []seg{{65, 67, 0, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{g(), g(), g()})
	}
	encs := [][2]uint16{{0, 3}, {1, 0}, {3, 0}, {3, 1}, {3, 10}}
	var subs []csub
	for i, e := range encs {
		x := format
		if i == sym.Param("other", -1) {
			x = 6 - format%12
		}
		subs = append(subs, csub{e[0], e[1], sub(x)})
	}
	t := cmapTab(subs)
	for i := range encs { // those after a share with it, or a few of them
		if i > a && sym.Bool("share") {
			copy(t[4+8*i+4:4+8*i+8], t[4+8*a+4:4+8*a+8])
		}
	}
	f.add("cmap", t)
	in, out, ok := through(f.bytes())
	sym.Assert(ok, "accepted and written")
	mapsKept(in, out)
	sym.Reach("done")
}
