package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// ---- optional tables ----

func os2Len(version int) int {
	switch {
	case version == 0:
		return 78
	case version == 1:
		return 86
	case version < 5:
		return 96
	}
	return 100
}

func os2Tab(version int) []byte {
	b := put16(nil, uint16(version))
	for i := 2; i < os2Len(version); i++ {
		b = append(b, byte(i*3))
	}
	return b
}

func postHead(version uint32) []byte {
	b := put32(nil, version)
	b = put32(b, 0xFFF38000)
	b = put16(b, 0xFF9C)
	b = put16(b, 50)
	b = put32(b, 1)
	b = put32(b, 11)
	b = put32(b, 12)
	b = put32(b, 13)
	b = put32(b, 14)
	return b
}

// postTab2 is a version 2 table with the given name indices and strings.
func postTab2(idx []uint16, names []string) []byte {
	b := postHead(0x00020000)
	b = put16(b, uint16(len(idx)))
	for _, i := range idx {
		b = put16(b, i)
	}
	for _, s := range names {
		b = append(b, byte(len(s)))
		b = append(b, s...)
	}
	return b
}

type nrec struct {
	pid, eid, lid, nid uint16
	data               []byte
}

// nameTab stores the strings one after another.
func nameTab(recs []nrec, format int, langs [][]byte) []byte {
	b := put16(nil, uint16(format))
	b = put16(b, uint16(len(recs)))
	hl := 6 + 12*len(recs)
	if format == 1 {
		hl += 2 + 4*len(langs)
	}
	b = put16(b, uint16(hl))
	var st []byte
	for _, r := range recs {
		b = put16(b, r.pid)
		b = put16(b, r.eid)
		b = put16(b, r.lid)
		b = put16(b, r.nid)
		b = put16(b, uint16(len(r.data)))
		b = put16(b, uint16(len(st)))
		st = append(st, r.data...)
	}
	if format == 1 {
		b = put16(b, uint16(len(langs)))
		for _, l := range langs {
			b = put16(b, uint16(len(l)))
			b = put16(b, uint16(len(st)))
			st = append(st, l...)
		}
	}
	return append(b, st...)
}

type csub struct {
	pid, eid uint16
	data     []byte
}

func cmapTab(subs []csub) []byte {
	b := put16(nil, 0)
	b = put16(b, uint16(len(subs)))
	off := 4 + 8*len(subs)
	for _, s := range subs {
		b = put16(b, s.pid)
		b = put16(b, s.eid)
		b = put32(b, uint32(off))
		off += len(s.data)
	}
	for _, s := range subs {
		b = append(b, s.data...)
	}
	return b
}

func fmt0(lang uint16, arr []byte) []byte {
	b := put16(nil, 0)
	b = put16(b, 262)
	b = put16(b, lang)
	return append(b, arr...)
}

// seg of a format 4 subtable; ro is the idRangeOffset as stored.
type seg struct{ start, end, delta, ro uint16 }

func fmt4(lang uint16, segs []seg, gids []uint16) []byte {
	n := len(segs)
	b := put16(nil, 4)
	b = put16(b, uint16(16+8*n+2*len(gids)))
	b = put16(b, lang)
	b = put16(b, uint16(2*n))
	p, e := 1, 0
	for 2*p <= n {
		p *= 2
		e++
	}
	b = put16(b, uint16(2*p))
	b = put16(b, uint16(e))
	b = put16(b, uint16(2*n-2*p))
	for _, s := range segs {
		b = put16(b, s.end)
	}
	b = put16(b, 0)
	for _, s := range segs {
		b = put16(b, s.start)
	}
	for _, s := range segs {
		b = put16(b, s.delta)
	}
	for _, s := range segs {
		b = put16(b, s.ro)
	}
	for _, g := range gids {
		b = put16(b, g)
	}
	return b
}

func fmt6(lang, first uint16, gids []uint16) []byte {
	b := put16(nil, 6)
	b = put16(b, uint16(10+2*len(gids)))
	b = put16(b, lang)
	b = put16(b, first)
	b = put16(b, uint16(len(gids)))
	for _, g := range gids {
		b = put16(b, g)
	}
	return b
}

type grp struct{ start, end, gid uint32 }

func fmt12(lang uint32, groups []grp) []byte {
	b := put16(nil, 12)
	b = put16(b, 0)
	b = put32(b, uint32(16+12*len(groups)))
	b = put32(b, lang)
	b = put32(b, uint32(len(groups)))
	for _, g := range groups {
		b = put32(b, g.start)
		b = put32(b, g.end)
		b = put32(b, g.gid)
	}
	return b
}

// ---- reading cmap subtables ----

// ref is an encoding record of a cmap table.
type ref struct {
	pid, eid, format int
	sub              []byte // from the start of the subtable to the end of the table
}

func cmapRefs(t []byte) ([]ref, bool) {
	if len(t) < 4 {
		return nil, false
	}
	n := int(get16(t, 2))
	if 4+8*n > len(t) {
		return nil, false
	}
	var out []ref
	for i := 0; i < n; i++ {
		r := 4 + 8*i
		off := int(get32(t, r+4))
		if off+2 > len(t) {
			return nil, false
		}
		out = append(out, ref{int(get16(t, r)), int(get16(t, r+2)), int(get16(t, off)), t[off:]})
	}
	return out, true
}

func supported(format int) bool { return format == 0 || format == 4 || format == 6 || format == 12 }

// lookup maps a character code to a glyph as the OpenType specification defines it; ok is
// false when the subtable is malformed where the lookup needs it.
func (r ref) lookup(code uint32) (gid uint32, ok bool) {
	s := r.sub
	switch r.format {
	case 0:
		if len(s) < 262 {
			return 0, false
		}
		if code > 255 {
			return 0, true
		}
		return uint32(s[6+code]), true
	case 4:
		if len(s) < 16 {
			return 0, false
		}
		n := int(get16(s, 6)) / 2
		l := int(get16(s, 2))
		if 16+8*n > l || l > len(s) {
			return 0, false
		}
		if code > 0xFFFF {
			return 0, true
		}
		for i := 0; i < n; i++ {
			end := uint32(get16(s, 14+2*i))
			if code > end {
				continue
			}
			start := uint32(get16(s, 16+2*n+2*i))
			if code < start {
				return 0, true
			}
			delta := uint32(get16(s, 16+4*n+2*i))
			rp := 16 + 6*n + 2*i
			ro := int(get16(s, rp))
			if ro == 0 {
				return (code + delta) & 0xFFFF, true
			}
			p := rp + ro + 2*int(code-start)
			if p+2 > l {
				return 0, false
			}
			g := uint32(get16(s, p))
			if g == 0 {
				return 0, true
			}
			return (g + delta) & 0xFFFF, true
		}
		return 0, true
	case 6:
		if len(s) < 10 {
			return 0, false
		}
		first, n := uint32(get16(s, 6)), uint32(get16(s, 8))
		if 10+2*int(n) > len(s) {
			return 0, false
		}
		if code < first || code >= first+n {
			return 0, true
		}
		return uint32(get16(s, 10+2*int(code-first))), true
	case 12:
		if len(s) < 16 {
			return 0, false
		}
		n := int(get32(s, 12))
		if n > (len(s)-16)/12 {
			return 0, false
		}
		for i := 0; i < n; i++ {
			a, b, g := get32(s, 16+12*i), get32(s, 20+12*i), get32(s, 24+12*i)
			if code >= a && code <= b {
				return g + (code - a), true
			}
		}
		return 0, true
	}
	return 0, false
}

// ---- composite glyphs ----

// components lists the glyphs a composite glyph refers to; ok is false when the data is
// truncated.
func components(g []byte) (gids []uint16, ok bool) {
	if len(g) == 0 {
		return nil, true
	}
	if len(g) < 10 {
		return nil, false
	}
	if g[0]&0x80 == 0 {
		return nil, true
	}
	p := 10
	instr := false
	for {
		if p+4 > len(g) {
			return nil, false
		}
		fl := get16(g, p)
		gids = append(gids, get16(g, p+2))
		p += 4
		if fl&1 != 0 {
			p += 4
		} else {
			p += 2
		}
		if fl&8 != 0 {
			p += 2
		} else if fl&0x40 != 0 {
			p += 4
		} else if fl&0x80 != 0 {
			p += 8
		}
		if fl&0x100 != 0 {
			instr = true
		}
		if p > len(g) {
			return nil, false
		}
		if fl&0x20 == 0 {
			break
		}
	}
	if instr && p == len(g) {
		return gids, false
	}
	return gids, true
}

// closure of the requested glyphs under composite references; ok is false when a needed
// glyph is malformed.
func (f *file) closure(req []unitype.GlyphIndex) (need map[int]bool, ok bool) {
	n := f.numGlyphs()
	need = map[int]bool{}
	var todo []int
	add := func(g int) {
		if !need[g] {
			need[g] = true
			todo = append(todo, g)
		}
	}
	for _, g := range req {
		add(sym.Concrete(int(g)))
	}
	for len(todo) > 0 {
		g := todo[0]
		todo = todo[1:]
		if g >= n {
			continue
		}
		d, in := f.glyph(g)
		if !in {
			return nil, false
		}
		cs, good := components(d)
		if !good {
			return nil, false
		}
		for _, c := range cs {
			add(sym.Concrete(int(c)))
		}
	}
	return need, true
}

// ---- a font with every table ----

// rich is a font of five glyphs (simple, simple, composite of 0 and 1, composite of the
// composite, empty) with every table the library handles.
func rich(long bool) *fnt {
	gl := [][]byte{simpleGlyph(12, 1), simpleGlyph(14, 0x40), compGlyph(0, 1), compGlyph(2), nil}
	f := newFnt(gl, 3, long)
	f.add("cvt", []byte{0, 1, 0xFF, 2})
	f.add("fpgm", []byte{0xB0, 1, 0x2D})
	f.add("prep", []byte{0xB1, 2, 3, 4, 5})
	f.add("name", nameTab([]nrec{
		{3, 1, 0x409, 1, []byte{0, 'A', 0, 'b'}},
		{1, 0, 0, 4, []byte("Mac")},
		{0, 3, 0, 6, []byte{0, 'u'}},
	}, 0, nil))
	f.add("OS/2", os2Tab(4))
	f.add("post", postTab2([]uint16{0, 258, 36, 259, 3}, []string{"alpha", "be"}))
	f.add("cmap", cmapTab([]csub{
		{0, 3, fmt4(0, []seg{{0x41, 0x43, 0xFFC0, 0}, {0xFFFF, 0xFFFF, 1, 0}}, nil)},
		{1, 0, fmt6(0, 0x40, []uint16{2, 1, 0, 3})},
		{3, 1, fmt4(0, []seg{{0x41, 0x42, 0xFFC0, 0}, {0x61, 0x63, 1, 4}, {0xFFFF, 0xFFFF, 1, 0}}, []uint16{3, 0, 1})},
		{3, 10, fmt12(0, []grp{{0x41, 0x42, 1}, {0x1F600, 0x1F601, 3}})},
	}))
	return f
}

// set replaces a table.
func (f *fnt) set(tag string, data []byte) *fnt {
	switch tag {
	case "head":
		f.head = data
	case "maxp":
		f.maxp = data
	case "hhea":
		f.hhea = data
	case "hmtx":
		f.hmtx = data
	case "loca":
		f.loca = data
	case "glyf":
		f.glyf = data
	default:
		for i := range f.extra {
			if f.extra[i].tag == tag {
				f.extra[i].data = data
				return f
			}
		}
		f.add(tag, data)
	}
	return f
}

// get returns a table.
func (f *fnt) get(tag string) []byte {
	for _, t := range f.tables() {
		if t.tag == tag {
			return t.data
		}
	}
	return nil
}

// drop removes an optional table.
func (f *fnt) drop(tag string) *fnt {
	switch tag {
	case "hmtx":
		f.hmtx = nil
	case "glyf":
		f.glyf = nil
	default:
		var e []tbl
		for _, t := range f.extra {
			if t.tag != tag {
				e = append(e, t)
			}
		}
		f.extra = e
	}
	return f
}

// sound: a reader that searches the subtable by halves finds its way: ascending segments or
// groups that do not overlap, the final segment, search fields and length.
func sound(r ref) bool {
	s := r.sub
	switch r.format {
	case 0:
		return len(s) >= 262 && get16(s, 2) == 262
	case 6:
		return len(s) >= 10 && int(get16(s, 2)) == 10+2*int(get16(s, 8))
	case 4:
		if len(s) < 24 {
			return false
		}
		n := sym.Concrete(int(get16(s, 6)))
		if n%2 != 0 || n == 0 {
			return false
		}
		n /= 2
		p, e := 1, 0
		for 2*p <= n {
			p *= 2
			e++
		}
		good := int(get16(s, 2)) >= 16+8*n && int(get16(s, 2)) <= len(s)
		if !good {
			return false
		}
		good = int(get16(s, 8)) == 2*p && int(get16(s, 10)) == e && int(get16(s, 12)) == 2*n-2*p
		good = sym.And(good, get16(s, 14+2*(n-1)) == 0xFFFF)
		for i := 0; i < n; i++ {
			start, end := get16(s, 16+2*n+2*i), get16(s, 14+2*i)
			good = sym.And(good, start <= end)
			if i > 0 {
				good = sym.And(good, get16(s, 14+2*(i-1)) < start)
			}
		}
		return good
	case 12:
		if len(s) < 16 {
			return false
		}
		n := sym.Concrete(int(get32(s, 12)))
		if n > (len(s)-16)/12 || int(get32(s, 4)) != 16+12*n {
			return false
		}
		good := true
		for i := 0; i < n; i++ {
			good = sym.And(good, get32(s, 16+12*i) <= get32(s, 20+12*i))
			if i > 0 {
				good = sym.And(good, get32(s, 20+12*(i-1)) < get32(s, 16+12*i))
			}
		}
		return good
	}
	return true
}
