// Package h holds the harnesses: the properties stated over the exported API of unitype,
// with an independent font builder and an independent reader as the oracle.
package h

import (
	"bytes"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// ---- building font images ----

type tbl struct {
	tag  string
	data []byte
}

func put16(b []byte, v uint16) []byte { return append(b, byte(v>>8), byte(v)) }
func put32(b []byte, v uint32) []byte {
	return append(b, byte(v>>24), byte(v>>16), byte(v>>8), byte(v))
}

func get16(b []byte, i int) uint16 { return uint16(b[i])<<8 | uint16(b[i+1]) }
func get32(b []byte, i int) uint32 {
	return uint32(b[i])<<24 | uint32(b[i+1])<<16 | uint32(b[i+2])<<8 | uint32(b[i+3])
}
func set16(b []byte, i int, v uint16) { b[i], b[i+1] = byte(v>>8), byte(v) }
func set32(b []byte, i int, v uint32) {
	b[i], b[i+1], b[i+2], b[i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
}

// sum32 is the checksum of the format: big endian words, zero padded.
func sum32(b []byte) uint32 {
	var s uint32
	i := 0
	for ; i+4 <= len(b); i += 4 {
		s += get32(b, i)
	}
	if i < len(b) {
		var w [4]byte
		for j := 0; i+j < len(b); j++ {
			w[j] = b[i+j]
		}
		s += get32(w[:], 0)
	}
	return s
}

// search fields of the offset table for n tables
func searchFields(n int) (sr, es, rs uint16) {
	p, e := 1, 0
	for p*2 <= n {
		p *= 2
		e++
	}
	if n == 0 {
		return 0, 0, 0
	}
	return uint16(p * 16), uint16(e), uint16(n*16 - p*16)
}

func tag4(s string) string {
	for len(s) < 4 {
		s += " "
	}
	return s
}

// sfnt lays the tables out in the given order, each padded to four bytes, with correct
// checksums and file adjustment (when there is a head table of at least 12 bytes).
func sfnt(tabs []tbl) []byte {
	n := len(tabs)
	sr, es, rs := searchFields(n)
	out := put32(nil, 0x00010000)
	out = put16(out, uint16(n))
	out = put16(out, sr)
	out = put16(out, es)
	out = put16(out, rs)
	off := 12 + 16*n
	head := -1
	for _, t := range tabs {
		d := t.data
		if t.tag == "head" && len(d) >= 12 {
			head = off
			d = append([]byte(nil), d...)
			set32(d, 8, 0)
		}
		out = append(out, tag4(t.tag)...)
		out = put32(out, sum32(d))
		out = put32(out, uint32(off))
		out = put32(out, uint32(len(d)))
		off += (len(d) + 3) &^ 3
	}
	for _, t := range tabs {
		out = append(out, t.data...)
		for len(out)%4 != 0 {
			out = append(out, 0)
		}
	}
	if head >= 0 {
		set32(out, head+8, 0)
		set32(out, head+8, 0xB1B0AFBA-sum32(out))
	}
	return out
}

// recOff is the position of the table record of tag in an image made by sfnt, -1 if absent.
func recOff(b []byte, tag string) int {
	n := int(get16(b, 4))
	for i := 0; i < n; i++ {
		if string(b[12+16*i:16+16*i]) == tag4(tag) {
			return 12 + 16*i
		}
	}
	return -1
}

// ---- tables with fixed, plausible contents ----

func headTab(long bool) []byte {
	b := put32(nil, 0x00010000)
	b = put32(b, 0x00021234) // revision
	b = put32(b, 0)          // adjustment
	b = put32(b, 0x5F0F3CF5)
	b = put16(b, 0x000B) // flags
	b = put16(b, 1000)
	b = append(b, 0, 0, 0, 0, 0xC0, 1, 2, 3) // created
	b = append(b, 0, 0, 0, 0, 0xC5, 4, 5, 6) // modified
	b = put16(b, 0xFFF6)
	b = put16(b, 0xFF38)
	b = put16(b, 900)
	b = put16(b, 800)
	b = put16(b, 1)
	b = put16(b, 8)
	b = put16(b, 2)
	if long {
		b = put16(b, 1)
	} else {
		b = put16(b, 0)
	}
	b = put16(b, 0)
	return b
}

func maxpTab(n int) []byte {
	b := put32(nil, 0x00010000)
	b = put16(b, uint16(n))
	for i := 0; i < 13; i++ {
		b = put16(b, uint16(100+i))
	}
	return b
}

func hheaTab(nHM int) []byte {
	b := put32(nil, 0x00010000)
	for i := 0; i < 10; i++ {
		b = put16(b, uint16(700+i))
	}
	for i := 0; i < 4; i++ {
		b = put16(b, 0)
	}
	b = put16(b, 0)
	b = put16(b, uint16(nHM))
	return b
}

func hmtxTab(n, nHM int) []byte {
	var b []byte
	for i := 0; i < nHM; i++ {
		b = put16(b, uint16(500+10*i))
		b = put16(b, uint16(i))
	}
	for i := nHM; i < n; i++ {
		b = put16(b, uint16(0xFFF0-i))
	}
	return b
}

// loca from byte offsets
func locaTab(offs []int, long bool) []byte {
	var b []byte
	for _, o := range offs {
		if long {
			b = put32(b, uint32(o))
		} else {
			b = put16(b, uint16(o/2))
		}
	}
	return b
}

// layout of glyph data one after another
func packed(glyphs [][]byte) (glyf []byte, offs []int) {
	offs = append(offs, 0)
	for _, g := range glyphs {
		glyf = append(glyf, g...)
		offs = append(offs, len(glyf))
	}
	return
}

// fnt is a font under construction.
type fnt struct {
	n, nHM int
	long   bool
	head, maxp, hhea, hmtx,
	loca, glyf []byte
	extra []tbl
}

func newFnt(glyphs [][]byte, nHM int, long bool) *fnt {
	n := len(glyphs)
	g, offs := packed(glyphs)
	return &fnt{n: n, nHM: nHM, long: long, head: headTab(long), maxp: maxpTab(n), hhea: hheaTab(nHM), hmtx: hmtxTab(n, nHM), loca: locaTab(offs, long), glyf: g}
}

func (f *fnt) add(tag string, data []byte) *fnt { f.extra = append(f.extra, tbl{tag, data}); return f }

func (f *fnt) tables() []tbl {
	t := []tbl{{"head", f.head}, {"maxp", f.maxp}, {"hhea", f.hhea}}
	if f.hmtx != nil {
		t = append(t, tbl{"hmtx", f.hmtx})
	}
	t = append(t, tbl{"loca", f.loca})
	if f.glyf != nil {
		t = append(t, tbl{"glyf", f.glyf})
	}
	return append(t, f.extra...)
}

// order gives the directory order asked for by the parameter "rot": rotated left, or
// reversed (100).
func order(t []tbl) []tbl {
	r := sym.Param("rot", 0)
	if r == 100 {
		var o []tbl
		for i := len(t) - 1; i >= 0; i-- {
			o = append(o, t[i])
		}
		return o
	}
	if len(t) > 0 {
		r %= len(t)
		t = append(append([]tbl(nil), t[r:]...), t[:r]...)
	}
	return t
}

func (f *fnt) bytes() []byte { return sfnt(order(f.tables())) }

// simple glyph data of the given length (a multiple of two, at least 10): one header and filler
func simpleGlyph(n int, fill byte) []byte {
	b := put16(nil, 1)
	for i := 0; i < 4; i++ {
		b = put16(b, uint16(i)*10)
	}
	for i := 10; i < n; i++ {
		b = append(b, fill+byte(i))
	}
	return b
}

// composite glyph referring to the given glyphs (byte args, no transform)
func compGlyph(gids ...uint16) []byte {
	b := put16(nil, 0xFFFF)
	for i := 0; i < 4; i++ {
		b = put16(b, uint16(i)*7)
	}
	for i, g := range gids {
		fl := uint16(2)
		if i+1 < len(gids) {
			fl |= 0x20
		}
		b = put16(b, fl)
		b = put16(b, g)
		b = append(b, byte(i), byte(2*i))
	}
	return b
}

// ---- reading images ----

// file is an independent view of a font image.
type file struct {
	b    []byte
	tabs map[string][2]int
	tags []string
	ok   bool
	why  string
}

func (f *file) fail(why string) *file { f.ok, f.why = false, why; return f }

// open reads the directory of b.
func open(b []byte) *file {
	f := &file{b: b, tabs: map[string][2]int{}, ok: true}
	if len(b) < 12 {
		return f.fail("no offset table")
	}
	n := int(get16(b, 4))
	if len(b) < 12+16*n {
		return f.fail("table directory does not fit")
	}
	for i := 0; i < n; i++ {
		r := 12 + 16*i
		tag := string(b[r : r+4])
		off, l := int(get32(b, r+8)), int(get32(b, r+12))
		if off > len(b) || l > len(b)-off {
			return f.fail("table " + tag + " outside the file")
		}
		if _, dup := f.tabs[tag]; dup {
			return f.fail("table " + tag + " twice")
		}
		f.tabs[tag] = [2]int{off, l}
		f.tags = append(f.tags, tag)
	}
	return f
}

func (f *file) has(tag string) bool { _, ok := f.tabs[tag4(tag)]; return ok }

// tab returns the data of a table, nil if absent.
func (f *file) tab(tag string) []byte {
	x, ok := f.tabs[tag4(tag)]
	if !ok {
		return nil
	}
	return f.b[x[0] : x[0]+x[1] : x[0]+x[1]]
}

func (f *file) numGlyphs() int {
	t := f.tab("maxp")
	if len(t) < 6 {
		return -1
	}
	return int(get16(t, 4))
}

func (f *file) longLoca() bool {
	t := f.tab("head")
	return len(t) >= 52 && get16(t, 50) == 1
}

// glyph returns the data of glyph i according to loca; ok is false when it is out of bounds.
func (f *file) glyph(i int) ([]byte, bool) {
	l, g := f.tab("loca"), f.tab("glyf")
	var a, b int
	if f.longLoca() {
		if 4*i+8 > len(l) {
			return nil, false
		}
		a, b = int(get32(l, 4*i)), int(get32(l, 4*i+4))
	} else {
		if 2*i+4 > len(l) {
			return nil, false
		}
		a, b = 2*int(get16(l, 2*i)), 2*int(get16(l, 2*i+2))
	}
	if a > b || b > len(g) {
		return nil, false
	}
	return g[a:b:b], true
}

// metric returns advance width and left side bearing of glyph i.
func (f *file) metric(i int) (aw, lsb uint16, ok bool) {
	hh, hm := f.tab("hhea"), f.tab("hmtx")
	if len(hh) < 36 {
		return 0, 0, false
	}
	k := int(get16(hh, 34))
	if k == 0 {
		return 0, 0, false
	}
	if i < k {
		if 4*i+4 > len(hm) {
			return 0, 0, false
		}
		return get16(hm, 4*i), get16(hm, 4*i+2), true
	}
	p := 4*k + 2*(i-k)
	if p+2 > len(hm) || 4*k > len(hm) {
		return 0, 0, false
	}
	return get16(hm, 4*(k-1)), get16(hm, p), true
}

// ---- driving unitype ----

func parse(b []byte) (*unitype.Font, error) { return unitype.Parse(bytes.NewReader(b)) }

// mustParse: the image is one the library has to accept.
func mustParse(b []byte) *unitype.Font {
	f, err := parse(b)
	sym.Assert(err == nil, "a well-formed font is accepted by Parse")
	return f
}

func write(f *unitype.Font) ([]byte, error) {
	var w bytes.Buffer
	err := f.Write(&w)
	return w.Bytes(), err
}

func mustWrite(f *unitype.Font) []byte {
	b, err := write(f)
	sym.Assert(err == nil, "a parsed well-formed font can be written")
	return b
}

// reopen checks the directory of an output and returns the view.
func reopen(b []byte) *file {
	f := open(b)
	sym.Assert(f.ok, "the written file has a well-formed table directory")
	return f
}

func same(a, b []byte, msg string) {
	sym.Assert(len(a) == len(b), msg+" (length)")
	sym.Assert(sym.EqBytes(a, b), msg)
}
