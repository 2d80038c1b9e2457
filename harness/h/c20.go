package h

import (
	"strconv"
	"unicode"

	"github.com/unidoc/unitype/vpharness/sym"
)

// printable shows unprintable characters quoted, line feeds as they are.
func printable(rs []rune) string {
	s := ""
	for _, r := range rs {
		if unicode.IsPrint(r) || r == '\n' {
			s += string(r)
		} else {
			s += strconv.QuoteRune(r)
		}
	}
	return s
}

// utf16Text decodes UTF-16 big endian, unpaired surrogates becoming U+FFFD.
func utf16Text(b []byte) []rune {
	var out []rune
	for i := 0; i+1 < len(b); i += 2 {
		u := rune(b[i])<<8 | rune(b[i+1])
		switch {
		case u < 0xD800 || u > 0xDFFF:
			out = append(out, u)
		case u < 0xDC00 && i+3 < len(b) && b[i+2] >= 0xDC && b[i+2] <= 0xDF:
			l := rune(b[i+2])<<8 | rune(b[i+3])
			out = append(out, 0x10000+(u-0xD800)<<10+(l-0xDC00))
			i += 2
		default:
			out = append(out, 0xFFFD)
		}
	}
	return out
}

func macText(b []byte) []rune {
	var out []rune
	for _, c := range b {
		out = append(out, macRune(c))
	}
	return out
}

// nameText is the text of a naming record of one of the platforms specified.
func nameText(r nrec) string {
	if r.pid == 1 {
		return printable(macText(r.data))
	}
	return printable(utf16Text(r.data))
}

func namesFont(recs []nrec, format int) *fnt {
	return plain(2).add("name", nameTab(recs, format, [][]byte{{0, 'x'}}[:format]))
}

// C20Utf16: the text of a string with arbitrary UTF-16 units.
func C20Utf16() {
	n := sym.Param("n", 1)
	var d []byte
	for i := 0; i < n; i++ {
		u := sym.U16("unit")
		switch sym.Param("range", 0) {
		case 1: // surrogates, paired or not
			sym.Assume(u >= 0xD800)
			sym.Assume(u <= 0xDFFF)
		case 4: // some surrogates, with their order arbitrary
			sym.Assume(u >= 0xD83C)
			sym.Assume(u <= 0xDFFF)
			sym.Assume(sym.Or(u <= 0xD83D, sym.Or(u&0xFFF0 == 0xDC00, u&0xFFF0 == 0xDFF0)))
		case 2: // around the ends of the planes
			sym.Assume(u&0xFFF >= 0xFF0)
		case 3: // Latin and controls
			sym.Assume(u < 0x180)
		}
		d = put16(d, u)
	}
	if sym.Param("ends", 0) == 1 {
		d = append([]byte{0, 'a'}, append(d, 0x20, 0xAC)...)
	}
	r := nrec{uint16(sym.Param("pid", 3)), uint16(sym.Param("eid", 1)), 0x409, 4, d}
	u := mustParse(namesFont([]nrec{r}, 0).bytes())
	want := nameText(r)
	sym.Assert(sym.EqStr(u.GetNameByID(4), want), "text of a name")
	m := u.GetNameRecords()
	sym.Assert(len(m) == 1 && len(m[0x409]) == 1, "one name listed")
	sym.Assert(sym.EqStr(m[0x409][4], want), "text of a listed name")
	sym.Reach("done")
}

// C20Mac: the same for Macintosh strings.
func C20Mac() {
	r := nrec{1, 0, 0, 6, sym.Bytes("c", sym.Param("n", 1))}
	if sym.Param("ends", 0) == 1 {
		r.data = append([]byte{'a'}, append(r.data, 'z', 0x80)...)
	}
	if sym.Param("lang", 0) == 1 {
		r.lid = sym.U16("lid")
		r.data = []byte{0x80, 0xA8, 0xDB, 0xF0, 'b'}
	}
	u := mustParse(namesFont([]nrec{r}, 0).bytes())
	want := nameText(r)
	sym.Assert(sym.EqStr(u.GetNameByID(6), want), "text of a name")
	m := u.GetNameRecords()
	sym.Assert(len(m) == 1 && len(m[r.lid]) == 1, "one name listed")
	sym.Assert(sym.EqStr(m[r.lid][6], want), "text of a listed name")
	sym.Reach("done")
}

// C20Lang: the language does not change how a string is read.
func C20Lang() {
	r := nrec{uint16(sym.Param("pid", 3)), uint16(sym.Param("eid", 1)), sym.U16("lid"), sym.U16("nid"), []byte{0, 'b', 0x20, 0xAC, 0xD8, 0x3D, 0xDE, 0, 0x80, 0x85}}
	u := mustParse(namesFont([]nrec{r}, 0).bytes())
	want := nameText(r)
	sym.Assert(sym.EqStr(u.GetNameByID(int(r.nid)), want), "text of a name")
	m := u.GetNameRecords()
	sym.Assert(len(m) == 1 && len(m[r.lid]) == 1, "one name listed")
	sym.Assert(sym.EqStr(m[r.lid][r.nid], want), "text of a listed name")
	sym.Reach("done")
}

// someRecs: texts that tell the records apart, on different platforms.
func someRecs(n int) []nrec {
	var rs []nrec
	for i := 0; i < n; i++ {
		c := byte('a' + i)
		switch i % 3 {
		case 0:
			rs = append(rs, nrec{1, 0, 0, 0, []byte{c, c}})
		case 1:
			rs = append(rs, nrec{3, 1, 0x409, 0, []byte{0, c, 0, c}})
		case 2:
			rs = append(rs, nrec{0, 3, 0, 0, []byte{0, c}})
		}
	}
	return rs
}

// C20First: records with arbitrary identifiers, an arbitrary identifier asked for.
func C20First() {
	rs := someRecs(sym.Param("n", 3))
	for i := range rs {
		rs[i].nid = sym.U16("nid")
		rs[i].lid = sym.U16("lid")
	}
	u := mustParse(namesFont(rs, sym.Param("format", 0)).bytes())
	id := sym.Int("id")
	got := u.GetNameByID(id)
	for i := range rs {
		if int(rs[i].nid) == id {
			sym.Assert(sym.EqStr(got, nameText(rs[i])), "text of the first record with the identifier")
			sym.Reach("found")
			return
		}
	}
	sym.Assert(got == "", "empty text without a record")
	sym.Reach("none")
}

// C20List: the listing has exactly the pairs present.
func C20List() {
	rs := someRecs(sym.Param("n", 3))
	for i := range rs {
		rs[i].nid = sym.U16("nid")
		rs[i].lid = sym.U16("lid")
	}
	u := mustParse(namesFont(rs, sym.Param("format", 0)).bytes())
	m := u.GetNameRecords()
	pairs := 0
	for i := range rs {
		dup := false
		for j := 0; j < i; j++ {
			if rs[j].lid == rs[i].lid && rs[j].nid == rs[i].nid {
				dup = true
			}
		}
		if !dup {
			pairs++
		}
	}
	n := 0
	for _, x := range m {
		sym.Assert(len(x) > 0, "no language without a name")
		n += len(x)
	}
	sym.Assert(n == pairs, "as many pairs as there are")
	for i := range rs {
		s, ok := m[rs[i].lid][rs[i].nid]
		sym.Assert(ok, "every pair present is listed")
		is := false
		for j := range rs {
			if rs[j].lid == rs[i].lid && rs[j].nid == rs[i].nid && s == nameText(rs[j]) {
				is = true
			}
		}
		sym.Assert(is, "a listed text is that of a record with the pair")
	}
	sym.Reach("done")
}

// C20Kinds: platforms and encodings side by side, one string arbitrary.
func C20Kinds() {
	rs := []nrec{
		{0, 3, 0, 1, []byte{0, 'u', 0x30, 0x42}},
		{1, 0, 0, 1, []byte{'m', 0x8A}},
		{3, 0, 0x409, 1, []byte{0xF0, 'a'}},
		{3, 1, 0x409, 2, []byte{0, 'w', 0xD8, 0x3D, 0xDE, 0x00}},
		{3, 10, 0x411, 2, []byte{0xD8, 0x40, 0xDC, 0x0B}},
		{0, 4, 7, 3, nil},
		{1, 0, 7, 5, nil},
		{3, 1, 0x407, 3, []byte{0, 10, 0, 7}},
	}
	k := sym.Param("k", 0)
	if len(rs[k].data) > 0 {
		d := append([]byte(nil), rs[k].data...)
		copy(d, sym.Bytes("s", sym.Param("n", 1)))
		rs[k].data = d
	}
	rs[k].nid = uint16(sym.Choose("nid", 8))
	u := mustParse(namesFont(rs, 0).bytes())
	for id := -1; id < 9; id++ {
		want := ""
		for _, r := range rs {
			if int(r.nid) == id {
				want = nameText(r)
				break
			}
		}
		sym.Assert(sym.EqStr(u.GetNameByID(id), want), "text of the first record with the identifier")
	}
	m := u.GetNameRecords()
	for _, r := range rs {
		_, ok := m[r.lid][r.nid]
		sym.Assert(ok, "every pair present is listed")
	}
	sym.Reach("done")
}

// C20None: without a naming table.
func C20None() {
	u := mustParse(plain(2).bytes())
	sym.Assert(u.GetNameByID(sym.Int("id")) == "", "empty text without a table")
	sym.Assert(len(u.GetNameRecords()) == 0, "nothing listed without a table")
	sym.Reach("done")
}
