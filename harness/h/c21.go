package h

import (
	"strconv"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// lines of a text, up to the dump of internal structure.
func lines(s string) []string {
	var out []string
	from := 0
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			out = append(out, s[from:i])
			from = i + 1
		}
	}
	return out
}

// shownNames checks the glyph names the font reports: the count and the first eleven.
func shownNames(u *unitype.Font, names []string) {
	s := u.TableInfo("post")
	want := "- post glyphNames: " + strconv.Itoa(len(names)) + "\n"
	for i, n := range names {
		if i > 10 {
			break
		}
		want += "- post: " + strconv.Itoa(i+1) + ": " + n + "\n"
	}
	// somewhere in the text: after the lines on the table itself, which come first
	p := 0
	for k := 0; k < 2; k++ {
		for p < len(s) && s[p] != '\n' {
			p++
		}
		p++
	}
	sym.Assert(p+len(want) <= len(s), "the names are shown")
	sym.Assert(sym.EqStr(s[p:p+len(want)], want), "glyph names are those the table defines")
	if len(names) <= 10 {
		rest := s[p+len(want):]
		sym.Assert(len(rest) < 8 || rest[:8] != "- post: ", "no further names")
	}
}

// C21V2: one index arbitrary, the others fixed.
func C21V2() {
	names := []string{"alpha", "", "a.alt", "z"}[:sym.Param("names", 3)]
	n := sym.Param("n", 4)
	idx := []uint16{0, 258, 36, 259, 260, 257, 3, 258, 100, 200, 1, 5}[:n]
	idx = append([]uint16(nil), idx...)
	k := sym.Param("at", 1)
	idx[k] = sym.U16("index")
	sym.Assume(idx[k] < 32768)
	if sym.Param("two", 0) == 1 {
		j := (k + 1) % n
		idx[j] = sym.U16("index")
		sym.Assume(idx[j] >= 256)
		sym.Assume(idx[j] < 32768)
	}
	f := plain(n)
	f.add("post", postTab2(idx, names))
	u, err := parse(f.bytes())
	var want []string
	bad := false
	for _, i := range idx {
		c := int(i)
		switch {
		case c < 258:
			want = append(want, macNames[c])
		case c-258 < len(names):
			want = append(want, names[c-258])
		default:
			bad = true
		}
	}
	sym.Assert((err != nil) == bad, "rejected exactly when a name does not exist")
	if bad {
		sym.Reach("rejected")
		return
	}
	shownNames(u, want)
	sym.Reach("accepted")
}

// C21Custom: lengths and characters of custom names.
func C21Custom() {
	var names []string
	for i := 0; i < 2; i++ {
		l := sym.Choose("len", sym.Param("max", 4))
		b := sym.Bytes("ch", l)
		for _, c := range b {
			if sym.Param("any", 0) == 1 {
				break
			}
			sym.Assume(c >= '!')
			sym.Assume(c <= '~')
		}
		names = append(names, string(b))
	}
	long := make([]byte, sym.Param("long", 0))
	for i := range long {
		long[i] = byte('A' + i%26)
	}
	names = append(names, string(long), "end")
	f := plain(4)
	f.add("post", postTab2([]uint16{261, 259, 260, 258}, names))
	u := mustParse(f.bytes())
	shownNames(u, []string{names[3], names[1], names[2], names[0]})
	sym.Reach("done")
}

// C21Count: the number of glyphs the table claims.
func C21Count() {
	n := 3
	c := sym.U16("count")
	var p []byte
	switch sym.Param("v", 2) {
	case 2:
		// room for more indices than there are glyphs, or else some empty names
		p = postTab2([]uint16{0, 1, 2, 0, 0, 0}[:3+sym.Param("more", 0)], nil)
	case 25:
		p = append(put16(postHead(0x00025000), 3), make([]byte, 3+sym.Param("more", 0))...)
	}
	set16(p, 32, c)
	f := plain(n)
	f.add("post", p)
	u, err := parse(f.bytes())
	sym.Assert((err != nil) == (int(c) != n), "rejected exactly when the glyph counts differ")
	if err == nil {
		shownNames(u, macNames[:3])
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C21V25: displacements.
func C21V25() {
	n := sym.Param("n", 3)
	f := plain(n)
	p := put16(postHead(0x00025000), uint16(n))
	d := make([]byte, n)
	k := sym.Param("at", 0)
	d[k] = sym.U8("displacement")
	sym.Assume(int(int8(d[k]))+k >= 0)
	if sym.Param("two", 0) == 1 {
		d[k+1] = sym.U8("displacement")
		sym.Assume(int(int8(d[k+1]))+k+1 >= 0)
	}
	f.add("post", append(p, d...))
	u := mustParse(f.bytes())
	var want []string
	for i := range d {
		want = append(want, macNames[i+int(int8(d[i]))])
	}
	shownNames(u, want)
	sym.Reach("done")
}

// C21V1: the standard names in order, for fonts of 258 glyphs only.
func C21V1() {
	n := sym.Choose("n", 4)
	n = []int{258, 3, 257, 259}[n]
	f := plain(n)
	f.add("post", postHead(0x00010000))
	u, err := parse(f.bytes())
	sym.Assert((err != nil) == (n != 258), "rejected exactly when the glyph count is not 258")
	if err == nil {
		shownNames(u, macNames)
		sym.Reach("accepted")
	} else {
		sym.Reach("rejected")
	}
}

// C21V3: no names; trailing bytes change nothing.
func C21V3() {
	f := plain(3)
	f.add("post", append(postHead(0x00030000), sym.Bytes("tail", sym.Param("tail", 0))...))
	u := mustParse(f.bytes())
	shownNames(u, nil)
	sym.Reach("done")
}

// C21Short: a table cut before its names end refers to names that do not exist.
func C21Short() {
	f := plain(3)
	p := postTab2([]uint16{258, 0, 259}, []string{"ab", "cd"})
	cut := len(p) - 3*sym.Choose("cut", 3)
	f.add("post", p[:cut:cut])
	u, err := parse(f.last("post"))
	sym.Assert((err != nil) == (cut != len(p)), "rejected exactly when a name is missing")
	if err == nil {
		shownNames(u, []string{"ab", macNames[0], "cd"})
	}
	sym.Reach("done")
}
