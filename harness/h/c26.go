package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// size is a length in the way it is shown: bytes, kB or MB with two decimals.
func size(l int) string {
	unit, name := 1, ""
	switch {
	case l > 1<<20:
		unit, name = 1<<20, "MB"
	case l > 1<<10:
		unit, name = 1<<10, "kB"
	default:
		return itoa(l) + " B"
	}
	return hundredths(l, unit) + " " + name
}

// hundredths is l/unit with two decimals, the nearest (the even one of two).
func hundredths(l, unit int) string {
	q, r := l*100/unit, l*100%unit
	if 2*r > unit || 2*r == unit && q%2 == 1 {
		q++
	}
	s := itoa(q % 100)
	if len(s) < 2 {
		s = "0" + s
	}
	return itoa(q/100) + "." + s
}

func itoa(n int) string {
	if n < 10 {
		return string([]byte{byte('0' + n)})
	}
	return itoa(n/10) + string([]byte{byte('0' + n%10)})
}

// C26List: the directory.
func C26List() {
	f := newFnt([][]byte{simpleGlyph(10, 1), nil}, 1, sym.Param("long", 0) == 1)
	var lens = []int{0, 1, 999, 1000, 1023, 1024, 1025, 1029, 1034, 1052, 1280, 2048, 10235, 10245, 102400, 1048571, 1048576, 1048577, 1053818, 1058867, 1077936, 13757317, 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF}
	tags := []string{"abcd", "zz", "A"}
	if sym.Param("tag", 0) == 1 {
		b := sym.Bytes("tag", 4)
		for i, c := range b { // letters, at the end perhaps spaces
			sym.Assume(c >= 0x20 && c < 0x7F && (i > 0 || c > 0x20))
		}
		for _, t := range []string{"head", "hhea", "hmtx", "maxp", "loca", "glyf", "cmap", "post", "name", "OS/2", "prep", "fpgm", "cvt"} {
			sym.Assume(!sym.EqStr(trim(string(b)), t))
		}
		tags[0] = string(b)
	}
	for i, m := 0, sym.Param("more", 0); i < m; i++ {
		tags = append(tags, string([]byte{'z', byte('a' + i%7), byte('0' + i/7%10), ' '}))
	}
	for _, t := range tags {
		f.add(t, []byte{1, 2})
	}
	b := f.bytes()
	n := len(f.tables())
	names := f.tables()
	if sym.Param("rev", 0) == 1 { // not in the order of their positions
		for i, j := n-len(tags), n-1; i < j; i, j = i+1, j-1 {
			names[i], names[j] = names[j], names[i]
			for k := 0; k < 16; k++ {
				b[12+16*i+k], b[12+16*j+k] = b[12+16*j+k], b[12+16*i+k]
			}
		}
	}
	var want []int
	for i := 0; i < n; i++ {
		l := int(get32(b, 12+16*i+12))
		if i >= n-len(tags) {
			l = lens[(sym.Param("len", 0)+i*i)%len(lens)]
			if i == n-2 {
				l = lens[sym.Choose("len", len(lens))]
			}
			set32(b, 12+16*i+12, uint32(l))
		}
		want = append(want, l)
	}
	u := mustParse(b)
	s := "trec: present with " + itoa(n) + " table records\n"
	for i, t := range names {
		s += trim(t.tag) + ": " + size(want[i]) + "\n"
	}
	got := []string{u.String(), u.TableInfo("trec")}
	if sym.Param("after", 0) == 1 { // and it stays so
		if _, err := write(u); err != nil {
			sym.Assert(false, "written")
		}
		if _, err := u.SubsetFirst(1); err != nil {
			sym.Assert(false, "subset")
		}
		got = []string{u.String()}
	}
	for _, got := range got {
		sym.Assert(len(got) >= len(s), "every table listed")
		sym.Assert(sym.EqStr(got[:len(s)], s), "tables listed with tag and size, in order")
		sym.Assert(len(got) < len(s)+8, "nothing else listed")
	}
	sym.Reach("done")
}

// numbers are the integers in s, up to the end of the k-th line.
func numbers(s string, k int) []int {
	var o []int
	in := false
	for i := 0; i < len(s); i++ {
		if s[i] == '\n' {
			if k--; k == 0 {
				break
			}
		}
		if s[i] < '0' || s[i] > '9' {
			in = false
			continue
		}
		if !in {
			o = append(o, 0)
		}
		in = true
		o[len(o)-1] = o[len(o)-1]*10 + int(s[i]-'0')
	}
	return o
}

func hasWord(s, w string) bool {
	for i := 0; i+len(w) <= len(s); i++ {
		if s[i:i+len(w)] == w {
			return true
		}
	}
	return false
}

// numbersAre: the text has these numbers, in this order, at its beginning.
func numbersAre(s string, lines int, want []int, what string) {
	got := numbers(s, lines)
	sym.Assert(len(got) >= len(want), what)
	for i := range want {
		sym.Assert(got[i] == want[i], what)
	}
}

// C26Tables: what is said about each table, also of derived fonts.
func C26Tables() {
	f := shape(sym.Param("shape", 0))
	if d := sym.Param("drop", -1); d >= 0 {
		f.drop([]string{"hmtx", "glyf", "cmap", "post", "name", "OS/2"}[d])
	}
	in := open(f.bytes())
	u := mustParse(in.b)
	if op := sym.Param("op", -1); op >= 0 {
		v, ok := derive(u, op)
		if !ok {
			sym.Reach("refused")
			return
		}
		u = v
	}
	b, err := write(u)
	if err != nil {
		sym.Reach("refused")
		return
	}
	o := open(b)
	n := o.numGlyphs()
	for _, t := range []string{"head", "os2", "hhea", "hmtx", "cmap", "loca", "name", "glyf", "post"} {
		x := t
		if t == "os2" {
			x = "OS/2"
		}
		s := u.TableInfo(t)
		miss := t + ": missing"
		has := len(s) >= len(miss) && s[:len(miss)] == miss
		sym.Assert(has == !o.has(x), t+": reported missing exactly if it is")
		if !o.has(x) {
			continue
		}
		switch t {
		case "hhea":
			numbersAre(s, 1, []int{int(get16(o.tab("hhea"), 34))}, "number of advance widths")
		case "hmtx":
			k := int(get16(o.tab("hhea"), 34))
			m := n - k
			if m < 0 {
				m = 0
			}
			numbersAre(s, 1, []int{k, m}, "numbers of advance widths and side bearings")
		case "loca":
			short, long := n+1, 0
			if get16(o.tab("head"), 50) == 1 {
				short, long = 0, n+1
			}
			numbersAre(s, 3, []int{short, long}, "numbers of index entries")
		case "glyf":
			total := 0
			for g := 0; g < n; g++ {
				d, _ := o.glyph(g)
				total += len(d)
			}
			total = sym.Concrete(total)
			numbersAre(s, 1, []int{n}, "number of outlines")
			sym.Assert(hasWord(s, hundredths(total, 1024)+" kB"), "size of the outlines")
		case "cmap":
			k := int(get16(o.tab("cmap"), 2))
			numbersAre(s, 2, []int{int(get16(o.tab("cmap"), 0))}, "version of the character map")
			got := numbers(s, 2)
			sym.Assert(len(got) == 3 && got[2] == k, "number of character map subtables")
		case "post":
			k := 0
			switch get32(in.tab("post"), 0) {
			case 0x00010000, 0x00020000, 0x00025000: // names are read, but not all of them written
				k = n
			}
			numbersAre(s, 1, []int{k}, "number of glyphs with names")
			got := numbers(s, 3)
			sym.Assert(len(got) == 3 && got[2] == k, "number of glyph names")
		}
	}
	sym.Assert(hasWord(u.TableInfo("fpgmx"), "unsupported"), "unknown names are refused")
	sym.Reach("done")
}

// C26Any: any name gives an answer, and no other table's.
func C26Any() {
	f := shape(sym.Param("shape", 2))
	u := mustParse(f.bytes())
	t := string(sym.Bytes("name", sym.Param("len", 4)))
	s := u.TableInfo(t)
	known := false
	for _, x := range infoTables {
		if sym.EqStr(t, x) {
			known = true
		}
	}
	if !known {
		sym.Assert(hasWord(s[len(t):], "unsupported"), "unknown names are refused")
		sym.Reach("unknown")
		return
	}
	sym.Assert(!hasWord(s, "unsupported"), "known tables are described")
	sym.Reach("known")
}

var _ = unitype.Parse
