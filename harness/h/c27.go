package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// fontWideKept: what is said of the font as a whole is in the file as it was.
func fontWideKept(in, out *file, pruned int) {
	gone := map[string]bool{"post": pruned>>1&1 == 1, "name": pruned>>2&1 == 1}
	for _, t := range []string{"head", "hhea", "maxp", "OS/2", "post", "name"} {
		sym.Assert(out.has(t) == (in.has(t) && !gone[t]), t+": there exactly if it was")
		if !out.has(t) {
			continue
		}
		x, y := in.tab(t), out.tab(t)
		switch t {
		case "head":
			sym.Assert(len(y) == 54, "head table has its length")
			same(x[0:8], y[0:8], "head: version and revision kept")
			same(x[12:50], y[12:50], "head: fields kept")
			same(x[52:54], y[52:54], "head: glyph data format kept")
		case "hhea":
			sym.Assert(len(y) == 36, "hhea table has its length")
			same(x[0:24], y[0:24], "hhea: fields kept")
			same(x[32:34], y[32:34], "hhea: metric format kept")
		case "maxp":
			sym.Assert(len(y) == 32, "maxp table has its length")
			same(x[0:4], y[0:4], "maxp: version kept")
			same(x[6:32], y[6:32], "maxp: limits kept")
		case "OS/2":
			same(x[:os2Len(int(get16(x, 0)))], y, "OS/2 kept")
		case "post":
			sym.Assert(len(y) >= 32, "post table has its length")
			same(x[4:32], y[4:32], "post: header kept")
		case "name":
			namesKept(x, y)
		}
	}
}

// glyphNames are the lines that list glyph names.
func glyphNames(s string) []string {
	var l []string
	for from, i := 0, 0; i < len(s); i++ {
		if s[i] == '\n' {
			if i-from > 8 && s[from:from+8] == "- post: " {
				l = append(l, s[from:i])
			}
			from = i + 1
		}
	}
	return l
}

// C27Derived: subsetting and optimizing keep it.
func C27Derived() {
	f := shape(sym.Param("shape", 0))
	if t := sym.Param("t", -1); t >= 0 {
		symTables(f, t)
	}
	if v := sym.Param("os2", -1); v >= 0 {
		o := sym.Bytes("os2", os2Len(v))
		set16(o, 0, uint16(v))
		f.set("OS/2", o)
	}
	if d := sym.Param("drop", -1); d >= 0 {
		f.drop([]string{"post", "name", "OS/2"}[d])
	}
	b := f.bytes()
	in := open(b)
	u, err := parse(b)
	if err != nil {
		sym.Reach("rejected")
		return
	}
	before := glyphNames(u.TableInfo("post"))
	pruned := 0
	if sym.Param("prune", 0) == 1 {
		pruned = sym.Choose("pruned", 8)
		sym.Assert(u.PruneTables(pruneNames(pruned)...) == nil, "pruning succeeds")
	}
	if sym.Param("pre", 0) == 1 {
		mustWrite(u)
	}
	for _, op := range []int{sym.Param("op", 0), sym.Param("op2", -1)} {
		if op < 0 {
			break
		}
		v, ok := derive(u, op)
		if !ok {
			sym.Reach("refused")
			return
		}
		u = v
	}
	x, err := write(u)
	if err != nil {
		sym.Reach("refused")
		return
	}
	out := open(x)
	fontWideKept(in, out, pruned)
	if in.has("post") && pruned>>1&1 == 0 {
		after := glyphNames(u.TableInfo("post"))
		k := out.numGlyphs()
		if k > len(before) { // no more than eleven are listed
			k = len(before)
		}
		sym.Assert(len(after) == k, "names of the glyphs kept are listed")
		for i := range after {
			sym.Assert(sym.EqStr(after[i], before[i]), "glyphs keep their names")
		}
	}
	if pruned>>2&1 == 0 && sym.Param("t", -1) < 7 {
		for i := -1; i < 6; i++ {
			sym.Assert(sym.EqStr(u.GetNameByID(i), mustParse(b).GetNameByID(i)), "names are answered as before")
		}
	}
	sym.Reach("done")
}

var _ = unitype.Parse
