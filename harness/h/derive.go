package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// derive applies one of the operations that produce or change a font, with symbolic
// arguments; ok is false when the library refuses with an error.
func derive(u *unitype.Font, op int) (*unitype.Font, bool) {
	switch op {
	case 0:
		v, err := u.SubsetFirst(int(sym.U8("first")))
		sym.Assert(err != nil || v != nil, "a subset or an error")
		return v, err == nil
	case 1:
		v, err := u.SubsetKeepIndices([]unitype.GlyphIndex{unitype.GlyphIndex(sym.U8("gid"))})
		sym.Assert(err != nil || v != nil, "a subset or an error")
		return v, err == nil
	case 2:
		v, err := u.SubsetKeepIndices([]unitype.GlyphIndex{unitype.GlyphIndex(sym.U8("gid")), unitype.GlyphIndex(sym.U8("gid"))})
		sym.Assert(err != nil || v != nil, "a subset or an error")
		return v, err == nil
	case 3:
		v, err := u.SubsetKeepRunes([]rune{rune(sym.U32("rune"))})
		sym.Assert(err != nil || v != nil, "a subset or an error")
		return v, err == nil
	case 4:
		err := u.PruneTables(pruneNames(sym.Choose("prune", 8))...)
		sym.Assert(err == nil, "pruning succeeds")
		return u, true
	case 5:
		err := u.Optimize()
		sym.Assert(err == nil, "optimizing succeeds")
		return u, true
	case 6:
		v, err := u.SubsetKeepIndices(nil)
		sym.Assert(err != nil || v != nil, "a subset or an error")
		return v, err == nil
	case 7:
		v, err := u.SubsetKeepIndices([]unitype.GlyphIndex{0, 1, unitype.GlyphIndex(sym.U8("gid"))})
		sym.Assert(err != nil || v != nil, "a subset or an error")
		return v, err == nil
	case 8:
		v, err := u.SubsetKeepRunes([]rune{'A', 'B', 0x1F600, rune(sym.U32("rune")), 'A', 'a'})
		sym.Assert(err != nil || v != nil, "a subset or an error")
		return v, err == nil
	}
	return u, true
}

func pruneNames(k int) []string {
	var s []string
	for i, n := range []string{"cmap", "post", "name"} {
		if k>>i&1 == 1 {
			s = append(s, n)
		}
	}
	return s
}
