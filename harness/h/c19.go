package h

import "github.com/unidoc/unitype/vpharness/sym"

var pruneArgs = []string{"cmap", "post", "name", "glyf", "head", "", "Cmap", "cmap ", "OS/2", "post\x00"}

// C19Prune: any list of names.
func C19Prune() {
	f := shape(sym.Param("shape", 0))
	symTables(f, sym.Param("t", 7))
	b := f.bytes()
	u, err := parse(b)
	if err != nil {
		return
	}
	full, err := write(u)
	if err != nil {
		return
	}
	var names []string
	gone := map[string]bool{}
	k := sym.Param("names", 2)
	for i := 0; i < k; i++ {
		n := pruneArgs[sym.Choose("name", len(pruneArgs))]
		names = append(names, n)
		if n == "cmap" || n == "post" || n == "name" {
			gone[n] = true
		}
	}
	v := u
	if op := sym.Param("op", -1); op >= 0 {
		x, ok := derive(u, op)
		if !ok {
			return
		}
		v = x
		full = mustWrite(v)
	}
	if sym.Param("split", 0) == 1 {
		for _, n := range names {
			sym.Assert(v.PruneTables(n) == nil, "pruning succeeds")
		}
	} else {
		sym.Assert(v.PruneTables(names...) == nil, "pruning succeeds")
	}
	x, err := write(v)
	sym.Assert(err == nil, "the pruned font can be written")
	in, out := open(full), wellFormed(x)
	accepted(x)
	for _, t := range in.tags {
		sym.Assert(out.has(t) == !gone[trim(t)], "table "+t+" written unless pruned")
		if !out.has(t) {
			continue
		}
		p, q := in.tab(t), out.tab(t)
		if t == "head" {
			p, q = append([]byte(nil), p...), append([]byte(nil), q...)
			set32(p, 8, 0)
			set32(q, 8, 0)
		}
		same(p, q, "table "+t+" unchanged")
	}
	sym.Assert(len(out.tags) <= len(in.tags), "no table added")
	code := rune(sym.U32("code"))
	if gone["cmap"] {
		for _, e := range encodings {
			sym.Assert(v.GetCmap(e[0], e[1]) == nil, "no character map after pruning")
		}
		g := v.LookupRunes([]rune{code})
		sym.Assert(len(g) == 1 && g[0] == 0, "no glyph found after pruning")
		sym.Assert(v.TableInfo("cmap") == "cmap: missing\n", "character map reported missing")
	}
	if gone["name"] {
		id := sym.Int("id")
		sym.Assert(v.GetNameByID(id) == "", "no name after pruning")
		sym.Assert(len(v.GetNameRecords()) == 0, "no names after pruning")
	}
	if gone["post"] {
		sym.Assert(v.TableInfo("post") == "post: missing\n", "PostScript table reported missing")
	}
	sym.Reach("done")
}

func trim(t string) string {
	for len(t) > 0 && t[len(t)-1] == ' ' {
		t = t[:len(t)-1]
	}
	return t
}

// C19After: no operation on a pruned font panics, and its results can be written.
func C19After() {
	f := shape(sym.Param("shape", 0))
	u := mustParse(f.bytes())
	sym.Assert(u.PruneTables(pruneNames(sym.Choose("set", 8))...) == nil, "pruning succeeds")
	v, ok := derive(u, sym.Param("op", 0))
	if !ok {
		return
	}
	for _, t := range infoTables {
		v.TableInfo(t)
	}
	v.LookupRunes([]rune{'A'})
	v.GetNameByID(1)
	v.GetNameRecords()
	b, err := write(v)
	if err != nil {
		sym.Assert(sym.Param("shape", 0) == 4, "the pruned font can be written")
		return
	}
	wellFormed(b)
	accepted(b)
	sym.Reach("done")
}

// C19Any: an arbitrary name prunes a table only if it is the name of one of the three.
func C19Any() {
	f := shape(sym.Param("shape", 0))
	in := open(mustWrite(mustParse(f.bytes())))
	u := mustParse(f.bytes())
	n := string(sym.Bytes("name", sym.Param("len", 3)))
	other := []string{"", "post", "name", "cmap"}[sym.Param("with", 0)]
	args := []string{n}
	if other != "" {
		args = append(args, other)
	}
	sym.Assert(u.PruneTables(args...) == nil, "pruning succeeds")
	out := wellFormed(mustWrite(u))
	for _, t := range in.tags {
		k := trim(t)
		gone := k == other
		if k == "post" || k == "name" || k == "cmap" {
			gone = sym.Or(gone, sym.EqStr(n, k))
		}
		sym.Assert(out.has(t) == !gone, "table "+t+" written unless pruned")
		if out.has(t) && k != "head" {
			same(in.tab(t), out.tab(t), "table "+t+" unchanged")
		}
	}
	sym.Reach("done")
}
