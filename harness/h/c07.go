package h

import "github.com/unidoc/unitype/vpharness/sym"

type nameRec struct {
	ids  []byte // platform, encoding, language, name
	data []byte
}

// readNames decodes a naming table; offsets and lengths are made concrete.
func readNames(t []byte) (recs []nameRec, langs [][]byte, format int, ok bool) {
	if len(t) < 6 {
		return nil, nil, 0, false
	}
	format = sym.Concrete(int(get16(t, 0)))
	n, so := sym.Concrete(int(get16(t, 2))), sym.Concrete(int(get16(t, 4)))
	str := func(p int) ([]byte, bool) {
		l, o := sym.Concrete(int(get16(t, p))), sym.Concrete(int(get16(t, p+2)))
		if so+o+l > len(t) {
			return nil, false
		}
		return t[so+o : so+o+l], true
	}
	p := 6
	for i := 0; i < n; i++ {
		if p+12 > len(t) {
			return nil, nil, 0, false
		}
		d, in := str(p + 8)
		if !in {
			return nil, nil, 0, false
		}
		recs = append(recs, nameRec{t[p : p+8], d})
		p += 12
	}
	if format == 1 {
		if p+2 > len(t) {
			return nil, nil, 0, false
		}
		k := sym.Concrete(int(get16(t, p)))
		p += 2
		for i := 0; i < k; i++ {
			if p+4 > len(t) {
				return nil, nil, 0, false
			}
			d, in := str(p)
			if !in {
				return nil, nil, 0, false
			}
			langs = append(langs, d)
			p += 4
		}
	}
	return recs, langs, format, true
}

func namesKept(a, b []byte) {
	r1, l1, _, ok := readNames(a)
	sym.Assume(ok)
	r2, l2, _, ok2 := readNames(b)
	sym.Assert(ok2, "the written naming table is well-formed")
	sym.Assert(len(r1) == len(r2), "every naming record kept")
	for i := range r1 {
		same(r1[i].ids, r2[i].ids, "identifiers of a naming record kept")
		same(r1[i].data, r2[i].data, "string of a naming record kept")
	}
	sym.Assert(len(l1) == len(l2), "every language tag kept")
	for i := range l1 {
		same(l1[i], l2[i], "language tag kept")
	}
}

// C07Ids: identifiers are arbitrary, strings fixed.
func C07Ids() {
	f := shape(2)
	n := sym.Param("n", 2)
	var rs []nrec
	for i := 0; i < n; i++ {
		rs = append(rs, nrec{sym.U16("p"), sym.U16("e"), sym.U16("l"), sym.U16("i"), []byte{byte('a' + i), byte('b' + i), byte('c' + i), byte('d' + i)}[:i%5]})
	}
	format := sym.Param("format", 0)
	f.set("name", nameTab(rs, format, [][]byte{{0, 'd', 0, 'e'}, {}, {0, 'f'}}[:sym.Param("langs", 3*format)]))
	in := open(f.bytes())
	out := reopen(mustWrite(mustParse(in.b)))
	namesKept(in.tab("name"), out.tab("name"))
	sym.Reach("done")
}

// C07Strings: string bytes are arbitrary on the platform given.
func C07Strings() {
	f := shape(2)
	l := sym.Param("len", 3)
	pid := uint16(sym.Param("pid", 1))
	rs := []nrec{{pid, 1, 0, 1, sym.Bytes("s", l)}, {pid, 0, 0, 2, nil}, {pid, 1, 3, 4, sym.Bytes("s", 1)}}
	format := sym.Param("format", 0)
	var langs [][]byte
	if format == 1 {
		langs = [][]byte{sym.Bytes("lang", 2), sym.Bytes("lang", 3)}
	}
	f.set("name", nameTab(rs, format, langs))
	in := open(f.bytes())
	out := reopen(mustWrite(mustParse(in.b)))
	namesKept(in.tab("name"), out.tab("name"))
	sym.Reach("done")
}

// C07Shared: strings anywhere in the storage, overlapping, with gaps and unused bytes.
func C07Shared() {
	f := shape(2)
	format := sym.Param("format", 0)
	b := put16(nil, uint16(format))
	n := 2
	b = put16(b, uint16(n))
	so := 6 + 12*n
	if format == 1 {
		so += 2 + 4
	}
	pad := sym.Param("pad", 0)
	b = put16(b, uint16(so+pad))
	st := 6
	ext := func() {
		l, o := sym.U16("len"), sym.U16("off")
		sym.Assume(int(l)+int(o) <= st)
		if m := sym.Param("maxlen", 6); m < 6 {
			sym.Assume(int(l) <= m)
		}
		b = put16(b, l)
		b = put16(b, o)
	}
	for i := 0; i < n; i++ {
		b = append(b, 0, 1, 0, 0, 0, byte(i), 0, byte(i+1))
		if i == 1 && format == 1 {
			b = put16(b, 2)
			b = put16(b, 1)
		} else {
			ext()
		}
	}
	if format == 1 {
		b = put16(b, 1)
		ext()
	}
	for i := 0; i < pad; i++ {
		b = append(b, 0xAA)
	}
	b = append(b, "ABCDEF"...)
	f.set("name", b)
	in := open(f.bytes())
	out := reopen(mustWrite(mustParse(in.b)))
	namesKept(in.tab("name"), out.tab("name"))
	sym.Reach("done")
}

// C07Big: many records and long strings.
func C07Big() {
	f := shape(2)
	n := sym.Param("n", 260)
	l := sym.Param("len", 20)
	var rs []nrec
	for i := 0; i < n; i++ {
		d := make([]byte, l)
		for j := range d {
			d[j] = byte('A' + (i+j)%26)
		}
		rs = append(rs, nrec{1, 0, uint16(i), uint16(i % 7), d})
	}
	k := sym.Param("at", n-1)
	rs[k].nid = sym.U16("nid")
	rs[k].lid = sym.U16("lid")
	rs[k].data[l-1] = 'a' + sym.U8("ch")&15
	rs[0].data[0] = 'a' + sym.U8("ch")&15
	f.set("name", nameTab(rs, 0, nil))
	in := open(f.bytes())
	out := reopen(mustWrite(mustParse(in.b)))
	namesKept(in.tab("name"), out.tab("name"))
	sym.Reach("done")
}

// C07Long: a string of a boundary length between two others, with some arbitrary bytes, on
// storage laid out in another order, shared or not.
func C07Long() {
	f := shape(2)
	l := sym.Param("len", 256)
	d := make([]byte, l)
	for i := range d {
		d[i] = byte(i*5 + 'A')
	}
	if l > 0 {
		d[0], d[l-1] = 'a'+sym.U8("a")&15, 'A'+sym.U8("z")&15
		d[l/2] = 'p' + sym.U8("m")&7
	}
	pid := uint16(sym.Param("pid", 1))
	rs := []nrec{{pid, 0, 0, 1, []byte("first")}, {pid, 1, 1, 2, d}, {pid, 1, 2, 3, nil}, {pid, 0, 3, 4, d}, {pid, 0, 3, 5, []byte("x")}}
	format := sym.Param("format", 0)
	var langs [][]byte
	if format == 1 {
		langs = [][]byte{d, {0, 'q'}, {}}
	}
	t := nameTab(rs, format, langs)
	if sym.Param("share", 0) == 1 {
		// the fourth record uses the bytes of the second
		copy(t[6+12*3+10:6+12*3+12], t[6+12+10:6+12+12])
	}
	f.set("name", t)
	in := open(f.bytes())
	out := reopen(mustWrite(mustParse(in.b)))
	namesKept(in.tab("name"), out.tab("name"))
	sym.Reach("done")
}
