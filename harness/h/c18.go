package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// C18Hint: the three tables, present or not, with arbitrary bytes, through every operation.
func C18Hint() {
	f := shape(sym.Param("shape", 2))
	have := sym.Choose("have", 8)
	for i, t := range []string{"cvt", "fpgm", "prep"} {
		f.drop(t)
		if have>>i&1 == 1 {
			f.add(t, sym.Bytes(t, sym.Param("len", 4)))
		}
	}
	b := f.bytes()
	in := open(b)
	v := mustParse(b)
	for _, p := range []string{"op", "op2"} {
		if op := sym.Param(p, -1); op >= 0 {
			x, ok := derive(v, op)
			if !ok {
				return
			}
			v = x
		}
	}
	out := reopen(mustWrite(v))
	hintsKept(in, out)
	sym.Reach("done")
}

func hintsKept(in, out *file) {
	for _, t := range []string{"cvt", "fpgm", "prep"} {
		sym.Assert(in.has(t) == out.has(t), "table "+t+" present as before")
		same(in.tab(t), out.tab(t), "table "+t+" unchanged")
	}
}

// C18Len: programs of other lengths.
func C18Len() {
	f := shape(2)
	n := sym.Param("len", 1)
	for _, t := range []string{"fpgm", "prep"} {
		d := make([]byte, n)
		for i := range d {
			d[i] = byte(i * 31)
		}
		if n > 0 {
			d[0], d[n-1] = sym.U8(t), sym.U8(t)
		}
		f.add(t, d)
	}
	d := make([]byte, 2*n)
	if n > 0 {
		copy(d[2*n-2:], sym.Bytes("cvt", 2))
	}
	f.add("cvt", d)
	b := f.bytes()
	u := mustParse(b)
	in := open(b)
	hintsKept(in, reopen(mustWrite(u)))
	v, err := u.SubsetKeepIndices([]unitype.GlyphIndex{0})
	sym.Assert(err == nil, "subsetting succeeds")
	hintsKept(in, reopen(mustWrite(v)))
	sym.Reach("done")
}
