package h

import (
	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

// verdict is the reference for validation of a file the library can parse.
func verdict(b []byte) bool {
	n := int(get16(b, 4))
	ok := true
	head := -1
	for i := 0; i < n; i++ {
		r := 12 + 16*i
		tag := string(b[r : r+4])
		off, l := sym.Concrete(int(get32(b, r+8))), sym.Concrete(int(get32(b, r+12)))
		if off > len(b) || l > len(b)-off {
			return false
		}
		d := b[off : off+l]
		if tag == "head" {
			if l < 12 {
				return false
			}
			head = off
			d = append([]byte(nil), d...)
			set32(d, 8, 0)
		}
		ok = sym.And(ok, sum32(d) == get32(b, r+4))
	}
	if head < 0 {
		return false
	}
	z := append([]byte(nil), b...)
	set32(z, head+8, 0)
	return sym.And(ok, get32(b, head+8) == 0xB1B0AFBA-sum32(z))
}

func checkVerdict(b []byte) {
	f, err := parse(b)
	v := unitype.ValidateBytes(append([]byte(nil), b...))
	if err != nil || f == nil {
		sym.Assert(v != nil, "what cannot be parsed is not validated")
		sym.Reach("unparsed")
		return
	}
	want := verdict(b)
	sym.Assert((v == nil) == want, "validation succeeds exactly when every checksum is right")
	if v == nil {
		sym.Reach("valid")
	} else {
		sym.Reach("invalid")
	}
}

// C02Sums: recorded checksums and the adjustment are arbitrary.
func C02Sums() {
	f := shape(sym.Param("shape", 2))
	b := f.bytes()
	n := int(get16(b, 4))
	t := sym.Param("t", 0)
	if t >= 0 && t < n {
		copy(b[12+16*t+4:], sym.Bytes("sum", 4))
	}
	o := recOff(b, "head")
	h := int(get32(b, o+8))
	copy(b[h+8:h+12], sym.Bytes("adj", 4))
	checkVerdict(b)
}

// C02Extra: a table the library does not read has arbitrary content and checksum, or an
// arbitrary extent.
func C02Extra() {
	f := shape(sym.Param("shape", 2))
	l := sym.Param("len", 5)
	f.add("DSIG", sym.Bytes("data", l))
	b := f.bytes()
	r := recOff(b, "DSIG")
	switch sym.Param("what", 0) {
	case 0: // checksum
		copy(b[r+4:r+8], sym.Bytes("sum", 4))
		fixAdj(b)
	case 1: // offset
		v := sym.U32("off")
		if sym.Param("near", 0) == 1 {
			// around the last table and the end, and where sums with the length wrap
			e := uint32(len(b))
			sym.Assume(sym.Or(sym.And(v >= e-24, v <= e+8), v >= 0xFFFFFFF0))
		}
		set32(b, r+8, v)
		fixAdj(b)
	case 2: // length
		v := sym.U32("len")
		if sym.Param("near", 0) == 1 {
			e := uint32(len(b)) - get32(b, r+8)
			sym.Assume(sym.Or(v <= e+8, sym.Or(sym.And(v >= 0x7FFFFFF0, v <= 0x80000008), v >= 0xFFFFFFF0)))
		}
		set32(b, r+12, v)
		fixAdj(b)
	}
	checkVerdict(b)
}

// C02Mix: directories in another order, with empty tables and tables of every length modulo
// four; the recorded checksum of one table, the adjustment and a byte of one table are
// arbitrary.
func C02Mix() {
	f := shape(2)
	f.add("AAAA", nil)
	f.add("BBBB", []byte{1, 2, 3})
	f.add("CCCC", nil)
	f.add("DDDD", []byte{9, 8, 7, 6, 5})
	f.add("EEEE", []byte{0x80, 0xFF})
	f.add("cvt", nil)
	f.add("fpgm", []byte{0xFE})
	b := f.bytes()
	n := int(get16(b, 4))
	t := sym.Choose("t", n)
	copy(b[12+16*t+4:], sym.Bytes("sum", 4))
	if o, l := int(get32(b, 12+16*t+8)), int(get32(b, 12+16*t+12)); l > 0 && string(b[12+16*t:12+16*t+3]) == string(b[13+16*t:12+16*t+4]) {
		b[o+l-1] = sym.U8("byte")
	}
	h := int(get32(b, recOff(b, "head")+8))
	copy(b[h+8:h+12], sym.Bytes("adj", 4))
	checkVerdict(b)
}

// fixAdj makes the adjustment right again after a change outside the tables.
func fixAdj(b []byte) {
	h := int(get32(b, recOff(b, "head")+8))
	set32(b, h+8, 0)
	set32(b, h+8, 0xB1B0AFBA-sum32(b))
}

// C02Valid: fonts with right checksums are accepted, whatever their data.
func C02Valid() {
	f := shape(sym.Param("shape", 0))
	symTables(f, sym.Param("t", 0))
	b := f.bytes()
	_, err := parse(b)
	sym.Assume(err == nil)
	sym.Assert(unitype.ValidateBytes(b) == nil, "a font with right checksums passes validation")
	sym.Reach("valid")
}

// symTables makes the free-form content of a table symbolic.
func symTables(f *fnt, t int) {
	switch t {
	case 0:
		for _, n := range []string{"cvt", "fpgm", "prep"} {
			if d := f.get(n); d != nil {
				f.set(n, sym.Bytes(n, len(d)))
			}
		}
	case 1:
		h := sym.Bytes("head", 54)
		set16(h, 50, get16(f.head, 50))
		f.head = h
	case 2:
		f.hmtx = sym.Bytes("hmtx", len(f.hmtx))
	case 3:
		f.glyf = sym.Bytes("glyf", len(f.glyf))
	case 4:
		h := sym.Bytes("hhea", 36)
		set16(h, 34, get16(f.hhea, 34))
		f.hhea = h
		m := sym.Bytes("maxp", len(f.maxp))
		copy(m[0:6], f.maxp[0:6])
		f.maxp = m
	case 5:
		if d := f.get("OS/2"); d != nil {
			o := sym.Bytes("os2", len(d))
			copy(o[0:2], d[0:2])
			f.set("OS/2", o)
		}
	case 6:
		if d := f.get("post"); d != nil {
			o := append([]byte(nil), d...)
			copy(o[4:32], sym.Bytes("post", 28))
			f.set("post", o)
		}
	case 8: // identifiers only
		if d := f.get("name"); d != nil {
			if n := int(get16(d, 2)); n > 0 {
				o := append([]byte(nil), d...)
				copy(o[6:], sym.Bytes("ids", 8))
				copy(o[6+12*(n-1)+4:], sym.Bytes("ids", 4))
				f.set("name", o)
			}
		}
	case 9: // one byte of the strings
		if d := f.get("name"); d != nil {
			o := append([]byte(nil), d...)
			i := int(get16(o, 4))
			if i < len(o) {
				i += sym.Choose("at", len(o)-i)
				o[i] = sym.U8("string")
			}
			f.set("name", o)
		}
	case 7:
		if d := f.get("name"); d != nil {
			n := int(get16(d, 2))
			o := append([]byte(nil), d...)
			if n > 0 {
				copy(o[6:], sym.Bytes("ids", 8))
				copy(o[6+12*(n-1)+4:], sym.Bytes("ids", 4))
				st := int(get16(d, 4))
				copy(o[st:], sym.Bytes("string", 2))
				copy(o[len(o)-1:], sym.Bytes("last", 1))
			}
			f.set("name", o)
		}
	}
}

// C02Flip: any change of any byte of table data is noticed.
func C02Flip() {
	f := shape(sym.Param("shape", 2))
	b := f.bytes()
	n := int(get16(b, 4))
	var pos []int
	for i := 0; i < n; i++ {
		off, l := int(get32(b, 12+16*i+8)), int(get32(b, 12+16*i+12))
		for p := off; p < off+l; p++ {
			pos = append(pos, p)
		}
	}
	sym.Assert(unitype.ValidateBytes(append([]byte(nil), b...)) == nil, "the unchanged font passes validation")
	step := sym.Param("step", 1)
	k := sym.Choose("pos", (len(pos)+step-1)/step)*step + sym.Param("first", 0)
	if k >= len(pos) {
		return
	}
	d := sym.U8("xor")
	sym.Assume(d != 0)
	b[pos[k]] ^= d
	sym.Assert(unitype.ValidateBytes(b) != nil, "a changed byte of table data makes validation fail")
	sym.Reach("rejected")
}

// C02Big: the same for a table longer than the read buffer.
func C02Big() {
	f := shape(2)
	l := sym.Param("len", 9001)
	d := make([]byte, l)
	for i := range d {
		d[i] = byte(i * 7)
	}
	at := sym.Param("at", 4095)
	d[at] = sym.U8("old")
	f.add(tagOf(sym.Param("t", 0)), d)
	b := f.bytes()
	sym.Assert(unitype.ValidateBytes(append([]byte(nil), b...)) == nil, "a font with right checksums passes validation")
	x := sym.U8("xor")
	sym.Assume(x != 0)
	r := recOff(b, tagOf(sym.Param("t", 0)))
	b[int(get32(b, r+8))+at] ^= x
	sym.Assert(unitype.ValidateBytes(b) != nil, "a changed byte of table data makes validation fail")
	sym.Reach("rejected")
}

func tagOf(i int) string { return []string{"DSIG", "fpgm", "prep", "cvt"}[i] }
