package h

import (
	"github.com/unidoc/unitype/internal/strutils"
	"github.com/unidoc/unitype/vpharness/sym"
)

// scalar is an arbitrary Unicode scalar value.
func scalar() rune {
	c := sym.U32("char")
	sym.Assume(c <= 0x10FFFF)
	sym.Assume(sym.Or(c < 0xD800, c > 0xDFFF))
	return rune(c)
}

// C22Text: encode and decode.
func C22Text() {
	n := sym.Param("n", 2)
	var rs []rune
	var want []byte
	for i := 0; i < n; i++ {
		c := scalar()
		rs = append(rs, c)
		if c < 0x10000 {
			want = put16(want, uint16(c))
		} else {
			want = put16(want, uint16(0xD800+(c-0x10000)>>10))
			want = put16(want, uint16(0xDC00+(c-0x10000)&0x3FF))
		}
	}
	s := string(rs)
	e := []byte(strutils.StringToUTF16(s))
	same(e, want, "UTF-16 big endian")
	sym.Assert(sym.EqStr(strutils.UTF16ToString(e), s), "the text comes back")
	d := strutils.UTF16ToRunes(e)
	sym.Assert(len(d) == n, "as many characters")
	for i := range d {
		sym.Assert(d[i] == rs[i], "the characters come back")
	}
	same(e, want, "data not altered by decoding")
	sym.Reach("done")
}

// C22Keep: decoding leaves the caller's data alone, also beyond the slice.
func C22Keep() {
	n := sym.Param("n", 3)
	b := sym.Bytes("b", n+3)
	c := append([]byte(nil), b...)
	d := b[:n]
	r1 := strutils.UTF16ToRunes(d)
	same(b, c, "data not altered")
	r2 := strutils.UTF16ToRunes(d)
	sym.Assert(len(r1) == len(r2), "same answer again")
	for i := range r1 {
		sym.Assert(r1[i] == r2[i], "same answer again")
	}
	if n%2 == 0 {
		w := utf16Text(d)
		sym.Assert(len(w) == len(r1), "characters of the data")
		for i := range w {
			sym.Assert(w[i] == r1[i], "characters of the data")
		}
	}
	_ = strutils.UTF16ToString(d)
	same(b, c, "data not altered")
	sym.Reach("done")
}

// C22KeepDoc: the same for PDFDocEncoding.
func C22KeepDoc() {
	n := sym.Param("n", 1)
	b := sym.Bytes("b", n+2)
	c := append([]byte(nil), b...)
	strutils.PDFDocEncodingToRunes(b[:n])
	strutils.PDFDocEncodingToString(b[:n])
	same(b, c, "data not altered")
	sym.Reach("done")
}

// docHigh: PDFDocEncoding from 0x80 to 0xA0 and from 0x18 to 0x1F (PDF 32000-1, D.3).
var docHigh = []rune("•†‡…—–ƒ⁄‹›−‰„“”‘’‚™ﬁﬂŁŒŠŸŽıłœšž\u0000€")
var docLow = []rune("˘ˇˆ˙˝˛˚˜")

// docRune is the character of a code, ok false when it has none; control characters other
// than tab, line feed and carriage return are not considered.
func docRune(c byte) (rune, bool) {
	switch {
	case c >= 0x18 && c < 0x20:
		return docLow[c-0x18], true
	case c == 9 || c == 10 || c == 13 || c >= 0x20 && c <= 0x7E || c >= 0xA1 && c != 0xAD:
		return rune(c), true
	case c >= 0x80 && c <= 0xA0 && c != 0x9F:
		return docHigh[c-0x80], true
	}
	return 0, false
}

func inDoc(r rune) (byte, bool) {
	switch {
	case r == 9 || r == 10 || r == 13 || r >= 0x20 && r <= 0x7E || r >= 0xA1 && r <= 0xFF && r != 0xAD:
		return byte(r), true
	}
	for i, x := range docLow {
		if x == r {
			return byte(0x18 + i), true
		}
	}
	for i, x := range docHigh {
		if x == r && i != 0x1F {
			return byte(0x80 + i), true
		}
	}
	return 0, false
}

// control characters, on which encoders differ
func control(r rune) bool {
	return r < 0x20 && r != 9 && r != 10 && r != 13 || r == 0x7F || r == 0xAD || r >= 0x80 && r < 0xA1
}

// C22Doc: codes to text and back.
func C22Doc() {
	c := sym.Concrete(int(sym.U8("code")))
	r, ok := docRune(byte(c))
	sym.Assume(ok)
	b := []byte{'a', byte(c), byte(c), 'z'}
	s := strutils.PDFDocEncodingToString(b)
	sym.Assert(s == string([]rune{'a', r, r, 'z'}), "characters of the encoding")
	same(strutils.StringToPDFDocEncoding(s), b, "the codes come back")
	sym.Reach("done")
}

// C22DocText: any text; what is in the encoding comes back, the rest is left out.
func C22DocText() {
	n := sym.Param("n", 1)
	rs := []rune{'x'}
	keep := []rune{'x'}
	want := []byte{'x'}
	for i := 0; i < n; i++ {
		c := scalar()
		sym.Assume(!control(c))
		rs = append(rs, c)
		if b, ok := inDoc(c); ok {
			keep = append(keep, c)
			want = append(want, b)
			sym.Reach("in")
		} else {
			sym.Reach("out")
		}
		rs = append(rs, 'é')
		keep = append(keep, 'é')
		want = append(want, 0xE9)
	}
	e := strutils.StringToPDFDocEncoding(string(rs))
	same(e, want, "the codes of the characters in the encoding")
	sym.Assert(sym.EqStr(strutils.PDFDocEncodingToString(e), string(keep)), "the text comes back without what is not in the encoding")
}

// C22DocRound: every text that comes from codes survives, control characters included.
func C22DocRound() {
	b := sym.Bytes("code", sym.Param("n", 1))
	s := strutils.PDFDocEncodingToString(b)
	t := strutils.PDFDocEncodingToString(strutils.StringToPDFDocEncoding(s))
	sym.Assert(sym.EqStr(s, t), "the text comes back")
	sym.Reach("done")
}
