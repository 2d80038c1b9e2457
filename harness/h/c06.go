package h

import "github.com/unidoc/unitype/vpharness/sym"

func metricsKept(in, out *file, n int) {
	for i := 0; i < n; i++ {
		a1, l1, ok1 := in.metric(i)
		sym.Assume(ok1)
		a2, l2, ok2 := out.metric(i)
		sym.Assert(ok2, "metrics present for every glyph")
		sym.Assert(a1 == a2, "advance width kept")
		sym.Assert(l1 == l2, "left side bearing kept")
	}
}

// optimal: no longer than before and no removable repeated advance width at the end.
func optimal(in, out *file) {
	x, y := in.tab("hmtx"), out.tab("hmtx")
	sym.Assert(len(y) <= len(x), "optimizing never makes the metrics table longer")
	k := sym.Concrete(int(get16(out.tab("hhea"), 34)))
	sym.Assert(k >= 1, "at least one advance width")
	if k >= 2 {
		sym.Assert(get16(y, 4*(k-1)) != get16(y, 4*(k-2)), "no removable repeated advance width is left")
	}
}

// C06Hmtx: widths and bearings survive a round trip, with and without Optimize.
func C06Hmtx() {
	n, k := sym.Param("n", 3), sym.Param("k", 2)
	var gl [][]byte
	for i := 0; i < n; i++ {
		gl = append(gl, nil)
	}
	f := newFnt(gl, k, sym.Param("long", 0) == 1)
	l := 4 * k
	if n > k {
		l += 2 * (n - k)
	}
	f.hmtx = sym.Bytes("hmtx", l)
	in := open(f.bytes())
	u := mustParse(in.b)
	opt := sym.Param("opt", 0)
	for i := 0; i < opt; i++ {
		err := u.Optimize()
		sym.Assert(err == nil, "Optimize succeeds")
	}
	out := reopen(mustWrite(u))
	sym.Observe("out", out.b)
	metricsKept(in, out, n)
	if opt > 0 {
		optimal(in, out)
	}
	sym.Reach("done")
}

// C06Many: the same with more glyphs than fit a byte; a few widths are arbitrary.
func C06Many() {
	n, k := sym.Param("n", 300), sym.Param("k", 290)
	var gl [][]byte
	for i := 0; i < n; i++ {
		gl = append(gl, nil)
	}
	f := newFnt(gl, k, false)
	var b []byte
	for i := 0; i < k; i++ {
		w := uint16(600)
		if i < sym.Param("wide", 4) {
			w = uint16(i)
		}
		b = put16(b, w)
		b = put16(b, uint16(i*3))
	}
	for i := k; i < n; i++ {
		b = put16(b, uint16(7*i))
	}
	for _, i := range []int{k - 1, k - 3, 256, 255} {
		if i < 0 || i >= k {
			continue
		}
		copy(b[4*i:], sym.Bytes("m", 4))
	}
	f.hmtx = b
	in := open(f.bytes())
	u := mustParse(in.b)
	if sym.Param("opt", 1) == 1 {
		err := u.Optimize()
		sym.Assert(err == nil, "Optimize succeeds")
	}
	out := reopen(mustWrite(u))
	metricsKept(in, out, n)
	if sym.Param("opt", 1) == 1 {
		optimal(in, out)
	}
	sym.Reach("done")
}
