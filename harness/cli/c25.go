// Package cli holds the harnesses for the command line tool.
package cli

import (
	"os"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/truecli/cmd"
	"github.com/unidoc/unitype/vpharness/h"
	"github.com/unidoc/unitype/vpharness/sym"
)

func init() { sym.Main = cmd.Execute }

// run is the tool run with the given arguments; the result is its exit status.
func run(args ...string) int {
	args = append([]string{"truecli"}, args...)
	return sym.Exit(args, func() {
		os.Args = args
		cmd.Execute()
	})
}

// good is what the library makes of the input: the bytes the command has to write, if it
// has to.
type good struct {
	ok  bool
	out []byte
}

// rewritten: parsing and writing back succeed and give a valid file.
func rewritten(b []byte) (*unitype.Font, good) {
	f, err := h.Parse(b)
	if err != nil {
		return nil, good{}
	}
	w, err := h.Write(f)
	if err != nil || unitype.ValidateBytes(w) != nil {
		return nil, good{}
	}
	return f, good{true, w}
}

func subset(v *unitype.Font, err error) good {
	if err != nil {
		return good{}
	}
	w, err := h.Write(v)
	if err != nil || unitype.ValidateBytes(w) != nil {
		return good{}
	}
	return good{true, w}
}

// verdict compares the exit status and the output file with what the library says. old is
// what was in the place of the output before, nil if nothing.
func verdict(code int, g good, out string, old []byte) {
	sym.Assert((code == 0) == g.ok, "the command succeeds exactly when the library does")
	if out == "" {
		return
	}
	w, there := sym.GetFile(sym.Path(out))
	if g.ok {
		sym.Assert(there, "output written")
		h.Same(g.out, w, "the output is what the library makes")
		sym.Assert(unitype.ValidateBytes(w) == nil, "the output passes validation")
		sym.Reach("done")
		return
	}
	sym.Assert(there == (old != nil), "no output without success")
	if old != nil {
		h.Same(old, w, "file in place of the output left alone")
	}
	sym.Reach("refused")
}

// digits is a decimal number of at most n digits, or some other text.
func digits(n int) string {
	b := sym.Bytes("arg", n)
	sym.Assume(b[0] != '-')
	for _, c := range b {
		sym.Assume(c != 0)
	}
	return string(b)
}

// C25Cmd: every command on fonts of every kind.
func C25Cmd() {
	b := h.Subject()
	in := sym.Path("in.ttf")
	sym.PutFile(in, b)
	var old []byte
	out := ""
	put := func(name string) {
		out = name
		switch sym.Param("old", 0) {
		case 1:
			old = []byte("something else")
			sym.PutFile(sym.Path(name), old)
		case 2:
			sym.PutDir(sym.Path(name))
		case 3:
			sym.PutFull(sym.Path(name))
		}
	}
	var code int
	var g good
	switch sym.Param("cmd", 0) {
	case 0:
		code = run("validate", in)
		_, err := h.Parse(b)
		g.ok = err == nil && unitype.ValidateBytes(b) == nil
	case 1:
		args := []string{"info"}
		for _, t := range []string{"--trec", "--head", "--os2", "--hhea", "--hmtx", "--cmap", "--loca", "--glyf", "--post", "--name", "--cmappings"} {
			if sym.Param("flags", 0) == 1 {
				args = append(args, t)
			}
		}
		code = run(append(args, in)...)
		_, err := h.Parse(b)
		g.ok = err == nil
	case 2:
		put("readwrite.ttf")
		code = run("readwrite", in)
		_, g = rewritten(b)
	case 3:
		put("subset.ttf")
		code = run("subset", "simple", in)
		var f *unitype.Font
		if f, g = rewritten(b); g.ok {
			g = subset(f.SubsetFirst(256))
		}
	case 4:
		put("subset_gids.ttf")
		x := digits(sym.Param("digits", 1))
		if sym.Param("big", 0) == 1 {
			x = "6553" + x
		}
		more, gids := []string{"0", "2"}, []unitype.GlyphIndex{0, 2}
		if sym.Param("low", 0) == 1 {
			more[1], gids[1] = "1", 1
		}
		n, isNum := number(x)
		if sym.Param("two", 0) == 1 { // the last of three arguments is arbitrary too
			y := digits(1)
			m, ok := number(y)
			isNum = isNum && ok
			more[1], gids[1] = y, unitype.GlyphIndex(m)
		}
		args := []string{"subset", "gids", in}
		for i := 0; i < sym.Param("many", 0); i++ {
			args = append(args, "0")
		}
		code = run(append(append(args, more...), x)...)
		var f *unitype.Font
		if f, g = rewritten(b); g.ok {
			if isNum {
				g = subset(f.SubsetKeepIndices(append(gids, unitype.GlyphIndex(n))))
			} else {
				g = good{}
			}
		}
	case 5:
		text := string(append([]byte("B"), sym.Bytes("text", sym.Param("bytes", 1))...))
		for i := 0; i < len(text); i++ {
			sym.Assume(text[i] != 0)
		}
		switch sym.Param("o", 0) {
		case 0:
			put("subset_runes.ttf")
			code = run("subset", "runes", in, text)
		case 1:
			put("other.ttf")
			code = run("subset", "runes", "-o", "other.ttf", in, text)
		case 2:
			put("other.ttf")
			code = run("subset", "runes", in, text, "--outfile=other.ttf")
		case 4: // in the place of the input
			code = run("subset", "runes", in, "-o", "in.ttf", text)
			out, old = "in.ttf", b
		case 5: // names are taken as they are
			names := []string{"none", "a b.ttf", ".out", "a.TTF", "b.otf", "a..b", "out.", "other.ttf "}
			name := names[sym.Choose("out", len(names))]
			put(name)
			code = run("subset", "runes", "-o", name, in, text)
		case 3:
			code = run("subset", "runes", "-o", sym.BadPath(), in, text)
			sym.Assert(code != 0, "an output that cannot be created is reported")
			return
		}
		var f *unitype.Font
		if f, g = rewritten(b); g.ok {
			g = subset(f.SubsetKeepRunes([]rune(text)))
		}
	}
	if sym.Param("old", 0) > 1 {
		sym.Assert(code != 0, "an output that cannot be written is reported")
		sym.Reach("done")
		return
	}
	verdict(code, g, out, old)
	if out == "in.ttf" {
		return
	}
	c, ok := sym.GetFile(in)
	sym.Assert(ok, "input still there")
	h.Same(b, c, "input not altered")
	if g.ok {
		sym.Reach("done")
	}
}

// number reads a decimal glyph index.
func number(s string) (int, bool) {
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return 0, false
		}
		n = 10*n + int(s[i]-'0')
	}
	return n, n <= 0xFFFF
}

// C25Args: missing files and arguments.
func C25Args() {
	in := sym.Path("in.ttf")
	var code int
	none := sym.Path("no.ttf")
	switch sym.Param("k", 0) {
	case 0:
		code = run("validate", none)
	case 1:
		code = run("info", none)
	case 2:
		code = run("readwrite", none)
	case 3:
		code = run("subset", "simple", none)
	case 4:
		code = run("subset", "gids", none, "1")
	case 5:
		code = run("subset", "runes", none, "A")
	case 6:
		code = run("validate")
	case 7:
		code = run("subset", "gids", in)
	case 8:
		code = run("subset", "runes", in)
	case 9:
		code = run("readwrite")
	case 10:
		code = run("nonsense", in)
	case 11:
		code = run("info", "--nonsense", in)
	case 12:
		code = run("subset", "simple")
	case 13:
		code = run("info")
	}
	sym.Assert(code != 0, "a command without its input fails")
	for _, n := range []string{"readwrite.ttf", "subset.ttf", "subset_gids.ttf", "subset_runes.ttf"} {
		_, there := sym.GetFile(sym.Path(n))
		sym.Assert(!there, "no output without an input")
	}
	sym.Reach("done")
}
