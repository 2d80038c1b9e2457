package h

import (
	"bytes"
	"errors"
	"io"

	"github.com/unidoc/unitype"
	"github.com/unidoc/unitype/vpharness/sym"
)

var errIO = errors.New("input/output failure")

// source reads from b, at most chunk bytes at a time, and fails at one operation.
type source struct {
	r      *bytes.Reader
	chunk  int
	reads  int
	seeks  int
	failR  int // number of the read that fails, -1 never
	failS  int // number of the positioning seek that fails
	part   bool
	pos    bool // the failing seek says the position asked for, and is there
	failed bool
	eof    bool // fails by ending early instead
}

func (s *source) Read(p []byte) (int, error) {
	k := s.reads
	s.reads++
	if k == s.failR {
		n := 0
		if s.part && len(p) > 1 {
			n, _ = s.r.Read(p[:1])
		}
		s.failed = true
		if s.eof {
			return n, io.EOF
		}
		return n, errIO
	}
	if len(p) > s.chunk {
		p = p[:s.chunk]
	}
	return s.r.Read(p)
}

func (s *source) Seek(off int64, whence int) (int64, error) {
	if whence != io.SeekStart {
		// asking for the position
		return s.r.Seek(off, whence)
	}
	k := s.seeks
	s.seeks++
	if k == s.failS {
		s.failed = true
		if s.pos {
			s.r.Seek(off, whence)
			return off, errIO
		}
		return 0, errIO
	}
	return s.r.Seek(off, whence)
}

// needed lists a font whose every table is needed by a parse.
func (s *source) parse() (*unitype.Font, error) { return unitype.Parse(s) }

// C16Read: a read fails.
func C16Read() {
	b := shape(sym.Param("shape", 2)).bytes()
	max := sym.Param("max", 120)
	s := &source{r: bytes.NewReader(b), chunk: sym.Param("chunk", 1<<20), failR: sym.Choose("fail", max), failS: -1, part: sym.Param("part", 0) == 1, eof: sym.Param("eof", 0) == 1}
	f, err := s.parse()
	sym.Assert((f == nil) == (err != nil), "a font or an error")
	if s.failed {
		sym.Assert(err != nil, "a failing read is reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "without a failure there is a font")
		sym.Reach("passed")
	}
}

// C16Seek: a seek fails.
func C16Seek() {
	b := shape(sym.Param("shape", 2)).bytes()
	s := &source{r: bytes.NewReader(b), chunk: sym.Param("chunk", 1<<20), failR: -1, failS: sym.Choose("fail", sym.Param("max", 60)), pos: sym.Param("pos", 0) == 1}
	f, err := s.parse()
	sym.Assert((f == nil) == (err != nil), "a font or an error")
	if s.failed {
		sym.Assert(err != nil, "a failing seek is reported")
		sym.Reach("failed")
	} else {
		sym.Assert(err == nil, "without a failure there is a font")
		sym.Reach("passed")
	}
}

// C16Chunk: a source that delivers little at a time gives the same font.
func C16Chunk() {
	b := shape(sym.Param("shape", 0)).bytes()
	w := mustWrite(mustParse(b))
	s := &source{r: bytes.NewReader(b), chunk: sym.Param("chunk", 1), failR: -1, failS: -1}
	f, err := s.parse()
	sym.Assert(err == nil && f != nil, "short reads are no failure")
	same(w, mustWrite(f), "same font from short reads")
	sym.Reach("done")
}

// C16Trunc: the source ends early: no pass verdict, and no font when a table it needs is
// cut.
func C16Trunc() {
	f := shape(sym.Param("shape", 2))
	f.add("zzzz", []byte{1, 2, 3, 4})
	b := f.bytes()
	if t := sym.Param("last", -1); t >= 0 {
		// this table's data comes last, and nothing after it
		f.drop("zzzz")
		ts := f.tables()
		t %= len(ts)
		x := ts[t]
		ts = append(append(ts[:t:t], ts[t+1:]...), x)
		b = sfnt(ts)
	}
	n := sym.Choose("len", len(b))
	c := b[:n:n]
	// the tables Parse reads, up to where their data ends
	in := open(b)
	all := 0
	for _, t := range in.tags {
		if e := in.tabs[t][0] + in.tabs[t][1]; e > all {
			all = e
		}
	}
	sym.Assert(n >= all || unitype.ValidateBytes(c) != nil, "a truncated font does not pass validation")
	need := 12 + 16*len(in.tags)
	for _, t := range in.tags {
		if t == "zzzz" {
			continue
		}
		if e := in.tabs[t][0] + in.tabs[t][1]; e > need {
			need = e
		}
	}
	v, err := parse(c)
	sym.Assert((v == nil) == (err != nil), "a font or an error")
	if n < need {
		sym.Assert(err != nil, "a font with missing data is not accepted")
		sym.Reach("cut")
	}
	if n >= need {
		sym.Reach("whole")
	}
}

// sink takes room bytes in all.
type sink struct {
	room  int
	taken int
	mode  int
	short bool
}

func (s *sink) Write(p []byte) (int, error) {
	if s.taken+len(p) <= s.room {
		s.taken += len(p)
		return len(p), nil
	}
	n := s.room - s.taken
	s.taken = s.room
	s.short = true
	switch s.mode {
	case 1: // reports less without an error, against the rules of io.Writer
		return n, nil
	case 2: // nothing taken
		return 0, errIO
	}
	return n, errIO
}

// C16Write: the destination takes an arbitrary number of bytes.
func C16Write() {
	f := shape(sym.Param("shape", 0))
	u := mustParse(f.bytes())
	if sym.Param("derived", 0) == 1 {
		v, err := u.SubsetFirst(2)
		sym.Assert(err == nil, "truncating succeeds")
		u = v
	}
	whole := mustWrite(u)
	room := sym.Range("room", 0, 4000)
	s := &sink{room: room, mode: sym.Param("mode", 0)}
	err := u.Write(s)
	sym.Assert((err == nil) == (room >= len(whole)), "an error exactly when the output does not fit")
	if err == nil {
		sym.Reach("fits")
	} else {
		sym.Reach("short")
		// a later attempt on a good destination works
		same(whole, mustWrite(u), "writing again gives the whole file")
	}
}

// C16WriteAt: the destination fails at the k-th call whatever is written.
type failAt struct{ k, calls, mode int }

func (s *failAt) Write(p []byte) (int, error) {
	c := s.calls
	s.calls++
	if c == s.k {
		switch s.mode {
		case 1:
			return len(p), errIO
		case 2:
			return len(p) / 2, errIO
		}
		return 0, errIO
	}
	return len(p), nil
}

func C16WriteAt() {
	u := mustParse(shape(sym.Param("shape", 0)).bytes())
	s := &failAt{k: sym.Int("k"), mode: sym.Param("mode", 0)}
	sym.Assume(s.k >= 0)
	err := u.Write(s)
	sym.Assert((err != nil) == (s.k < s.calls), "an error exactly when a call failed")
	sym.Reach("done")
}
