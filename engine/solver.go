package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// slowMs makes slow queries visible while developing.
var slowMs, _ = strconv.Atoi(os.Getenv("VPSLOW"))

type Res uint8

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Solver is one z3 process fed with SMT-LIB text. Every query asserts its own set of
// constraints inside a push/pop; definitions of shared subterms are global.
type Solver struct {
	cx      *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	wc      io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	defs    int
	timeout int // ms
	slot    int
	next    *Solver // asked when this one does not answer
	bin     string

	nQuery, nSat, nUnsat, nUnk int
	nErr                       int
	lastErr                    string
	time                       time.Duration
	maxT                       time.Duration
}

// NewSolver starts the first of bins; the others are started when it fails to answer.
func NewSolver(cx *Ctx, bins []string, slot, timeoutMs int) *Solver {
	s := &Solver{cx: cx, timeout: timeoutMs, bin: bins[0], slot: slot}
	if len(bins) > 1 && slot+1 < len(Expr{}.sent) {
		s.next = NewSolver(cx, bins[1:], slot+1, 3*timeoutMs)
	}
	return s
}

func (s *Solver) start() {
	s.cx.gen++
	s.gen = s.cx.gen
	args := []string{"-in", "-memory:1500"}
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeout)}
	}
	s.cmd = exec.Command("/bin/sh", append([]string{"-c", `ulimit -v 2000000; exec "$0" "$@"`, s.bin}, args...)...)
	wc, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	rd, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.wc = wc
	s.in = bufio.NewWriterSize(wc, 1<<16)
	s.out = bufio.NewReaderSize(rd, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.bin, err))
	}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n")
	if !strings.Contains(s.bin, "cvc5") {
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeout)
	}
	fmt.Fprintf(s.in, "(set-logic QF_BV)\n")
	s.defs = 0
}

func (s *Solver) Close() {
	if s.next != nil {
		s.next.Close()
	}
	s.stop()
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.wc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.stop()
	s.start()
}

// emit defines e (and what it needs) in the solver.
func (s *Solver) emit(e *Expr) {
	if e.op == OConst || e.sent[s.slot] == s.gen {
		return
	}
	stack := []*Expr{e}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OConst || x.sent[s.slot] == s.gen {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, y := range x.a {
			if y.op != OConst && y.sent[s.slot] != s.gen {
				stack = append(stack, y)
				ready = false
			}
		}
		if !ready {
			continue
		}
		stack = stack[:len(stack)-1]
		x.sent[s.slot] = s.gen
		s.defs++
		if x.op == OVar {
			fmt.Fprintf(s.in, "(declare-const v%d %s)\n", x.id, x.sort())
		} else {
			fmt.Fprintf(s.in, "(define-fun e%d () %s %s)\n", x.id, x.sort(), x.body())
		}
	}
}

// Check decides the conjunction of cs. With sat, the model of vars is returned.
func (s *Solver) Check(cs []*Expr, vars []*Expr) (Res, Model) {
	r, m := s.check(cs, vars)
	if r == Unknown && s.next != nil {
		s.nUnk--
		return s.next.Check(cs, vars)
	}
	return r, m
}

func (s *Solver) check(cs []*Expr, vars []*Expr) (Res, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.time += d
		if d > s.maxT {
			s.maxT = d
		}
		if slowMs > 0 && d > time.Duration(slowMs)*time.Millisecond {
			fmt.Fprintf(os.Stderr, "SLOW %v vars %d\n", d, len(vars))
			for _, c := range cs {
				fmt.Fprintf(os.Stderr, "   %s\n", c.String())
			}
		}
	}()
	s.nQuery++
	if s.cmd == nil {
		s.start()
	} else if s.defs > 300000 || s.defs > 30000 && strings.Contains(s.bin, "cvc5") {
		s.restart()
	}
	for try := 0; ; try++ {
		// every query is self-contained: declarations and definitions live in its scope
		s.cx.gen++
		s.gen = s.cx.gen
		fmt.Fprintf(s.in, "(push 1)\n")
		for _, c := range cs {
			s.emit(c)
		}
		for _, v := range vars {
			s.emit(v)
		}
		for _, c := range cs {
			fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
		}
		fmt.Fprintf(s.in, "(check-sat)\n")
		s.in.Flush()
		line, err := s.readLine()
		if err != nil || strings.HasPrefix(line, "(error") {
			s.nErr++
			s.lastErr = line
			s.restart()
			if try < 1 {
				continue
			}
			s.nUnk++
			return Unknown, nil
		}
		var m Model
		res := Unknown
		switch line {
		case "sat":
			res = Sat
			m = Model{}
			if len(vars) > 0 {
				var sb strings.Builder
				sb.WriteString("(get-value (")
				for i, v := range vars {
					if i > 0 {
						sb.WriteByte(' ')
					}
					fmt.Fprintf(&sb, "v%d", v.id)
				}
				sb.WriteString("))\n")
				s.in.WriteString(sb.String())
				s.in.Flush()
				if e := s.readModel(m); e != nil {
					s.nErr++
					s.lastErr = e.Error()
					s.restart()
					s.nUnk++
					return Unknown, nil
				}
			}
			s.nSat++
		case "unsat":
			res = Unsat
			s.nUnsat++
		default:
			s.nUnk++
		}
		fmt.Fprintf(s.in, "(pop 1)\n")
		return res, m
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// readModel parses ((v1 #x00) (v2 true) ...).
func (s *Solver) readModel(m Model) error {
	depth := 0
	var tok strings.Builder
	var cur []string
	flush := func() {
		if tok.Len() > 0 {
			cur = append(cur, tok.String())
			tok.Reset()
		}
	}
	started := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		switch b {
		case '(':
			depth++
			started = true
			flush()
		case ')':
			flush()
			depth--
			if depth == 1 && len(cur) > 0 {
				if len(cur) != 2 || cur[0][0] != 'v' {
					return fmt.Errorf("bad model %v", cur)
				}
				id, e1 := strconv.Atoi(cur[0][1:])
				v := cur[1]
				var val uint64
				var e2 error
				switch {
				case v == "true":
					val = 1
				case v == "false":
				case strings.HasPrefix(v, "#x"):
					val, e2 = strconv.ParseUint(v[2:], 16, 64)
				case strings.HasPrefix(v, "#b"):
					val, e2 = strconv.ParseUint(v[2:], 2, 64)
				default:
					return fmt.Errorf("bad value %s", v)
				}
				if e1 != nil || e2 != nil {
					return fmt.Errorf("bad model entry %v", cur)
				}
				m[int32(id)] = val
				cur = cur[:0]
			}
		case ' ', '\n', '\t', '\r':
			flush()
		default:
			tok.WriteByte(b)
		}
		if started && depth == 0 {
			s.out.ReadString('\n')
			return nil
		}
	}
}
