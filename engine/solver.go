package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

// Incremental SMT solver over a pipe.

type SolverStats struct {
	Queries, Sat, Unsat, Unknown, Fallback int64
	Nanos                                  int64
}

var solverErrors atomic.Int64

type Solver struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	gen   int
	ts    *Terms
	stats SolverStats
	stack [][]*Term // asserted terms per level, for restarts and one-shot fallbacks
	buf   strings.Builder
	nq    int
	dead  bool
}

var genCounter atomic.Int64

var slowQueries = os.Getenv("GOSYM_SLOW") != ""

// show prints a term for debugging.
func show(t *Term, d int) string {
	switch {
	case t == nil:
		return ""
	case t.op == OpConst:
		return fmt.Sprint(t.k)
	case t.op == OpVar:
		return t.name
	case d > 30:
		return "…"
	}
	s := fmt.Sprintf("(%s.%d", opNames[t.op], t.w)
	if t.op == OpExtract {
		s = fmt.Sprintf("(ext.%d.%d", t.k>>8, t.k&255)
	} else if t.op == OpZext {
		s = fmt.Sprintf("(zx.%d", t.w)
	} else if t.op == OpIte {
		s = "(ite"
	}
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			s += " " + show(x, d+1)
		}
	}
	return s + ")"
}

const incrTimeoutMs = 4000

func NewSolver(ts *Terms) *Solver {
	s := &Solver{ts: ts, stack: [][]*Term{nil}}
	s.start()
	return s
}

func (s *Solver) start() {
	s.gen = int(genCounter.Add(1))
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(err)
	}
	s.dead = false
	s.nq = 0
	s.buf.Reset()
	fmt.Fprintf(&s.buf, "(set-option :global-declarations true)\n(set-option :print-success false)\n(set-option :timeout %d)\n(set-option :model.completion true)\n", incrTimeoutMs)
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
	for i, lv := range s.stack {
		if i > 0 {
			s.buf.WriteString("(push 1)\n")
		}
		for _, t := range lv {
			s.emitAssert(t)
		}
	}
}

func (s *Solver) emitAssert(t *Term) {
	defineTerm(t, s.gen, &s.buf)
	fmt.Fprintf(&s.buf, "(assert %s)\n", smtRef(t))
}

func (s *Solver) Push() {
	s.stack = append(s.stack, nil)
	s.buf.WriteString("(push 1)\n")
}

func (s *Solver) Pop(n int) {
	if n == 0 {
		return
	}
	s.stack = s.stack[:len(s.stack)-n]
	fmt.Fprintf(&s.buf, "(pop %d)\n", n)
}

func (s *Solver) Assert(t *Term) {
	if t == s.ts.True {
		return
	}
	top := len(s.stack) - 1
	s.stack[top] = append(s.stack[top], t)
	s.emitAssert(t)
}

func (s *Solver) flush() error {
	if s.buf.Len() == 0 {
		return nil
	}
	_, err := io.WriteString(s.in, s.buf.String())
	s.buf.Reset()
	return err
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

type satResult int

const (
	resUnknown satResult = iota
	resSat
	resUnsat
)

// Check decides satisfiability of the asserted terms plus extra. The model is valid for resSat.
func (s *Solver) Check(extra *Term, wantModel bool) (satResult, map[string]uint64) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.stats.Nanos += int64(d)
		if slowQueries && d > 500*time.Millisecond && extra != nil {
			fmt.Println("SLOW", d, show(extra, 0))
		}
	}()
	s.stats.Queries++
	s.nq++
	if s.nq > 20000 {
		s.restart()
	}
	if extra != nil {
		s.buf.WriteString("(push 1)\n")
		s.emitAssert(extra)
	}
	s.buf.WriteString("(check-sat)\n")
	line := ""
	err := s.flush()
	if err == nil {
		line, err = s.readLine()
	}
	var res satResult
	var model map[string]uint64
	switch {
	case err != nil:
		solverErrors.Add(1)
		s.restart()
		res = resUnknown
		return s.fallback(extra, wantModel)
	case line == "sat":
		res = resSat
		if wantModel {
			model, err = s.getModel()
			if err != nil {
				solverErrors.Add(1)
				s.restart()
				return s.fallback(extra, wantModel)
			}
		}
	case line == "unsat":
		res = resUnsat
	case line == "unknown" || line == "timeout":
		res = resUnknown
	default:
		// an error line: inconclusive from this solver
		solverErrors.Add(1)
		fmt.Println("SOLVER-ERROR", line)
		s.restart()
		return s.fallback(extra, wantModel)
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	if res == resUnknown {
		return s.fallback(extra, wantModel)
	}
	if res == resSat {
		s.stats.Sat++
	} else {
		s.stats.Unsat++
	}
	return res, model
}

func (s *Solver) declaredVars() []*Term {
	var vs []*Term
	for _, v := range s.ts.vars {
		if v.defGen == s.gen {
			vs = append(vs, v)
		}
	}
	return vs
}

func (s *Solver) getModel() (map[string]uint64, error) {
	vs := s.declaredVars()
	m := make(map[string]uint64, len(vs))
	const chunk = 200
	for i := 0; i < len(vs); i += chunk {
		j := min(i+chunk, len(vs))
		s.buf.WriteString("(get-value (")
		for _, v := range vs[i:j] {
			s.buf.WriteString("|" + v.name + "| ")
		}
		s.buf.WriteString("))\n")
		if err := s.flush(); err != nil {
			return nil, err
		}
		txt, err := s.readSexp()
		if err != nil {
			return nil, err
		}
		if err := parseValues(txt, m); err != nil {
			return nil, err
		}
	}
	return m, nil
}

func (s *Solver) readSexp() (string, error) {
	var sb strings.Builder
	depth := 0
	inq := false
	started := false
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			return "", err
		}
		sb.WriteByte(c)
		if c == '|' {
			inq = !inq
			continue
		}
		if inq {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
			if depth == 0 && started {
				return sb.String(), nil
			}
		}
	}
}

// parseValues parses ((|x#0| #x00) (|y#0| true)); every variable name contains '#', so it is always quoted.
func parseValues(txt string, m map[string]uint64) error {
	if strings.Contains(txt, "(error") {
		return fmt.Errorf("solver error: %s", txt)
	}
	for {
		i := strings.IndexByte(txt, '|')
		if i < 0 {
			return nil
		}
		txt = txt[i+1:]
		j := strings.IndexByte(txt, '|')
		if j < 0 {
			return fmt.Errorf("bad model")
		}
		name := txt[:j]
		txt = strings.TrimLeft(txt[j+1:], " \n")
		k := strings.IndexByte(txt, ')')
		if k < 0 {
			return fmt.Errorf("bad model")
		}
		v, err := parseBV(strings.TrimSpace(txt[:k]))
		if err != nil {
			return err
		}
		m[name] = v
		txt = txt[k:]
	}
}

func parseBV(val string) (uint64, error) {
	switch {
	case val == "true":
		return 1, nil
	case val == "false":
		return 0, nil
	case strings.HasPrefix(val, "#x"):
		return strconv.ParseUint(val[2:], 16, 64)
	case strings.HasPrefix(val, "#b"):
		return strconv.ParseUint(val[2:], 2, 64)
	case strings.HasPrefix(val, "(_ bv"):
		f := strings.Fields(val[5:])
		return strconv.ParseUint(f[0], 10, 64)
	}
	return 0, fmt.Errorf("bad value %q", val)
}

// fallback: one-shot portfolio on the complete assertion set.
func (s *Solver) fallback(extra *Term, wantModel bool) (satResult, map[string]uint64) {
	s.stats.Fallback++
	gen := int(genCounter.Add(1))
	var sb strings.Builder
	var all []*Term
	for _, lv := range s.stack {
		all = append(all, lv...)
	}
	if extra != nil {
		all = append(all, extra)
	}
	for _, t := range all {
		defineTerm(t, gen, &sb)
		fmt.Fprintf(&sb, "(assert %s)\n", smtRef(t))
	}
	var vs []*Term
	for _, v := range s.ts.vars {
		if v.defGen == gen {
			vs = append(vs, v)
		}
	}
	// definitions of this generation clobbered defGen of shared terms: restart the pipe so that it is consistent again
	defer s.restart()
	sb.WriteString("(check-sat)\n")
	if len(vs) > 0 {
		sb.WriteString("(get-value (")
		for _, v := range vs {
			sb.WriteString("|" + v.name + "| ")
		}
		sb.WriteString("))\n")
	}
	script := sb.String()
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	type ans struct {
		r satResult
		m map[string]uint64
	}
	ch := make(chan ans, 3)
	run := func(pre string, name string, args ...string) {
		c := exec.CommandContext(ctx, name, args...)
		c.Stdin = strings.NewReader(pre + script)
		out, _ := c.Output()
		txt := string(out)
		switch {
		case strings.HasPrefix(txt, "unsat"):
			ch <- ans{resUnsat, nil}
		case strings.HasPrefix(txt, "sat"):
			m := map[string]uint64{}
			if err := parseValues(txt[3:], m); err != nil {
				ch <- ans{resUnknown, nil}
				return
			}
			ch <- ans{resSat, m}
		default:
			ch <- ans{resUnknown, nil}
		}
	}
	logic := "QF_BV"
	if strings.Contains(script, "to_fp") {
		logic = "QF_BVFP"
	}
	go run("(set-option :produce-models true)\n(set-logic "+logic+")\n", "z3-new", "-in", "-smt2")
	go run("(set-option :produce-models true)\n(set-logic QF_BV)\n", "cvc5", "--lang=smt2", "--solve-bv-as-int=sum", "-")
	go run("(set-option :produce-models true)\n(set-logic QF_BV)\n", "cvc5", "--lang=smt2", "-")
	for i := 0; i < 3; i++ {
		a := <-ch
		if a.r != resUnknown {
			if a.r == resSat {
				s.stats.Sat++
			} else {
				s.stats.Unsat++
			}
			return a.r, a.m
		}
	}
	s.stats.Unknown++
	return resUnknown, nil
}
