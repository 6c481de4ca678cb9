package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// SolverStats accumulates over the life of a worker.
type SolverStats struct {
	Queries, Sat, Unsat, Unknown int64
	BVPaths                      int64
	Time                         time.Duration
	MaxTime                      time.Duration
}

// Solver drives one z3 (or cvc5) process over pipes.
type Solver struct {
	bin       string
	timeoutMs int
	cmd       *exec.Cmd
	in        *bufio.Writer
	inPipe    io.WriteCloser
	out       *bufio.Reader
	gen       int
	nDefs     int
	nAsserted int
	intMode   bool
	stats     SolverStats
	declared  map[string]bool
	stack     int // 1 when inside a path scope
	script    strings.Builder
}

// noIntMode forces bit-vectors everywhere.
var noIntMode = os.Getenv("GOSYM_BV") != ""

// slowDir receives the scripts of slow queries when set.
var slowDir = os.Getenv("GOSYM_SLOW")

const slowMin = 2 * time.Second

func NewSolver(bin string, timeoutMs int) *Solver {
	s := &Solver{bin: bin, timeoutMs: timeoutMs}
	return s
}

func (s *Solver) start() {
	s.stop()
	var args []string
	if strings.Contains(s.bin, "cvc5") {
		args = []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", s.timeoutMs)}
	} else {
		args = []string{"-in", "-smt2"}
	}
	s.cmd = exec.Command(s.bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", s.bin, err))
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.nDefs = 0
	s.declared = map[string]bool{}
	s.stack = 0
	s.send("(set-option :print-success false)\n")
	s.send("(set-option :produce-models true)\n")
	if !strings.Contains(s.bin, "cvc5") {
		s.send(fmt.Sprintf("(set-option :timeout %d)\n", s.timeoutMs))
	}
	s.send("(set-logic ALL)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if slowDir != "" {
		s.script.WriteString(x)
	}
	s.in.WriteString(x)
}

// ref returns text that denotes t, emitting definitions as needed.
func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OConst:
		return constText(t)
	case OVar:
		if t.emitted != s.gen {
			if !s.declared[t.name] {
				s.declared[t.name] = true
				s.send(fmt.Sprintf("(declare-const |%s| %s)\n", t.name, sortName(t.w)))
			}
			t.emitted = s.gen
		}
		return "|" + t.name + "|"
	}
	if t.emitted != s.gen {
		if t.op == OUF && !s.declared[t.name] {
			s.declared[t.name] = true
			s.send(fmt.Sprintf("(declare-fun |%s| ((_ BitVec 64)) (_ BitVec 8))\n", t.name))
		}
		txt := bodyText(t, s.ref)
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortName(t.w), txt))
		t.emitted = s.gen
		s.nDefs++
	}
	return fmt.Sprintf("t%d", t.id)
}

// BeginPath opens a fresh scope for one path.
func (s *Solver) BeginPath() {
	if s.cmd == nil || s.nDefs > 40000 {
		s.start()
	}
	if s.stack > 0 {
		s.send("(pop 1)\n")
		s.stack = 0
	}
	s.script.Reset()
	s.send("(push 1)\n")
	s.stack = 1
	s.gen++
	s.declared = map[string]bool{}
	s.intMode = !noIntMode
	s.nAsserted = 0
}

func (s *Solver) Assert(st *State, t *Term) {
	r := s.term(st, t)
	s.send("(assert " + r + ")\n")
	s.nAsserted++
}

// Check decides the asserted path condition together with extra; when sat and
// want is non-nil, it returns a model covering the wanted leaves.
func (s *Solver) Check(st *State, extra *Term, vars, ufs []*Term, model bool) (SatResult, *Model) {
	r, m := s.check1(st, extra, vars, ufs, model)
	if r == Unknown && s.intMode {
		s.toBV(st)
		r, m = s.check1(st, extra, vars, ufs, model)
	}
	return r, m
}

func (s *Solver) check1(st *State, extra *Term, vars, ufs []*Term, model bool) (SatResult, *Model) {
	t0 := time.Now()
	// make sure everything is defined before the push so that it survives
	var r string
	if extra != nil {
		r = s.term(st, extra)
	}
	if model {
		for _, v := range vars {
			s.term(st, v)
		}
		for _, u := range ufs {
			s.term(st, u.args[0])
			s.term(st, u)
		}
		if extra != nil {
			r = s.term(st, extra)
		}
	}
	s.send("(push 1)\n")
	if extra != nil {
		s.send("(assert " + r + ")\n")
	}
	s.send("(check-sat)\n")
	s.in.Flush()
	line := s.readLine()
	var res SatResult
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		panic("solver said: " + line)
	}
	var m *Model
	if res == Sat && model {
		m = s.getModel(st, vars, ufs)
	}
	d := time.Since(t0)
	if slowDir != "" && d > slowMin {
		os.WriteFile(fmt.Sprintf("%s/q%d-%p-%d.smt2", slowDir, d.Milliseconds(), s, s.stats.Queries), []byte(s.script.String()), 0o644)
	}
	s.send("(pop 1)\n")
	s.stats.Queries++
	s.stats.Time += d
	if d > s.stats.MaxTime {
		s.stats.MaxTime = d
	}
	switch res {
	case Sat:
		s.stats.Sat++
	case Unsat:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	return res, m
}

func (s *Solver) readLine() string {
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			panic(fmt.Sprintf("solver died: %v", err))
		}
		line = strings.TrimSpace(line)
		if line == "" {
			continue
		}
		if strings.HasPrefix(line, "(error") {
			panic("solver error: " + line)
		}
		return line
	}
}

// readSexp reads one balanced s-expression.
func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	inQuote := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			panic("solver died")
		}
		if inQuote {
			sb.WriteByte(b)
			if b == '|' {
				inQuote = false
			}
			continue
		}
		switch b {
		case '|':
			inQuote = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started || b > ' ' {
			sb.WriteByte(b)
		}
		if started && depth == 0 {
			break
		}
	}
	x := sb.String()
	if strings.HasPrefix(x, "(error") {
		panic("solver error: " + x)
	}
	return x
}

func (s *Solver) getModel(st *State, vars, ufs []*Term) *Model {
	m := newModel()
	var q []string
	for _, v := range vars {
		q = append(q, s.term(st, v))
	}
	for _, u := range ufs {
		q = append(q, s.term(st, u.args[0]), s.term(st, u))
	}
	if len(q) == 0 {
		return m
	}
	s.send("(get-value (" + strings.Join(q, " ") + "))\n")
	s.in.Flush()
	txt := s.readSexp()
	vals := parseValues(txt)
	if len(vals) != len(q) {
		panic(fmt.Sprintf("get-value: asked %d got %d: %s", len(q), len(vals), txt))
	}
	for i, v := range vars {
		m.vars[v.name] = vals[i]
	}
	for i, u := range ufs {
		idx := vals[len(vars)+2*i]
		v := vals[len(vars)+2*i+1]
		mm := m.ufs[u.name]
		if mm == nil {
			mm = map[uint64]uint64{}
			m.ufs[u.name] = mm
		}
		mm[idx] = v
	}
	return m
}

// parseValues extracts the values of a get-value answer in order.
func parseValues(txt string) []uint64 {
	var out []uint64
	i := 1 // skip outer (
	n := len(txt)
	skipTerm := func() {
		for i < n && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\t' || txt[i] == '\r') {
			i++
		}
		if i < n && txt[i] == '(' {
			d := 0
			for i < n {
				switch txt[i] {
				case '(':
					d++
				case ')':
					d--
				case '|':
					i++
					for txt[i] != '|' {
						i++
					}
				}
				i++
				if d == 0 {
					return
				}
			}
			return
		}
		if i < n && txt[i] == '|' {
			i++
			for txt[i] != '|' {
				i++
			}
			i++
			return
		}
		for i < n && txt[i] != ' ' && txt[i] != ')' && txt[i] != '\n' {
			i++
		}
	}
	for {
		for i < n && txt[i] != '(' {
			if txt[i] == ')' {
				return out
			}
			i++
		}
		if i >= n {
			return out
		}
		i++ // (
		skipTerm()
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		st := i
		skipTerm()
		v := txt[st:i]
		out = append(out, parseVal(v))
		for i < n && txt[i] != ')' {
			i++
		}
		i++
	}
}

func parseVal(v string) uint64 {
	switch {
	case v == "true":
		return 1
	case v == "false":
		return 0
	case strings.HasPrefix(v, "(-"):
		var x uint64
		fmt.Sscanf(strings.TrimSpace(strings.Trim(v, "()-")), "%d", &x)
		return -x
	case v != "" && v[0] >= '0' && v[0] <= '9':
		var x uint64
		fmt.Sscanf(v, "%d", &x)
		return x
	case strings.HasPrefix(v, "#x"):
		var x uint64
		fmt.Sscanf(v[2:], "%x", &x)
		return x
	case strings.HasPrefix(v, "#b"):
		var x uint64
		for _, c := range v[2:] {
			x = x<<1 | uint64(c-'0')
		}
		return x
	}
	panic("cannot parse value " + v)
}
