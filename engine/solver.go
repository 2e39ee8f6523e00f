package main

// One incremental SMT solver process (z3 -in by default) per worker.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

type Solver struct {
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	pool    *Pool
	defined map[int32]bool
	stack   []*Term
	buf     strings.Builder
	args    []string
	cvc     bool

	Queries int
	NSat    int
	NUnsat  int
	NUnk    int
	Time    time.Duration
	dead    bool
}

func solverArgs(name string, timeoutMs int) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", timeoutMs)}
	case "z3-new":
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", timeoutMs)}
	}
	return []string{"z3", "-in", fmt.Sprintf("-t:%d", timeoutMs)}
}

func NewSolver(p *Pool, name string, timeoutMs int) (*Solver, error) {
	s := &Solver{pool: p, args: solverArgs(name, timeoutMs), cvc: name == "cvc5"}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.args[0], s.args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in, s.out = in, bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int32]bool{}
	s.stack = nil
	s.buf.Reset()
	s.buf.WriteString("(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
	s.dead = false
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		return t.smt(nil)
	}
	s.define(t)
	if t.op == OpVar {
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(int(t.id))
}

func (s *Solver) define(t *Term) {
	if s.defined[t.id] || t.op == OpConst {
		return
	}
	for _, x := range t.a {
		s.define(x)
	}
	s.defined[t.id] = true
	if t.op == OpVar {
		fmt.Fprintf(&s.buf, "(declare-const |%s| %s)\n", t.name, t.sort())
		return
	}
	fmt.Fprintf(&s.buf, "(define-fun t%d () %s %s)\n", t.id, t.sort(), t.smt(s.ref))
}

func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		fmt.Fprintf(&s.buf, "(pop %d)\n", k)
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		r := s.ref(pc[n])
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, pc[n])
	}
}

// Check decides pc ∧ extra; vars are read back into a model on sat.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (Result, Model) {
	if extra != nil && extra.isConst() && extra.val == 0 {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.dead {
		s.restart()
	}
	s.sync(pc)
	if extra != nil {
		r := s.ref(extra)
		fmt.Fprintf(&s.buf, "(push 1)\n(assert %s)\n", r)
	}
	for _, v := range vars {
		s.define(v)
	}
	s.buf.WriteString("(check-sat)\n")
	if solverLog != nil {
		solverLog.WriteString(s.buf.String())
	}
	if _, err := io.WriteString(s.in, s.buf.String()); err != nil {
		s.dead = true
		s.NUnk++
		return Unknown, nil
	}
	s.buf.Reset()
	line, err := s.line()
	res := Unknown
	if err != nil {
		s.dead = true
		s.NUnk++
		return Unknown, nil
	}
	var m Model
	switch line {
	case "sat":
		res = Sat
		s.NSat++
		m = s.model(vars)
		if m == nil {
			s.dead = true
			return Unknown, nil
		}
	case "unsat":
		res = Unsat
		s.NUnsat++
	default:
		s.NUnk++
		if strings.Contains(line, "error") {
			lastSolverError = line
			s.dead = true
			return Unknown, nil
		}
	}
	if extra != nil {
		s.buf.WriteString("(pop 1)\n")
	}
	return res, m
}

var lastSolverError string

var solverLog *os.File

func (s *Solver) line() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

func (s *Solver) model(vars []*Term) Model {
	m := Model{}
	if len(vars) == 0 {
		return m
	}
	var q strings.Builder
	q.WriteString("(get-value (")
	for _, v := range vars {
		q.WriteString("|" + v.name + "| ")
	}
	q.WriteString("))\n")
	if _, err := io.WriteString(s.in, q.String()); err != nil {
		return nil
	}
	// read a balanced s-expression
	var sb strings.Builder
	depth, started := 0, false
	inBar := false
	for !started || depth > 0 {
		c, err := s.out.ReadByte()
		if err != nil {
			return nil
		}
		sb.WriteByte(c)
		if c == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if c == '(' {
			depth++
			started = true
		} else if c == ')' {
			depth--
		}
	}
	txt := sb.String()
	if strings.Contains(txt, "(error") {
		lastSolverError = txt
		return nil
	}
	for _, v := range vars {
		val, ok := findVal(txt, v.name)
		if !ok {
			return nil
		}
		m[v.name] = val
	}
	return m
}

func findVal(txt, name string) (uint64, bool) {
	for _, pat := range []string{"(|" + name + "| ", "(" + name + " "} {
		i := strings.Index(txt, pat)
		if i < 0 {
			continue
		}
		r := txt[i+len(pat):]
		j := strings.IndexByte(r, ')')
		if strings.HasPrefix(r, "(_ bv") {
			f := strings.Fields(r[5:])
			v, err := strconv.ParseUint(f[0], 10, 64)
			return v, err == nil
		}
		r = strings.TrimSpace(r[:j])
		switch {
		case r == "true":
			return 1, true
		case r == "false":
			return 0, true
		case strings.HasPrefix(r, "#x"):
			v, err := strconv.ParseUint(r[2:], 16, 64)
			return v, err == nil
		case strings.HasPrefix(r, "#b"):
			v, err := strconv.ParseUint(r[2:], 2, 64)
			return v, err == nil
		}
	}
	return 0, false
}
