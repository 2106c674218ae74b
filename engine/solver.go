package main

// SMT solver process (z3 -in or compatible), incremental.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type PC struct {
	t      *Term
	parent *PC
	depth  int
	weak   bool // implied by the rest: not asserted
	nobj   uint32
}

type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	out     *bufio.Reader
	stack   []*PC
	defined map[int32]bool
	vars    []*Term
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	bin     []string
	log     io.Writer
	dead    bool
}

func solverCmd(name string) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=20000"}
	case "z3-new":
		return []string{"z3-new", "-in", "-t:20000"}
	}
	return []string{"z3", "-in", "-t:20000"}
}

func NewSolver(c *Ctx, name string) (*Solver, error) {
	s := &Solver{c: c, bin: solverCmd(name)}
	if f := os.Getenv("SEMSYM_SMTLOG"); f != "" {
		w, _ := os.OpenFile(f, os.O_CREATE|os.O_APPEND|os.O_WRONLY, 0o644)
		s.log = w
	}
	return s, s.start()
}

func (s *Solver) start() error {
	s.cmd = exec.Command(s.bin[0], s.bin[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.defined = map[int32]bool{}
	s.vars = nil
	s.stack = nil
	s.send("(set-option :global-declarations true)\n(set-logic QF_BV)\n")
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) send(x string) {
	if s.log != nil {
		io.WriteString(s.log, x)
	}
	s.in.WriteString(x)
}

func (s *Solver) define(t *Term) {
	if t.op == OConst || s.defined[t.id] {
		return
	}
	if t.op == OVar {
		s.defined[t.id] = true
		s.vars = append(s.vars, t)
		s.send(fmt.Sprintf("(declare-fun v%d () %s)\n", t.id, sortSMT(t.w)))
		return
	}
	for _, a := range t.args {
		if a != nil {
			s.define(a)
		}
	}
	s.defined[t.id] = true
	s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", t.id, sortSMT(t.w), t.body()))
}

func (s *Solver) sync(pc *PC) {
	var chain []*PC
	for p := pc; p != nil; p = p.parent {
		if !p.weak {
			chain = append(chain, p)
		}
	}
	n := len(chain)
	k := 0
	for k < len(s.stack) && k < n && s.stack[k] == chain[n-1-k] {
		k++
	}
	if d := len(s.stack) - k; d > 0 {
		s.send(fmt.Sprintf("(pop %d)\n", d))
		s.stack = s.stack[:k]
	}
	for ; k < n; k++ {
		p := chain[n-1-k]
		s.define(p.t)
		s.send(fmt.Sprintf("(push 1)\n(assert %s)\n", p.t.ref()))
		s.stack = append(s.stack, p)
	}
}

func (s *Solver) line() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check asks whether pc and c are satisfiable together; on sat returns a model.
func (s *Solver) Check(pc *PC, c *Term) (string, Model) {
	if c == s.c.tFalse {
		return "unsat", nil
	}
	if s.dead {
		return "unknown", nil
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.sync(pc)
	s.define(c)
	s.send(fmt.Sprintf("(push 1)\n(assert %s)\n(check-sat)\n", c.ref()))
	s.in.Flush()
	res, err := s.line()
	for err == nil && res == "" {
		res, err = s.line()
	}
	if err != nil {
		s.dead = true
		s.Unknown++
		return "unknown", nil
	}
	var m Model
	switch res {
	case "sat":
		s.Sat++
		m = s.getModel()
		if m == nil {
			res = "unknown"
		}
	case "unsat":
		s.Unsat++
	default:
		if strings.HasPrefix(res, "(error") {
			fmt.Fprintln(os.Stderr, "solver:", res)
		}
		s.Unknown++
		res = "unknown"
	}
	s.send("(pop 1)\n")
	if d := time.Since(t0); d > 500*time.Millisecond && os.Getenv("SEMSYM_SLOW") != "" {
		fmt.Println("SLOW", d, res, c.short(4))
		for p := pc; p != nil; p = p.parent {
			if !p.weak {
				fmt.Println("   pc", p.t.short(5))
			}
		}
	}
	return res, m
}

func (s *Solver) getModel() Model {
	m := Model{}
	if len(s.vars) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, v := range s.vars {
		sb.WriteString(v.ref())
		sb.WriteByte(' ')
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	depth, started := 0, false
	var buf strings.Builder
	for !started || depth > 0 {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.dead = true
			return nil
		}
		for i := 0; i < len(l); i++ {
			if l[i] == '(' {
				depth++
				started = true
			} else if l[i] == ')' {
				depth--
			}
		}
		buf.WriteString(l)
	}
	txt := buf.String()
	if strings.HasPrefix(txt, "(error") {
		fmt.Fprintln(os.Stderr, "solver:", txt)
		return nil
	}
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	for i := 0; i+1 < len(f); {
		name := f[i]
		id, err := strconv.Atoi(strings.TrimPrefix(name, "v"))
		if err != nil {
			return nil
		}
		v := f[i+1]
		i += 2
		var n uint64
		switch {
		case v == "true":
			n = 1
		case v == "false":
			n = 0
		case strings.HasPrefix(v, "#x"):
			n, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			n, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "_": // (_ bvN w)
			n, _ = strconv.ParseUint(strings.TrimPrefix(f[i], "bv"), 10, 64)
			i += 2
		default:
			return nil
		}
		m[int32(id)] = n
	}
	return m
}

// n is the solver, or an empty one for its counts.
func (s *Solver) n() *Solver {
	if s == nil {
		return &Solver{}
	}
	return s
}
