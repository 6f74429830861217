package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver talks SMT-LIB to one solver process.
type Solver struct {
	name    string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	done    map[*Expr]bool
	queries int
	sat     int
	unsat   int
	unknown int
	time    time.Duration
	dead    error
}

type verdict uint8

const (
	vUnsat verdict = iota
	vSat
	vUnknown
)

func solverArgs(name string) []string {
	switch name {
	case "cvc5":
		return []string{"cvc5", "--incremental", "--produce-models", "--lang=smt2", "--tlimit-per=60000"}
	default:
		return []string{name, "-in", "-t:60000"}
	}
}

func NewSolver(name string) (*Solver, error) {
	s := &Solver{name: name, done: map[*Expr]bool{}}
	args := solverArgs(name)
	s.cmd = exec.Command(args[0], args[1:]...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	s.in, s.out = in, bufio.NewReader(out)
	if err := s.cmd.Start(); err != nil {
		return nil, err
	}
	fmt.Fprintf(s.in, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	return s, nil
}

func (s *Solver) Close() {
	if s == nil || s.cmd == nil {
		return
	}
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		panic(fmt.Errorf("solver %s ended: %v", s.name, err))
	}
	return strings.TrimSpace(l)
}

// check decides the conjunction of cs; with vars non-nil a model is returned when satisfiable.
func (s *Solver) check(cs []*Expr, vars []*Expr) (verdict, map[int]uint64) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	var sb strings.Builder
	for _, c := range cs {
		c.define(&sb, s.done)
	}
	for _, v := range vars {
		v.define(&sb, s.done)
	}
	sb.WriteString("(push 1)\n")
	for _, c := range cs {
		fmt.Fprintf(&sb, "(assert %s)\n", c.ref())
	}
	sb.WriteString("(check-sat)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		panic(fmt.Errorf("solver %s: %v", s.name, err))
	}
	var v verdict
	switch l := s.line(); l {
	case "sat":
		v = vSat
		s.sat++
	case "unsat":
		v = vUnsat
		s.unsat++
	case "unknown", "timeout":
		v = vUnknown
		s.unknown++
	default:
		panic(fmt.Errorf("solver %s said %q", s.name, l))
	}
	var model map[int]uint64
	if v == vSat && len(vars) > 0 {
		model = map[int]uint64{}
		var q strings.Builder
		for _, vr := range vars {
			fmt.Fprintf(&q, "(get-value (%s))\n", vr.ref())
		}
		io.WriteString(s.in, q.String())
		for _, vr := range vars {
			l := s.line()
			// ((v0_8 #x41)) or ((v0_8 (_ bv65 8)))
			l = strings.TrimSuffix(l, "))")
			i := strings.Index(l, " ")
			if i < 0 {
				panic(fmt.Errorf("solver %s said %q", s.name, l))
			}
			t := strings.TrimSpace(l[i:])
			var n uint64
			var err error
			switch {
			case strings.HasPrefix(t, "#x"):
				n, err = strconv.ParseUint(t[2:], 16, 64)
			case strings.HasPrefix(t, "#b"):
				n, err = strconv.ParseUint(t[2:], 2, 64)
			case strings.HasPrefix(t, "(_ bv"):
				n, err = strconv.ParseUint(strings.Fields(t[5:])[0], 10, 64)
			default:
				err = fmt.Errorf("value %q", t)
			}
			if err != nil {
				panic(fmt.Errorf("solver %s: %v", s.name, err))
			}
			model[int(vr.val)] = n
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return v, model
}
