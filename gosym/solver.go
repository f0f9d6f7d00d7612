package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver drives one incremental z3 process.
type Solver struct {
	tt       *TermTable
	cmd      *exec.Cmd
	in       io.WriteCloser
	w        *bufio.Writer
	out      *bufio.Reader
	stack    []*Term
	nvars    int
	queries  int
	sat      int
	unsat    int
	unknown  int
	asserts  int
	dur      time.Duration
	dead     bool
	deadline func() bool
	assume   bool // keep definitions for good and pass conditions as assumptions (merging mode)
	lits     map[*Term]string
	errs     []string
	log      *os.File
	cvc      bool
}

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

func NewSolver(tt *TermTable) *Solver { return &Solver{tt: tt} }

func (s *Solver) start() {
	bin := "z3"
	if s.assume {
		bin = "z3-new"
		if _, err := exec.LookPath(bin); err != nil {
			bin = "z3"
		}
	}
	if b := os.Getenv("GOSYM_Z3"); b != "" {
		bin = b
	}
	s.cmd = exec.Command(bin, "-in", "-smt2")
	if !s.assume && os.Getenv("GOSYM_Z3") == "" {
		// path-wise exploration asks many small questions, which cvc5 answers fastest
		if _, err := exec.LookPath("cvc5"); err == nil {
			s.cmd = exec.Command("cvc5", "--incremental", "--produce-models", "--tlimit-per=20000", "--lang=smt2")
			s.cvc = true
		}
	}
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		s.dead = true
		s.errs = append(s.errs, "cannot start z3: "+err.Error())
		return
	}
	s.in = in
	s.w = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if d := os.Getenv("GOSYM_SMT"); d != "" {
		s.log, _ = os.Create(fmt.Sprintf("%s/%d.smt2", d, s.cmd.Process.Pid))
	}
	s.send("(set-option :global-declarations true)\n")
	if s.cvc {
		s.send("(set-logic QF_BV)\n")
	} else {
		s.send("(set-option :timeout 20000)\n")
	}
	if l := os.Getenv("GOSYM_LOGIC"); l != "" && s.assume {
		s.send("(set-logic " + l + ")\n")
	}
}

func (s *Solver) send(x string) {
	s.w.WriteString(x)
	if s.log != nil {
		s.log.WriteString(x)
	}
}

func (s *Solver) close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) define(x *Term) {
	if x.def || x.op == tConst {
		return
	}
	if x.op == tVar {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{x, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.def || f.t.op == tConst || f.t.op == tVar {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !a.def {
				st = append(st, fr{a, 0})
			}
			continue
		}
		s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", f.t.id, sortOf(f.t.w), s.tt.body(f.t)))
		f.t.def = true
		st = st[:len(st)-1]
	}
}

func (s *Solver) declareVars() {
	for ; s.nvars < len(s.tt.vars); s.nvars++ {
		v := s.tt.vars[s.nvars]
		s.send(fmt.Sprintf("(declare-const v%d %s)\n", s.nvars, sortOf(v.w)))
	}
}

func (s *Solver) push(x *Term) {
	s.define(x)
	s.send(fmt.Sprintf("(push)(assert %s)\n", s.tt.ref(x)))
	s.stack = append(s.stack, x)
}

// Check decides satisfiability of the conjunction; on Sat it returns a model.
func (s *Solver) Check(pc []*Term, extra *Term) (Res, []uint64) {
	if s.cmd == nil {
		s.start()
	}
	if s.dead {
		return Unknown, nil
	}
	if s.deadline != nil && s.deadline() {
		panic(stopJob{})
	}
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	s.queries++
	s.declareVars()
	if s.assume {
		return s.checkAssume(pc, extra)
	}
	n := 0
	for n < len(s.stack) && n < len(pc) && s.stack[n] == pc[n] {
		n++
	}
	if n < len(s.stack) {
		s.send(fmt.Sprintf("(pop %d)\n", len(s.stack)-n))
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.push(pc[n])
	}
	pop := false
	if extra != nil {
		s.define(extra)
		s.send(fmt.Sprintf("(push)(assert %s)\n", s.tt.ref(extra)))
		pop = true
	}
	s.send("(check-sat)\n")
	res, model := s.answer()
	if pop {
		s.send("(pop)\n")
	}
	return res, model
}

func (s *Solver) lit(t *Term) string {
	if t.op == tVar || t.op == tConst {
		return s.tt.ref(t)
	}
	if t.op == tNot && (t.args[0].op != tConst) {
		return "(not " + s.lit(t.args[0]) + ")"
	}
	if l, ok := s.lits[t]; ok {
		return l
	}
	s.define(t)
	l := fmt.Sprintf("b%d", t.id)
	s.send(fmt.Sprintf("(declare-const %s Bool)(assert (= %s %s))\n", l, l, s.tt.ref(t)))
	if s.lits == nil {
		s.lits = map[*Term]string{}
	}
	s.lits[t] = l
	return l
}

func (s *Solver) checkAssume(pc []*Term, extra *Term) (Res, []uint64) {
	var ls []string
	add := func(t *Term) bool {
		if t.op == tConst {
			return t.k != 0
		}
		ls = append(ls, s.lit(t))
		return true
	}
	for _, t := range pc {
		if !add(t) {
			s.unsat++
			return Unsat, nil
		}
	}
	if extra != nil && !add(extra) {
		s.unsat++
		return Unsat, nil
	}
	s.send("(check-sat-assuming (" + strings.Join(ls, " ") + "))\n")
	return s.answer()
}

func (s *Solver) answer() (Res, []uint64) {
	s.w.Flush()
	line := s.line()
	var model []uint64
	res := Unknown
	switch line {
	case "sat":
		res = Sat
		s.sat++
		model = s.model()
	case "unsat":
		res = Unsat
		s.unsat++
	default:
		s.unknown++
		if strings.HasPrefix(line, "(error") || line == "" {
			s.errs = append(s.errs, line)
			s.dead = true
		}
	}
	return res, model
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return ""
	}
	return strings.TrimSpace(l)
}

func (s *Solver) model() []uint64 {
	n := s.nvars
	model := make([]uint64, n)
	if n == 0 {
		return model
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for i := 0; i < n; i++ {
		fmt.Fprintf(&sb, "v%d ", i)
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.w.Flush()
	// read balanced s-expression
	depth := 0
	var buf strings.Builder
	for {
		c, err := s.out.ReadByte()
		if err != nil {
			s.dead = true
			return model
		}
		buf.WriteByte(c)
		if c == '(' {
			depth++
		}
		if c == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	s.out.ReadString('\n')
	f := strings.FieldsFunc(buf.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	for i := 0; i+1 < len(f); i += 2 {
		if f[i][0] != 'v' {
			continue
		}
		idx, err := strconv.Atoi(f[i][1:])
		if err != nil || idx >= n {
			continue
		}
		v := f[i+1]
		switch {
		case v == "true":
			model[idx] = 1
		case v == "false":
			model[idx] = 0
		case strings.HasPrefix(v, "#x"):
			model[idx], _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			model[idx], _ = strconv.ParseUint(v[2:], 2, 64)
		}
	}
	return model
}
