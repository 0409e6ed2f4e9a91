package main

// One z3 process per worker, driven over a pipe.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inC     io.WriteCloser
	out     *bufio.Reader
	gen     uint32
	stack   []*Term // asserted, one push per element
	defined int
	Queries int
	SatN    int
	UnsatN  int
	UnkN    int
	Errs    int
	Time    time.Duration
	timeout int // ms
	log     *os.File
}

var solverGen uint32

func newSolver(bin string, timeoutMS int) *Solver {
	return &Solver{bin: bin, timeout: timeoutMS}
}

func (s *Solver) start() error {
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	inp, err := s.cmd.StdinPipe()
	if err != nil {
		return err
	}
	outp, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.inC = inp
	s.in = bufio.NewWriterSize(inp, 1<<16)
	s.out = bufio.NewReaderSize(outp, 1<<16)
	s.gen++
	s.stack = s.stack[:0]
	s.defined = 0
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
	return nil
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.inC.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) wr(x string) {
	s.in.WriteString(x)
}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func (s *Solver) ref(t *Term) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		if t.w == 8 {
			return fmt.Sprintf("#x%02x", t.k)
		}
		return "(_ bv" + strconv.FormatUint(t.k, 10) + " " + strconv.Itoa(int(t.w)) + ")"
	case OpVar:
		return "v" + strconv.FormatUint(t.k, 10) + "_" + strconv.Itoa(int(t.w))
	}
	return "t" + strconv.FormatUint(uint64(t.id), 10)
}

func (s *Solver) define(t *Term) {
	if t.op == OpConst || t.emit == s.gen {
		return
	}
	if t.op == OpVar {
		t.emit = s.gen
		s.wr("(declare-const " + s.ref(t) + " " + sortName(t.w) + ")\n")
		return
	}
	for _, x := range t.a {
		if x != nil {
			s.define(x)
		}
	}
	t.emit = s.gen
	s.defined++
	var b strings.Builder
	b.WriteString("(define-fun t" + strconv.FormatUint(uint64(t.id), 10) + " () " + sortName(t.w) + " (")
	switch t.op {
	case OpZext, OpSext:
		n := "zero_extend"
		if t.op == OpSext {
			n = "sign_extend"
		}
		b.WriteString("(_ " + n + " " + strconv.Itoa(int(t.w-t.a[0].w)) + ")")
	case OpExtract:
		b.WriteString("(_ extract " + strconv.Itoa(int(t.w)-1) + " 0)")
	default:
		b.WriteString(opNames[t.op])
	}
	for _, x := range t.a {
		if x != nil {
			b.WriteString(" " + s.ref(x))
		}
	}
	b.WriteString("))\n")
	s.wr(b.String())
}

// sync makes the asserted stack equal to pc.
func (s *Solver) sync(pc []*Term) {
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		s.wr("(pop " + strconv.Itoa(k) + ")\n")
		s.stack = s.stack[:n]
	}
	for ; n < len(pc); n++ {
		s.define(pc[n])
		s.wr("(push 1)\n(assert " + s.ref(pc[n]) + ")\n")
		s.stack = append(s.stack, pc[n])
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc /\ extra; on Sat returns values of vars.
func (s *Solver) Check(pc []*Term, extra *Term, vars []*Term) (SatRes, Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.cmd == nil || s.defined > 200000 {
		s.stop()
		if err := s.start(); err != nil {
			s.Errs++
			return Unknown, nil
		}
	}
	s.sync(pc)
	s.define(extra)
	for _, v := range vars {
		s.define(v)
	}
	s.wr("(push 1)\n(assert " + s.ref(extra) + ")\n(check-sat)\n")
	s.in.Flush()
	l, err := s.readLine()
	if err != nil {
		s.Errs++
		s.stop()
		return Unknown, nil
	}
	res := Unknown
	switch l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	case "unknown", "timeout":
		res = Unknown
	default:
		// an error line: nothing after it can be trusted
		s.Errs++
		s.stop()
		return Unknown, nil
	}
	var m Model
	if res == Sat && len(vars) > 0 {
		s.wr("(get-value (")
		for _, v := range vars {
			s.wr(s.ref(v) + " ")
		}
		s.wr("))\n(pop 1)\n")
		s.in.Flush()
		m = make(Model, len(vars))
		txt, err := s.readSexp()
		if err != nil {
			s.Errs++
			s.stop()
			return Unknown, nil
		}
		if !parseModel(txt, m) {
			s.Errs++
			s.stop()
			return Unknown, nil
		}
	} else {
		m = Model{}
		s.wr("(pop 1)\n")
	}
	switch res {
	case Sat:
		s.SatN++
	case Unsat:
		s.UnsatN++
	default:
		s.UnkN++
	}
	return res, m
}

func (s *Solver) readSexp() (string, error) {
	depth := 0
	var b strings.Builder
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		b.WriteString(l)
		for i := 0; i < len(l); i++ {
			switch l[i] {
			case '(':
				depth++
			case ')':
				depth--
			}
		}
		if depth <= 0 {
			return b.String(), nil
		}
	}
}

// parseModel parses ((v0_8 #x41) (v1_0 true) ...).
func parseModel(txt string, m Model) bool {
	f := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' || r == '\t' })
	i := 0
	for i < len(f) {
		if f[i][0] != 'v' || i+1 >= len(f) {
			return false
		}
		us := strings.IndexByte(f[i], '_')
		if us < 0 {
			return false
		}
		idx, err := strconv.ParseUint(f[i][1:us], 10, 64)
		if err != nil {
			return false
		}
		v := f[i+1]
		i += 2
		switch {
		case v == "true":
			m[idx] = 1
		case v == "false":
			m[idx] = 0
		case strings.HasPrefix(v, "#x"):
			x, err := strconv.ParseUint(v[2:], 16, 64)
			if err != nil {
				return false
			}
			m[idx] = x
		case strings.HasPrefix(v, "#b"):
			x, err := strconv.ParseUint(v[2:], 2, 64)
			if err != nil {
				return false
			}
			m[idx] = x
		case v == "_" && i < len(f) && strings.HasPrefix(f[i-1], "_"):
			// (_ bvN w)
			if i+1 >= len(f) || !strings.HasPrefix(f[i], "bv") {
				return false
			}
			x, err := strconv.ParseUint(f[i][2:], 10, 64)
			if err != nil {
				return false
			}
			m[idx] = x
			i += 2
		default:
			return false
		}
	}
	return true
}
