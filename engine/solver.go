package main

// A persistent SMT-LIB2 solver process driven incrementally.

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Result int

const (
	Unsat Result = iota
	Sat
	Unknown
)

func (r Result) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

type Solver struct {
	c         *TermCtx
	argv      []string
	timeoutMs int
	cmd       *exec.Cmd
	in        *bufio.Writer
	inRaw     io.WriteCloser
	out       *bufio.Reader
	emitted   map[int]bool
	ufs       map[string]bool
	stack     []*Term // asserted path condition, one push per element
	nDefs     int

	Queries   int
	NSat      int
	NUnsat    int
	NUnk      int
	Time      time.Duration
	errs      int
	log       *os.File
	alt       *Solver // asked when this one gives no answer
	NAlt      int
	NBadModel int
	isLIA     bool
	lia       *Solver    // takes queries of linear integer arithmetic
	deadline  *time.Time // shared by an executor's solvers; past it a path is given up
}

func NewSolver(c *TermCtx, argv []string, timeoutMs int) *Solver {
	return &Solver{c: c, argv: argv, timeoutMs: timeoutMs}
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.argv[0], s.argv[1:]...)
	w, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	r, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.cmd.Stderr = s.cmd.Stdout
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprint("cannot start solver: ", err))
	}
	if d := os.Getenv("GOSYM_SMTLOG"); d != "" {
		s.log, _ = os.CreateTemp(d, "q*.smt2")
	}
	s.inRaw = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.emitted = map[int]bool{}
	s.ufs = map[string]bool{}
	s.stack = nil
	s.nDefs = 0
	s.send("(set-option :global-declarations true)")
	if s.isLIA {
		s.send("(set-logic QF_LIA)")
	} else {
		s.send("(set-logic QF_UFBV)")
	}
}

func (s *Solver) Close() {
	if s.alt != nil {
		s.alt.Close()
	}
	if s.lia != nil {
		s.lia.Close()
	}
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	if s.log != nil {
		fmt.Fprintln(s.log, l)
	}
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

func (s *Solver) emit(t *Term) {
	if s.emitted[t.id] || t.op == OpConst {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if s.emitted[f.t.id] || f.t.op == OpConst {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if !s.emitted[a.id] && a.op != OpConst {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		s.emitted[x.id] = true
		s.nDefs++
		switch {
		case s.isLIA && x.op == OpVar:
			so := "Int"
			if x.w == 0 {
				so = "Bool"
			}
			s.send(fmt.Sprintf("(declare-const |%s| %s)", x.name, so))
			st = st[:len(st)-1]
			continue
		case s.isLIA:
			so := "Int"
			if x.w == 0 {
				so = "Bool"
			}
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)", x.id, so, s.liaBody(x)))
			st = st[:len(st)-1]
			continue
		}
		switch x.op {
		case OpVar:
			s.send(fmt.Sprintf("(declare-const |%s| %s)", x.name, sortName(x.w)))
		case OpUF:
			if !s.ufs[x.name] {
				s.ufs[x.name] = true
				s.send(fmt.Sprintf("(declare-fun |%s| (%s) %s)", x.name, sortName(x.args[0].w), sortName(x.w)))
			}
			fallthrough
		default:
			body := s.narrowBody(x)
			if body == "" {
				body = x.body()
			}
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)", x.id, sortName(x.w), body))
		}
		st = st[:len(st)-1]
	}
}

// SetPC makes the solver's assertion stack equal to pc.
func (s *Solver) SetPC(pc []*Term) {
	if s.cmd == nil {
		s.start()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if k := len(s.stack) - n; k > 0 {
		if n == 0 && s.nDefs > 20000 {
			s.Close()
			s.start()
		} else {
			s.send(fmt.Sprintf("(pop %d)", k))
			s.stack = s.stack[:n]
		}
	}
	for _, t := range pc[n:] {
		s.emit(t)
		s.send("(push 1)")
		s.send("(assert " + s.assertStr(t) + ")")
		s.stack = append(s.stack, t)
	}
}

// readLine reads one response line.
func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// checkNow issues check-sat on the current stack.
func (s *Solver) checkNow() Result {
	t0 := time.Now()
	to := time.Duration(s.timeoutMs) * time.Millisecond
	if s.deadline != nil && !s.deadline.IsZero() {
		left := s.deadline.Sub(t0)
		if left <= 0 {
			s.Close()
			panic(pathEnd{"budget", ""})
		}
		if left < to {
			to = left
		}
	}
	s.Queries++
	defer func() { s.Time += time.Since(t0) }()
	s.send("(check-sat)")
	s.in.Flush()
	type resp struct {
		l   string
		err error
	}
	ch := make(chan resp, 1)
	go func() { l, err := s.readLine(); ch <- resp{l, err} }()
	select {
	case r := <-ch:
		switch r.l {
		case "sat":
			s.NSat++
			return Sat
		case "unsat":
			s.NUnsat++
			return Unsat
		}
		if r.err != nil || strings.Contains(r.l, "error") {
			s.errs++
			fmt.Println("solver error:", r.l, r.err)
			s.Close()
		}
		s.NUnk++
		return Unknown
	case <-time.After(to):
		s.NUnk++
		s.Close() // kill; restarted on the next SetPC
		<-ch
		return Unknown
	}
}

// Check decides pc && extra.
func (s *Solver) Check(pc []*Term, extra *Term) Result {
	if extra != nil && extra.isFalse() {
		return Unsat
	}
	if l := s.route(pc, extra); l != s {
		if r := l.Check(pc, extra); r != Unknown {
			return r
		}
	}
	s.SetPC(pc)
	if extra != nil && !extra.isTrue() {
		s.emit(extra)
		s.send("(push 1)")
		s.send("(assert " + s.assertStr(extra) + ")")
	}
	r := s.checkNow()
	if s.cmd != nil && extra != nil && !extra.isTrue() {
		s.send("(pop 1)")
	}
	if r == Unknown && s.alt != nil {
		s.NAlt++
		if r = s.alt.Check(pc, extra); r != Unknown {
			s.NUnk--
		}
	}
	return r
}

// Values returns model values of ts under pc && extra (nil if not sat).
func (s *Solver) Values(pc []*Term, extra []*Term, ts []*Term) (map[*Term]uint64, Result) {
	s.SetPC(pc)
	s.send("(push 1)")
	for _, e := range extra {
		s.emit(e)
		s.send("(assert " + e.ref() + ")")
	}
	for _, t := range ts {
		s.emit(t)
	}
	r := s.checkNow()
	if r != Sat {
		if s.cmd != nil {
			s.send("(pop 1)")
		}
		if r == Unknown && s.alt != nil {
			s.NAlt++
			return s.alt.Values(pc, extra, ts)
		}
		return nil, r
	}
	out := map[*Term]uint64{}
	for _, t := range ts {
		if t.isConst() {
			out[t] = t.val
			continue
		}
		s.send("(get-value (" + t.ref() + "))")
		s.in.Flush()
		txt := ""
		depth := 0
		for {
			l, err := s.readLine()
			if err != nil {
				s.Close()
				return nil, Unknown
			}
			txt += " " + l
			depth += strings.Count(l, "(") - strings.Count(l, ")")
			if depth <= 0 {
				break
			}
		}
		v, ok := parseValue(txt)
		if !ok {
			fmt.Println("cannot parse model value:", txt)
			s.errs++
			s.send("(pop 1)")
			return nil, Unknown
		}
		out[t] = v
	}
	s.send("(pop 1)")
	return out, Sat
}

func parseValue(txt string) (uint64, bool) {
	txt = strings.TrimSpace(txt)
	txt = strings.TrimRight(txt, ") ")
	if i := strings.LastIndex(txt, "#x"); i >= 0 {
		v, err := strconv.ParseUint(txt[i+2:], 16, 64)
		return v, err == nil
	}
	if i := strings.LastIndex(txt, "#b"); i >= 0 {
		v, err := strconv.ParseUint(txt[i+2:], 2, 64)
		return v, err == nil
	}
	if strings.HasSuffix(txt, "true") {
		return 1, true
	}
	if strings.HasSuffix(txt, "false") {
		return 0, true
	}
	if i := strings.LastIndex(txt, "(_ bv"); i >= 0 {
		f := strings.Fields(txt[i+5:])
		v, err := strconv.ParseUint(f[0], 10, 64)
		return v, err == nil
	}
	return 0, false
}
