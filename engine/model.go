package main

// Models of the path condition, kept to answer "is this side feasible" without
// a query when the current model already witnesses it.

import (
	"strconv"
	"strings"
)

type Model struct {
	vars map[*Term]uint64
	uf   map[string]map[uint64]uint64
	memo map[*Term]uint64
}

func (m *Model) eval(t *Term) uint64 {
	if t.op == OpConst {
		return t.val
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	v := m.eval1(t)
	if t.w == 0 {
		v &= 1
	} else {
		v &= mask(t.w)
	}
	m.memo[t] = v
	return v
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval1(t *Term) uint64 {
	switch t.op {
	case OpVar:
		return m.vars[t]
	case OpUF:
		a := m.eval(t.args[0])
		return m.uf[t.name][a] // unseen points are 0: any value is consistent
	case OpNot:
		return 1 - m.eval(t.args[0])
	case OpAnd:
		for _, a := range t.args {
			if m.eval(a) == 0 {
				return 0
			}
		}
		return 1
	case OpOr:
		for _, a := range t.args {
			if m.eval(a) == 1 {
				return 1
			}
		}
		return 0
	case OpIte:
		if m.eval(t.args[0]) == 1 {
			return m.eval(t.args[1])
		}
		return m.eval(t.args[2])
	case OpEq:
		return b2u(m.eval(t.args[0]) == m.eval(t.args[1]))
	case OpUlt:
		return b2u(m.eval(t.args[0]) < m.eval(t.args[1]))
	case OpSlt:
		w := t.args[0].w
		return b2u(sext64(m.eval(t.args[0]), w) < sext64(m.eval(t.args[1]), w))
	case OpLin:
		v := t.val
		for i, a := range t.args {
			v += t.coef[i] * m.eval(a)
		}
		return v
	case OpSext:
		return uint64(sext64(m.eval(t.args[0]), t.args[0].w))
	case OpExtract:
		return m.eval(t.args[0]) >> t.lo
	case OpConcat:
		var v uint64
		for _, a := range t.args {
			v = v<<a.w | m.eval(a)
		}
		return v
	}
	a := m.eval(t.args[0])
	b := m.eval(t.args[1])
	w := t.w
	switch t.op {
	case OpBvAnd:
		return a & b
	case OpBvOr:
		return a | b
	case OpBvXor:
		return a ^ b
	case OpMul:
		return a * b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b
	case OpLshr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAshr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext64(a, w) >> b)
	case OpUdiv:
		if b == 0 {
			return mask(w)
		}
		return a / b
	case OpUrem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSdiv:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return mask(w)
		}
		if y == -1 {
			return uint64(-x)
		}
		return uint64(x / y)
	case OpSrem:
		x, y := sext64(a, w), sext64(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x % y)
	}
	panic("engine: eval of unknown operator")
}

// CheckModel decides pc && extra and, if satisfiable, returns a model.
func (s *Solver) CheckModel(pc []*Term, extra *Term) (Result, *Model) {
	if extra != nil && extra.isFalse() {
		return Unsat, nil
	}
	if l := s.route(pc, extra); l != s {
		if r, m := l.CheckModel(pc, extra); r == Unsat || r == Sat && m != nil {
			return r, m
		}
	}
	s.SetPC(pc)
	pushed := false
	if extra != nil && !extra.isTrue() {
		s.emit(extra)
		s.send("(push 1)")
		s.send("(assert " + s.assertStr(extra) + ")")
		pushed = true
	}
	r := s.checkNow()
	var m *Model
	if r == Sat {
		m = s.getModel(pc, extra)
	}
	if s.cmd != nil && pushed {
		s.send("(pop 1)")
	}
	if r == Unknown && s.alt != nil {
		s.NAlt++
		if r, m = s.alt.CheckModel(pc, extra); r != Unknown {
			s.NUnk--
		}
	}
	return r, m
}

func (s *Solver) getModel(pc []*Term, extra *Term) *Model {
	m := &Model{vars: map[*Term]uint64{}, uf: map[string]map[uint64]uint64{}, memo: map[*Term]uint64{}}
	vis := map[*Term]bool{}
	var order []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if vis[t] || t.op == OpConst {
			return
		}
		vis[t] = true
		for _, a := range t.args {
			walk(a)
		}
		if t.op == OpVar || t.op == OpUF {
			order = append(order, t)
		}
	}
	for _, t := range pc {
		walk(t)
	}
	if extra != nil {
		walk(extra)
	}
	if len(order) > 0 {
		var b strings.Builder
		b.WriteString("(get-value (")
		for _, t := range order {
			b.WriteString(t.ref())
			b.WriteByte(' ')
		}
		b.WriteString("))")
		s.send(b.String())
		s.in.Flush()
		txt, ok := s.readSexp()
		if !ok {
			return nil
		}
		vals := parsePairs(txt)
		if len(vals) != len(order) {
			return nil
		}
		for i, t := range order {
			if t.op == OpVar {
				m.vars[t] = vals[i]
				continue
			}
			a := m.eval(t.args[0])
			u := m.uf[t.name]
			if u == nil {
				u = map[uint64]uint64{}
				m.uf[t.name] = u
			}
			u[a] = vals[i]
		}
	}
	// memo may hold values computed while the tables were incomplete
	m.memo = map[*Term]uint64{}
	for _, t := range pc {
		if m.eval(t) != 1 {
			s.NBadModel++
			return nil
		}
	}
	if extra != nil && m.eval(extra) != 1 {
		s.NBadModel++
		return nil
	}
	return m
}

func (s *Solver) readSexp() (string, bool) {
	var b strings.Builder
	depth := 0
	for {
		l, err := s.readLine()
		if err != nil {
			s.Close()
			return "", false
		}
		if strings.Contains(l, "error") {
			return "", false
		}
		b.WriteString(l)
		b.WriteByte(' ')
		depth += strings.Count(l, "(") - strings.Count(l, ")")
		if depth <= 0 {
			return b.String(), true
		}
	}
}

// parsePairs returns the value of each pair in ((name value) ...).
func parsePairs(txt string) []uint64 {
	var out []uint64
	depth := 0
	inBar := false
	last := ""
	tok := ""
	flush := func() {
		if tok != "" {
			last = tok
			tok = ""
		}
	}
	for i := 0; i < len(txt); i++ {
		ch := txt[i]
		if inBar {
			if ch == '|' {
				inBar = false
			}
			continue
		}
		switch ch {
		case '|':
			inBar = true
		case '(':
			flush()
			depth++
		case ')':
			flush()
			if depth == 2 {
				v, ok := parseAtom(last)
				if !ok {
					return nil
				}
				out = append(out, v)
			}
			depth--
		case ' ', '\t', '\n':
			flush()
		default:
			tok += string(ch)
		}
	}
	return out
}

func parseAtom(s string) (uint64, bool) {
	switch {
	case s == "true":
		return 1, true
	case s == "false":
		return 0, true
	case strings.HasPrefix(s, "#b"):
		v, err := strconv.ParseUint(s[2:], 2, 64)
		return v, err == nil
	case strings.HasPrefix(s, "#x"):
		v, err := strconv.ParseUint(s[2:], 16, 64)
		return v, err == nil
	case len(s) > 0 && s[0] >= '0' && s[0] <= '9':
		v, err := strconv.ParseUint(s, 10, 64)
		return v, err == nil
	}
	return 0, false
}
