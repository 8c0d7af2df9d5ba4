package main

// Linear integer back end. A query whose atoms are comparisons of terms that
// interval arithmetic shows free of wrap-around (see srange) means the same
// over the integers; such queries (clock and index arithmetic) are sent to a
// second solver process in QF_LIA.

import (
	"fmt"
	"sort"
	"strings"
)

// lia reports whether t can be expressed over the integers.
func (c *TermCtx) lia(t *Term) bool {
	if t.lk != 0 {
		return t.lk == 1
	}
	ok := c.lia1(t)
	t.lk = 2
	if ok {
		t.lk = 1
	}
	return ok
}

func (c *TermCtx) lia1(t *Term) bool {
	switch t.op {
	case OpConst:
		return true
	case OpVar:
		return t.w <= 40
	case OpConcat:
		return len(t.args) == 2 && t.args[0].isConst() && t.args[0].val == 0 && t.args[1].op == OpVar && t.args[1].w <= 40
	case OpLin:
		if _, _, ok := c.srange(t); !ok {
			return false
		}
	case OpIte:
		if t.w > 0 {
			if _, _, ok := c.srange(t); !ok {
				return false
			}
		}
	case OpEq, OpSlt, OpUlt:
		if liaPlain(t) {
			return c.lia(t.args[0]) && c.lia(t.args[1])
		}
		for _, a := range t.args {
			if a.w == 0 {
				continue
			}
			lo, hi, ok := c.srange(a)
			if !ok || t.op == OpUlt && lo < 0 {
				return false
			}
			if a.w < 64 && hi > int64(mask(a.w)>>1) {
				return false
			}
		}
	case OpAnd, OpOr, OpNot:
	default:
		return false
	}
	for _, a := range t.args {
		if !c.lia(a) {
			return false
		}
	}
	return true
}

func (c *TermCtx) liaVars(t *Term) []*Term {
	if t.lv != nil {
		return t.lv
	}
	m := map[*Term]bool{}
	if t.op == OpVar {
		m[t] = true
	}
	for _, a := range t.args {
		for _, v := range c.liaVars(a) {
			m[v] = true
		}
	}
	out := make([]*Term, 0, len(m))
	for v := range m {
		out = append(out, v)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	t.lv = out
	return out
}

func liaRef(t *Term) string {
	if t.isConst() {
		if t.w == 0 {
			return t.ref()
		}
		v := t.sval()
		if v < 0 {
			return fmt.Sprintf("(- %d)", -v)
		}
		return fmt.Sprint(v)
	}
	return t.ref()
}

// liaPlain: an unsigned comparison of variables and constants.
func liaPlain(t *Term) bool {
	if t.op != OpEq && t.op != OpUlt {
		return false
	}
	for _, a := range t.args {
		if a.w == 0 || a.op != OpVar && a.op != OpConst {
			return false
		}
	}
	return true
}

func (s *Solver) liaBody(t *Term) string {
	var a []string
	if liaPlain(t) {
		for _, x := range t.args {
			if x.isConst() {
				a = append(a, fmt.Sprint(x.val))
			} else {
				a = append(a, x.ref())
			}
		}
		if t.op == OpEq {
			return "(= " + strings.Join(a, " ") + ")"
		}
		return "(< " + strings.Join(a, " ") + ")"
	}
	for _, x := range t.args {
		a = append(a, liaRef(x))
	}
	switch t.op {
	case OpConcat:
		return a[1]
	case OpLin:
		n := 0
		var b strings.Builder
		for i := range t.args {
			k := sext64(t.coef[i], t.w)
			n++
			switch {
			case k == 1:
				b.WriteString(" " + a[i])
			case k < 0:
				fmt.Fprintf(&b, " (* (- %d) %s)", -k, a[i])
			default:
				fmt.Fprintf(&b, " (* %d %s)", k, a[i])
			}
		}
		if v := sext64(t.val, t.w); v != 0 || n == 0 {
			n++
			if v < 0 {
				fmt.Fprintf(&b, " (- %d)", -v)
			} else {
				fmt.Fprintf(&b, " %d", v)
			}
		}
		if n == 1 {
			return strings.TrimSpace(b.String())
		}
		return "(+" + b.String() + ")"
	case OpIte:
		return "(ite " + strings.Join(a, " ") + ")"
	case OpEq:
		return "(= " + strings.Join(a, " ") + ")"
	case OpSlt, OpUlt:
		return "(< " + strings.Join(a, " ") + ")"
	case OpAnd:
		return "(and " + strings.Join(a, " ") + ")"
	case OpOr:
		return "(or " + strings.Join(a, " ") + ")"
	case OpNot:
		return "(not " + a[0] + ")"
	}
	panic("engine: not linear")
}

// liaAssert is t together with the ranges of its variables.
func (s *Solver) liaAssert(t *Term) string {
	var b strings.Builder
	b.WriteString("(and " + liaRef(t))
	for _, v := range s.c.liaVars(t) {
		if v.w > 0 {
			fmt.Fprintf(&b, " (<= 0 %s) (<= %s %d)", v.ref(), v.ref(), mask(v.w))
		}
	}
	return b.String() + ")"
}

func (s *Solver) assertStr(t *Term) string {
	if s.isLIA {
		return s.liaAssert(t)
	}
	return t.ref()
}

// route picks the back end for a query.
func (s *Solver) route(pc []*Term, extra *Term) *Solver {
	if s.lia == nil {
		return s
	}
	if extra != nil && !s.c.lia(extra) {
		return s
	}
	for _, t := range pc {
		if !s.c.lia(t) {
			return s
		}
	}
	return s.lia
}
