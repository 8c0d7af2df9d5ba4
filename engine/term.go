package main

// Hash-consed SMT terms (Bool and bit-vectors up to 64 bits, plus unary
// uninterpreted functions used as array contents) with local simplification.

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpUF // uninterpreted function application: name(args[0])
	OpNot
	OpAnd
	OpOr
	OpEq
	OpIte
	OpUlt
	OpSlt
	OpBvAnd
	OpBvOr
	OpBvXor
	OpBvNot
	OpShl
	OpLshr
	OpAshr
	OpUdiv
	OpUrem
	OpSdiv
	OpSrem
	OpMul
	OpLin     // val + sum coef[i]*args[i]
	OpSext    // sign extension
	OpExtract // bits lo .. lo+w-1
	OpConcat  // args[0] most significant
)

type Term struct {
	id       int
	op       Op
	w        uint8 // 0: Bool
	lo       uint8 // extract
	val      uint64
	name     string
	args     []*Term
	coef     []uint64
	size     int   // tree-ish size (capped), for heuristics
	rk       uint8 // interval cache state (narrow.go)
	lk       uint8 // linear integer cache state (lia.go)
	lv       []*Term
	rlo, rhi int64
}

type TermCtx struct {
	tab    map[string]*Term
	next   int
	True   *Term
	False  *Term
	ufApps []*Term         // all UF applications created
	entail func(*Term) int // 1 true, 0 false, 2 undetermined under the path condition
	vars   []*Term
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: make(map[string]*Term)}
	c.True = c.mk(&Term{op: OpConst, w: 0, val: 1})
	c.False = c.mk(&Term{op: OpConst, w: 0, val: 0})
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

func (c *TermCtx) key(t *Term) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%d.%d.%d.%d.%s", t.op, t.w, t.lo, t.val, t.name)
	for i, a := range t.args {
		if t.coef != nil {
			fmt.Fprintf(&b, ",%d*%d", t.coef[i], a.id)
		} else {
			fmt.Fprintf(&b, ",%d", a.id)
		}
	}
	return b.String()
}

func (c *TermCtx) mk(t *Term) *Term {
	k := c.key(t)
	if o, ok := c.tab[k]; ok {
		return o
	}
	t.id = c.next
	c.next++
	t.size = 1
	for _, a := range t.args {
		t.size += a.size
		if t.size > 1<<30 {
			t.size = 1 << 30
		}
	}
	c.tab[k] = t
	if t.op == OpUF {
		c.ufApps = append(c.ufApps, t)
	}
	if t.op == OpVar {
		c.vars = append(c.vars, t)
	}
	return t
}

func (t *Term) isConst() bool { return t.op == OpConst }
func (t *Term) isTrue() bool  { return t.op == OpConst && t.w == 0 && t.val == 1 }
func (t *Term) isFalse() bool { return t.op == OpConst && t.w == 0 && t.val == 0 }
func (t *Term) sval() int64   { return sext64(t.val, t.w) }

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *TermCtx) Const(v uint64, w uint8) *Term {
	return c.mk(&Term{op: OpConst, w: w, val: v & mask(w)})
}
func (c *TermCtx) Int(v int64) *Term { return c.Const(uint64(v), 64) }
func (c *TermCtx) Var(name string, w uint8) *Term {
	return c.mk(&Term{op: OpVar, w: w, name: name})
}
func (c *TermCtx) UF(name string, idx *Term, w uint8) *Term {
	return c.mk(&Term{op: OpUF, w: w, name: name, args: []*Term{idx}})
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.isConst() {
		return c.Bool(a.val == 0)
	}
	if a.op == OpNot {
		return a.args[0]
	}
	return c.mk(&Term{op: OpNot, args: []*Term{a}})
}

func (c *TermCtx) nary(op Op, in []*Term) *Term {
	// op is OpAnd or OpOr; flatten, dedupe, detect complement
	unit, zero := c.True, c.False
	if op == OpOr {
		unit, zero = c.False, c.True
	}
	seen := map[int]bool{}
	var out []*Term
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == unit {
			return true
		}
		if t == zero {
			return false
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[t.id] {
			return true
		}
		if seen[c.Not(t).id] {
			return false
		}
		seen[t.id] = true
		out = append(out, t)
		return true
	}
	for _, t := range in {
		if !add(t) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return c.mk(&Term{op: op, args: out})
}
func (c *TermCtx) And(a ...*Term) *Term { return c.nary(OpAnd, a) }
func (c *TermCtx) Or(a ...*Term) *Term  { return c.nary(OpOr, a) }

// ---- linear sums

func (c *TermCtx) linParts(t *Term) (k uint64, at []*Term, co []uint64) {
	switch t.op {
	case OpConst:
		return t.val, nil, nil
	case OpLin:
		return t.val, t.args, t.coef
	}
	return 0, []*Term{t}, []uint64{1}
}

func (c *TermCtx) mkLin(k uint64, m map[*Term]uint64, w uint8) *Term {
	k &= mask(w)
	var at []*Term
	for t, co := range m {
		if co&mask(w) != 0 {
			at = append(at, t)
		}
	}
	if len(at) == 0 {
		return c.Const(k, w)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	if len(at) == 1 && k == 0 && m[at[0]]&mask(w) == 1 {
		return at[0]
	}
	co := make([]uint64, len(at))
	for i, t := range at {
		co[i] = m[t] & mask(w)
	}
	return c.mk(&Term{op: OpLin, w: w, val: k, args: at, coef: co})
}

func (c *TermCtx) linComb(a *Term, ca uint64, b *Term, cb uint64) *Term {
	w := a.w
	m := map[*Term]uint64{}
	ka, ta, coa := c.linParts(a)
	for i, t := range ta {
		m[t] += coa[i] * ca
	}
	k := ka * ca
	if b != nil {
		kb, tb, cob := c.linParts(b)
		for i, t := range tb {
			m[t] += cob[i] * cb
		}
		k += kb * cb
	}
	return c.mkLin(k, m, w)
}

func (c *TermCtx) Add(a, b *Term) *Term { return c.linComb(a, 1, b, 1) }
func (c *TermCtx) Sub(a, b *Term) *Term { return c.linComb(a, 1, b, ^uint64(0)) }
func (c *TermCtx) Neg(a *Term) *Term    { return c.linComb(a, ^uint64(0), nil, 0) }
func (c *TermCtx) Mul(a, b *Term) *Term {
	if a.isConst() {
		return c.linComb(b, a.val, nil, 0)
	}
	if b.isConst() {
		return c.linComb(a, b.val, nil, 0)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpMul, w: a.w, args: []*Term{a, b}})
}

// ---- comparison

// umax returns a cheap upper bound of t as unsigned.
func (c *TermCtx) umax(t *Term) uint64 {
	switch t.op {
	case OpConst:
		return t.val
	case OpConcat:
		// leading zero pieces
		w := t.w
		for _, a := range t.args {
			if a.isConst() && a.val == 0 {
				w -= a.w
				continue
			}
			rest := w - a.w
			m := c.umax(a)
			return m<<rest | mask(rest)
		}
		return 0
	case OpIte:
		x, y := c.umax(t.args[1]), c.umax(t.args[2])
		if x > y {
			return x
		}
		return y
	case OpUrem:
		if t.args[1].isConst() && t.args[1].val != 0 {
			return t.args[1].val - 1
		}
	case OpUdiv:
		if t.args[1].isConst() && t.args[1].val != 0 {
			return c.umax(t.args[0]) / t.args[1].val
		}
	case OpBvAnd:
		x, y := c.umax(t.args[0]), c.umax(t.args[1])
		if x < y {
			return x
		}
		return y
	case OpLin:
		// all coefficients small and no overflow
		var s uint64 = t.val
		if s > 1<<40 {
			return mask(t.w)
		}
		for i, a := range t.args {
			m := c.umax(a)
			if t.coef[i] > 1<<20 || m > 1<<40 {
				return mask(t.w)
			}
			hi, lo := bits.Mul64(t.coef[i], m)
			if hi != 0 || lo > 1<<60 {
				return mask(t.w)
			}
			s += lo
			if s > 1<<61 {
				return mask(t.w)
			}
		}
		if s > mask(t.w) {
			return mask(t.w)
		}
		return s
	}
	return mask(t.w)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.True
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.w == 0 {
		if a.isTrue() {
			return b
		}
		if b.isTrue() {
			return a
		}
		if a.isFalse() {
			return c.Not(b)
		}
		if b.isFalse() {
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.False
		}
	} else {
		if a.op == OpLin || b.op == OpLin {
			d := c.Sub(a, b)
			if d.isConst() {
				return c.Bool(d.val == 0)
			}
			// canonical form: d == 0 with first coefficient positive-ish
			n := c.Neg(d)
			if n.id < d.id {
				d = n
			}
			if d.op == OpLin && len(d.args) == 1 && d.coef[0] == 1 {
				return c.mkEq(d.args[0], c.Const(-d.val, d.w))
			}
			if d.op == OpLin && len(d.args) == 2 && d.val == 0 {
				if d.coef[0] == 1 && d.coef[1] == mask(d.w) || d.coef[1] == 1 && d.coef[0] == mask(d.w) {
					return c.mkEq(d.args[0], d.args[1])
				}
			}
			if d.op == OpLin && len(d.args) == 1 && d.coef[0] == mask(d.w) {
				return c.mkEq(d.args[0], c.Const(d.val, d.w))
			}
			return c.mkEq(d, c.Const(0, d.w))
		}
		if a.isConst() {
			a, b = b, a
		}
		if b.isConst() {
			if b.val > c.umax(a) {
				return c.False
			}
			if a.op == OpIte {
				x, y := a.args[1], a.args[2]
				if x.isConst() && y.isConst() {
					return c.Or(c.And(a.args[0], c.Bool(x.val == b.val)), c.And(c.Not(a.args[0]), c.Bool(y.val == b.val)))
				}
			}
			if a.op == OpConcat {
				// split
				var cs []*Term
				rest := a.w
				for _, p := range a.args {
					rest -= p.w
					cs = append(cs, c.Eq(p, c.Const(b.val>>rest, p.w)))
				}
				return c.And(cs...)
			}
		}
		if a.op == OpConcat && b.op == OpConcat && len(a.args) == len(b.args) {
			same := true
			for i := range a.args {
				if a.args[i].w != b.args[i].w {
					same = false
				}
			}
			if same {
				var cs []*Term
				for i := range a.args {
					cs = append(cs, c.Eq(a.args[i], b.args[i]))
				}
				return c.And(cs...)
			}
		}
	}
	return c.mkEq(a, b)
}

func (c *TermCtx) mkEq(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return c.Bool(a.val == b.val)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: OpEq, args: []*Term{a, b}})
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.val < b.val)
	}
	if b.isConst() {
		if b.val == 0 {
			return c.False
		}
		if c.umax(a) < b.val {
			return c.True
		}
	}
	if a.isConst() && a.val >= c.umax(b) {
		return c.False
	}
	// division by a constant against a constant
	if a.op == OpUdiv && a.args[1].isConst() && a.args[1].val > 0 && b.isConst() && a.w == 64 {
		if hi, lo := bits.Mul64(a.args[1].val, b.val); hi == 0 {
			return c.Ult(a.args[0], c.Const(lo, 64))
		}
		return c.True
	}
	if b.op == OpUdiv && b.args[1].isConst() && b.args[1].val > 0 && a.isConst() && a.w == 64 && a.val < mask(64) {
		return c.Not(c.Ult(b, c.Const(a.val+1, 64)))
	}
	return c.mk(&Term{op: OpUlt, args: []*Term{a, b}})
}
func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.False
	}
	if a.isConst() && b.isConst() {
		return c.Bool(a.sval() < b.sval())
	}
	half := mask(a.w) >> 1
	ma, mb := c.umax(a), c.umax(b)
	if ma <= half && mb <= half {
		return c.Ult(a, b)
	}
	if b.isConst() && b.sval() <= 0 && ma <= half {
		return c.False // non-negative < non-positive
	}
	if a.isConst() && a.sval() < 0 && mb <= half {
		return c.True
	}
	// trunc division by a positive constant against a constant
	if a.op == OpSdiv && a.args[1].isConst() && b.isConst() && a.w == 64 {
		cc, T := a.args[1].sval(), b.sval()
		if cc > 0 {
			if T >= 1 {
				if hi, lo := bits.Mul64(uint64(T), uint64(cc)); hi == 0 && lo < 1<<62 {
					return c.Slt(a.args[0], c.Int(int64(lo)))
				}
			} else if T-1 > -(1<<30) && cc < 1<<31 {
				return c.Not(c.Slt(c.Int((T-1)*cc), a.args[0]))
			}
		}
	}
	if b.op == OpSdiv && b.args[1].isConst() && a.isConst() && a.w == 64 {
		// T < n/c  <=>  !(n/c < T+1)
		return c.Not(c.Slt(b, c.Int(a.sval()+1)))
	}
	return c.mk(&Term{op: OpSlt, args: []*Term{a, b}})
}
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if cond.isTrue() {
		return a
	}
	if cond.isFalse() {
		return b
	}
	if a == b {
		return a
	}
	if a.w == 0 {
		if a.isTrue() {
			return c.Or(cond, b)
		}
		if a.isFalse() {
			return c.And(c.Not(cond), b)
		}
		if b.isTrue() {
			return c.Or(c.Not(cond), a)
		}
		if b.isFalse() {
			return c.And(cond, a)
		}
	}
	if cond.op == OpNot {
		return c.Ite(cond.args[0], b, a)
	}
	if a.op == OpIte && a.args[0] == cond {
		a = a.args[1]
	}
	if b.op == OpIte && b.args[0] == cond {
		b = b.args[2]
	}
	if a == b {
		return a
	}
	return c.mk(&Term{op: OpIte, w: a.w, args: []*Term{cond, a, b}})
}

// ---- bit structure

func (c *TermCtx) Extract(t *Term, lo, w uint8) *Term {
	if lo == 0 && w == t.w {
		return t
	}
	switch t.op {
	case OpConst:
		return c.Const(t.val>>lo, w)
	case OpExtract:
		return c.Extract(t.args[0], t.lo+lo, w)
	case OpConcat:
		// collect pieces overlapping [lo, lo+w)
		var ps []*Term
		pos := t.w
		for _, p := range t.args {
			pl := pos - p.w // piece covers [pl,pos)
			s, e := pl, pos
			if s < lo {
				s = lo
			}
			if e > lo+w {
				e = lo + w
			}
			if s < e {
				ps = append(ps, c.Extract(p, s-pl, e-s))
			}
			pos = pl
		}
		return c.Concat(ps...)
	case OpIte:
		if t.args[1].isConst() || t.args[2].isConst() || t.size < 64 {
			return c.Ite(t.args[0], c.Extract(t.args[1], lo, w), c.Extract(t.args[2], lo, w))
		}
	case OpSext:
		if lo+w <= t.args[0].w {
			return c.Extract(t.args[0], lo, w)
		}
	case OpBvAnd, OpBvOr, OpBvXor:
		return c.bitop(t.op, c.Extract(t.args[0], lo, w), c.Extract(t.args[1], lo, w))
	}
	return c.mk(&Term{op: OpExtract, w: w, lo: lo, args: []*Term{t}})
}

func (c *TermCtx) Concat(in ...*Term) *Term {
	var ps []*Term
	for _, t := range in {
		if t.op == OpConcat {
			ps = append(ps, t.args...)
		} else {
			ps = append(ps, t)
		}
	}
	// merge neighbours
	var out []*Term
	for _, p := range ps {
		if n := len(out); n > 0 {
			q := out[n-1]
			if q.isConst() && p.isConst() {
				out[n-1] = c.Const(q.val<<p.w|p.val, q.w+p.w)
				continue
			}
			qs, ql := q, uint8(0)
			if q.op == OpExtract {
				qs, ql = q.args[0], q.lo
			}
			psrc, pl := p, uint8(0)
			if p.op == OpExtract {
				psrc, pl = p.args[0], p.lo
			}
			if qs == psrc && !q.isConst() && ql == pl+p.w {
				out[n-1] = c.Extract(qs, pl, q.w+p.w)
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == 1 {
		return out[0]
	}
	var w uint8
	for _, p := range out {
		w += p.w
	}
	return c.mk(&Term{op: OpConcat, w: w, args: out})
}

func (c *TermCtx) Zext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	return c.Concat(c.Const(0, w-t.w), t)
}
func (c *TermCtx) Sext(t *Term, w uint8) *Term {
	if w == t.w {
		return t
	}
	if t.isConst() {
		return c.Const(uint64(t.sval()), w)
	}
	if c.umax(t) <= mask(t.w)>>1 {
		return c.Zext(t, w)
	}
	return c.mk(&Term{op: OpSext, w: w, args: []*Term{t}})
}

func (c *TermCtx) pieces(t *Term) []*Term {
	if t.op == OpConcat {
		return t.args
	}
	return []*Term{t}
}

func (c *TermCtx) bitop(op Op, a, b *Term) *Term {
	w := a.w
	if a.isConst() && b.isConst() {
		switch op {
		case OpBvAnd:
			return c.Const(a.val&b.val, w)
		case OpBvOr:
			return c.Const(a.val|b.val, w)
		default:
			return c.Const(a.val^b.val, w)
		}
	}
	if a.isConst() {
		a, b = b, a
	}
	if b.isConst() {
		switch {
		case op == OpBvAnd && b.val == 0:
			return b
		case op == OpBvAnd && b.val == mask(w):
			return a
		case op == OpBvOr && b.val == 0, op == OpBvXor && b.val == 0:
			return a
		case op == OpBvOr && b.val == mask(w):
			return b
		}
	}
	if a == b {
		switch op {
		case OpBvAnd, OpBvOr:
			return a
		default:
			return c.Const(0, w)
		}
	}
	// split along constant runs / concat boundaries
	if a.op == OpConcat || b.op == OpConcat || b.isConst() {
		cuts := map[uint8]bool{}
		addCuts := func(t *Term) {
			pos := uint8(0)
			ps := c.pieces(t)
			for i := len(ps) - 1; i >= 0; i-- {
				pos += ps[i].w
				cuts[pos] = true
			}
		}
		addCuts(a)
		addCuts(b)
		if b.isConst() {
			prev := b.val & 1
			for i := uint8(1); i < w; i++ {
				bit := b.val >> i & 1
				if bit != prev {
					cuts[i] = true
				}
				prev = bit
			}
		}
		cuts[w] = true
		var cs []int
		for k := range cuts {
			cs = append(cs, int(k))
		}
		sort.Ints(cs)
		if len(cs) > 1 && len(cs) <= 17 {
			var out []*Term
			lo := 0
			for _, hi := range cs {
				pa, pb := c.Extract(a, uint8(lo), uint8(hi-lo)), c.Extract(b, uint8(lo), uint8(hi-lo))
				out = append([]*Term{c.bitop(op, pa, pb)}, out...)
				lo = hi
			}
			return c.Concat(out...)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(&Term{op: op, w: w, args: []*Term{a, b}})
}

func (c *TermCtx) BvAnd(a, b *Term) *Term { return c.bitop(OpBvAnd, a, b) }
func (c *TermCtx) BvOr(a, b *Term) *Term  { return c.bitop(OpBvOr, a, b) }
func (c *TermCtx) BvXor(a, b *Term) *Term { return c.bitop(OpBvXor, a, b) }
func (c *TermCtx) BvNot(a *Term) *Term    { return c.Sub(c.Const(mask(a.w), a.w), a) }

// Shifts: the amount has the same width as a (already extended); Go semantics
// (amounts >= width give 0 or the sign).
func (c *TermCtx) Shl(a, n *Term) *Term {
	if n.isConst() {
		if n.val >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		k := uint8(n.val)
		if k == 0 {
			return a
		}
		if a.op == OpLin || a.op == OpVar && false {
			return c.linComb(a, uint64(1)<<k, nil, 0)
		}
		return c.Concat(c.Extract(a, 0, a.w-k), c.Const(0, k))
	}
	return c.mk(&Term{op: OpShl, w: a.w, args: []*Term{a, n}})
}
func (c *TermCtx) Lshr(a, n *Term) *Term {
	if n.isConst() {
		if n.val >= uint64(a.w) {
			return c.Const(0, a.w)
		}
		k := uint8(n.val)
		if k == 0 {
			return a
		}
		return c.Concat(c.Const(0, k), c.Extract(a, k, a.w-k))
	}
	return c.mk(&Term{op: OpLshr, w: a.w, args: []*Term{a, n}})
}
func (c *TermCtx) Ashr(a, n *Term) *Term {
	if n.isConst() {
		k := n.val
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		if k == 0 {
			return a
		}
		return c.Sext(c.Extract(a, uint8(k), a.w-uint8(k)), a.w)
	}
	return c.mk(&Term{op: OpAshr, w: a.w, args: []*Term{a, n}})
}

func (c *TermCtx) Div(op Op, a, b *Term) *Term {
	if a.isConst() && b.isConst() && b.val != 0 {
		w := a.w
		switch op {
		case OpUdiv:
			return c.Const(a.val/b.val, w)
		case OpUrem:
			return c.Const(a.val%b.val, w)
		case OpSdiv:
			if b.sval() == -1 {
				return c.Neg(a)
			}
			return c.Const(uint64(a.sval()/b.sval()), w)
		case OpSrem:
			if b.sval() == -1 {
				return c.Const(0, w)
			}
			return c.Const(uint64(a.sval()%b.sval()), w)
		}
	}
	if b.isConst() && b.val == 1 {
		if op == OpUdiv || op == OpSdiv {
			return a
		}
		return c.Const(0, a.w)
	}
	half := mask(a.w) >> 1
	if b.isConst() && b.val <= half && b.val > 0 && c.umax(a) <= half {
		if op == OpSdiv {
			op = OpUdiv
		}
		if op == OpSrem {
			op = OpUrem
		}
	}
	// exact multiples: (k*c)/c for a sum whose parts are all multiples and that cannot overflow is left to the solver
	return c.mk(&Term{op: op, w: a.w, args: []*Term{a, b}})
}

// ---- printing

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constSMT(v uint64, w uint8) string {
	if w == 0 {
		if v == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", v, w)
}

func (t *Term) ref() string {
	switch t.op {
	case OpConst:
		return constSMT(t.val, t.w)
	case OpVar:
		return "|" + t.name + "|"
	}
	return fmt.Sprintf("t%d", t.id)
}

var opSMT = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpIte: "ite", OpUlt: "bvult", OpSlt: "bvslt",
	OpBvAnd: "bvand", OpBvOr: "bvor", OpBvXor: "bvxor", OpBvNot: "bvnot", OpShl: "bvshl", OpLshr: "bvlshr", OpAshr: "bvashr",
	OpUdiv: "bvudiv", OpUrem: "bvurem", OpSdiv: "bvsdiv", OpSrem: "bvsrem", OpMul: "bvmul", OpConcat: "concat",
}

// body prints the definition of t in terms of refs of its args.
func (t *Term) body() string {
	var b strings.Builder
	switch t.op {
	case OpUF:
		fmt.Fprintf(&b, "(|%s| %s)", t.name, t.args[0].ref())
	case OpLin:
		b.WriteString("(bvadd")
		n := 0
		for i, a := range t.args {
			n++
			if t.coef[i] == 1 {
				b.WriteString(" " + a.ref())
			} else if t.coef[i] == mask(t.w) {
				b.WriteString(" (bvneg " + a.ref() + ")")
			} else {
				fmt.Fprintf(&b, " (bvmul %s %s)", constSMT(t.coef[i], t.w), a.ref())
			}
		}
		if t.val != 0 {
			n++
			b.WriteString(" " + constSMT(t.val, t.w))
		}
		b.WriteString(")")
		if n == 1 {
			s := b.String()
			return strings.TrimSuffix(strings.TrimPrefix(s, "(bvadd "), ")")
		}
	case OpSext:
		fmt.Fprintf(&b, "((_ sign_extend %d) %s)", t.w-t.args[0].w, t.args[0].ref())
	case OpExtract:
		fmt.Fprintf(&b, "((_ extract %d %d) %s)", t.lo+t.w-1, t.lo, t.args[0].ref())
	default:
		b.WriteString("(" + opSMT[t.op])
		for _, a := range t.args {
			b.WriteString(" " + a.ref())
		}
		b.WriteString(")")
	}
	return b.String()
}

func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.op {
	case OpConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprint(t.sval())
	case OpVar:
		return t.name
	}
	if d == 0 {
		return "..."
	}
	var b strings.Builder
	n := opSMT[t.op]
	if t.op == OpUF {
		n = t.name
	}
	if t.op == OpLin {
		n = fmt.Sprintf("lin%+d", sext64(t.val, t.w))
	}
	if t.op == OpExtract {
		n = fmt.Sprintf("ext%d+%d", t.lo, t.w)
	}
	if t.op == OpSext {
		n = "sext"
	}
	b.WriteString("(" + n)
	for i, a := range t.args {
		b.WriteString(" ")
		if t.coef != nil {
			fmt.Fprintf(&b, "%d*", sext64(t.coef[i], t.w))
		}
		b.WriteString(a.str(d - 1))
	}
	b.WriteString(")")
	return b.String()
}
