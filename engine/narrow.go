package main

// Narrowing of index arithmetic when terms are printed for the solver.
//
// A 64-bit term whose value provably lies in -2^(k-1) .. 2^(k-1)-1 (by interval
// arithmetic on its structure) is determined by its low k bits, and comparing
// two such terms, signed, unsigned or for equality, gives the same result on
// the low k bits (the embedding is monotone for both orders). Modular addition
// commutes with truncation, so sums are formed in k bits throughout.

import (
	"fmt"
	"strings"
)

const rangeLimit = int64(1) << 40

// srange computes a signed interval of t.
func (c *TermCtx) srange(t *Term) (int64, int64, bool) {
	if t.rk != 0 {
		return t.rlo, t.rhi, t.rk == 1
	}
	lo, hi, ok := c.srange1(t)
	if ok && (lo < -rangeLimit || hi > rangeLimit) {
		ok = false
	}
	t.rlo, t.rhi = lo, hi
	t.rk = 2
	if ok {
		t.rk = 1
	}
	return lo, hi, ok
}

func (c *TermCtx) srange1(t *Term) (int64, int64, bool) {
	switch t.op {
	case OpConst:
		v := t.sval()
		return v, v, true
	case OpIte:
		a, b, ok := c.srange(t.args[1])
		d, e, ok2 := c.srange(t.args[2])
		if !ok || !ok2 {
			return 0, 0, false
		}
		if d < a {
			a = d
		}
		if e > b {
			b = e
		}
		return a, b, true
	case OpLin:
		lo := sext64(t.val, t.w)
		hi := lo
		if lo > rangeLimit || lo < -rangeLimit {
			return 0, 0, false
		}
		for i, a := range t.args {
			al, ah, ok := c.srange(a)
			k := sext64(t.coef[i], t.w)
			if !ok || k > 1<<20 || k < -(1<<20) {
				return 0, 0, false
			}
			x, y := k*al, k*ah
			if x > y {
				x, y = y, x
			}
			lo += x
			hi += y
			if lo < -(1<<61) || hi > 1<<61 {
				return 0, 0, false
			}
		}
		if t.w < 64 && (lo < -(int64(1)<<(t.w-1)) || hi >= int64(1)<<(t.w-1)) {
			return 0, 0, false
		}
		return lo, hi, true
	case OpSext:
		a := t.args[0]
		if a.w < 40 {
			return -(int64(1) << (a.w - 1)), int64(1)<<(a.w-1) - 1, true
		}
		return 0, 0, false
	}
	m := c.umax(t)
	if m <= uint64(rangeLimit) && m <= mask(t.w)>>1 {
		return 0, int64(m), true
	}
	return 0, 0, false
}

// nbits is the width that represents t faithfully, or 0.
func (c *TermCtx) nbits(t *Term) uint8 {
	lo, hi, ok := c.srange(t)
	if !ok {
		return 0
	}
	k := uint8(2)
	for lo < -(int64(1)<<(k-1)) || hi >= int64(1)<<(k-1) {
		k++
	}
	if k >= t.w {
		return 0
	}
	return k
}

// nref prints the low k bits of t; t has already been emitted.
func (s *Solver) nref(t *Term, k uint8) string {
	switch t.op {
	case OpConst:
		return constSMT(t.val&mask(k), k)
	case OpConcat:
		if len(t.args) == 2 && t.args[0].isConst() && t.args[0].val == 0 {
			x := t.args[1]
			if x.w == k {
				return x.ref()
			}
			if x.w < k {
				return fmt.Sprintf("((_ zero_extend %d) %s)", k-x.w, x.ref())
			}
		}
	case OpLin:
		n := fmt.Sprintf("n%d_%d", t.id, k)
		if !s.ufs[n] {
			s.ufs[n] = true
			var b strings.Builder
			cnt := 0
			for i, a := range t.args {
				cnt++
				r := s.nref(a, k)
				switch t.coef[i] {
				case 1:
					b.WriteString(" " + r)
				case mask(t.w):
					b.WriteString(" (bvneg " + r + ")")
				default:
					fmt.Fprintf(&b, " (bvmul %s %s)", constSMT(t.coef[i]&mask(k), k), r)
				}
			}
			if v := t.val & mask(k); v != 0 || cnt == 0 {
				cnt++
				b.WriteString(" " + constSMT(v, k))
			}
			body := b.String()
			if cnt > 1 {
				body = "(bvadd" + body + ")"
			}
			s.send(fmt.Sprintf("(define-fun %s () %s %s)", n, sortName(k), body))
		}
		return n
	case OpIte:
		n := fmt.Sprintf("n%d_%d", t.id, k)
		if !s.ufs[n] {
			s.ufs[n] = true
			x, y := s.nref(t.args[1], k), s.nref(t.args[2], k)
			s.send(fmt.Sprintf("(define-fun %s () %s (ite %s %s %s))", n, sortName(k), t.args[0].ref(), x, y))
		}
		return n
	}
	return fmt.Sprintf("((_ extract %d 0) %s)", k-1, t.ref())
}

// narrowBody is the definition of t using narrowed operands, or "".
func (s *Solver) narrowBody(t *Term) string {
	switch t.op {
	case OpEq, OpUlt, OpSlt:
		a, b := t.args[0], t.args[1]
		if a.w < 12 {
			return ""
		}
		k := s.c.nbits(a)
		kb := s.c.nbits(b)
		if k == 0 || kb == 0 {
			return ""
		}
		if kb > k {
			k = kb
		}
		x, y := s.nref(a, k), s.nref(b, k)
		return "(" + opSMT[t.op] + " " + x + " " + y + ")"
	case OpLin:
		if k := s.c.nbits(t); k != 0 && t.w > 12 {
			return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-k, s.nref(t, k))
		}
	}
	return ""
}
