package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

// Cell is one addressable variable.
type Cell struct{ v Value }

// Ptr is a pointer: nil, to a Cell, or to an element of a scalar array.
type Ptr struct {
	cell *Cell
	arr  *Arr
	idx  *Term
}

func (p Ptr) isNil() bool { return p.cell == nil && p.arr == nil }

type Struct struct{ f []*Cell }

// Arr is array storage. Scalar arrays (ints, bools) have lazy contents and a
// possibly symbolic size; others have one Cell per element.
type Arr struct {
	elem   types.Type
	scalar bool
	w      uint8
	n      *Term
	node   *ANode
	cells  []*Cell
}

type Slice struct {
	arr         *Arr
	off, n, cap *Term
}

type Str struct {
	conc bool
	s    string
	node *ANode
	off  *Term
	n    *Term
}

type Iface struct {
	t types.Type // nil: nil interface
	v Value
}

type Closure struct {
	fn   *ssa.Function
	bind []Value
}

type Tuple []Value

type MapEntry struct {
	k, v Value
	dead bool
}
type Map struct {
	ents []*MapEntry
	live int
}

type MapIter struct {
	m    *Map
	done map[*MapEntry]bool
	// string iteration
	isStr   bool
	s       string
	pos     int
	str     *Str // not constant
	posCell *Cell
}

type FVal struct {
	conc bool
	f    float64
	num  *Term // signed 64-bit
	den  int64
}

// Poison is a value the engine could not compute (package initialisation only).
type Poison struct{ why string }

// RType/RValue model reflect values.
type RValue struct {
	t types.Type
	v Value // value; for addressable, p is set
	p *Ptr
}

// ---- lazy array contents

type aKind uint8

const (
	aConst aKind = iota
	aSym
	aStore
	aCopy
	aVec
)

type ANode struct {
	kind   aKind
	w      uint8
	parent *ANode
	idx    *Term // store
	val    *Term // store / const
	dst    *Term // copy: destination offset
	n      *Term
	src    *ANode
	srcOff *Term
	name   string
	vec    []*Term
	depth  int
	cache  map[*Term]*Term
}

// known replaces a condition by its truth value if the path condition
// determines it.
func (c *TermCtx) known(t *Term) *Term {
	if c.entail == nil || t.isConst() {
		return t
	}
	switch c.entail(t) {
	case 1:
		return c.True
	case 0:
		return c.False
	}
	return t
}

func (c *TermCtx) aread(n *ANode, i *Term) *Term {
	switch n.kind {
	case aConst:
		return n.val
	case aSym:
		return c.UF(n.name, i, n.w)
	case aVec:
		if i.isConst() {
			if i.val < uint64(len(n.vec)) {
				return n.vec[i.val]
			}
			return c.aread(n.parent, i)
		}
	}
	if r, ok := n.cache[i]; ok {
		return r
	}
	var r *Term
	switch n.kind {
	case aVec:
		r = c.aread(n.parent, i)
		for k := len(n.vec) - 1; k >= 0; k-- {
			r = c.Ite(c.Eq(i, c.Int(int64(k))), n.vec[k], r)
		}
	case aStore:
		eq := c.known(c.Eq(n.idx, i))
		if eq.isTrue() {
			r = n.val
		} else if eq.isFalse() {
			r = c.aread(n.parent, i)
		} else {
			r = c.Ite(eq, n.val, c.aread(n.parent, i))
		}
	case aCopy:
		rel := c.Sub(i, n.dst)
		in := c.known(c.Ult(rel, n.n))
		if in.isFalse() {
			r = c.aread(n.parent, i)
		} else if in.isTrue() {
			r = c.aread(n.src, c.Add(rel, n.srcOff))
		} else {
			r = c.Ite(in, c.aread(n.src, c.Add(rel, n.srcOff)), c.aread(n.parent, i))
		}
	}
	if n.cache == nil {
		n.cache = map[*Term]*Term{}
	}
	n.cache[i] = r
	return r
}

func (c *TermCtx) astore(n *ANode, i, v *Term) *ANode {
	if n.kind == aVec && i.isConst() && i.val < uint64(len(n.vec)) && len(n.vec) <= 256 {
		vec := append([]*Term(nil), n.vec...)
		vec[i.val] = v
		return &ANode{kind: aVec, w: n.w, vec: vec, parent: n.parent, depth: n.depth}
	}
	return &ANode{kind: aStore, w: n.w, parent: n, idx: i, val: v, depth: n.depth + 1}
}

func (c *TermCtx) acopy(n *ANode, dst, cnt *Term, src *ANode, srcOff *Term) *ANode {
	if cnt.isConst() && cnt.val == 0 {
		return n
	}
	if cnt.isConst() && cnt.val <= 16 {
		// element-wise keeps reads simple
		vals := make([]*Term, cnt.val)
		for k := range vals {
			vals[k] = c.aread(src, c.Add(srcOff, c.Int(int64(k))))
		}
		for k := range vals {
			n = c.astore(n, c.Add(dst, c.Int(int64(k))), vals[k])
		}
		return n
	}
	return &ANode{kind: aCopy, w: n.w, parent: n, dst: dst, n: cnt, src: src, srcOff: srcOff, depth: n.depth + 1}
}

func (c *TermCtx) azero(w uint8) *ANode {
	return &ANode{kind: aConst, w: w, val: c.Const(0, w)}
}

func (c *TermCtx) avecBytes(s string) *ANode {
	vec := make([]*Term, len(s))
	for i := range vec {
		vec[i] = c.Const(uint64(s[i]), 8)
	}
	return &ANode{kind: aVec, w: 8, vec: vec, parent: c.azero(8)}
}

// ---- types

func isScalar(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	if b.Info()&types.IsBoolean != 0 {
		return 0, true
	}
	if b.Info()&types.IsInteger != 0 {
		return intWidth(b), true
	}
	return 0, false
}

func intWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

func (e *Exec) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.c.False
		case u.Info()&types.IsInteger != 0:
			return e.c.Const(0, intWidth(u))
		case u.Info()&types.IsString != 0:
			return &Str{conc: true}
		case u.Info()&types.IsFloat != 0:
			return FVal{conc: true}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		case u.Kind() == types.Invalid:
			return Poison{"invalid"}
		}
		e.unsupported("zero of " + t.String())
	case *types.Pointer:
		return Ptr{}
	case *types.Slice:
		return Slice{off: e.c.Int(0), n: e.c.Int(0), cap: e.c.Int(0)}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := &Struct{f: make([]*Cell, u.NumFields())}
		for i := range s.f {
			s.f[i] = &Cell{e.zero(u.Field(i).Type())}
		}
		return s
	case *types.Array:
		return e.newArr(u.Elem(), e.c.Int(u.Len()))
	case *types.Tuple:
		tu := make(Tuple, u.Len())
		for i := range tu {
			tu[i] = e.zero(u.At(i).Type())
		}
		return tu
	}
	e.unsupported("zero of " + t.String())
	return nil
}

func (e *Exec) newArr(elem types.Type, n *Term) *Arr {
	if w, ok := isScalar(elem); ok {
		return &Arr{elem: elem, scalar: true, w: w, n: n, node: e.c.azero(w)}
	}
	k := e.concretize(n, "array size")
	if k > 1<<16 {
		e.unsupported(fmt.Sprintf("array of %d non-scalar elements", k))
	}
	a := &Arr{elem: elem, n: e.c.Int(int64(k)), cells: make([]*Cell, k)}
	for i := range a.cells {
		a.cells[i] = &Cell{e.zero(elem)}
	}
	return a
}

func (e *Exec) copyVal(v Value) Value {
	switch x := v.(type) {
	case *Struct:
		s := &Struct{f: make([]*Cell, len(x.f))}
		for i, c := range x.f {
			s.f[i] = &Cell{e.copyVal(c.v)}
		}
		return s
	case *Arr:
		a := &Arr{elem: x.elem, scalar: x.scalar, w: x.w, n: x.n, node: x.node}
		if !x.scalar {
			a.cells = make([]*Cell, len(x.cells))
			for i, c := range x.cells {
				a.cells[i] = &Cell{e.copyVal(c.v)}
			}
		}
		return a
	}
	return v
}

func (e *Exec) assignInto(c *Cell, v Value) {
	switch x := v.(type) {
	case *Struct:
		if d, ok := c.v.(*Struct); ok && len(d.f) == len(x.f) {
			if d == x {
				return
			}
			for i := range d.f {
				e.assignInto(d.f[i], x.f[i].v)
			}
			return
		}
		c.v = e.copyVal(v)
		return
	case *Arr:
		if d, ok := c.v.(*Arr); ok {
			if d == x {
				return
			}
			if d.scalar {
				d.node = x.node
			} else {
				for i := range d.cells {
					e.assignInto(d.cells[i], x.cells[i].v)
				}
			}
			return
		}
		c.v = e.copyVal(v)
		return
	}
	c.v = v
}

func (e *Exec) load(p Ptr) Value {
	if p.isNil() {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	if p.cell != nil {
		if po, ok := p.cell.v.(Poison); ok {
			e.unsupported("use of uninitialised " + po.why)
		}
		return e.copyVal(p.cell.v)
	}
	return e.c.aread(p.arr.node, p.idx)
}

func (e *Exec) store(p Ptr, v Value) {
	if p.isNil() {
		e.rtPanic("invalid memory address or nil pointer dereference")
	}
	if p.cell != nil {
		e.assignInto(p.cell, v)
		return
	}
	t, ok := v.(*Term)
	if !ok {
		e.unsupported("non-term store into scalar array")
	}
	p.arr.node = e.c.astore(p.arr.node, p.idx, t)
	e.flatten(p.arr)
}

func (e *Exec) flatten(a *Arr) {
	if a.node.depth > 64 && a.n.isConst() && a.n.val <= 256 {
		vec := make([]*Term, a.n.val)
		for i := range vec {
			vec[i] = e.c.aread(a.node, e.c.Int(int64(i)))
		}
		a.node = &ANode{kind: aVec, w: a.w, vec: vec, parent: e.c.azero(a.w)}
	}
}

// ---- strings

func (e *Exec) strLen(s *Str) *Term {
	if s.conc {
		return e.c.Int(int64(len(s.s)))
	}
	return s.n
}

func (e *Exec) strNode(s *Str) (*ANode, *Term) {
	if s.conc {
		return e.c.avecBytes(s.s), e.c.Int(0)
	}
	return s.node, s.off
}

// normStr turns a string of concrete length and contents into a Go string.
func (e *Exec) normStr(s *Str) *Str {
	if s.conc || !s.n.isConst() || s.n.val > 4096 {
		return s
	}
	b := make([]byte, s.n.val)
	for i := range b {
		t := e.c.aread(s.node, e.c.Add(s.off, e.c.Int(int64(i))))
		if !t.isConst() {
			return s
		}
		b[i] = byte(t.val)
	}
	return &Str{conc: true, s: string(b)}
}

func (e *Exec) strEq(a, b *Str) *Term {
	a, b = e.normStr(a), e.normStr(b)
	if a.conc && b.conc {
		return e.c.Bool(a.s == b.s)
	}
	if b.conc {
		a, b = b, a
	}
	// b symbolic
	le := e.c.Eq(e.strLen(a), e.strLen(b))
	if le.isFalse() {
		return le
	}
	n1, o1 := e.strNode(a)
	n2, o2 := e.strNode(b)
	if n1 == n2 && o1 == o2 {
		return le
	}
	if !le.isTrue() {
		if !e.decide(le) {
			return e.c.False
		}
	}
	n := e.strLen(a)
	if !n.isConst() {
		n = e.strLen(b)
	}
	if !n.isConst() {
		n = e.c.Int(int64(e.concretize(n, "string length")))
	}
	if n.val > 4096 {
		e.unsupported("comparison of long symbolic strings")
	}
	var cs []*Term
	for i := int64(0); i < int64(n.val); i++ {
		k := e.c.Int(i)
		cs = append(cs, e.c.Eq(e.c.aread(n1, e.c.Add(o1, k)), e.c.aread(n2, e.c.Add(o2, k))))
	}
	return e.c.And(cs...)
}

// ---- equality

func (e *Exec) eq(a, b Value) *Term {
	switch x := a.(type) {
	case *Term:
		return e.c.Eq(x, b.(*Term))
	case *Str:
		return e.strEq(x, b.(*Str))
	case FVal:
		return e.fcmp("==", x, b.(FVal))
	case Ptr:
		y, ok := b.(Ptr)
		if !ok {
			return e.c.False
		}
		if x.arr != nil && y.arr != nil {
			if x.arr != y.arr {
				return e.c.False
			}
			return e.c.Eq(x.idx, y.idx)
		}
		return e.c.Bool(x.cell == y.cell && x.arr == y.arr)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			e.unsupported("interface compared with non-interface")
		}
		if x.t == nil || y.t == nil {
			return e.c.Bool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return e.c.False
		}
		if rx, ok := x.v.(RType); ok {
			ry, ok := y.v.(RType)
			return e.c.Bool(ok && types.Identical(rx.t, ry.t))
		}
		if !types.Comparable(x.t) {
			e.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return e.eq(x.v, y.v)
	case *Chan:
		y, _ := b.(*Chan)
		return e.c.Bool(x == y)
	case *Map:
		y, _ := b.(*Map)
		return e.c.Bool(x == y) // only nil comparisons are legal
	case *Closure:
		y, _ := b.(*Closure)
		return e.c.Bool(x == y)
	case Slice:
		y, ok := b.(Slice)
		if ok {
			return e.c.Bool(x.arr == nil && y.arr == nil)
		}
	case *Struct:
		y := b.(*Struct)
		var cs []*Term
		for i := range x.f {
			cs = append(cs, e.eq(x.f[i].v, y.f[i].v))
		}
		return e.c.And(cs...)
	case *Arr:
		y := b.(*Arr)
		var cs []*Term
		if x.scalar {
			for i := uint64(0); i < x.n.val; i++ {
				k := e.c.Int(int64(i))
				cs = append(cs, e.c.Eq(e.c.aread(x.node, k), e.c.aread(y.node, k)))
			}
		} else {
			for i := range x.cells {
				cs = append(cs, e.eq(x.cells[i].v, y.cells[i].v))
			}
		}
		return e.c.And(cs...)
	case *RValue:
		y, ok := b.(*RValue)
		return e.c.Bool(ok && x == y)
	case RType:
		y, ok := b.(RType)
		return e.c.Bool(ok && types.Identical(x.t, y.t))
	}
	e.unsupported(fmt.Sprintf("equality of %T and %T", a, b))
	return nil
}

type RType struct{ t types.Type }

// Iteration orders: all for maps of up to mapFull entries, beyond that
// insertion order with up to mapDeviations other picks in a run.
const (
	mapFull       = 5
	mapDeviations = 1
)
