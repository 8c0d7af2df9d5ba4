package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func bitsFor(v uint64) uint8 {
	n := uint8(1)
	for v>>n != 0 {
		n++
	}
	return n
}

var intrinsics map[string]intrinsicFn

func argStr(v Value) string {
	if s, ok := v.(*Str); ok && s.conc {
		return s.s
	}
	return "?"
}

func (e *Exec) inVar(name string, kind string, w uint8) *Term {
	n := e.fresh("in:" + name)
	t := e.c.Var(n, w)
	e.inputs = append(e.inputs, Input{Name: name, Kind: kind, T: t})
	return t
}

func (e *Exec) mkError(msg string) Value {
	sp := e.P.byPath["errors"]
	tn := sp.Pkg.Scope().Lookup("errorString").Type()
	s := &Struct{f: []*Cell{{&Str{conc: true, s: msg}}}}
	return Iface{t: types.NewPointer(tn), v: Ptr{cell: &Cell{s}}}
}

func (e *Exec) fatal(kind, msg string) {
	e.candidate(kind, msg, nil)
	panic(pathEnd{"candidate", ""})
}

// goValue renders an interface value for formatting, if it is concrete.
func (e *Exec) goValue(v Value) (interface{}, bool) {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return nil, ok
	}
	switch x := i.v.(type) {
	case *Str:
		x = e.normStr(x)
		return x.s, x.conc
	case *Term:
		if !x.isConst() {
			return nil, false
		}
		if x.w == 0 {
			return x.val == 1, true
		}
		if isSigned(i.t) {
			return x.sval(), true
		}
		return x.val, true
	case FVal:
		return x.f, x.conc
	}
	return nil, false
}

func (e *Exec) varargs(v Value) []Value {
	s, ok := v.(Slice)
	if !ok || s.arr == nil {
		return nil
	}
	n := int(e.concretize(s.n, "varargs"))
	o := int(e.concretize(s.off, "varargs"))
	var r []Value
	for i := 0; i < n; i++ {
		r = append(r, s.arr.cells[o+i].v)
	}
	return r
}

func (e *Exec) format(name string, args []Value) string {
	f := ""
	var vs []Value
	if strings.HasSuffix(name, "f") {
		f = argStr(args[0])
		vs = e.varargs(args[1])
	} else {
		vs = e.varargs(args[0])
	}
	var gv []interface{}
	for _, v := range vs {
		x, ok := e.goValue(v)
		if !ok {
			x = "<?>"
		}
		gv = append(gv, x)
	}
	switch {
	case strings.HasSuffix(name, "f"):
		return fmt.Sprintf(f, gv...)
	case strings.HasSuffix(name, "ln"):
		return fmt.Sprintln(gv...)
	}
	return fmt.Sprint(gv...)
}

func fmtIntrinsic(fn *ssa.Function) intrinsicFn {
	if fn.Signature.Recv() != nil {
		return nil
	}
	switch fn.Name() {
	case "Print", "Println", "Printf", "Fprint", "Fprintln", "Fprintf":
		return func(e *Exec, g *Gor, fn *ssa.Function, args []Value) Value {
			return Tuple{e.c.Int(0), Iface{}}
		}
	case "Sprint", "Sprintln", "Sprintf":
		return func(e *Exec, g *Gor, fn *ssa.Function, args []Value) Value {
			return &Str{conc: true, s: e.format(fn.Name(), args)}
		}
	case "Errorf":
		return func(e *Exec, g *Gor, fn *ssa.Function, args []Value) Value {
			f := argStr(args[0])
			msg := e.format("f", args)
			if strings.Contains(f, "%w") {
				for _, v := range e.varargs(args[1]) {
					i, ok := v.(Iface)
					if !ok || i.t == nil {
						continue
					}
					if et, _ := types.Universe.Lookup("error").Type().Underlying().(*types.Interface); e.implements(i, et) {
						tn := e.P.byPath["fmt"].Pkg.Scope().Lookup("wrapError")
						if tn != nil {
							s := &Struct{f: []*Cell{{&Str{conc: true, s: msg}}, {i}}}
							return Iface{t: types.NewPointer(tn.Type()), v: Ptr{cell: &Cell{s}}}
						}
					}
				}
			}
			return e.mkError(msg)
		}
	}
	return nil
}

func init() {
	I := map[string]intrinsicFn{}
	intrinsics = I
	type A = []Value

	// ---- harness primitives
	I["zz:zzInt"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return e.inVar(argStr(a[0]), "int", 64) }
	I["zz:zzU64"] = I["zz:zzInt"]
	I["zz:zzU32"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return e.inVar(argStr(a[0]), "int", 32) }
	I["zz:zzU16"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return e.inVar(argStr(a[0]), "int", 16) }
	I["zz:zzU8"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return e.inVar(argStr(a[0]), "int", 8) }
	I["zz:zzBool"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return e.inVar(argStr(a[0]), "int", 0) }
	rng := func(e *Exec, name string, lo, hi *Term) Value {
		full := e.c.Sle(lo, hi)
		w := uint8(64)
		if lo.isConst() && hi.isConst() && lo.sval() >= 0 && hi.sval() >= lo.sval() {
			w = bitsFor(hi.val)
		} else {
			// an empty range ends the path
			if !full.isTrue() {
				e.assume(full)
			}
			pre := e.inPrefix()
			if pre {
				w = uint8(e.nextPrefix('f').V)
			}
			for _, k := range []uint8{8, 16, 32} {
				if pre {
					break
				}
				ok := e.c.And(e.c.Sle(e.c.Int(0), lo), e.c.Slt(hi, e.c.Int(1<<k)))
				if ok.isTrue() || e.sol.Check(e.pc, e.c.Not(ok)) == Unsat {
					w = k
					break
				}
			}
			if !pre {
				e.dec = append(e.dec, Decision{'f', uint64(w)})
			}
		}
		var t *Term
		if w < 64 {
			v := e.c.Var(e.fresh(fmt.Sprintf("in%d:%s", w, name)), w)
			t = e.c.Zext(v, 64)
		} else {
			t = e.c.Var(e.fresh("in:"+name), 64)
		}
		e.inputs = append(e.inputs, Input{Name: name, Kind: "int", T: t})
		if c := e.c.And(e.c.Sle(lo, t), e.c.Sle(t, hi)); !c.isTrue() {
			e.addPC(c, true)
		}
		return t
	}
	I["zz:zzLen"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return rng(e, argStr(a[0]), e.c.Int(0), a[1].(*Term))
	}
	I["zz:zzRange"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return rng(e, argStr(a[0]), a[1].(*Term), a[2].(*Term))
	}
	I["zz:zzBytes"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		n := a[1].(*Term)
		nm := e.fresh("by:" + argStr(a[0]))
		e.inputs = append(e.inputs, Input{Name: argStr(a[0]), Kind: "bytes", UF: nm, N: n})
		arr := &Arr{elem: types.Typ[types.Uint8], scalar: true, w: 8, n: n, node: &ANode{kind: aSym, w: 8, name: nm}}
		return Slice{arr: arr, off: e.c.Int(0), n: n, cap: n}
	}
	I["zz:zzStr"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		n := a[1].(*Term)
		nm := e.fresh("by:" + argStr(a[0]))
		e.inputs = append(e.inputs, Input{Name: argStr(a[0]), Kind: "bytes", UF: nm, N: n})
		return &Str{node: &ANode{kind: aSym, w: 8, name: nm}, off: e.c.Int(0), n: n}
	}
	I["zz:zzChoice"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		n := int(a[1].(*Term).val)
		k := e.chooseNamed("in:"+argStr(a[0]), n)
		e.inputs = append(e.inputs, Input{Name: argStr(a[0]), Kind: "choice", V: uint64(k)})
		return e.c.Int(int64(k))
	}
	I["zz:zzFork"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return e.c.Const(e.concretize(a[0].(*Term), "zzFork"), a[0].(*Term).w)
	}
	I["zz:zzAssume"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { e.assume(a[0].(*Term)); return nil }
	I["zz:zzAssert"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		e.assert(a[0].(*Term), argStr(a[1]))
		return nil
	}
	I["zz:zzReach"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		e.Reached[argStr(a[0])]++
		return nil
	}
	I["zz:zzYield"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		if e.initing == 0 {
			g.parkAfter = gYield
			e.park(g)
		}
		return nil
	}
	I["zz:zzSettle"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { g.parkAfter = gSettle; return nil }
	I["zz:zzNative"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return e.c.False }
	I["zz:zzParam"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		v, ok := e.cfg.Params[argStr(a[0])]
		if !ok {
			e.unsupported("unknown parameter " + argStr(a[0]))
		}
		return e.c.Int(int64(v))
	}
	I["runtime.Gosched"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return nil }
	I["runtime.GC"] = I["runtime.Gosched"]
	I["runtime.KeepAlive"] = I["runtime.Gosched"]

	// ---- log
	for _, n := range []string{"Print", "Printf", "Println"} {
		I["log."+n] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return nil }
	}
	for _, n := range []string{"Panic", "Panicf", "Panicln"} {
		I["log."+n] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
			panic(goPanic{Iface{t: types.Typ[types.String], v: &Str{conc: true, s: "log.Panic"}}})
		}
	}
	for _, n := range []string{"Fatal", "Fatalf", "Fatalln"} {
		I["log."+n] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
			e.fatal("fatal", "log.Fatal ends the process")
			return nil
		}
	}

	// ---- errors
	I["zz:zzComparableIs"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		x := a[0].(Iface)
		return e.c.Bool(x.t != nil && types.Comparable(x.t) && e.decide(e.eq(x, a[1])))
	}
	I["zz:zzAssignTo"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		x, t := a[0].(Iface), a[1].(Iface)
		pt, ok := types.Type(nil), false
		if t.t != nil {
			if p, isp := t.t.Underlying().(*types.Pointer); isp {
				pt, ok = p.Elem(), true
			}
		}
		p, isPtr := t.v.(Ptr)
		if !ok || !isPtr {
			panic(goPanic{Iface{t: types.Typ[types.String], v: &Str{conc: true, s: "errors: target must be a non-nil pointer"}}})
		}
		if it, ok := pt.Underlying().(*types.Interface); ok {
			if !e.implements(x, it) {
				return e.c.False
			}
			e.store(p, x)
			return e.c.True
		}
		if !types.Identical(x.t, pt) {
			return e.c.False
		}
		e.store(p, x.v)
		return e.c.True
	}
	I["zz:zzSliceLen"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		s, ok := a[0].(Iface).v.(Slice)
		if !ok {
			e.unsupported("sort of a value that is no slice")
		}
		if s.arr == nil {
			return e.c.Int(0)
		}
		return s.n
	}
	I["zz:zzSliceSwap"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		s := a[0].(Iface).v.(Slice)
		at := func(i *Term) Ptr { return e.indexAddr(s, i).(Ptr) }
		x, y := at(a[1].(*Term)), at(a[2].(*Term))
		vx, vy := e.copyVal(e.load(x)), e.copyVal(e.load(y))
		e.store(x, vy)
		e.store(y, vx)
		return nil
	}

	// ---- locks inside library packages (their critical sections never block)
	nop := func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return nil }
	yes := func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return e.c.True }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "(*sync.Pool).Put"} {
		I[n] = nop
	}
	I["(*sync.Mutex).TryLock"] = yes
	I["runtime.SetFinalizer"] = nop

	I["(*strings.Builder).copyCheck"] = nop
	I["(*strings.Builder).String"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		st := e.load(a[0].(Ptr)).(*Struct)
		b, ok := st.f[len(st.f)-1].v.(Slice)
		if !ok || b.arr == nil {
			return &Str{conc: true}
		}
		return e.normStr(&Str{node: b.arr.node, off: b.off, n: b.n})
	}
	I["(*fmt.wrapError).Error"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return a[0].(Ptr).cell.v.(*Struct).f[0].v
	}
	I["(*fmt.wrapError).Unwrap"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return a[0].(Ptr).cell.v.(*Struct).f[1].v
	}
	I["reflect.DeepEqual"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return e.deepEq(a[0], a[1], nil, 0)
	}

	// ---- math
	for n, f := range map[string]func(float64) float64{"Floor": math.Floor, "Ceil": math.Ceil, "Trunc": math.Trunc, "Round": math.Round, "Abs": math.Abs, "Sqrt": math.Sqrt} {
		n, f := n, f
		I["math."+n] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
			x := a[0].(FVal)
			if x.conc {
				return FVal{conc: true, f: f(x.f)}
			}
			neg := e.decide(e.c.Slt(x.num, e.c.Int(0)))
			num := x.num
			if neg {
				num = e.c.Neg(num)
			}
			d := e.c.Int(x.den)
			var q *Term
			switch {
			case n == "Abs":
				return FVal{num: num, den: x.den}
			case n == "Trunc", n == "Floor" && !neg, n == "Ceil" && neg:
				q = e.c.Div(OpSdiv, num, d)
			case n == "Round":
				q = e.c.Div(OpSdiv, e.c.Add(e.c.Add(num, num), d), e.c.Int(2*x.den))
			case n == "Floor", n == "Ceil":
				q = e.c.Div(OpSdiv, e.c.Add(num, e.c.Int(x.den-1)), d)
			default:
				e.unsupported("math." + n + " of a symbolic value")
			}
			if neg {
				q = e.c.Neg(q)
			}
			return FVal{num: q, den: 1}
		}
	}
	for _, n := range []string{"Max", "Min"} {
		max := n == "Max"
		I["math."+n] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
			x, y := a[0].(FVal), a[1].(FVal)
			if e.decide(e.fcmp("<", x, y)) == max {
				return y
			}
			return x
		}
	}

	// ---- time
	I["time.Now"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		s := e.zero(fn.Signature.Results().At(0).Type()).(*Struct)
		s.f[0].v = e.c.Const(1<<63, 64)
		s.f[1].v = e.c.Add(e.now, e.c.Int(1))
		return s
	}
	ext := func(v Value) *Term { return v.(*Struct).f[1].v.(*Term) }
	I["time.Since"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		s := a[0].(*Struct)
		if w := s.f[0].v.(*Term); !w.isConst() || w.val != 1<<63 {
			if w.isConst() && w.val == 0 {
				return e.c.Int(1<<63 - 1) // saturated: zero time
			}
			e.unsupported("time.Since of a wall-clock time")
		}
		return e.c.Sub(e.c.Add(e.now, e.c.Int(1)), ext(s))
	}
	I["time.Until"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return e.c.Sub(ext(a[0]), e.c.Add(e.now, e.c.Int(1)))
	}
	I["(time.Time).Add"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		s := e.copyVal(a[0]).(*Struct)
		if w := s.f[0].v.(*Term); !w.isConst() || w.val != 1<<63 {
			e.unsupported("Add on a wall-clock time")
		}
		s.f[1].v = e.c.Add(ext(s), a[1].(*Term))
		return s
	}
	const base = 1700000000
	I["(time.Time).UnixNano"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return e.c.Add(ext(a[0]), e.c.Int(base*1e9))
	}
	unix := func(d int64) intrinsicFn {
		return func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
			return e.c.Div(OpSdiv, e.c.Add(ext(a[0]), e.c.Int(base*1e9)), e.c.Int(d))
		}
	}
	I["(time.Time).Unix"] = unix(1e9)
	I["(time.Time).UnixMilli"] = unix(1e6)
	I["(time.Time).UnixMicro"] = unix(1e3)
	I["(time.Duration).Seconds"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return FVal{num: a[0].(*Term), den: 1e9}
	}
	I["(time.Duration).Minutes"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return FVal{num: a[0].(*Term), den: 60e9}
	}
	I["(time.Duration).String"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return &Str{conc: true, s: "duration"}
	}
	I["time.Sleep"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { e.sleep(g, a[0].(*Term)); return nil }
	I["zz:zzSleep"] = I["time.Sleep"]
	mkTimeChan := func(e *Exec) *Chan {
		return &Chan{cap: 1, elem: e.P.typeOf("time", "Time"), id: e.fresh("timer")}
	}
	nowVal := func(e *Exec) Value {
		s := e.zero(e.P.typeOf("time", "Time")).(*Struct)
		s.f[0].v = e.c.Const(1<<63, 64)
		s.f[1].v = e.c.Add(e.now, e.c.Int(1))
		return s
	}
	tick := func(e *Exec, ch *Chan) func() {
		return func() {
			if live(ch.recvq) || len(ch.buf) < ch.cap {
				e.trySend(ch, nowVal(e))
			}
		}
	}
	I["time.After"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		ch := mkTimeChan(e)
		e.addTimer(a[0].(*Term), tick(e, ch))
		return ch
	}
	I["time.Tick"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		ch := mkTimeChan(e)
		t := e.addTimer(a[0].(*Term), tick(e, ch))
		t.period = a[0].(*Term)
		return ch
	}
	mkTimer := func(periodic bool) intrinsicFn {
		return func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
			pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
			s := e.zero(pt.Elem()).(*Struct)
			cell := &Cell{s}
			ch := mkTimeChan(e)
			s.f[0].v = ch
			d := a[0].(*Term)
			if periodic && e.decide(e.c.Sle(d, e.c.Int(0))) {
				panic(goPanic{Iface{t: types.Typ[types.String], v: &Str{conc: true, s: "non-positive interval for NewTicker"}}})
			}
			t := e.addTimer(d, tick(e, ch))
			if periodic {
				t.period = d
			}
			e.extra[fmt.Sprintf("timer:%p", cell)] = t
			return Ptr{cell: cell}
		}
	}
	I["time.NewTimer"] = mkTimer(false)
	I["time.NewTicker"] = mkTimer(true)
	I["time.AfterFunc"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		pt := fn.Signature.Results().At(0).Type().(*types.Pointer)
		s := e.zero(pt.Elem()).(*Struct)
		cell := &Cell{s}
		f := a[1]
		t := e.addTimer(a[0].(*Term), func() { e.spawn(f, nil) })
		e.extra[fmt.Sprintf("timer:%p", cell)] = t
		return Ptr{cell: cell}
	}
	stop := func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		t, _ := e.extra[fmt.Sprintf("timer:%p", a[0].(Ptr).cell)].(*Timer)
		was := t != nil && !t.dead
		if t != nil {
			t.dead = true
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return e.c.Bool(was)
	}
	I["(*time.Timer).Stop"] = stop
	I["(*time.Ticker).Stop"] = stop
	reset := func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		cell := a[0].(Ptr).cell
		k := fmt.Sprintf("timer:%p", cell)
		t, _ := e.extra[k].(*Timer)
		if t == nil {
			e.unsupported("reset of unknown timer")
		}
		was := !t.dead
		t.dead = true
		if ch, ok := cell.v.(*Struct).f[0].v.(*Chan); ok && ch != nil {
			ch.buf = nil
		}
		nt := e.addTimer(a[1].(*Term), t.fire)
		if t.period != nil {
			nt.period = a[1].(*Term)
		}
		e.extra[k] = nt
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return e.c.Bool(was)
	}
	I["(*time.Timer).Reset"] = reset
	I["(*time.Ticker).Reset"] = reset

	// ---- sync/atomic
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I["sync/atomic.Load"+ty] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { return e.load(a[0].(Ptr)) }
		I["sync/atomic.Store"+ty] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value { e.store(a[0].(Ptr), a[1]); return nil }
		I["sync/atomic.Swap"+ty] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
			o := e.load(a[0].(Ptr))
			e.store(a[0].(Ptr), a[1])
			return o
		}
		I["sync/atomic.CompareAndSwap"+ty] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
			if e.decide(e.eq(e.load(a[0].(Ptr)), a[1])) {
				e.store(a[0].(Ptr), a[2])
				return e.c.True
			}
			return e.c.False
		}
		I["sync/atomic.Add"+ty] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
			n := e.c.Add(e.load(a[0].(Ptr)).(*Term), a[1].(*Term))
			e.store(a[0].(Ptr), n)
			return n
		}
	}
	I["(*sync/atomic.Value).Load"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return a[0].(Ptr).cell.v.(*Struct).f[0].v
	}
	I["(*sync/atomic.Value).Store"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		if a[1].(Iface).t == nil {
			panic(goPanic{Iface{t: types.Typ[types.String], v: &Str{conc: true, s: "sync/atomic: store of nil value into Value"}}})
		}
		a[0].(Ptr).cell.v.(*Struct).f[0].v = a[1]
		return nil
	}

	// ---- reflect (only what the codecs need)
	I["reflect.TypeOf"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		i := a[0].(Iface)
		if i.t == nil {
			return Iface{}
		}
		return Iface{t: e.P.typeOf("reflect", "rtype"), v: RType{i.t}}
	}
	I["internal/reflectlite.TypeOf"] = I["reflect.TypeOf"]
	I["(reflect.Value).IsNil"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		switch v := a[0].(*RValue).v.(type) {
		case Ptr:
			return e.c.Bool(v.cell == nil && v.arr == nil)
		case Slice:
			return e.c.Bool(v.arr == nil)
		case Iface:
			return e.c.Bool(v.t == nil)
		case *Chan:
			return e.c.Bool(v == nil)
		}
		e.unsupported("reflect IsNil")
		return nil
	}
	I["(reflect.Value).Kind"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		r := a[0].(*RValue)
		if r.t == nil {
			return e.c.Const(0, 64)
		}
		return e.rtCall("rtype.Kind", []Value{RType{r.t}})
	}
	I["reflect.New"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		i := a[0].(Iface)
		if i.t == nil {
			panic(goPanic{Iface{t: types.Typ[types.String], v: &Str{conc: true, s: "reflect: New(nil)"}}})
		}
		t := i.v.(RType).t
		return &RValue{t: types.NewPointer(t), v: Ptr{cell: &Cell{e.zero(t)}}}
	}
	I["reflect.ValueOf"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		i := a[0].(Iface)
		return &RValue{t: i.t, v: i.v}
	}
	I["(reflect.Value).Interface"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		r := a[0].(*RValue)
		return Iface{t: r.t, v: e.copyVal(r.v)}
	}
	I["(reflect.Value).Elem"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		r := a[0].(*RValue)
		if p, ok := r.v.(Ptr); ok && r.t != nil {
			return &RValue{t: r.t.Underlying().(*types.Pointer).Elem(), v: e.load(p), p: &p}
		}
		e.unsupported("reflect Elem")
		return nil
	}
	I["(reflect.Value).Type"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		return Iface{t: e.P.typeOf("reflect", "rtype"), v: RType{a[0].(*RValue).t}}
	}
	I["(reflect.Value).Set"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		r := a[0].(*RValue)
		if r.p == nil {
			e.unsupported("reflect Set")
		}
		e.store(*r.p, a[1].(*RValue).v)
		return nil
	}

	// ---- unsafe helpers of the standard library
	I["internal/bytealg.MakeNoZero"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		n := a[0].(*Term)
		return Slice{arr: e.newArr(types.Typ[types.Uint8], n), off: e.c.Int(0), n: n, cap: n}
	}
	I["internal/bytealg.Equal"] = func(e *Exec, g *Gor, fn *ssa.Function, a A) Value {
		x, y := a[0].(Slice), a[1].(Slice)
		mk := func(s Slice) *Str {
			if s.arr == nil {
				return &Str{conc: true}
			}
			return e.normStr(&Str{node: s.arr.node, off: s.off, n: s.n})
		}
		return e.strEq(mk(x), mk(y))
	}
}

// rtCall runs a method of an engine-modelled dynamic type.
func (e *Exec) rtCall(name string, args []Value) Value {
	switch name {
	case "rterr.Error":
		return args[0].(*Str)
	case "rterr.RuntimeError":
		return nil
	case "rtype.String", "rtype.Name":
		return &Str{conc: true, s: args[0].(RType).t.String()}
	case "rtype.Comparable":
		return e.c.Bool(types.Comparable(args[0].(RType).t))
	case "rtype.Elem":
		switch t := args[0].(RType).t.Underlying().(type) {
		case *types.Pointer:
			return Iface{t: e.P.typeOf("reflect", "rtype"), v: RType{t.Elem()}}
		case *types.Slice:
			return Iface{t: e.P.typeOf("reflect", "rtype"), v: RType{t.Elem()}}
		}
	case "rtype.Kind":
		var k uint64
		switch t := args[0].(RType).t.Underlying().(type) {
		case *types.Pointer:
			k = 22
		case *types.Struct:
			k = 25
		case *types.Slice:
			k = 23
		case *types.Map:
			k = 21
		case *types.Array:
			k = 17
		case *types.Chan:
			k = 18
		case *types.Signature:
			k = 19
		case *types.Interface:
			k = 20
		case *types.Basic:
			switch t.Kind() {
			case types.String:
				k = 24
			case types.Float32:
				k = 13
			case types.Float64:
				k = 14
			default:
				// Bool, Int .. Uintptr are numbered alike in go/types and reflect
				if t.Kind() >= types.Bool && t.Kind() <= types.Uintptr {
					k = uint64(t.Kind())
				}
			}
		}
		if k != 0 {
			return e.c.Const(k, 64)
		}
	}
	e.unsupported("method " + name)
	return nil
}

// deepEq is reflect.DeepEqual for values of the same static type t (nil: interfaces).
func (e *Exec) deepEq(x, y Value, t types.Type, depth int) *Term {
	if depth > 20 {
		e.unsupported("DeepEqual depth")
	}
	switch a := x.(type) {
	case Iface:
		b, ok := y.(Iface)
		if !ok {
			break
		}
		if a.t == nil || b.t == nil {
			return e.c.Bool(a.t == nil && b.t == nil)
		}
		if !types.Identical(a.t, b.t) {
			return e.c.False
		}
		return e.deepEq(a.v, b.v, a.t, depth+1)
	case Ptr:
		b, ok := y.(Ptr)
		if !ok {
			break
		}
		eq := e.eq(a, b)
		if eq.isTrue() {
			return eq
		}
		if a.cell == nil || b.cell == nil {
			return eq
		}
		p, ok := t.Underlying().(*types.Pointer)
		if !ok {
			break
		}
		return e.deepEq(e.load(a), e.load(b), p.Elem(), depth+1)
	case *Struct:
		b, ok := y.(*Struct)
		st, ok2 := t.Underlying().(*types.Struct)
		if !ok || !ok2 {
			break
		}
		r := e.c.True
		for i := range a.f {
			r = e.c.And(r, e.deepEq(a.f[i].v, b.f[i].v, st.Field(i).Type(), depth+1))
		}
		return r
	case Slice:
		b, ok := y.(Slice)
		st, ok2 := t.Underlying().(*types.Slice)
		if !ok || !ok2 {
			break
		}
		if a.arr == nil || b.arr == nil {
			return e.c.Bool(a.arr == nil && b.arr == nil)
		}
		if bt, ok := st.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			return e.strEq(e.normStr(&Str{node: a.arr.node, off: a.off, n: a.n}), e.normStr(&Str{node: b.arr.node, off: b.off, n: b.n}))
		}
		if !e.decide(e.c.Eq(a.n, b.n)) {
			return e.c.False
		}
		n := e.concretize(a.n, "DeepEqual")
		r := e.c.True
		for i := uint64(0); i < n; i++ {
			k := e.c.Int(int64(i))
			r = e.c.And(r, e.deepEq(e.load(e.indexAddr(a, k).(Ptr)), e.load(e.indexAddr(b, k).(Ptr)), st.Elem(), depth+1))
		}
		return r
	case *Term, *Str, FVal:
		return e.eq(x, y)
	}
	e.unsupported("reflect.DeepEqual")
	return nil
}
