package main

// Goroutines, channels, virtual time and the delay-bounded scheduler.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type gstate int

const (
	gNone    gstate = iota
	gRunning        // executing now
	gReady          // runs up to its next scheduling point right after the current slice
	gYield          // parked at zzYield, may be scheduled
	gSettle         // parked at zzSettle, scheduled when nobody else is at a yield
	gBlocked        // waiting for a channel
	gSleep          // waiting for the clock
	gDone
)

type Gor struct {
	id        int
	frames    []*Frame
	state     gstate
	e         *Exec
	parkAfter gstate
	pendPanic Value
	wait      *waitSet
	blockedOn string
	pid       int // order of first parking, as in the native replay
}

type waitSet struct{ done bool }

type waiter struct {
	g    *Gor
	set  *waitSet
	val  Value                  // value to send
	comp func(v Value, ok bool) // completes the instruction
}

type Chan struct {
	cap    int
	buf    []Value
	elem   types.Type
	id     string
	closed bool
	recvq  []*waiter
	sendq  []*waiter
}

type Timer struct {
	when   *Term
	fire   func()
	dead   bool
	period *Term
}

func deq(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		*q = (*q)[1:]
		if !w.set.done {
			return w
		}
	}
	return nil
}

func live(q []*waiter) bool {
	for _, w := range q {
		if !w.set.done {
			return true
		}
	}
	return false
}

func (e *Exec) wake(w *waiter, v Value, ok bool) {
	w.set.done = true
	w.comp(v, ok)
	e.ready(w.g)
}

func (e *Exec) ready(g *Gor) {
	g.state = gReady
	e.woken = append(e.woken, g)
}

func (e *Exec) block(g *Gor, why string) {
	if e.initing > 0 {
		e.unsupported("blocking in package init")
	}
	g.state = gBlocked
	g.blockedOn = why
	panic(blockSig{})
}

// tryRecv attempts a receive without blocking.
func (e *Exec) tryRecv(ch *Chan) (Value, bool, bool) {
	if ch == nil {
		return nil, false, false
	}
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = append([]Value(nil), ch.buf[1:]...)
		if w := deq(&ch.sendq); w != nil {
			ch.buf = append(ch.buf, w.val)
			e.wake(w, nil, true)
		}
		return v, true, true
	}
	if w := deq(&ch.sendq); w != nil {
		v := w.val
		e.wake(w, nil, true)
		return v, true, true
	}
	if ch.closed {
		return e.zero(ch.elem), false, true
	}
	return nil, false, false
}

func (e *Exec) trySend(ch *Chan, v Value) bool {
	if ch == nil {
		return false
	}
	if ch.closed {
		panic(goPanic{Iface{t: e.P.runtimeErr, v: &Str{conc: true, s: "send on closed channel"}}})
	}
	if w := deq(&ch.recvq); w != nil {
		e.wake(w, v, true)
		return true
	}
	if len(ch.buf) < ch.cap {
		ch.buf = append(append([]Value(nil), ch.buf...), v)
		return true
	}
	return false
}

func (e *Exec) chanRecv(g *Gor, ch *Chan, t types.Type, x *ssa.UnOp) (Value, bool) {
	v, ok, done := e.tryRecv(ch)
	if done {
		return v, ok
	}
	f := g.frames[len(g.frames)-1]
	if ch != nil {
		w := &waiter{g: g, set: &waitSet{}, comp: func(v Value, ok bool) {
			if x.CommaOk {
				f.set(x, Tuple{v, e.c.Bool(ok)})
			} else {
				f.set(x, v)
			}
			f.pc++
		}}
		ch.recvq = append(ch.recvq, w)
	}
	e.block(g, "receive")
	return nil, false
}

func (e *Exec) chanSend(g *Gor, ch *Chan, v Value) {
	if e.trySend(ch, v) {
		return
	}
	f := g.frames[len(g.frames)-1]
	if ch != nil {
		w := &waiter{g: g, set: &waitSet{}, val: v, comp: func(_ Value, ok bool) {
			if !ok {
				g.pendPanic = Iface{t: e.P.runtimeErr, v: &Str{conc: true, s: "send on closed channel"}}
				return
			}
			f.pc++
		}}
		ch.sendq = append(ch.sendq, w)
	}
	e.block(g, "send")
}

func (e *Exec) chanClose(ch *Chan) {
	if ch == nil {
		panic(goPanic{Iface{t: e.P.runtimeErr, v: &Str{conc: true, s: "close of nil channel"}}})
	}
	if ch.closed {
		panic(goPanic{Iface{t: e.P.runtimeErr, v: &Str{conc: true, s: "close of closed channel"}}})
	}
	ch.closed = true
	for w := deq(&ch.recvq); w != nil; w = deq(&ch.recvq) {
		e.wake(w, e.zero(ch.elem), false)
	}
	for w := deq(&ch.sendq); w != nil; w = deq(&ch.sendq) {
		e.wake(w, nil, false)
	}
}

func (e *Exec) doSelect(g *Gor, f *Frame, x *ssa.Select) {
	// evaluate operands
	type st struct {
		ch  *Chan
		val Value
		snd bool
		ri  int
	}
	var sts []st
	nr := 0
	for _, s := range x.States {
		c, _ := e.get(f, s.Chan).(*Chan)
		q := st{ch: c}
		if s.Dir == types.SendOnly {
			q.snd = true
			q.val = e.copyVal(e.get(f, s.Send))
		} else {
			q.ri = nr
			nr++
		}
		sts = append(sts, q)
	}
	tup := x.Type().(*types.Tuple)
	result := func(idx int, v Value, ok bool) Tuple {
		t := make(Tuple, tup.Len())
		t[0] = e.c.Int(int64(idx))
		t[1] = e.c.Bool(ok)
		for i := 2; i < tup.Len(); i++ {
			t[i] = e.zero(tup.At(i).Type())
		}
		if idx >= 0 && !sts[idx].snd {
			t[2+sts[idx].ri] = v
		}
		return t
	}
	var readyIdx []int
	for i, s := range sts {
		if s.ch == nil {
			continue
		}
		if s.snd {
			if s.ch.closed || len(s.ch.buf) < s.ch.cap || live(s.ch.recvq) {
				readyIdx = append(readyIdx, i)
			}
		} else if len(s.ch.buf) > 0 || s.ch.closed || live(s.ch.sendq) {
			readyIdx = append(readyIdx, i)
		}
	}
	if len(readyIdx) > 0 {
		i := readyIdx[e.choose(len(readyIdx))]
		s := sts[i]
		if s.snd {
			e.trySend(s.ch, s.val)
			f.set(x, result(i, nil, false))
		} else {
			v, ok, _ := e.tryRecv(s.ch)
			f.set(x, result(i, v, ok))
		}
		return
	}
	if !x.Blocking {
		f.set(x, result(-1, nil, false))
		return
	}
	set := &waitSet{}
	for i, s := range sts {
		if s.ch == nil {
			continue
		}
		i, s := i, s
		w := &waiter{g: g, set: set, val: s.val}
		if s.snd {
			w.comp = func(_ Value, ok bool) {
				if !ok {
					g.pendPanic = Iface{t: e.P.runtimeErr, v: &Str{conc: true, s: "send on closed channel"}}
					return
				}
				f.set(x, result(i, nil, false))
				f.pc++
			}
			s.ch.sendq = append(s.ch.sendq, w)
		} else {
			w.comp = func(v Value, ok bool) {
				f.set(x, result(i, v, ok))
				f.pc++
			}
			s.ch.recvq = append(s.ch.recvq, w)
		}
	}
	e.block(g, "select")
}

func (e *Exec) spawn(fnv Value, args []Value) *Gor {
	if e.initing > 0 {
		e.unsupported("go statement in package init")
	}
	g := &Gor{id: len(e.gs), e: e}
	e.gs = append(e.gs, g)
	switch fv := fnv.(type) {
	case *Closure:
		if fv == nil {
			e.rtPanic("go of nil func value")
		}
		fn := fv.fn
		if r, ok := e.P.replaced(fn); ok {
			fn = r
		}
		if e.P.intrinsic(fn) != nil {
			e.unsupported("go statement on intrinsic " + fn.String())
		}
		e.pushFrame(g, fn, args, fv.bind)
	default:
		e.unsupported(fmt.Sprintf("go statement on %T", fnv))
	}
	e.ready(g)
	return g
}

// runSlice runs g up to its next scheduling point, then everything it woke.
func (e *Exec) runSlice(g *Gor) {
	e.resume(g)
	for len(e.woken) > 0 {
		w := e.woken[0]
		e.woken = e.woken[1:]
		if w.state == gReady {
			e.resume(w)
		}
	}
}

func (e *Exec) resume(g *Gor) {
	if g.pendPanic != nil {
		v := g.pendPanic
		g.pendPanic = nil
		save := e.cur
		e.cur = g
		e.raise(g, v)
		e.cur = save
	}
	e.runGor(g)
}

// schedule runs the whole program from goroutine 0 until it finishes.
func (e *Exec) schedule() {
	g0 := e.gs[0]
	e.runSlice(g0)
	last := g0
	for g0.state != gDone {
		var cand []*Gor
		settle := g0.state == gSettle
		for _, g := range e.gs {
			if g.state == gYield {
				cand = append(cand, g)
			}
		}
		if len(cand) == 0 {
			if settle {
				e.trace = append(e.trace, 0)
				last = g0
				e.runSlice(g0)
				continue
			}
			if e.advance() {
				continue
			}
			why := ""
			for _, g := range e.gs {
				if g.state == gBlocked {
					why += fmt.Sprintf(" g%d:%s", g.id, g.blockedOn)
				}
			}
			e.cur = g0
			e.candidate("deadlock", "deadlock: the harness goroutine can never continue ("+why+" )", nil)
			e.cur = nil
			panic(pathEnd{"candidate", ""})
		}
		// default: the current goroutine goes on, else the next one by id
		def := 0
		for i, g := range cand {
			if g == last {
				def = i
			}
		}
		if cand[def] != last {
			for i, g := range cand {
				if g.id > last.id {
					def = i
					break
				}
			}
		}
		order := append([]*Gor{}, cand[def:]...)
		order = append(order, cand[:def]...)
		n := len(order)
		if r := e.cfg.DelayBound - e.delays; n > r+1 {
			n = r + 1
		}
		k := e.chooseNamed("sched", n)
		e.delays += k
		last = order[k]
		e.trace = append(e.trace, last.pid)
		e.runSlice(last)
	}
}

// advance moves the virtual clock to the earliest timer and fires it (and all
// others due at the same instant).
func (e *Exec) advance() bool {
	var lv []*Timer
	for _, t := range e.timers {
		if !t.dead {
			lv = append(lv, t)
		}
	}
	e.timers = lv
	if len(lv) == 0 {
		return false
	}
	min := lv[0]
	for _, t := range lv[1:] {
		if e.decide(e.c.Slt(t.when, min.when)) {
			min = t
		}
	}
	var due []*Timer
	for _, t := range lv {
		if t == min || e.decide(e.c.Eq(t.when, min.when)) {
			due = append(due, t)
		}
	}
	if e.decide(e.c.Slt(e.now, min.when)) {
		e.now = min.when
	}
	e.trace = append(e.trace, -1)
	for _, t := range due {
		if t.period == nil {
			t.dead = true
		} else {
			t.when = e.c.Add(t.when, t.period)
		}
		t.fire()
	}
	for len(e.woken) > 0 {
		w := e.woken[0]
		e.woken = e.woken[1:]
		if w.state == gReady {
			e.resume(w)
		}
	}
	return true
}

func (e *Exec) addTimer(d *Term, fire func()) *Timer {
	t := &Timer{when: e.c.Add(e.now, d), fire: fire}
	e.timers = append(e.timers, t)
	return t
}

func (e *Exec) sleep(g *Gor, d *Term) {
	// a non-positive sleep returns at once
	if !e.decide(e.c.Slt(e.c.Int(0), d)) {
		return
	}
	e.addTimer(d, func() { e.ready(g) })
	g.parkAfter = gSleep
}

// park numbers the goroutines in the order in which they first park.
func (e *Exec) park(g *Gor) {
	if g.id != 0 && g.pid == 0 {
		e.parked++
		g.pid = e.parked
	}
}
