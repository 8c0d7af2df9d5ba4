package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// ---- control-flow signals (Go panics inside the engine)

type pathEnd struct {
	kind string // "ok", "assume", "unsupported", "steps", "candidate", "unwind"
	why  string
}
type goPanic struct{ v Value } // a Go-level panic raised by the current instruction
type blockSig struct{}         // current instruction blocks

// ---- decisions

type Decision struct {
	K byte // 'b' free branch, 'f' forced branch, 'c' choice, 'v' concretised value, 'a' assertion
	V uint64
}

type Input struct {
	Name string
	Kind string // int,bytes,choice
	T    *Term
	UF   string
	N    *Term
	V    uint64
}

type Config struct {
	StepLimit   int
	DepthLimit  int
	UnwindLimit int
	DelayBound  int
	SolverArgv  []string
	TimeoutMs   int
	AltArgv     []string
	Cross       bool
	LIA         bool
	Params      map[string]int
	MaxCands    int
	Deadline    time.Time
}

type Candidate struct {
	Harness string
	Kind    string // assert, panic, hang, deadlock, fatal
	Msg     string
	Where   string
	Inputs  []InputVal
	Trace   []int
	Stack   string
}

type InputVal struct {
	Name  string            `json:"name"`
	Kind  string            `json:"kind"`
	V     uint64            `json:"v"`
	Bytes map[string]uint64 `json:"bytes,omitempty"`
}

type Exec struct {
	P       *Program
	c       *TermCtx
	sol     *Solver
	cfg     Config
	harness string

	// per path
	prefix  []Decision
	dec     []Decision
	pc      []*Term
	models  []*Model // each satisfies pc
	newWork [][]Decision
	globals map[*ssa.Global]*Cell
	inited  map[*ssa.Package]bool
	inputs  []Input
	nfresh  map[string]int
	gs      []*Gor
	cur     *Gor
	parked  int
	woken   []*Gor
	now     *Term
	timers  []*Timer
	trace   []int
	delays  int
	mapdev  int
	steps   int
	initing int
	cands   []*Candidate
	extra   map[string]interface{}

	// statistics across paths
	Paths      int
	EndKinds   map[string]int
	Incon      map[string]int
	Reached    map[string]int
	Asserts    int
	AssertsQ   int
	Funcs      map[*ssa.Function]int
	StepsTotal int
	MaxSteps   int
	Choices    int
	cross      *Solver
	CrossOK    int
	CrossUnk   int
	Covered    map[*ssa.BasicBlock]bool
	deadline   time.Time
}

// overdue reports that the harness' time budget is used up.
func (e *Exec) overdue() bool { return !e.deadline.IsZero() && time.Now().After(e.deadline) }

func NewExec(p *Program, cfg Config, harness string) *Exec {
	c := NewTermCtx()
	x := &Exec{P: p, c: c, sol: NewSolver(c, cfg.SolverArgv, cfg.TimeoutMs), cfg: cfg, harness: harness,
		EndKinds: map[string]int{}, Incon: map[string]int{}, Reached: map[string]int{}, Funcs: map[*ssa.Function]int{}, Covered: map[*ssa.BasicBlock]bool{}}
	if cfg.AltArgv != nil {
		x.sol.alt = NewSolver(c, cfg.AltArgv, cfg.TimeoutMs)
		if cfg.Cross {
			x.cross = NewSolver(c, cfg.AltArgv, 3000)
		}
	}
	if cfg.LIA {
		x.sol.lia = NewSolver(c, cfg.SolverArgv, cfg.TimeoutMs)
		x.sol.lia.isLIA = true
	}
	x.deadline = cfg.Deadline
	for _, so := range []*Solver{x.sol, x.sol.alt, x.sol.lia, x.cross} {
		if so != nil {
			so.deadline = &x.deadline
		}
	}
	c.entail = x.entailed
	return x
}

func (e *Exec) close() {
	e.sol.Close()
	if e.cross != nil {
		e.cross.Close()
	}
}

func (e *Exec) unsupported(why string) {
	panic(pathEnd{"unsupported", why + e.where()})
}

func (e *Exec) where() string {
	if e.cur == nil || len(e.cur.frames) == 0 {
		return ""
	}
	s := " at"
	for i := len(e.cur.frames) - 1; i >= 0 && i >= len(e.cur.frames)-4; i-- {
		s += " " + e.cur.frames[i].fn.String()
	}
	return s
}

func (e *Exec) stack() string {
	var b strings.Builder
	if e.cur == nil {
		return ""
	}
	for i := len(e.cur.frames) - 1; i >= 0; i-- {
		f := e.cur.frames[i]
		pos := token.NoPos
		if f.pc < len(f.block.Instrs) {
			pos = f.block.Instrs[f.pc].Pos()
		}
		fmt.Fprintf(&b, "  %s %s\n", f.fn.String(), e.P.posStr(pos))
	}
	return b.String()
}

func (e *Exec) rtPanic(msg string) {
	panic(goPanic{Iface{t: e.P.runtimeErr, v: &Str{conc: true, s: "runtime error: " + msg}}})
}

// ---- decisions

func (e *Exec) inPrefix() bool { return len(e.dec) < len(e.prefix) }

func (e *Exec) nextPrefix(k byte) Decision {
	d := e.prefix[len(e.dec)]
	if d.K != k && !(k == 'b' && d.K == 'f') {
		panic(fmt.Sprintf("engine: replay divergence: want %c got %c at %d (%s)%s", k, d.K, len(e.dec), e.harness, e.where()))
	}
	e.dec = append(e.dec, d)
	return d
}

func (e *Exec) fork(d Decision) {
	alt := make([]Decision, len(e.dec)+1)
	copy(alt, e.dec)
	alt[len(e.dec)] = d
	e.newWork = append(e.newWork, alt)
}

func (e *Exec) decide(cond *Term) bool {
	if cond.isConst() {
		return cond.val == 1
	}
	if e.inPrefix() {
		d := e.nextPrefix('b')
		b := d.V == 1
		if d.K == 'b' {
			e.addPC(cond, b)
		}
		return b
	}
	// known from the path condition?
	neg := e.c.Not(cond)
	for _, p := range e.pc {
		if p == cond {
			e.dec = append(e.dec, Decision{'f', 1})
			return true
		}
		if p == neg {
			e.dec = append(e.dec, Decision{'f', 0})
			return false
		}
	}
	rt, rf := e.feasible(cond, neg)
	if rt == Unsat {
		e.dec = append(e.dec, Decision{'f', 0})
		return false
	}
	if rf == Unsat {
		e.dec = append(e.dec, Decision{'f', 1})
		return true
	}
	if rt == Unknown || rf == Unknown {
		e.Incon["solver unknown on a branch (both sides explored)"]++
	}
	e.fork(Decision{'b', 0})
	e.dec = append(e.dec, Decision{'b', 1})
	e.addPC(cond, true)
	return true
}

const maxModels = 6

func (e *Exec) keep(m *Model) {
	if m == nil {
		return
	}
	if len(e.models) >= maxModels {
		copy(e.models, e.models[1:])
		e.models = e.models[:maxModels-1]
	}
	e.models = append(e.models, m)
}

// feasible decides which of cond and neg are consistent with the path
// condition; models found earlier answer one or both without a query.
func (e *Exec) feasible(cond, neg *Term) (Result, Result) {
	st, sf := false, false
	for _, m := range e.models {
		if m.eval(cond) == 1 {
			st = true
		} else {
			sf = true
		}
	}
	rt, rf := Sat, Sat
	if !st {
		var m *Model
		rt, m = e.sol.CheckModel(e.pc, cond)
		e.keep(m)
		if rt == Unsat {
			return Unsat, Sat
		}
	}
	if !sf {
		var m *Model
		rf, m = e.sol.CheckModel(e.pc, neg)
		e.keep(m)
	}
	return rt, rf
}

// entailed reports whether the path condition determines t.
func (e *Exec) entailed(t *Term) int {
	if e.inPrefix() {
		return int(e.nextPrefix('e').V)
	}
	v := 2
	rt, rf := e.feasible(t, e.c.Not(t))
	if rt == Unsat {
		v = 0
	} else if rf == Unsat {
		v = 1
	}
	e.dec = append(e.dec, Decision{'e', uint64(v)})
	return v
}

func (e *Exec) addPC(cond *Term, b bool) {
	if !b {
		cond = e.c.Not(cond)
	}
	k := 0
	for _, m := range e.models {
		if m.eval(cond) == 1 {
			e.models[k] = m
			k++
		}
	}
	e.models = e.models[:k]
	if cond.op == OpAnd {
		for _, a := range cond.args {
			e.pc = append(e.pc, a)
		}
		return
	}
	e.pc = append(e.pc, cond)
}

// choose picks one of n alternatives. The choice is a fresh symbolic variable
// constrained to 0..n-1 (always satisfiable, so no query); each value is one
// branch of the exploration and becomes part of the path condition.
func (e *Exec) choose(n int) int { return e.chooseNamed("choice", n) }

func (e *Exec) chooseNamed(what string, n int) int {
	if n <= 1 {
		return 0
	}
	v := e.c.Var(e.fresh(what), 16)
	k := 0
	if e.inPrefix() {
		k = int(e.nextPrefix('c').V)
	} else {
		for j := n - 1; j >= 1; j-- {
			e.fork(Decision{'c', uint64(j)})
		}
		e.dec = append(e.dec, Decision{'c', 0})
	}
	for _, m := range e.models {
		m.vars[v] = uint64(k)
		delete(m.memo, v)
	}
	e.pc = append(e.pc, e.c.Eq(v, e.c.Const(uint64(k), 16)))
	e.Choices++
	return k
}

const maxConcretize = 64

func (e *Exec) concretize(t *Term, what string) uint64 {
	if t.isConst() {
		return t.val
	}
	for i := 0; ; i++ {
		if i > maxConcretize {
			panic(pathEnd{"unwind", "too many values for " + what + e.where()})
		}
		var v uint64
		if e.inPrefix() {
			v = e.nextPrefix('v').V
		} else {
			m, r := e.sol.Values(e.pc, nil, []*Term{t})
			if r != Sat {
				panic(pathEnd{"unsupported", "cannot concretise " + what + e.where()})
			}
			v = m[t]
			e.dec = append(e.dec, Decision{'v', v})
		}
		if e.decide(e.c.Eq(t, e.c.Const(v, t.w))) {
			return v
		}
	}
}

func (e *Exec) assume(cond *Term) {
	if cond.isTrue() {
		return
	}
	if cond.isFalse() {
		panic(pathEnd{"assume", ""})
	}
	if e.inPrefix() {
		d := e.nextPrefix('a')
		if d.V == 0 {
			e.addPC(cond, true)
		}
		return
	}
	ok := false
	for _, m := range e.models {
		ok = ok || m.eval(cond) == 1
	}
	if !ok {
		r, m := e.sol.CheckModel(e.pc, cond)
		if r == Unsat {
			panic(pathEnd{"assume", ""})
		}
		e.keep(m)
	}
	e.dec = append(e.dec, Decision{'a', 0})
	e.addPC(cond, true)
}

func (e *Exec) assert(cond *Term, msg string) {
	e.Asserts++
	if cond.isTrue() {
		return
	}
	if e.inPrefix() {
		d := e.nextPrefix('a')
		if d.V == 0 {
			e.addPC(cond, true)
		}
		return
	}
	e.AssertsQ++
	r := e.sol.Check(e.pc, e.c.Not(cond))
	if r == Unsat && e.cross != nil {
		switch e.cross.Check(e.pc, e.c.Not(cond)) {
		case Unsat:
			e.CrossOK++
		case Sat:
			r = Unknown
			e.Incon["solvers disagree on assertion: "+msg]++
		default:
			e.CrossUnk++
		}
	}
	if r == Unsat {
		e.dec = append(e.dec, Decision{'a', 1})
		return
	}
	if r == Unknown {
		e.Incon["solver unknown on assertion: "+msg]++
	} else {
		e.candidate("assert", msg, []*Term{e.c.Not(cond)})
	}
	if cond.isFalse() || e.sol.Check(e.pc, cond) == Unsat {
		panic(pathEnd{"candidate", ""})
	}
	e.dec = append(e.dec, Decision{'a', 0})
	e.addPC(cond, true)
}

// candidate extracts a model and records a possible violation.
func (e *Exec) candidate(kind, msg string, extra []*Term) {
	// a model found just before the deadline is still extracted
	if !e.deadline.IsZero() {
		old := e.deadline
		if g := time.Now().Add(20 * time.Second); g.After(old) {
			e.deadline = g
		}
		defer func() { e.deadline = old }()
	}
	cd := &Candidate{Harness: e.harness, Kind: kind, Msg: msg, Stack: e.stack(), Trace: append([]int(nil), e.trace...)}
	var ts []*Term
	seen := map[*Term]bool{}
	add := func(t *Term) {
		if t != nil && !seen[t] {
			seen[t] = true
			ts = append(ts, t)
		}
	}
	ufs := map[string]bool{}
	var lens []*Term
	for _, in := range e.inputs {
		add(in.T)
		add(in.N)
		if in.UF != "" {
			ufs[in.UF] = true
		}
		if in.Kind == "len" {
			lens = append(lens, in.T)
		}
	}
	// UF applications reachable from the constraint set
	vis := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if vis[t] {
			return
		}
		vis[t] = true
		if t.op == OpUF && ufs[t.name] {
			add(t)
			add(t.args[0])
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range e.pc {
		walk(t)
	}
	for _, t := range extra {
		walk(t)
	}
	var m map[*Term]uint64
	r := Unknown
	for _, lim := range []uint64{8, 32, 300, 5000, 0} {
		ex := append([]*Term(nil), extra...)
		if lim > 0 {
			for _, l := range lens {
				ex = append(ex, e.c.Ule(l, e.c.Const(lim, l.w)))
			}
		}
		m, r = e.sol.Values(e.pc, ex, ts)
		if r == Sat {
			break
		}
	}
	if r != Sat {
		if r == Unknown {
			e.Incon["solver unknown while extracting a counterexample: "+msg]++
		}
		return
	}
	for _, in := range e.inputs {
		iv := InputVal{Name: in.Name, Kind: in.Kind, V: in.V}
		if in.T != nil {
			iv.V = m[in.T]
		}
		if in.UF != "" {
			iv.V = m[in.N]
			iv.Bytes = map[string]uint64{}
			for _, t := range ts {
				if t.op == OpUF && t.name == in.UF {
					i := m[t.args[0]]
					if i < iv.V {
						iv.Bytes[fmt.Sprint(i)] = m[t]
					}
				}
			}
		}
		cd.Inputs = append(cd.Inputs, iv)
	}
	e.cands = append(e.cands, cd)
}

// ---- frames

type PanicInfo struct {
	v         Value
	recovered bool
	rt        string
}

type deferred struct {
	fn   Value
	args []Value
	inst ssa.CallInstruction
}

type Frame struct {
	fn       *ssa.Function
	info     *fnInfo
	locals   []Value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	pc       int
	defers   []deferred
	isDefer  bool // called by the caller's defer processing
	panicing *PanicInfo
	retTo    ssa.Value // value in the caller's frame that receives the result (nil: discard)
	onRet    func(Value)
	decCount map[ssa.Instruction]int
	noAdv    bool // on return, do not advance the caller's pc (defer processing)
}

type fnInfo struct {
	idx map[ssa.Value]int
	n   int
}

var fnInfoCache sync.Map

func infoOf(fn *ssa.Function) *fnInfo {
	if v, ok := fnInfoCache.Load(fn); ok {
		return v.(*fnInfo)
	}
	in := &fnInfo{idx: map[ssa.Value]int{}}
	add := func(v ssa.Value) { in.idx[v] = in.n; in.n++ }
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				add(v)
			}
		}
	}
	v, _ := fnInfoCache.LoadOrStore(fn, in)
	return v.(*fnInfo)
}

func (f *Frame) set(v ssa.Value, x Value) {
	f.locals[f.info.idx[v]] = x
}

func (e *Exec) get(f *Frame, v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Const:
		return e.constVal(x)
	case *ssa.Global:
		return Ptr{cell: e.global(x)}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return x
	}
	i, ok := f.info.idx[v]
	if !ok {
		panic("engine: no local for " + v.Name() + " in " + f.fn.String())
	}
	r := f.locals[i]
	if r == nil {
		panic("engine: unset local " + v.Name() + " in " + f.fn.String())
	}
	if po, ok := r.(Poison); ok && e.initing == 0 {
		e.unsupported("poison " + po.why)
	}
	return r
}

func (e *Exec) constVal(k *ssa.Const) Value {
	if k.Value == nil {
		return e.zero(k.Type())
	}
	t := k.Type().Underlying()
	b, ok := t.(*types.Basic)
	if !ok {
		e.unsupported("constant of type " + k.Type().String())
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return e.c.Bool(constant.BoolVal(k.Value))
	case b.Info()&types.IsInteger != 0:
		w := intWidth(b)
		v := constant.ToInt(k.Value)
		if i, ok := constant.Int64Val(v); ok {
			return e.c.Const(uint64(i), w)
		}
		u, _ := constant.Uint64Val(v)
		return e.c.Const(u, w)
	case b.Info()&types.IsString != 0:
		return &Str{conc: true, s: constant.StringVal(k.Value)}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(k.Value)
		return FVal{conc: true, f: f}
	}
	e.unsupported("constant " + k.String())
	return nil
}

func (e *Exec) global(g *ssa.Global) *Cell {
	if c, ok := e.globals[g]; ok {
		return c
	}
	e.ensureInit(g.Pkg)
	if c, ok := e.globals[g]; ok {
		return c
	}
	c := &Cell{e.zero(g.Type().(*types.Pointer).Elem())}
	e.globals[g] = c
	return c
}

// ensureInit runs the initialiser of pkg (tolerating code the engine cannot run).
func (e *Exec) ensureInit(pkg *ssa.Package) {
	if pkg == nil || e.inited[pkg] {
		return
	}
	e.inited[pkg] = true
	for _, m := range pkg.Members {
		if g, ok := m.(*ssa.Global); ok {
			if _, ok := e.globals[g]; !ok {
				e.globals[g] = &Cell{e.zero(g.Type().(*types.Pointer).Elem())}
			}
		}
	}
	path := pkg.Pkg.Path()
	if path == "runtime" || strings.HasPrefix(path, "internal/") || path == "reflect" || path == "syscall" || path == "os" || path == "net" || path == "math/big" || path == "unicode" {
		// not initialised: every global is poison
		for _, m := range pkg.Members {
			if g, ok := m.(*ssa.Global); ok {
				e.globals[g].v = Poison{g.String()}
			}
		}
		return
	}
	init := pkg.Func("init")
	if init == nil {
		return
	}
	e.P.build(pkg)
	if init.Blocks == nil {
		return
	}
	saveG, saveCur := e.gs, e.cur
	g := &Gor{id: -1, e: e}
	e.cur = g
	e.initing++
	e.pushFrame(g, init, nil, nil)
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case pathEnd:
					if x.kind != "unsupported" {
						panic(r)
					}
					e.extra["initfail:"+path] = x.why
				default:
					panic(r)
				}
			}
		}()
		e.runGor(g)
	}()
	e.initing--
	e.gs, e.cur = saveG, saveCur
}

func (e *Exec) pushFrame(g *Gor, fn *ssa.Function, args []Value, bind []Value) *Frame {
	e.P.buildFn(fn)
	if fn.Blocks == nil {
		e.unsupported("call of function without body " + fn.String())
	}
	if len(g.frames) > e.cfg.DepthLimit {
		e.candidate("hang", "call depth limit exceeded (unbounded recursion?) in "+fn.String(), nil)
		panic(pathEnd{"steps", "call depth" + e.where()})
	}
	info := infoOf(fn)
	f := &Frame{fn: fn, info: info, locals: make([]Value, info.n), block: fn.Blocks[0]}
	for i, p := range fn.Params {
		f.set(p, e.copyVal(args[i]))
	}
	for i, p := range fn.FreeVars {
		f.set(p, bind[i])
	}
	g.frames = append(g.frames, f)
	if e.initing == 0 {
		e.Funcs[fn]++
		e.Covered[f.block] = true
	}
	return f
}

// ---- running

// runGor executes g until it parks (yield, block, sleep, done).
func (e *Exec) runGor(g *Gor) {
	save := e.cur
	e.cur = g
	g.state = gRunning
	for g.state == gRunning {
		if len(g.frames) == 0 {
			g.state = gDone
			break
		}
		e.stepSafe(g)
	}
	e.cur = save
}

func (e *Exec) stepSafe(g *Gor) {
	defer func() {
		if r := recover(); r != nil {
			if p, ok := r.(goPanic); ok {
				e.raise(g, p.v)
				return
			}
			if _, ok := r.(blockSig); ok {
				return
			}
			if pe, ok := r.(pathEnd); ok && pe.kind == "unsupported" && e.initing > 0 && g.id == -1 {
				// poison the result and go on
				f := g.frames[len(g.frames)-1]
				in := f.block.Instrs[f.pc]
				switch in.(type) {
				case *ssa.If, *ssa.Jump, *ssa.Return, *ssa.RunDefers:
					panic(r)
				}
				if v, ok := in.(ssa.Value); ok {
					f.set(v, Poison{"init " + f.fn.Pkg.Pkg.Path() + ": " + pe.why})
				}
				if st, ok := in.(*ssa.Store); ok {
					if gl, ok := st.Addr.(*ssa.Global); ok {
						e.globals[gl].v = Poison{gl.String()}
					}
				}
				f.pc++
				return
			}
			panic(r)
		}
	}()
	for g.state == gRunning && len(g.frames) > 0 {
		e.steps++
		if e.steps&0xfff == 0 && e.overdue() {
			panic(pathEnd{"budget", ""})
		}
		if e.steps > e.cfg.StepLimit {
			e.candidate("hang", "step limit exceeded (endless loop?)", nil)
			panic(pathEnd{"steps", e.where()})
		}
		f := g.frames[len(g.frames)-1]
		if f.panicing != nil {
			e.unwind(g, f)
			continue
		}
		e.instr(g, f, f.block.Instrs[f.pc])
	}
}

// raise starts a Go panic in the top frame of g.
func (e *Exec) raise(g *Gor, v Value) {
	if len(g.frames) == 0 {
		e.uncaught(v)
	}
	f := g.frames[len(g.frames)-1]
	f.panicing = &PanicInfo{v: v, rt: e.stack()}
}

func (e *Exec) uncaught(v Value) {
	if e.initing > 0 {
		panic(pathEnd{"unsupported", "panic in package init: " + e.panicText(v)})
	}
	e.candidate("panic", "uncaught panic: "+e.panicText(v), nil)
	panic(pathEnd{"candidate", ""})
}

func (e *Exec) panicText(v Value) string {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		return "nil"
	}
	if s, ok := i.v.(*Str); ok && s.conc {
		return s.s
	}
	return i.t.String()
}

func (e *Exec) unwind(g *Gor, f *Frame) {
	if f.panicing.recovered {
		f.panicing = nil
		// remaining defers run during the recover block / on return
		if f.fn.Recover != nil {
			f.prev, f.block, f.pc = f.block, f.fn.Recover, 0
			return
		}
		if len(f.defers) > 0 {
			f.panicing = &PanicInfo{recovered: true}
			e.runDefer(g, f)
			return
		}
		e.ret(g, f, e.zero(f.fn.Signature.Results()))
		return
	}
	if len(f.defers) > 0 {
		e.runDefer(g, f)
		return
	}
	p := f.panicing
	g.frames = g.frames[:len(g.frames)-1]
	if len(g.frames) == 0 {
		e.uncaughtAt(p)
	}
	// propagates to the caller (replacing a panic in progress there)
	g.frames[len(g.frames)-1].panicing = p
}

func (e *Exec) uncaughtAt(p *PanicInfo) {
	if e.initing > 0 {
		panic(pathEnd{"unsupported", "panic in package init: " + e.panicText(p.v)})
	}
	n := len(e.cands)
	e.candidate("panic", "uncaught panic: "+e.panicText(p.v), nil)
	if len(e.cands) > n {
		e.cands[n].Stack = p.rt
	}
	panic(pathEnd{"candidate", ""})
}

func (e *Exec) runDefer(g *Gor, f *Frame) {
	d := f.defers[len(f.defers)-1]
	f.defers = f.defers[:len(f.defers)-1]
	nf := len(g.frames)
	e.call(g, f, d.fn, d.args, nil, d.inst)
	if len(g.frames) > nf {
		nfm := g.frames[len(g.frames)-1]
		nfm.isDefer = true
		nfm.noAdv = true
	} else {
		// completed as an intrinsic: undo the pc advance
		f.pc--
	}
}

// ret returns v from frame f.
func (e *Exec) ret(g *Gor, f *Frame, v Value) {
	g.frames = g.frames[:len(g.frames)-1]
	if f.onRet != nil {
		f.onRet(v)
	}
	if len(g.frames) == 0 {
		return
	}
	cf := g.frames[len(g.frames)-1]
	if f.retTo != nil {
		cf.set(f.retTo, v)
	}
	if !f.noAdv {
		cf.pc++
	}
}

func (e *Exec) jump(f *Frame, b *ssa.BasicBlock) {
	f.prev, f.block, f.pc = f.block, b, 0
	if e.initing == 0 {
		e.Covered[b] = true
	}
	// phis are evaluated in parallel
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range b.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range b.Preds {
			if pr == f.prev {
				vals = append(vals, e.get(f, p.Edges[i]))
				break
			}
		}
		phis = append(phis, p)
	}
	for i, p := range phis {
		f.set(p, vals[i])
	}
	f.pc = len(phis)
}

func (e *Exec) instr(g *Gor, f *Frame, in ssa.Instruction) {
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		f.set(x, Ptr{cell: &Cell{e.zero(t)}})
	case *ssa.BinOp:
		f.set(x, e.binop(x.Op, x.X.Type(), e.get(f, x.X), e.get(f, x.Y), x.Y.Type()))
	case *ssa.UnOp:
		if x.Op == token.ARROW {
			v, ok := e.chanRecv(g, e.get(f, x.X).(*Chan), x.X.Type(), x)
			if x.CommaOk {
				f.set(x, Tuple{v, e.c.Bool(ok)})
			} else {
				f.set(x, v)
			}
		} else {
			f.set(x, e.unop(x, e.get(f, x.X)))
		}
	case *ssa.Call:
		fnv, args := e.callArgs(f, &x.Call)
		e.call(g, f, fnv, args, x, x)
		return // call advances pc
	case *ssa.Defer:
		fnv, args := e.callArgs(f, &x.Call)
		f.defers = append(f.defers, deferred{fnv, args, x})
	case *ssa.Go:
		fnv, args := e.callArgs(f, &x.Call)
		e.spawn(fnv, args)
	case *ssa.RunDefers:
		if len(f.defers) > 0 {
			e.runDefer(g, f)
			return
		}
	case *ssa.ChangeInterface:
		f.set(x, e.get(f, x.X))
	case *ssa.ChangeType:
		f.set(x, e.get(f, x.X))
	case *ssa.Convert:
		v := e.get(f, x.X)
		if m, arg := e.runeModel(x.X.Type(), x.Type(), v); m != nil {
			e.pushFrame(g, m, []Value{arg}, nil).retTo = x
			return
		}
		f.set(x, e.convert(x.X.Type(), x.Type(), v))
	case *ssa.MultiConvert:
		f.set(x, e.convert(x.X.Type(), x.Type(), e.get(f, x.X)))
	case *ssa.MakeInterface:
		f.set(x, Iface{t: x.X.Type(), v: e.copyVal(e.get(f, x.X))})
	case *ssa.Extract:
		f.set(x, e.get(f, x.Tuple).(Tuple)[x.Index])
	case *ssa.Field:
		f.set(x, e.copyVal(e.get(f, x.X).(*Struct).f[x.Field].v))
	case *ssa.FieldAddr:
		p := e.get(f, x.X).(Ptr)
		if p.isNil() {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		if p.cell == nil {
			e.unsupported("field of array element pointer")
		}
		s, ok := p.cell.v.(*Struct)
		if !ok {
			e.unsupported(fmt.Sprintf("field address in %T", p.cell.v))
		}
		f.set(x, Ptr{cell: s.f[x.Field]})
	case *ssa.IndexAddr:
		f.set(x, e.indexAddr(e.get(f, x.X), e.idx(f, x.Index)))
	case *ssa.Index:
		f.set(x, e.indexVal(e.get(f, x.X), e.idx(f, x.Index)))
	case *ssa.Lookup:
		f.set(x, e.lookup(x, e.get(f, x.X), e.get(f, x.Index)))
	case *ssa.Jump:
		e.jump(f, f.block.Succs[0])
		return
	case *ssa.If:
		cond := e.get(f, x.Cond).(*Term)
		if !cond.isConst() {
			n := len(e.dec)
			b := e.decide(cond)
			if len(e.dec) > n && e.dec[n].K == 'b' {
				if f.decCount == nil {
					f.decCount = map[ssa.Instruction]int{}
				}
				f.decCount[x]++
				if f.decCount[x] > e.cfg.UnwindLimit {
					panic(pathEnd{"unwind", "loop bound" + e.where()})
				}
			}
			if b {
				e.jump(f, f.block.Succs[0])
			} else {
				e.jump(f, f.block.Succs[1])
			}
			return
		}
		if cond.val == 1 {
			e.jump(f, f.block.Succs[0])
		} else {
			e.jump(f, f.block.Succs[1])
		}
		return
	case *ssa.MakeChan:
		sz := e.toInt(e.get(f, x.Size), x.Size.Type())
		if e.decide(e.c.Slt(sz, e.c.Int(0))) {
			e.rtPanic("makechan: size out of range")
		}
		n := e.concretizeCap(sz)
		f.set(x, &Chan{cap: n, elem: x.Type().Underlying().(*types.Chan).Elem(), id: e.fresh("chan")})
	case *ssa.MakeClosure:
		var b []Value
		for _, v := range x.Bindings {
			b = append(b, e.get(f, v))
		}
		f.set(x, &Closure{fn: x.Fn.(*ssa.Function), bind: b})
	case *ssa.MakeMap:
		f.set(x, &Map{})
	case *ssa.MakeSlice:
		n := e.toInt(e.get(f, x.Len), x.Len.Type())
		cp := e.toInt(e.get(f, x.Cap), x.Cap.Type())
		// negative or absurd sizes panic
		lim := e.c.Int(1 << 46)
		if !e.decide(e.c.And(e.c.Ule(n, cp), e.c.Ule(cp, lim))) {
			e.rtPanic("makeslice: len out of range")
		}
		el := x.Type().Underlying().(*types.Slice).Elem()
		f.set(x, Slice{arr: e.newArr(el, cp), off: e.c.Int(0), n: n, cap: cp})
	case *ssa.MapUpdate:
		m := e.get(f, x.Map).(*Map)
		if m == nil {
			panic(goPanic{Iface{t: e.P.runtimeErr, v: &Str{conc: true, s: "assignment to entry in nil map"}}})
		}
		e.mapSet(m, e.get(f, x.Key), e.copyVal(e.get(f, x.Value)))
	case *ssa.Next:
		it := e.get(f, x.Iter).(*MapIter)
		if it.str != nil {
			e.pushFrame(g, e.P.main.Func("zzModelNextRune"), []Value{it.str, Ptr{cell: it.posCell}}, nil).retTo = x
			return
		}
		f.set(x, e.next(x, it))
	case *ssa.Range:
		switch v := e.get(f, x.X).(type) {
		case *Map:
			f.set(x, &MapIter{m: v, done: map[*MapEntry]bool{}})
		case *Str:
			v = e.normStr(v)
			if !v.conc {
				f.set(x, &MapIter{isStr: true, str: v, posCell: &Cell{e.c.Int(0)}})
			} else {
				f.set(x, &MapIter{isStr: true, s: v.s})
			}
		default:
			e.unsupported(fmt.Sprintf("range over %T", v))
		}
	case *ssa.Panic:
		v := e.get(f, x.X)
		panic(goPanic{v})
	case *ssa.Return:
		var v Value
		switch len(x.Results) {
		case 0:
			v = Tuple{}
		case 1:
			v = e.get(f, x.Results[0])
		default:
			t := make(Tuple, len(x.Results))
			for i, r := range x.Results {
				t[i] = e.get(f, r)
			}
			v = t
		}
		e.ret(g, f, v)
		return
	case *ssa.Select:
		e.doSelect(g, f, x)
		if g.state != gRunning {
			return
		}
	case *ssa.Send:
		e.chanSend(g, e.get(f, x.Chan).(*Chan), e.copyVal(e.get(f, x.X)))
	case *ssa.Slice:
		f.set(x, e.slice(f, x))
	case *ssa.SliceToArrayPointer:
		sl := e.get(f, x.X).(Slice)
		at := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if !e.decide(e.c.Ule(e.c.Int(at.Len()), sl.n)) {
			e.rtPanic("cannot convert slice to array pointer")
		}
		if sl.arr != nil && sl.off.isConst() && sl.off.val == 0 && sl.arr.n.isConst() && sl.arr.n.val == uint64(at.Len()) {
			f.set(x, Ptr{cell: &Cell{sl.arr}})
		} else {
			e.unsupported("slice to array pointer")
		}
	case *ssa.Store:
		e.store(e.get(f, x.Addr).(Ptr), e.get(f, x.Val))
	case *ssa.TypeAssert:
		f.set(x, e.typeAssert(x, e.get(f, x.X).(Iface)))
	default:
		e.unsupported(fmt.Sprintf("instruction %T", in))
	}
	f.pc++
}

func (e *Exec) concretizeCap(t *Term) int {
	return int(e.concretize(t, "channel capacity"))
}

func (e *Exec) fresh(name string) string {
	e.nfresh[name]++
	return fmt.Sprintf("%s!%d", name, e.nfresh[name])
}

func (e *Exec) toInt(v Value, t types.Type) *Term {
	x := v.(*Term)
	if isSigned(t) {
		return e.c.Sext(x, 64)
	}
	return e.c.Zext(x, 64)
}

func (e *Exec) idx(f *Frame, v ssa.Value) *Term {
	return e.toInt(e.get(f, v), v.Type())
}

func (e *Exec) boundsCheck(i, n *Term) {
	if !e.decide(e.c.Ult(i, n)) {
		e.rtPanic("index out of range")
	}
}

func (e *Exec) cellAt(a *Arr, i *Term) *Cell {
	if i.isConst() {
		return a.cells[i.val]
	}
	for k := range a.cells {
		if e.decide(e.c.Eq(i, e.c.Int(int64(k)))) {
			return a.cells[k]
		}
	}
	panic(pathEnd{"assume", ""})
}

func (e *Exec) indexAddr(x Value, i *Term) Value {
	switch v := x.(type) {
	case Slice:
		e.boundsCheck(i, v.n)
		j := e.c.Add(v.off, i)
		if v.arr.scalar {
			return Ptr{arr: v.arr, idx: j}
		}
		return Ptr{cell: e.cellAt(v.arr, j)}
	case Ptr:
		if v.isNil() {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		a, ok := v.cell.v.(*Arr)
		if !ok {
			e.unsupported("index of non-array")
		}
		e.boundsCheck(i, a.n)
		if a.scalar {
			return Ptr{arr: a, idx: i}
		}
		return Ptr{cell: e.cellAt(a, i)}
	}
	e.unsupported(fmt.Sprintf("index address of %T", x))
	return nil
}

func (e *Exec) indexVal(x Value, i *Term) Value {
	switch v := x.(type) {
	case *Arr:
		e.boundsCheck(i, v.n)
		if v.scalar {
			return e.c.aread(v.node, i)
		}
		return e.copyVal(e.cellAt(v, i).v)
	case *Str:
		return e.strIndex(v, i)
	}
	e.unsupported(fmt.Sprintf("index of %T", x))
	return nil
}

func (e *Exec) strIndex(s *Str, i *Term) Value {
	e.boundsCheck(i, e.strLen(s))
	if s.conc && i.isConst() {
		return e.c.Const(uint64(s.s[i.val]), 8)
	}
	n, o := e.strNode(s)
	return e.c.aread(n, e.c.Add(o, i))
}

func (e *Exec) mapFind(m *Map, k Value) *MapEntry {
	if m == nil {
		return nil
	}
	for _, en := range m.ents {
		if en.dead {
			continue
		}
		if e.decide(e.eq(en.k, k)) {
			return en
		}
	}
	return nil
}

func (e *Exec) mapSet(m *Map, k, v Value) {
	if i, ok := k.(Iface); ok && i.t != nil && !types.Comparable(i.t) {
		e.rtPanic("hash of unhashable type " + i.t.String())
	}
	if en := e.mapFind(m, k); en != nil {
		en.v = v
		return
	}
	m.ents = append(m.ents, &MapEntry{k: e.copyVal(k), v: v})
	m.live++
}

func (e *Exec) mapDelete(m *Map, k Value) {
	if en := e.mapFind(m, k); en != nil {
		en.dead = true
		m.live--
		for i, x := range m.ents {
			if x == en {
				m.ents = append(append([]*MapEntry(nil), m.ents[:i]...), m.ents[i+1:]...)
				break
			}
		}
	}
}

func (e *Exec) lookup(x *ssa.Lookup, c, k Value) Value {
	switch v := c.(type) {
	case *Str:
		return e.strIndex(v, e.toInt(k, x.Index.Type()))
	case *Map:
		en := e.mapFind(v, k)
		vt := x.X.Type().Underlying().(*types.Map).Elem()
		var r Value
		if en != nil {
			r = e.copyVal(en.v)
		} else {
			r = e.zero(vt)
		}
		if x.CommaOk {
			return Tuple{r, e.c.Bool(en != nil)}
		}
		return r
	}
	e.unsupported(fmt.Sprintf("lookup in %T", c))
	return nil
}

func (e *Exec) next(x *ssa.Next, it *MapIter) Value {
	if it.isStr {
		if it.pos >= len(it.s) {
			return Tuple{e.c.False, e.c.Int(0), e.c.Const(0, 32)}
		}
		var r rune
		w := 1
		for i, rr := range it.s[it.pos:] {
			if i == 0 {
				r = rr
			} else {
				w = i
				goto done
			}
		}
		w = len(it.s) - it.pos
	done:
		p := it.pos
		it.pos += w
		return Tuple{e.c.True, e.c.Int(int64(p)), e.c.Const(uint64(uint32(r)), 32)}
	}
	tt := x.Type().(*types.Tuple)
	zk, zv := Value(e.c.Int(0)), Value(e.c.Int(0))
	if b, ok := tt.At(1).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zk = e.zero(tt.At(1).Type())
	}
	if b, ok := tt.At(2).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
		zv = e.zero(tt.At(2).Type())
	}
	if it.m == nil {
		return Tuple{e.c.False, zk, zv}
	}
	var cand []*MapEntry
	for _, en := range it.m.ents {
		if !en.dead && !it.done[en] {
			cand = append(cand, en)
		}
	}
	if len(cand) == 0 {
		return Tuple{e.c.False, zk, zv}
	}
	// any order; large maps: insertion order with a bounded number of deviations
	n := len(cand)
	max, few := e.cfg.Params["mapdev"]
	if !few {
		max, few = mapDeviations, len(it.m.ents) > mapFull
	}
	if few && e.mapdev >= max {
		n = 1
	}
	k := e.choose(n)
	if k > 0 && few {
		e.mapdev++
	}
	en := cand[k]
	it.done[en] = true
	return Tuple{e.c.True, e.copyVal(en.k), e.copyVal(en.v)}
}

func (e *Exec) slice(f *Frame, x *ssa.Slice) Value {
	v := e.get(f, x.X)
	opt := func(s ssa.Value, d *Term) *Term {
		if s == nil {
			return d
		}
		return e.idx(f, s)
	}
	c := e.c
	lo := opt(x.Low, c.Int(0))
	switch s := v.(type) {
	case *Str:
		hi := opt(x.High, e.strLen(s))
		if !e.decide(c.And(c.Ule(lo, hi), c.Ule(hi, e.strLen(s)))) {
			e.rtPanic("slice bounds out of range")
		}
		if s.conc && lo.isConst() && hi.isConst() {
			return &Str{conc: true, s: s.s[lo.val:hi.val]}
		}
		n, o := e.strNode(s)
		return &Str{node: n, off: c.Add(o, lo), n: c.Sub(hi, lo)}
	case Slice:
		hi := opt(x.High, s.n)
		max := opt(x.Max, s.cap)
		if !e.decide(c.And(c.Ule(lo, hi), c.Ule(hi, max), c.Ule(max, s.cap))) {
			e.rtPanic("slice bounds out of range")
		}
		return Slice{arr: s.arr, off: c.Add(s.off, lo), n: c.Sub(hi, lo), cap: c.Sub(max, lo)}
	case Ptr:
		if s.isNil() {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		a := s.cell.v.(*Arr)
		hi := opt(x.High, a.n)
		max := opt(x.Max, a.n)
		if !e.decide(c.And(c.Ule(lo, hi), c.Ule(hi, max), c.Ule(max, a.n))) {
			e.rtPanic("slice bounds out of range")
		}
		return Slice{arr: a, off: lo, n: c.Sub(hi, lo), cap: c.Sub(max, lo)}
	}
	e.unsupported(fmt.Sprintf("slice of %T", v))
	return nil
}

// ---- calls

func (e *Exec) callArgs(f *Frame, cc *ssa.CallCommon) (Value, []Value) {
	var args []Value
	var fnv Value
	if cc.IsInvoke() {
		r := e.get(f, cc.Value).(Iface)
		if r.t == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := e.lookupMethod(r, cc.Method)
		fnv = fn
		args = append(args, r.v)
	} else {
		fnv = e.get(f, cc.Value)
	}
	for _, a := range cc.Args {
		args = append(args, e.get(f, a))
	}
	return fnv, args
}

type rtMethod struct{ name string } // method of an engine-modelled dynamic type

func (e *Exec) lookupMethod(r Iface, m *types.Func) Value {
	switch r.v.(type) {
	case RType:
		return rtMethod{"rtype." + m.Name()}
	}
	if r.t == e.P.runtimeErr {
		return rtMethod{"rterr." + m.Name()}
	}
	fn := e.P.method(r.t, m)
	if fn == nil {
		e.unsupported("no method " + m.Name() + " on " + r.t.String())
	}
	return &Closure{fn: fn}
}

// call invokes fnv. It either pushes a frame (result assigned on return) or
// completes immediately; in both cases the caller's pc is advanced exactly once.
func (e *Exec) call(g *Gor, f *Frame, fnv Value, args []Value, res ssa.Value, site ssa.CallInstruction) {
	done := func(v Value) {
		if res != nil {
			if v == nil {
				v = Tuple{}
			}
			f.set(res, v)
		}
		f.pc++
	}
	switch fv := fnv.(type) {
	case *ssa.Builtin:
		done(e.builtin(g, f, fv, args, site))
	case rtMethod:
		done(e.rtCall(fv.name, args))
	case *Closure:
		if fv == nil {
			e.rtPanic("invalid memory address or nil pointer dereference")
		}
		fn := fv.fn
		if r, ok := e.P.replaced(fn); ok {
			fn = r
		} else if in := e.P.intrinsic(fn); in != nil {
			v := in(e, g, fn, args)
			if v == callPushed {
				// the intrinsic pushed a frame itself
				nf := g.frames[len(g.frames)-1]
				nf.retTo = res
				return
			}
			done(v)
			if g.parkAfter != 0 {
				g.state = g.parkAfter
				g.parkAfter = 0
			}
			return
		}
		if e.initing > 0 && fn.Synthetic == "package initializer" {
			done(nil) // other packages are initialised on demand
			return
		}
		nf := e.pushFrame(g, fn, args, fv.bind)
		nf.retTo = res
	default:
		if po, ok := fnv.(Poison); ok {
			e.unsupported("call of poison " + po.why)
		}
		e.unsupported(fmt.Sprintf("call of %T", fnv))
	}
}

type pushedMark struct{}

var callPushed Value = &pushedMark{}

func (e *Exec) builtin(g *Gor, f *Frame, b *ssa.Builtin, args []Value, site ssa.CallInstruction) Value {
	c := e.c
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case Slice:
			return x.n
		case *Str:
			return e.strLen(x)
		case *Map:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(x.live))
		case *Chan:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(len(x.buf)))
		case *Arr:
			return x.n
		case Ptr:
			return x.cell.v.(*Arr).n
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return x.cap
		case *Chan:
			if x == nil {
				return c.Int(0)
			}
			return c.Int(int64(x.cap))
		case *Arr:
			return x.n
		case Ptr:
			return x.cell.v.(*Arr).n
		}
	case "append":
		return e.appendSlice(args[0].(Slice), args[1], site)
	case "copy":
		return e.copySlice(args[0].(Slice), args[1])
	case "delete":
		if m := args[0].(*Map); m != nil {
			e.mapDelete(m, args[1])
		}
		return nil
	case "close":
		e.chanClose(args[0].(*Chan))
		return nil
	case "print", "println":
		return nil
	case "recover":
		// valid when f is a deferred call of a panicking frame
		if f.isDefer && len(g.frames) >= 2 {
			pf := g.frames[len(g.frames)-2]
			if pf.panicing != nil && !pf.panicing.recovered && pf.panicing.v != nil {
				pf.panicing.recovered = true
				return pf.panicing.v
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if args[0].(Ptr).isNil() {
			e.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "min", "max":
		t := site.Common().Args[0].Type()
		r := args[0]
		for _, a := range args[1:] {
			x, ok1 := r.(*Term)
			y, ok2 := a.(*Term)
			if !ok1 || !ok2 {
				e.unsupported("min/max of non-integers")
			}
			var lt *Term
			if isSigned(t) {
				lt = c.Slt(x, y)
			} else {
				lt = c.Ult(x, y)
			}
			if b.Name() == "min" {
				r = c.Ite(lt, x, y)
			} else {
				r = c.Ite(lt, y, x)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for _, en := range x.ents {
					en.dead = true
				}
				x.ents = nil
				x.live = 0
			}
			return nil
		case Slice:
			if x.arr != nil && x.arr.scalar {
				x.arr.node = c.acopy(x.arr.node, x.off, x.n, c.azero(x.arr.w), c.Int(0))
				return nil
			}
		}
	case "String": // unsafe.String(ptr, len)
		p := args[0].(Ptr)
		n := args[1].(*Term)
		if n.isConst() && n.val == 0 {
			return &Str{conc: true}
		}
		if p.arr != nil {
			return e.normStr(&Str{node: p.arr.node, off: p.idx, n: c.Sext(n, 64)})
		}
	case "SliceData":
		s := args[0].(Slice)
		if s.arr == nil {
			return Ptr{}
		}
		if s.arr.scalar {
			return Ptr{arr: s.arr, idx: s.off}
		}
	case "StringData":
		s := args[0].(*Str)
		n, o := e.strNode(s)
		return Ptr{arr: &Arr{elem: types.Typ[types.Uint8], scalar: true, w: 8, n: e.strLen(s), node: n}, idx: o}
	case "Slice": // unsafe.Slice
		p := args[0].(Ptr)
		n := c.Sext(args[1].(*Term), 64)
		if p.arr != nil {
			return Slice{arr: p.arr, off: p.idx, n: n, cap: n}
		}
	}
	e.unsupported("builtin " + b.Name())
	return nil
}

func (e *Exec) appendSlice(s Slice, add Value, site ssa.CallInstruction) Value {
	c := e.c
	var el types.Type
	if s.arr != nil {
		el = s.arr.elem
	} else {
		el = site.Common().Args[0].Type().Underlying().(*types.Slice).Elem()
	}
	var src *ANode
	var srcOff, n *Term
	var cells []*Cell
	_, scalar := isScalar(el)
	switch a := add.(type) {
	case *Str:
		src, srcOff = e.strNode(a)
		n = e.strLen(a)
	case Slice:
		n = a.n
		if a.arr != nil {
			if scalar {
				src, srcOff = a.arr.node, a.off
			} else {
				k := e.concretize(a.n, "append length")
				o := e.concretize(a.off, "append offset")
				cells = a.arr.cells[o : o+k]
				n = c.Int(int64(k))
			}
		}
	}
	if n.isConst() && n.val == 0 {
		return s
	}
	nl := c.Add(s.n, n)
	fits := c.Ule(nl, s.cap)
	if e.decide(fits) {
		if s.arr == nil {
			return s // nothing is appended to a nil slice
		}
		if scalar {
			s.arr.node = c.acopy(s.arr.node, c.Add(s.off, s.n), n, src, srcOff)
			e.flatten(s.arr)
		} else {
			o := e.concretize(c.Add(s.off, s.n), "append position")
			vals := make([]Value, len(cells))
			for i, ce := range cells {
				vals[i] = e.copyVal(ce.v)
			}
			for i := range cells {
				e.assignInto(s.arr.cells[int(o)+i], vals[i])
			}
		}
		return Slice{arr: s.arr, off: s.off, n: nl, cap: s.cap}
	}
	// grow
	ncap := nl
	if nl.isConst() && s.cap.isConst() {
		nc := s.cap.val * 2
		if s.cap.val >= 256 {
			nc = s.cap.val + s.cap.val/4
		}
		if nc < nl.val {
			nc = nl.val
		}
		ncap = c.Int(int64(nc))
	}
	a := e.newArr(el, ncap)
	if scalar {
		if s.arr != nil {
			a.node = c.acopy(a.node, c.Int(0), s.n, s.arr.node, s.off)
		}
		a.node = c.acopy(a.node, s.n, n, src, srcOff)
	} else {
		k := int(e.concretize(s.n, "append length"))
		if k > 0 {
			o := int(e.concretize(s.off, "append offset"))
			for i := 0; i < k; i++ {
				a.cells[i].v = e.copyVal(s.arr.cells[o+i].v)
			}
		}
		for i, ce := range cells {
			a.cells[k+i].v = e.copyVal(ce.v)
		}
	}
	return Slice{arr: a, off: c.Int(0), n: nl, cap: ncap}
}

func (e *Exec) copySlice(d Slice, src Value) Value {
	c := e.c
	var sn *Term
	switch s := src.(type) {
	case *Str:
		sn = e.strLen(s)
	case Slice:
		sn = s.n
	}
	n := c.Ite(c.Ult(d.n, sn), d.n, sn)
	if !n.isConst() && n.op == OpIte {
		// settle which side is shorter: keeps terms small
		if e.decide(c.Ult(d.n, sn)) {
			n = d.n
		} else {
			n = sn
		}
	}
	if n.isConst() && n.val == 0 {
		return n
	}
	if d.arr == nil {
		return c.Int(0)
	}
	if d.arr.scalar {
		var node *ANode
		var off *Term
		switch s := src.(type) {
		case *Str:
			node, off = e.strNode(s)
		case Slice:
			if s.arr == nil {
				return c.Int(0)
			}
			node, off = s.arr.node, s.off
		}
		d.arr.node = c.acopy(d.arr.node, d.off, n, node, off)
		e.flatten(d.arr)
		return n
	}
	s := src.(Slice)
	k := int(e.concretize(n, "copy length"))
	if k == 0 {
		return c.Int(0)
	}
	do, so := int(e.concretize(d.off, "copy offset")), int(e.concretize(s.off, "copy offset"))
	vals := make([]Value, k)
	for i := range vals {
		vals[i] = e.copyVal(s.arr.cells[so+i].v)
	}
	for i := range vals {
		e.assignInto(d.arr.cells[do+i], vals[i])
	}
	return c.Int(int64(k))
}

// ---- operators

func (e *Exec) unop(x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		return e.load(v.(Ptr))
	case token.NOT:
		return e.c.Not(v.(*Term))
	case token.SUB:
		if fv, ok := v.(FVal); ok {
			if fv.conc {
				return FVal{conc: true, f: -fv.f}
			}
			return FVal{num: e.c.Neg(fv.num), den: fv.den}
		}
		return e.c.Neg(v.(*Term))
	case token.XOR:
		return e.c.BvNot(v.(*Term))
	}
	e.unsupported("unary " + x.Op.String())
	return nil
}

func (e *Exec) binop(op token.Token, t types.Type, a, b Value, tb types.Type) Value {
	c := e.c
	switch op {
	case token.EQL:
		return e.eq(a, b)
	case token.NEQ:
		return c.Not(e.eq(a, b))
	}
	switch x := a.(type) {
	case *Term:
		y := b.(*Term)
		if x.w == 0 {
			switch op {
			case token.AND, token.LAND:
				return c.And(x, y)
			case token.OR, token.LOR:
				return c.Or(x, y)
			}
		}
		sg := isSigned(t)
		switch op {
		case token.ADD:
			return c.Add(x, y)
		case token.SUB:
			return c.Sub(x, y)
		case token.MUL:
			return c.Mul(x, y)
		case token.QUO, token.REM:
			if e.decide(c.Eq(y, c.Const(0, y.w))) {
				e.rtPanic("integer divide by zero")
			}
			switch {
			case op == token.QUO && sg:
				return c.Div(OpSdiv, x, y)
			case op == token.QUO:
				return c.Div(OpUdiv, x, y)
			case sg:
				return c.Div(OpSrem, x, y)
			default:
				return c.Div(OpUrem, x, y)
			}
		case token.AND:
			return c.BvAnd(x, y)
		case token.OR:
			return c.BvOr(x, y)
		case token.XOR:
			return c.BvXor(x, y)
		case token.AND_NOT:
			return c.BvAnd(x, c.BvNot(y))
		case token.SHL, token.SHR:
			if isSigned(tb) {
				if e.decide(c.Slt(y, c.Const(0, y.w))) {
					e.rtPanic("negative shift amount")
				}
			}
			if y.w < x.w {
				y = c.Zext(y, x.w)
			} else if y.w > x.w {
				y = c.Ite(c.Ult(y, c.Const(uint64(x.w), y.w)), c.Extract(y, 0, x.w), c.Const(uint64(x.w), x.w))
			}
			if op == token.SHL {
				return c.Shl(x, y)
			}
			if sg {
				return c.Ashr(x, y)
			}
			return c.Lshr(x, y)
		case token.LSS:
			if sg {
				return c.Slt(x, y)
			}
			return c.Ult(x, y)
		case token.LEQ:
			if sg {
				return c.Sle(x, y)
			}
			return c.Ule(x, y)
		case token.GTR:
			if sg {
				return c.Slt(y, x)
			}
			return c.Ult(y, x)
		case token.GEQ:
			if sg {
				return c.Sle(y, x)
			}
			return c.Ule(y, x)
		}
	case *Str:
		y := b.(*Str)
		x, y = e.normStr(x), e.normStr(y)
		switch op {
		case token.ADD:
			if x.conc && y.conc {
				return &Str{conc: true, s: x.s + y.s}
			}
			if x.conc && x.s == "" {
				return y
			}
			if y.conc && y.s == "" {
				return x
			}
			n1, o1 := e.strNode(x)
			n2, o2 := e.strNode(y)
			l1, l2 := e.strLen(x), e.strLen(y)
			nd := c.acopy(c.azero(8), c.Int(0), l1, n1, o1)
			nd = c.acopy(nd, l1, l2, n2, o2)
			return &Str{node: nd, off: c.Int(0), n: c.Add(l1, l2)}
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			if x.conc && y.conc {
				switch op {
				case token.LSS:
					return c.Bool(x.s < y.s)
				case token.LEQ:
					return c.Bool(x.s <= y.s)
				case token.GTR:
					return c.Bool(x.s > y.s)
				default:
					return c.Bool(x.s >= y.s)
				}
			}
		}
	case FVal:
		y := b.(FVal)
		switch op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return e.fcmp(op.String(), x, y)
		}
		return e.farith(op, x, y)
	}
	e.unsupported(fmt.Sprintf("binary %s on %T", op, a))
	return nil
}

// Floating point: concrete values exactly; symbolic ones as an exact ratio
// num/den of an integer term (documented abstraction, used for durations).
func (e *Exec) ratio(x FVal) (*Term, int64, bool) {
	if !x.conc {
		return x.num, x.den, true
	}
	if x.f == math.Trunc(x.f) && math.Abs(x.f) < 1<<52 {
		return e.c.Int(int64(x.f)), 1, true
	}
	return nil, 0, false
}

func (e *Exec) fcmp(op string, x, y FVal) *Term {
	if x.conc && y.conc {
		switch op {
		case "==":
			return e.c.Bool(x.f == y.f)
		case "<":
			return e.c.Bool(x.f < y.f)
		case "<=":
			return e.c.Bool(x.f <= y.f)
		case ">":
			return e.c.Bool(x.f > y.f)
		case ">=":
			return e.c.Bool(x.f >= y.f)
		}
	}
	a, da, ok1 := e.ratio(x)
	b, db, ok2 := e.ratio(y)
	if !ok1 || !ok2 {
		e.unsupported("float comparison")
	}
	l, r := e.c.Mul(a, e.c.Int(db)), e.c.Mul(b, e.c.Int(da))
	switch op {
	case "==":
		return e.c.Eq(l, r)
	case "<":
		return e.c.Slt(l, r)
	case "<=":
		return e.c.Sle(l, r)
	case ">":
		return e.c.Slt(r, l)
	}
	return e.c.Sle(r, l)
}

func (e *Exec) farith(op token.Token, x, y FVal) Value {
	if x.conc && y.conc {
		switch op {
		case token.ADD:
			return FVal{conc: true, f: x.f + y.f}
		case token.SUB:
			return FVal{conc: true, f: x.f - y.f}
		case token.MUL:
			return FVal{conc: true, f: x.f * y.f}
		case token.QUO:
			return FVal{conc: true, f: x.f / y.f}
		}
	}
	a, da, ok1 := e.ratio(x)
	b, db, ok2 := e.ratio(y)
	if !ok1 || !ok2 {
		e.unsupported("float arithmetic")
	}
	switch op {
	case token.ADD, token.SUB:
		if da != db {
			a, b = e.c.Mul(a, e.c.Int(db)), e.c.Mul(b, e.c.Int(da))
			da *= db
		}
		if op == token.ADD {
			return FVal{num: e.c.Add(a, b), den: da}
		}
		return FVal{num: e.c.Sub(a, b), den: da}
	case token.MUL:
		if a.isConst() || b.isConst() {
			return FVal{num: e.c.Mul(a, b), den: da * db}
		}
	case token.QUO:
		if b.isConst() && db == 1 && b.sval() > 0 && b.sval() < 1<<40 {
			return FVal{num: a, den: da * b.sval()}
		}
	}
	e.unsupported("float arithmetic")
	return nil
}

// runeModel returns the model function for conversions between strings and
// runes that are not constant.
func (e *Exec) runeModel(from, to types.Type, v Value) (*ssa.Function, Value) {
	kind := func(t types.Type) types.BasicKind {
		if s, ok := t.Underlying().(*types.Slice); ok {
			t = s.Elem()
		}
		if b, ok := t.Underlying().(*types.Basic); ok {
			return b.Kind()
		}
		return types.Invalid
	}
	switch x := v.(type) {
	case *Str:
		if _, ok := to.Underlying().(*types.Slice); ok && kind(to) == types.Int32 && !e.normStr(x).conc {
			return e.P.main.Func("zzModelRunes"), v
		}
	case Slice:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && kind(from) == types.Int32 {
			return e.P.main.Func("zzModelRunesString"), v
		}
	case *Term:
		if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 && !x.isConst() {
			return e.P.main.Func("zzModelRuneString"), e.convert(from, types.Typ[types.Int64], x)
		}
	}
	return nil, nil
}

func (e *Exec) convert(from, to types.Type, v Value) Value {
	c := e.c
	fu, tu := from.Underlying(), to.Underlying()
	if tp, ok := tu.(*types.Basic); ok && tp.Kind() == types.UnsafePointer {
		return v
	}
	if fb, ok := fu.(*types.Basic); ok && fb.Kind() == types.UnsafePointer {
		return v
	}
	if _, ok := tu.(*types.Pointer); ok {
		return v
	}
	tb, tIsB := tu.(*types.Basic)
	fb, fIsB := fu.(*types.Basic)
	switch {
	case tIsB && fIsB && tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
		x := v.(*Term)
		w := intWidth(tb)
		if w <= x.w {
			return c.Extract(x, 0, w)
		}
		if isSigned(from) {
			return c.Sext(x, w)
		}
		return c.Zext(x, w)
	case tIsB && tb.Info()&types.IsFloat != 0 && fIsB && fb.Info()&types.IsInteger != 0:
		x := v.(*Term)
		if x.isConst() {
			if isSigned(from) {
				return FVal{conc: true, f: float64(x.sval())}
			}
			return FVal{conc: true, f: float64(x.val)}
		}
		return FVal{num: e.toInt(x, from), den: 1}
	case tIsB && tb.Info()&types.IsFloat != 0 && fIsB && fb.Info()&types.IsFloat != 0:
		x := v.(FVal)
		if x.conc && tb.Kind() == types.Float32 {
			return FVal{conc: true, f: float64(float32(x.f))}
		}
		return v
	case tIsB && tb.Info()&types.IsInteger != 0 && fIsB && fb.Info()&types.IsFloat != 0:
		x := v.(FVal)
		w := intWidth(tb)
		if x.conc {
			return c.Const(uint64(int64(x.f)), w)
		}
		r := c.Div(OpSdiv, x.num, c.Int(x.den))
		return c.Extract(r, 0, w)
	case tIsB && tb.Info()&types.IsString != 0:
		switch x := v.(type) {
		case *Str:
			return x
		case Slice:
			el := fu.(*types.Slice).Elem().Underlying().(*types.Basic)
			if x.arr == nil {
				return &Str{conc: true}
			}
			if el.Kind() == types.Uint8 {
				return e.normStr(&Str{node: x.arr.node, off: x.off, n: x.n})
			}
			n := e.concretize(x.n, "rune slice")
			var rs []rune
			for i := uint64(0); i < n; i++ {
				t := c.aread(x.arr.node, c.Add(x.off, c.Int(int64(i))))
				if !t.isConst() {
					e.unsupported("symbolic runes to string")
				}
				rs = append(rs, rune(t.sval()))
			}
			return &Str{conc: true, s: string(rs)}
		case *Term:
			if x.isConst() {
				return &Str{conc: true, s: string(rune(x.sval()))}
			}
		}
	}
	if ts, ok := tu.(*types.Slice); ok {
		if s, ok := v.(*Str); ok {
			el := ts.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				n, o := e.strNode(s)
				l := e.strLen(s)
				a := &Arr{elem: ts.Elem(), scalar: true, w: 8, n: l, node: c.acopy(c.azero(8), c.Int(0), l, n, o)}
				return Slice{arr: a, off: c.Int(0), n: l, cap: l}
			}
			s = e.normStr(s)
			if s.conc {
				rs := []rune(s.s)
				a := e.newArr(ts.Elem(), c.Int(int64(len(rs))))
				for i, r := range rs {
					a.node = c.astore(a.node, c.Int(int64(i)), c.Const(uint64(uint32(r)), 32))
				}
				return Slice{arr: a, off: c.Int(0), n: a.n, cap: a.n}
			}
		}
		if _, ok := v.(Slice); ok {
			return v
		}
	}
	e.unsupported("conversion " + from.String() + " -> " + to.String())
	return nil
}

func (e *Exec) typeAssert(x *ssa.TypeAssert, i Iface) Value {
	ok := false
	if i.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			ok = e.implements(i, it)
		} else {
			ok = types.Identical(i.t, x.AssertedType)
		}
	}
	var v Value
	if ok {
		if types.IsInterface(x.AssertedType) {
			v = i
		} else {
			v = e.copyVal(i.v)
		}
	} else {
		if !x.CommaOk {
			e.rtPanic("interface conversion: interface is not " + x.AssertedType.String())
		}
		v = e.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{v, e.c.Bool(ok)}
	}
	return v
}

func (e *Exec) implements(i Iface, it *types.Interface) bool {
	if i.t == e.P.runtimeErr {
		for k := 0; k < it.NumMethods(); k++ {
			if n := it.Method(k).Name(); n != "Error" && n != "RuntimeError" {
				return false
			}
		}
		return true
	}
	return types.Implements(i.t, it)
}

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
