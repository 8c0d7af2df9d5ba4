package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// resetPath prepares a fresh path.
func (e *Exec) resetPath(prefix []Decision) {
	e.prefix = prefix
	e.dec = make([]Decision, 0, len(prefix)+64)
	e.pc = nil
	e.models = nil
	e.newWork = nil
	e.globals = map[*ssa.Global]*Cell{}
	e.inited = map[*ssa.Package]bool{}
	e.inputs = nil
	e.nfresh = map[string]int{}
	e.gs = nil
	e.cur = nil
	e.woken = nil
	e.now = e.c.Int(0)
	e.timers = nil
	e.trace = nil
	e.delays = 0
	e.mapdev = 0
	e.parked = 0
	e.steps = 0
	e.initing = 0
	e.cands = nil
	e.extra = map[string]interface{}{}
}

// runPath executes one path to its end.
func (e *Exec) runPath(fn *ssa.Function, prefix []Decision) {
	e.resetPath(prefix)
	kind := "ok"
	defer func() {
		if r := recover(); r != nil {
			pe, ok := r.(pathEnd)
			if !ok {
				// an engine error: this path is inconclusive
				kind = "engine-error"
				msg := fmt.Sprint(r)
				if len(msg) > 200 {
					msg = msg[:200]
				}
				if os.Getenv("GOSYM_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, "engine error:", r, e.where(), "\n", string(debug.Stack()))
				}
				e.Incon["engine error: "+msg+e.where()]++
			} else {
				kind = pe.kind
				switch pe.kind {
				case "unsupported":
					e.Incon["unsupported: "+pe.why]++
				case "steps", "unwind":
					e.Incon["bound reached ("+pe.kind+"): "+pe.why]++
					func() {
						defer func() {
							if r := recover(); r != nil {
								e.Incon["no model for a path that reached a bound"]++
							}
						}()
						e.candidate("hang", "does not end within the bounds", nil)
					}()
				case "budget":
					e.Incon["path given up at the time budget"]++
				}
			}
		}
		e.Paths++
		e.EndKinds[kind]++
		e.StepsTotal += e.steps
		if e.steps > e.MaxSteps {
			e.MaxSteps = e.steps
		}
	}()
	e.ensureInit(e.P.main)
	g := &Gor{id: 0, e: e}
	e.gs = append(e.gs, g)
	e.cur = g
	e.pushFrame(g, fn, nil, nil)
	e.cur = nil
	e.schedule()
}

type RunStats struct {
	Harness    string
	Paths      int
	EndKinds   map[string]int
	Incon      map[string]int
	Reached    map[string]int
	Asserts    int
	AssertsQ   int
	Choices    int
	Queries    int
	Sat, Unsat int
	Unknown    int
	SolverTime time.Duration
	Wall       time.Duration
	Complete   bool
	Funcs      map[string]int
	BlocksCov  int
	Steps      int
	MaxSteps   int
	Cands      []*Candidate
	Pending    int
	CrossOK    int
	CrossUnk   int
}

// Explore runs all paths of a harness with nw workers. onCand is called for
// every new candidate; when it returns true exploration stops.
func Explore(P *Program, cfg Config, harness string, nw int, budget time.Duration, onCand func(*Candidate) bool) *RunStats {
	st := &RunStats{Harness: harness, EndKinds: map[string]int{}, Incon: map[string]int{}, Reached: map[string]int{}, Funcs: map[string]int{}}
	t0 := time.Now()
	fn := P.main.Func(harness)
	if fn == nil {
		st.Incon["harness not found: "+harness]++
		return st
	}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	work := [][]Decision{nil}
	active := 0
	stopped := false
	deadline := t0.Add(budget)
	cfg.Deadline = deadline
	cov := map[*ssa.BasicBlock]bool{}
	merge := func(e *Exec) {
		st.Paths += e.Paths
		for k, v := range e.EndKinds {
			st.EndKinds[k] += v
		}
		for k, v := range e.Incon {
			st.Incon[k] += v
		}
		for k, v := range e.Reached {
			st.Reached[k] += v
		}
		for f, n := range e.Funcs {
			st.Funcs[f.String()] += n
		}
		for b := range e.Covered {
			cov[b] = true
		}
		st.Asserts += e.Asserts
		st.AssertsQ += e.AssertsQ
		st.Choices += e.Choices
		st.Steps += e.StepsTotal
		if e.MaxSteps > st.MaxSteps {
			st.MaxSteps = e.MaxSteps
		}
		st.Queries += e.sol.Queries
		st.CrossOK += e.CrossOK
		st.CrossUnk += e.CrossUnk
		st.Sat += e.sol.NSat
		st.Unsat += e.sol.NUnsat
		st.Unknown += e.sol.NUnk
		st.SolverTime += e.sol.Time
		if l := e.sol.lia; l != nil {
			st.Queries += l.Queries
			st.Sat += l.NSat
			st.Unsat += l.NUnsat
			st.Unknown += l.NUnk
			st.SolverTime += l.Time
			e.sol.NBadModel += l.NBadModel
		}
		if e.sol.NBadModel > 0 {
			st.Incon["model does not satisfy its own query (engine self-check)"] += e.sol.NBadModel
		}
	}
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e := NewExec(P, cfg, harness)
			defer func() { e.close() }()
			for {
				mu.Lock()
				for len(work) == 0 && active > 0 && !stopped {
					cond.Wait()
				}
				if stopped || len(work) == 0 {
					merge(e)
					mu.Unlock()
					cond.Broadcast()
					return
				}
				if time.Now().After(deadline) {
					stopped = true
					st.Pending = len(work)
					st.Incon[fmt.Sprintf("time budget of %v reached", budget)]++
					merge(e)
					mu.Unlock()
					cond.Broadcast()
					return
				}
				p := work[len(work)-1]
				work = work[:len(work)-1]
				active++
				mu.Unlock()

				if len(e.c.tab) > 1500000 {
					e.close()
					o := e
					e = NewExec(P, cfg, harness)
					mu.Lock()
					merge(o)
					mu.Unlock()
				}
				e.runPath(fn, p)
				nw, cs := e.newWork, e.cands

				mu.Lock()
				work = append(work, nw...)
				st.Cands = append(st.Cands, cs...)
				mu.Unlock()
				stop := false
				for _, c := range cs {
					if onCand != nil && onCand(c) {
						stop = true
					}
				}
				mu.Lock()
				active--
				if stop {
					stopped = true
				}
				mu.Unlock()
				cond.Broadcast()
			}
		}()
	}
	wg.Wait()
	st.Wall = time.Since(t0)
	st.BlocksCov = len(cov)
	st.Complete = !stopped && len(work) == 0
	return st
}
