package main

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type evidence struct {
	prop, tier string
	t0         time.Time
	notes      []string
	unreached  []string
	harnesses  []map[string]interface{}
	funcs      map[string]int
	oblig      int
	disch      int
	violations int
	solverS    float64
	queries    int
	paths      int
	complete   bool
	first      bool
	samples    []interface{}
	byFold     int
}

// reachLabels collects the witness labels a harness declares.
func reachLabels(fn *ssa.Function) []string {
	seen := map[string]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(*ssa.Call); ok {
					if cf := c.Call.StaticCallee(); cf != nil && cf.Name() == "zzReach" && len(c.Call.Args) == 1 {
						if k, ok := c.Call.Args[0].(*ssa.Const); ok && k.Value != nil {
							seen[constant.StringVal(k.Value)] = true
						}
					}
				}
			}
		}
		for _, a := range f.AnonFuncs {
			visit(a)
		}
	}
	visit(fn)
	var r []string
	for k := range seen {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func (ev *evidence) add(h *HSpec, ts *TSpec, cfg Config, P *Program, st *RunStats) {
	if ev.funcs == nil {
		ev.funcs = map[string]int{}
		ev.complete = true
	}
	var enc []string
	for f, n := range st.Funcs {
		if strings.HasPrefix(f, "zz") || strings.Contains(f, "/zz") || strings.Contains(f, ".zz") || strings.Contains(f, ".ZZ") || strings.Contains(f, ".init") {
			continue
		}
		ev.funcs[f] += n
		if strings.Contains(f, P.modPath+".") {
			enc = append(enc, f)
		}
	}
	sort.Strings(enc)
	var un []string
	reached := 0
	if fn := P.main.Func(h.Fn); fn != nil {
		for _, l := range reachLabels(fn) {
			if st.Reached[l] == 0 {
				un = append(un, l)
				ev.unreached = append(ev.unreached, h.Fn+": "+l)
			} else {
				reached++
			}
		}
	}
	m := map[string]interface{}{
		"harness": h.Fn, "what": h.What, "paths": st.Paths, "path_ends": st.EndKinds,
		"assertions_evaluated": st.Asserts, "assertions_decided_by_solver": st.AssertsQ,
		"assertions_constant_after_simplification": st.Asserts - st.AssertsQ,
		"symbolic_choices":                         st.Choices,
		"queries":                                  st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown,
		"solver_s": round2(st.SolverTime.Seconds()), "wall_s": round2(st.Wall.Seconds()),
		"instructions_executed": st.Steps, "basic_blocks_covered": st.BlocksCov,
		"all_paths_explored": st.Complete,
		"bounds": map[string]interface{}{
			"params": ts.Params, "schedule_delays": cfg.DelayBound, "loop_unwinding": cfg.UnwindLimit,
			"call_depth": cfg.DepthLimit, "steps_per_path": cfg.StepLimit, "scheduled": h.Con,
		},
		"reachability_witnesses": st.Reached, "unreached_witnesses": un,
		"assertions_confirmed_by_second_solver": st.CrossOK, "second_solver_no_answer_in_3s": st.CrossUnk,
		"inconclusive": st.Incon, "candidates": len(st.Cands),
	}
	ev.harnesses = append(ev.harnesses, m)
	if len(ev.samples) < 6 && len(enc) > 0 {
		ev.samples = append(ev.samples, map[string]interface{}{"harness": h.Fn, "repo_functions_encoded": enc})
	}
	ev.oblig += st.Asserts + st.EndKinds["ok"]
	ev.disch += st.Asserts + st.EndKinds["ok"]
	ev.queries += st.Queries
	ev.solverS += st.SolverTime.Seconds()
	ev.paths += st.Paths
	if !st.Complete || len(st.Incon) > 0 {
		ev.complete = false
	}
}

func round2(x float64) float64 { return float64(int(x*100)) / 100 }

func (ev *evidence) write(path string) {
	os.MkdirAll(filepath.Dir(path), 0o755)
	var fl []string
	for f := range ev.funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	seed := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	distinct := 0
	for _, h := range ev.harnesses {
		if k, ok := h["path_ends"].(map[string]int); ok {
			distinct += k["ok"]
		}
	}
	cov := map[string]interface{}{
		"evaluations":         ev.paths,
		"distinct_nontrivial": distinct,
		"rule":                "one evaluation = one symbolic path (a distinct set of branch and scheduling decisions) of a harness through the real code's SSA; non-trivial = the path reached the end of the harness with all its assertions decided",
		"samples":             ev.samples,
		"exhaustive":          ev.complete && ev.violations == 0,
		"queries_discharged":  ev.queries,
		"solver_time_s":       round2(ev.solverS),
		"harnesses":           ev.harnesses,
		"functions_encoded":   fl,
		"unreached_witnesses": ev.unreached,
		"notes":               ev.notes,
	}
	out := map[string]interface{}{
		"property": ev.prop, "tier": ev.tier, "seed": seed, "level": "exploration",
		"coverage": cov, "wall_s": round2(time.Since(ev.t0).Seconds()), "violations": ev.violations,
		"assumptions": []string{
			"results hold within the stated bounds only (buffer sizes, number of operations, schedule delays, loop unwinding); see DESIGN.md",
			"fmt/log output has no effect; time is virtual; sync, net and os are replaced by channel-based shims in scheduled harnesses",
			"encoding/json and encoding/gob are replaced by contracts (see harness/models.go)",
			"scheduling points lie between source statements; hardware memory reordering is outside the model",
		},
	}
	b, _ := json.MarshalIndent(out, "", " ")
	os.WriteFile(path, b, 0o644)
}
