package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// HSpec describes one harness.
type HSpec struct {
	Prop   string   `json:"prop"`
	Fn     string   `json:"fn"`
	Files  []string `json:"files"`
	Con    bool     `json:"con"`
	Yields string   `json:"yields"`
	What   string   `json:"what"`
	Retry  int      `json:"retry"`
	Quick  *TSpec   `json:"quick"`
	Thor   *TSpec   `json:"thorough"`
}

type TSpec struct {
	Delay  int            `json:"delay"`
	Budget int            `json:"budget"` // seconds
	Steps  int            `json:"steps"`
	Unwind int            `json:"unwind"`
	Depth  int            `json:"depth"`
	Params map[string]int `json:"params"`
}

func (h *HSpec) allFiles() []string {
	return append([]string{"rt.go", "models.go", "stdmodels.go"}, h.Files...)
}

type Finding struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Harness  string `json:"harness"`
	Msg      string `json:"msg"`   // regexp on the assertion message
	Where    string `json:"where"` // regexp on the stack
	Text     string `json:"text"`
}

var (
	verifDir = "/verif"
	repoDir  = "/repo"
)

func fail(f string, a ...interface{}) {
	fmt.Printf(f+"\n", a...)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "", "quick or thorough")
	only := flag.String("fn", "", "only this harness")
	solver := flag.String("solver", "", "solver: z3 (default) or cvc5")
	verbose := flag.Bool("v", false, "verbose")
	norep := flag.Bool("noreplay", false, "do not replay")
	repo := flag.String("repo", "", "repository (default /repo)")
	budget := flag.Int("budget", 0, "override the time budget per harness (s)")
	delay := flag.Int("delay", -1, "override the delay bound")
	selftest := flag.Bool("selftest", false, "run the repository's own tests through the engine")
	replayF := flag.String("replay", "", "replay a saved counterexample")
	flag.Parse()
	if v := os.Getenv("VERIF_DIR"); v != "" {
		verifDir = v
	}
	if *repo != "" {
		repoDir = *repo
	}
	debug.SetMemoryLimit(20 << 30)
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	scratch, err := os.MkdirTemp("", "gosym")
	if err != nil {
		fmt.Println(err)
		os.Exit(0)
	}
	code := 0
	defer func() {
		os.RemoveAll(scratch)
		if r := recover(); r != nil {
			fmt.Println("engine failure (inconclusive):", r)
			debug.PrintStack()
			code = 0
		}
		os.Exit(code)
	}()
	if *selftest {
		code = runSelftest(scratch)
		return
	}
	if *replayF != "" {
		code = runReplayFile(*replayF, scratch)
		return
	}
	code = runProp(*prop, *tier, *only, *solver, *verbose, *norep, *budget, *delay, scratch)
}

func loadSpecs() ([]*HSpec, error) {
	b, err := os.ReadFile(filepath.Join(verifDir, "harness", "specs.json"))
	if err != nil {
		return nil, err
	}
	var hs []*HSpec
	if err := json.Unmarshal(b, &hs); err != nil {
		return nil, err
	}
	return hs, nil
}

func loadFindings() []*Finding {
	b, err := os.ReadFile(filepath.Join(verifDir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var fs []*Finding
	if err := json.Unmarshal(b, &fs); err != nil {
		fmt.Println("known_findings.json:", err)
	}
	return fs
}

func (f *Finding) matches(h *HSpec, c *Candidate) bool {
	if f.Status != "known" || f.Property != h.Prop {
		return false
	}
	if f.Harness != "" && f.Harness != h.Fn {
		return false
	}
	if f.Msg != "" {
		if ok, _ := regexp.MatchString(f.Msg, c.Msg); !ok {
			return false
		}
	}
	if f.Where != "" {
		if ok, _ := regexp.MatchString(f.Where, c.Stack); !ok {
			return false
		}
	}
	return true
}

func solverArgv(name string) []string {
	switch name {
	case "z3":
		return []string{"z3-new", "-in", "-smt2"}
	case "z3old":
		return []string{"z3", "-in", "-smt2"}
	}
	return []string{"cvc5", "--lang=smt2", "--incremental", "--produce-models"}
}

func tierOf(h *HSpec, tier string) *TSpec {
	if tier == "thorough" && h.Thor != nil {
		return h.Thor
	}
	return h.Quick
}

func runProp(prop, tier, only, solver string, verbose, norep bool, budget, delay int, scratch string) int {
	t0 := time.Now()
	specs, err := loadSpecs()
	if err != nil {
		fmt.Println("inconclusive:", err)
		return 0
	}
	findings := loadFindings()
	hdir := filepath.Join(verifDir, "harness")
	rep := NewReplayer(repoDir, hdir, scratch)
	progs := map[string]*Program{}
	var stats []*RunStats
	var sel []*HSpec
	for _, h := range specs {
		if h.Prop != prop || (only != "" && h.Fn != only) {
			continue
		}
		if tierOf(h, tier) == nil {
			continue
		}
		sel = append(sel, h)
	}
	ev := &evidence{prop: prop, tier: tier, t0: t0}
	violations := 0
	known := map[string]bool{}
	// however the code under check behaves, a check ends with an answer
	limit := 780 * time.Second
	if tier == "thorough" {
		limit = 3 * time.Hour
	}
	var evmu sync.Mutex
	time.AfterFunc(limit, func() {
		evmu.Lock()
		if violations == 0 {
			ev.notes = append(ev.notes, fmt.Sprintf("inconclusive: stopped after %v", limit))
			ev.complete = false
			ev.write(filepath.Join(verifDir, "evidence", prop+".json"))
			fmt.Printf("inconclusive: stopped after %v\n", limit)
			os.RemoveAll(scratch)
			os.Exit(0)
		}
		evmu.Unlock()
	})
	var replayTime time.Duration
	for _, h := range sel {
		ts := tierOf(h, tier)
		key := modeKey(h)
		P := progs[key]
		if P == nil {
			tl := time.Now()
			m := Mode{Shims: true}
			if h.Con {
				m.Yields = h.Yields
			}
			ov, err := buildOverlay(repoDir, hdir, h.allFiles(), m, false)
			if err == nil {
				P, err = LoadProgram(repoDir, ov)
			}
			if err != nil {
				fmt.Printf("%s %s: inconclusive, cannot load: %v\n", prop, h.Fn, err)
				ev.notes = append(ev.notes, fmt.Sprintf("%s: cannot load: %v", h.Fn, err))
				continue
			}
			progs[key] = P
			if verbose {
				fmt.Printf("loaded in %v\n", time.Since(tl))
			}
		}
		cfg := Config{StepLimit: 3000000, DepthLimit: 400, UnwindLimit: 40, DelayBound: ts.Delay, SolverArgv: solverArgv(solver), TimeoutMs: 15000, Params: ts.Params}
		if solver == "" || solver == "cvc5" {
			cfg.AltArgv = solverArgv("z3")
			cfg.Cross = tier == "thorough"
			cfg.LIA = os.Getenv("GOSYM_NOLIA") == ""
		}
		if ts.Steps > 0 {
			cfg.StepLimit = ts.Steps
		}
		if ts.Unwind > 0 {
			cfg.UnwindLimit = ts.Unwind
		}
		if ts.Depth > 0 {
			cfg.DepthLimit = ts.Depth
		}
		if delay >= 0 {
			cfg.DelayBound = delay
		}
		bud := time.Duration(ts.Budget) * time.Second
		if bud == 0 {
			bud = 120 * time.Second
		}
		if budget > 0 {
			bud = time.Duration(budget) * time.Second
		}
		var cmu sync.Mutex
		tried := map[string]int{}
		replays := 0
		unrep := map[string]int{}
		onCand := func(c *Candidate) bool {
			cmu.Lock()
			defer cmu.Unlock()
			if violations > 0 {
				return true
			}
			for _, f := range findings {
				if f.matches(h, c) {
					if !known[f.Text] {
						known[f.Text] = true
						fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, f.Text)
					}
					return false
				}
			}
			k := c.Kind + "|" + c.Msg + "|" + firstLine(c.Stack)
			tried[k]++
			if tried[k] > 4 || replays > 24 || replayTime > 240*time.Second {
				return false
			}
			if verbose {
				fmt.Printf("candidate %s: %s: %s\n%s inputs=%s trace=%v\n", h.Fn, c.Kind, c.Msg, c.Stack, inputsStr(c.Inputs), short(c.Trace))
			}
			if norep {
				return false
			}
			replays++
			tr := time.Now()
			r, rj := rep.Replay(h, c, ts.Params)
			replayTime += time.Since(tr)
			if verbose {
				fmt.Printf("  replay: %v (%s, %d runs)\n", r.Reproduced, tail(r.How, 3000), r.Runs)
			}
			if !r.Reproduced {
				unrep[fmt.Sprintf("candidate not reproduced natively: %s: %s (%s)", c.Kind, c.Msg, tail(r.How, 300))]++
				return false
			}
			p := filepath.Join(verifDir, "evidence", "replay-"+prop+".json")
			os.MkdirAll(filepath.Dir(p), 0o755)
			b, _ := json.MarshalIndent(rj, "", " ")
			os.WriteFile(p, b, 0o644)
			fmt.Printf("%s: %s: %s [%s]\n%s", h.Fn, c.Kind, c.Msg, r.How, c.Stack)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, p)
			evmu.Lock()
			violations++
			evmu.Unlock()
			return true
		}
		st := Explore(P, cfg, h.Fn, runtime.NumCPU(), bud, onCand)
		for k, v := range unrep {
			st.Incon[k] += v
		}
		stats = append(stats, st)
		evmu.Lock()
		ev.add(h, ts, cfg, P, st)
		evmu.Unlock()
		if verbose || true {
			inc := ""
			for _, k := range sortedKeys(st.Incon) {
				inc += fmt.Sprintf("\n    [%d] %s", st.Incon[k], k)
			}
			fmt.Printf("%s: %d paths, %d asserts (%d by solver), %d queries (%.1fs solver), %.1fs, complete=%v ends=%v reach=%v%s\n", h.Fn, st.Paths, st.Asserts, st.AssertsQ, st.Queries, st.SolverTime.Seconds(), st.Wall.Seconds(), st.Complete, st.EndKinds, st.Reached, inc)
			for _, l := range ev.unreached {
				if strings.HasPrefix(l, h.Fn+":") {
					fmt.Printf("    vacuity warning: witness %s not reached\n", l)
				}
			}
		}
		if violations > 0 {
			break
		}
	}
	ev.violations = violations
	ev.write(filepath.Join(verifDir, "evidence", prop+".json"))
	if violations > 0 {
		return 1
	}
	fmt.Printf("OK property=%s tier=%s %.1fs\n", prop, tier, time.Since(t0).Seconds())
	return 0
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func short(t []int) []int {
	if len(t) > 200 {
		return t[:200]
	}
	return t
}

func inputsStr(in []InputVal) string {
	var b strings.Builder
	for _, i := range in {
		if i.Kind == "bytes" {
			var ks []string
			for k, v := range i.Bytes {
				ks = append(ks, fmt.Sprintf("%s:%d", k, v))
			}
			sort.Strings(ks)
			if len(ks) > 24 {
				ks = ks[:24]
			}
			fmt.Fprintf(&b, " %s[%d]{%s}", i.Name, i.V, strings.Join(ks, ","))
		} else {
			fmt.Fprintf(&b, " %s=%d", i.Name, int64(i.V))
		}
	}
	return b.String()
}
