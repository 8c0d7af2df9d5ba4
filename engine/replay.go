package main

// Native replay of candidates against the real code.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type Replayer struct {
	repo, hdir, scratch string
	mu                  sync.Mutex
	bins                map[string]string // mode key -> binary
	errs                map[string]error
}

func NewReplayer(repo, hdir, scratch string) *Replayer {
	return &Replayer{repo: repo, hdir: hdir, scratch: scratch, bins: map[string]string{}, errs: map[string]error{}}
}

func modeKey(h *HSpec) string {
	return fmt.Sprintf("%v|%s|%s", h.Con, h.Yields, strings.Join(h.Files, ","))
}

// binary builds (once) the native replay binary for a harness' mode.
func (r *Replayer) binary(h *HSpec) (string, error) {
	k := modeKey(h)
	r.mu.Lock()
	defer r.mu.Unlock()
	if err := r.errs[k]; err != nil {
		return "", err
	}
	if b := r.bins[k]; b != "" {
		return b, nil
	}
	dir, err := os.MkdirTemp(r.scratch, "native")
	if err != nil {
		return "", err
	}
	m := Mode{}
	if h.Con {
		m = Mode{Yields: h.Yields, Shims: true}
	}
	ov, err := buildOverlay(r.repo, r.hdir, h.allFiles(), m, true)
	if err == nil {
		var b []byte
		b, err = os.ReadFile(filepath.Join(r.hdir, "replay_test.go"))
		ov[filepath.Join(r.repo, "zz_verif_replay_test.go")] = b
		// registry of harness functions
		var fns []string
		for _, f := range h.Files {
			src, _ := os.ReadFile(filepath.Join(r.hdir, f))
			for _, l := range strings.Split(string(src), "\n") {
				if strings.HasPrefix(l, "func ZZ") {
					n := strings.TrimPrefix(l, "func ")
					if i := strings.Index(n, "()"); i > 0 {
						fns = append(fns, n[:i])
					}
				}
			}
		}
		sort.Strings(fns)
		var g strings.Builder
		g.WriteString("package ustack\n\nvar zzHarnesses = map[string]func(){\n")
		for _, f := range fns {
			fmt.Fprintf(&g, "\t%q: %s,\n", f, f)
		}
		g.WriteString("}\n")
		ov[filepath.Join(r.repo, "zz_verif_reg_test.go")] = []byte(g.String())
	}
	if err != nil {
		r.errs[k] = err
		return "", err
	}
	// the repository's own test files are left out of the replay binary
	tests, _ := filepath.Glob(filepath.Join(r.repo, "*_test.go"))
	for _, t := range tests {
		if _, ok := ov[t]; !ok {
			ov[t] = []byte("package ustack\n")
		}
	}
	oj, err := writeOverlay(dir, ov)
	if err != nil {
		r.errs[k] = err
		return "", err
	}
	bin := filepath.Join(dir, "replay.test")
	cmd := exec.Command("go", "test", "-c", "-vet=off", "-overlay", oj, "-o", bin, ".")
	cmd.Dir = r.repo
	cmd.Env = goEnv()
	out, err := cmd.CombinedOutput()
	if err != nil {
		err = fmt.Errorf("native build failed: %v\n%s", err, out)
		r.errs[k] = err
		return "", err
	}
	r.bins[k] = bin
	return bin, nil
}

type ReplayResult struct {
	Reproduced bool
	How        string
	Output     string
	Runs       int
}

type replayJSON struct {
	Property string         `json:"property"`
	Harness  string         `json:"harness"`
	Con      bool           `json:"con"`
	Yields   string         `json:"yields,omitempty"`
	Kind     string         `json:"kind"`
	Msg      string         `json:"msg"`
	Inputs   []InputVal     `json:"inputs"`
	Trace    []int          `json:"trace,omitempty"`
	Params   map[string]int `json:"params,omitempty"`
	Stack    string         `json:"stack,omitempty"`
	Native   string         `json:"native,omitempty"`
}

func (r *Replayer) Replay(h *HSpec, c *Candidate, params map[string]int) (*ReplayResult, *replayJSON) {
	rj := &replayJSON{Property: h.Prop, Harness: h.Fn, Con: h.Con, Yields: h.Yields, Kind: c.Kind, Msg: c.Msg, Inputs: c.Inputs, Params: params, Stack: c.Stack}
	if h.Con {
		rj.Trace = c.Trace
	}
	bin, err := r.binary(h)
	if err != nil {
		return &ReplayResult{How: err.Error()}, rj
	}
	dir, _ := os.MkdirTemp(r.scratch, "run")
	defer os.RemoveAll(dir)
	p := filepath.Join(dir, "cand.json")
	b, _ := json.Marshal(rj)
	os.WriteFile(p, b, 0o644)
	max := 1
	if h.Con {
		max = 60
	} else if h.Retry > 0 {
		max = h.Retry
	}
	res := &ReplayResult{}
	t0 := time.Now()
	for res.Runs = 1; res.Runs <= max; res.Runs++ {
		out, code, timedOut := runLimited(bin, dir, p, c.Kind)
		res.Output = out
		switch {
		case strings.Contains(out, "ZZ-ASSERT-FAIL"):
			res.Reproduced, res.How = true, "assertion failed"
		case strings.Contains(out, "ZZ-OK"), strings.Contains(out, "ZZ-DIVERGE"), strings.Contains(out, "ZZ-ASSUME-FAIL"), strings.Contains(out, "ZZ-ERROR"):
			res.How = firstZZ(out)
		case timedOut, strings.Contains(out, "ZZ-HANG"):
			// only a predicted hang is confirmed by not terminating
			if c.Kind == "hang" || c.Kind == "deadlock" {
				res.Reproduced, res.How = true, "does not terminate"
			} else {
				res.How = "no answer in time"
			}
		case strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") || strings.Contains(out, "panicked"):
			res.Reproduced, res.How = true, "crash"
		case c.Kind == "fatal" && code != 0:
			res.Reproduced, res.How = true, "process exit"
		default:
			res.How = fmt.Sprintf("exit %d", code)
		}
		if res.Reproduced || time.Since(t0) > 45*time.Second {
			break
		}
	}
	rj.Native = res.How + "\n" + tail(res.Output, 4000)
	return res, rj
}

func firstZZ(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "ZZ-") {
			return l
		}
	}
	return ""
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

func runLimited(bin, dir, cand, kind string) (string, int, bool) {
	// memory limit through the shell's ulimit; a private scratch directory
	cmd := exec.Command("/bin/sh", "-c", "ulimit -v 12000000; exec \""+bin+"\" -test.run TestZZReplay -test.timeout 100s")
	cmd.Dir = dir
	cmd.Env = append(goEnv(), "ZZ_REPLAY="+cand, "GODEBUG=asynctimerchan=0", "GOTRACEBACK=single", "GOMEMLIMIT=4GiB")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	var buf limBuf
	cmd.Stdout, cmd.Stderr = &buf, &buf
	if err := cmd.Start(); err != nil {
		return err.Error(), -1, false
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	to := 15 * time.Second
	select {
	case err := <-done:
		code := 0
		if err != nil {
			code = 1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		return buf.String(), code, false
	case <-time.After(to):
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		<-done
		return buf.String(), -1, true
	}
}

type limBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *limBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	} else if i := bytes.Index(p, []byte("ZZ-")); i >= 0 {
		l.b.Write(p[i:])
	} else if i := bytes.Index(p, []byte("panic:")); i >= 0 {
		l.b.Write(p[i:])
	}
	return len(p), nil
}
func (l *limBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.b.String()
}
