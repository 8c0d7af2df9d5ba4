package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
)

// runSelftest runs the engine's own harnesses (language and library features).
func runSelftest(scratch string) int {
	return runProp("SELF", "quick", "", "", false, false, 0, -1, scratch)
}

// runReplayFile replays a reported violation against the current tree: exit 1
// if it still happens.
func runReplayFile(path, scratch string) int {
	b, err := os.ReadFile(path)
	var rj replayJSON
	if err == nil {
		err = json.Unmarshal(b, &rj)
	}
	if err != nil {
		fmt.Println("cannot read the replay file:", err)
		return 2
	}
	specs, err := loadSpecs()
	if err != nil {
		fmt.Println(err)
		return 2
	}
	for _, h := range specs {
		if h.Fn != rj.Harness {
			continue
		}
		rep := NewReplayer(repoDir, filepath.Join(verifDir, "harness"), scratch)
		r, _ := rep.Replay(h, &Candidate{Harness: h.Fn, Kind: rj.Kind, Msg: rj.Msg, Inputs: rj.Inputs, Trace: rj.Trace, Stack: rj.Stack}, rj.Params)
		fmt.Printf("%s: %s: %s: reproduced=%v (%s)\n", h.Fn, rj.Kind, rj.Msg, r.Reproduced, r.How)
		if r.Reproduced {
			return 1
		}
		return 0
	}
	fmt.Println("unknown harness", rj.Harness)
	return 2
}
