package ustack

// Harness runtime. The engine intercepts these functions (symbolic inputs,
// assumptions, assertions, scheduling points); the bodies below are used by the
// native replay of a counterexample.

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"
)

type zzInput struct {
	Name  string            `json:"name"`
	Kind  string            `json:"kind"`
	V     uint64            `json:"v"`
	Bytes map[string]uint64 `json:"bytes"`
}

type zzReplayFile struct {
	Harness string         `json:"harness"`
	Con     bool           `json:"con"`
	Inputs  []zzInput      `json:"inputs"`
	Trace   []int          `json:"trace"`
	Params  map[string]int `json:"params"`
}

var zzR zzReplayFile
var zzPos int

func zzDie(code int, s string) {
	fmt.Fprintln(os.Stdout, s)
	os.Exit(code)
}

func zzLoadReplay(path string) {
	b, err := os.ReadFile(path)
	if err != nil {
		zzDie(5, "ZZ-ERROR "+err.Error())
	}
	if err := json.Unmarshal(b, &zzR); err != nil {
		zzDie(5, "ZZ-ERROR "+err.Error())
	}
}

func zzNextInput(name string) zzInput {
	if zzPos >= len(zzR.Inputs) {
		zzDie(3, "ZZ-DIVERGE out of inputs at "+name)
	}
	in := zzR.Inputs[zzPos]
	zzPos++
	if in.Name != name {
		zzDie(3, "ZZ-DIVERGE input "+name+" expected "+in.Name)
	}
	return in
}

func zzNative() bool           { return true }
func zzInt(name string) int    { return int(zzNextInput(name).V) }
func zzU64(name string) uint64 { return zzNextInput(name).V }
func zzU32(name string) uint32 { return uint32(zzNextInput(name).V) }
func zzU16(name string) uint16 { return uint16(zzNextInput(name).V) }
func zzU8(name string) byte    { return byte(zzNextInput(name).V) }
func zzBool(name string) bool  { return zzNextInput(name).V != 0 }

// zzLen is a length in 0..max.
func zzLen(name string, max int) int {
	v := int(zzNextInput(name).V)
	zzAssume(v >= 0 && v <= max)
	return v
}

// zzRange is an integer in lo..hi.
func zzRange(name string, lo, hi int) int {
	v := int(zzNextInput(name).V)
	zzAssume(v >= lo && v <= hi)
	return v
}

// zzBytes is a slice of n arbitrary bytes.
func zzBytes(name string, n int) []byte {
	in := zzNextInput(name)
	b := make([]byte, n)
	for k, v := range in.Bytes {
		i, _ := strconv.Atoi(k)
		if i < n {
			b[i] = byte(v)
		}
	}
	return b
}

// zzStr is a string of n arbitrary bytes.
func zzStr(name string, n int) string { return string(zzBytes(name, n)) }

// zzChoice is one of 0..n-1; every value is explored separately.
func zzChoice(name string, n int) int { return int(zzNextInput(name).V) }

// zzFork makes x concrete by exploring each of its values.
func zzFork(x int) int { return x }

func zzAssume(b bool) {
	if !b {
		zzDie(4, "ZZ-ASSUME-FAIL")
	}
}

func zzAssert(b bool, msg string) {
	if !b {
		buf := make([]byte, 1<<14)
		buf = buf[:runtime.Stack(buf, false)]
		zzDie(2, "ZZ-ASSERT-FAIL "+msg+"\n"+string(buf))
	}
}

func zzReach(label string) {}

// zzParam is a bound chosen per tier.
func zzParam(name string) int { return zzR.Params[name] }

// ---- replay of schedules

type zzGor struct {
	id     int
	resume chan struct{}
	parked bool
	settle bool
}

var zzCon bool
var zzMu sync.Mutex
var zzByGoid map[string]*zzGor
var zzGors []*zzGor
var zzParked chan struct{}

func zzGoid() string {
	buf := make([]byte, 64)
	buf = buf[:runtime.Stack(buf, false)]
	s := strings.TrimPrefix(string(buf), "goroutine ")
	return s[:strings.IndexByte(s, ' ')]
}

func zzSelf() *zzGor {
	id := zzGoid()
	zzMu.Lock()
	defer zzMu.Unlock()
	g := zzByGoid[id]
	if g == nil {
		g = &zzGor{id: len(zzGors), resume: make(chan struct{})}
		zzGors = append(zzGors, g)
		zzByGoid[id] = g
	}
	return g
}

func zzPark(settle bool) {
	if !zzCon {
		return
	}
	g := zzSelf()
	zzMu.Lock()
	g.parked, g.settle = true, settle
	zzMu.Unlock()
	select {
	case zzParked <- struct{}{}:
	default:
	}
	<-g.resume
}

// zzYield is a scheduling point.
func zzYield() { zzPark(false) }

// zzSettle lets everything else run until it blocks.
func zzSettle() {
	if !zzCon {
		time.Sleep(20 * time.Millisecond)
		return
	}
	zzPark(true)
}

// zzSleep lets virtual time pass.
func zzSleep(d time.Duration) {
	time.Sleep(d)
}

// zzGo starts a goroutine under schedule control.
func zzGo(f func()) {
	go func() {
		zzYield()
		f()
	}()
	zzYield()
}

// zzControl replays the recorded schedule; wait blocks until every other
// goroutine of the bubble is durably blocked.
func zzControl(f func(), wait func()) {
	zzCon = true
	zzByGoid = map[string]*zzGor{}
	zzParked = make(chan struct{}, 1)
	done := false
	go func() {
		zzSelf()
		f()
		done = true
		select {
		case zzParked <- struct{}{}:
		default:
		}
	}()
	var last *zzGor
	for i := 0; ; i++ {
		wait()
		if done {
			return
		}
		select {
		case <-zzParked:
		default:
		}
		var g *zzGor
		if i < len(zzR.Trace) {
			t := zzR.Trace[i]
			if t == -1 {
				<-zzParked
				continue
			}
			if t >= len(zzGors) || !zzGors[t].parked {
				zzDie(3, fmt.Sprint("ZZ-DIVERGE schedule at step ", i, " goroutine ", t))
			}
			g = zzGors[t]
		} else {
			// beyond the recorded part: default policy
			var c []*zzGor
			for _, x := range zzGors {
				if x.parked && !x.settle {
					c = append(c, x)
				}
			}
			if len(c) == 0 {
				if len(zzGors) > 0 && zzGors[0].parked {
					g = zzGors[0]
				} else {
					<-zzParked
					continue
				}
			} else {
				g = c[0]
				for _, x := range c {
					if x == last {
						g = x
					}
				}
			}
			if i > len(zzR.Trace)+200000 {
				zzDie(6, "ZZ-HANG")
			}
		}
		last = g
		g.parked = false
		g.resume <- struct{}{}
	}
}

// ---- helpers

// zzSame asserts that two byte strings are equal (all positions at once).
func zzSame(name string, a, b []byte, msg string) {
	zzAssert(len(a) == len(b), msg+" (length)")
	if len(a) > 0 {
		k := zzRange(name, 0, len(a)-1)
		zzAssert(a[k] == b[k], msg+" (content)")
	}
}

// zzPanics reports whether f panics.
func zzPanics(f func()) (p bool) {
	defer func() {
		if r := recover(); r != nil {
			p = true
		}
	}()
	f()
	return false
}
