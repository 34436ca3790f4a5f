package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// These mirror the types of the worker.

type Sched struct {
	Seed       uint64
	PickPPM    uint64
	YieldPPM   uint64
	SleepPPM   uint64
	MaxSleepUS uint64
	Explicit   bool
	Picks      []int64 `json:",omitempty"`
	Yields     []int64 `json:",omitempty"`
}

type Plan struct {
	Scenario  string
	Property  string
	Seed      uint64
	Sched     Sched
	Net       json.RawMessage
	Faults    []json.RawMessage
	TimeoutMS int64 `json:",omitempty"`
	P         json.RawMessage
}

type Violation struct {
	Property string
	Kind     string
	Detail   string
}

type Result struct {
	Violations []Violation
	Notes      map[string]int64
	Outcome    string
	SimNS      int64
	Picks      uint64
	Yields     uint64
	Preempt    int
	Hash       string
	Order      string
	Fired      map[string]int
	Stats      map[string]int64
	Errors     []string
	Done       bool
	Reached    []byte
}

// outcome is what one simulated run gave.
type outcome struct {
	Result
	plan    []byte
	sched   recorded
	raw     []byte
	trouble string // the harness failed: says nothing about the code
	stderr  string
	wall    time.Duration
}

type recorded struct {
	ok            bool
	overflow      bool
	picks, yields []int64
	raw           []byte
}

var runCounter int64
var scratchRoot string
var scratchMu sync.Mutex

func scratch() string {
	scratchMu.Lock()
	defer scratchMu.Unlock()
	if scratchRoot == "" {
		d, err := os.MkdirTemp("", "unlynxsim")
		if err != nil {
			fail("%v", err)
		}
		scratchRoot = d
	}
	return scratchRoot
}

func cleanup() {
	scratchMu.Lock()
	defer scratchMu.Unlock()
	if scratchRoot != "" {
		os.RemoveAll(scratchRoot)
	}
}

const wallLimit = 150 * time.Second

// launch runs the worker once, in its own process and scratch directory.
func launch(args func(dir string) []string) *outcome {
	o := &outcome{}
	dir := filepath.Join(scratch(), fmt.Sprintf("run%d", atomic.AddInt64(&runCounter, 1)))
	if err := os.MkdirAll(filepath.Join(dir, "d"), 0755); err != nil {
		o.trouble = err.Error()
		return o
	}
	defer os.RemoveAll(dir)
	for attempt := 0; ; attempt++ {
		t0 := time.Now()
		ctx, cancel := context.WithTimeout(context.Background(), wallLimit)
		cmd := exec.CommandContext(ctx, filepath.Join(buildDir(), "worker"), args(dir)...)
		env := []string{"GOGC=off", "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=single", "HOME=" + dir, "TMPDIR=" + dir,
			"PATH=/usr/bin:/bin", "SIM_LOG=" + os.Getenv("SIM_LOG"), "SIM_STACKS=" + os.Getenv("SIM_STACKS")}
		cmd.Env = env
		cmd.Dir = filepath.Join(dir, "d")
		cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
		sf, err := os.Create(filepath.Join(dir, "sched"))
		if err != nil {
			cancel()
			o.trouble = err.Error()
			return o
		}
		cmd.ExtraFiles = []*os.File{sf}
		var errb bytes.Buffer
		cmd.Stderr = &limitedWriter{b: &errb, n: 1 << 20}
		err = cmd.Run()
		timedOut := ctx.Err() != nil
		cancel()
		sf.Close()
		o.wall = time.Since(t0)
		o.stderr = errb.String()
		if os.Getenv("SIM_LOG") != "" || os.Getenv("SIM_STACKS") != "" {
			os.Stderr.WriteString(o.stderr)
		}
		o.plan, _ = os.ReadFile(filepath.Join(dir, "plan.json"))
		o.sched = readSched(filepath.Join(dir, "sched"))
		if b, e := os.ReadFile(filepath.Join(dir, "res.json")); e == nil && json.Unmarshal(b, &o.Result) == nil && o.Done && err == nil {
			o.raw = b
			return o
		}
		code := -1
		killed := false
		if ee, ok := err.(*exec.ExitError); ok {
			code = ee.ExitCode()
			if ws, ok := ee.Sys().(syscall.WaitStatus); ok && ws.Signaled() {
				killed = true
			}
		}
		switch {
		case timedOut && attempt == 0:
			os.RemoveAll(filepath.Join(dir, "d"))
			os.MkdirAll(filepath.Join(dir, "d"), 0755)
			continue
		case timedOut:
			o.Violations = []Violation{{"", "hang", fmt.Sprintf("a simulated run did not end within %v of real time, twice", wallLimit)}}
			o.Outcome = "hang"
		case killed && attempt < 2: // for example by the memory guard
			os.RemoveAll(filepath.Join(dir, "d"))
			os.MkdirAll(filepath.Join(dir, "d"), 0755)
			time.Sleep(2 * time.Second)
			continue
		case killed:
			o.trouble = "worker killed: " + err.Error()
		case code == 3 || strings.Contains(o.stderr, "HARNESS:"):
			o.trouble = "worker: " + tail(o.stderr, 600)
		default:
			o.Violations = []Violation{{"", "crash", crashText(o.stderr, code)}}
			o.Outcome = "crash"
		}
		return o
	}
}

type limitedWriter struct {
	b *bytes.Buffer
	n int
}

func (w *limitedWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.n {
		w.b.Write(p)
	}
	return len(p), nil
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

var hexRE = regexp.MustCompile(`0x[0-9a-f]+|goroutine [0-9]+|\+0x[0-9a-f]+`)

// crashText describes how a server process died.
func crashText(stderr string, code int) string {
	i := strings.Index(stderr, "panic: ")
	if j := strings.Index(stderr, "fatal error: "); j >= 0 && (i < 0 || j < i) {
		i = j
	}
	if i < 0 {
		return fmt.Sprintf("a server process ended (exit %d): %s", code, tail(stderr, 500))
	}
	s := stderr[i:]
	if len(s) > 1200 {
		s = s[:1200]
	}
	return "a server process crashed: " + s
}

func readSched(p string) recorded {
	b, err := os.ReadFile(p)
	if err != nil || len(b) < 64 {
		return recorded{}
	}
	h := make([]int64, 8)
	for i := range h {
		h[i] = int64(binary.LittleEndian.Uint64(b[8*i:]))
	}
	if h[0] != 0x53494d54 || int64(len(b)) != 64+16*(h[1]+h[2]) {
		return recorded{}
	}
	r := recorded{ok: true, overflow: h[3] != 0, raw: b}
	vals := make([]int64, (len(b)-64)/8)
	for i := range vals {
		vals[i] = int64(binary.LittleEndian.Uint64(b[64+8*i:]))
	}
	r.picks = vals[:2*h[1]]
	r.yields = vals[2*h[1]:]
	return r
}

func runSeed(scenario, property string, seed uint64, tier string) *outcome {
	return launch(func(dir string) []string {
		return []string{"seed", scenario, property, fmt.Sprint(seed), tier, filepath.Join(dir, "plan.json"), filepath.Join(dir, "res.json"), filepath.Join(dir, "d")}
	})
}

func runPlan(p *Plan) *outcome {
	b, err := json.Marshal(p)
	if err != nil {
		return &outcome{trouble: err.Error()}
	}
	return launch(func(dir string) []string {
		f := filepath.Join(dir, "plan.json")
		os.WriteFile(f, b, 0644)
		return []string{"run", f, filepath.Join(dir, "res.json"), filepath.Join(dir, "d")}
	})
}

// first returns the first violation that is not a known finding.
func (o *outcome) first(known []finding, scenario, prop string) *Violation {
	for i := range o.Violations {
		v := &o.Violations[i]
		if matchKnown(known, scenario, prop, v) == nil {
			return v
		}
	}
	return nil
}
