package main

import (
	"crypto/rand"
	"encoding/json"
	"fmt"
	"os"
	"runtime/pprof"
	"sync"
	"time"
	_ "unsafe"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/zzsimrt"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/log"
)

//go:linkname simStart runtime.simStart
func simStart(seed, pickPPM, yieldPPM, sleepPPM, maxSleepNS, limit uint64, explicit bool, picks, yields []int64)

//go:linkname simStop runtime.simStop
func simStop()

//go:linkname simStats runtime.simStats
func simStats() (picks, yields, hash uint64, now int64, preempt int)

// Sched says how goroutines are interleaved.
type Sched struct {
	Seed       uint64
	PickPPM    uint64 // chance that a scheduling decision is random instead of FIFO
	YieldPPM   uint64 // chance of a preemption at a scheduling point of the code
	SleepPPM   uint64 // chance that a preempted goroutine is descheduled for a while
	MaxSleepUS uint64
	Explicit   bool
	Picks      []int64 `json:",omitempty"` // pairs: decision, choice
	Yields     []int64 `json:",omitempty"` // pairs: scheduling point, nanoseconds
}

// Plan is one run.
type Plan struct {
	Scenario string
	Property string // the property the run is made for
	Seed     uint64
	Sched    Sched
	Net      NetSpec
	Faults   []Fault
	// the configured time limit of the servers (CONN_TIMEOUT), 0 for the default
	TimeoutMS int64           `json:",omitempty"`
	P         json.RawMessage // scenario parameters
}

// Violation is one broken property.
type Violation struct {
	Property string
	Kind     string
	Detail   string
}

// Result is what a run reports.
type Result struct {
	Violations []Violation
	Notes      map[string]int64
	Outcome    string
	SimNS      int64
	Picks      uint64
	Yields     uint64
	Preempt    int
	Hash       string
	Order      string
	Fired      map[string]int
	Stats      map[string]int64
	Errors     []string
	Done       bool
	Reached    []byte // one bit for every scheduling point of the code
}

// run is the state of one simulated run.
type run struct {
	plan *Plan
	net  *simNet
	rng  *prng
	dir  string
	res  *Result
	mu   sync.Mutex
	t0   int64

	shared map[string][]libunlynx.CipherVector // inputs of several instances
}

func (r *run) violate(kind, format string, args ...interface{}) {
	r.mu.Lock()
	defer r.mu.Unlock()
	d := fmt.Sprintf(format, args...)
	if len(d) > 2000 {
		d = d[:2000]
	}
	r.res.Violations = append(r.res.Violations, Violation{r.plan.Property, kind, d})
}

func (r *run) note(k string, n int64) {
	r.mu.Lock()
	r.res.Notes[k] += n
	r.mu.Unlock()
}

func (r *run) params(v interface{}) { must(json.Unmarshal(r.plan.P, v)) }

func must(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "HARNESS:", err)
		os.Exit(3)
	}
}

// prng is the generator of plans.
type prng struct{ s uint64 }

func (p *prng) next() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (p *prng) n(n int) int {
	if n <= 0 {
		return 0
	}
	return int(p.next() % uint64(n))
}
func (p *prng) between(a, b int) int      { return a + p.n(b-a+1) }
func (p *prng) chance(num, den int) bool  { return p.n(den) < num }
func (p *prng) pick(xs ...int) int        { return xs[p.n(len(xs))] }
func (p *prng) pickS(xs ...string) string { return xs[p.n(len(xs))] }
func (p *prng) perm(n int) []int {
	x := make([]int, n)
	for i := range x {
		x[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := p.n(i + 1)
		x[i], x[j] = x[j], x[i]
	}
	return x
}

// impatientServers sometimes draws a shorter time limit for the servers. Only
// for plans in which giving up is allowed: limits then also pass without faults.
func impatientServers(p *prng, plan *Plan) {
	plan.TimeoutMS = int64(p.pick(0, 0, 200000, 30000, 2000, 300, 50))
	if plan.TimeoutMS == 0 {
		return
	}
	// faults that outlast the limit, but not by much: what follows goes on
	for i := range plan.Faults {
		if f := &plan.Faults[i]; f.DurUS > 0 && f.Kind != "crash" && p.chance(1, 2) {
			f.DurUS = plan.TimeoutMS * int64(1010+p.n(1500))
		}
	}
}

// defaultTimeout is the limit once faults have stopped.
func defaultTimeout() { libunlynx.TIMEOUT = 10 * time.Minute }

// seededReader replaces the system's randomness.
type seededReader struct {
	mu sync.Mutex
	p  prng
}

func (r *seededReader) Read(b []byte) (int, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	for i := 0; i < len(b); {
		v := r.p.next()
		for j := 0; j < 8 && i < len(b); j++ {
			b[i] = byte(v >> (8 * j))
			i++
		}
	}
	return len(b), nil
}

type scenario struct {
	gen func(p *prng, plan *Plan, tier string) interface{}
	run func(r *run)
	// simulated time after which the run is over
	horizon time.Duration
}

var scenarios = map[string]*scenario{}

func swarmSched(p *prng) Sched {
	s := Sched{Seed: p.next()}
	s.PickPPM = uint64(p.pick(0, 20000, 200000, 1000000, 1000000))
	s.YieldPPM = uint64(p.pick(0, 100, 2000, 20000, 100000, 300000))
	s.SleepPPM = uint64(p.pick(0, 100000, 500000, 900000))
	s.MaxSleepUS = uint64(p.pick(100, 2000, 20000, 100000))
	return s
}

func swarmNet(p *prng) NetSpec {
	n := NetSpec{Seed: p.next(), Mode: p.pickS("zero", "uniform", "uniform", "heavy", "links")}
	n.LatMinUS = int64(p.pick(0, 10, 1000))
	n.LatMaxUS = n.LatMinUS + int64(p.pick(100, 5000, 50000, 200000))
	if n.Mode == "zero" {
		n.LatMinUS, n.LatMaxUS = 0, 0
	}
	return n
}

func main() {
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: worker gen SCENARIO PROPERTY SEED TIER | worker run PLAN RESULT DIR | worker scenarios")
		os.Exit(3)
	}
	switch os.Args[1] {
	case "gen":
		var seed uint64
		fmt.Sscan(os.Args[4], &seed)
		b, err := json.Marshal(genPlan(os.Args[2], os.Args[3], seed, os.Args[5]))
		must(err)
		os.Stdout.Write(b)
	case "run":
		var plan Plan
		b, err := os.ReadFile(os.Args[2])
		must(err)
		must(json.Unmarshal(b, &plan))
		execute(&plan, os.Args[3], os.Args[4])
	case "seed": // worker seed SCENARIO PROPERTY SEED TIER PLANOUT RESULT DIR
		var seed uint64
		fmt.Sscan(os.Args[4], &seed)
		plan := genPlan(os.Args[2], os.Args[3], seed, os.Args[5])
		b, err := json.Marshal(plan)
		must(err)
		must(os.WriteFile(os.Args[6], b, 0644))
		execute(plan, os.Args[7], os.Args[8])
	}
}

func genPlan(name, prop string, seed uint64, tier string) *Plan {
	sc := scenarios[name]
	if sc == nil {
		must(fmt.Errorf("no scenario %q", name))
	}
	h := seed*0x9e3779b97f4a7c15 + 0x1234567
	for _, c := range []byte(name) {
		h = mix(h, uint64(c))
	}
	p := &prng{h}
	plan := &Plan{Scenario: name, Property: prop, Seed: p.next()}
	plan.Sched = swarmSched(p)
	plan.Net = swarmNet(p)
	b, err := json.Marshal(sc.gen(p, plan, tier))
	must(err)
	plan.P = b
	return plan
}

func execute(plan *Plan, resultPath, dir string) {
	sc := scenarios[plan.Scenario]
	if sc == nil {
		must(fmt.Errorf("no scenario %q", plan.Scenario))
	}
	must(os.Chdir(dir))
	log.SetDebugVisible(0)
	if l := os.Getenv("SIM_LOG"); l != "" {
		n := 0
		fmt.Sscan(l, &n)
		log.SetDebugVisible(n)
	}
	rand.Reader = &seededReader{p: prng{mix(plan.Seed, 1)}}
	s := plan.Sched
	simStart(s.Seed, s.PickPPM, s.YieldPPM, s.SleepPPM, s.MaxSleepUS*1000, 40000000, s.Explicit, s.Picks, s.Yields)
	r := &run{plan: plan, dir: dir, rng: &prng{mix(plan.Seed, 2)}, t0: now(),
		res: &Result{Notes: map[string]int64{}, Stats: map[string]int64{}, Fired: map[string]int{}}}
	finish := func(outcome string) {
		simStop()
		if os.Getenv("SIM_STACKS") != "" {
			pprof.Lookup("goroutine").WriteTo(os.Stderr, 1)
		}
		r.mu.Lock()
		res := r.res
		res.Outcome = outcome
		res.SimNS = now() - r.t0
		pk, yl, h, _, pre := simStats()
		res.Picks, res.Yields, res.Preempt, res.Hash = pk, yl, pre, fmt.Sprintf("%016x", h)
		if r.net != nil {
			res.Order = fmt.Sprintf("%016x", r.net.orderHash)
			for k, v := range r.net.fired {
				res.Fired[k] += v
			}
			for k, v := range r.net.stats {
				res.Stats[k] += v
			}
			res.Errors = append(res.Errors, r.net.handlerPanics...)
		}
		res.Done = true
		for i, reached := range zzsimrt.Reached {
			if reached {
				for len(res.Reached) <= i/8 {
					res.Reached = append(res.Reached, 0)
				}
				res.Reached[i/8] |= 1 << uint(i%8)
			}
		}
		b, err := json.Marshal(res)
		must(err)
		must(os.WriteFile(resultPath, b, 0644))
		os.Exit(0)
	}
	zzsimrt.OnViolation = func(msg string) {
		r.violate("fatal", "%s", msg)
		finish("fatal")
	}
	theRun = r
	if plan.TimeoutMS > 0 {
		libunlynx.TIMEOUT = time.Duration(plan.TimeoutMS) * time.Millisecond
	}
	r.net = newSimNet(plan.Net, libunlynx.SuiTe)
	onet.SimSend = r.net.client
	horizon := sc.horizon
	if horizon == 0 {
		horizon = 2 * time.Hour
	}
	done := make(chan bool)
	go func() {
		sc.run(r)
		done <- true
	}()
	select {
	case <-done:
		finish("done")
	case <-time.After(horizon):
		r.violate("stuck", "the run did not end within %v of simulated time", horizon)
		finish("stuck")
	}
}
