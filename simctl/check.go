package main

import (
	"encoding/json"
	"fmt"
	"os"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type mix struct {
	scenario string
	weight   int
}

// property says how a property is decided.
type property struct {
	id        string
	mixes     []mix
	quickRuns int
	kinds     string // the kinds of failure that break it; "" means all
	level     string
	real      []string // components that ran real code
	stubs     []string
	measure   string
	assume    []string
}

type finding struct {
	Property string
	Status   string // "known" or "fixed"
	Commit   string
	Scenario string
	Kind     string
	Detail   string // regular expression
	What     string
	Replay   string // plan that shows it, relative to /verif
}

func knownFindings() []finding {
	var fs []finding
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.json"))
	if err != nil {
		return nil
	}
	if err := json.Unmarshal(b, &fs); err != nil {
		fail("known-findings.json: %v", err)
	}
	return fs
}

func matchKnown(fs []finding, scenario, prop string, v *Violation) *finding {
	for i := range fs {
		f := &fs[i]
		if f.Status != "known" || f.Property != prop || f.Scenario != scenario || f.Kind != v.Kind {
			continue
		}
		if ok, err := regexp.MatchString(f.Detail, v.Detail); err == nil && ok {
			return f
		}
	}
	return nil
}

func (p *property) concerns(v *Violation) bool {
	if p.kinds == "" {
		return true
	}
	ok, _ := regexp.MatchString("^(?:"+p.kinds+")$", v.Kind)
	return ok
}

func (p *property) first(o *outcome, known []finding, scenario string) *Violation {
	for i := range o.Violations {
		v := &o.Violations[i]
		if p.concerns(v) && matchKnown(known, scenario, p.id, v) == nil {
			return v
		}
	}
	return nil
}

func (p *property) scenarioOf(i int) string {
	total := 0
	for _, m := range p.mixes {
		total += m.weight
	}
	// spread the scenarios evenly over consecutive runs
	k := (i * 7) % total
	if total%7 == 0 {
		k = (i * 11) % total
	}
	for _, m := range p.mixes {
		if k < m.weight {
			return m.scenario
		}
		k -= m.weight
	}
	return p.mixes[0].scenario
}

type tally struct {
	mu        sync.Mutex
	runs      int
	byScen    map[string]int
	notes     map[string]int64
	fired     map[string]int
	faultRuns int
	stats     map[string]int64
	simNS     int64
	picks     uint64
	yields    uint64
	preempt   int64
	hashes    map[string]bool
	orders    map[string]bool
	nontriv   map[string]bool
	other     map[string]int
	panics    int
	samples   []interface{}
	troubles  []string
	bad       map[int]*outcome
	badScen   map[int]string
	minBad    int
	knownHit  map[string]int
	reRuns    int
	mismatch  int
	wallSum   time.Duration
	reached   []byte // the scheduling points that were reached in any run
	scens     map[string]bool
}

func check(id, tier string, seed uint64) int {
	p := properties[id]
	if p == nil {
		fail("no property %s", id)
	}
	if tier != "quick" && tier != "thorough" {
		fail("tier must be quick or thorough")
	}
	defer cleanup()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	go func() { <-sig; cleanup(); os.Exit(2) }()
	t0 := time.Now()
	known := knownFindings()
	runs := p.quickRuns
	limit := 300 * time.Second
	if tier == "thorough" {
		runs = p.quickRuns * 25
		limit = 600 * time.Second
	}
	if v := os.Getenv("SIM_RUNS"); v != "" {
		fmt.Sscan(v, &runs)
		limit = 100 * time.Hour
	}
	workers := runtime.NumCPU()
	if workers > 8 {
		workers = 8
	}
	t := &tally{byScen: map[string]int{}, notes: map[string]int64{}, fired: map[string]int{}, stats: map[string]int64{}, hashes: map[string]bool{},
		orders: map[string]bool{}, nontriv: map[string]bool{}, other: map[string]int{}, bad: map[int]*outcome{}, badScen: map[int]string{}, minBad: runs, knownHit: map[string]int{}}
	next := 0
	var wg sync.WaitGroup
	seedOf := func(i int) uint64 { return seed*1000000007 + uint64(i) }
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				t.mu.Lock()
				i := next
				// runs after the first failing one need not be made
				stop := i >= runs || i > t.minBad || time.Since(t0) > limit || len(t.troubles) > 3
				next++
				t.mu.Unlock()
				if stop {
					return
				}
				scen := p.scenarioOf(i)
				o := runSeed(scen, id, seedOf(i), tier)
				t.add(p, known, i, scen, o)
				if i%97 == 0 && o.trouble == "" {
					// the same seed must be the same execution
					o2 := runSeed(scen, id, seedOf(i), tier)
					t.mu.Lock()
					t.reRuns++
					if o2.trouble == "" && (string(o.raw) != string(o2.raw) || string(o.sched.raw) != string(o2.sched.raw)) {
						t.mismatch++
					}
					t.mu.Unlock()
				}
			}
		}()
	}
	wg.Wait()
	explored := time.Since(t0)
	if len(t.troubles) > 0 && len(t.bad) == 0 {
		fail("%d runs failed to execute: %s", len(t.troubles), t.troubles[0])
	}
	// listed findings are shown from their replay plans
	code := 0
	for _, f := range known {
		if f.Property != id || f.Status != "known" {
			continue
		}
		hit := t.knownHit[f.What]
		if f.Replay != "" {
			var rp replayFile
			if b, err := os.ReadFile(filepath.Join(verifDir, f.Replay)); err == nil && json.Unmarshal(b, &rp) == nil {
				o := runPlan(&rp.Plan)
				for i := range o.Violations {
					if m := matchKnown(known, rp.Plan.Scenario, id, &o.Violations[i]); m != nil && m.What == f.What {
						hit++
					}
				}
			}
		}
		if hit > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, f.What)
		}
	}
	violations := 0
	if len(t.bad) > 0 {
		idx := []int{}
		for i := range t.bad {
			idx = append(idx, i)
		}
		sort.Ints(idx)
		reported := false
		for _, i := range idx {
			o := t.bad[i]
			v := p.first(o, known, t.badScen[i])
			path, ok := report(p, known, t.badScen[i], seedOf(i), tier, o, v)
			if !ok {
				fmt.Printf("NOTE: run %d (%s seed %d) reported %s and did not reproduce\n", i, t.badScen[i], seedOf(i), v.Kind)
				continue
			}
			violations++
			reported = true
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			break
		}
		if !reported {
			fail("a failing run did not reproduce: the simulation is not deterministic on this tree")
		}
		code = 1
	}
	t.evidence(p, tier, seed, explored, time.Since(t0), violations)
	fmt.Printf("%s %s: %d simulated runs in %.1fs (%.0f/h), %.0f s of simulated time, %d schedules, %d message orders, faults %v\n",
		id, tier, t.runs, explored.Seconds(), float64(t.runs)/explored.Hours(), float64(t.simNS)/1e9, len(t.hashes), len(t.orders), t.fired)
	for k, n := range t.other {
		fmt.Printf("NOTE: %d runs failed in a way this property does not speak about: %s\n", n, k)
	}
	if t.mismatch > 0 {
		fmt.Printf("NOTE: %d of %d repeated runs differed\n", t.mismatch, t.reRuns)
	}
	return code
}

func (t *tally) add(p *property, known []finding, i int, scen string, o *outcome) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if o.trouble != "" {
		t.troubles = append(t.troubles, fmt.Sprintf("run %d (%s): %s", i, scen, o.trouble))
		return
	}
	t.runs++
	t.wallSum += o.wall
	t.byScen[scen]++
	for k, n := range o.Notes {
		t.notes[k] += n
	}
	nf := 0
	for k, n := range o.Fired {
		t.fired[k] += n
		nf += n
	}
	if nf > 0 {
		t.faultRuns++
	}
	for k, n := range o.Stats {
		t.stats[k] += n
	}
	t.simNS += o.SimNS
	for i, b := range o.Reached {
		for len(t.reached) <= i {
			t.reached = append(t.reached, 0)
		}
		t.reached[i] |= b
	}
	t.picks += o.Picks
	t.yields += o.Yields
	t.preempt += int64(o.Preempt)
	if o.Done {
		t.hashes[o.Hash] = true
		t.orders[o.Order] = true
		if o.Notes["checked"] > 0 && (o.Preempt > 0 || o.Stats["messages"] > 0 || nf > 0) {
			t.nontriv[o.Hash] = true
		}
	}
	t.panics += len(o.Errors)
	if len(t.samples) < 3 && o.Done && o.Notes["checked"] > 0 {
		var pl Plan
		if json.Unmarshal(o.plan, &pl) == nil {
			s := map[string]interface{}{"scenario": scen, "seed": pl.Seed, "scheduler": pl.Sched, "network": pl.Net, "faults": pl.Faults, "fired": o.Fired,
				"simulated_s": float64(o.SimNS) / 1e9, "scheduling_decisions": o.Picks, "scheduling_points": o.Yields, "preemptions": o.Preempt,
				"messages": o.Stats["messages"], "checked": o.Notes["checked"]}
			if len(pl.P) < 3000 {
				s["parameters"] = pl.P
			}
			t.samples = append(t.samples, s)
		}
	}
	if v := p.first(o, known, scen); v != nil {
		t.bad[i] = o
		t.badScen[i] = scen
		if i < t.minBad {
			t.minBad = i
		}
		return
	}
	for j := range o.Violations {
		v := &o.Violations[j]
		if m := matchKnown(known, scen, p.id, v); m != nil {
			t.knownHit[m.What]++
		} else if !p.concerns(v) {
			t.other[v.Kind]++
		}
	}
}

func (t *tally) evidence(p *property, tier string, seed uint64, explored, wall time.Duration, violations int) {
	cov := map[string]interface{}{
		"evaluations":         t.runs,
		"distinct_nontrivial": len(t.nontriv),
		"rule": "One evaluation is one simulated run: parameters, schedule, delays and faults are drawn from a seed (VERIF_SEED*1000000007+i). " +
			"A run is non-trivial if its oracle judged at least one outcome and it carried messages, preemptions or faults; runs are distinct if the hash of their whole sequence of scheduling decisions differs.",
		"samples":                        t.samples,
		"runs_per_scenario":              t.byScen,
		"seeds":                          t.runs,
		"runs_per_hour":                  float64(t.runs) / explored.Hours(),
		"simulated_seconds":              float64(t.simNS) / 1e9,
		"faults_injected":                t.fired,
		"runs_with_faults":               t.faultRuns,
		"distinct_schedules":             len(t.hashes),
		"distinct_message_orders":        len(t.orders),
		"interleaving_measure":           "distinct_schedules: hash of the goroutine chosen at every scheduling decision with several candidates; distinct_message_orders: hash of the sequence (sender, receiver, message type) of all deliveries between servers",
		"scheduling_decisions":           t.picks,
		"scheduling_points":              t.yields,
		"preemptions":                    t.preempt,
		"traffic":                        t.stats,
		"statements_reached":             t.statements(),
		"oracle_counts":                  t.notes,
		"handler_panics":                 t.panics,
		"determinism_reruns":             t.reRuns,
		"determinism_mismatches":         t.mismatch,
		"failures_outside_this_property": t.other,
		"components_real":                p.real,
		"components_stubbed":             p.stubs,
		"known_findings_met":             t.knownHit,
	}
	if t.samples == nil {
		cov["samples"] = []interface{}{}
	}
	lvl := p.level
	if lvl == "" {
		lvl = "exploration"
	}
	ev := map[string]interface{}{"property": p.id, "tier": tier, "seed": int64(seed), "level": lvl, "coverage": cov, "wall_s": wall.Seconds(),
		"violations": violations, "assumptions": append(append([]string{}, commonAssumptions...), p.assume...)}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fail("%v", err)
	}
	os.MkdirAll(filepath.Join(verifDir, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(verifDir, "evidence", p.id+".json"), append(b, '\n'), 0644); err != nil {
		fail("%v", err)
	}
}

// statements tells how many of the statements of every package of the code were
// reached in any of the runs.
func (t *tally) statements() map[string]string {
	b, err := os.ReadFile(filepath.Join(buildDir(), "points"))
	if err != nil {
		return nil
	}
	got, all := map[string]int{}, map[string]int{}
	var missed []string
	for i, l := range strings.Split(string(b), "\n") {
		dir := filepath.Dir(l)
		all[dir]++
		if i/8 < len(t.reached) && t.reached[i/8]>>uint(i%8)&1 == 1 {
			got[dir]++
		} else {
			missed = append(missed, l)
		}
	}
	if f := os.Getenv("SIM_MISSED"); f != "" {
		os.WriteFile(f, []byte(strings.Join(missed, "\n")+"\n"), 0644)
	}
	out := map[string]string{}
	for d, n := range got {
		out[d] = fmt.Sprintf("%d of %d", n, all[d])
	}
	return out
}

var commonAssumptions = []string{
	"Go code runs on one thread: goroutines interleave at statements, map accesses and appends of the repository's code and at every blocking operation, not inside single machine operations.",
	"The network carries the real message encoding; TCP, TLS and the HTTP/websocket framing are replaced by the simulated network. Connections are reliable and ordered until they break.",
	"Cryptographic primitives (kyber's Ed25519) run for real with seeded randomness and are trusted.",
}
