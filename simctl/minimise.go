package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sync"
	"time"
)

type replayFile struct {
	Property  string
	Seed      uint64
	Tier      string
	Violation Violation
	Outcome   string
	Minimised string
	Plan      Plan
}

// same tells whether a run shows the violation that is being minimised.
func same(p *property, known []finding, scen string, o *outcome, kind string) *Violation {
	if o.trouble != "" {
		return nil
	}
	if v := p.first(o, known, scen); v != nil && v.Kind == kind {
		return v
	}
	return nil
}

// report confirms, minimises and writes the replay file of a failing run.
func report(p *property, known []finding, scen string, seed uint64, tier string, o *outcome, v *Violation) (string, bool) {
	var plan Plan
	if err := json.Unmarshal(o.plan, &plan); err != nil {
		return "", false
	}
	again := runPlan(&plan)
	if same(p, known, scen, again, v.Kind) == nil {
		return "", false
	}
	best := plan
	bestV := *v
	how := "not minimised"
	deadline := time.Now().Add(60 * time.Second)
	try := func(c Plan) bool {
		if time.Now().After(deadline) {
			return false
		}
		if x := same(p, known, scen, runPlan(&c), v.Kind); x != nil {
			best, bestV = c, *x
			return true
		}
		return false
	}
	if os.Getenv("SIM_NOMIN") == "" && v.Kind != "hang" {
		nf := len(best.Faults)
		ns := 0
		// 1. fewer faults
		for n := len(best.Faults); n >= 1; {
			shrunk := false
			for i := 0; i < len(best.Faults); i += n {
				c := best
				hi := i + n
				if hi > len(best.Faults) {
					hi = len(best.Faults)
				}
				c.Faults = append(append([]json.RawMessage{}, best.Faults[:i]...), best.Faults[hi:]...)
				if try(c) {
					shrunk = true
					break
				}
			}
			if !shrunk {
				n /= 2
			}
		}
		// 2. a smaller case: drop elements of the parameter lists, with the same or
		// a few other schedules
		for progress := true; progress && time.Now().Before(deadline); {
			progress = false
			for _, cand := range shrinkJSON(best.P) {
				c := best
				c.P = cand
				if try(c) {
					progress = true
					ns++
					break
				}
			}
		}
		// 3. the fewest deviations from the plain schedule
		full := runPlan(&best)
		if x := same(p, known, scen, full, v.Kind); x != nil && full.sched.ok && !full.sched.overflow {
			c := best
			c.Sched.Explicit = true
			c.Sched.Picks, c.Sched.Yields = full.sched.picks, full.sched.yields
			if try(c) {
				minimiseSched(&best, &bestV, p, known, scen, v.Kind, deadline)
			}
		}
		how = fmt.Sprintf("faults %d -> %d, case shrunk in %d steps, schedule: %d picks and %d preemptions out of %d and %d recorded", nf, len(best.Faults), ns,
			len(best.Sched.Picks)/2, len(best.Sched.Yields)/2, len(full.sched.picks)/2, len(full.sched.yields)/2)
	}
	dir := filepath.Join(buildDir(), "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", p.id, seed))
	b, _ := json.MarshalIndent(replayFile{Property: p.id, Seed: seed, Tier: tier, Violation: bestV, Outcome: again.Outcome, Minimised: how, Plan: best}, "", " ")
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fail("%v", err)
	}
	d := bestV.Detail
	if len(d) > 600 {
		d = d[:600] + "..."
	}
	fmt.Printf("%s: %s in scenario %s, seed %d: %s\n(%s)\n", p.id, bestV.Kind, scen, seed, d, how)
	return path, true
}

// minimiseSched removes recorded deviations by delta debugging, several
// candidates at a time.
func minimiseSched(best *Plan, bestV *Violation, p *property, known []finding, scen, kind string, deadline time.Time) {
	get := func(c *Plan, which int) []int64 {
		if which == 0 {
			return c.Sched.Picks
		}
		return c.Sched.Yields
	}
	set := func(c *Plan, which int, l []int64) {
		if which == 0 {
			c.Sched.Picks = l
		} else {
			c.Sched.Yields = l
		}
	}
	for which := 0; which < 2; which++ {
		chunk := len(get(best, which)) / 2
		for chunk >= 1 && time.Now().Before(deadline) {
			list := get(best, which)
			n := len(list) / 2
			type res struct {
				c Plan
				v *Violation
			}
			var cands []Plan
			for lo := 0; lo < n; lo += chunk {
				hi := lo + chunk
				if hi > n {
					hi = n
				}
				c := *best
				set(&c, which, append(append([]int64{}, list[:2*lo]...), list[2*hi:]...))
				cands = append(cands, c)
			}
			shrunk := false
			for b := 0; b < len(cands) && !shrunk && time.Now().Before(deadline); b += 8 {
				e := b + 8
				if e > len(cands) {
					e = len(cands)
				}
				rs := make([]res, e-b)
				var wg sync.WaitGroup
				for k := b; k < e; k++ {
					wg.Add(1)
					go func(k int) {
						defer wg.Done()
						rs[k-b] = res{cands[k], same(p, known, scen, runPlan(&cands[k]), kind)}
					}(k)
				}
				wg.Wait()
				for _, r := range rs {
					if r.v != nil {
						*best, *bestV = r.c, *r.v
						shrunk = true
						break
					}
				}
			}
			if !shrunk {
				chunk /= 2
			} else if m := len(get(best, which)) / 2; chunk > m {
				chunk = m
			}
		}
	}
}

// shrinkJSON proposes smaller parameter sets: every list of objects in the
// parameters with one element less.
func shrinkJSON(b json.RawMessage) []json.RawMessage {
	var v interface{}
	dec := json.NewDecoder(bytesReader(b))
	dec.UseNumber()
	if dec.Decode(&v) != nil {
		return nil
	}
	var out []json.RawMessage
	emit := func() {
		if x, err := json.Marshal(v); err == nil {
			out = append(out, x)
		}
	}
	var walk func(x interface{}, set func(interface{}))
	walk = func(x interface{}, set func(interface{})) {
		switch t := x.(type) {
		case map[string]interface{}:
			for _, k := range keys(t) {
				k := k
				walk(t[k], func(n interface{}) { t[k] = n })
			}
		case []interface{}:
			if len(t) > 0 {
				if _, ok := t[0].(map[string]interface{}); ok {
					if len(t) > 4 {
						set(t[:len(t)/2])
						emit()
						set(t[len(t)/2:])
						emit()
					}
					if len(t) > 1 {
						for i := range t {
							set(append(append([]interface{}{}, t[:i]...), t[i+1:]...))
							emit()
						}
					}
					set(t)
				}
			}
			for i := range t {
				i := i
				walk(t[i], func(n interface{}) { t[i] = n })
			}
		}
	}
	walk(v, func(interface{}) {})
	return out
}

func replay(path string) int {
	defer cleanup()
	var rf replayFile
	b, err := os.ReadFile(path)
	if err != nil {
		fail("%v", err)
	}
	if err := json.Unmarshal(b, &rf); err != nil {
		fail("%v", err)
	}
	p := properties[rf.Property]
	if p == nil {
		fail("no property %q", rf.Property)
	}
	o := runPlan(&rf.Plan)
	if o.trouble != "" {
		fail("%s", o.trouble)
	}
	for i := range o.Violations {
		v := &o.Violations[i]
		fmt.Printf("%s: %s\n", v.Kind, v.Detail)
	}
	for _, e := range o.Errors {
		fmt.Println("handler panic:", e)
	}
	if v := same(p, nil, rf.Plan.Scenario, o, rf.Violation.Kind); v != nil {
		if v.Detail == rf.Violation.Detail {
			fmt.Println("reproduced exactly")
		} else {
			fmt.Printf("reproduced the same kind of violation with other details; recorded: %s\n", rf.Violation.Detail)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, path)
		return 1
	}
	fmt.Println("the recorded violation does not occur on this tree")
	return 0
}
