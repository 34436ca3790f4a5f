package main

import (
	"fmt"
	"math"
	"sort"
	"sync"
	"time"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/store"
)

// Surveys whose results are obfuscated: the servers add a noise value that none of
// them chose to every aggregated value before they switch the results to the
// querier's key.

// shift compares an answer with the true one: the groups are the same and every
// value is off by one and the same amount, which it returns.
func shift(got, want map[string][]int64) (int64, string) {
	if len(got) != len(want) {
		return 0, diffAnswer(got, want)
	}
	first := true
	v := int64(0)
	var ks []string
	for k := range want {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := got[k]
		if !ok || len(g) != len(want[k]) {
			return 0, diffAnswer(got, want)
		}
		for i := range g {
			d := g[i] - want[k][i]
			if first {
				first, v = false, d
			}
			if d != v {
				return 0, fmt.Sprintf("value %d of group %s is %d off, another value %d (answer %v, without noise %v)", i, k, d, v, got, want)
			}
		}
	}
	return v, ""
}

// onNoiseList says whether v is one of the thousand values that stand for a Laplace
// distribution of scale 1 in steps of a tenth: a value k occurs once for every step
// that begins below the density at k.
func onNoiseList(v int64) bool {
	if v < 0 {
		v = -v
	}
	n := 0
	for k := int64(0); k < v; k++ {
		c := int(math.Ceil(math.Exp(-float64(k)) / 2 / 0.1))
		if k > 0 {
			c *= 2
		}
		n += c
	}
	return n < 1000
}

func (sr *surveyRun) obfuscated() (noise int64, ok bool) {
	s := sr.spec
	time.Sleep(time.Duration(s.StartUS) * time.Microsecond)
	if err := sr.create(); err != nil {
		sr.r.violate("create-failed", "survey %s: creation failed without any fault: %v", sr.name, err)
		return
	}
	var wg sync.WaitGroup
	for i := range s.DPs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			time.Sleep(time.Duration(s.DPs[i].AtUS) * time.Microsecond)
			if err := sr.upload(i); err != nil {
				sr.r.violate("upload-failed", "survey %s: upload %d failed without any fault: %v", sr.name, i, err)
			}
		}(i)
	}
	time.Sleep(time.Duration(s.ResultUS) * time.Microsecond)
	got, err := sr.results()
	wg.Wait()
	if err != nil {
		sr.r.violate("no-answer", "survey %s: no answer without any fault: %v", sr.name, err)
		return
	}
	noise, d := shift(got, s.expect())
	if d != "" {
		sr.r.violate("wrong-noise", "survey %s: %s", sr.name, d)
		return
	}
	sr.r.note("checked", 1)
	if len(got) == 0 {
		return 0, false
	}
	sr.r.note("nonempty", 1)
	if onNoiseList(noise) {
		return noise, true
	}
	sr.r.violate("foreign-noise", "survey %s: every value is %d off, which is not on the list of noise values", sr.name, noise)
	return
}

func init() {
	scenarios["obfuscated"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			// a list of a thousand values has many scheduling points: the time they take
			// has to stay far from the timeouts
			for x := &plan.Sched; x.YieldPPM*x.SleepPPM/1000000*x.MaxSleepUS > 100*1000000; {
				x.MaxSleepUS /= 2
			}
			n := p.between(1, 4)
			k := p.pick(1, 1, 1, 1, 1, 3)
			sp := surveyParams{Servers: n}
			for i := 0; i < k; i++ {
				s := genSurvey(p, n, "small")
				s.Proofs = p.chance(1, 12)
				s.Pred = nil // a value for every group
				s.StartUS = int64(p.n(2)) * int64(p.n(300000))
				sp.Surveys = append(sp.Surveys, s)
			}
			if k > 1 && p.chance(1, 2) { // one roster, one server that is asked
				for i := range sp.Surveys {
					s := &sp.Surveys[i]
					s.Members, s.Root = p.perm(n), 0
					if i > 0 {
						s.Members = sp.Surveys[0].Members
					}
					s.Ask = 0
					for j := range s.DPs {
						s.DPs[j].Server = p.n(n)
					}
				}
			}
			if k == 1 && p.chance(1, 4) {
				sp.Surveys[0] = genSurvey(p, n, "wide")
				sp.Surveys[0].Proofs = false
			}
			return sp
		},
		run: func(r *run) {
			var p surveyParams
			r.params(&p)
			if !libunlynx.SimObfuscate() {
				return // the code has no obfuscation
			}
			r.cluster(p.Servers)
			var wg sync.WaitGroup
			var mu sync.Mutex
			var seen []int64
			for i := range p.Surveys {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					v, ok := r.survey(&p.Surveys[i], fmt.Sprint(i)).obfuscated()
					mu.Lock()
					defer mu.Unlock()
					if ok {
						seen = append(seen, v)
					}
				}(i)
			}
			wg.Wait()
			same := len(seen) > 2
			for _, v := range seen {
				same = same && v == seen[0]
				if v != 0 {
					r.note("noisy", 1)
				}
			}
			if same {
				r.violate("same-noise", "the noise of all %d surveys is %d", len(seen), seen[0])
			}
		},
	}
	scenarios["noisystore"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} { return genNoisy(p) },
		run: runNoisy,
	}
}

// ---- the store ---------------------------------------------------------------

type noisyOp struct {
	Push  bool
	Deliv bool // the results for the querier, not the aggregated ones
	Noisy bool
	Noise int64
	Grps  []int64   `json:",omitempty"`
	Vals  [][]int64 `json:",omitempty"`
}

type noisyParams struct {
	Ops []noisyOp
}

func genNoisy(p *prng) noisyParams {
	var out noisyParams
	width := p.between(1, 4)
	if p.chance(1, 8) {
		width = p.between(99, 102)
	}
	for k := p.between(2, 8); k > 0; k-- {
		o := noisyOp{Push: p.chance(1, 2), Deliv: p.chance(1, 2), Noisy: p.chance(2, 3), Noise: int64(p.n(400)) - 200}
		if o.Push {
			for _, g := range p.perm(4)[:p.between(0, 3)] {
				var vs []int64
				for i := 0; i < width; i++ {
					vs = append(vs, int64(p.n(500)))
				}
				o.Grps, o.Vals = append(o.Grps, int64(g)), append(o.Vals, vs)
			}
		}
		out.Ops = append(out.Ops, o)
	}
	return out
}

func runNoisy(r *run) {
	var p noisyParams
	r.params(&p)
	sec, pub := libunlynx.GenKey()
	st := libunlynxstore.NewStore()
	aggr := map[string][]int64{} // the reference
	deliv := map[string][]int64{}
	for n, o := range p.Ops {
		if o.Push {
			rows := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
			var list []libunlynx.FilteredResponse
			if o.Deliv {
				deliv = map[string][]int64{}
			}
			for i, g := range o.Grps {
				fr := libunlynx.FilteredResponse{GroupByEnc: *libunlynx.EncryptIntVector(pub, []int64{g}), AggregatingAttributes: *libunlynx.EncryptIntVector(pub, o.Vals[i])}
				key := fmt.Sprint([]int64{g})
				if o.Deliv {
					list = append(list, fr)
					deliv[key] = o.Vals[i]
					continue
				}
				rows[libunlynx.GroupingKey(key)] = fr
				sum := append([]int64{}, o.Vals[i]...)
				for j := range aggr[key] {
					sum[j] += aggr[key][j]
				}
				aggr[key] = sum
			}
			if o.Deliv {
				st.PushQuerierKeyEncryptedResponses(list)
			} else {
				st.PushCothorityAggregatedFilteredResponses(rows)
			}
			continue
		}
		noise := *libunlynx.EncryptInt(pub, o.Noise)
		var res []libunlynx.FilteredResponse
		want := aggr
		if o.Deliv {
			want = deliv
			res = st.PullDeliverableResults(o.Noisy, noise)
			deliv = map[string][]int64{}
		} else {
			res = st.PullCothorityAggregatedFilteredResponses(o.Noisy, noise)
			aggr = map[string][]int64{}
		}
		got := map[string][]int64{}
		for _, fr := range res {
			got[fmt.Sprint(libunlynx.DecryptIntVectorWithNeg(sec, &fr.GroupByEnc))] = libunlynx.DecryptIntVectorWithNeg(sec, &fr.AggregatingAttributes)
		}
		exp := map[string][]int64{}
		for k, vs := range want {
			for _, v := range vs {
				if o.Noisy {
					v += o.Noise
				}
				exp[k] = append(exp[k], v)
			}
		}
		if d := diffAnswer(got, exp); d != "" {
			r.violate("wrong-noise", "operation %d: results taken out of the store (noise %v): %s", n, o.Noisy, d)
			return
		}
		r.note("checked", 1)
	}
}
