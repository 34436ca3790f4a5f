package main

import (
	"fmt"
	"strings"
	"sync"
	"time"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/services"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
)

// Runs of the whole service with several surveys, many data providers, faults.

// ---- several surveys at once -------------------------------------------------

func init() {
	scenarios["multi"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			n := p.between(2, 5)
			sp := surveyParams{Servers: n}
			k := p.between(2, 4)
			base := genSurvey(p, n, "small")
			for i := 0; i < k; i++ {
				s := genSurvey(p, n, "small")
				if p.chance(1, 2) {
					// same query and roster, other data: mixing surveys up is not noticed by type
					d := s.DPs
					s = base
					s.DPs = append([]dpSpec{}, base.DPs...)
					for j := range s.DPs {
						s.DPs[j].Resps = append([]respSpec{}, base.DPs[j].Resps...)
						for q := range s.DPs[j].Resps {
							r := &s.DPs[j].Resps[q]
							r.Sum = append([]int64{}, r.Sum...)
							for x := range r.Sum {
								r.Sum[x] = int64(p.n(90))
							}
						}
					}
					_ = d
					s.Root = p.n(len(s.Members))
					s.Ask = s.Root
				}
				s.StartUS = int64(p.n(3)) * int64(p.n(300000))
				sp.Surveys = append(sp.Surveys, s)
			}
			return sp
		},
		run: runSurveys,
	}
}

// ---- many uploads ------------------------------------------------------------

func init() {
	scenarios["uploads"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			n := p.between(1, 3)
			s := genSurvey(p, n, "small")
			s.Members = p.perm(n)
			s.Root = p.n(n)
			s.Ask = s.Root
			s.Proofs = p.chance(1, 10)
			nd := p.between(3, 16)
			crowd := p.chance(1, 12)
			if crowd { // more data providers at one server than any fixed buffer has room for
				nd = p.between(100, 140)
				s.Proofs = false
				s.NGroup, s.NSum = p.n(2), 1
			}
			if s.NWhere == 0 {
				s.Pred = nil
			}
			proto := s.DPs[0]
			fav := p.n(n)
			burst := p.chance(1, 2)
			clear := p.chance(1, 2)
			fix := func(x []bool, k int, v bool) []bool {
				y := make([]bool, k)
				for i := range y {
					y[i] = v
				}
				return y
			}
			s.DPs = nil
			for i := 0; i < nd; i++ {
				d := dpSpec{Server: fav, AtUS: int64(p.n(20000))}
				if p.chance(1, 4) {
					d.Server = p.n(n)
				}
				if burst {
					d.AtUS = 0
				}
				d.EncW, d.EncG, d.EncS = fix(proto.EncW, s.NWhere, !clear), fix(proto.EncG, s.NGroup, !clear), fix(proto.EncS, s.NSum, true)
				k := p.between(1, 3)
				if crowd {
					k = 1
				}
				for ; k > 0; k-- {
					r := respSpec{Where: []int64{}, Group: []int64{}, Sum: []int64{}}
					for j := 0; j < s.NWhere; j++ {
						r.Where = append(r.Where, int64(p.n(2)))
					}
					for j := 0; j < s.NGroup; j++ {
						r.Group = append(r.Group, int64(p.n(2)))
					}
					for j := 0; j < s.NSum; j++ {
						r.Sum = append(r.Sum, int64(p.n(100)))
					}
					d.Resps = append(d.Resps, r)
				}
				s.DPs = append(s.DPs, d)
			}
			for i := range s.WhereVal {
				s.WhereVal[i] = int64(p.n(2))
			}
			// the results are asked for before, during or after the uploads
			s.ResultUS = int64(p.pick(0, 5000, 20000, 400000))
			if crowd && p.chance(2, 3) {
				s.ResultUS = 2000000
			}
			return surveyParams{Servers: n, Surveys: []surveySpec{s}}
		},
		run: runUploads,
	}
}

// runUploads is a survey whose uploads must all be acknowledged, also when
// nobody has asked for the results yet.
func runUploads(r *run) {
	var p surveyParams
	r.params(&p)
	r.cluster(p.Servers)
	s := &p.Surveys[0]
	sr := r.survey(s, "0")
	if err := sr.create(); err != nil {
		r.violate("create-failed", "creation failed without any fault: %v", err)
		return
	}
	var wg, early sync.WaitGroup
	acked := make([]bool, len(s.DPs))
	waitAll := s.ResultUS >= 2000000
	for i := range s.DPs {
		wg.Add(1)
		early.Add(1)
		go func(i int) {
			defer wg.Done()
			defer early.Done()
			time.Sleep(time.Duration(s.DPs[i].AtUS) * time.Microsecond)
			if err := sr.upload(i); err != nil {
				r.violate("upload-failed", "upload %d of %d to server %d failed without any fault: %v", i, len(s.DPs), s.DPs[i].Server, err)
				return
			}
			acked[i] = true
		}(i)
	}
	if waitAll {
		early.Wait()
		r.note("acknowledged-before-results", int64(len(s.DPs)))
	} else {
		time.Sleep(time.Duration(s.ResultUS) * time.Microsecond)
	}
	got, err := sr.results()
	if err != nil {
		r.violate("no-answer", "no answer without any fault: %v", err)
		return
	}
	wg.Wait()
	if d := diffAnswer(got, s.expect()); d != "" {
		r.violate("wrong-answer", "%d uploads: %s", len(s.DPs), d)
		return
	}
	r.note("checked", 1)
	r.note("uploads", int64(len(s.DPs)))
}

// ---- uploads that nobody announced -------------------------------------------

func init() {
	scenarios["unannounced"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			n := p.between(1, 3)
			s := genSurvey(p, n, "small")
			s.Members = p.perm(n)
			s.Root = p.n(n)
			s.Ask = s.Root
			if p.chance(1, 3) {
				s.Ask = p.n(n)
			}
			s.Proofs = p.chance(1, 12)
			gap := int64(p.pick(1000, 20000, 100000))
			fav, clear := p.n(n), p.chance(1, 3)
			nd := p.between(2, 8)
			for len(s.DPs) < nd {
				s.DPs = append(s.DPs, s.DPs[p.n(len(s.DPs))])
			}
			s.DPs = s.DPs[:nd]
			for i := range s.DPs {
				d := &s.DPs[i]
				d.AtUS = int64(p.n(10)) * gap
				d.Unannounced = p.chance(2, 3)
				if p.chance(1, 2) {
					d.Server = fav
				}
				all := func(x []bool) []bool {
					y := make([]bool, len(x))
					for j := range y {
						y[j] = !clear
					}
					return y
				}
				if p.chance(2, 3) {
					d.EncW, d.EncG = all(d.EncW), all(d.EncG)
				}
				resps := append([]respSpec{}, d.Resps...)
				for j := range resps { // no two sets of uploads have the same sums
					x := make([]int64, len(resps[j].Sum))
					for l := range x {
						x[l] = int64(p.n(1000))
					}
					resps[j].Sum = x
				}
				d.Resps = resps
			}
			s.ResultUS = int64(p.n(10)) * gap
			return surveyParams{Servers: n, Surveys: []surveySpec{s}}
		},
		run: runUnannounced,
	}
}

// runUnannounced is a survey some of whose uploads the creation did not
// announce, so that the servers do not wait for them: they may come before, while
// and after the results are computed. One that was acknowledged before is in the answer;
// one that comes later is in it as a whole or not at all.
func runUnannounced(r *run) {
	var p surveyParams
	r.params(&p)
	r.cluster(p.Servers)
	s := &p.Surveys[0]
	sr := r.survey(s, "0")
	if err := sr.create(); err != nil {
		r.violate("create-failed", "creation failed without any fault: %v", err)
		return
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	begun, acked := map[int]bool{}, map[int]bool{}
	for i := range s.DPs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			time.Sleep(time.Duration(s.DPs[i].AtUS) * time.Microsecond)
			mu.Lock()
			begun[i] = true
			mu.Unlock()
			if err := sr.upload(i); err != nil {
				r.violate("upload-failed", "upload %d of %d to server %d failed without any fault: %v", i, len(s.DPs), s.DPs[i].Server, err)
				return
			}
			mu.Lock()
			acked[i] = true
			mu.Unlock()
		}(i)
	}
	time.Sleep(time.Duration(s.ResultUS) * time.Microsecond)
	mu.Lock()
	must := map[int]bool{}
	for i := range acked {
		must[i] = true
	}
	mu.Unlock()
	got, err := sr.results()
	if err != nil {
		r.violate("no-answer", "no answer without any fault: %v", err)
		return
	}
	mu.Lock()
	var free []int
	for i := range s.DPs {
		if begun[i] && !must[i] {
			free = append(free, i)
		}
	}
	mu.Unlock()
	if d, ok := s.someAnswer(got, must, free); !ok {
		r.violate("wrong-answer", "the answer is that of no set of uploads with the %d acknowledged before it was asked for and some of the %d under way: with all of them, %s", len(must), len(free), d)
		return
	}
	wg.Wait()
	r.note("checked", 1)
	r.note("uploads", int64(len(s.DPs)))
	r.note("under-way", int64(len(free)))
}

// ---- slow data providers -----------------------------------------------------

type waitParams struct {
	surveyParams
	Patient bool // the querier waits as long as it takes
}

func init() {
	scenarios["wait"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			n := p.between(1, 5)
			s := genSurvey(p, n, "small")
			s.ResultUS = int64(p.n(2)) * int64(p.n(2000000))
			wp := waitParams{Patient: p.chance(1, 3)}
			scale := int64(p.pick(100, 5000, 100000, 230000, 285000)) // milliseconds
			if wp.Patient {
				scale = int64(p.pick(5000, 285000, 700000, 2000000, 6000000))
				plan.TimeoutMS = int64(p.pick(0, 0, 60000, 200000))
			}
			only := p.chance(1, 2) // only the data providers of the asked server are late
			for i := range s.DPs {
				if p.chance(2, 3) && !(only && wp.Patient && s.DPs[i].Server != s.Ask) {
					s.DPs[i].AtUS = int64(p.n(1000)) * scale
				}
			}
			wp.surveyParams = surveyParams{Servers: n, Surveys: []surveySpec{s}}
			return wp
		},
		run: func(r *run) {
			var p waitParams
			r.params(&p)
			r.cluster(p.Servers)
			s := &p.Surveys[0]
			sr := r.survey(s, "0")
			var mu sync.Mutex
			pending := len(s.DPs)
			var wg sync.WaitGroup
			if err := sr.create(); err != nil {
				r.violate("create-failed", "creation failed without any fault: %v", err)
				return
			}
			for i := range s.DPs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					time.Sleep(time.Duration(s.DPs[i].AtUS) * time.Microsecond)
					mu.Lock()
					pending-- // the upload is under way from here on
					mu.Unlock()
					if err := sr.upload(i); err != nil {
						r.violate("upload-failed", "upload %d failed without any fault: %v", i, err)
					}
				}(i)
			}
			time.Sleep(time.Duration(s.ResultUS) * time.Microsecond)
			ask := sr.results
			if p.Patient {
				ask = sr.patientResults
			}
			got, err := ask()
			if err != nil && p.Patient {
				// the asked server gives up when others are not ready in time after itself
				own, other := s.ResultUS, int64(0)
				for _, d := range s.DPs {
					if d.Server == s.Ask && d.AtUS > own {
						own = d.AtUS
					} else if d.Server != s.Ask && d.AtUS > other {
						other = d.AtUS
					}
				}
				if time.Duration(other-own)*time.Microsecond > libunlynx.TIMEOUT-30*time.Second {
					r.note("gave-up", 1)
					wg.Wait()
					return
				}
			}
			if err != nil {
				r.violate("no-answer", "no answer although all announced data providers upload: %v", err)
				return
			}
			mu.Lock()
			left := pending
			mu.Unlock()
			if left > 0 {
				r.violate("early-answer", "answered although %d of %d announced data providers have not begun to upload", left, len(s.DPs))
				return
			}
			wg.Wait()
			if d := diffAnswer(got, s.expect()); d != "" {
				r.violate("wrong-answer", "%s", d)
				return
			}
			r.note("checked", 1)
		},
	}
}

// ---- faults ------------------------------------------------------------------

type faultParams struct {
	surveyParams
	Quick    []int // surveys that retry the results query after a failure
	Retries  int
	PauseMS  int64
	Fresh    *surveySpec `json:",omitempty"` // asked after the faults
	CalmMS   int64       // calm before the fresh survey
	Patience int64       `json:",omitempty"` // milliseconds after which the querier gives up an attempt
	Early    bool        // the faults start before the creation
}

var allFaults = []string{"reset", "partition", "isolate", "stall", "crash", "client-request", "client-response", "client-abandon", "crash"}

func genFaulty(p *prng, plan *Plan, kinds []string) faultParams {
	n := p.between(2, 5)
	fp := faultParams{Retries: p.pick(0, 1, 1, 2, 3, 4), PauseMS: int64(p.pick(0, 10, 1000, 60000, 301000, 650000))}
	fp.Servers = n
	for k := p.between(1, 2); k > 0; k-- {
		s := genSurvey(p, n, "small")
		s.Proofs = p.chance(1, 12)
		if p.chance(1, 2) && len(s.DPs) > 2 { // few data providers: many servers have no data
			s.DPs = s.DPs[:p.between(1, 2)]
		}
		if p.chance(2, 3) {
			s.Members = p.perm(n)
			s.Root = p.n(n)
			s.Ask = s.Root
			for i := range s.DPs {
				s.DPs[i].Server = p.n(n)
			}
		}
		s.StartUS = int64(p.n(2)) * int64(p.n(200000))
		fp.Surveys = append(fp.Surveys, s)
	}
	fp.Early = p.chance(1, 3)
	if p.chance(1, 6) {
		fp.Patience = int64(p.pick(1, 10, 200, 2000, 20000))
		fp.PauseMS = int64(p.pick(0, 10, 1000))
	}
	plan.Faults = genFaults(p, n, 3, 60, kinds...)
	impatientServers(p, plan)
	return fp
}

// attempt is one survey under faults: whatever comes back as an answer must be
// the exact answer over the acknowledged uploads and any of the uploads whose
// outcome the data provider does not know.
func (sr *surveyRun) attempt(fp *faultParams, armed func()) {
	r, s := sr.r, sr.spec
	time.Sleep(time.Duration(s.StartUS) * time.Microsecond)
	err := sr.create()
	for i := 0; err != nil && i < fp.Retries; i++ {
		time.Sleep(time.Duration(fp.PauseMS) * time.Millisecond)
		err = sr.create()
	}
	if err != nil {
		r.note("creations-failed", 1)
		return
	}
	armed()
	const (
		open = iota
		acked
		unknown
		refused
	)
	state := make([]int, len(s.DPs))
	var mu sync.Mutex
	var wg sync.WaitGroup
	for i := range s.DPs {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			time.Sleep(time.Duration(s.DPs[i].AtUS) * time.Microsecond)
			mu.Lock()
			state[i] = unknown
			mu.Unlock()
			err := sr.upload(i)
			mu.Lock()
			defer mu.Unlock()
			switch {
			case err == nil:
				state[i] = acked
			case strings.Contains(err.Error(), errDown.Error()):
				state[i] = refused
			case strings.Contains(err.Error(), "simulated: websocket closed"):
				state[i] = refused
			}
		}(i)
	}
	time.Sleep(time.Duration(s.ResultUS) * time.Microsecond)
	for try := 0; try <= fp.Retries; try++ {
		mu.Lock()
		before := append([]int{}, state...)
		mu.Unlock()
		got, err := sr.impatient(fp.Patience, try < fp.Retries)
		if err != nil {
			if strings.HasPrefix(err.Error(), "DUPLICATE") {
				r.violate("wrong-answer", "survey %s, attempt %d: %v", sr.name, try, err)
				return
			}
			r.note("failed-attempts", 1)
			time.Sleep(time.Duration(fp.PauseMS) * time.Millisecond)
			continue
		}
		mu.Lock()
		var free []int
		must := map[int]bool{}
		for i := range state {
			switch {
			case before[i] == acked:
				must[i] = true
			case state[i] == refused:
			default:
				free = append(free, i)
			}
		}
		mu.Unlock()
		best, ok := s.someAnswer(got, must, free)
		if !ok {
			r.violate("wrong-answer", "survey %s, attempt %d: the answer is that of no set of uploads with all acknowledged ones (%d acknowledged before, %d open): %s", sr.name, try, len(must), len(free), best)
			return
		}
		r.note("checked", 1)
		if try > 0 {
			r.note("answered-after-retry", 1)
		}
		return
	}
	r.note("unanswered", 1)
	r.note("checked", 1)
}

// someAnswer says whether an answer is that of the uploads that must be in it and some of the free ones; if
// not, how it differs from that of all of them.
func (s *surveySpec) someAnswer(got map[string][]int64, must map[int]bool, free []int) (string, bool) {
	if len(free) > 12 {
		free = free[:12]
	}
	best, ok := "", false
	for m := 0; m < 1<<len(free) && !ok; m++ {
		part := func(i int) bool {
			if must[i] {
				return true
			}
			for j, f := range free {
				if f == i {
					return m>>j&1 == 1
				}
			}
			return false
		}
		d := diffAnswer(got, s.expectOf(part))
		ok = d == ""
		if m == 1<<len(free)-1 {
			best = d
		}
	}
	return best, ok
}

// impatient asks for the results and gives up after a while: the server does
// not notice.
func (sr *surveyRun) impatient(ms int64, may bool) (map[string][]int64, error) {
	if ms == 0 || !may {
		return sr.results()
	}
	type ans struct {
		got map[string][]int64
		err error
	}
	c := make(chan ans, 1)
	go func() {
		got, err := sr.results()
		c <- ans{got, err}
	}()
	select {
	case a := <-c:
		return a.got, a.err
	case <-time.After(time.Duration(ms) * time.Millisecond):
		sr.r.note("abandoned-attempts", 1)
		return nil, errReset
	}
}

func runFaulty(r *run) {
	var fp faultParams
	r.params(&fp)
	r.cluster(fp.Servers)
	var once sync.Once
	armed := func() { once.Do(func() { r.net.startFaults(r.plan.Faults) }) }
	if fp.Early {
		armed()
	}
	var wg sync.WaitGroup
	for i := range fp.Surveys {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r.survey(&fp.Surveys[i], fmt.Sprint(i)).attempt(&fp, armed)
		}(i)
	}
	if fp.Fresh == nil {
		wg.Wait()
		return
	}
	// recovery: the faults end while the surveys may still be under way
	time.Sleep(time.Duration(fp.CalmMS) * time.Millisecond)
	once.Do(func() {}) // no faults from here on
	r.net.stopFaults()
	r.net.restartAll()
	defaultTimeout()
	time.Sleep(time.Second)
	sr := r.survey(fp.Fresh, "fresh")
	sr.play()
}

func init() {
	scenarios["faults"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} { return genFaulty(p, plan, allFaults) },
		run: runFaulty, horizon: 12 * time.Hour,
	}
	scenarios["recovery"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			fp := genFaulty(p, plan, allFaults)
			if p.chance(1, 6) { // many surveys that fail
				s := fp.Surveys[0]
				s.Proofs = false
				if len(s.DPs) > 2 {
					s.DPs = s.DPs[:2]
				}
				fp.Surveys = nil
				k := p.between(6, 20)
				spread := p.pick(0, 20000, 500000)
				for i := 0; i < k; i++ {
					s.StartUS = int64(i * spread)
					fp.Surveys = append(fp.Surveys, s)
				}
				fp.Retries = p.n(2)
				plan.Faults = genFaults(p, fp.Servers, 4+k/2, 40*k, allFaults...)
			}
			s := genSurvey(p, fp.Servers, "small")
			s.Proofs = false
			// onet asks for a tree it does not know only once: when that request is lost, the
			// server never learns a tree over the same roster. The fresh survey has its own.
			used := map[string]bool{}
			for _, o := range fp.Surveys {
				used[fmt.Sprint(o.Members)] = true
			}
			for i := 0; used[fmt.Sprint(s.Members)]; i++ {
				perm := p.perm(fp.Servers)
				if i > 20 { // two servers, both orders used
					fp.Surveys = fp.Surveys[:1]
					used = map[string]bool{fmt.Sprint(fp.Surveys[0].Members): true}
					s.Members = perm
				}
				var m []int
				for _, x := range perm {
					if x < len(s.Members) || len(s.Members) == fp.Servers {
						m = append(m, x)
					}
				}
				s.Members = m
			}
			fp.Fresh = &s
			fp.CalmMS = int64(p.pick(200, 2000, 30000, 200000, 900000))
			return fp
		},
		run: runFaulty, horizon: 12 * time.Hour,
	}
}

// ---- several queriers --------------------------------------------------------

type askSpec struct {
	At     int // position of the server
	WaitUS int64
}

type askersParams struct {
	surveyParams
	Asks []askSpec
}

func init() {
	scenarios["askers"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			ap := askersParams{}
			ap.Servers = p.between(1, 5)
			s := genSurvey(p, ap.Servers, "small")
			if p.chance(1, 2) && len(s.DPs) > 2 {
				s.DPs = s.DPs[:p.between(1, 2)]
			}
			ap.Surveys = []surveySpec{s}
			spread := int64(p.pick(0, 1000, 50000, 500000, 5000000))
			for k := p.between(2, 5); k > 0; k-- {
				ap.Asks = append(ap.Asks, askSpec{p.n(len(s.Members)), int64(p.n(3)) * spread})
			}
			if p.chance(1, 3) {
				for i := range ap.Asks {
					ap.Asks[i].At = ap.Asks[0].At
				}
			}
			return ap
		},
		run: func(r *run) {
			var p askersParams
			r.params(&p)
			r.cluster(p.Servers)
			s := &p.Surveys[0]
			sr := r.survey(s, "0")
			if err := sr.create(); err != nil {
				r.violate("create-failed", "creation failed without any fault: %v", err)
				return
			}
			var wg sync.WaitGroup
			for i := range s.DPs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					time.Sleep(time.Duration(s.DPs[i].AtUS) * time.Microsecond)
					if err := sr.upload(i); err != nil {
						r.violate("upload-failed", "upload %d failed without any fault: %v", i, err)
					}
				}(i)
			}
			good := 0
			var mu sync.Mutex
			var errs []string
			for i, a := range p.Asks {
				wg.Add(1)
				go func(i int, a askSpec) {
					defer wg.Done()
					time.Sleep(time.Duration(a.WaitUS) * time.Microsecond)
					q := r.survey(s, fmt.Sprintf("0-%d", i))
					spec := *s
					spec.Ask, spec.Root = a.At, -1
					q.spec, q.id = &spec, sr.id
					got, err := q.results()
					mu.Lock()
					defer mu.Unlock()
					if err != nil {
						errs = append(errs, err.Error())
						if strings.HasPrefix(err.Error(), "DUPLICATE") {
							r.violate("wrong-answer", "querier %d: %v", i, err)
						}
						return
					}
					good++
					if d := diffAnswer(got, s.expect()); d != "" {
						r.violate("wrong-answer", "querier %d of %d: %s", i, len(p.Asks), d)
					}
				}(i, a)
			}
			wg.Wait()
			if good == 0 {
				r.violate("no-answer", "none of %d queriers has an answer: %s", len(p.Asks), strings.Join(errs, "; "))
			}
			r.note("answers", int64(good))
			r.note("refused", int64(len(errs)))
			r.note("checked", 1)
		},
	}
}

// ---- requests that make no sense ---------------------------------------------

type badReq struct {
	Kind string
	At   int // position of the server in the roster of survey 0
	AtUS int64
	Arg  int
}

type badParams struct {
	surveyParams
	Bad []badReq
}

var badPredicates = []string{"v0 ==", "(v0 == v1", "v0 == v1 &&", "v0", "v99 == v0", "v0 - 3 == v1", "3", "!v0", "v0 && v1", "v0 == v1 ? 1 : 2", "v0 == v1 \\", "\\"}

func init() {
	scenarios["badrequests"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			bp := badParams{}
			bp.Servers = p.between(1, 4)
			s := genSurvey(p, bp.Servers, "small")
			s.Proofs = false
			bp.Surveys = []surveySpec{s}
			for k := p.between(1, 4); k > 0; k-- {
				b := badReq{Kind: p.pickS("unknown-upload", "unknown-results", "bad-ciphertext", "bad-ciphertext", "bad-predicate", "bad-predicate", "unknown-server", "malformed", "malformed", "malformed"),
					At: p.n(len(s.Members)), AtUS: int64(p.n(3)) * int64(p.n(200000)), Arg: p.n(1000)}
				if b.Kind == "bad-predicate" { // a survey of its own
					o := genSurvey(p, bp.Servers, "small")
					o.Proofs = false
					o.NWhere = 1
					o.WhereVal = []int64{1}
					o.Pred = nil
					for i := range o.DPs {
						d := &o.DPs[i]
						d.Extra = false
						d.EncW = []bool{p.chance(1, 2)}
						for j := range d.Resps {
							d.Resps[j].Where = []int64{int64(p.n(2))}
						}
					}
					b.Arg = len(bp.Surveys)*1000 + p.n(len(badPredicates))
					bp.Surveys = append(bp.Surveys, o)
				}
				bp.Bad = append(bp.Bad, b)
			}
			return bp
		},
		run: func(r *run) {
			var p badParams
			r.params(&p)
			r.cluster(p.Servers)
			s := &p.Surveys[0]
			sr := r.survey(s, "0")
			if err := sr.create(); err != nil {
				r.violate("create-failed", "creation failed: %v", err)
				return
			}
			var wg, bad sync.WaitGroup
			for i := range s.DPs {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					time.Sleep(time.Duration(s.DPs[i].AtUS) * time.Microsecond)
					if err := sr.upload(i); err != nil {
						r.violate("upload-failed", "upload %d failed: %v", i, err)
					}
				}(i)
			}
			for i := range p.Bad {
				bad.Add(1)
				go func(i int) {
					defer bad.Done()
					time.Sleep(time.Duration(p.Bad[i].AtUS) * time.Microsecond)
					r.badRequest(&p, sr, i)
				}(i)
			}
			time.Sleep(time.Duration(s.ResultUS) * time.Microsecond)
			got, err := sr.results()
			wg.Wait()
			if err != nil {
				r.violate("no-answer", "no answer to a good survey next to bad requests: %v", err)
				return
			}
			if d := diffAnswer(got, s.expect()); d != "" {
				r.violate("wrong-answer", "a good survey next to bad requests: %s", d)
				return
			}
			bad.Wait()
			r.note("checked", 1)
			// the servers still work
			q := p.Surveys[0]
			for i := range q.DPs {
				q.DPs[i].AtUS = 0
			}
			r.survey(&q, "after").play()
		},
	}
}

func (r *run) badRequest(p *badParams, sr *surveyRun, i int) {
	b := p.Bad[i]
	refused := func(what string, err error) {
		if err == nil {
			r.violate("accepted", "a server accepted %s", what)
		} else {
			r.note("refused", 1)
		}
	}
	el := sr.el
	c := servicesunlynx.NewUnLynxClient(el.List[b.At], fmt.Sprintf("bad%d", i))
	switch b.Kind {
	case "unknown-upload":
		refused("an upload for a survey that does not exist", c.SendSurveyResponseQuery("no-such-survey", sr.spec.clear(sr.spec.DPs[0]), el.Aggregate, 1, sr.spec.Count))
	case "unknown-results":
		_, _, err := c.SendSurveyResultsQuery("no-such-survey")
		refused("a results query for a survey that does not exist", err)
	case "bad-ciphertext":
		d := dpSpec{}
		for j := 0; j < 3; j++ { // encrypted, so that it enters the store row by row
			rs := respSpec{Where: make([]int64, sr.spec.NWhere), Group: make([]int64, sr.spec.NGroup), Sum: make([]int64, sr.spec.NSum)}
			for x := range rs.Sum {
				rs.Sum[x] = 13
			}
			copy(rs.Where, sr.spec.WhereVal)
			d.Resps = append(d.Resps, rs)
		}
		d.EncW, d.EncG, d.EncS = trues(sr.spec.NWhere), trues(sr.spec.NGroup), trues(sr.spec.NSum)
		q, err := servicesunlynx.EncryptDataToSurvey("bad", sr.id, sr.spec.clear(d), el.Aggregate, 1, sr.spec.Count)
		must(err)
		resp := &q.Responses[b.Arg%3]
		m, name := resp.AggregatingAttributesEnc, "s1"
		if b.Arg/6%3 == 1 && len(resp.GroupByEnc) > 0 {
			m, name = resp.GroupByEnc, "g1"
		} else if b.Arg/6%3 == 2 && len(resp.WhereEnc) > 0 {
			m, name = resp.WhereEnc, "w1"
		}
		x := append([]byte{}, m[name]...)
		if len(x) == 0 {
			return
		}
		switch b.Arg / 3 % 2 {
		case 0:
			x = x[:40]
		default:
			// the first half of the points has no y coordinate
			for x[3] = 0; libunlynx.SuiTe.Point().UnmarshalBinary(x[:32]) == nil; x[3]++ {
			}
		}
		m[name] = x
		refused("an upload with a ciphertext that is none", c.SendProtobuf(el.List[b.At], q, &servicesunlynx.ServiceState{}))
	case "bad-predicate":
		spec := p.Surveys[b.Arg/1000]
		o := r.survey(&spec, fmt.Sprintf("bad%d", i))
		o.pred = badPredicates[b.Arg%1000%len(badPredicates)]
		if o.create() != nil {
			r.note("refused", 1)
			return
		}
		for j := range spec.DPs {
			if err := o.upload(j); err != nil {
				r.note("refused", 1)
				return
			}
		}
		got, err := o.results()
		if err == nil {
			r.violate("accepted", "a survey with the predicate %q was answered: %v", o.pred, got)
			return
		}
		r.note("refused", 1)
	case "malformed":
		r.malformed(sr, i, b.Arg, c)
	case "unknown-server":
		full := append(el.List[:0:0], el.List...)
		full = append(full, r.net.stranger())
		spec := *sr.spec
		o := &surveyRun{r: r, spec: &spec, name: fmt.Sprintf("bad%d", i), el: onet.NewRoster(full)}
		refused("a survey over a server that cannot be reached", o.create())
	}
}

func trues(n int) []bool {
	x := make([]bool, n)
	for i := range x {
		x[i] = true
	}
	return x
}

// ---- creation -----------------------------------------------------------------

// runCreation creates a survey while faults happen. Once the creation is
// acknowledged the faults end, and every server of the survey that has not
// crashed meanwhile must know the survey.
func runCreation(r *run) {
	var fp faultParams
	r.params(&fp)
	r.cluster(fp.Servers)
	r.net.startFaults(r.plan.Faults)
	s := &fp.Surveys[0]
	sr := r.survey(s, "0")
	crashes := func() []int {
		r.net.mu.Lock()
		defer r.net.mu.Unlock()
		var c []int
		for _, nd := range r.net.nodes {
			c = append(c, nd.crashes)
		}
		return c
	}
	before := crashes()
	err := sr.create()
	for i := 0; err != nil && i < fp.Retries; i++ {
		time.Sleep(time.Duration(fp.PauseMS) * time.Millisecond)
		before = crashes()
		err = sr.create()
	}
	if err != nil {
		r.note("creations-failed", 1)
		if len(r.net.fired) == 0 && r.plan.TimeoutMS == 0 {
			r.violate("create-failed", "creation failed although no fault happened: %v", err)
		}
		return
	}
	if !fp.Early {
		time.Sleep(time.Duration(s.ResultUS) * time.Microsecond)
	}
	r.net.stopFaults()
	defaultTimeout()
	after := crashes()
	r.net.restartAll()
	lost := false
	for _, m := range s.Members {
		if after[m] != before[m] {
			lost = true
		}
	}
	var wg sync.WaitGroup
	for i := range s.DPs {
		m := s.Members[s.DPs[i].Server]
		if after[m] != before[m] {
			r.note("servers-crashed", 1)
			continue
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			if err := sr.upload(i); err != nil {
				r.violate("survey-unknown", "the creation was acknowledged, yet server %d (which has not crashed) refuses an upload: %v", m, err)
				return
			}
			r.note("checked", 1)
		}(i)
	}
	wg.Wait()
	if lost || len(r.res.Violations) > 0 {
		return
	}
	got, err := sr.results()
	if err != nil {
		r.violate("no-answer", "no server has crashed and all faults have ended before the results were asked for, yet: %v", err)
		return
	}
	if d := diffAnswer(got, s.expect()); d != "" {
		r.violate("wrong-answer", "%s", d)
		return
	}
	r.note("answered", 1)
}

func init() {
	scenarios["creation"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			n := p.between(2, 6)
			s := genSurvey(p, n, "small")
			s.Proofs = p.chance(1, 12)
			one := s.DPs[0]
			s.DPs = nil
			for i := range s.Members { // one data provider at every server
				d := one
				d.Server, d.Reps, d.Extra = i, 0, false
				d.Resps = []respSpec{{Where: []int64{}, Group: []int64{}, Sum: []int64{}}}
				q := &d.Resps[0]
				for j := 0; j < s.NWhere; j++ {
					q.Where = append(q.Where, s.WhereVal[j])
				}
				for j := 0; j < s.NGroup; j++ {
					q.Group = append(q.Group, int64(p.n(2)))
				}
				for j := 0; j < s.NSum; j++ {
					q.Sum = append(q.Sum, int64(p.n(50)))
				}
				s.DPs = append(s.DPs, d)
			}
			fp := faultParams{Retries: p.pick(0, 0, 1, 2), PauseMS: int64(p.pick(0, 1000, 700000)), Early: p.chance(1, 2)}
			fp.Servers = n
			fp.Surveys = []surveySpec{s}
			s.ResultUS = int64(p.n(300000))
			if p.chance(5, 6) {
				plan.Faults = genFaults(p, n, 3, 3*n, "reset", "partition", "isolate", "stall", "partition", "crash")
				impatientServers(p, plan)
			}
			return fp
		},
		run: runCreation, horizon: 12 * time.Hour,
	}
}

// malformed asks for surveys that no honest client asks for: the server may refuse or serve them, but goes on
// working.
func (r *run) malformed(sr *surveyRun, i, arg int, c *servicesunlynx.API) {
	el := sr.el
	proofs := arg/100%2 == 1
	me := el.List[p0(sr, arg)]
	c = servicesunlynx.NewUnLynxClient(me, fmt.Sprintf("bad%d", i))
	key := libunlynx.SuiTe.Point().Pick(libunlynx.SuiTe.RandomStream())
	q := servicesunlynx.SurveyCreationQuery{Roster: *el, MapDPs: map[string]int64{}, Proofs: proofs, Sum: []string{"s1"}}
	what, serveable := "", false
	switch arg % 10 {
	case 0:
		what = "a survey over servers without the asked one"
		if len(el.List) < 2 {
			return
		}
		var rest []*network.ServerIdentity
		for _, x := range el.List {
			if !x.Equal(me) {
				rest = append(rest, x)
			}
		}
		q.Roster = *onet.NewRoster(rest)
	case 1:
		what = "a survey over no server"
		q.Roster.List = nil
	case 2:
		what = "a survey without a collective key"
		q.Roster.Aggregate = nil
	case 3:
		what = "a survey with a condition on no value"
		q.Where = []libunlynx.WhereQueryAttribute{{Name: "w1"}}
		q.Predicate = "v0 == v1"
	case 4:
		what, serveable = "a survey about nothing", true
		q.Sum = nil
	case 5:
		what, serveable = "a survey with a condition and nothing to sum", true
		q.Sum = nil
		q.Where = []libunlynx.WhereQueryAttribute{{Name: "w1", Value: *libunlynx.EncryptInt(el.Aggregate, 1)}}
		q.Predicate = "v0 == v1"
	case 6:
		what, serveable = "a survey that names a server twice", true
		q.Roster = *onet.NewRoster(append(append([]*network.ServerIdentity{}, el.List...), el.List[0]))
	case 7:
		what = "a results query without a key"
		key = nil
	case 8:
		what, serveable = "a survey with an upload of nothing", true
	case 9:
		what = "an upload with an empty ciphertext"
	}
	if !serveable {
		defer func() {}()
	}
	resp := servicesunlynx.ServiceState{}
	if err := c.SendProtobuf(me, &q, &resp); err != nil {
		r.note("refused", 1)
		return
	}
	for j := 0; j < 2; j++ {
		up, err := servicesunlynx.EncryptDataToSurvey("bad", resp.SurveyID, []libunlynx.DpClearResponse{{
			WhereEnc:                 map[string]int64{"w1": 1},
			AggregatingAttributesEnc: map[string]int64{"s1": 3},
		}}, el.Aggregate, 1, false)
		must(err)
		switch arg % 10 {
		case 8:
			up.Responses = []libunlynx.DpResponseToSend{{}}
			if j == 1 {
				up.Responses = nil
			}
		case 9:
			up.Responses[0].AggregatingAttributesEnc["s1"] = nil
		}
		if c.SendProtobuf(me, up, &servicesunlynx.ServiceState{}) != nil {
			r.note("refused", 1)
			return
		}
	}
	res := servicesunlynx.ServiceResult{}
	err := c.SendProtobuf(me, &servicesunlynx.SurveyResultsQuery{SurveyID: resp.SurveyID, ClientPublic: key}, &res)
	if err == nil && !serveable {
		r.violate("accepted", "a server answered %s", what)
		return
	}
	r.note("malformed", 1)
}

func p0(sr *surveyRun, arg int) int { return arg / 10 % len(sr.el.List) }
