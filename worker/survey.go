package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3/util/key"
	"go.dedis.ch/onet/v3"
)

// The survey scenario: the whole system, from the client calls to the decrypted
// answer, against a clear-text reference.

type respSpec struct {
	Where []int64
	Group []int64
	Sum   []int64
}

type dpSpec struct {
	Server      int // position in the roster of the survey
	AtUS        int64
	Resps       []respSpec
	EncW        []bool // which attributes this data provider encrypts
	EncG        []bool
	EncS        []bool
	Reps        int64 `json:",omitempty"` // how often every response counts (0: once)
	Extra       bool  `json:",omitempty"` // the responses have attributes that the query does not name
	Unannounced bool  `json:",omitempty"` // the creation does not announce this data provider
}

type surveySpec struct {
	Members  []int // roster of the survey
	Root     int   // position of the server that creates the survey
	Ask      int   // position of the server that is asked for the results
	NSum     int
	Count    bool
	NWhere   int
	NGroup   int
	WhereVal []int64
	Pred     [][]term // disjunction of conjunctions; nil: no predicate
	Proofs   bool
	DPs      []dpSpec
	StartUS  int64
	ResultUS int64 // when the results are asked for, counted from the creation
	App      bool  `json:",omitempty"` // the servers take the data from their data file
	CNF      bool  `json:",omitempty"` // Pred is a conjunction of disjunctions instead
	// which attributes of the data the query names, in its order; nil: the first ones
	GOrd, WOrd, SOrd []int `json:",omitempty"`
	CountAt          int   `json:",omitempty"` // the position of the count, from 1; 0: the last
}

type term struct {
	W    int
	Neg  bool
	Swap bool `json:",omitempty"`
}

type surveyParams struct {
	Servers int
	Surveys []surveySpec
}

func (s *surveySpec) predicate() string {
	var ors []string
	for _, c := range s.Pred {
		var ands []string
		for _, t := range c {
			op := "=="
			if t.Neg {
				op = "!="
			}
			a, b := 2*t.W, 2*t.W+1
			if t.Swap {
				a, b = b, a
			}
			ands = append(ands, fmt.Sprintf("v%d %s v%d", a, op, b))
		}
		if s.CNF {
			ors = append(ors, "("+strings.Join(ands, " || ")+")")
			continue
		}
		ors = append(ors, "("+strings.Join(ands, " && ")+")")
	}
	if s.CNF {
		return strings.Join(ors, " && ")
	}
	return strings.Join(ors, " || ")
}

func (s *surveySpec) match(r respSpec) bool {
	if len(s.Pred) == 0 || s.NWhere == 0 {
		return true
	}
	for _, c := range s.Pred {
		all, any := true, false
		for _, t := range c {
			if (r.Where[t.W] == s.WhereVal[t.W]) != t.Neg {
				any = true
			} else {
				all = false
			}
		}
		if s.CNF && !any {
			return false
		}
		if !s.CNF && all {
			return true
		}
	}
	return s.CNF
}

// countAt is the position of the count in the answer.
func (s *surveySpec) countAt() int {
	if s.CountAt > 0 && s.CountAt <= s.NSum {
		return s.CountAt - 1
	}
	return s.NSum
}

// expect is the reference: the answer of the query over the clear data.
func (s *surveySpec) expect() map[string][]int64 { return s.expectOf(nil) }

// expectOf is the answer over the uploads that take part.
func (s *surveySpec) expectOf(part func(int) bool) map[string][]int64 {
	out := map[string][]int64{}
	for d, dp := range s.DPs {
		if part != nil && !part(d) {
			continue
		}
		reps := dp.Reps
		if reps == 0 {
			reps = 1
		}
		for _, r := range dp.Resps {
			if !s.match(r) {
				continue
			}
			k := fmt.Sprint(r.Group)
			if out[k] == nil {
				n := s.NSum
				if s.Count {
					n++
				}
				out[k] = make([]int64, n)
			}
			at := 0
			for _, v := range r.Sum {
				if s.Count && at == s.countAt() {
					at++
				}
				out[k][at] += v * reps
				at++
			}
			if s.Count {
				out[k][s.countAt()] += reps
			}
		}
	}
	return out
}

// attr names an attribute. The data file numbers them from 0.
func (s *surveySpec) attr(prefix string, i int) string {
	ord := map[string][]int{"g": s.GOrd, "w": s.WOrd, "s": s.SOrd}[prefix]
	if ord != nil {
		i = ord[i]
	}
	if s.App {
		return fmt.Sprintf("%s%d", prefix, i)
	}
	return fmt.Sprintf("%s%d", prefix, i+1)
}

func (s *surveySpec) sums() []string {
	var x []string
	for i := 0; i < s.NSum; i++ {
		if s.Count && i == s.countAt() {
			x = append(x, "count")
		}
		x = append(x, s.attr("s", i))
	}
	if s.Count && s.countAt() == s.NSum {
		x = append(x, "count")
	}
	return x
}

func (s *surveySpec) clear(d dpSpec) []libunlynx.DpClearResponse {
	var out []libunlynx.DpClearResponse
	for _, r := range d.Resps {
		c := libunlynx.DpClearResponse{}
		put := func(clear, enc *map[string]int64, prefix string, vals []int64, isEnc []bool) {
			for i, v := range vals {
				k := s.attr(prefix, i)
				m := clear
				if isEnc[i] {
					m = enc
				}
				if *m == nil {
					*m = map[string]int64{}
				}
				(*m)[k] = v
			}
		}
		put(&c.WhereClear, &c.WhereEnc, "w", r.Where, d.EncW)
		put(&c.GroupByClear, &c.GroupByEnc, "g", r.Group, d.EncG)
		put(&c.AggregatingAttributesClear, &c.AggregatingAttributesEnc, "s", r.Sum, d.EncS)
		if d.Extra {
			// attributes the query does not ask for
			c.AggregatingAttributesEnc = with(c.AggregatingAttributesEnc, "s0", 7)
			c.AggregatingAttributesClear = with(c.AggregatingAttributesClear, "x1", 8)
			if c.WhereEnc != nil || c.GroupByEnc != nil {
				c.WhereEnc = with(c.WhereEnc, "w0", 1)
			}
			c.WhereClear = with(c.WhereClear, "w99", 3)
			c.GroupByClear = with(c.GroupByClear, "g0", 2)
		}
		out = append(out, c)
	}
	return out
}

func with(m map[string]int64, k string, v int64) map[string]int64 {
	if m == nil {
		m = map[string]int64{}
	}
	m[k] = v
	return m
}

type surveyRun struct {
	r      *run
	spec   *surveySpec
	el     *onet.Roster // the servers of this survey
	id     servicesunlynx.SurveyID
	client *servicesunlynx.API
	name   string
	pred   string // instead of the predicate of the survey
}

func (sr *surveyRun) create() error {
	s := sr.spec
	sr.client = servicesunlynx.NewUnLynxClient(sr.el.List[s.Root], "q"+sr.name)
	var where []libunlynx.WhereQueryAttribute
	for i := 0; i < s.NWhere; i++ {
		where = append(where, libunlynx.WhereQueryAttribute{Name: s.attr("w", i), Value: *libunlynx.EncryptInt(sr.el.Aggregate, s.WhereVal[i])})
	}
	var groups []string
	for i := 0; i < s.NGroup; i++ {
		groups = append(groups, s.attr("g", i))
	}
	n := map[string]int64{}
	for _, si := range sr.el.List {
		n[si.String()] = 0
	}
	for _, d := range s.DPs {
		if !d.Unannounced {
			n[sr.el.List[d.Server].String()]++
		}
	}
	pred := sr.pred
	if pred == "" {
		pred = s.predicate()
	}
	id, err := sr.client.SendSurveyCreationQuery(sr.el, servicesunlynx.SurveyID(""), nil, n, s.Proofs, s.App, s.sums(), s.Count, where, pred, groups)
	if err != nil {
		return err
	}
	sr.id = *id
	return nil
}

func (sr *surveyRun) upload(i int) error {
	d := sr.spec.DPs[i]
	c := servicesunlynx.NewUnLynxClient(sr.el.List[d.Server], fmt.Sprintf("dp%s-%d", sr.name, i))
	reps := int(d.Reps)
	if reps == 0 {
		reps = 1
	}
	return c.SendSurveyResponseQuery(sr.id, sr.spec.clear(d), sr.el.Aggregate, reps, sr.spec.Count)
}

// results asks for the answer and returns it as group -> sums.
func (sr *surveyRun) results() (map[string][]int64, error) {
	c := sr.client
	if sr.spec.Ask != sr.spec.Root {
		c = servicesunlynx.NewUnLynxClient(sr.el.List[sr.spec.Ask], "a"+sr.name)
	}
	grp, aggr, err := c.SendSurveyResultsQuery(sr.id)
	if err != nil {
		return nil, err
	}
	return asMap(*grp, *aggr)
}

// patientResults is results for a querier who waits without limit: the request
// is handed to the server without a connection that ends after five minutes.
func (sr *surveyRun) patientResults() (map[string][]int64, error) {
	kp := key.NewKeyPair(libunlynx.SuiTe)
	srv := sr.r.net.nodes[sr.spec.Members[sr.spec.Ask]].server.Service(servicesunlynx.ServiceName).(*servicesunlynx.Service)
	m, err := srv.HandleSurveyResultsQuery(&servicesunlynx.SurveyResultsQuery{SurveyID: sr.id, ClientPublic: kp.Public})
	if err != nil {
		return nil, err
	}
	var grp, aggr [][]int64
	for _, f := range m.(*servicesunlynx.ServiceResult).Results {
		grp = append(grp, libunlynx.DecryptIntVectorWithNeg(kp.Private, &f.GroupByEnc))
		aggr = append(aggr, libunlynx.DecryptIntVectorWithNeg(kp.Private, &f.AggregatingAttributes))
	}
	return asMap(grp, aggr)
}

// asMap gives the answer as group -> sums.
func asMap(grp, aggr [][]int64) (map[string][]int64, error) {
	out := map[string][]int64{}
	for i := range grp {
		g := grp[i]
		if g == nil {
			g = []int64{}
		}
		k := fmt.Sprint(g)
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("DUPLICATE group %s in the answer", k)
		}
		out[k] = aggr[i]
	}
	return out, nil
}

func diffAnswer(got, want map[string][]int64) string {
	keys := map[string]bool{}
	for k := range got {
		keys[k] = true
	}
	for k := range want {
		keys[k] = true
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []string
	for _, k := range ks {
		g, okg := got[k]
		w, okw := want[k]
		switch {
		case !okg:
			out = append(out, fmt.Sprintf("group %s missing, expected %v", k, w))
		case !okw:
			out = append(out, fmt.Sprintf("unexpected group %s = %v", k, g))
		case fmt.Sprint(g) != fmt.Sprint(w):
			out = append(out, fmt.Sprintf("group %s = %v, expected %v", k, g, w))
		}
	}
	return strings.Join(out, "; ")
}

// genSurvey draws a survey over some of the servers. Sizes: small, normal, and
// the occasional extremes of wide.
func genSurvey(p *prng, servers int, size string) surveySpec {
	s := surveySpec{Members: p.perm(servers)}
	if p.chance(1, 3) {
		s.Members = s.Members[:p.between(1, servers)]
	}
	n := len(s.Members)
	s.Root = p.n(n)
	s.Ask = s.Root
	if p.chance(1, 5) {
		s.Ask = p.n(n)
	}
	s.NSum = p.between(1, 3)
	s.Count = p.chance(1, 2)
	s.NWhere = p.between(0, 2)
	s.NGroup = p.between(0, 2)
	extreme := 0
	if size == "wide" {
		extreme = p.n(40)
	}
	if size == "small" {
		s.NSum = p.between(1, 2)
		s.NWhere = p.n(2)
		s.NGroup = p.n(2)
	}
	s.Proofs = p.chance(1, 6)
	nd := p.between(1, 2*n)
	perDP, groups, wheres, maxSum := 3, p.between(1, 3), 3, 50
	switch extreme {
	case 1, 2: // many sums
		s.NSum, nd, perDP = p.between(9, 24), p.between(1, n), 2
	case 3, 4: // many conditions
		s.NWhere, nd, perDP, wheres = p.between(9, 12), p.between(1, n), 2, 2
	case 5, 6: // many grouping attributes
		s.NGroup, nd, perDP = p.between(9, 12), p.between(1, n), 2
	case 7, 8: // many rows
		s.NSum, s.NWhere, s.NGroup, s.Proofs = 1, p.n(2), p.n(2), false
		nd, perDP = p.between(1, 2), 110
	case 9, 10: // many groups
		s.NSum, s.NWhere, s.NGroup, s.Proofs, groups, perDP = 1, 0, p.between(1, 2), false, 100, 12
	case 11, 12: // large sums
		maxSum = 3000
	case 13: // more than one chunk of the parallel loops
		s.NSum, s.NWhere, s.NGroup, s.Count = p.between(99, 104), p.n(2), p.n(2), p.chance(1, 2)
		nd, perDP = p.between(1, 2), 2
	}
	if s.NWhere > 8 || s.NSum > 8 || s.NGroup > 8 {
		s.Proofs = false
	}
	gvals, wvals := []int64{}, []int64{}
	for i := 0; i < groups; i++ {
		gvals = append(gvals, int64(i))
	}
	for i := 0; i < wheres; i++ {
		wvals = append(wvals, int64(i))
	}
	if p.chance(1, 3) { // values of several digits
		for i := range gvals {
			gvals[i] = int64(p.n(300))
		}
		for i := range wvals {
			wvals[i] = int64(p.pick(10, 110, 101, 1, 11, 100, -1, 1000000)) + int64(i)
		}
	}
	below, step := 0, int64(0) // a part of the values is negative
	if size == "wide" && p.chance(1, 5) {
		below = p.n(60)
		step = int64(p.n(3))
	}
	for i := range gvals {
		gvals[i] -= step * int64(i)
	}
	for i := 0; i < s.NWhere; i++ {
		s.WhereVal = append(s.WhereVal, wvals[p.n(len(wvals))])
	}
	if s.NWhere > 0 && !p.chance(1, 6) {
		for c := p.between(1, 2); c > 0; c-- {
			var conj []term
			for _, w := range p.perm(s.NWhere)[:p.between(1, s.NWhere)] {
				conj = append(conj, term{W: w, Neg: p.chance(1, 3)})
			}
			s.Pred = append(s.Pred, conj)
		}
	}
	// data in the clear, encrypted, mixed by attribute, mixed by data provider
	encMode := p.n(4)
	enc := func(mode, n int) []bool {
		x := make([]bool, n)
		for i := range x {
			x[i] = mode == 1 || mode == 2 && p.chance(1, 2)
		}
		return x
	}
	late := p.chance(1, 2)
	s.ResultUS = int64(p.n(3)) * int64(p.n(100000))
	var mode dpSpec
	for i := 0; i < nd; i++ {
		d := dpSpec{Server: p.n(n), AtUS: int64(p.n(4)) * int64(p.n(50000))}
		if p.chance(1, 3) {
			d.AtUS = 0
		}
		if late {
			d.AtUS += int64(p.n(3)) * 100000
		}
		if i == 0 || encMode == 3 {
			m := encMode
			if m == 3 {
				m = p.n(3)
			}
			mode.EncW, mode.EncG, mode.EncS = enc(m, s.NWhere), enc(m, s.NGroup), make([]bool, s.NSum)
			for j := range mode.EncS {
				mode.EncS[j] = !p.chance(1, 8)
			}
		}
		d.EncW, d.EncG, d.EncS = mode.EncW, mode.EncG, mode.EncS
		if p.chance(1, 12) && perDP < 10 {
			d.Reps = int64(p.between(2, 3))
		}
		d.Extra = p.chance(1, 12)
		k := p.between(1, perDP)
		if perDP > 100 {
			k = p.between(90, perDP)
		}
		for ; k > 0; k-- {
			r := respSpec{Where: []int64{}, Group: []int64{}, Sum: []int64{}}
			for j := 0; j < s.NWhere; j++ {
				r.Where = append(r.Where, wvals[p.n(len(wvals))])
				if p.chance(1, 3) || s.NWhere > 8 && !p.chance(1, 8) {
					r.Where[j] = s.WhereVal[j]
				}
			}
			for j := 0; j < s.NGroup; j++ {
				r.Group = append(r.Group, gvals[p.n(len(gvals))])
			}
			for j := 0; j < s.NSum; j++ {
				r.Sum = append(r.Sum, int64(p.n(maxSum)-below))
			}
			d.Resps = append(d.Resps, r)
		}
		s.DPs = append(s.DPs, d)
	}
	if size == "wide" {
		s.shuffleNames(p, s.NGroup, s.NWhere, s.NSum)
	}
	if len(s.WOrd) > 1 && p.chance(1, 3) {
		// two conditions on one attribute
		i, j := 0, 1+p.n(len(s.WOrd)-1)
		s.WOrd[j] = s.WOrd[i]
		for d := range s.DPs {
			s.DPs[d].EncW = append([]bool{}, s.DPs[d].EncW...)
			s.DPs[d].EncW[j] = s.DPs[d].EncW[i]
			for _, r := range s.DPs[d].Resps {
				r.Where[j] = r.Where[i]
			}
		}
	}
	return s
}

// shuffleNames makes the query name some of the attributes of the data (of which
// there are g, w and s) in any order, and varies the form of the predicate.
func (s *surveySpec) shuffleNames(p *prng, g, w, sum int) {
	if p.chance(1, 3) {
		return
	}
	s.GOrd, s.WOrd, s.SOrd = p.perm(g)[:s.NGroup], p.perm(w)[:s.NWhere], p.perm(sum)[:s.NSum]
	s.CountAt = p.n(s.NSum + 1)
	s.CNF = p.chance(1, 3)
	for _, c := range s.Pred {
		for i := range c {
			c[i].Swap = p.chance(1, 4)
		}
	}
}

func (r *run) cluster(n int) *onet.Roster {
	for i := 0; i < n; i++ {
		r.net.addNode(r.dir)
	}
	return r.net.roster()
}

// survey prepares a run of a survey.
func (r *run) survey(s *surveySpec, name string) *surveyRun {
	sr := &surveyRun{r: r, spec: s, name: name}
	full := r.net.roster()
	ids := full.List[:0:0]
	for _, m := range s.Members {
		ids = append(ids, full.List[m])
	}
	sr.el = onet.NewRoster(ids)
	return sr
}

// play runs one fault-free survey and checks the answer.
func (sr *surveyRun) play() {
	s := sr.spec
	time.Sleep(time.Duration(s.StartUS) * time.Microsecond)
	if err := sr.create(); err != nil {
		sr.r.violate("create-failed", "survey %s: creation failed without any fault: %v", sr.name, err)
		return
	}
	var wg sync.WaitGroup
	for i := range s.DPs {
		if s.App {
			break
		}
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			time.Sleep(time.Duration(s.DPs[i].AtUS) * time.Microsecond)
			if err := sr.upload(i); err != nil {
				sr.r.violate("upload-failed", "survey %s: upload %d failed without any fault: %v", sr.name, i, err)
			}
		}(i)
	}
	time.Sleep(time.Duration(s.ResultUS) * time.Microsecond)
	got, err := sr.results()
	if err != nil {
		sr.r.violate("no-answer", "survey %s: no answer without any fault: %v", sr.name, err)
		return
	}
	wg.Wait()
	if d := diffAnswer(got, s.expect()); d != "" {
		sr.r.violate("wrong-answer", "survey %s: %s", sr.name, d)
		return
	}
	sr.r.note("checked", 1)
	if len(got) > 0 {
		sr.r.note("nonempty", 1)
	}
}

func runSurveys(r *run) {
	var p surveyParams
	r.params(&p)
	r.cluster(p.Servers)
	var wg sync.WaitGroup
	for i := range p.Surveys {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r.survey(&p.Surveys[i], fmt.Sprint(i)).play()
		}(i)
	}
	wg.Wait()
}

func init() {
	scenarios["survey"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			n := p.between(2, 6)
			return surveyParams{Servers: n, Surveys: []surveySpec{genSurvey(p, n, "wide")}}
		},
		run: runSurveys,
	}
}
