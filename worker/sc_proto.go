package main

import (
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/aggregation"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/proof"
	"go.dedis.ch/onet/v3"
)

// Scenarios of the distributed protocols.

type protoParams struct {
	Servers int
	Faulty  bool
	Insts   []instSpec
	Kind    string       `json:",omitempty"` // madeproofs: which protocol
	Surveys []surveySpec `json:",omitempty"`
}

// instSpec is one protocol instance: Rows of integers, held by the root or, for
// the aggregation, by the servers.
type instSpec struct {
	Tree    treeSpec
	Survey  int // instances of one survey share the secrets of the servers
	Rows    [][]int64
	Data    []nodeData
	Mode    string
	Proofs  bool
	Pre     []int // per server: line size of the precomputed blinding, 0 for none
	StartUS int64
	Width   int
	Clear   bool // the input is not encrypted
	Places  bool `json:",omitempty"`
	Input   int  `json:",omitempty"` // instances with the same number and rows work on the same ciphertexts
	OwnKey  bool `json:",omitempty"` // shuffling: the values are encrypted for another key than that of the roster
}

type nodeData struct {
	Node   int
	Groups [][]int64 // group number, values...
}

const protoWait = 30 * time.Minute

func newSurveySecrets(n int) []kyber.Scalar {
	x := make([]kyber.Scalar, n)
	for i := range x {
		x[i] = libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.RandomStream())
	}
	return x
}

// runProto runs the instances concurrently. one must check the outcome; it
// returns false if the instance gave no result.
func (r *run) runProto(one func(p *protoParams, s *instSpec, i int, secrets []kyber.Scalar) bool) {
	var p protoParams
	r.params(&p)
	r.cluster(p.Servers)
	secrets := map[int][]kyber.Scalar{}
	for i := range p.Insts {
		if secrets[p.Insts[i].Survey] == nil {
			secrets[p.Insts[i].Survey] = newSurveySecrets(p.Servers)
		}
	}
	r.net.startFaults(r.plan.Faults)
	var wg sync.WaitGroup
	for i := range p.Insts {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			s := &p.Insts[i]
			time.Sleep(time.Duration(s.StartUS) * time.Microsecond)
			if r.net.nodes[s.Tree.Members[0]].down {
				return
			}
			if !one(&p, s, i, secrets[s.Survey]) {
				if len(r.plan.Faults) == 0 {
					r.violate("no-result", "instance %d gave no result within %v without any fault", i, protoWait)
				} else {
					r.note("no-result", 1)
				}
				return
			}
			r.note("checked", 1)
		}(i)
	}
	wg.Wait()
}

func encRows(rows [][]int64, pub kyber.Point, clear bool) []libunlynx.CipherVector {
	out := make([]libunlynx.CipherVector, len(rows))
	for i, row := range rows {
		out[i] = make(libunlynx.CipherVector, len(row))
		for j, v := range row {
			if clear {
				out[i][j] = libunlynx.IntToCipherText(v)
			} else {
				out[i][j] = *libunlynx.EncryptInt(pub, v)
			}
		}
	}
	return out
}

// inputs encrypts the rows of an instance, once for all that share them.
func (r *run) inputs(s *instSpec, pub kyber.Point) []libunlynx.CipherVector {
	if s.Input == 0 {
		return encRows(s.Rows, pub, s.Clear)
	}
	k := fmt.Sprint(s.Input, s.Rows, s.Clear, pub)
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.shared == nil {
		r.shared = map[string][]libunlynx.CipherVector{}
	}
	if r.shared[k] == nil {
		r.shared[k] = encRows(s.Rows, pub, s.Clear)
	} else {
		r.res.Notes["shared-inputs"]++
	}
	out := copyRows(r.shared[k])
	for _, row := range out {
		for j, c := range row {
			row[j] = libunlynx.CipherText{K: c.K.Clone(), C: c.C.Clone()}
		}
	}
	return out
}

func pointsOf(rows []libunlynx.CipherVector) map[string]bool {
	m := map[string]bool{}
	for _, row := range rows {
		for _, c := range row {
			if !c.K.Equal(libunlynx.SuiTe.Point().Null()) {
				m[ptKey(c.K)] = true
				m[ptKey(c.C)] = true
			}
		}
	}
	return m
}

func sortedRows(rows [][]int64) string {
	x := make([]string, len(rows))
	for i, r := range rows {
		x[i] = fmt.Sprint(r)
	}
	sort.Strings(x)
	return fmt.Sprint(x)
}

func genRows(p *prng, tier string, maxRows, maxCols int) [][]int64 {
	n, c := p.between(1, maxRows), p.between(1, maxCols)
	if p.chance(1, 40) { // beyond the chunk size of the parallel loops
		n, c = p.between(101, 130), 1
		if p.chance(1, 2) {
			n, c = p.between(2, 3), p.between(101, 120)
		}
	}
	dom := p.pick(2, 5, 1000)
	rows := make([][]int64, n)
	for i := range rows {
		rows[i] = make([]int64, c)
		for j := range rows[i] {
			rows[i][j] = int64(p.n(dom))
		}
	}
	return rows
}

func genProto(p *prng, plan *Plan, tier string, maxServers int, faultKinds []string, inst func(p *prng, pp *protoParams) instSpec) protoParams {
	pp := protoParams{Servers: p.between(1, maxServers)}
	n := p.pick(1, 1, 2, 3)
	for i := 0; i < n; i++ {
		s := inst(p, &pp)
		if i > 0 {
			s.StartUS = int64(p.pick(0, 0, 100, 20000, 300000))
		}
		if i > 0 && s.Rows != nil && p.chance(1, 4) {
			// the same ciphertexts once more: for another key or survey, with or without proofs
			j := p.n(i)
			if pp.Insts[j].Input == 0 {
				pp.Insts[j].Input = j + 1
			}
			o := pp.Insts[j]
			s.Input, s.Rows, s.Tree, s.Clear, s.OwnKey, s.Places = o.Input, o.Rows, o.Tree, o.Clear, false, false
			s.Proofs = s.Proofs && o.Proofs
			if s.Pre != nil {
				s.Pre = o.Pre
			}
		}
		pp.Insts = append(pp.Insts, s)
	}
	if len(faultKinds) > 0 && pp.Servers > 1 && p.chance(1, 3) {
		plan.Faults = genFaults(p, pp.Servers, 3, 8*pp.Servers, faultKinds...)
		pp.Faulty = true
		impatientServers(p, plan)
	}
	return pp
}

var protoFaults = []string{"reset", "partition", "stall", "crash"}

// ---- shuffling

func genShuffle(p *prng, plan *Plan, tier string) interface{} {
	return genProto(p, plan, tier, 6, protoFaults, func(p *prng, pp *protoParams) instSpec {
		s := instSpec{Tree: genTree(p, pp.Servers, p.between(1, pp.Servers)), Rows: genRows(p, tier, 20, 5), Clear: p.chance(1, 6)}
		cols := len(s.Rows[0])
		s.Places = p.chance(1, 10)
		s.OwnKey = p.chance(1, 12)
		s.Proofs = p.chance(1, 5) && len(s.Rows) > 1 && len(s.Rows)*cols < 60
		pre := p.chance(1, 2)
		for i := 0; i < pp.Servers; i++ {
			k := 0
			if pre && p.chance(2, 3) {
				k = cols + p.n(4)
			}
			s.Pre = append(s.Pre, k)
		}
		return s
	})
}

// hopsOf keeps what the servers send to each other in every instance.
type hopsOf struct {
	mu   sync.Mutex
	hops map[string][]wireMsg
	used map[string]int // randomness -> instance
}

func (h *hopsOf) tap(from, to int, data []byte, msg interface{}) {
	m := readWire(from, to, data, msg)
	if len(m.fields) == 0 {
		return
	}
	h.mu.Lock()
	h.hops[m.round] = append(h.hops[m.round], m)
	h.mu.Unlock()
}

// checkHops follows the rows from server to server: every one of them must hide
// which row is which from the others.
// Fresh tells whether a server blinds every row anew.
func (r *run) checkHops(h *hopsOf, i int, round string, root int, in, out []libunlynx.CipherVector, k kyber.Scalar, fresh func(int) bool) {
	h.mu.Lock()
	msgs := append([]wireMsg{}, h.hops[round]...)
	h.mu.Unlock()
	cols := len(in[0])
	n := len(in) * cols
	flat := func(rows []libunlynx.CipherVector) []libunlynx.CipherText {
		var x []libunlynx.CipherText
		for _, row := range rows {
			x = append(x, row...)
		}
		return x
	}
	id := libunlynx.SuiTe.Point().Null()
	into, outof := map[int][]libunlynx.CipherText{}, map[int][]libunlynx.CipherText{}
	into[root] = flat(in)
	seen := map[string]int{}
	for _, c := range into[root] {
		seen[ptKey(c.K)], seen[ptKey(c.C)] = -1, -1
	}
	delete(seen, ptKey(id))
	final := flat(out)
	link := func(from int, cts []libunlynx.CipherText) {
		for _, c := range cts {
			for _, pt := range []kyber.Point{c.K, c.C} {
				x := ptKey(pt)
				if o, dup := seen[x]; dup && o != from {
					r.violate("linkable", "instance %d: server %d passes on a ciphertext (half) that it has received: its shuffle does not hide the rows", i, from)
					return
				}
			}
			if c.K.Equal(id) {
				r.violate("linkable", "instance %d: server %d passes on a value that is not encrypted", i, from)
				return
			}
		}
		for _, c := range cts {
			seen[ptKey(c.K)], seen[ptKey(c.C)] = from, from
		}
	}
	for _, m := range msgs {
		if m.kind != "ShufflingBytesMessage" || len(m.fields) != 1 {
			continue
		}
		var cts []libunlynx.CipherText
		for _, c := range ciphertexts(m.fields[0]) {
			cts = append(cts, c.ct)
		}
		link(m.from, cts)
		if len(cts) == n {
			outof[m.from], into[m.to] = cts, cts
			if m.to == root { // the root is the first one; it only passes the rows on in the end
				into[root] = flat(in)
			}
		}
	}
	if len(msgs) == 0 {
		outof[root] = final
	}
	vals := func(cts []libunlynx.CipherText) ([]string, bool) {
		var rows []string
		for a := 0; a+cols <= len(cts); a += cols {
			s := ""
			for _, c := range cts[a : a+cols] {
				v, ok := refDecrypt(k, c, 2000)
				if !ok {
					return nil, false
				}
				s += fmt.Sprint(v, " ")
			}
			rows = append(rows, s)
		}
		return rows, true
	}
	for from, cts := range outof {
		x, ok1 := vals(into[from])
		y, ok2 := vals(cts)
		if !ok1 || !ok2 || len(x) != len(y) {
			continue
		}
		if len(x) <= 8 {
			r.checkBlinding(i, from, into[from], cts, cols, fresh(from))
		}
		distinct := map[string]bool{}
		for _, s := range x {
			distinct[s] = true
		}
		if len(distinct) >= 12 && fmt.Sprint(x) == fmt.Sprint(y) {
			r.violate("not-shuffled", "instance %d: server %d passes %d rows on in the order in which it received them", i, from, len(x))
		}
		r.note("hops-checked", 1)
	}
}

func copyRows(rows []libunlynx.CipherVector) []libunlynx.CipherVector {
	c := make([]libunlynx.CipherVector, len(rows))
	for i := range rows {
		c[i] = append(libunlynx.CipherVector{}, rows[i]...)
	}
	return c
}

// everyProof waits until every server has made a proof of its part.
func (r *run) everyProof(i int, s *instSpec, made func(node int) bool) bool {
	for _, node := range s.Tree.Members {
		for t := 0; !made(node); t++ {
			if t == 100 {
				r.violate("no-proof", "instance %d gave a result, but server %d has made no proof", i, node)
				return false
			}
			time.Sleep(time.Second)
		}
	}
	r.note("proved", 1)
	return true
}

// checkProved: the proofs are about what the servers received and what they passed on.
func (r *run) checkProved(h *hopsOf, i int, round string, root int, in, out []libunlynx.CipherVector, proved map[int][2][]libunlynx.CipherVector) {
	flat := func(rows []libunlynx.CipherVector) string {
		x := ""
		for _, row := range rows {
			for _, c := range row {
				x += ptKey(c.K) + ptKey(c.C)
			}
		}
		return x
	}
	h.mu.Lock()
	msgs := append([]wireMsg{}, h.hops[round]...)
	h.mu.Unlock()
	into, outof := map[int]string{root: flat(in)}, map[int]string{}
	for _, m := range msgs {
		if m.kind != "ShufflingBytesMessage" || len(m.fields) != 1 {
			continue
		}
		x := ""
		for _, c := range ciphertexts(m.fields[0]) {
			x += ptKey(c.ct.K) + ptKey(c.ct.C)
		}
		outof[m.from] = x
		if m.to != root {
			into[m.to] = x
		}
	}
	if len(msgs) == 0 {
		outof[root] = flat(out)
	}
	for node, p := range proved {
		if x, ok := into[node]; ok && x != flat(p[0]) {
			r.violate("other-proof", "instance %d: the proof of server %d is not about the rows that it received", i, node)
		}
		if x, ok := outof[node]; ok && x != flat(p[1]) {
			r.violate("other-proof", "instance %d: the proof of server %d is not about the rows that it passed on", i, node)
		}
	}
}

func runShuffle(r *run) {
	halves := map[string]int{} // of the results -> instance
	hops := &hopsOf{hops: map[string][]wireMsg{}}
	r.net.tap = hops.tap
	r.runProto(func(p *protoParams, s *instSpec, i int, _ []kyber.Scalar) bool {
		g := libunlynx.SuiTe
		tree := s.Tree.build(r)
		pub, k := tree.Roster.Aggregate, s.Tree.secret(r)
		var in []libunlynx.CipherVector
		if s.OwnKey {
			k, pub = libunlynx.GenKey()
			in = encRows(s.Rows, pub, s.Clear)
		} else {
			in = r.inputs(s, pub)
		}
		seen := pointsOf(in)
		round := ""
		var mu sync.Mutex
		proved := map[int][2][]libunlynx.CipherVector{}
		setup := func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			sh := pi.(*protocolsunlynx.ShufflingProtocol)
			sh.Proofs = s.Proofs
			if s.OwnKey {
				sh.CollectiveKey = pub
			}
			sh.ProofFunc = func(a, b []libunlynx.CipherVector, key kyber.Point, beta [][]kyber.Scalar, perm []int) *libunlynxshuffle.PublishedShufflingProof {
				prf, err := libunlynxshuffle.ShuffleProofCreation(a, b, g.Point().Base(), key, beta, perm)
				if err != nil {
					r.violate("proof", "instance %d: server %d cannot prove its shuffle: %v", i, node, err)
					return nil
				}
				if !libunlynxshuffle.ShuffleProofVerification(prf, pub) {
					r.violate("proof", "instance %d: the shuffle proof of server %d does not verify", i, node)
				}
				mu.Lock()
				proved[node] = [2][]libunlynx.CipherVector{copyRows(a), copyRows(b)}
				mu.Unlock()
				r.note("proofs", 1)
				return &prf
			}
			if s.Pre[node] > 0 {
				sh.Precomputed = libunlynxshuffle.CreatePrecomputedRandomize(g.Point().Base(), pub, g.RandomStream(), s.Pre[node], 10)
			}
			if tn.IsRoot() {
				sh.ShuffleTarget = &in
				round = tn.Token().RoundID.String()
			}
		}
		pi, err := r.startProto(tree, "Shuffling", setup)
		if err != nil {
			return false
		}
		var out []libunlynx.CipherVector
		select {
		case out = <-pi.(*protocolsunlynx.ShufflingProtocol).FeedbackChannel:
		case <-after(protoWait):
			return false
		}
		var got [][]int64
		same := len(out) == len(s.Rows)
		for a, row := range out {
			var vals []int64
			for b, c := range row {
				v, ok := refDecrypt(k, c, 2000)
				if !ok {
					r.violate("wrong-shuffle", "instance %d: row %d column %d of the result is no encryption of an input value under the collective key", i, a, b)
					return true
				}
				vals = append(vals, v)
				if seen[ptKey(c.K)] || seen[ptKey(c.C)] {
					r.violate("linkable", "instance %d: row %d column %d of the result repeats half of an input ciphertext", i, a, b)
				}
				for _, half := range []string{ptKey(c.K), ptKey(c.C)} {
					if o, ok := halves[half]; ok && o != i {
						r.violate("linkable", "instances %d and %d give the same half of a ciphertext", o, i)
					}
					halves[half] = i
				}
				if c.K.Equal(g.Point().Null()) {
					r.violate("linkable", "instance %d: row %d column %d of the result is not blinded", i, a, b)
				}
			}
			got = append(got, vals)
			if same && fmt.Sprint(vals) != fmt.Sprint(s.Rows[a]) {
				same = false
			}
		}
		if sortedRows(got) != sortedRows(s.Rows) {
			r.violate("wrong-shuffle", "instance %d: the result %v is no permutation of the rows %v", i, got, s.Rows)
		}
		distinct := map[string]bool{}
		for _, row := range s.Rows {
			distinct[fmt.Sprint(row)] = true
		}
		if same && len(distinct) >= 12 {
			r.violate("not-shuffled", "instance %d: %d rows came out in their original order", i, len(out))
		}
		if s.Proofs {
			if r.everyProof(i, s, func(node int) bool { mu.Lock(); defer mu.Unlock(); _, ok := proved[node]; return ok }) {
				r.checkProved(hops, i, round, s.Tree.Members[0], in, out, proved)
			}
		}
		if len(out) > 0 {
			r.checkHops(hops, i, round, s.Tree.Members[0], in, out, k, func(node int) bool { return s.Pre[node] == 0 && !s.Clear })
			if i == 0 && s.Places {
				r.checkPermutation(pub, k, s.Pre[0] > 0)
			}
		}
		return true
	})
}

// checkBlinding: nobody can tell which row is which from the blinding alone. No two
// columns of a row have the same blinding and, if the rows are blinded anew, no two
// rows either.
func (r *run) checkBlinding(i, from int, in, out []libunlynx.CipherText, cols int, fresh bool) {
	type at struct{ a, b, c int }
	seen := map[string]at{}
	for a := 0; a+cols <= len(in); a += cols {
		for b := 0; b+cols <= len(out); b += cols {
			for c := 0; c < cols; c++ {
				x := ptKey(libunlynx.SuiTe.Point().Sub(out[b+c].K, in[a+c].K))
				o, dup := seen[x]
				if dup && (fresh || o.a == a && o.b == b) {
					r.violate("linkable", "instance %d: server %d uses one blinding for several values, which links row %d to row %d", i, from, a/cols, b/cols)
					return
				}
				if !dup {
					seen[x] = at{a, b, c}
				}
			}
		}
	}
}

// checkPermutation: a shuffle takes every row to every place.
func (r *run) checkPermutation(pub kyber.Point, k kyber.Scalar, pre bool) {
	g := libunlynx.SuiTe
	const n = 4
	in := make([]libunlynx.CipherVector, n)
	for a := range in {
		in[a] = libunlynx.CipherVector{*libunlynx.EncryptInt(pub, int64(a))}
	}
	var pc []libunlynxshuffle.CipherVectorScalar
	if pre {
		pc = libunlynxshuffle.CreatePrecomputedRandomize(g.Point().Base(), pub, g.RandomStream(), 1, 10)
	}
	var met [n][n]bool
	for t := 0; t < 160; t++ {
		out, _, _ := libunlynxshuffle.ShuffleSequence(in, g.Point().Base(), pub, pc)
		for b := range out {
			if v, ok := refDecrypt(k, out[b][0], 10); ok && v >= 0 && v < n {
				met[v][b] = true
			}
		}
	}
	for v := range met {
		for b, ok := range met[v] {
			if !ok {
				r.violate("not-shuffled", "in 160 shuffles of %d rows, row %d never comes to place %d", n, v, b)
				return
			}
		}
	}
	r.note("permutations-checked", 1)
}

// ---- deterministic tagging

func genDDT(p *prng, plan *Plan, tier string) interface{} {
	size := 0
	return genProto(p, plan, tier, 6, protoFaults, func(p *prng, pp *protoParams) instSpec {
		if size == 0 {
			size = p.between(1, pp.Servers)
		}
		s := instSpec{Tree: genTree(p, pp.Servers, pp.Servers), Rows: genRows(p, tier, 1, 14)[:1], Survey: p.n(2), Clear: p.chance(1, 6)}
		s.Proofs = p.chance(1, 8) && len(s.Rows[0]) < 10
		return s
	})
}

func runDDT(r *run) {
	var mu sync.Mutex
	tags := map[string][2]int64{} // tag -> survey, value
	vals := map[[2]int64]string{}
	r.runProto(func(p *protoParams, s *instSpec, i int, secrets []kyber.Scalar) bool {
		tree := s.Tree.build(r)
		in := r.inputs(s, tree.Roster.Aggregate)[0]
		setup := func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			t := pi.(*protocolsunlynx.DeterministicTaggingProtocol)
			k := secrets[node]
			t.SurveySecretKey = &k
			t.Proofs = s.Proofs
			if tn.IsRoot() {
				t.TargetOfSwitch = &in
			}
		}
		pi, err := r.startProto(tree, "DeterministicTagging", setup)
		if err != nil {
			return false
		}
		var out []libunlynx.DeterministCipherText
		select {
		case out = <-pi.(*protocolsunlynx.DeterministicTaggingProtocol).FeedbackChannel:
		case <-after(protoWait):
			return false
		}
		if len(out) != len(in) {
			r.violate("wrong-tags", "instance %d: %d tags for %d values", i, len(out), len(in))
			return true
		}
		mu.Lock()
		defer mu.Unlock()
		for j, t := range out {
			k := ptKey(t.Point)
			id := [2]int64{int64(s.Survey), s.Rows[0][j]}
			if old, ok := tags[k]; ok && old != id {
				if old[0] != id[0] {
					r.violate("tags-link", "instance %d: surveys %d and %d give one tag to the values %d and %d", i, old[0], id[0], old[1], id[1])
				} else {
					r.violate("wrong-tags", "instance %d: the values %d and %d have one tag in survey %d", i, old[1], id[1], id[0])
				}
			}
			if old, ok := vals[id]; ok && old != k {
				r.violate("wrong-tags", "instance %d: the value %d has two tags in survey %d", i, id[1], id[0])
			}
			if _, ok := refInt(t.Point, 2000); ok {
				r.violate("tag-reveals", "instance %d: the tag of %d is the encoding of an integer", i, id[1])
			}
			tags[k], vals[id] = id, k
		}
		return true
	})
}

// ---- collective aggregation

func genAggr(p *prng, plan *Plan, tier string) interface{} {
	return genProto(p, plan, tier, 8, protoFaults, func(p *prng, pp *protoParams) instSpec {
		s := instSpec{Tree: genTree(p, pp.Servers, p.between(1, pp.Servers)), Mode: p.pickS("grouped", "grouped", "grouped", "simple"), Width: p.between(1, 4)}
		s.Proofs = p.chance(1, 6)
		groups := p.pick(1, 3, 8)
		if p.chance(1, 40) {
			s.Width = p.between(101, 110)
		}
		for _, m := range s.Tree.Members {
			d := nodeData{Node: m}
			if s.Mode == "simple" {
				w := s.Width
				if !s.Proofs {
					w = p.between(0, s.Width)
				}
				row := []int64{0}
				for j := 0; j < w; j++ {
					row = append(row, int64(p.n(100)))
				}
				d.Groups = [][]int64{row}
			} else if !p.chance(1, 4) {
				for _, g := range p.perm(groups)[:p.n(groups+1)] {
					row := []int64{int64(g)}
					for j := 0; j < s.Width; j++ {
						row = append(row, int64(p.n(100)))
					}
					d.Groups = append(d.Groups, row)
				}
			}
			s.Data = append(s.Data, d)
		}
		return s
	})
}

func runAggr(r *run) {
	r.runProto(func(p *protoParams, s *instSpec, i int, _ []kyber.Scalar) bool {
		g := libunlynx.SuiTe
		tree := s.Tree.build(r)
		pub := tree.Roster.Aggregate
		key := func(n int64) libunlynx.GroupingKey {
			if s.Mode == "simple" {
				return protocolsunlynx.EMPTYKEY
			}
			return libunlynx.GroupingKey(fmt.Sprintf("%064d", n))
		}
		want := map[libunlynx.GroupingKey][]int64{}
		grouped := map[int]map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
		simple := map[int][]libunlynx.CipherText{}
		for _, d := range s.Data {
			grouped[d.Node] = map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
			for _, row := range d.Groups {
				k := key(row[0])
				cv := encRows([][]int64{row[1:]}, pub, false)[0]
				if s.Mode == "simple" {
					simple[d.Node] = cv
					if len(cv) == 0 {
						continue
					}
				}
				grouped[d.Node][k] = libunlynx.FilteredResponse{GroupByEnc: encRows([][]int64{{row[0], row[0] + 7}}, pub, false)[0], AggregatingAttributes: cv}
				w := want[k]
				for len(w) < len(row)-1 {
					w = append(w, 0)
				}
				for j, v := range row[1:] {
					w[j] += v
				}
				want[k] = w
			}
		}
		var mu sync.Mutex
		proved := map[int]map[string]bool{}
		setup := func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			a := pi.(*protocolsunlynx.CollectiveAggregationProtocol)
			a.Proofs = s.Proofs
			a.ProofFunc = func(data []libunlynx.CipherVector, res libunlynx.CipherVector) *libunlynxaggr.PublishedAggregationListProof {
				prf := libunlynxaggr.AggregationListProofCreation(data, res)
				if !libunlynxaggr.AggregationListProofVerification(prf, 1.0) {
					r.violate("proof", "instance %d: the aggregation proof of server %d does not verify", i, node)
				}
				mu.Lock()
				proved[node] = map[string]bool{}
				for _, c := range res {
					proved[node][ptKey(c.K)+ptKey(c.C)] = true
				}
				mu.Unlock()
				r.note("proofs", 1)
				return &prf
			}
			if s.Mode == "simple" {
				d := append([]libunlynx.CipherText{}, simple[node]...)
				a.SimpleData = &d
			} else {
				d := grouped[node]
				a.GroupedData = &d
			}
		}
		pi, err := r.startProto(tree, "CollectiveAggregation", setup)
		if err != nil {
			return false
		}
		var out protocolsunlynx.CothorityAggregatedData
		select {
		case out = <-pi.(*protocolsunlynx.CollectiveAggregationProtocol).FeedbackChannel:
		case <-after(protoWait):
			return false
		}
		k := s.Tree.secret(r)
		got := map[string][]int64{}
		for key, fr := range out.GroupedData {
			var vals []int64
			for _, c := range fr.AggregatingAttributes {
				v, ok := refDecrypt(k, c, 2000)
				if !ok {
					v = -999999
				}
				vals = append(vals, v)
			}
			if s.Mode == "grouped" {
				var n int64
				fmt.Sscan(string(key), &n)
				for j, c := range fr.GroupByEnc {
					if v, ok := refDecrypt(k, c, 2000); !ok || v != n+7*int64(j) {
						r.violate("wrong-group", "instance %d: group %d carries another group's attributes", i, n)
					}
				}
				if len(fr.GroupByEnc) != 2 {
					r.violate("wrong-group", "instance %d: group %d carries %d attributes", i, n, len(fr.GroupByEnc))
				}
			}
			got[string(key)] = vals
		}
		exp := map[string][]int64{}
		for k, v := range want {
			exp[string(k)] = v
		}
		if d := diffAnswer(got, exp); d != "" {
			r.violate("wrong-aggregate", "instance %d: %s", i, d)
		}
		if s.Proofs && r.everyProof(i, s, func(node int) bool { mu.Lock(); defer mu.Unlock(); return proved[node] != nil }) {
			for key, fr := range out.GroupedData {
				for j, c := range fr.AggregatingAttributes {
					if !proved[s.Tree.Members[0]][ptKey(c.K)+ptKey(c.C)] {
						r.violate("other-proof", "instance %d: value %d of group %s of the result has no proof", i, j, key)
					}
				}
			}
		}
		if len(exp) > 0 {
			r.note("nonempty", 1)
		}
		_ = g
		return true
	})
}

// ---- key switching

func genKS(p *prng, plan *Plan, tier string) interface{} {
	return genProto(p, plan, tier, 7, protoFaults, func(p *prng, pp *protoParams) instSpec {
		s := instSpec{Tree: genTree(p, pp.Servers, p.between(1, pp.Servers)), Rows: genRows(p, tier, 1, 12)[:1], Clear: p.chance(1, 8)}
		if p.chance(1, 15) {
			s.Rows = [][]int64{{}}
		}
		s.Proofs = p.chance(1, 5) && len(s.Rows[0]) < 20
		if p.chance(1, 30) && pp.Servers < 5 { // beyond the chunk size of the parallel loops
			s.Rows = [][]int64{make([]int64, p.between(101, 220))}
			for j := range s.Rows[0] {
				s.Rows[0][j] = int64(p.n(1000))
			}
			s.Proofs = p.chance(2, 3)
		}
		return s
	})
}

// checkSwitchers: neither the result nor what a server contributes uses the same
// randomness for two values (whose difference would show).
func (r *run) checkSwitchers(h *hopsOf, i int, round string, out libunlynx.CipherVector) {
	one := func(who string, cts []libunlynx.CipherText) {
		seen := map[string]int{}
		for j, c := range cts {
			x := ptKey(c.K)
			h.mu.Lock()
			if o, ok := h.used[x]; ok && o != i {
				r.violate("randomness", "instances %d and %d: %s uses the same randomness", o, i, who)
			}
			if h.used == nil {
				h.used = map[string]int{}
			}
			h.used[x] = i
			h.mu.Unlock()
			if o, dup := seen[x]; dup {
				r.violate("randomness", "instance %d: %s uses the same randomness for the values %d and %d", i, who, o, j)
				return
			}
			seen[x] = j
		}
	}
	one("the result", out)
	h.mu.Lock()
	msgs := append([]wireMsg{}, h.hops[round]...)
	h.mu.Unlock()
	for _, m := range msgs {
		if m.kind == "UpBytesMessage" && len(m.fields) == 1 {
			var cts []libunlynx.CipherText
			for _, c := range ciphertexts(m.fields[0]) {
				cts = append(cts, c.ct)
			}
			one(fmt.Sprintf("the contribution of server %d", m.from), cts)
			r.note("contributions-checked", 1)
		}
	}
}

func runKS(r *run) {
	hops := &hopsOf{hops: map[string][]wireMsg{}}
	r.net.tap = hops.tap
	r.runProto(func(p *protoParams, s *instSpec, i int, _ []kyber.Scalar) bool {
		g := libunlynx.SuiTe
		tree := s.Tree.build(r)
		in := r.inputs(s, tree.Roster.Aggregate)[0]
		priv := g.Scalar().Pick(g.RandomStream())
		pub := g.Point().Mul(priv, nil)
		round := ""
		var mu sync.Mutex
		proved := map[int]libunlynx.CipherVector{}
		setup := func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			ks := pi.(*protocolsunlynx.KeySwitchingProtocol)
			ks.Proofs = s.Proofs
			ks.ProofFunc = func(pubKey, target kyber.Point, secret kyber.Scalar, ks2s, rBNegs []kyber.Point, vis []kyber.Scalar) *libunlynxkeyswitch.PublishedKSListProof {
				prf, err := libunlynxkeyswitch.KeySwitchListProofCreation(pubKey, target, secret, ks2s, rBNegs, vis)
				if err != nil || !libunlynxkeyswitch.KeySwitchListProofVerification(prf, 1.0) {
					r.violate("proof", "instance %d: the key switching proof of server %d does not verify (%v)", i, node, err)
				}
				r.note("proofs", 1)
				cv := make(libunlynx.CipherVector, len(ks2s))
				for j := range cv {
					cv[j] = libunlynx.CipherText{K: g.Point().Mul(vis[j], nil), C: ks2s[j].Clone()}
				}
				mu.Lock()
				proved[node] = cv
				mu.Unlock()
				return &prf
			}
			if tn.IsRoot() {
				ks.TargetOfSwitch = &in
				ks.TargetPublicKey = &pub
				round = tn.Token().RoundID.String()
			}
		}
		pi, err := r.startProto(tree, "KeySwitching", setup)
		if err != nil {
			return false
		}
		var out libunlynx.CipherVector
		select {
		case out = <-pi.(*protocolsunlynx.KeySwitchingProtocol).FeedbackChannel:
		case <-after(protoWait):
			return false
		}
		if len(out) != len(in) {
			r.violate("wrong-switch", "instance %d: %d ciphertexts for %d", i, len(out), len(in))
			return true
		}
		k := s.Tree.secret(r)
		for j, c := range out {
			if v, ok := refDecrypt(priv, c, 2000); !ok || v != s.Rows[0][j] {
				r.violate("wrong-switch", "instance %d: element %d does not decrypt to %d under the new key", i, j, s.Rows[0][j])
			}
			if _, ok := refDecrypt(k, c, 2000); ok {
				r.violate("old-key", "instance %d: element %d still decrypts under the collective key", i, j)
			}
			if _, ok := refInt(c.C, 2000); ok {
				r.violate("old-key", "instance %d: element %d is in clear", i, j)
			}
		}
		r.checkSwitchers(hops, i, round, out)
		if s.Proofs && r.everyProof(i, s, func(node int) bool { mu.Lock(); defer mu.Unlock(); _, ok := proved[node]; return ok }) {
			for j := range in {
				sum := libunlynx.CipherText{K: g.Point().Null(), C: in[j].C}
				for _, cv := range proved {
					if len(cv) != len(in) {
						r.violate("other-proof", "instance %d: a server proves %d contributions instead of %d", i, len(cv), len(in))
						return true
					}
					sum.Add(sum, cv[j])
				}
				if !sum.K.Equal(out[j].K) || !sum.C.Equal(out[j].C) {
					r.violate("other-proof", "instance %d: the contributions that are proven for element %d do not make up the result", i, j)
					return true
				}
			}
		}
		return true
	})
}

// ---- shuffling + tagging

func genShDDT(p *prng, plan *Plan, tier string) interface{} {
	return genProto(p, plan, tier, 6, protoFaults, func(p *prng, pp *protoParams) instSpec {
		s := instSpec{Tree: genTree(p, pp.Servers, p.between(1, pp.Servers)), Rows: genRows(p, tier, 12, 4), Survey: p.n(2), Clear: p.chance(1, 6)}
		cols := len(s.Rows[0])
		s.Proofs = p.chance(1, 6) && len(s.Rows) > 1 && len(s.Rows)*cols < 30
		// the blinding of a server is for the collective key of the servers still to
		// come, so none can be precomputed here
		return s
	})
}

// tagDict runs the protocol on one row of distinct values under the same
// secrets and the same tree: it gives the tag of every value.
func runShDDT(r *run) {
	r.runProto(func(p *protoParams, s *instSpec, i int, secrets []kyber.Scalar) bool {
		tree := s.Tree.build(r)
		play := func(rows [][]int64, proofs bool) ([]libunlynx.DeterministCipherVector, bool) {
			x := *s
			x.Rows = rows
			in := r.inputs(&x, tree.Roster.Aggregate)
			setup := func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
				t := pi.(*protocolsunlynx.ShufflingPlusDDTProtocol)
				k := secrets[node]
				t.SurveySecretKey = &k
				t.Proofs = proofs
				if tn.IsRoot() {
					t.TargetData = &in
				}
			}
			pi, err := r.startProto(tree, "ShufflingPlusDDT", setup)
			if err != nil {
				return nil, false
			}
			select {
			case out := <-pi.(*protocolsunlynx.ShufflingPlusDDTProtocol).FeedbackChannel:
				return out, true
			case <-after(protoWait):
				return nil, false
			}
		}
		var dict [][]int64
		dict = append(dict, nil)
		known := map[int64]bool{}
		for _, row := range s.Rows {
			for _, v := range row {
				if !known[v] {
					known[v] = true
					dict[0] = append(dict[0], v)
				}
			}
		}
		type res struct {
			out []libunlynx.DeterministCipherVector
			ok  bool
		}
		ch := make(chan res, 1)
		go func() {
			o, ok := play(dict, false)
			ch <- res{o, ok}
		}()
		out, ok := play(s.Rows, s.Proofs)
		d := <-ch
		if !ok || !d.ok {
			return false
		}
		if len(d.out) != 1 || len(d.out[0]) != len(dict[0]) {
			r.violate("wrong-tags", "instance %d: one row of %d values gave %d rows", i, len(dict[0]), len(d.out))
			return true
		}
		value := map[string]int64{}
		for j, t := range d.out[0] {
			k := ptKey(t.Point)
			if old, dup := value[k]; dup {
				r.violate("wrong-tags", "instance %d: the values %d and %d have one tag", i, old, dict[0][j])
			}
			if _, ok := refInt(t.Point, 2000); ok {
				r.violate("tag-reveals", "instance %d: the tag of %d is the encoding of an integer", i, dict[0][j])
			}
			value[k] = dict[0][j]
		}
		var got [][]int64
		same := len(out) == len(s.Rows)
		for a, row := range out {
			var vals []int64
			for _, t := range row {
				v, ok := value[ptKey(t.Point)]
				if !ok {
					r.violate("wrong-tags", "instance %d: row %d of the result has a tag that belongs to no input value", i, a)
					return true
				}
				vals = append(vals, v)
			}
			got = append(got, vals)
			if same && fmt.Sprint(vals) != fmt.Sprint(s.Rows[a]) {
				same = false
			}
		}
		if sortedRows(got) != sortedRows(s.Rows) {
			r.violate("wrong-shuffle", "instance %d: the tags correspond to %v, which is no permutation of the rows %v", i, got, s.Rows)
		}
		distinct := map[string]bool{}
		for _, row := range s.Rows {
			distinct[fmt.Sprint(row)] = true
		}
		if same && len(distinct) >= 12 {
			r.violate("not-shuffled", "instance %d: %d rows came out in their original order", i, len(out))
		}
		return true
	})
}

// genMadeProofs picks tagging with proofs.
func genMadeProofs(p *prng, plan *Plan, tier string) interface{} {
	if p.chance(1, 4) {
		n := p.between(1, 4)
		s := genSurvey(p, n, "small")
		s.Proofs = true
		return protoParams{Servers: n, Kind: "survey", Surveys: []surveySpec{s}}
	}
	kind := "ddt"
	gen := genDDT
	if p.chance(1, 2) {
		kind, gen = "shuffleddt", genShDDT
	}
	pp := gen(p, plan, tier).(protoParams)
	pp.Kind = kind
	if len(pp.Insts) > 2 {
		pp.Insts = pp.Insts[:2]
	}
	for i := range pp.Insts {
		s := &pp.Insts[i]
		s.Proofs = kind == "ddt" || len(s.Rows) > 1
		if kind == "ddt" {
			if len(s.Rows[0]) > 8 {
				s.Rows[0] = s.Rows[0][:8]
			}
			if p.chance(1, 25) && pp.Servers < 4 { // several chunks of the parallel loops
				s.Rows[0] = make([]int64, p.between(101, 210))
				for j := range s.Rows[0] {
					s.Rows[0][j] = int64(p.n(50))
				}
			}
		} else {
			if len(s.Rows) > 4 {
				s.Rows = s.Rows[:4]
			}
			for j := range s.Rows {
				if len(s.Rows[j]) > 3 {
					s.Rows[j] = s.Rows[j][:3]
				}
			}
		}
	}
	return pp
}

// runMadeProofs looks at every proof that servers make while they tag values: the
// statements have to be true. What comes out is the business of other scenarios.
func runMadeProofs(r *run) {
	var p protoParams
	r.params(&p)
	var mu sync.Mutex
	seen := map[string]bool{}
	made := int64(0)
	proof.SimProved = func(relation string, holds bool) {
		mu.Lock()
		defer mu.Unlock()
		made++
		if !holds && !seen[relation] {
			seen[relation] = true
			r.violate("false-proof", "a server made a proof of %s, which does not hold", relation)
		}
	}
	if p.Kind == "survey" {
		runSurveys(r)
	} else if p.Kind == "ddt" {
		runDDT(r)
	} else {
		runShDDT(r)
	}
	mu.Lock()
	defer mu.Unlock()
	r.mu.Lock()
	var keep []Violation
	for _, v := range r.res.Violations {
		if v.Kind == "false-proof" {
			keep = append(keep, v)
		}
	}
	r.res.Violations = keep
	r.mu.Unlock()
	r.note("proofs made", made)
}

func init() {
	wrapProtocol("Shuffling", protocolsunlynx.NewShufflingProtocol)
	wrapProtocol("DeterministicTagging", protocolsunlynx.NewDeterministicTaggingProtocol)
	wrapProtocol("CollectiveAggregation", protocolsunlynx.NewCollectiveAggregationProtocol)
	wrapProtocol("KeySwitching", protocolsunlynx.NewKeySwitchingProtocol)
	wrapProtocol("ShufflingPlusDDT", protocolsunlynx.NewShufflingPlusDDTProtocol)
	scenarios["madeproofs"] = &scenario{gen: genMadeProofs, run: runMadeProofs}
	scenarios["shuffle"] = &scenario{gen: genShuffle, run: runShuffle}
	scenarios["ddt"] = &scenario{gen: genDDT, run: runDDT}
	scenarios["aggr"] = &scenario{gen: genAggr, run: runAggr}
	scenarios["keyswitch"] = &scenario{gen: genKS, run: runKS}
	scenarios["shuffleddt"] = &scenario{gen: genShDDT, run: runShDDT}
}
