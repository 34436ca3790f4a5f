package main

import (
	"fmt"
	"sort"
	"sync"
	"time"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/add_rm"
	"github.com/ldsec/unlynx/lib/aggregation"
	"github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/protocols/utils"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
	"go.dedis.ch/protobuf"
)

// Scenarios of the protocols one server runs by itself: several instances at a
// time, on the same and on different servers.

type localParams struct {
	Servers int
	Ops     []localOp
}

type localOp struct {
	Kind    string // aggr, clear, addrm, proofs
	Server  int
	StartUS int64
	Slow    int64 // the caller takes the result this much later
	Proofs  bool

	Rows           [][]int64    // aggr, clear: group, where, values...
	Enc            int          // clear: number of the encrypted values, from the end
	NoGr           bool         // clear: no grouping attribute
	More           [][2][]int64 // clear: further group and where attributes of every row
	GClear, WClear int

	Vals  []int64
	Steps []bool // addrm: true adds the key of a server, false removes the last one added

	Proof proofSpec
}

type proofSpec struct {
	Sizes  [6]int // number of proofs of every type
	Tamper [6]int // 0: honest, otherwise the way of cheating
	At     [6]int // the proof that is tampered with
	Wire   bool   // the proofs were sent over the network
	List   bool   `json:",omitempty"` // tag addition, shuffling: proofs made as a list
	Part   int    `json:",omitempty"` // the share of the proofs that is verified once more, in quarters plus one
	Damage int    `json:",omitempty"` // this many of the proofs arrive damaged before they arrive whole
	Rows   int    // shuffling
	Cols   int
}

// localTree is the tree of a protocol whose only node is the server.
func (r *run) localTree(server int) *onet.Tree {
	return treeSpec{Members: []int{server}, Parents: []int{0}}.build(r)
}

const localWait = 30 * time.Minute

func runLocal(r *run) {
	var p localParams
	r.params(&p)
	r.cluster(p.Servers)
	var wg sync.WaitGroup
	for i := range p.Ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			o := &p.Ops[i]
			time.Sleep(time.Duration(o.StartUS) * time.Microsecond)
			switch o.Kind {
			case "aggr":
				r.localAggr(i, o)
			case "clear":
				r.localClear(i, o)
			case "addrm":
				r.localAddRm(i, o)
			case "proofs":
				r.localProofs(i, o)
			}
		}(i)
	}
	wg.Wait()
}

func (o *localOp) pause() { time.Sleep(time.Duration(o.Slow) * time.Microsecond) }

func (r *run) localAggr(i int, o *localOp) {
	priv, pub := libunlynx.GenKey()
	var target []libunlynx.FilteredResponseDet
	want := map[string][]int64{}
	for _, row := range o.Rows {
		k := fmt.Sprintf("op%d-%d", i, row[0])
		target = append(target, libunlynx.FilteredResponseDet{DetTagGroupBy: libunlynx.GroupingKey(k), Fr: libunlynx.FilteredResponse{
			GroupByEnc:            encRows([][]int64{{row[0]}}, pub, false)[0],
			AggregatingAttributes: encRows([][]int64{row[2:]}, pub, false)[0]}})
		w := want[k]
		if w == nil {
			w = make([]int64, len(row)-2)
		}
		for j, v := range row[2:] {
			w[j] += v
		}
		want[k] = w
	}
	pi, err := r.startProto(r.localTree(o.Server), "LocalAggregation", func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
		p := pi.(*protocolsunlynxutils.LocalAggregationProtocol)
		p.TargetOfAggregation = target
		p.Proofs = o.Proofs
	})
	must(err)
	o.pause()
	select {
	case out := <-pi.(*protocolsunlynxutils.LocalAggregationProtocol).FeedbackChannel:
		got := map[string][]int64{}
		for k, fr := range out {
			var vals []int64
			for _, c := range fr.AggregatingAttributes {
				v, ok := refDecrypt(priv, c, 3000)
				if !ok {
					v = -999999
				}
				vals = append(vals, v)
			}
			got[string(k)] = vals
		}
		if d := diffAnswer(got, want); d != "" {
			r.violate("wrong-local-aggregate", "operation %d: %s", i, d)
		}
		r.note("checked", 1)
	case <-after(localWait):
		r.violate("no-result", "operation %d (local aggregation) gave no result", i)
	}
}

// splitMap names the values, the first n of them in the clear.
func splitMap(name string, vals []int64, n int) (clear, enc map[string]int64) {
	clear, enc = map[string]int64{}, map[string]int64{}
	for i, v := range vals {
		if i < n {
			clear[fmt.Sprint(name, i)] = v
		} else {
			enc[fmt.Sprint(name, i)] = v
		}
	}
	return
}

// joinMap undoes it; nil when the attributes are not split that way.
func joinMap(name string, clear, enc map[string]int64, n int) []int64 {
	vals := []int64{}
	for i := 0; i < len(clear)+len(enc); i++ {
		m := clear
		if i >= n {
			m = enc
		}
		v, ok := m[fmt.Sprint(name, i)]
		if !ok {
			return nil
		}
		vals = append(vals, v)
	}
	return vals
}

func (r *run) localClear(i int, o *localOp) {
	var target []libunlynx.DpClearResponse
	want := map[string][]int64{}
	for at, row := range o.Rows {
		c := libunlynx.DpClearResponse{}
		if !o.NoGr {
			c.GroupByClear = map[string]int64{"g0": row[0]}
		}
		where := ""
		if row[1] >= 0 {
			c.WhereClear = map[string]int64{"w0": row[1]}
			where = fmt.Sprint(" ", row[1])
		}
		more, keep := "", row[1] != 0
		if at < len(o.More) {
			// the attributes after the first: encrypted from a place on
			m := o.More[at]
			c.GroupByClear, c.GroupByEnc = splitMap("g", append([]int64{row[0]}, m[0]...), o.GClear)
			c.WhereClear, c.WhereEnc = splitMap("w", m[1], o.WClear)
			more, where = fmt.Sprint(" ", m[0]), fmt.Sprint(" ", m[1])
			for _, v := range m[1] {
				keep = keep && v != 0
			}
		}
		vals := row[2:]
		c.AggregatingAttributesClear = map[string]int64{}
		c.AggregatingAttributesEnc = map[string]int64{}
		for j, v := range vals {
			if j >= len(vals)-o.Enc {
				c.AggregatingAttributesEnc[fmt.Sprintf("s%d", j)] = v
			} else {
				c.AggregatingAttributesClear[fmt.Sprintf("s%d", j)] = v
			}
		}
		target = append(target, c)
		if !keep {
			continue
		}
		k := "all"
		if !o.NoGr {
			k = fmt.Sprint(row[0], more)
		}
		k += where
		w := want[k]
		if w == nil {
			w = make([]int64, len(vals))
		}
		for j, v := range vals {
			w[j] += v
		}
		want[k] = w
	}
	pi, err := r.startProto(r.localTree(o.Server), "LocalClearAggregation", func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
		pi.(*protocolsunlynxutils.LocalClearAggregationProtocol).TargetOfAggregation = target
	})
	must(err)
	o.pause()
	select {
	case out := <-pi.(*protocolsunlynxutils.LocalClearAggregationProtocol).FeedbackChannel:
		got := map[string][]int64{}
		for _, c := range out {
			k := "all"
			if !o.NoGr {
				k = fmt.Sprint(c.GroupByClear["g0"])
			}
			if len(o.More) > 0 {
				g, w := joinMap("g", c.GroupByClear, c.GroupByEnc, o.GClear), joinMap("w", c.WhereClear, c.WhereEnc, o.WClear)
				if len(g) == 0 {
					r.violate("wrong-local-aggregate", "operation %d (clear): groups %v and %v", i, c.GroupByClear, c.GroupByEnc)
					continue
				}
				k = fmt.Sprint(g[0], fmt.Sprint(" ", g[1:]), fmt.Sprint(" ", w))
			} else if w, ok := c.WhereClear["w0"]; ok {
				k += fmt.Sprint(" ", w)
			}
			n := len(c.AggregatingAttributesClear) + len(c.AggregatingAttributesEnc)
			vals := make([]int64, n)
			for j := range vals {
				key := fmt.Sprintf("s%d", j)
				if v, ok := c.AggregatingAttributesClear[key]; ok {
					vals[j] = v
				} else {
					vals[j] = c.AggregatingAttributesEnc[key]
				}
			}
			if _, dup := got[k]; dup {
				r.violate("wrong-local-aggregate", "operation %d: group %s appears twice", i, k)
			}
			got[k] = vals
		}
		if d := diffAnswer(got, want); d != "" {
			r.violate("wrong-local-aggregate", "operation %d (clear): %s", i, d)
		}
		r.note("checked", 1)
	case <-after(localWait):
		r.violate("no-result", "operation %d (local clear aggregation) gave no result", i)
	}
}

func (r *run) localAddRm(i int, o *localOp) {
	g := libunlynx.SuiTe
	k := g.Scalar().Zero()
	for _, nd := range r.net.nodes {
		k = g.Scalar().Add(k, nd.priv)
	}
	cv := encRows([][]int64{o.Vals}, g.Point().Mul(k, nil), false)[0]
	var added []kyber.Scalar
	for s, add := range o.Steps {
		key := g.Scalar().Pick(g.RandomStream())
		if add {
			added = append(added, key)
			k = g.Scalar().Add(k, key)
		} else {
			if len(added) > 0 {
				key = added[len(added)-1]
				added = added[:len(added)-1]
			} else {
				key = r.net.nodes[s%len(r.net.nodes)].priv
			}
			k = g.Scalar().Sub(k, key)
		}
		target := append(libunlynx.CipherVector{}, cv...)
		pi, err := r.startProto(r.localTree((o.Server+s)%len(r.net.nodes)), "AddRmServer", func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
			p := pi.(*protocolsunlynxutils.AddRmServerProtocol)
			p.TargetOfTransformation = target
			p.KeyToRm = key
			p.Proofs = o.Proofs
			p.Add = add
		})
		must(err)
		o.pause()
		select {
		case cv = <-pi.(*protocolsunlynxutils.AddRmServerProtocol).FeedbackChannel:
		case <-after(localWait):
			r.violate("no-result", "operation %d step %d (add/remove) gave no result", i, s)
			return
		}
		if len(cv) != len(o.Vals) {
			r.violate("wrong-key-change", "operation %d step %d: %d ciphertexts became %d", i, s, len(o.Vals), len(cv))
			return
		}
		for j, c := range cv {
			if v, ok := refDecrypt(k, c, 3000); !ok || v != o.Vals[j] {
				r.violate("wrong-key-change", "operation %d step %d (add %v): element %d does not decrypt to %d under the new collective key", i, s, add, j, o.Vals[j])
				return
			}
		}
		r.note("checked", 1)
	}
}

// wire sends a value as a message does.
func wire(v, to interface{}) {
	b, err := protobuf.Encode(v)
	must(err)
	must(protobuf.DecodeWithConstructors(b, to, network.DefaultConstructors(libunlynx.SuiTe)))
}

// noPoint replaces one of the encoded points by bytes that are none.
func noPoint(b []byte, at int) []byte {
	n := libunlynx.SuiTe.PointLen()
	c := append([]byte{}, b...)
	at = at % (len(c) / n) * n
	for x := byte(2); x < 255; x++ { // few values are no point
		for i := 0; i < n; i++ {
			c[at+i] = 0
		}
		c[at] = x
		if libunlynx.SuiTe.Point().UnmarshalBinary(c[at:at+n]) != nil {
			return c
		}
	}
	panic("every value is a point")
}

// damaged checks the outcome of reading damaged proofs.
func (r *run) damaged(what string, err error) {
	if err == nil {
		r.violate("damaged-proof", "%s proofs with a value that is no point were read without an error", what)
	}
	r.note("damaged", 1)
}

func flip(b []byte, at int) []byte {
	c := append([]byte{}, b...)
	if len(c) > 0 {
		c[at%len(c)] ^= 1 << uint(at%7)
	}
	return c
}

// makeProofs builds honest proofs for made-up data, then cheats as told. It
// returns the proofs and the expected verdicts.
func (r *run) makeProofs(s *proofSpec, aggregate kyber.Point) (protocolsunlynxutils.ProofsToVerify, []bool) {
	g := libunlynx.SuiTe
	rnd := func() kyber.Scalar { return g.Scalar().Pick(g.RandomStream()) }
	pt := func() kyber.Point { return g.Point().Mul(rnd(), nil) }
	enc := func() libunlynx.CipherText { return *libunlynx.EncryptInt(aggregate, int64(r.rng.n(100))) }
	out := protocolsunlynxutils.ProofsToVerify{}
	expect := make([]bool, 6)
	for i := range expect {
		expect[i] = s.Sizes[i] == 0 || s.Tamper[i] == 0
	}
	k := rnd()
	K := g.Point().Mul(k, nil)

	if n := s.Sizes[0]; n > 0 { // key switching
		var rbs []kyber.Point
		for i := 0; i < n; i++ {
			rbs = append(rbs, enc().K)
		}
		Q := pt()
		_, ks2s, rbn, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rbs, k)
		prf, err := libunlynxkeyswitch.KeySwitchListProofCreation(K, Q, k, ks2s, rbn, vis)
		must(err)
		for i := range prf.List {
			o := &prf.List[i]
			r.aboutOwn("key switching", i, o.Ks2, ks2s[i], o.RbNeg, rbn[i], o.ViB, g.Point().Mul(vis[i], nil), o.K, K, o.Q, Q)
		}
		x := &prf.List[s.At[0]%n]
		switch s.Tamper[0] {
		case 1:
			x.Ks2 = g.Point().Add(x.Ks2, g.Point().Base())
		case 2:
			x.Q = pt()
		case 3:
			x.K = pt()
		case 4:
			x.Proof = flip(x.Proof, s.At[0])
		case 5:
			x.RbNeg = pt()
		case 6:
			x.ViB = pt()
		case 7: // the proof of another entry
			x.Proof = prf.List[(s.At[0]+1)%n].Proof
			if n == 1 {
				x.Ks2 = pt()
			}
		case 8:
			x.Proof = nil
		case 9: // the result is chosen after the challenge
			name := nameOf(func(m []byte) {
				y := *x
				y.Proof, y.Ks2 = m, pt()
				libunlynxkeyswitch.KeySwitchProofVerification(y)
			})
			x.Proof, x.Ks2 = forge(name, []kyber.Scalar{vis[s.At[0]%n], k}, 2, []relation{
				{0, nil}, {1, nil}, {1, x.RbNeg, 0, x.Q}})
		}
		if s.Wire {
			b, err := prf.ToBytes()
			must(err)
			if s.Damage > 0 {
				d := libunlynxkeyswitch.PublishedKSListProofBytes{List: append([]libunlynxkeyswitch.PublishedKSProofBytes{}, b.List...)}
				for i := 0; i < s.Damage; i++ {
					y := &d.List[(s.At[0]+i)%n]
					y.KVibKs2RbNegQ = noPoint(y.KVibKs2RbNegQ, s.At[0])
				}
				r.damaged("key switching", out.KeySwitchingProofs.FromBytes(d))
			}
			must(out.KeySwitchingProofs.FromBytes(b))
		} else {
			out.KeySwitchingProofs = prf
		}
	}
	if n := s.Sizes[1]; n > 0 { // tag creation
		sec := rnd()
		cv := make(libunlynx.CipherVector, n)
		for i := range cv {
			cv[i] = enc()
		}
		after := libunlynxdetertag.DeterministicTagSequence(cv, k, sec)
		prf, err := libunlynxdetertag.DeterministicTagCrListProofCreation(cv, after, K, k, sec)
		must(err)
		for i := range prf.List {
			o := &prf.List[i]
			r.aboutOwn("tag creation", i, o.CTbef.K, cv[i].K, o.CTbef.C, cv[i].C, o.CTaft.K, after[i].K, o.CTaft.C, after[i].C)
		}
		x := &prf.List[s.At[1]%n]
		switch s.Tamper[1] {
		case 1:
			x.CTaft.C = g.Point().Add(x.CTaft.C, g.Point().Base())
		case 2:
			x.CTaft.K = pt()
		case 3:
			x.CTbef = enc()
		case 4:
			x.Proof = flip(x.Proof, s.At[1])
		case 5:
			prf.SB = pt()
		case 6:
			prf.K = pt()
		case 7:
			x.Proof = prf.List[(s.At[1]+1)%n].Proof
			if n == 1 {
				x.CTbef = enc()
			}
		case 8:
			x.Proof = nil
		case 9:
			x.Ciminus11Si = pt()
		case 10: // another tag, whose proof rests on another intermediate value
			x.Ciminus11Si = pt()
			x.CTaft.C = g.Point().Add(g.Point().Mul(sec, x.CTbef.C), g.Point().Mul(k, x.Ciminus11Si))
			name := nameOf(func(m []byte) {
				y := *x
				y.Proof = m
				libunlynxdetertag.DeterministicTagCrProofVerification(y, prf.K, prf.SB)
			})
			x.Proof, _ = forge(name, []kyber.Scalar{sec, k}, -1, []relation{
				{0, x.CTbef.K}, {1, nil}, {0, x.CTbef.C, 1, x.Ciminus11Si}, {0, nil}})
		case 11: // the tag is chosen after the challenge
			name := nameOf(func(m []byte) {
				y := *x
				y.Proof, y.CTaft.C = m, pt()
				libunlynxdetertag.DeterministicTagCrProofVerification(y, prf.K, prf.SB)
			})
			x.Proof, x.CTaft.C = forge(name, []kyber.Scalar{sec, k}, 2, []relation{
				{0, x.CTbef.K}, {1, nil}, {0, x.CTbef.C, 1, x.Ciminus11Si}, {0, nil}})
		}
		if s.Wire {
			wire(&prf, &out.DetTagCreationProofs)
		} else {
			out.DetTagCreationProofs = prf
		}
	}
	if n := s.Sizes[2]; n > 0 { // tag addition
		prf := libunlynxdetertag.PublishedDDTAdditionListProof{}
		sec := rnd()
		toAdd := g.Point().Mul(sec, nil)
		var c1s, c2s, sums []kyber.Point
		var secs []kyber.Scalar
		for i := 0; i < n; i++ {
			c := enc().C
			if s.List { // every element has its own secret
				sec = rnd()
				toAdd = g.Point().Mul(sec, nil)
			}
			c1s, c2s, sums, secs = append(c1s, c), append(c2s, toAdd), append(sums, g.Point().Add(c, toAdd)), append(secs, sec)
		}
		if s.List {
			var err error
			prf, err = libunlynxdetertag.DeterministicTagAdditionListProofCreation(c1s, secs, c2s, sums)
			must(err)
		} else {
			for i := range c1s {
				p, err := libunlynxdetertag.DeterministicTagAdditionProofCreation(c1s[i], secs[i], c2s[i], sums[i])
				must(err)
				prf.List = append(prf.List, p)
			}
		}
		for i := range prf.List {
			o := &prf.List[i]
			r.aboutOwn("tag addition", i, o.C1, c1s[i], o.C2, c2s[i], o.R, sums[i])
		}
		x := &prf.List[s.At[2]%n]
		switch s.Tamper[2] {
		case 1, 5:
			x.R = g.Point().Add(x.R, g.Point().Base())
		case 2:
			x.C1 = pt()
		case 3:
			x.C2 = pt()
		case 4:
			x.Proof = flip(x.Proof, s.At[2])
		case 6: // a consistent sum of another element
			x.C2 = pt()
			x.R = g.Point().Add(x.C1, x.C2)
		case 7: // the sum of another entry
			x.R = prf.List[(s.At[2]+1)%n].R
			if n == 1 {
				x.R = pt()
			}
		case 8:
			x.Proof = nil
		case 9: // the added value is chosen after the challenge
			name := nameOf(func(m []byte) {
				y := *x
				y.Proof, y.C2 = m, pt()
				y.R = g.Point().Add(y.C1, y.C2)
				libunlynxdetertag.DeterministicTagAdditionProofVerification(y)
			})
			x.Proof, x.C2 = forge(name, []kyber.Scalar{rnd()}, 0, []relation{{0, nil}})
			x.R = g.Point().Add(x.C1, x.C2)
		}
		if s.Wire {
			wire(&prf, &out.DetTagAdditionProofs)
		} else {
			out.DetTagAdditionProofs = prf
		}
	}
	aggr := func(t int) libunlynxaggr.PublishedAggregationListProof {
		n := s.Sizes[t]
		var prf libunlynxaggr.PublishedAggregationListProof
		if n == 0 {
			return prf
		}
		var data []libunlynx.CipherVector
		var res libunlynx.CipherVector
		for i := 0; i < n; i++ {
			cv := make(libunlynx.CipherVector, 1+r.rng.n(4))
			for j := range cv {
				cv[j] = enc()
			}
			sum := libunlynx.NewCipherText()
			for _, c := range cv {
				sum.Add(*sum, c)
			}
			data = append(data, cv)
			res = append(res, *sum)
		}
		prf = libunlynxaggr.AggregationListProofCreation(data, res)
		for i := range prf.List {
			o := &prf.List[i]
			r.aboutOwn("aggregation", i, o.AggregationResult.K, res[i].K, o.AggregationResult.C, res[i].C)
			if len(o.Data) != len(data[i]) {
				r.violate("wrong-proof", "the aggregation proof %d is about %d values instead of %d", i, len(o.Data), len(data[i]))
				continue
			}
			for j := range o.Data {
				r.aboutOwn("aggregation", i, o.Data[j].K, data[i][j].K, o.Data[j].C, data[i][j].C)
			}
		}
		x := &prf.List[s.At[t]%n]
		switch s.Tamper[t] {
		case 1, 4:
			x.AggregationResult.C = g.Point().Add(x.AggregationResult.C, g.Point().Base())
		case 2, 5:
			x.AggregationResult.K = pt()
		case 3:
			x.Data = append(append(libunlynx.CipherVector{}, x.Data...), enc())
		case 6:
			x.Data = append(libunlynx.CipherVector{}, x.Data...)
			x.Data[s.At[t]%len(x.Data)] = enc()
		case 7: // the result of another group
			o := &prf.List[(s.At[t]+1)%n]
			x.AggregationResult, o.AggregationResult = o.AggregationResult, x.AggregationResult
			if n == 1 {
				x.AggregationResult = enc()
			}
		case 8: // a value is left out
			j := s.At[t] % len(x.Data)
			x.Data = append(append(libunlynx.CipherVector{}, x.Data[:j]...), x.Data[j+1:]...)
		}
		if s.Wire {
			b, err := prf.ToBytes()
			must(err)
			var back libunlynxaggr.PublishedAggregationListProof
			if s.Damage > 0 {
				d := libunlynxaggr.PublishedAggregationListProofBytes{List: append([]libunlynxaggr.PublishedAggregationProofBytes{}, b.List...)}
				for i := 0; i < s.Damage; i++ {
					y := &d.List[(s.At[t]+i)%n]
					if (s.At[t]+i)%2 == 0 || len(y.Data) == 0 {
						y.AggregationResult = noPoint(y.AggregationResult, s.At[t])
					} else {
						y.Data = noPoint(y.Data, s.At[t])
					}
				}
				r.damaged("aggregation", back.FromBytes(d))
			}
			must(back.FromBytes(b))
			return back
		}
		return prf
	}
	out.AggregationProofs = aggr(3)
	out.CollectiveAggregationProofs = aggr(5)
	type shuffled struct {
		in, out []libunlynx.CipherVector
		pi      []int
		beta    [][]kyber.Scalar
	}
	var shuffles []shuffled
	for i := 0; i < s.Sizes[4]; i++ { // shuffling
		cheat := s.Tamper[4] != 0 && i == s.At[4]%s.Sizes[4]
		cols := s.Cols
		if cheat && s.Tamper[4] > 10 && cols < 2 {
			cols = 2
		}
		in := make([]libunlynx.CipherVector, s.Rows)
		for a := range in {
			in[a] = make(libunlynx.CipherVector, cols)
			for b := range in[a] {
				in[a][b] = enc()
			}
		}
		if cheat && s.Tamper[4] == 13 { // two columns begin alike
			in[0][1] = in[0][0]
		}
		shuf, pi, beta := libunlynxshuffle.ShuffleSequence(in, g.Point().Base(), aggregate, nil)
		if cheat && s.Tamper[4] == 1 { // a value is replaced before the proof is made
			shuf[0] = append(libunlynx.CipherVector{}, shuf[0]...)
			shuf[0][s.At[4]%cols] = enc()
		}
		shuffles = append(shuffles, shuffled{in, shuf, pi, beta})
	}
	var list libunlynxshuffle.PublishedShufflingListProof
	if s.List {
		var ins, outs [][]libunlynx.CipherVector
		var gs, hs []kyber.Point
		var betas [][][]kyber.Scalar
		var pis [][]int
		for _, x := range shuffles {
			ins, outs, gs, hs = append(ins, x.in), append(outs, x.out), append(gs, g.Point().Base()), append(hs, aggregate)
			betas, pis = append(betas, x.beta), append(pis, x.pi)
		}
		var err error
		list, err = libunlynxshuffle.ShuffleListProofCreation(ins, outs, gs, hs, betas, pis)
		must(err)
	} else {
		for _, x := range shuffles {
			prf, err := libunlynxshuffle.ShuffleProofCreation(x.in, x.out, g.Point().Base(), aggregate, x.beta, x.pi)
			must(err)
			list.List = append(list.List, prf)
		}
	}
	for i, prf := range list.List {
		in, shuf, pi, beta := shuffles[i].in, shuffles[i].out, shuffles[i].pi, shuffles[i].beta
		cheat := s.Tamper[4] != 0 && i == s.At[4]%s.Sizes[4]
		cols := len(in[0])
		r.aboutOwn("shuffling", i, prf.G, g.Point().Base(), prf.H, aggregate)
		if len(prf.OriginalList) != len(in) || len(prf.ShuffledList) != len(shuf) {
			r.violate("wrong-proof", "the shuffling proof %d is about %d and %d rows instead of %d", i, len(prf.OriginalList), len(prf.ShuffledList), len(in))
			continue
		}
		for a := range in {
			for b := 0; b < cols; b++ {
				r.aboutOwn("shuffling", i, prf.OriginalList[a][b].K, in[a][b].K, prf.OriginalList[a][b].C, in[a][b].C, prf.ShuffledList[a][b].K, shuf[a][b].K, prf.ShuffledList[a][b].C, shuf[a][b].C)
			}
		}
		if cheat {
			var err error
			cp := func(l []libunlynx.CipherVector) []libunlynx.CipherVector {
				l = append([]libunlynx.CipherVector{}, l...)
				l[0] = append(libunlynx.CipherVector{}, l[0]...)
				return l
			}
			switch s.Tamper[4] {
			case 2: // a value is replaced afterwards
				prf.ShuffledList = cp(prf.ShuffledList)
				prf.ShuffledList[0][0].C = pt()
			case 3: // a row is dropped for a copy of another
				prf.ShuffledList = cp(prf.ShuffledList)
				prf.ShuffledList[0] = prf.ShuffledList[1]
			case 4:
				prf.HashProof = flip(prf.HashProof, s.At[4])
			case 5:
				prf.OriginalList = cp(prf.OriginalList)
				prf.OriginalList[0][0] = enc()
			case 7: // rows are torn apart
				prf.ShuffledList = cp(prf.ShuffledList)
				prf.ShuffledList[1] = append(libunlynx.CipherVector{}, prf.ShuffledList[1]...)
				prf.ShuffledList[0][0], prf.ShuffledList[1][0] = prf.ShuffledList[1][0], prf.ShuffledList[0][0]
			case 8: // a row is left out
				prf.ShuffledList = prf.ShuffledList[:len(prf.ShuffledList)-1]
			case 9, 10: // a shuffle for another key, or another base
				G, H := g.Point().Base(), aggregate.Clone()
				if s.Tamper[4] == 9 {
					H = pt()
				} else {
					G = pt()
				}
				shuf, pi, beta := libunlynxshuffle.ShuffleSequence(in, G, H, nil)
				prf = libunlynxshuffle.PublishedShufflingProof{OriginalList: in, ShuffledList: shuf, G: G, H: H}
				prf.HashProof = forgeShuffle(prf, aggregate, pi, beta)
			case 11, 12: // two columns of a row are altered so that one makes up for the other
				a := s.At[4] % len(in)
				lists := [][]libunlynx.CipherVector{cp(in), cp(shuf)}
				l := lists[12-s.Tamper[4]]
				row := append(libunlynx.CipherVector{}, l[a]...)
				e := shuffleWeights(in, shuf, aggregate, pi)
				row[0].C = g.Point().Add(row[0].C, g.Point().Mul(e[1], nil))
				row[1].C = g.Point().Sub(row[1].C, g.Point().Mul(e[0], nil))
				l[a] = row
				prf, err = libunlynxshuffle.ShuffleProofCreation(lists[0], lists[1], g.Point().Base(), aggregate, beta, pi)
				must(err)
			case 13: // what is added to one column is taken from the other
				alt := cp(shuf)
				x := g.Point().Mul(rnd(), nil)
				alt[0][0].C, alt[0][1].C = g.Point().Add(alt[0][0].C, x), g.Point().Sub(alt[0][1].C, x)
				prf, err = libunlynxshuffle.ShuffleProofCreation(in, alt, g.Point().Base(), aggregate, beta, pi)
				must(err)
			case 6: // a shuffle for another collective key
				h := pt()
				shuf, pi, beta := libunlynxshuffle.ShuffleSequence(in, g.Point().Base(), h, nil)
				prf, err = libunlynxshuffle.ShuffleProofCreation(in, shuf, g.Point().Base(), h, beta, pi)
				must(err)
			}
		}
		if s.Wire {
			b, err := prf.ToBytes()
			must(err)
			var back libunlynxshuffle.PublishedShufflingProof
			if s.Damage > 0 {
				d := b
				field := []**[]byte{&d.OriginalList, &d.ShuffledList, &d.G, &d.H}[(s.At[4]+i)%4]
				x := noPoint(**field, s.At[4])
				*field = &x
				r.damaged("shuffling", back.FromBytes(d))
			}
			must(back.FromBytes(b))
			prf = back
		}
		out.ShufflingProofs.List = append(out.ShufflingProofs.List, prf)
	}
	return out, expect
}

var proofNames = []string{"key switching", "tag creation", "tag addition", "aggregation", "shuffling", "collective aggregation"}

func (r *run) localProofs(i int, o *localOp) {
	tree := r.localTree(o.Server)
	target, expect := r.makeProofs(&o.Proof, tree.Roster.Aggregate)
	pi, err := r.startProto(tree, "ProofsVerification", func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance) {
		pi.(*protocolsunlynxutils.ProofsVerificationProtocol).TargetOfVerification = target
	})
	must(err)
	o.pause()
	select {
	case got := <-pi.(*protocolsunlynxutils.ProofsVerificationProtocol).FeedbackChannel:
		if len(got) != 6 {
			r.violate("wrong-verdict", "operation %d: %d verdicts", i, len(got))
			return
		}
		for t := range got {
			if got[t] && !expect[t] {
				r.violate("forged-proof", "operation %d: a forged %s proof (way %d) was accepted", i, proofNames[t], o.Proof.Tamper[t])
			}
			if !got[t] && expect[t] {
				r.violate("honest-proof", "operation %d: the honest %s proofs were rejected (sent over the network: %v)", i, proofNames[t], o.Proof.Wire)
			}
			if !expect[t] {
				r.note("forged", 1)
			}
		}
		r.note("checked", 1)
	case <-after(localWait):
		r.violate("no-result", "operation %d (proof verification) gave no result", i)
	}
	if o.Proof.Part > 0 {
		r.verifyPart(i, &o.Proof, target, tree.Roster.Aggregate)
	}
}

// verifyPart verifies the first ones of the proofs of every type.
func (r *run) verifyPart(i int, s *proofSpec, v protocolsunlynxutils.ProofsToVerify, aggregate kyber.Point) {
	percent := float64(s.Part-1) / 4
	for t := range s.Sizes {
		n := s.Sizes[t]
		if n == 0 {
			continue
		}
		var got bool
		switch t {
		case 0:
			got = libunlynxkeyswitch.KeySwitchListProofVerification(v.KeySwitchingProofs, percent)
		case 1:
			got = libunlynxdetertag.DeterministicTagCrListProofVerification(v.DetTagCreationProofs, percent)
		case 2:
			got = libunlynxdetertag.DeterministicTagAdditionListProofVerification(v.DetTagAdditionProofs, percent)
		case 3:
			got = libunlynxaggr.AggregationListProofVerification(v.AggregationProofs, percent)
		case 4:
			got = libunlynxshuffle.ShuffleListProofVerification(v.ShufflingProofs, aggregate, percent)
		case 5:
			got = libunlynxaggr.AggregationListProofVerification(v.CollectiveAggregationProofs, percent)
		}
		first := s.At[t] % n // the first one that is forged
		switch {
		case s.Tamper[t] == 0:
			first = n
		case t == 1 && (s.Tamper[t] == 5 || s.Tamper[t] == 6): // what they have in common
			first = 0
		case (t == 3 || t == 5) && s.Tamper[t] == 7 && (first+1)%n < first:
			first = (first + 1) % n
		}
		verified := ((s.Part-1)*n + 3) / 4
		if got && first < verified {
			r.violate("forged-proof", "operation %d: %d of %d %s proofs were verified, and proof %d, forged (way %d), was accepted", i, verified, n, proofNames[t], first, s.Tamper[t])
		}
		if !got && first >= verified {
			r.violate("honest-proof", "operation %d: %d of %d %s proofs were verified, all honest, and rejected", i, verified, n, proofNames[t])
		}
	}
	r.note("parts", 1)
}

// boundary picks an element of a list of n, often where the parallel loops change
// to another chunk.
func boundary(p *prng, n int) int {
	if n > 100 && p.chance(2, 3) {
		return p.pick(99, 100, n-1)
	}
	return p.n(1000)
}

func genProofSpec(p *prng) proofSpec {
	s := proofSpec{Wire: p.chance(1, 2), List: p.chance(1, 2), Rows: p.between(2, 5), Cols: p.between(1, 4)}
	ways := [6]int{9, 11, 9, 8, 13, 8}
	for t := range s.Sizes {
		s.Sizes[t] = p.n(4)
		if t == 4 {
			s.Sizes[t] = p.n(3)
			if p.chance(1, 60) {
				s.Sizes[t] = p.between(101, 103)
				s.Rows, s.Cols = 2, p.between(1, 2)
			}
		} else if p.chance(1, 40) {
			s.Sizes[t] = p.between(101, 104)
		}
		if p.chance(1, 2) {
			s.Tamper[t] = 1 + p.n(ways[t])
		}
		s.At[t] = boundary(p, s.Sizes[t])
	}
	if p.chance(1, 3) {
		s.Part = p.between(1, 4)
	}
	if s.Wire && p.chance(1, 4) {
		s.Damage = p.between(1, 3)
	}
	return s
}

func genLocalOp(p *prng, kind string, servers int) localOp {
	o := localOp{Kind: kind, Server: p.n(servers), StartUS: int64(p.pick(0, 0, 50, 5000)), Proofs: p.chance(1, 3)}
	if p.chance(1, 3) {
		o.Slow = int64(p.n(20000))
	}
	switch kind {
	case "aggr", "clear":
		n, w := p.between(1, 8), p.between(1, 3)
		if p.chance(1, 20) {
			w = p.between(101, 105)
			n = 2
		}
		if kind == "clear" {
			w = p.pick(1, 2, 5, 101)
			o.Enc = p.n(w + 1)
			o.NoGr = p.chance(1, 6)
		}
		gr, wh := p.between(1, 4), p.chance(1, 2)
		below := 0
		if kind == "clear" && p.chance(1, 4) {
			below = p.n(100)
		}
		for i := 0; i < n; i++ {
			row := []int64{int64(p.n(gr)), -1}
			if wh {
				row[1] = int64(p.n(2))
			}
			for j := 0; j < w; j++ {
				row = append(row, int64(p.n(100)-below))
			}
			o.Rows = append(o.Rows, row)
		}
		if kind == "clear" && !o.NoGr && p.chance(1, 2) {
			ng, nw := p.n(3), p.n(4)
			o.GClear, o.WClear = p.n(ng+2), p.n(nw+1)
			for i := 0; i < n; i++ {
				m := [2][]int64{{}, {}}
				for j := 0; j < ng; j++ {
					m[0] = append(m[0], int64(p.pick(0, 1, 1, 12)))
				}
				for j := 0; j < nw; j++ {
					m[1] = append(m[1], int64(p.pick(0, 1, 1, 1, 1, 1, 2, 10)))
				}
				o.More = append(o.More, m)
				o.Rows[i][1] = -1
			}
		}
	case "addrm":
		n := p.between(1, 6)
		if p.chance(1, 15) {
			n = p.between(101, 105)
			o.Proofs = false
		}
		for i := 0; i < n; i++ {
			o.Vals = append(o.Vals, int64(p.n(1000)))
		}
		for i := p.between(1, 4); i > 0; i-- {
			o.Steps = append(o.Steps, p.chance(3, 5))
		}
	case "proofs":
		o.Proof = genProofSpec(p)
	}
	return o
}

func genLocal(p *prng, kinds []string, max int) localParams {
	lp := localParams{Servers: p.between(1, 3)}
	same := p.n(lp.Servers)
	one := p.chance(1, 2) // all on one server
	n := p.between(1, max)
	for i := 0; i < n; i++ {
		o := genLocalOp(p, kinds[p.n(len(kinds))], lp.Servers)
		if one {
			o.Server = same
		}
		lp.Ops = append(lp.Ops, o)
	}
	return lp
}

// ---- decryption

type decParams struct {
	Tasks [][]decOp
}

type decOp struct {
	Vals   []int64
	Neg    bool // the call that also finds negative values
	One    bool
	AtUS   int64
	Zero   bool
	Create int64 // make the table up to here first
}

func genDec(p *prng, plan *Plan, tier string) interface{} {
	dp := decParams{}
	lim := p.pick(5, 60, 400, 1500)
	whole := p.chance(1, 50) // the whole range
	if whole {
		lim = int(libunlynx.MaxHomomorphicInt) - 1
	}
	for t := p.between(1, 5); t > 0; t-- {
		var ops []decOp
		var negs []int64
		for k := p.between(1, 5); k > 0; k-- {
			o := decOp{Neg: p.chance(1, 2), One: p.chance(1, 3), AtUS: int64(p.pick(0, 0, 100, 10000)), Zero: p.chance(1, 8)}
			if p.chance(1, 10) {
				o.Create = int64(p.n(lim))
			}
			for j := p.between(1, 6); j > 0; j-- {
				v := int64(p.n(lim + 1))
				if whole && p.chance(1, 3) {
					v = int64(lim - p.n(2))
				}
				if o.Neg && !whole && p.chance(1, 2) {
					v = -v
					negs = append(negs, v)
				}
				if !o.Neg && len(negs) > 0 && p.chance(1, 3) {
					v = negs[p.n(len(negs))] // not asked for, though known from before
				}
				o.Vals = append(o.Vals, v)
			}
			ops = append(ops, o)
		}
		dp.Tasks = append(dp.Tasks, ops)
	}
	return dp
}

func runDec(r *run) {
	var p decParams
	r.params(&p)
	priv, pub := libunlynx.GenKey()
	var wg sync.WaitGroup
	for t := range p.Tasks {
		wg.Add(1)
		go func(t int) {
			defer wg.Done()
			for k, o := range p.Tasks[t] {
				time.Sleep(time.Duration(o.AtUS) * time.Microsecond)
				if o.Create > 0 {
					libunlynx.CreateDecryptionTable(o.Create, pub, priv)
				}
				cv := *libunlynx.EncryptIntVector(pub, o.Vals)
				var got []int64
				switch {
				case o.Zero:
					got = libunlynx.DecryptCheckZeroVector(priv, &cv)
					for j, v := range o.Vals {
						if (v == 0) != (got[j] == 0) {
							r.violate("wrong-decryption", "client %d call %d: zero test of %d gives %d", t, k, v, got[j])
						}
					}
					continue
				case o.One && o.Neg:
					for _, c := range cv {
						got = append(got, libunlynx.DecryptIntWithNeg(priv, c))
					}
				case o.One:
					for _, c := range cv {
						got = append(got, libunlynx.DecryptInt(priv, c))
					}
				case o.Neg:
					got = libunlynx.DecryptIntVectorWithNeg(priv, &cv)
				default:
					got = libunlynx.DecryptIntVector(priv, &cv)
				}
				want := append([]int64{}, o.Vals...)
				for j, v := range want {
					if v < 0 && !o.Neg {
						want[j] = 0
					}
				}
				if fmt.Sprint(got) != fmt.Sprint(want) {
					r.violate("wrong-decryption", "client %d call %d (negatives %v): %v decrypts to %v, expected %v", t, k, o.Neg, o.Vals, got, want)
				}
				r.note("checked", int64(len(got)))
			}
		}(t)
	}
	wg.Wait()
}

// ---- proofs of a server that joins or leaves

type addRmProofParams struct {
	Lists []addRmProof
}

type addRmProof struct {
	N       int
	Add     bool
	Tamper  int
	At      int
	Percent float64
	Wire    bool
}

func genAddRmProof(p *prng, plan *Plan, tier string) interface{} {
	ap := addRmProofParams{}
	for k := p.between(1, 4); k > 0; k-- {
		a := addRmProof{N: p.between(1, 6), Add: p.chance(1, 2), Tamper: p.n(10), At: p.n(1000), Percent: 1, Wire: p.chance(1, 2)}
		if p.chance(1, 20) {
			a.N = p.between(101, 104)
			a.At = boundary(p, a.N)
		}
		if p.chance(1, 3) {
			a.Percent = []float64{0, 0.3, 0.5, 0.9}[p.n(4)]
		}
		ap.Lists = append(ap.Lists, a)
	}
	return ap
}

func runAddRmProof(r *run) {
	var p addRmProofParams
	r.params(&p)
	g := libunlynx.SuiTe
	var wg sync.WaitGroup
	for i := range p.Lists {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			a := p.Lists[i]
			priv, pub := libunlynx.GenKey()
			key := g.Scalar().Pick(g.RandomStream())
			kp := g.Point().Mul(key, nil)
			_ = priv
			bef := make(libunlynx.CipherVector, a.N)
			aft := make(libunlynx.CipherVector, a.N)
			for j := range bef {
				bef[j] = *libunlynx.EncryptInt(pub, int64(j))
				d := g.Point().Mul(key, bef[j].K)
				if !a.Add {
					d = g.Point().Neg(d)
				}
				aft[j] = libunlynx.CipherText{K: bef[j].K, C: g.Point().Add(bef[j].C, d)}
			}
			prf, err := libunlynxaddrm.AddRmListProofCreation(bef, aft, kp, key, a.Add)
			must(err)
			for j := range prf.List {
				o := &prf.List[j]
				r.aboutOwn("add/remove", j, o.CtBef.K, bef[j].K, o.CtBef.C, bef[j].C, o.CtAft.K, aft[j].K, o.CtAft.C, aft[j].C)
			}
			at := a.At % a.N
			x := &prf.List[at]
			switch a.Tamper {
			case 6:
				x.CtAft.K = libunlynx.EncryptInt(pub, 3).K
			case 9: // the proof is made for what it shows
				y, err := libunlynxaddrm.AddRmProofCreation(bef[at], libunlynx.CipherText{K: libunlynx.EncryptInt(pub, 3).K, C: aft[at].C}, kp, key, a.Add)
				must(err)
				*x = y
			case 7:
				x.RB = libunlynx.EncryptInt(pub, 3).K
			case 8: // the result is chosen after the challenge
				name := nameOf(func(m []byte) {
					y := *x
					y.Proof, y.CtAft.C = m, libunlynx.EncryptInt(pub, 3).C
					libunlynxaddrm.AddRmProofVerification(y, prf.Krm, prf.ToAdd)
				})
				var diff kyber.Point
				x.Proof, diff = forge(name, []kyber.Scalar{key}, 1, []relation{{0, nil}, {0, x.CtBef.K}})
				if !a.Add {
					diff = g.Point().Neg(diff)
				}
				x.CtAft.C = g.Point().Add(x.CtBef.C, diff)
			case 1:
				prf.List[at].CtAft.C = g.Point().Add(prf.List[at].CtAft.C, g.Point().Base())
			case 2:
				prf.List[at].Proof = flip(prf.List[at].Proof, a.At)
			case 3:
				prf.List[at].CtBef = *libunlynx.EncryptInt(pub, 3)
			case 4:
				prf.Krm = g.Point().Mul(g.Scalar().Pick(g.RandomStream()), nil)
				at = 0
			case 5:
				prf.ToAdd = !prf.ToAdd
				at = 0
			}
			if a.Wire {
				back := libunlynxaddrm.PublishedAddRmListProof{}
				wire(&prf, &back)
				prf = back
			}
			got := libunlynxaddrm.AddRmListProofVerification(prf, a.Percent)
			checked := int(a.Percent*float64(a.N) + 0.999999)
			want := a.Tamper == 0 || at >= checked
			if got && !want {
				r.violate("forged-proof", "list %d: a forged add/remove proof (way %d) was accepted", i, a.Tamper)
			}
			if !got && want {
				if a.Tamper == 0 {
					r.violate("honest-proof", "list %d: honest add/remove proofs were rejected", i)
				}
			}
			r.note("checked", 1)
		}(i)
	}
	wg.Wait()
}

func init() {
	wrapProtocol("LocalAggregation", protocolsunlynxutils.NewLocalAggregationProtocol)
	wrapProtocol("LocalClearAggregation", protocolsunlynxutils.NewLocalClearAggregationProtocol)
	wrapProtocol("AddRmServer", protocolsunlynxutils.NewAddRmProtocol)
	wrapProtocol("ProofsVerification", protocolsunlynxutils.NewProofsVerificationProtocol)
	gen := func(max int, kinds ...string) func(p *prng, plan *Plan, tier string) interface{} {
		return func(p *prng, plan *Plan, tier string) interface{} { return genLocal(p, kinds, max) }
	}
	scenarios["local"] = &scenario{gen: gen(6, "aggr", "clear", "addrm", "proofs"), run: runLocal}
	scenarios["addrm"] = &scenario{gen: gen(4, "addrm"), run: runLocal}
	scenarios["proofs"] = &scenario{gen: gen(3, "proofs"), run: runLocal}
	scenarios["addrmproofs"] = &scenario{gen: genAddRmProof, run: runAddRmProof}
	scenarios["decrypt"] = &scenario{gen: genDec, run: runDec}
}

var _ = sort.Strings
