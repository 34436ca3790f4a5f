package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/big"
	"reflect"
	"sort"
	"strings"
	"sync"
	"time"
	"unsafe"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/store"
	"github.com/ldsec/unlynx/services"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
	"go.dedis.ch/protobuf"
)

// The confidentiality scenario: two surveys over the same data on the same
// servers, and an observer who sees every byte that any server sends or
// receives and who corrupts all servers but one.

type wireMsg struct {
	from, to int
	data     []byte
	kind     string // type of the protocol message
	fields   [][]byte
	round    string
}

type confParams struct {
	surveyParams
	Again []int // for the second survey: the same data in another order
}

func init() {
	scenarios["confidential"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			n := p.between(2, 4)
			s := genSurvey(p, n, "small")
			s.Proofs = false
			s.Members = p.perm(n)
			s.Root, s.Ask = p.n(n), 0
			s.Ask = s.Root
			if p.chance(2, 3) {
				s.NGroup = 1
			}
			wide := p.chance(1, 4)
			var wv []int64
			for i := 0; i < 3; i++ { // conditions on values that cannot be met by chance
				wv = append(wv, int64(p.next()>>3)|1<<59)
			}
			if s.NWhere == 0 {
				s.Pred = nil
			}
			enc := !p.chance(1, 5)
			s.DPs = nil
			for d := p.between(1, n+1); d > 0; d-- {
				dp := dpSpec{Server: p.n(n), AtUS: int64(p.n(2)) * int64(p.n(50000))}
				for i := 0; i < s.NWhere; i++ {
					dp.EncW = append(dp.EncW, enc)
				}
				for i := 0; i < s.NGroup; i++ {
					dp.EncG = append(dp.EncG, enc)
				}
				for i := 0; i < s.NSum; i++ {
					dp.EncS = append(dp.EncS, true)
				}
				k := p.between(1, 3)
				if wide {
					k = 12
				}
				for ; k > 0; k-- {
					r := respSpec{Where: []int64{}, Group: []int64{}, Sum: []int64{}}
					for i := 0; i < s.NWhere; i++ {
						r.Where = append(r.Where, wv[p.n(3)])
					}
					for i := 0; i < s.NGroup; i++ {
						r.Group = append(r.Group, int64(1+p.n(3)))
					}
					for i := 0; i < s.NSum; i++ {
						r.Sum = append(r.Sum, int64(1+p.n(200)))
					}
					dp.Resps = append(dp.Resps, r)
				}
				s.DPs = append(s.DPs, dp)
			}
			for i := range s.WhereVal {
				s.WhereVal[i] = wv[p.n(3)]
			}
			if len(s.WhereVal) < s.NWhere {
				for len(s.WhereVal) < s.NWhere {
					s.WhereVal = append(s.WhereVal, wv[p.n(3)])
				}
			}
			again := s
			again.StartUS = int64(p.n(2)) * int64(p.n(300000))
			return confParams{surveyParams: surveyParams{Servers: n, Surveys: []surveySpec{s, again}}}
		},
		run: runConf,
	}
}

// clientPrivate is the scalar that a client keeps, or nil.
func clientPrivate(c *servicesunlynx.API) kyber.Scalar {
	st := reflect.ValueOf(c).Elem()
	scalar := reflect.TypeOf((*kyber.Scalar)(nil)).Elem()
	for i := 0; i < st.NumField(); i++ {
		if f := st.Field(i); f.Type() == scalar && !f.IsNil() {
			return reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Interface().(kyber.Scalar)
		}
	}
	return nil
}

func scalarBytes(k kyber.Scalar) []byte {
	b, err := k.MarshalBinary()
	must(err)
	return b
}

// fieldBytes are the byte fields of a message.
func fieldBytes(v reflect.Value, out *[][]byte) {
	switch v.Kind() {
	case reflect.Ptr, reflect.Interface:
		if !v.IsNil() {
			fieldBytes(v.Elem(), out)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			fieldBytes(v.Field(i), out)
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			*out = append(*out, v.Bytes())
			return
		}
		for i := 0; i < v.Len(); i++ {
			fieldBytes(v.Index(i), out)
		}
	}
}

// readWire looks into a message between servers.
func readWire(from, to int, data []byte, msg interface{}) wireMsg {
	m := wireMsg{from: from, to: to, data: data}
	if pm, ok := msg.(*onet.ProtocolMsg); ok {
		if _, inner, err := network.Unmarshal(pm.MsgSlice, libunlynx.SuiTe); err == nil {
			m.kind = strings.TrimPrefix(fmt.Sprintf("%T", inner), "*protocolsunlynx.")
			fieldBytes(reflect.ValueOf(inner), &m.fields)
		}
		if pm.From != nil {
			m.round = pm.From.RoundID.String()
		}
	}
	return m
}

type pairT struct {
	ct  libunlynx.CipherText
	key string
}

// ciphertexts reads b as a sequence of ciphertexts.
func ciphertexts(b []byte) []pairT {
	var out []pairT
	for len(b) >= 64 {
		ct := libunlynx.CipherText{}
		if ct.FromBytes(b[:64]) != nil {
			return out
		}
		out = append(out, pairT{ct, string(b[:64])})
		b = b[64:]
	}
	return out
}

func runConf(r *run) {
	var p confParams
	r.params(&p)
	r.cluster(p.Servers)
	g := libunlynx.SuiTe
	var mu sync.Mutex
	var wire []wireMsg
	type reqT struct {
		path      string
		req, resp []byte
	}
	var reqs []reqT
	r.net.tap = func(from, to int, data []byte, msg interface{}) {
		m := readWire(from, to, data, msg)
		mu.Lock()
		wire = append(wire, m)
		mu.Unlock()
	}
	r.net.clientTap = func(path string, req, resp []byte) {
		mu.Lock()
		reqs = append(reqs, reqT{path, append([]byte{}, req...), append([]byte{}, resp...)})
		mu.Unlock()
	}
	var wg sync.WaitGroup
	srs := make([]*surveyRun, len(p.Surveys))
	answers := make([]map[string][]int64, len(p.Surveys))
	for i := range p.Surveys {
		srs[i] = r.survey(&p.Surveys[i], fmt.Sprint(i))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sr, s := srs[i], &p.Surveys[i]
			time.Sleep(time.Duration(s.StartUS) * time.Microsecond)
			if sr.create() != nil {
				return
			}
			var w2 sync.WaitGroup
			for j := range s.DPs {
				w2.Add(1)
				go func(j int) {
					defer w2.Done()
					time.Sleep(time.Duration(s.DPs[j].AtUS) * time.Microsecond)
					sr.upload(j)
				}(j)
			}
			answers[i], _ = sr.results()
			w2.Wait()
		}(i)
	}
	wg.Wait()
	mu.Lock()
	defer mu.Unlock()

	// the secrets
	secrets := map[string]string{}
	addSecret := func(k kyber.Scalar, name string) {
		b := string(scalarBytes(k))
		if o, dup := secrets[b]; dup {
			r.violate("leak-key-reuse", "%s is the same as %s", name, o)
		}
		secrets[b] = name
	}
	for i, nd := range r.net.nodes {
		addSecret(nd.priv, fmt.Sprintf("the private key of server %d", i))
	}
	for i, sr := range srs {
		if sr.client == nil {
			continue
		}
		if k := clientPrivate(sr.client); k != nil {
			addSecret(k, fmt.Sprintf("the private key of querier %d", i))
		}
	}
	tags := map[libunlynx.GroupingKey]int{}
	for i, sr := range srs {
		mine := map[libunlynx.GroupingKey]bool{}
		for j, nd := range r.net.nodes {
			svc := nd.server.Service(servicesunlynx.ServiceName).(*servicesunlynx.Service)
			v, err := svc.Survey.Get(string(sr.id))
			if err != nil || v == nil {
				continue
			}
			sv := v.(servicesunlynx.Survey)
			addSecret(sv.SurveySecretKey, fmt.Sprintf("the secret of server %d for survey %d", j, i))
			for k := range storeTags(sv.Store) {
				mine[k] = true
			}
		}
		for k := range mine {
			if k == "" {
				continue
			}
			if o, dup := tags[k]; dup {
				r.violate("leak-tag", "surveys %d and %d have a tag in common: their groups can be linked", o, i)
			}
			tags[k] = i
		}
	}
	// nothing that is sent contains a secret, or an encrypted condition in the clear
	var needles [][]byte
	var names []string
	for k, n := range secrets {
		needles = append(needles, []byte(k))
		names = append(names, n)
		rev := []byte(k)
		for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
			rev[i], rev[j] = rev[j], rev[i]
		}
		needles = append(needles, rev)
		names = append(names, n)
	}
	s0 := &p.Surveys[0]
	plain := map[int64]bool{}
	for _, v := range s0.WhereVal {
		plain[v] = true
	}
	for _, d := range s0.DPs {
		for _, rs := range d.Resps {
			for i, v := range rs.Where {
				if d.EncW[i] {
					plain[v] = true
				}
			}
		}
	}
	clearToo := map[int64]bool{}
	for _, d := range s0.DPs {
		for _, rs := range d.Resps {
			for i, v := range rs.Where {
				if !d.EncW[i] {
					clearToo[v] = true
				}
			}
		}
	}
	clearGroups := false
	for _, d := range s0.DPs {
		for _, e := range d.EncG {
			clearGroups = clearGroups || !e
		}
	}
	var pv []int64
	for v := range plain {
		pv = append(pv, v)
	}
	sort.Slice(pv, func(i, j int) bool { return pv[i] < pv[j] })
	for _, v := range pv {
		for _, e := range encodings(v) {
			needles = append(needles, e)
			names = append(names, "an encrypted value of a condition")
		}
	}
	search := func(b []byte, where string, skipPlain bool) {
		for i, n := range needles {
			if skipPlain && names[i] == "an encrypted value of a condition" {
				continue
			}
			if bytes.Contains(b, n) {
				r.violate("leak-secret", "%s contains %s", where, names[i])
				return
			}
		}
	}
	for _, m := range wire {
		search(m.data, fmt.Sprintf("a message %s from server %d to server %d", m.kind, m.from, m.to), false)
	}
	for _, q := range reqs {
		// a data provider may upload in the clear what another one, or the querier, encrypts
		search(q.req, "a request "+q.path, len(clearToo) > 0 && q.path == "SurveyResponseQuery")
		search(q.resp, "the answer to "+q.path, false)
	}

	// all servers but one, and what they can decrypt together
	n := p.Servers
	var coalitions []kyber.Scalar
	for m := 0; m < 1<<uint(n)-1; m++ {
		k := g.Scalar().Zero()
		for i := 0; i < n; i++ {
			if m>>uint(i)&1 == 1 {
				k = g.Scalar().Add(k, r.net.nodes[i].priv)
			}
		}
		coalitions = append(coalitions, k)
	}
	full := g.Scalar().Zero()
	for _, nd := range r.net.nodes {
		full = g.Scalar().Add(full, nd.priv)
	}
	id := g.Point().Null()
	whereP := map[string]bool{}
	for _, v := range pv {
		whereP[ptKey(libunlynx.IntToPoint(v))] = true
	}
	readable := func(k kyber.Scalar, ct libunlynx.CipherText) (string, bool) {
		pt := refPoint(k, ct)
		if whereP[ptKey(pt)] {
			return "a condition", true
		}
		if v, ok := refInt(pt, 600); ok && v > 0 {
			return fmt.Sprint(v), true
		}
		return "", false
	}
	seen, switched := map[string]int{}, map[string]int{}
	var checked int64
	for wi, m := range wire {
		if m.kind == "" || strings.Contains(m.kind, "Length") || m.kind == "DownMessageBytes" {
			continue
		}
		for _, f := range m.fields {
			cts := ciphertexts(f)
			for ci, c := range cts {
				if ci >= 40 {
					break
				}
				checked++
				if c.ct.K.Equal(id) && !c.ct.C.Equal(id) {
					r.violate("leak-plain", "a message %s from server %d to server %d carries a value that is not encrypted", m.kind, m.from, m.to)
				}
				if ci < 12 {
					for _, k := range coalitions {
						if v, ok := readable(k, c.ct); ok {
							r.violate("leak-plain", "a message %s from server %d to server %d carries a ciphertext that some of the servers decrypt alone (%s)", m.kind, m.from, m.to, v)
						}
					}
				}
			}
			if m.kind == "UpBytesMessage" {
				for _, c := range cts {
					if o, dup := switched[c.key[:32]]; dup {
						what := "several values"
						if o != wi {
							what = "several key switchings"
						}
						r.violate("leak-randomness", "the contribution of server %d to the key switching uses the same randomness for %s", m.from, what)
						break
					}
					switched[c.key[:32]] = wi
				}
			}
			if strings.HasPrefix(m.kind, "ShufflingBytesMessage") {
				fresh := map[string]bool{}
				for _, c := range cts {
					for _, pt := range []string{c.key[:32], c.key[32:]} {
						if pt == ptKey(id) {
							continue
						}
						if len(clearToo) > 0 || clearGroups {
							// rows in the clear get the blinding of the same two servers
							// in either order
							pt = m.round + pt
						}
						if o, dup := seen[pt]; dup && o != wi {
							r.violate("leak-link", "server %d forwards a ciphertext (half) that server %d has sent before: its shuffle does not hide the rows", m.from, wire[o].from)
						}
						fresh[pt] = true
					}
				}
				for pt := range fresh {
					seen[pt] = wi
				}
			}
		}
	}
	// encryptions never share their randomness
	eph := map[string]string{}
	for qi, q := range reqs {
		var cts []libunlynx.CipherText
		switch q.path {
		case "SurveyResponseQuery":
			var u servicesunlynx.SurveyResponseQuery
			if protobuf.Decode(q.req, &u) != nil {
				continue
			}
			for _, resp := range u.Responses {
				for _, mp := range []map[string][]byte{resp.WhereEnc, resp.GroupByEnc, resp.AggregatingAttributesEnc} {
					for _, b := range mp {
						for _, c := range ciphertexts(b) {
							cts = append(cts, c.ct)
						}
					}
				}
			}
		case "SurveyResultsQuery":
			continue
		}
		for _, c := range cts {
			k := ptKey(c.K)
			where := fmt.Sprintf("request %d", qi)
			if o, dup := eph[k]; dup {
				r.violate("leak-randomness", "two encrypted values (%s and %s) have the same randomness", o, where)
				break
			}
			eph[k] = where
			for _, kk := range append([]kyber.Scalar{}, coalitions...) {
				if v, ok := readable(kk, c); ok {
					r.violate("leak-plain", "an uploaded value is readable for some of the servers alone (%s)", v)
				}
			}
			checked++
		}
	}
	// the answer is for the querier alone
	for _, q := range reqs {
		if q.path != "SurveyResultsQuery" || len(q.resp) == 0 {
			continue
		}
		var res servicesunlynx.ServiceResult
		if protobuf.DecodeWithConstructors(q.resp, &res, network.DefaultConstructors(g)) != nil {
			continue
		}
		for _, f := range res.Results {
			same := map[string]bool{}
			for _, c := range append(append(libunlynx.CipherVector{}, f.GroupByEnc...), f.AggregatingAttributes...) {
				if x := ptKey(c.K); same[x] {
					r.violate("leak-randomness", "two values of the answer to the querier have the same randomness")
				} else {
					same[x] = true
				}
				for _, k := range append([]kyber.Scalar{full}, coalitions...) {
					if v, ok := readable(k, c); ok {
						r.violate("leak-answer", "the answer to the querier is readable without the querier's key (%s)", v)
					}
				}
				checked++
			}
		}
	}
	// the secret of a survey is no function of what everyone knows of it: a server
	// that is told to create the survey again draws another one
	r.net.tap, r.net.clientTap = nil, nil
	for i, sr := range srs {
		for j, nd := range r.net.nodes {
			svc := nd.server.Service(servicesunlynx.ServiceName).(*servicesunlynx.Service)
			v, err := svc.Survey.Get(string(sr.id))
			if err != nil || v == nil {
				continue
			}
			q := v.(servicesunlynx.Survey).Query
			q.IntraMessage, q.Source = true, nd.si
			if _, err := svc.HandleSurveyCreationQuery(&q); err != nil {
				continue
			}
			if v, err = svc.Survey.Get(string(sr.id)); err != nil || v == nil {
				continue
			}
			addSecret(v.(servicesunlynx.Survey).SurveySecretKey, fmt.Sprintf("the second secret of server %d for survey %d", j, i))
			r.note("secrets-drawn-again", 1)
		}
	}
	r.note("ciphertexts-examined", checked)
	r.note("messages-examined", int64(len(wire)+len(reqs)))
	ok := true
	for i := range answers {
		if answers[i] == nil || diffAnswer(answers[i], p.Surveys[i].expect()) != "" {
			ok = false
		}
	}
	if ok {
		r.note("checked", 1)
	} else {
		r.note("unusable", 1)
	}
}

func storeTags(st *libunlynxstore.Store) map[libunlynx.GroupingKey]bool {
	out := map[libunlynx.GroupingKey]bool{}
	for k := range st.LocAggregatedProcessResponse {
		out[k] = true
	}
	return out
}

// encodings of a value that a careless message might contain.
func encodings(v int64) [][]byte {
	b := make([]byte, 8)
	binary.LittleEndian.PutUint64(b, uint64(v))
	b2 := make([]byte, 8)
	binary.BigEndian.PutUint64(b2, uint64(v))
	v1 := make([]byte, binary.MaxVarintLen64)
	v1 = v1[:binary.PutUvarint(v1, uint64(v))]
	v2 := make([]byte, binary.MaxVarintLen64)
	v2 = v2[:binary.PutVarint(v2, v)]
	dec := []byte(big.NewInt(v).String())
	return [][]byte{b, b2, v1, v2, dec}
}
