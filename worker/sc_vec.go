package main

import (
	"encoding/base64"
	"encoding/binary"
	"fmt"
	"reflect"
	"strings"
	"sync"
	"time"

	dataunlynx "github.com/ldsec/unlynx/data"
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/deterministic_tag"
	"github.com/ldsec/unlynx/lib/key_switch"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/lib/tools"
	"github.com/ldsec/unlynx/protocols"
	"go.dedis.ch/kyber/v3"
)

// Operations on whole vectors, which run in chunks on several goroutines, and
// the encodings of what is sent, stored and used as a key. Several callers use
// them at the same time, on vectors that they share.

type vecParams struct {
	Shared int // length of the vectors that all callers read
	Ops    []vecOp
}

type vecOp struct {
	Kind    string
	StartUS int64
	Len     int
	More    []int // lengths of further parts
	Seed    uint64
	Shared  bool // works on the shared vectors
}

var vecKinds = []string{"encrypt", "add", "sub", "acum", "mul", "equal", "bytes", "arrays", "rows", "dprows", "groupkeys", "ints",
	"keys", "keyswitch", "tag", "precomputed", "map", "convert", "permutation"}

// vecLen prefers the borders of the chunks.
func vecLen(p *prng) int {
	switch p.n(10) {
	case 0:
		return 0
	case 1, 2, 3, 4:
		return p.between(1, 12)
	case 5, 6:
		return p.between(98, 102)
	case 7:
		return p.between(198, 203)
	default:
		return p.between(13, 260)
	}
}

func genVec(p *prng, plan *Plan, tier string) interface{} {
	vp := vecParams{Shared: vecLen(p)}
	for k := p.between(1, 5); k > 0; k-- {
		o := vecOp{Kind: vecKinds[p.n(len(vecKinds))], Len: vecLen(p), Seed: p.next() >> 12, Shared: p.chance(1, 3),
			StartUS: int64(p.pick(0, 0, 0, 50, 2000))}
		for j := p.between(0, 4); j > 0; j-- {
			o.More = append(o.More, p.pick(0, 1, 1, 2, 3, p.n(8)))
		}
		vp.Ops = append(vp.Ops, o)
	}
	return vp
}

// vecRun is one operation.
type vecRun struct {
	r    *run
	i    int
	o    *vecOp
	p    *prng
	priv kyber.Scalar
	pub  kyber.Point

	sharedVals []int64
	shared     libunlynx.CipherVector
}

func (v *vecRun) bad(format string, args ...interface{}) {
	v.r.violate("wrong-operation", "operation %d (%s): %s", v.i, v.o.Kind, fmt.Sprintf(format, args...))
}

func (v *vecRun) vals(n int) []int64 {
	out := make([]int64, n)
	for i := range out {
		switch v.p.n(8) {
		case 0:
			out[i] = 0
		case 1:
			out[i] = -int64(v.p.n(500))
		case 2:
			out[i] = int64(v.p.n(1 << 30))
		default:
			out[i] = int64(v.p.n(500))
		}
	}
	return out
}

// refEnc encrypts without the code under test.
func refEnc(pub kyber.Point, x int64) libunlynx.CipherText {
	g := libunlynx.SuiTe
	k := g.Scalar().Pick(g.RandomStream())
	return libunlynx.CipherText{K: g.Point().Mul(k, nil), C: g.Point().Add(g.Point().Mul(k, pub), refInG(x))}
}

func refInG(x int64) kyber.Point {
	return libunlynx.SuiTe.Point().Mul(libunlynx.SuiTe.Scalar().SetInt64(x), nil)
}

func (v *vecRun) enc(vals []int64) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(vals))
	for i, x := range vals {
		out[i] = refEnc(v.pub, x)
	}
	return out
}

// input is the vector of the operation.
func (v *vecRun) input() ([]int64, libunlynx.CipherVector) {
	if v.o.Shared {
		return v.sharedVals, v.shared
	}
	vals := v.vals(v.o.Len)
	return vals, v.enc(vals)
}

// holds tells whether the vector encrypts the values.
func (v *vecRun) holds(cv libunlynx.CipherVector, vals []int64, what string) bool {
	if len(cv) != len(vals) {
		v.bad("%s has %d elements, expected %d", what, len(cv), len(vals))
		return false
	}
	for i, c := range cv {
		if c.K == nil || c.C == nil || !refPoint(v.priv, c).Equal(refInG(vals[i])) {
			v.bad("element %d of %d of %s does not hold %d", i, len(cv), what, vals[i])
			return false
		}
	}
	v.r.note("elements", int64(len(cv)))
	return true
}

func sameCV(a, b libunlynx.CipherVector) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].K == nil || a[i].C == nil || !a[i].K.Equal(b[i].K) || !a[i].C.Equal(b[i].C) {
			return false
		}
	}
	return true
}

func copyCV(a libunlynx.CipherVector) libunlynx.CipherVector {
	out := make(libunlynx.CipherVector, len(a))
	for i := range a {
		out[i] = libunlynx.CipherText{K: a[i].K.Clone(), C: a[i].C.Clone()}
	}
	return out
}

func runVec(r *run) {
	var p vecParams
	r.params(&p)
	g := libunlynx.SuiTe
	priv := g.Scalar().Pick(g.RandomStream())
	pub := g.Point().Mul(priv, nil)
	base := vecRun{r: r, priv: priv, pub: pub, p: r.rng, o: &vecOp{}}
	base.sharedVals = base.vals(p.Shared)
	base.shared = base.enc(base.sharedVals)
	before := copyCV(base.shared)
	var wg sync.WaitGroup
	for i := range p.Ops {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			v := base
			v.i, v.o, v.p = i, &p.Ops[i], &prng{s: p.Ops[i].Seed}
			time.Sleep(time.Duration(v.o.StartUS) * time.Microsecond)
			defer func() {
				if e := recover(); e != nil {
					v.bad("panic: %v", e)
				}
			}()
			v.do()
			r.note("checked", 1)
		}(i)
	}
	wg.Wait()
	if !sameCV(base.shared, before) {
		r.violate("wrong-operation", "the vector that the operations read was changed")
	}
}

func (v *vecRun) do() {
	g := libunlynx.SuiTe
	switch v.o.Kind {
	case "encrypt":
		vals := v.vals(v.o.Len)
		switch v.p.n(6) {
		case 0:
			v.fresh(*libunlynx.EncryptIntVector(v.pub, vals), vals)
		case 1:
			cv, rs := libunlynx.EncryptIntVectorGetRs(v.pub, vals)
			if v.fresh(*cv, vals); len(rs) != len(vals) {
				v.bad("%d values have %d blinding factors", len(vals), len(rs))
				return
			}
			for i, x := range rs {
				if x == nil || !g.Point().Mul(x, nil).Equal((*cv)[i].K) {
					v.bad("blinding factor %d of %d is not the one of the ciphertext", i, len(rs))
					return
				}
			}
		case 2:
			var ss []kyber.Scalar
			for _, x := range vals {
				ss = append(ss, g.Scalar().SetInt64(x))
			}
			v.fresh(*libunlynx.EncryptScalarVector(v.pub, ss), vals)
		case 3:
			v.fresh(*libunlynx.NullCipherVector(len(vals), v.pub), make([]int64, len(vals)))
		case 4:
			v.holds(libunlynx.IntArrayToCipherVector(vals), vals, "the encoded vector")
		default:
			var cv libunlynx.CipherVector
			for _, x := range vals {
				c, k := libunlynx.EncryptIntGetR(v.pub, x)
				if !g.Point().Mul(k, nil).Equal(c.K) {
					v.bad("the blinding factor is not the one of the ciphertext")
				}
				cv = append(cv, *c)
			}
			v.fresh(cv, vals)
		}
	case "add", "sub":
		av, a := v.input()
		bv := v.vals(len(av))
		b := v.enc(bv)
		a0, b0 := copyCV(a), copyCV(b)
		want := make([]int64, len(av))
		for i := range want {
			want[i] = av[i] + bv[i]
			if v.o.Kind == "sub" {
				want[i] = av[i] - bv[i]
			}
		}
		res := libunlynx.NewCipherVector(len(av))
		inPlace := v.p.chance(1, 3)
		if inPlace {
			res = &b // like an accumulator, x = a op x
		}
		if v.o.Kind == "add" {
			res.Add(a, b)
		} else {
			res.Sub(a, b)
		}
		v.holds(*res, want, "the result")
		if !sameCV(a, a0) || !inPlace && !sameCV(b, b0) {
			v.bad("an operand was changed")
		}
	case "acum":
		av, a := v.input()
		a0 := copyCV(a)
		var want int64
		for _, x := range av {
			want += x
		}
		v.holds(libunlynx.CipherVector{a.Acum()}, []int64{want}, "the sum")
		if !sameCV(a, a0) {
			v.bad("the operand was changed")
		}
	case "mul":
		av, a := v.input()
		a0 := copyCV(a)
		f := int64(v.p.n(40)) - 10
		want := make([]int64, len(av))
		res := make(libunlynx.CipherVector, len(av))
		for i := range a {
			want[i] = f * av[i]
			res[i].MulCipherTextbyScalar(a[i], g.Scalar().SetInt64(f))
		}
		v.holds(res, want, "the product")
		if !sameCV(a, a0) {
			v.bad("the operand was changed")
		}
	case "equal":
		_, a := v.input()
		b := copyCV(a)
		if !a.Equal(&b) {
			v.bad("a vector of %d elements differs from its copy", len(a))
		}
		var da, db libunlynx.DeterministCipherVector
		for i := range a {
			da = append(da, libunlynx.DeterministCipherText{Point: a[i].C})
			db = append(db, libunlynx.DeterministCipherText{Point: b[i].C})
		}
		if !da.Equal(&db) || da.Key() != db.Key() {
			v.bad("tags of %d elements differ from their copy", len(a))
		}
		if len(a) > 0 {
			at := v.p.n(len(a))
			which := v.p.n(2)
			if which == 0 {
				b[at].C = g.Point().Add(b[at].C, g.Point().Base())
				db[at].Point = b[at].C
			} else {
				b[at].K = g.Point().Neg(b[at].K)
			}
			if a.Equal(&b) || b.Equal(&a) {
				v.bad("vectors that differ in element %d are equal", at)
			}
			if which == 0 && (da.Equal(&db) || da.Key() == db.Key()) {
				v.bad("tags that differ in element %d are equal", at)
			}
			c := copyCV(a)[:len(a)-1]
			if a.Equal(&c) || c.Equal(&a) {
				v.bad("vectors of %d and %d elements are equal", len(a), len(c))
			}
			dc := append(libunlynx.DeterministCipherVector{}, da...)[:len(a)-1]
			if da.Equal(&dc) || dc.Equal(&da) {
				v.bad("tags of %d and %d elements are equal", len(a), len(c))
			}
		}
	case "bytes":
		_, a := v.input()
		b, n, err := a.ToBytes()
		if err != nil || n != len(a) || len(b) != len(a)*libunlynx.CipherTextByteSize() {
			v.bad("encoding of %d ciphertexts: %d bytes, length %d, %v", len(a), len(b), n, err)
			return
		}
		var back libunlynx.CipherVector
		if err := back.FromBytes(b, n); err != nil || !sameCV(back, a) {
			v.bad("a vector of %d ciphertexts is different once decoded (%v)", len(a), err)
		}
		at := v.p.n(1000)
		if n > 0 {
			var no libunlynx.CipherVector
			v.refused("a vector", no.FromBytes(noPoint(b, at), n))
		}
		var pts []kyber.Point
		for i, c := range a {
			pts = append(pts, c.K, c.C)
			if i > 6 {
				continue
			}
			cb, err := c.ToBytes()
			d := libunlynx.CipherText{}
			if err == nil {
				err = d.FromBytes(cb)
			}
			if err != nil || !sameCV(libunlynx.CipherVector{d}, a[i:i+1]) {
				v.bad("ciphertext %d is different once decoded (%v)", i, err)
			} else {
				no := libunlynx.CipherText{}
				v.refused("a ciphertext", no.FromBytes(noPoint(cb, at+i)))
				_, err = libunlynx.NewCipherTextFromBase64(base64.URLEncoding.EncodeToString(noPoint(cb, at+i)))
				v.refused("a ciphertext in base64", err)
				_, err = libunlynx.DeserializePoint(base64.URLEncoding.EncodeToString(noPoint(cb[:32], 0)))
				v.refused("a point in base64", err)
			}
			s, err := c.Serialize()
			var e *libunlynx.CipherText
			if err == nil {
				e, err = libunlynx.NewCipherTextFromBase64(s)
			}
			if err != nil || !sameCV(libunlynx.CipherVector{*e}, a[i:i+1]) {
				v.bad("ciphertext %d is different once deserialised (%v)", i, err)
			}
			ps, err := libunlynx.SerializePoint(c.K)
			var pt kyber.Point
			if err == nil {
				pt, err = libunlynx.DeserializePoint(ps)
			}
			if err != nil || !pt.Equal(c.K) {
				v.bad("point %d is different once deserialised (%v)", i, err)
			}
			sc := g.Scalar().Pick(g.RandomStream())
			ss, err := libunlynx.SerializeScalar(sc)
			var sb kyber.Scalar
			if err == nil {
				sb, err = libunlynx.DeserializeScalar(ss)
			}
			if err != nil || !sb.Equal(sc) {
				v.bad("scalar %d is different once deserialised (%v)", i, err)
			}
			if i == 0 {
				no := "?" + ss[1:]
				_, err = libunlynx.DeserializeScalar(no)
				v.refused("a scalar that is not base64", err)
				_, err = libunlynx.DeserializePoint(no)
				v.refused("a point that is not base64", err)
				_, err = libunlynx.NewCipherTextFromBase64(no)
				v.refused("a ciphertext that is not base64", err)
				_, err = libunlynx.DeserializeScalar(base64.URLEncoding.EncodeToString(make([]byte, 33)))
				v.refused("a scalar of 33 bytes", err)
			}
		}
		pb, err := libunlynx.AbstractPointsToBytes(pts)
		var pback []kyber.Point
		if err == nil {
			pback, err = libunlynx.FromBytesToAbstractPoints(pb)
		}
		if err != nil || len(pback) != len(pts) {
			v.bad("%d points became %d (%v)", len(pts), len(pback), err)
			return
		}
		if len(pts) > 0 {
			_, err = libunlynx.FromBytesToAbstractPoints(noPoint(pb, at))
			v.refused("a list of points", err)
		}
		for i := range pts {
			if !pts[i].Equal(pback[i]) {
				v.bad("point %d of %d is different once decoded", i, len(pts))
				return
			}
		}
	case "arrays":
		_, a := v.input()
		list := v.split(a)
		b, lens, err := libunlynx.ArrayCipherVectorToBytes(list)
		var back []libunlynx.CipherVector
		if err == nil {
			back, err = libunlynx.FromBytesToArrayCipherVector(b, lens)
		}
		if err != nil || len(back) != len(list) {
			v.bad("%d vectors became %d (%v)", len(list), len(back), err)
			return
		}
		if len(b) > 0 {
			_, err = libunlynx.FromBytesToArrayCipherVector(noPoint(b, v.p.n(1000)), lens)
			v.refused("a list of vectors", err)
		}
		for i := range list {
			if !sameCV(list[i], back[i]) {
				v.bad("vector %d of %d is different once decoded", i, len(list))
				return
			}
		}
	case "rows":
		v.rows()
	case "dprows":
		v.dpRows()
	case "groupkeys":
		v.groupKeys()
	case "ints":
		vals := v.vals(v.o.Len)
		if back := libunlynxtools.StringToInt64Array(libunlynxtools.Int64ArrayToString(vals)); !sameInts(back, vals) {
			v.bad("integers %v are %v once read back", vals, back)
		}
		start := v.p.n(12)
		m := libunlynxtools.ConvertDataToMap(vals, "s", start)
		if len(m) != len(vals) {
			v.bad("%d integers became %d entries", len(vals), len(m))
		}
		for i, x := range vals {
			if y, ok := m[fmt.Sprintf("s%d", start+i)]; !ok || x != y {
				v.bad("attribute s%d is %d, expected %d", start+i, y, x)
				return
			}
		}
		if back := libunlynxtools.ConvertMapToData(m, "s", start); !sameInts(back, vals) {
			v.bad("integers %v are %v once back from the map", vals, back)
		}
		var ints []int
		for _, x := range vals {
			if x < 0 {
				x = -x
			}
			ints = append(ints, int(x))
		}
		b := libunlynxtools.UnsafeCastIntsToBytes(ints)
		back := libunlynxtools.UnsafeCastBytesToInts(b)
		if len(back) != len(ints) || len(ints) > 0 && !reflect.DeepEqual(back, ints) {
			v.bad("lengths %v are %v once decoded", ints, back)
		}
		s := make([]int64, v.o.Len)
		dataunlynx.FillInt64Slice(s, 7)
		for i, x := range s {
			if x != 7 {
				v.bad("element %d was not filled", i)
				return
			}
		}
	case "keys":
		n := v.p.n(12)
		group, priv, pub := libunlynx.GenKeys(n)
		sum := g.Point().Null()
		if len(priv) != n || len(pub) != n {
			v.bad("%d keys asked for, %d and %d made", n, len(priv), len(pub))
			return
		}
		seen := map[string]bool{}
		for i := range priv {
			if !g.Point().Mul(priv[i], nil).Equal(pub[i]) {
				v.bad("key pair %d does not match", i)
			}
			seen[pub[i].String()] = true
			sum = g.Point().Add(sum, pub[i])
		}
		if !sum.Equal(group) || len(seen) != n {
			v.bad("the collective key is not the sum of %d different keys", n)
		}
		root := g.Scalar().Pick(g.RandomStream())
		parts := libunlynx.SplitScalar(root.Clone(), n)
		if len(parts) != n+1 {
			v.bad("%d splits give %d parts", n, len(parts))
		}
		total := g.Scalar().Zero()
		for _, x := range parts {
			total = g.Scalar().Add(total, x)
		}
		if !total.Equal(root) {
			v.bad("the parts do not sum to the scalar that was split")
		}
		rs := libunlynx.RandomScalarSlice(v.o.Len)
		diff := map[string]bool{}
		for _, x := range rs {
			diff[x.String()] = true
		}
		if len(rs) != v.o.Len || len(diff) != v.o.Len {
			v.bad("%d random scalars asked for, %d different of %d given", v.o.Len, len(diff), len(rs))
		}
	case "permutation":
		pi := libunlynx.RandomPermutation(v.o.Len)
		seen := make([]bool, v.o.Len)
		if len(pi) != v.o.Len {
			v.bad("a permutation of %d has %d places", v.o.Len, len(pi))
			return
		}
		for _, x := range pi {
			if x < 0 || x >= len(pi) || seen[x] {
				v.bad("%v is no permutation", pi)
				return
			}
			seen[x] = true
		}
	case "keyswitch":
		_, a := v.input()
		k := g.Scalar().Pick(g.RandomStream())
		t := g.Scalar().Pick(g.RandomStream())
		Q := g.Point().Mul(t, nil)
		var rbs []kyber.Point
		for _, c := range a {
			rbs = append(rbs, c.K)
		}
		a0 := copyCV(a)
		cv, ks2s, negs, vis := libunlynxkeyswitch.KeySwitchSequence(Q, rbs, k)
		if len(cv) != len(a) || len(ks2s) != len(a) || len(negs) != len(a) || len(vis) != len(a) {
			v.bad("%d elements gave %d, %d, %d and %d", len(a), len(cv), len(ks2s), len(negs), len(vis))
			return
		}
		seen := map[string]bool{}
		for i := range cv {
			// what the contribution hides from all but the target: minus the part of the key of this server
			if !refPoint(t, cv[i]).Equal(g.Point().Neg(g.Point().Mul(k, a0[i].K))) {
				v.bad("contribution %d of %d does not replace the key", i, len(cv))
				return
			}
			if !ks2s[i].Equal(cv[i].C) || !negs[i].Equal(g.Point().Neg(a0[i].K)) || !g.Point().Mul(vis[i], nil).Equal(cv[i].K) {
				v.bad("the witness %d of %d does not belong to its contribution", i, len(cv))
				return
			}
			if seen[cv[i].K.String()] {
				v.bad("contribution %d of %d uses the blinding of another one", i, len(cv))
				return
			}
			seen[cv[i].K.String()] = true
		}
		v.r.note("elements", int64(len(cv)))
	case "tag":
		_, a := v.input()
		a0 := copyCV(a)
		k := g.Scalar().Pick(g.RandomStream())
		s := g.Scalar().Pick(g.RandomStream())
		want := make(libunlynx.CipherVector, len(a))
		key := ""
		for i, c := range a {
			want[i].K = g.Point().Mul(s, c.K)
			want[i].C = g.Point().Mul(s, g.Point().Sub(c.C, g.Point().Mul(k, c.K)))
			key += want[i].C.String()
		}
		got := libunlynxdetertag.DeterministicTagSequence(a, k, s)
		if !sameCV(got, want) {
			v.bad("tagging %d elements gives something else", len(a))
		}
		proofs := v.p.chance(1, 3)
		tag, prf, err := libunlynxdetertag.CipherVectorToDeterministicTag(a, k, s, g.Point().Mul(k, nil), proofs)
		if err != nil || string(tag) != key {
			v.bad("the tag of %d elements is something else (%v)", len(a), err)
		}
		if err == nil && proofs && !libunlynxdetertag.DeterministicTagCrListProofVerification(*prf, 1) {
			v.bad("the proofs of %d tags are rejected", len(a))
		}
		if !sameCV(a, a0) {
			v.bad("the operand was changed")
		}
	case "precomputed":
		lines, size := v.p.between(0, 6), v.o.Len
		x := g.Scalar().Pick(g.RandomStream())
		h := g.Point().Mul(x, nil)
		pre := libunlynxshuffle.CreatePrecomputedRandomize(g.Point().Base(), h, g.RandomStream(), size, lines)
		if len(pre) != lines {
			v.bad("%d lines asked for, %d made", lines, len(pre))
			return
		}
		seen := map[string]bool{}
		for i, l := range pre {
			if len(l.S) != size || len(l.CipherV) != size {
				v.bad("line %d has %d and %d elements, expected %d", i, len(l.S), len(l.CipherV), size)
				return
			}
			for j := range l.S {
				if l.S[j] == nil || !l.CipherV[j].K.Equal(g.Point().Mul(l.S[j], nil)) || !l.CipherV[j].C.Equal(g.Point().Mul(l.S[j], h)) {
					v.bad("element %d of line %d is no encryption of zero", j, i)
					return
				}
				seen[l.S[j].String()] = true
			}
		}
		if len(seen) != lines*size {
			v.bad("%d blinding factors are only %d different ones", lines*size, len(seen))
		}
		enc, err := libunlynxshuffle.EncodeCipherVectorScalar(pre)
		var back []libunlynxshuffle.CipherVectorScalar
		if err == nil {
			back, err = libunlynxshuffle.DecodeCipherVectorScalar(enc)
		}
		if err != nil || len(back) != lines {
			v.bad("%d lines became %d (%v)", lines, len(back), err)
			return
		}
		for i := range pre {
			if !sameCV(pre[i].CipherV, back[i].CipherV) || len(back[i].S) != size {
				v.bad("line %d is different once decoded", i)
				return
			}
			for j := range pre[i].S {
				if !pre[i].S[j].Equal(back[i].S[j]) {
					v.bad("factor %d of line %d is different once decoded", j, i)
					return
				}
			}
		}
	case "map":
		v.grouping()
	case "convert":
		v.convert()
	}
}

// fresh tells whether a vector was encrypted properly.
func (v *vecRun) fresh(cv libunlynx.CipherVector, vals []int64) {
	if !v.holds(cv, vals, "the encrypted vector") {
		return
	}
	seen := map[string]bool{}
	for i, c := range cv {
		if s := c.K.String(); seen[s] || c.K.Equal(libunlynx.SuiTe.Point().Null()) {
			v.bad("element %d of %d has no randomness of its own", i, len(cv))
			return
		} else {
			seen[s] = true
		}
	}
}

func sameInts(a, b []int64) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// split cuts the vector in pieces.
func (v *vecRun) split(a libunlynx.CipherVector) []libunlynx.CipherVector {
	list := []libunlynx.CipherVector{}
	for _, n := range v.o.More {
		if n > len(a) {
			n = len(a)
		}
		list = append(list, a[:n:n])
		a = a[n:]
	}
	return append(list, a)
}

func (v *vecRun) part(k int) ([]int64, libunlynx.CipherVector) {
	n := 0
	if k < len(v.o.More) {
		n = v.o.More[k]
	}
	vals := v.vals(n)
	return vals, v.enc(vals)
}

func (v *vecRun) tagName(k int) libunlynx.GroupingKey {
	n := 0
	if k < len(v.o.More) {
		n = v.o.More[k]
	}
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, v.p.next())
	return libunlynx.GroupingKey(strings.Repeat(fmt.Sprintf("%x", b), n))
}

// rows encodes and decodes the rows of the store.
func (v *vecRun) rows() {
	_, a := v.input()
	_, gr := v.part(0)
	_, wh := v.part(1)
	fr := libunlynx.FilteredResponse{GroupByEnc: gr, AggregatingAttributes: a}
	b, gn, an, err := fr.ToBytes()
	frBack := libunlynx.FilteredResponse{}
	if err == nil {
		err = frBack.FromBytes(b, an, gn)
	}
	if err != nil || gn != len(gr) || an != len(a) || !sameCV(frBack.GroupByEnc, gr) || !sameCV(frBack.AggregatingAttributes, a) {
		v.bad("a filtered row of %d and %d attributes is different once decoded (%v)", len(gr), len(a), err)
	}
	if err == nil && len(b) > 0 {
		no := libunlynx.FilteredResponse{}
		v.refused("a filtered row", no.FromBytes(noPoint(b, v.p.n(1000)), an, gn))
	}
	frd := libunlynx.FilteredResponseDet{DetTagGroupBy: v.tagName(2), Fr: fr}
	b, gn, an, tn, err := frd.ToBytes()
	frdBack := libunlynx.FilteredResponseDet{}
	if err == nil {
		err = frdBack.FromBytes(b, gn, an, tn)
	}
	if err != nil || !sameCV(frdBack.Fr.GroupByEnc, gr) || !sameCV(frdBack.Fr.AggregatingAttributes, a) || frdBack.DetTagGroupBy != frd.DetTagGroupBy {
		v.bad("a tagged filtered row of %d and %d attributes is different once decoded (%v)", len(gr), len(a), err)
	}
	pr := libunlynx.ProcessResponse{WhereEnc: wh, GroupByEnc: gr, AggregatingAttributes: a}
	same := func(x libunlynx.ProcessResponse) bool {
		return sameCV(x.WhereEnc, wh) && sameCV(x.GroupByEnc, gr) && sameCV(x.AggregatingAttributes, a)
	}
	b, gn, an, wn, err := pr.ToBytes()
	prBack := libunlynx.ProcessResponse{}
	if err == nil {
		err = prBack.FromBytes(b, gn, an, wn)
	}
	if err != nil || !same(prBack) {
		v.bad("a row of %d, %d and %d attributes is different once decoded (%v)", len(wh), len(gr), len(a), err)
	}
	if err == nil && len(b) > 0 {
		no := libunlynx.ProcessResponse{}
		v.refused("a row", no.FromBytes(noPoint(b, v.p.n(1000)), gn, an, wn))
	}
	prd := libunlynx.ProcessResponseDet{PR: pr, DetTagGroupBy: v.tagName(2), DetTagWhere: []libunlynx.GroupingKey{}}
	for range wh {
		prd.DetTagWhere = append(prd.DetTagWhere, v.tagName(3)+"t")
	}
	b, gn, an, wn, gt, wt, err := prd.ToBytes()
	prdBack := libunlynx.ProcessResponseDet{}
	if err == nil {
		err = prdBack.FromBytes(append([]byte{}, b...), gn, an, wn, gt, wt)
	}
	if err != nil || !same(prdBack.PR) || prdBack.DetTagGroupBy != prd.DetTagGroupBy || fmt.Sprintf("%q", prdBack.DetTagWhere) != fmt.Sprintf("%q", prd.DetTagWhere) {
		v.bad("a tagged row of %d, %d and %d attributes is different once decoded: group %q where %q, expected %q %q (%v)", len(wh), len(gr), len(a),
			prdBack.DetTagGroupBy, prdBack.DetTagWhere, prd.DetTagGroupBy, prd.DetTagWhere, err)
	}
}

// refused checks the outcome of decoding what cannot be decoded.
func (v *vecRun) refused(what string, err error) {
	if err == nil {
		v.bad("%s with a value that cannot be decoded was decoded without an error", what)
	}
}

// dpRows encrypts, sends and decodes the row of a data provider.
func (v *vecRun) dpRows() {
	mk := func(k int, name string) map[string]int64 {
		n := 0
		if k < len(v.o.More) {
			n = v.o.More[k]
		}
		m := map[string]int64{}
		for j, x := range v.vals(n) {
			m[fmt.Sprintf("%s%d", name, j)] = x
		}
		return m
	}
	clear := func(m map[string]int64) map[string]int64 {
		out := map[string]int64{}
		for k, x := range m {
			out[k] = x
		}
		return out
	}
	in := libunlynx.DpClearResponse{WhereClear: mk(0, "w"), WhereEnc: mk(1, "v"), GroupByClear: mk(2, "g"), GroupByEnc: mk(3, "h"),
		AggregatingAttributesClear: mk(0, "s"), AggregatingAttributesEnc: mk(1, "t")}
	if v.p.chance(1, 6) {
		in.AggregatingAttributesEnc = nil
	}
	aggr0 := clear(in.AggregatingAttributesEnc)
	count := v.p.chance(1, 2)
	row, err := libunlynx.EncryptDpClearResponse(in, v.pub, count)
	if err != nil {
		v.bad("encryption of a row: %v", err)
		return
	}
	if len(in.AggregatingAttributesEnc) != len(aggr0) {
		v.bad("the row that was encrypted has changed")
	}
	if v.p.chance(1, 2) {
		back := libunlynx.DpResponseToSend{}
		wire(&row, &back)
		row = back
	}
	out := libunlynx.DpResponse{}
	if err := out.FromDpResponseToSend(row); err != nil {
		v.bad("decoding of a row: %v", err)
		return
	}
	if count {
		aggr0["count"] = 1
	}
	checkEnc := func(got map[string]libunlynx.CipherText, want map[string]int64, what string) {
		if len(got) != len(want) {
			v.bad("%d %s attributes became %d", len(want), what, len(got))
			return
		}
		for k, x := range want {
			c, ok := got[k]
			if !ok || !refPoint(v.priv, c).Equal(refInG(x)) {
				v.bad("%s attribute %s does not hold %d", what, k, x)
				return
			}
		}
	}
	checkEnc(out.WhereEnc, in.WhereEnc, "where")
	checkEnc(out.GroupByEnc, in.GroupByEnc, "group")
	checkEnc(out.AggregatingAttributesEnc, aggr0, "aggregating")
	checkClear := func(got, want map[string]int64, what string) {
		if len(got)+len(want) > 0 && !reflect.DeepEqual(got, want) {
			v.bad("clear %s attributes %v became %v", what, want, got)
		}
	}
	checkClear(out.WhereClear, in.WhereClear, "where")
	checkClear(out.GroupByClear, in.GroupByClear, "group")
	checkClear(out.AggregatingAttributesClear, in.AggregatingAttributesClear, "aggregating")
	if m, err := libunlynx.MapBytesToMapCipherText(row.WhereEnc); err != nil {
		v.bad("decoding of a map: %v", err)
	} else {
		checkEnc(m, in.WhereEnc, "mapped")
	}
}

// groupKeys turns groups into keys and back.
func (v *vecRun) groupKeys() {
	keys := map[libunlynx.GroupingKey]string{}
	for k := 0; k < 30; k++ {
		vals := v.vals(v.p.n(4))
		if v.p.chance(1, 2) {
			for i := range vals {
				vals[i] = int64(v.p.n(13)) // many that could be mixed up
			}
		}
		gk := libunlynx.Key(vals)
		if s, ok := keys[gk]; ok && s != fmt.Sprint(vals) {
			v.bad("groups %s and %v have the same key", s, vals)
		}
		keys[gk] = fmt.Sprint(vals)
		back, err := libunlynx.UnKey(gk)
		if err != nil || !sameInts(back, vals) {
			v.bad("group %v is %v once read from its key (%v)", vals, back, err)
			return
		}
	}
}

// grouping puts rows together by their group.
func (v *vecRun) grouping() {
	width := 1
	if len(v.o.More) > 0 {
		width = v.o.More[0]
	}
	if v.p.chance(1, 8) {
		width = v.p.between(99, 102)
	}
	n := v.p.between(1, 8)
	sums := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{}
	format := map[libunlynx.GroupingKey][]libunlynx.CipherVector{}
	want := map[libunlynx.GroupingKey][]int64{}
	lists := map[libunlynx.GroupingKey][][]int64{}
	group := map[libunlynx.GroupingKey]int64{}
	for k := 0; k < n; k++ {
		gv := int64(v.p.n(3))
		key := libunlynx.GroupingKey(fmt.Sprint(gv))
		vals := v.vals(width)
		fr := libunlynx.FilteredResponse{GroupByEnc: v.enc([]int64{gv}), AggregatingAttributes: v.enc(vals)}
		frd := libunlynx.FilteredResponseDet{DetTagGroupBy: key, Fr: fr}
		libunlynx.AddInMap(sums, key, fr)
		frd.FormatAggregationProofs(format)
		if want[key] == nil {
			want[key] = make([]int64, width)
			lists[key] = make([][]int64, width)
		}
		for j, x := range vals {
			want[key][j] += x
			lists[key][j] = append(lists[key][j], x)
		}
		group[key] = gv
		if !v.holds(fr.AggregatingAttributes, vals, "a row that was added") {
			return
		}
	}
	if len(sums) != len(want) {
		v.bad("%d groups became %d", len(want), len(sums))
	}
	for key, w := range want {
		v.holds(sums[key].AggregatingAttributes, w, "the sums of group "+string(key))
		v.holds(sums[key].GroupByEnc, []int64{group[key]}, "the attributes of group "+string(key))
		if width == 0 {
			continue
		}
		if len(format[key]) != width {
			v.bad("group %s has %d columns, expected %d", key, len(format[key]), width)
			continue
		}
		for j := range format[key] {
			v.holds(format[key][j], lists[key][j], fmt.Sprintf("column %d of group %s", j, key))
		}
	}
}

// convert reshapes rows into vectors and back as the phases of a survey do.
func (v *vecRun) convert() {
	n := v.p.between(0, 5)
	var prs []libunlynx.ProcessResponse
	var frs []libunlynx.FilteredResponse
	for k := 0; k < n; k++ {
		_, gr := v.part(0)
		_, wh := v.part(1)
		_, ag := v.part(2)
		if v.p.chance(1, 3) {
			_, gr = v.part(3)
		}
		prs = append(prs, libunlynx.ProcessResponse{GroupByEnc: gr, WhereEnc: wh, AggregatingAttributes: ag})
		frs = append(frs, libunlynx.FilteredResponse{GroupByEnc: gr, AggregatingAttributes: ag})
	}
	cv, lens := protocolsunlynx.FilteredResponseToCipherVector(frs)
	back := protocolsunlynx.CipherVectorToFilteredResponse(cv, lens)
	if len(back) != n {
		v.bad("%d rows became %d", n, len(back))
		return
	}
	for k := range frs {
		if !sameCV(frs[k].GroupByEnc, back[k].GroupByEnc) || !sameCV(frs[k].AggregatingAttributes, back[k].AggregatingAttributes) {
			v.bad("row %d of %d is different once back from the vector", k, n)
		}
	}
	matrix, ml := protocolsunlynx.ProcessResponseToMatrixCipherText(prs)
	rows := protocolsunlynx.MatrixCipherTextToProcessResponse(matrix, ml)
	if len(rows) < n || n > 1 && len(rows) != n || n == 0 && len(rows) != 0 {
		v.bad("%d rows became %d", n, len(rows))
		return
	}
	for k := range rows {
		if k < n {
			if !sameCV(prs[k].GroupByEnc, rows[k].GroupByEnc) || !sameCV(prs[k].WhereEnc, rows[k].WhereEnc) || !sameCV(prs[k].AggregatingAttributes, rows[k].AggregatingAttributes) {
				v.bad("row %d of %d is different once back from the matrix", k, n)
			}
			continue
		}
		// the row that keeps a single one company counts for nothing
		v.holds(rows[k].AggregatingAttributes, make([]int64, len(prs[0].AggregatingAttributes)), "the additional row")
	}
	flat := protocolsunlynx.ProcessResponseToCipherVector(prs)
	det := make(libunlynx.DeterministCipherVector, len(flat))
	for i, c := range flat {
		det[i] = libunlynx.DeterministCipherText{Point: c.C}
	}
	tagged := protocolsunlynx.DeterCipherVectorToProcessResponseDet(det, prs)
	if len(tagged) != n {
		v.bad("%d rows became %d with tags", n, len(tagged))
		return
	}
	for k, t := range tagged {
		key := ""
		for _, c := range prs[k].GroupByEnc {
			key += c.C.String()
		}
		var wh []libunlynx.GroupingKey
		for _, c := range prs[k].WhereEnc {
			wh = append(wh, libunlynx.GroupingKey(c.C.String()))
		}
		if string(t.DetTagGroupBy) != key || fmt.Sprint(t.DetTagWhere) != fmt.Sprint(wh) {
			v.bad("row %d of %d has the tags of something else", k, n)
		}
		if !sameCV(t.PR.AggregatingAttributes, prs[k].AggregatingAttributes) {
			v.bad("row %d of %d with tags has other values", k, n)
		}
	}
	_, a := v.input()
	ad := protocolsunlynx.AdaptCipherTextArray(a)
	m := map[libunlynx.GroupingKey]libunlynx.FilteredResponse{protocolsunlynx.EMPTYKEY: {AggregatingAttributes: a}}
	simple, err := protocolsunlynx.RetrieveSimpleDataFromMap(m)
	if err != nil || !sameCV(simple, a) || len(ad) != len(a) {
		v.bad("a simple vector of %d elements became %d and %d (%v)", len(a), len(simple), len(ad), err)
		return
	}
	for i := range ad {
		if !sameCV(ad[i], a[i:i+1]) {
			v.bad("element %d of the adapted vector is another one", i)
			return
		}
	}
}

func init() {
	scenarios["vectors"] = &scenario{gen: genVec, run: runVec}
}
