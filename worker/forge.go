package main

import (
	"sync"

	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/shuffle"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/proof"
	kybershuffle "go.dedis.ch/kyber/v3/shuffle"
)

// Ways of forging proofs that need more than altering honest ones. A cheating
// server knows what the code does: what a proof of a statement is named and how
// the columns of a shuffle are weighted are taken from the code itself.

var forger struct {
	sync.Mutex
	names map[string]string              // by proof
	betas map[kyber.Point][]kyber.Scalar // by key
}

func init() {
	forger.names = map[string]string{}
	forger.betas = map[kyber.Point][]kyber.Scalar{}
	proof.SimVerify = func(name string, prf []byte) {
		forger.Lock()
		defer forger.Unlock()
		if _, ok := forger.names[string(prf)]; ok {
			forger.names[string(prf)] = name
		}
	}
	kybershuffle.SimProve = func(h kyber.Point, beta []kyber.Scalar) {
		forger.Lock()
		defer forger.Unlock()
		if _, ok := forger.betas[h]; ok {
			forger.betas[h] = beta
		}
	}
}

// nameOf returns the name under which verify looks at a proof.
func nameOf(verify func(mark []byte)) string {
	m := make([]byte, 16)
	libunlynx.SuiTe.RandomStream().XORKeyStream(m, m)
	forger.Lock()
	forger.names[string(m)] = ""
	forger.Unlock()
	verify(m)
	forger.Lock()
	defer forger.Unlock()
	n := forger.names[string(m)]
	delete(forger.names, string(m))
	return n
}

// relation is a sum of products: the number of a secret and a point each (nil for
// the base).
type relation []interface{}

// forge makes a proof that the prover knows the secrets with which the relations
// give public points. The point of relation free is any that fits the proof.
func forge(name string, secrets []kyber.Scalar, free int, relations []relation) ([]byte, kyber.Point) {
	g := libunlynx.SuiTe
	var chosen kyber.Point
	sum := func(rel relation, x []kyber.Scalar) kyber.Point {
		V := g.Point().Null()
		for i := 0; i < len(rel); i += 2 {
			B, _ := rel[i+1].(kyber.Point)
			V.Add(V, g.Point().Mul(x[rel[i].(int)], B))
		}
		return V
	}
	prf, err := proof.HashProve(g, name, func(ctx proof.ProverContext) error {
		v := make([]kyber.Scalar, len(secrets))
		for i := range v {
			v[i] = g.Scalar().Pick(g.RandomStream())
		}
		var any kyber.Point
		for i, rel := range relations {
			V := sum(rel, v)
			if i == free {
				V = g.Point().Pick(g.RandomStream())
				any = V
			}
			if err := ctx.Put(V); err != nil {
				return err
			}
		}
		c := g.Scalar()
		if err := ctx.PubRand(c); err != nil {
			return err
		}
		resp := make([]kyber.Scalar, len(secrets))
		for i := range resp {
			resp[i] = g.Scalar().Sub(v[i], g.Scalar().Mul(c, secrets[i]))
			if err := ctx.Put(resp[i]); err != nil {
				return err
			}
		}
		if free >= 0 {
			d := g.Point().Sub(any, sum(relations[free], resp))
			chosen = g.Point().Mul(g.Scalar().Inv(c), d)
		}
		return nil
	})
	must(err)
	return prf, chosen
}

// shuffleWeights returns what the columns of a shuffle are multiplied with.
func shuffleWeights(in, out []libunlynx.CipherVector, key kyber.Point, pi []int) []kyber.Scalar {
	g := libunlynx.SuiTe
	e := make([]kyber.Scalar, len(in[0]))
	for j := range e {
		beta := make([][]kyber.Scalar, len(in))
		for i := range beta {
			beta[i] = make([]kyber.Scalar, len(e))
			for k := range e {
				beta[i][k] = g.Scalar().Zero()
			}
			beta[i][j] = g.Scalar().One()
		}
		h := key.Clone()
		forger.Lock()
		forger.betas[h] = nil
		forger.Unlock()
		libunlynxshuffle.ShuffleProofCreation(in, out, g.Point().Base(), h, beta, pi)
		forger.Lock()
		if b := forger.betas[h]; len(b) > 0 {
			e[j] = b[0]
		}
		delete(forger.betas, h)
		forger.Unlock()
		if e[j] == nil { // not what it was
			e[j] = g.Scalar().Pick(g.RandomStream())
		}
	}
	return e
}

// forgeShuffle makes the proof of a shuffle with the base and the key it has, for
// a verifier that expects key.
func forgeShuffle(prf libunlynxshuffle.PublishedShufflingProof, key kyber.Point, pi []int, beta [][]kyber.Scalar) []byte {
	g := libunlynx.SuiTe
	name := nameOf(func(m []byte) {
		prf.HashProof = m
		libunlynxshuffle.ShuffleProofVerification(prf, key)
	})
	if name == "" {
		name = "PairShuffle"
	}
	e := shuffleWeights(prf.OriginalList, prf.ShuffledList, key, pi)
	n := len(prf.OriginalList)
	X, Y, b := make([]kyber.Point, n), make([]kyber.Point, n), make([]kyber.Scalar, n)
	for i, row := range prf.OriginalList {
		X[i], Y[i], b[i] = g.Point().Null(), g.Point().Null(), g.Scalar().Zero()
		for j := range row {
			X[i].Add(X[i], g.Point().Mul(e[j], row[j].K))
			Y[i].Add(Y[i], g.Point().Mul(e[j], row[j].C))
			b[i].Add(b[i], g.Scalar().Mul(e[j], beta[i][j]))
		}
	}
	ps := kybershuffle.PairShuffle{}
	ps.Init(g, n)
	out, err := proof.HashProve(g, name, func(ctx proof.ProverContext) error {
		return ps.Prove(pi, prf.G, prf.H, b, X, Y, g.RandomStream(), ctx)
	})
	must(err)
	return out
}

// aboutOwn checks the published points of an honest proof, in pairs with what they
// have to be.
func (r *run) aboutOwn(what string, i int, pairs ...kyber.Point) {
	for k := 0; k < len(pairs); k += 2 {
		if pairs[k] == nil || !pairs[k].Equal(pairs[k+1]) {
			r.violate("wrong-proof", "the %s proof %d is not about the data it was made for", what, i)
			return
		}
	}
}
