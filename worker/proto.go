package main

import (
	"fmt"
	"sync"
	"time"

	"github.com/ldsec/unlynx/lib"
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3"
)

// Protocol-level runs: single protocols on arbitrary trees, driven through
// wrappers that give every node its data.

type protoInst struct {
	epochs map[int]int // the process of every server at the start
	setup  func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance)
}

var protoMu sync.Mutex
var protoInsts = map[onet.RoundID]*protoInst{}
var theRun *run

func wrapProtocol(name string, mk func(*onet.TreeNodeInstance) (onet.ProtocolInstance, error)) {
	_, err := onet.GlobalProtocolRegister("Sim"+name, func(tn *onet.TreeNodeInstance) (onet.ProtocolInstance, error) {
		protoMu.Lock()
		in := protoInsts[tn.Token().RoundID]
		protoMu.Unlock()
		if in == nil {
			return nil, fmt.Errorf("unknown instance")
		}
		node := theRun.net.byAddr[tn.ServerIdentity().Address]
		if in.epochs[node.idx] != node.epoch {
			// the service keeps its surveys in memory: after a restart it knows none
			return nil, fmt.Errorf("unknown survey")
		}
		pi, err := mk(tn)
		if err != nil {
			return nil, err
		}
		in.setup(node.idx, tn, pi)
		return pi, nil
	})
	must(err)
}

// startProto makes and starts an instance at the root of the tree.
func (r *run) startProto(tree *onet.Tree, name string, setup func(node int, tn *onet.TreeNodeInstance, pi onet.ProtocolInstance)) (onet.ProtocolInstance, error) {
	root := r.net.byAddr[tree.Root.ServerIdentity.Address]
	pi, err := onet.SimCreate(root.server, "Sim"+name, tree, func(t *onet.Token) {
		protoMu.Lock()
		in := &protoInst{setup: setup, epochs: map[int]int{}}
		for _, nd := range r.net.nodes {
			in.epochs[nd.idx] = nd.epoch
		}
		protoInsts[t.RoundID] = in
		protoMu.Unlock()
	}, func(err error) {
		if err != nil {
			r.note("dispatch-errors", 1)
		}
	})
	if err != nil {
		return nil, err
	}
	go func() {
		if err := pi.Start(); err != nil {
			r.note("start-errors", 1)
		}
	}()
	return pi, nil
}

// treeSpec is a tree over some of the servers: Members[0] is the root, the
// parent of Members[i] is Members[Parents[i]].
type treeSpec struct {
	Members []int
	Parents []int
}

func genTree(p *prng, servers, size int) treeSpec {
	t := treeSpec{Members: p.perm(servers)[:size]}
	shape := p.n(4)
	for i := range t.Members {
		par := 0
		switch {
		case i == 0:
		case shape == 0: // star
		case shape == 1: // chain
			par = i - 1
		case shape == 2: // binary
			par = (i - 1) / 2
		default:
			par = p.n(i)
		}
		t.Parents = append(t.Parents, par)
	}
	return t
}

// build returns the tree with a roster in the order of the server numbers, so
// that the root can be anywhere in it.
func (t treeSpec) build(r *run) *onet.Tree {
	in := map[int]bool{}
	for _, m := range t.Members {
		in[m] = true
	}
	full := r.net.roster()
	pos := map[int]int{}
	sub := full.List[:0:0]
	for i, si := range full.List {
		if in[i] {
			pos[i] = len(sub)
			sub = append(sub, si)
		}
	}
	ro := onet.NewRoster(sub)
	nodes := make([]*onet.TreeNode, len(t.Members))
	for i, m := range t.Members {
		nodes[i] = onet.NewTreeNode(pos[m], r.net.nodes[m].si)
		if i > 0 {
			nodes[t.Parents[i]].AddChild(nodes[i])
		}
	}
	return onet.NewTree(ro, nodes[0])
}

// secret is the sum of the private keys of the members.
func (t treeSpec) secret(r *run) kyber.Scalar {
	k := libunlynx.SuiTe.Scalar().Zero()
	for _, m := range t.Members {
		k = libunlynx.SuiTe.Scalar().Add(k, r.net.nodes[m].priv)
	}
	return k
}

// refPoint is the decryption of the reference.
func refPoint(k kyber.Scalar, c libunlynx.CipherText) kyber.Point {
	g := libunlynx.SuiTe
	return g.Point().Sub(c.C, g.Point().Mul(k, c.K))
}

var refTab = map[string]int64{}
var refLo, refHi kyber.Point
var refN int64
var refMu sync.Mutex

func ptKey(p kyber.Point) string {
	b, err := p.MarshalBinary()
	must(err)
	return string(b)
}

// refInt is the integer whose encoding is p, if it is between -lim and lim.
func refInt(p kyber.Point, lim int64) (int64, bool) {
	refMu.Lock()
	defer refMu.Unlock()
	g := libunlynx.SuiTe
	if refLo == nil {
		refLo, refHi = g.Point().Null(), g.Point().Null()
		refTab[ptKey(refLo)] = 0
	}
	k := ptKey(p)
	for {
		if v, ok := refTab[k]; ok {
			return v, v <= lim && v >= -lim
		}
		if refN >= lim {
			return 0, false
		}
		for i := 0; i < 100; i++ {
			refN++
			refHi = g.Point().Add(refHi, g.Point().Base())
			refLo = g.Point().Sub(refLo, g.Point().Base())
			refTab[ptKey(refHi)] = refN
			refTab[ptKey(refLo)] = -refN
		}
	}
}

func refDecrypt(k kyber.Scalar, c libunlynx.CipherText, lim int64) (int64, bool) {
	return refInt(refPoint(k, c), lim)
}

// after waits for d of simulated time.
func after(d time.Duration) <-chan time.Time { return time.After(d) }

// genFaults draws a fault plan for n servers. Most faults are placed by message
// count, so that they hit operations in progress.
func genFaults(p *prng, n, max, msgs int, kinds ...string) []Fault {
	var fs []Fault
	for k := p.between(1, max); k > 0; k-- {
		f := Fault{Kind: kinds[p.n(len(kinds))], A: p.n(n)}
		f.B = f.A
		if n > 1 {
			f.B = (f.A + 1 + p.n(n-1)) % n
		}
		if p.chance(3, 4) {
			f.AtMsg = int64(1 + p.n(msgs))
			if p.chance(1, 3) {
				f.AtMsg = int64(1 + p.n(1+msgs/4))
			}
		} else {
			f.AtUS = int64(p.n(400000))
		}
		switch f.Kind {
		case "partition", "isolate", "stall":
			f.DurUS = int64(p.pick(1000, 50000, 2000000, 90000000, 400000000)) + int64(p.n(1000))
		case "crash":
			f.DurUS = int64(p.pick(0, 1000, 200000, 5000000, 100000000))
		}
		fs = append(fs, f)
	}
	return fs
}
