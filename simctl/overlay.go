package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

type sub struct{ old, new string }

// overlay collects patched copies of toolchain and dependency files. The
// originals are never touched: the copies are passed to go build -overlay.
type overlay struct {
	dir     string
	replace map[string]string
}

func (o *overlay) write(orig, text string) error {
	p := filepath.Join(o.dir, strings.NewReplacer("/", "_", "@", "_", "!", "_").Replace(strings.TrimPrefix(orig, "/")))
	if old, err := os.ReadFile(p); err != nil || string(old) != text {
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			return err
		}
	}
	o.replace[orig] = p
	return nil
}

func (o *overlay) patch(file string, subs ...sub) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	s := string(b)
	for _, x := range subs {
		if strings.Count(s, x.old) != 1 {
			return fmt.Errorf("patch of %s: %d matches of %q", file, strings.Count(s, x.old), x.old)
		}
		s = strings.Replace(s, x.old, x.new, 1)
	}
	return o.write(file, s)
}

func makeOverlay(dir, goroot, modcache string) (string, error) {
	if err := os.MkdirAll(dir, 0755); err != nil {
		return "", err
	}
	o := &overlay{dir: dir, replace: map[string]string{}}
	rt := filepath.Join(goroot, "src/runtime")
	onet := filepath.Join(modcache, "go.dedis.ch/onet/v3@v3.2.0")
	kyber := filepath.Join(modcache, "go.dedis.ch/kyber/v3@v3.0.12")
	steps := []func() error{
		func() error {
			return o.patch(filepath.Join(rt, "proc.go"),
				// no monitor thread: no preemption and no retaking of Ps by wall time
				sub{`const haveSysmon = GOARCH != "wasm"`, `const haveSysmon = false`},
				sub{`	lock(&sched.lock)
	globrunqput(gp)
	unlock(&sched.lock)

	if mainStarted {
		wakep()
	}

	schedule()
}

// Gosched continuation on g0.`, `	runqput(getg().m.p.ptr(), gp, false)

	schedule()
}

// Gosched continuation on g0.`},
				sub{`		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
	}
}

// runqdrain`, `		if n := t - h; n > 1 {
			if k := simPick(n); k != 0 {
				// Rotate the chosen goroutine to the head; the others keep
				// their order.
				L := uint32(len(pp.runq))
				c := pp.runq[(h+k)%L]
				for i := k; i > 0; i-- {
					pp.runq[(h+i)%L] = pp.runq[(h+i-1)%L]
				}
				pp.runq[h%L] = c
			}
			simHash = (simHash ^ pp.runq[h%uint32(len(pp.runq))].ptr().goid) * 0x100000001b3
		}
		gp := pp.runq[h%uint32(len(pp.runq))].ptr()
		if atomic.CasRel(&pp.runqhead, h, h+1) { // cas-release, commits consume
			return gp, false
		}
	}
}

// runqdrain`},
				sub{`//go:linkname os_beforeExit os.runtime_beforeExit
func os_beforeExit(exitCode int) {`, `//go:linkname os_beforeExit os.runtime_beforeExit
func os_beforeExit(exitCode int) {
	simDump()`},
			)
		},
		func() error {
			return o.patch(filepath.Join(rt, "panic.go"),
				sub{`func fatalpanic(msgs *_panic) {`, `func fatalpanic(msgs *_panic) {
	simDump()`},
				sub{`func fatalthrow(t throwType) {`, `func fatalthrow(t throwType) {
	simDump()`},
			)
		},
		func() error {
			return o.patch(filepath.Join(rt, "rand.go"),
				sub{`	seed := &globalRand.seed
	if startupRand != nil {`, `	seed := &globalRand.seed
	for i := range startupRand {
		startupRand[i] = byte(i)
	}
	if startupRand != nil {`},
				sub{`	globalRand.state.Reseed()
	unlock(&globalRand.lock)`, `	unlock(&globalRand.lock)`},
			)
		},
		func() error {
			return o.patch(filepath.Join(rt, "time_fake.go"),
				sub{`	if !(fd == 1 || fd == 2) {`, `	if true {`},
				sub{`var faketime int64 = 1257894000000000000`, `var faketime int64 = 1600000000000000000`},
			)
		},
		func() error { return o.write(filepath.Join(rt, "zz_sim.go"), runtimeSim) },
		func() error {
			return o.patch(filepath.Join(onet, "websocket.go"),
				sub{`			w.server.ListenAndServe()
`, `			// simulated: requests arrive through SimSend
`},
				sub{`	w.server.Stop(100 * time.Millisecond)
	<-w.startstop`, `	<-w.startstop`},
				sub{`	conn, connLock, err := c.newConnIfNotExist(dst, path)
	if err != nil {
		return nil, xerrors.Errorf("new connection: %v", err)
	}
	defer connLock.Unlock()

	var rcv []byte`, `	if SimSend != nil {
		return SimSend(c.service, dst, path, buf)
	}
	conn, connLock, err := c.newConnIfNotExist(dst, path)
	if err != nil {
		return nil, xerrors.Errorf("new connection: %v", err)
	}
	defer connLock.Unlock()

	var rcv []byte`},
			)
		},
		func() error {
			ui := filepath.Join(onet, "log/ui.go")
			b, err := os.ReadFile(ui)
			if err != nil {
				return err
			}
			// a command that gives up ends, and not the simulation
			return o.write(ui, strings.Replace(string(b), "os.Exit(", "SimExit(", -1)+`
// SimExit ends the process.
var SimExit = os.Exit
`)
		},
		func() error {
			return o.patch(filepath.Join(kyber, "proof/hash.go"), sub{`// Hash-based noninteractive Sigma-protocol prover context
`, `// SimVerify sees the name and the proof of every verification.
var SimVerify func(name string, proof []byte)

// SimProved is told of every relation that is proved, and whether it holds.
var SimProved func(relation string, holds bool)

// Hash-based noninteractive Sigma-protocol prover context
`}, sub{`	ctx, err := newHashVerifier(suite, protocolName, proof)
`, `	if SimVerify != nil {
		SimVerify(protocolName, proof)
	}
	ctx, err := newHashVerifier(suite, protocolName, proof)
`})
		},
		func() error {
			return o.patch(filepath.Join(kyber, "proof/proof.go"), sub{`	// Compute commit V=wY+v1G1+...+vkGk
`, `	if w == nil && SimProved != nil && prf.pval[rp.P] != nil {
		sum := prf.s.Point().Null()
		for _, t := range rp.T {
			sum.Add(sum, prf.s.Point().Mul(prf.sval[t.S], prf.pval[t.B]))
		}
		SimProved(rp.String(), sum.Equal(prf.pval[rp.P]))
	}
	// Compute commit V=wY+v1G1+...+vkGk
`})
		},
		func() error {
			return o.patch(filepath.Join(kyber, "shuffle/pair.go"), sub{`// Init creates a new PairShuffleProof instance for`, `// SimProve sees the key and the blinding of every shuffle proof.
var SimProve func(h kyber.Point, beta []kyber.Scalar)

// Init creates a new PairShuffleProof instance for`}, sub{`	// Compute pi^-1 inverse permutation
	piinv := make([]int, k)
	for i := 0; i < k; i++ {
		piinv[pi[i]] = i
	}

	// P step 1
`, `	if SimProve != nil {
		SimProve(h, beta)
	}
	// Compute pi^-1 inverse permutation
	piinv := make([]int, k)
	for i := 0; i < k; i++ {
		piinv[pi[i]] = i
	}

	// P step 1
`})
		},
		func() error {
			return o.write(filepath.Join(onet, "zz_sim.go"), `package onet

import (
	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/onet/v3/network"
)

// SimSend carries the requests of Client.
var SimSend func(service string, dst *network.ServerIdentity, path string, buf []byte) ([]byte, error)

// SimNewServer is newServer.
func SimNewServer(s network.Suite, dbPath string, r *network.Router, pkey kyber.Scalar) *Server {
	return newServer(s, dbPath, r, pkey)
}

// SimOverlay returns the overlay of c.
func SimOverlay(c *Server) *Overlay { return c.overlay }

// SimCreate is Overlay.CreateProtocol with a look at the token before the
// instance is made, and without the recovery of panics of Dispatch.
func SimCreate(c *Server, name string, t *Tree, before func(*Token), after func(error)) (ProtocolInstance, error) {
	o := c.overlay
	tni := o.NewTreeNodeInstanceFromProtoName(t, name)
	before(tni.Token())
	pi, err := o.server.protocolInstantiate(tni.token.ProtoID, tni)
	if err != nil {
		return nil, err
	}
	if err = o.RegisterProtocolInstance(pi); err != nil {
		return nil, err
	}
	go func() { after(pi.Dispatch()) }()
	return pi, nil
}
`)
		},
	}
	for _, s := range steps {
		if err := s(); err != nil {
			return "", err
		}
	}
	b, err := json.MarshalIndent(map[string]interface{}{"Replace": o.replace}, "", " ")
	if err != nil {
		return "", err
	}
	p := filepath.Join(dir, "overlay.json")
	return p, os.WriteFile(p, b, 0644)
}

const runtimeSim = `package runtime

import "unsafe"

// Deterministic simulation: every scheduling decision is drawn from one seeded
// generator or taken from an explicit list, and recorded.

const simCap = 1 << 17

var simS struct {
	on       bool
	explicit bool
	state    uint64

	pickPPM  uint64
	yieldPPM uint64
	sleepPPM uint64
	maxSleep uint64

	picks   uint64 // scheduling decisions with more than one candidate
	yields  uint64 // scheduling points passed
	next    uint64 // yield index of the next preemption (random mode)
	pi, yi  int    // cursors (explicit mode)
	npick   int    // explicit entries
	nyield  int
	rpick   int // recorded entries
	ryield  int
	over    bool
	dumped  bool
	limit   uint64
}

var simHash uint64 = 0xcbf29ce484222325

var simPickList, simPickRec [2 * simCap]int64
var simYieldList, simYieldRec [2 * simCap]int64

func simNext() uint64 {
	simS.state += 0x9e3779b97f4a7c15
	z := simS.state
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func simPick(n uint32) uint32 {
	if !simS.on {
		return 0
	}
	simS.picks++
	var k uint32
	if simS.explicit {
		for simS.pi < simS.npick && uint64(simPickList[2*simS.pi]) < simS.picks {
			simS.pi++
		}
		if simS.pi < simS.npick && uint64(simPickList[2*simS.pi]) == simS.picks {
			k = uint32(simPickList[2*simS.pi+1]) % n
		}
	} else if simS.pickPPM != 0 && simNext()%1000000 < simS.pickPPM {
		k = uint32(simNext() % uint64(n))
	}
	if k != 0 {
		if simS.rpick < simCap {
			simPickRec[2*simS.rpick] = int64(simS.picks)
			simPickRec[2*simS.rpick+1] = int64(k)
			simS.rpick++
		} else {
			simS.over = true
		}
	}
	return k
}

// simYield is a scheduling point of the code under test. It returns the
// simulated time for which the calling goroutine is descheduled, if any.
func simYield(kind int) int64 {
	if !simS.on {
		return 0
	}
	simS.yields++
	if simS.limit != 0 && simS.yields > simS.limit {
		simS.limit = 0
		panic("simulation: no progress within the step bound")
	}
	d := int64(-1)
	if simS.explicit {
		for simS.yi < simS.nyield && uint64(simYieldList[2*simS.yi]) < simS.yields {
			simS.yi++
		}
		if simS.yi < simS.nyield && uint64(simYieldList[2*simS.yi]) == simS.yields {
			d = simYieldList[2*simS.yi+1]
		}
	} else {
		hit := false
		if kind != 0 && simS.yieldPPM != 0 {
			hit = simNext()%3 == 0
		} else if simS.yieldPPM != 0 {
			if simS.next == 0 {
				simArm()
			}
			if simS.yields >= simS.next {
				hit = true
				simArm()
			}
		}
		if hit {
			d = 0
			if simNext()%1000000 < simS.sleepPPM && simS.maxSleep > 1000 {
				// log-uniform between 1us and maxSleep
				m := uint64(1000) << (simNext() % 24)
				for m > simS.maxSleep {
					m >>= 1
				}
				d = int64(1 + simNext()%m)
			}
		}
	}
	if d < 0 {
		return 0
	}
	if simS.ryield < simCap {
		simYieldRec[2*simS.ryield] = int64(simS.yields)
		simYieldRec[2*simS.ryield+1] = d
		simS.ryield++
	} else {
		simS.over = true
	}
	if d == 0 {
		Gosched()
	}
	return d
}

func simArm() {
	// uniform with mean 1/rate
	mean := 1000000 / simS.yieldPPM
	simS.next = simS.yields + 1 + simNext()%(2*mean)
}

func simStart(seed, pickPPM, yieldPPM, sleepPPM, maxSleepNS, limit uint64, explicit bool, picks, yields []int64) {
	simS.state = seed
	simS.pickPPM, simS.yieldPPM, simS.sleepPPM, simS.maxSleep = pickPPM, yieldPPM, sleepPPM, maxSleepNS
	simS.limit = limit
	simS.explicit = explicit
	copy(simPickList[:], picks)
	copy(simYieldList[:], yields)
	simS.npick = len(picks) / 2
	simS.nyield = len(yields) / 2
	lock(&globalRand.lock)
	var s [32]byte
	for i := 0; i < 8; i++ {
		s[i] = byte(seed >> (8 * i))
	}
	globalRand.state.Init(s)
	unlock(&globalRand.lock)
	mrandinit(getg().m)
	simS.on = true
}

func simStop() { simS.on = false }

func simStats() (picks, yields, hash uint64, now int64, preempt int) {
	return simS.picks, simS.yields, simHash, nanotime(), simS.ryield
}

// simDump writes the recorded schedule to file descriptor 3, whatever way the
// process ends.
func simDump() {
	if simS.dumped {
		return
	}
	simS.dumped = true
	var h [8]int64
	h[0] = 0x53494d54
	h[1] = int64(simS.rpick)
	h[2] = int64(simS.ryield)
	if simS.over {
		h[3] = 1
	}
	h[4] = int64(simHash)
	h[5] = int64(simS.picks)
	h[6] = int64(simS.yields)
	h[7] = nanotime()
	simWrite(unsafe.Pointer(&h[0]), 64)
	simWrite(unsafe.Pointer(&simPickRec[0]), uintptr(simS.rpick)*16)
	simWrite(unsafe.Pointer(&simYieldRec[0]), uintptr(simS.ryield)*16)
}

func simWrite(p unsafe.Pointer, n uintptr) {
	for n > 0 {
		w := write1(3, p, int32(n))
		if w <= 0 {
			return
		}
		p = add(p, uintptr(w))
		n -= uintptr(w)
	}
}
`
