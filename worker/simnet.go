package main

import (
	"errors"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"sync"
	"time"

	"go.dedis.ch/kyber/v3"
	"go.dedis.ch/kyber/v3/util/key"
	"go.dedis.ch/onet/v3"
	"go.dedis.ch/onet/v3/network"
	"golang.org/x/xerrors"
)

// Simulated network. It carries the bytes of the real message encoding between
// the real routers, as TCP does: connections are reliable FIFO byte streams
// with a latency drawn per message; they break on resets and crashes (messages
// in flight on a broken connection are lost), and hold messages back during a
// partition or a stall.

// NetSpec says how messages travel.
type NetSpec struct {
	Seed     uint64
	Mode     string // zero, uniform, heavy, links
	LatMinUS int64
	LatMaxUS int64
}

// Fault is one injected fault.
type Fault struct {
	Kind  string // reset, partition, stall, crash, restart, delay, drop-after
	AtUS  int64  // simulated time after the start of the faulty phase; or
	AtMsg int64  // the n-th message delivered (1-based), when positive
	A, B  int
	DurUS int64
}

type packet struct {
	data []byte
	at   int64
}

type simConn struct {
	net    *simNet
	id     int
	local  int
	remote int
	peer   *simConn
	mu     sync.Mutex
	cond   chan struct{} // wakes the reader
	q      []packet
	lastAt int64
	closed bool
	void   bool // the end of a crashed process: swallows what is sent, receives nothing
	rx, tx uint64
	nsent  uint64
}

type simNet struct {
	mu     sync.Mutex
	spec   NetSpec
	suite  network.Suite
	nodes  []*simNode
	byAddr map[network.Address]*simNode
	conns  []*simConn
	start  int64

	faults  []Fault
	fired   map[string]int
	blocked map[[2]int]int64 // partition: messages wait until this time
	stalled map[int]int64    // node reads nothing until this time

	delivered int64
	orderHash uint64
	stats     map[string]int64
	tap       func(from, to int, data []byte, msg interface{}) // sees all messages between servers
	clientTap func(path string, req, resp []byte)              // sees all requests of clients and their answers

	clientSeq     uint64
	faulty        int   // counts changes of the fault plan
	requests      int64 // since the faults are armed
	handlerPanics []string
}

type simNode struct {
	crashes int
	idx     int
	net     *simNet
	addr    network.Address
	si      *network.ServerIdentity
	priv    kyber.Scalar
	server  *onet.Server
	host    *simHost
	down    bool
	gone    chan struct{}
	epoch   int
	dir     string
}

type simHost struct {
	node   *simNode
	mu     sync.Mutex
	fn     func(network.Conn)
	quit   chan bool
	listen bool
	dead   bool
}

func now() int64 { return time.Now().UnixNano() }

func mix(a uint64, b uint64) uint64 {
	z := a ^ (b+0x9e3779b97f4a7c15)*0xbf58476d1ce4e5b9
	z ^= z >> 29
	z *= 0x94d049bb133111eb
	return z ^ (z >> 32)
}

func newSimNet(spec NetSpec, suite network.Suite) *simNet {
	n := &simNet{spec: spec, suite: suite, byAddr: map[network.Address]*simNode{}, fired: map[string]int{},
		blocked: map[[2]int]int64{}, stalled: map[int]int64{}, stats: map[string]int64{}, orderHash: 14695981039346656037}
	n.start = now()
	return n
}

// latency is a function of the seed, the connection and the message index, so
// that it does not change when other parts of a run are removed.
func (n *simNet) latency(c *simConn) int64 {
	h := mix(mix(n.spec.Seed, uint64(c.local*1000+c.remote)), c.nsent)
	lo, hi := n.spec.LatMinUS, n.spec.LatMaxUS
	if hi <= lo {
		return lo * 1000
	}
	switch n.spec.Mode {
	case "zero":
		return 0
	case "heavy": // mostly fast, now and then up to 50 times slower
		if h%16 == 0 {
			return (lo + int64(mix(h, 7)%uint64((hi-lo)*50))) * 1000
		}
		return (lo + int64(mix(h, 7)%uint64(hi-lo))/8) * 1000
	case "links": // every directed link has its own speed
		l := mix(n.spec.Seed, uint64(c.local*1000+c.remote)) % uint64(hi-lo)
		return (lo+int64(l))*1000 + int64(h%1000)
	}
	return (lo + int64(h%uint64(hi-lo))) * 1000
}

func pair(a, b int) [2]int {
	if a > b {
		a, b = b, a
	}
	return [2]int{a, b}
}

func (h *simHost) Connect(si *network.ServerIdentity) (network.Conn, error) {
	n := h.node.net
	if h.dead && n.byAddr[si.Address] != nil {
		return &simConn{net: n, local: h.node.idx, remote: n.byAddr[si.Address].idx, cond: make(chan struct{}, 1), void: true}, nil
	}
	for i := 0; ; i++ {
		n.mu.Lock()
		dst, ok := n.byAddr[si.Address]
		var fn func(network.Conn)
		if ok && !h.dead && !dst.down && dst.host != nil {
			dst.host.mu.Lock()
			if dst.host.listen {
				fn = dst.host.fn
			}
			dst.host.mu.Unlock()
		}
		until := int64(0)
		if ok {
			until = n.blocked[pair(h.node.idx, dst.idx)]
		}
		n.mu.Unlock()
		if fn != nil && until <= now() {
			n.mu.Lock()
			a := &simConn{net: n, id: len(n.conns), local: h.node.idx, remote: dst.idx, cond: make(chan struct{}, 1)}
			b := &simConn{net: n, id: len(n.conns) + 1, local: dst.idx, remote: h.node.idx, cond: make(chan struct{}, 1)}
			a.peer, b.peer = b, a
			n.conns = append(n.conns, a, b)
			n.stats["connections"]++
			n.mu.Unlock()
			go fn(b)
			return a, nil
		}
		if h.dead || i >= network.MaxRetryConnect {
			return nil, xerrors.New("simulated: can't connect to " + string(si.Address))
		}
		time.Sleep(network.WaitRetry)
	}
}

func (h *simHost) Listen(fn func(network.Conn)) error {
	h.mu.Lock()
	h.fn = fn
	h.listen = true
	h.quit = make(chan bool)
	q := h.quit
	h.mu.Unlock()
	<-q
	return nil
}

func (h *simHost) Stop() error {
	h.mu.Lock()
	defer h.mu.Unlock()
	if h.listen {
		close(h.quit)
		h.listen = false
	}
	return nil
}

func (h *simHost) Address() network.Address { return h.node.addr }

func (h *simHost) Listening() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.listen
}

func (c *simConn) Send(msg network.Message) (uint64, error) {
	buf, err := network.Marshal(msg)
	if err != nil {
		return 0, xerrors.Errorf("marshal: %v", err)
	}
	n := c.net
	n.mu.Lock()
	defer n.mu.Unlock()
	if c.void {
		return uint64(len(buf)), nil
	}
	if c.closed {
		return 0, xerrors.Errorf("closing: %w", network.ErrClosed)
	}
	at := now() + n.latency(c)
	c.nsent++
	if at < c.lastAt {
		at = c.lastAt
	}
	c.lastAt = at
	c.tx += uint64(len(buf))
	n.stats["messages"]++
	n.stats["bytes"] += int64(len(buf))
	c.peer.q = append(c.peer.q, packet{buf, at})
	c.peer.wake()
	return uint64(len(buf)), nil
}

func (c *simConn) wake() {
	select {
	case c.cond <- struct{}{}:
	default:
	}
}

func (c *simConn) Receive() (*network.Envelope, error) {
	n := c.net
	for {
		n.mu.Lock()
		if c.void {
			n.mu.Unlock()
			select {}
		}
		if c.closed {
			n.mu.Unlock()
			return nil, xerrors.Errorf("closing: %w", network.ErrClosed)
		}
		if len(c.q) > 0 {
			p := c.q[0]
			t := p.at
			if u := n.blocked[pair(c.local, c.remote)]; u > t {
				t = u
			}
			if u := n.stalled[c.local]; u > t {
				t = u
			}
			if d := t - now(); d > 0 {
				n.mu.Unlock()
				tm := time.NewTimer(time.Duration(d))
				select {
				case <-tm.C:
				case <-c.cond:
					tm.Stop()
				}
				continue
			}
			c.q = c.q[1:]
			n.mu.Unlock()
			id, body, err := network.Unmarshal(p.data, n.suite)
			if err != nil {
				return nil, xerrors.Errorf("unmarshaling: %v", err)
			}
			n.onDelivery(c, p.data, body)
			n.mu.Lock()
			cl := c.closed
			c.rx += uint64(len(p.data))
			n.mu.Unlock()
			if cl {
				continue
			}
			return &network.Envelope{MsgType: id, Msg: body, Size: network.Size(len(p.data))}, nil
		}
		n.mu.Unlock()
		<-c.cond
	}
}

func (n *simNet) onDelivery(c *simConn, data []byte, body interface{}) {
	n.mu.Lock()
	n.delivered++
	d := n.delivered
	n.orderHash = mix(n.orderHash, uint64(c.local*64+c.remote))
	for _, b := range []byte(fmt.Sprintf("%T", body)) {
		n.orderHash = (n.orderHash ^ uint64(b)) * 1099511628211
	}
	var due []Fault
	for i := range n.faults {
		if f := n.faults[i]; f.AtMsg > 0 && f.AtMsg == d && !isClientFault(f.Kind) {
			due = append(due, f)
		}
	}
	n.mu.Unlock()
	if n.tap != nil {
		n.tap(c.remote, c.local, data, body)
	}
	for _, f := range due {
		n.apply(f)
	}
}

func (c *simConn) Close() error {
	n := c.net
	n.mu.Lock()
	defer n.mu.Unlock()
	if c.closed || c.void {
		return xerrors.Errorf("closing: %w", network.ErrClosed)
	}
	c.closed = true
	c.peer.closed = true
	c.wake()
	c.peer.wake()
	return nil
}

func (c *simConn) Local() network.Address  { return c.net.nodes[c.local].addr }
func (c *simConn) Remote() network.Address { return c.net.nodes[c.remote].addr }
func (c *simConn) Type() network.ConnType  { return network.Local }
func (c *simConn) Rx() uint64              { c.net.mu.Lock(); defer c.net.mu.Unlock(); return c.rx }
func (c *simConn) Tx() uint64              { c.net.mu.Lock(); defer c.net.mu.Unlock(); return c.tx }

// startFaults arms the fault plan: times count from now.
func (n *simNet) startFaults(fs []Fault) {
	n.mu.Lock()
	n.faults = append([]Fault{}, fs...)
	n.faulty++
	gen := n.faulty
	n.delivered = 0
	n.requests = 0
	n.mu.Unlock()
	timed := []Fault{}
	for _, f := range fs {
		if f.AtMsg <= 0 {
			timed = append(timed, f)
		}
	}
	sort.SliceStable(timed, func(i, j int) bool { return timed[i].AtUS < timed[j].AtUS })
	go func() {
		t0 := now()
		for _, f := range timed {
			if d := t0 + f.AtUS*1000 - now(); d > 0 {
				time.Sleep(time.Duration(d))
			}
			n.mu.Lock()
			over := n.faulty != gen
			n.mu.Unlock()
			if over {
				return
			}
			n.apply(f)
		}
	}()
}

// stopFaults cancels what has not fired and heals what has.
func (n *simNet) stopFaults() {
	n.mu.Lock()
	n.faults = nil
	n.faulty++
	n.blocked = map[[2]int]int64{}
	n.stalled = map[int]int64{}
	for _, c := range n.conns {
		c.wake()
	}
	n.mu.Unlock()
}

func (n *simNet) apply(f Fault) {
	n.mu.Lock()
	defer n.mu.Unlock()
	if f.A >= len(n.nodes) || f.B >= len(n.nodes) {
		return
	}
	hit := false
	switch f.Kind {
	case "reset": // the connections between A and B break
		for _, c := range n.conns {
			if !c.closed && (c.local == f.A && c.remote == f.B || c.local == f.B && c.remote == f.A) {
				c.closed = true
				c.wake()
				hit = true
			}
		}
	case "partition": // nothing passes between A and B for a while
		n.blocked[pair(f.A, f.B)] = now() + f.DurUS*1000
		hit = true
		for _, c := range n.conns {
			c.wake()
		}
	case "isolate": // nothing passes between A and all others for a while
		for i := range n.nodes {
			if i != f.A {
				n.blocked[pair(f.A, i)] = now() + f.DurUS*1000
			}
		}
		hit = true
		for _, c := range n.conns {
			c.wake()
		}
	case "stall": // A reads nothing for a while
		n.stalled[f.A] = now() + f.DurUS*1000
		hit = true
		for _, c := range n.conns {
			c.wake()
		}
	case "crash":
		hit = n.crashLocked(f.A)
		if hit && f.DurUS > 0 {
			go func() {
				time.Sleep(time.Duration(f.DurUS) * time.Microsecond)
				n.restart(f.A)
			}()
		}
	}
	if hit {
		n.fired[f.Kind]++
	}
}

// crashLocked ends the process of node i: its connections break, and what its
// goroutines still do reaches nobody. Its peers see a reset; the goroutines of
// the dead process see silence, as those of an isolated process would.
func (n *simNet) crashLocked(i int) bool {
	nd := n.nodes[i]
	if nd.down {
		return false
	}
	nd.down = true
	nd.crashes++
	nd.host.dead = true
	close(nd.gone)
	for _, c := range n.conns {
		if c.closed || c.void {
			continue
		}
		if c.local == i {
			c.void = true
			c.q = nil
			c.peer.closed = true
			c.wake()
			c.peer.wake()
		}
	}
	return true
}

// restart starts a fresh process for node i: same identity, empty memory.
func (n *simNet) restart(i int) {
	n.mu.Lock()
	nd := n.nodes[i]
	if !nd.down {
		n.mu.Unlock()
		return
	}
	n.fired["restart"]++
	n.mu.Unlock()
	n.boot(nd)
}

// stranger is a server that does not exist.
func (n *simNet) stranger() *network.ServerIdentity {
	kp := key.NewKeyPair(n.suite)
	return network.NewServerIdentity(kp.Public, network.NewLocalAddress("127.0.0.1:9990"))
}

// restartAll starts every server that is down.
func (n *simNet) restartAll() {
	for i := range n.nodes {
		n.restart(i)
	}
}

// addNode makes a server with a fresh key pair.
func (n *simNet) addNode(dir string) *simNode {
	i := len(n.nodes)
	addr := network.NewLocalAddress(fmt.Sprintf("127.0.0.1:%d", 2000+10*i))
	kp := key.NewKeyPair(n.suite)
	si := network.NewServerIdentity(kp.Public, addr)
	nd := &simNode{idx: i, net: n, addr: addr, si: si, priv: kp.Private, dir: dir}
	n.nodes = append(n.nodes, nd)
	n.byAddr[addr] = nd
	n.boot(nd)
	return nd
}

func (n *simNet) boot(nd *simNode) {
	n.mu.Lock()
	nd.host = &simHost{node: nd}
	nd.epoch++
	nd.gone = make(chan struct{})
	nd.down = false
	n.mu.Unlock()
	own := network.NewServerIdentity(nd.si.Public, nd.addr)
	own.SetPrivate(nd.priv)
	r := network.NewRouter(own, nd.host)
	r.UnauthOk = true
	r.Quiet = true
	dir := fmt.Sprintf("%s/node%d-%d", nd.dir, nd.idx, nd.epoch)
	must(os.MkdirAll(dir, 0755))
	nd.server = onet.SimNewServer(n.suite, dir, r, nd.priv)
	nd.server.StartInBackground()
}

func (n *simNet) roster() *onet.Roster {
	var ids []*network.ServerIdentity
	for _, nd := range n.nodes {
		ids = append(ids, nd.si)
	}
	return onet.NewRoster(ids)
}

func isClientFault(k string) bool {
	return k == "client-request" || k == "client-response" || k == "client-abandon"
}

var errDown = errors.New("simulated: connection refused")
var errReset = errors.New("simulated: connection reset by peer")
var errClientTimeout = errors.New("simulated: i/o timeout")

// client carries one client request, as the websocket of a real deployment
// does: the handler runs in its own goroutine, a panic in it is caught and
// breaks the connection, the client waits at most five minutes.
func (n *simNet) client(service string, dst *network.ServerIdentity, path string, buf []byte) ([]byte, error) {
	n.mu.Lock()
	nd := n.byAddr[dst.Address]
	n.clientSeq++
	h := mix(mix(n.spec.Seed, 0xc11e47), n.clientSeq)
	lost := ""
	n.requests++
	for _, f := range n.faults {
		if isClientFault(f.Kind) && f.AtMsg > 0 && (f.AtMsg-1)%8+1 == n.requests {
			lost = f.Kind
		}
	}
	n.mu.Unlock()
	lat := func(x uint64) time.Duration {
		if n.spec.LatMaxUS <= 0 {
			return 0
		}
		return time.Duration(mix(h, x)%uint64(n.spec.LatMaxUS)) * time.Microsecond
	}
	time.Sleep(lat(1))
	n.mu.Lock()
	if nd == nil || nd.down {
		n.mu.Unlock()
		return nil, errDown
	}
	gone := nd.gone
	srv := nd.server
	if lost != "" {
		n.fired[lost]++
	}
	n.mu.Unlock()
	if lost == "client-request" { // the connection breaks before the request arrives
		return nil, errReset
	}
	type answer struct {
		b   []byte
		err error
	}
	done := make(chan answer, 1)
	go func() {
		defer func() {
			if r := recover(); r != nil {
				n.mu.Lock()
				n.handlerPanics = append(n.handlerPanics, fmt.Sprintf("%s: %v\n%s", path, r, debug.Stack()))
				n.mu.Unlock()
				done <- answer{nil, errReset}
			}
		}()
		b, _, err := srv.Service(service).ProcessClientRequest(nil, path, append([]byte{}, buf...))
		if n.clientTap != nil {
			n.clientTap(path, buf, b)
		}
		if err != nil {
			err = fmt.Errorf("simulated: websocket closed: %v", err)
		}
		done <- answer{b, err}
	}()
	if lost == "client-abandon" { // it breaks while the server works on it
		time.Sleep(lat(3))
		return nil, errReset
	}
	tm := time.NewTimer(5 * time.Minute)
	defer tm.Stop()
	select {
	case a := <-done:
		time.Sleep(lat(2))
		if lost != "" { // it breaks before the answer arrives
			return nil, errReset
		}
		return a.b, a.err
	case <-gone:
		return nil, errReset
	case <-tm.C:
		return nil, errClientTimeout
	}
}
