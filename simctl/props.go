package main

import (
	"bytes"
	"io"
	"sort"
)

func bytesReader(b []byte) io.Reader { return bytes.NewReader(b) }

func keys(m map[string]interface{}) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var realAll = []string{"lib", "protocols", "services", "onet overlay, service manager, processors and router", "network message encoding", "kyber Ed25519"}
var stubAll = []string{"TCP/TLS sockets", "HTTP/websocket framing", "wall clock and timers (simulated)", "goroutine scheduler choice (seeded)", "system randomness (seeded)"}

var realLib = []string{"lib", "lib/key_switch", "lib/deterministic_tag", "lib/shuffle", "lib/tools", "protocols (conversions)", "data", "kyber Ed25519"}
var stubLib = []string{"wall clock and timers (simulated)", "goroutine scheduler choice (seeded)", "system randomness (seeded)"}

var properties = map[string]*property{}

func prop(p property) {
	if p.real == nil {
		p.real = realAll
	}
	if p.stubs == nil {
		p.stubs = stubAll
	}
	properties[p.id] = &p
}

func init() {
	prop(property{id: "C01", mixes: []mix{{"survey", 1}}, quickRuns: 750})
	prop(property{id: "C02", mixes: []mix{{"multi", 1}}, quickRuns: 420})
	prop(property{id: "C03", mixes: []mix{{"uploads", 3}, {"unannounced", 2}}, quickRuns: 1500})
	prop(property{id: "C04", mixes: []mix{{"faults", 1}}, quickRuns: 2000})
	prop(property{id: "C05", mixes: []mix{{"recovery", 1}}, quickRuns: 600})
	prop(property{id: "C06", mixes: []mix{{"confidential", 1}}, quickRuns: 210, kinds: "leak-.*"})
	prop(property{id: "C07", mixes: []mix{{"shuffle", 1}}, quickRuns: 1200})
	prop(property{id: "C08", mixes: []mix{{"ddt", 1}}, quickRuns: 2000})
	prop(property{id: "C09", mixes: []mix{{"aggr", 1}}, quickRuns: 2800})
	prop(property{id: "C10", mixes: []mix{{"keyswitch", 1}}, quickRuns: 2200})
	prop(property{id: "C11", mixes: []mix{{"shuffleddt", 1}}, quickRuns: 1000})
	prop(property{id: "C12", mixes: []mix{{"addrm", 3}, {"addrmproofs", 1}}, quickRuns: 2400})
	prop(property{id: "C13", mixes: []mix{{"proofs", 8}, {"madeproofs", 1}}, quickRuns: 1200})
	prop(property{id: "C14", mixes: []mix{{"local", 1}}, quickRuns: 1500})
	prop(property{id: "C15", mixes: []mix{{"decrypt", 1}}, quickRuns: 1100})
	prop(property{id: "C16", mixes: []mix{{"files", 1}}, quickRuns: 1500, real: []string{"lib/shuffle (precomputation)", "lib/tools (gob files)", "data (data file)", "kyber Ed25519"}, stubs: []string{"file system (in memory, with faults)", "processes (goroutines that stop at a crash)", "wall clock and timers (simulated)", "goroutine scheduler choice (seeded)", "system randomness (seeded)"}})
	prop(property{id: "C17", mixes: []mix{{"app", 1}}, quickRuns: 850})
	prop(property{id: "C18", mixes: []mix{{"cli", 1}}, quickRuns: 1200, real: append([]string{"cmd/unlynx (as a package; its exit ends a goroutine)", "data"}, realAll...), stubs: append([]string{"file system (in memory, with faults)"}, stubAll...)})
	prop(property{id: "C19", mixes: []mix{{"creation", 1}}, quickRuns: 1100})
	prop(property{id: "C20", mixes: []mix{{"wait", 1}}, quickRuns: 1300})
	prop(property{id: "C21", mixes: []mix{{"badrequests", 1}}, quickRuns: 800})
	prop(property{id: "C23", mixes: []mix{{"vectors", 1}}, quickRuns: 2300, real: realLib, stubs: stubLib})
	prop(property{id: "C24", mixes: []mix{{"testdata", 1}}, quickRuns: 4000, real: []string{"data", "lib/store (AddInClear)", "lib/tools"}, stubs: stubLib})
	prop(property{id: "C22", mixes: []mix{{"askers", 1}}, quickRuns: 1600})
	prop(property{id: "C26", mixes: []mix{{"obfuscated", 4}, {"noisystore", 1}}, quickRuns: 300})
}
