package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/ldsec/unlynx/cmd/unlynx"
	"github.com/ldsec/unlynx/zzsimrt"
	"go.dedis.ch/onet/v3/log"
)

// The command-line scenario: queriers that run the unlynx command, each in what
// stands for a process of its own, against servers over a data file.

type cliParams struct {
	Servers int
	Text    string // the data file
	Clients []cliClient
	After   cliClient // once the disk works again
}

type cliClient struct {
	File    string // its group file
	StartUS int64
	Args    []string
	Bad     string     `json:",omitempty"` // what is wrong with the arguments
	Spec    surveySpec // what the arguments ask for
}

// cliProc is one run of the command.
type cliProc struct {
	args  []string
	lines []string
	code  int // the exit code; -1 while it runs
}

type cliHost struct {
	mu    sync.Mutex
	procs map[int64]*cliProc // by goroutine
}

func goid() int64 {
	var buf [40]byte
	f := bytes.Fields(buf[:runtime.Stack(buf[:], false)])
	n, err := strconv.ParseInt(string(f[1]), 10, 64)
	must(err)
	return n
}

func (h *cliHost) proc() *cliProc {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.procs[goid()]
}

// Log takes what the command prints.
func (h *cliHost) Log(lvl int, msg string) {
	if p := h.proc(); p != nil {
		p.lines = append(p.lines, msg)
	}
}

// Close ends the logger.
func (h *cliHost) Close() {}

// GetLoggerInfo says what to log.
func (h *cliHost) GetLoggerInfo() *log.LoggerInfo {
	return &log.LoggerInfo{DebugLvl: 1, RawMessage: true}
}

func newCliHost() *cliHost {
	h := &cliHost{procs: map[int64]*cliProc{}}
	zzsimrt.Args = func() []string {
		if p := h.proc(); p != nil {
			return p.args
		}
		return os.Args
	}
	log.SimExit = func(code int) {
		p := h.proc()
		if p == nil {
			os.Exit(code)
		}
		p.code = code
		runtime.Goexit()
	}
	log.OutputToBuf()
	log.RegisterLogger(h)
	return h
}

// run runs the command. The error is a panic.
func (h *cliHost) run(args []string) (*cliProc, error) {
	p := &cliProc{args: args, code: -1}
	var failed error
	done := make(chan bool)
	go func() {
		id := goid()
		h.mu.Lock()
		h.procs[id] = p
		h.mu.Unlock()
		defer func() {
			if e := recover(); e != nil {
				failed = fmt.Errorf("%v", e)
				p.code = 2
			}
			if log.DebugVisible() < 1 {
				p.lines = nil // nothing of it was shown
			}
			h.mu.Lock()
			delete(h.procs, id)
			h.mu.Unlock()
			close(done)
		}()
		zzcmd.ZZMain()
		p.code = 0
	}()
	<-done
	return p, failed
}

var cliLine = regexp.MustCompile(`\[([-0-9 ]*)\]\s*->\s*\[([-0-9 ]*)\]`)

// answer is the answer that was printed.
func (p *cliProc) answer() (map[string][]int64, error) {
	out := map[string][]int64{}
	for _, l := range p.lines {
		m := cliLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		k := fmt.Sprint(strings.Fields(m[1]))
		if _, dup := out[k]; dup {
			return nil, fmt.Errorf("group %s is printed twice", k)
		}
		out[k] = []int64{}
		for _, f := range strings.Fields(m[2]) {
			v, err := strconv.ParseInt(f, 10, 64)
			if err != nil {
				return nil, err
			}
			out[k] = append(out[k], v)
		}
	}
	return out, nil
}

func runCli(r *run) {
	var p cliParams
	r.params(&p)
	r.cluster(p.Servers)
	fs := newFsim(r, 1, 1)
	fs.plain = true
	zzsimrt.FSPut("unlynx_test_data.txt", []byte(p.Text))
	// a group file for every client: the servers of its survey
	group := func(i int, c *cliClient) string {
		t := ""
		for k, m := range c.Spec.Members {
			b, err := r.net.nodes[m].si.Public.MarshalBinary()
			must(err)
			t += fmt.Sprintf("[[servers]]\n  Address = %q\n  Suite = \"Ed25519\"\n  Public = %q\n  Description = \"server %d\"\n", string(r.net.nodes[m].addr), hex.EncodeToString(b), k)
		}
		return t
	}
	for i := range p.Clients {
		zzsimrt.FSPut(p.Clients[i].File, []byte(group(i, &p.Clients[i])))
	}
	zzsimrt.FSPut(p.After.File, []byte(group(-1, &p.After)))
	zzsimrt.FSPut("garbage.toml", []byte("[[servers]]\n Address = 3\n"))
	zzsimrt.FSPut("empty.toml", []byte(""))
	h := newCliHost()
	one := func(name string, c *cliClient, faults bool) {
		time.Sleep(time.Duration(c.StartUS) * time.Microsecond)
		what := fmt.Sprintf("client %s (%s)", name, strings.Join(c.Args, " "))
		pr, err := h.run(c.Args)
		if err != nil {
			r.violate("cli-panic", "%s: %v", what, err)
			return
		}
		got, err := pr.answer()
		if err != nil {
			r.violate("cli-output", "%s: %v", what, err)
			return
		}
		if pr.code != 0 {
			if c.Bad == "" && !faults {
				r.violate("cli-refused", "%s: exit code %d although the arguments are right and nothing fails: %s", what, pr.code, strings.Join(pr.lines, " | "))
			} else if len(got) > 0 {
				r.violate("cli-output", "%s: an answer is printed, yet exit code %d", what, pr.code)
			}
			r.note("refused", 1)
			return
		}
		if c.Bad != "" {
			r.violate("cli-accepted", "%s: exit code 0 although %s", what, c.Bad)
			return
		}
		if d := diffAnswer(got, c.Spec.expect()); d != "" {
			r.violate("cli-answer", "%s: %s", what, d)
		}
		r.note("checked", 1)
		if len(got) > 0 {
			r.note("nonempty", 1)
		}
	}
	var wg sync.WaitGroup
	for i := range p.Clients {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			one(fmt.Sprint(i), &p.Clients[i], len(r.plan.Faults) > 0)
		}(i)
	}
	wg.Wait()
	fs.quiet()
	one("after", &p.After, false)
}

// cliArgs are the arguments that ask for a survey.
func cliArgs(p *prng, file string, s *surveySpec, bad string) []string {
	sep := p.pickS(", ", ",", ",  ")
	list := func(x []string) string { return "{" + strings.Join(x, sep) + "}" }
	flag := func(v string, names ...string) []string {
		n := p.pickS(names...)
		if p.chance(1, 4) {
			return []string{n + "=" + v}
		}
		return []string{n, v}
	}
	sums := list(s.sums())
	switch bad {
	case "there is nothing to sum":
		sums = p.pickS("", "{}", "{g0}", "{1}")
	case "the sum is not a list":
		sums = strings.Trim(sums, "{}")
	case "the count is not in the sum":
		s.Count = false
		sums = list(s.sums())
		s.Count = true
	}
	parts := [][]string{flag(file, "-f", "--file", "-file"), flag(sums, "-s", "--sum")}
	if bad == "there is no group file" {
		parts[0] = flag(p.pickS("nofile.toml", "garbage.toml", "empty.toml"), "-f", "--file")
	}
	var where []string
	for i := 0; i < s.NWhere; i++ {
		where = append(where, s.attr("w", i), fmt.Sprint(s.WhereVal[i]))
	}
	w, pred := list(where), s.predicate()
	switch bad {
	case "a condition has no value":
		w = p.pickS("{w0}", "{w0, }", "{w0, 1, w1}", "{w0, x}", "{1, w0}")
	case "the conditions are not a list":
		w = strings.Trim(w, "{}")
	case "there is no predicate":
		pred = ""
	case "there are no conditions":
		w = ""
		pred = "v0 == v1"
	}
	if len(where) > 0 || strings.Contains(bad, "condition") {
		if w != "" || p.chance(1, 2) {
			parts = append(parts, flag(w, "-w", "--where"))
		}
		if pred != "" || p.chance(1, 2) {
			parts = append(parts, flag(pred, "-p", "--predicate"))
		}
	} else if p.chance(1, 3) {
		parts = append(parts, flag("", "-w", "--where"), flag("", "-p", "--predicate"))
	}
	var groups []string
	for i := 0; i < s.NGroup; i++ {
		groups = append(groups, s.attr("g", i))
	}
	switch {
	case bad == "the groups are not right":
		parts = append(parts, flag(p.pickS("{s0}", "g0", "{g}", "{}", "{1}"), "-g", "--groupBy"))
	case len(groups) > 0:
		parts = append(parts, flag(list(groups), "-g", "--groupBy"))
	case p.chance(1, 3):
		parts = append(parts, flag("", "-g", "--groupBy"))
	}
	if s.Count {
		parts = append(parts, []string{p.pickS("-c", "--count", "--count=true")})
	} else if p.chance(1, 6) {
		parts = append(parts, []string{"--count=false"})
	}
	if s.Proofs {
		parts = append(parts, []string{"--proofs"})
	}
	args := append([]string{"unlynx"}, flag("1", "-d", "--debug")...)
	args = append(args, p.pickS("run", "r"))
	for _, i := range p.perm(len(parts)) {
		args = append(args, parts[i]...)
	}
	return args
}

func init() {
	scenarios["cli"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			n := p.between(1, 3)
			cp := cliParams{Servers: n}
			text, query := genDataFile(p, n)
			cp.Text = text
			gap := p.pick(0, 0, 50000, 400000, 3000000)
			client := func(file, bad string) cliClient {
				s := query()
				s.Root, s.Ask = 0, 0 // it is the first server that the command asks
				if s.NWhere > 0 && s.Pred == nil {
					s.Pred = [][]term{{{W: 0}}}
				}
				switch bad {
				case "there is no predicate", "the conditions are not a list":
					if s.NWhere == 0 {
						bad = "there are no conditions"
					}
				case "the count is not in the sum":
					s.Count = true
				}
				return cliClient{File: file, Args: cliArgs(p, file, &s, bad), Bad: bad, Spec: s}
			}
			for i := p.between(1, 4); i > 0; i-- {
				bad := ""
				if p.chance(1, 4) {
					bad = p.pickS("there is nothing to sum", "the sum is not a list", "the count is not in the sum", "there is no group file", "a condition has no value",
						"the conditions are not a list", "there is no predicate", "there are no conditions", "the groups are not right")
				}
				c := client(fmt.Sprintf("group%d.toml", len(cp.Clients)), bad)
				c.StartUS = int64(len(cp.Clients)) * int64(gap)
				cp.Clients = append(cp.Clients, c)
			}
			cp.After = client("group-after.toml", "")
			if p.chance(1, 4) {
				for k := p.between(1, 3); k > 0; k-- {
					plan.Faults = append(plan.Faults, Fault{Kind: p.pickS("fs-io", "fs-nofile", "fs-short-read", "fs-read"), AtMsg: int64(p.between(1, p.pick(5, 30, 100))), B: p.pick(0, p.n(300)), DurUS: int64(p.pick(0, 5, 100))})
					earlyRead(plan.Faults)
				}
			}
			return cp
		},
		run: runCli, horizon: 6 * time.Hour,
	}
}
