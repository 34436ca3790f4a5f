package main

import (
	"fmt"
	"math"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/ldsec/unlynx/data"
	"github.com/ldsec/unlynx/lib"
	"github.com/ldsec/unlynx/lib/shuffle"
	"github.com/ldsec/unlynx/zzsimrt"
	"go.dedis.ch/kyber/v3"
)

// The file scenario: the two files a server uses (the precomputed blinding and
// the data file), on a simulated file system with faults and crashes of the
// processes.

type filesParams struct {
	Dirs  int
	Procs []int // the working directory of every process
	Keys  int
	Ops   []fileOp
	Down  int64 // microseconds a crashed process stays down
}

type fileOp struct {
	Kind string // pre, read, wdata, rdata
	Proc int
	AtUS int64
	Key  int
	Line int
	Data uint64 // seed of the data set
}

// fsim injects the file faults of a plan and crashes processes.
type fsim struct {
	r      *run
	mu     sync.Mutex
	faults []Fault
	nops   map[int]int64 // operations by process
	reads  map[int]int64 // of which reads
	inc    []int         // current incarnation of every process; -1: down
	proc   map[int]int   // incarnation -> process
	next   int
	hit    map[int]int // faults that hit an incarnation
	down   time.Duration
	off    bool
	plain  bool // paths of one process without a prefix
}

func newFsim(r *run, procs int, down int64) *fsim {
	f := &fsim{r: r, faults: append([]Fault{}, r.plan.Faults...), nops: map[int]int64{}, reads: map[int]int64{}, proc: map[int]int{}, hit: map[int]int{}, down: time.Duration(down) * time.Microsecond}
	for p := 0; p < procs; p++ {
		f.inc = append(f.inc, 0)
		f.start(p)
	}
	zzsimrt.FSHook = f.hook
	return f
}

func (f *fsim) start(p int) {
	f.next++
	f.inc[p] = f.next
	f.proc[f.next] = p
}

func (f *fsim) fire(kind string) {
	f.r.mu.Lock()
	f.r.res.Fired[kind]++
	f.r.mu.Unlock()
}

// current returns the incarnation of a process, 0 when it is down.
func (f *fsim) current(p int) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.inc[p]
}

func (f *fsim) path(dir, inc int, name string) string {
	return fmt.Sprintf("d%d#%d/%s", dir, inc, name)
}

func (f *fsim) hook(op, path string, n int) zzsimrt.FSFault {
	var dir, inc int
	if k, _ := fmt.Sscanf(path, "d%d#%d/", &dir, &inc); k != 2 {
		if !f.plain {
			return zzsimrt.FSFault{}
		}
		inc = f.inc[0]
	}
	f.mu.Lock()
	p := f.proc[inc]
	if f.inc[p] != inc {
		f.mu.Unlock()
		select {} // this process is no more
	}
	if f.off {
		f.mu.Unlock()
		return zzsimrt.FSFault{}
	}
	f.nops[p]++
	if op == "read" {
		f.reads[p]++
	}
	var out zzsimrt.FSFault
	for i, ft := range f.faults {
		short := ft.Kind == "fs-short-read" && op == "read" && f.nops[p] >= ft.AtMsg && f.nops[p] < ft.AtMsg+40
		at := ft.AtMsg == f.nops[p]
		if ft.Kind == "fs-read" {
			at = op == "read" && f.reads[p] >= ft.AtMsg && f.reads[p] < ft.AtMsg+6
		}
		if ft.A != p || !at && !short {
			continue
		}
		if ft.Kind != "fs-crash" && ft.Kind != "fs-crash-torn" && ft.Kind != "fs-power" && ft.Kind != "fs-read" && ft.Kind != "fs-short-read" {
			f.hit[inc]++
		}
		switch ft.Kind {
		case "fs-power":
			// all processes die, and what was not synced may be lost
			q := &prng{uint64(ft.B)<<20 + uint64(ft.AtMsg)}
			if zzsimrt.FSPower(q.n) > 0 {
				f.fire("unsynced writes lost")
			}
			f.fire("power failure")
			for p := range f.inc {
				f.inc[p] = 0
			}
			f.mu.Unlock()
			go func() {
				time.Sleep(f.down)
				f.mu.Lock()
				for p := range f.inc {
					if f.inc[p] == 0 {
						f.start(p)
					}
				}
				f.mu.Unlock()
				f.fire("process restart")
			}()
			select {}
		case "fs-crash", "fs-crash-torn":
			f.inc[p] = 0
			f.fire("process crash")
			f.mu.Unlock()
			go func() {
				time.Sleep(f.down)
				f.mu.Lock()
				if f.inc[p] == 0 {
					f.start(p)
				}
				f.mu.Unlock()
				f.fire("process restart")
			}()
			if op == "write" && ft.Kind == "fs-crash-torn" {
				// the write is cut: the rest of it never happens
				return zzsimrt.FSFault{Err: errCrash, Short: ft.B}
			}
			select {}
		case "fs-full":
			if op == "write" || op == "open" || op == "sync" || op == "close" {
				out = zzsimrt.FSFault{Err: syscall.ENOSPC, Short: ft.B}
				// the disk stays full for a while
				if ft.DurUS > 0 {
					f.faults[i].AtMsg++
					f.faults[i].DurUS--
				}
				f.fire("disk full")
			}
		case "fs-read":
			// the disk cannot be read from a position on
			if n < ft.B {
				if out.Err == nil && (out.Read == 0 || out.Read > ft.B-n) {
					out.Read = ft.B - n
				}
			} else {
				out = zzsimrt.FSFault{Err: syscall.EIO}
				f.hit[inc]++
				f.fire("read error")
			}
		case "fs-io":
			out = zzsimrt.FSFault{Err: syscall.EIO, Short: ft.B}
			f.fire("I/O error")
		case "fs-nofile":
			if op == "open" {
				out = zzsimrt.FSFault{Err: syscall.EMFILE}
				f.fire("too many open files")
			}
		case "fs-short-read":
			if short && out.Err == nil && (out.Read == 0 || out.Read > 1+ft.B) {
				out = zzsimrt.FSFault{Read: 1 + ft.B}
				f.fire("short read")
			}
		}
	}
	f.mu.Unlock()
	return out
}

var errCrash = syscall.Errno(0xdead)

func (f *fsim) quiet() {
	f.mu.Lock()
	f.off = true
	f.mu.Unlock()
}

// earlyRead: files take a few reads only.
func earlyRead(faults []Fault) {
	if f := &faults[len(faults)-1]; f.Kind == "fs-read" {
		f.AtMsg = 1 + f.AtMsg%8
	}
}

// dataSet draws a data set.
func dataSet(seed uint64) map[string][]libunlynx.DpClearResponse {
	p := &prng{seed}
	out := map[string][]libunlynx.DpClearResponse{}
	vals := func(n int) []int64 {
		x := make([]int64, n)
		for i := range x {
			switch p.n(12) {
			case 0:
				x[i] = -int64(p.n(1000))
			case 1:
				x[i] = math.MaxInt64 - int64(p.n(3))
			case 2:
				x[i] = math.MinInt64 + int64(p.n(3))
			default:
				x[i] = int64(p.n(30))
			}
		}
		return x
	}
	fill := func(prefix string) (map[string]int64, map[string]int64) {
		c, e := map[string]int64{}, map[string]int64{}
		nc, ne := p.n(3), p.n(3)
		if p.chance(1, 20) {
			ne = 12
		}
		for i, v := range vals(nc) {
			c[fmt.Sprint(prefix, i)] = v
		}
		for i, v := range vals(ne) {
			e[fmt.Sprint(prefix, nc+i)] = v
		}
		return c, e
	}
	ids := p.between(1, 4)
	for i := 0; i < ids; i++ {
		var l []libunlynx.DpClearResponse
		for j := p.n(5); j > 0; j-- {
			d := libunlynx.DpClearResponse{}
			d.GroupByClear, d.GroupByEnc = fill("g")
			d.WhereClear, d.WhereEnc = fill("w")
			d.AggregatingAttributesClear, d.AggregatingAttributesEnc = fill("s")
			l = append(l, d)
		}
		out[fmt.Sprint(i)] = l
	}
	return out
}

type fileWrite struct {
	text       string
	start, end int64 // end: 0 while it runs
	failed     bool
}

func runFiles(r *run) {
	var p filesParams
	r.params(&p)
	fs := newFsim(r, len(p.Procs), p.Down)
	keys := make([]kyber.Point, p.Keys)
	for i := range keys {
		_, keys[i] = libunlynx.GenKey()
	}
	writes := make([][]*fileWrite, p.Dirs)
	var mu sync.Mutex
	var wg sync.WaitGroup

	// checkLines checks precomputed blinding against a key, or any of the keys.
	checkLines := func(what string, lines []libunlynxshuffle.CipherVectorScalar, want []kyber.Point, size int) {
		if len(lines) == 0 {
			r.violate("no-blinding", "%s: no line", what)
			return
		}
		for i, l := range lines {
			if len(l.S) != len(l.CipherV) || len(l.S) < size {
				r.violate("short-blinding", "%s: line %d has %d values and %d points, the rows of the query have up to %d values", what, i, len(l.S), len(l.CipherV), size)
				return
			}
			for j := range l.S {
				if j > 1 && i > 0 && j != size-1 {
					continue
				}
				if !l.CipherV[j].K.Equal(libunlynx.SuiTe.Point().Mul(l.S[j], nil)) {
					r.violate("bad-blinding", "%s: line %d value %d: the two parts do not belong together", what, i, j)
					return
				}
				ok := false
				for _, k := range want {
					if l.CipherV[j].C.Equal(libunlynx.SuiTe.Point().Mul(l.S[j], k)) {
						ok = true
						break
					}
				}
				if !ok {
					r.violate("wrong-key-blinding", "%s: line %d value %d is not an encryption of zero under the key of the survey", what, i, j)
					return
				}
			}
		}
	}

	do := func(i int, o fileOp, final bool) {
		dir := p.Procs[o.Proc]
		inc := fs.current(o.Proc)
		if inc == 0 {
			r.note("skipped-down", 1)
			return
		}
		what := fmt.Sprintf("operation %d (%s, process %d, directory %d)", i, o.Kind, o.Proc, dir)
		fs.mu.Lock()
		before := fs.hit[inc]
		fs.mu.Unlock()
		faulted := func() bool {
			fs.mu.Lock()
			defer fs.mu.Unlock()
			return fs.hit[inc] > before
		}
		dead := func() bool { return fs.current(o.Proc) != inc }
		done := make(chan bool, 1)
		go func() {
			defer func() {
				if e := recover(); e != nil && !dead() {
					r.violate("panic", "%s: %v", what, e)
				}
				done <- true
			}()
			switch o.Kind {
			case "pre":
				secret := libunlynx.SuiTe.Scalar().Pick(libunlynx.SuiTe.RandomStream())
				lines, err := libunlynxshuffle.PrecomputationWritingForShuffling(true, fs.path(dir, inc, "pre.gob"), "s", secret, keys[o.Key], o.Line)
				if dead() {
					return
				}
				if err != nil {
					if !faulted() {
						r.violate("creation-fails", "%s: no disk fault, yet: %v", what, err)
					}
					r.note("refused", 1)
					return
				}
				checkLines(what, lines, keys[o.Key:o.Key+1], o.Line)
				r.note("checked", 1)
			case "read":
				lines, err := libunlynxshuffle.ReadPrecomputedFile(fs.path(dir, inc, "pre.gob"))
				if dead() {
					return
				}
				if err != nil {
					if !faulted() {
						r.violate("torn-blinding", "%s: no disk fault, yet: %v", what, err)
					}
					return
				}
				if lines != nil {
					checkLines(what, lines, keys, 1)
				}
				r.note("checked", 1)
			case "wdata":
				ds := dataSet(o.Data)
				w := &fileWrite{text: fmt.Sprint(ds), start: now()}
				mu.Lock()
				writes[dir] = append(writes[dir], w)
				mu.Unlock()
				err := dataunlynx.WriteDataToFile(fs.path(dir, inc, "data.txt"), ds)
				if dead() {
					return
				}
				mu.Lock()
				w.end = now()
				w.failed = err != nil
				mu.Unlock()
				if err != nil && !faulted() {
					r.violate("write-fails", "%s: no disk fault, yet: %v", what, err)
				}
			case "rdata":
				start := now()
				got, err := dataunlynx.ReadDataFromFile(fs.path(dir, inc, "data.txt"))
				if dead() {
					return
				}
				mu.Lock()
				defer mu.Unlock()
				if err != nil {
					complete := false
					for _, w := range writes[dir] {
						if w.end != 0 && !w.failed && w.end < start {
							complete = true
						}
					}
					if complete && !faulted() {
						r.violate("read-fails", "%s: no disk fault, a data set was written, yet: %v", what, err)
					}
					return
				}
				text := fmt.Sprint(got)
				var stale, ok bool
				for _, w := range writes[dir] {
					if w.text != text {
						continue
					}
					over := false
					for _, v := range writes[dir] {
						// a later write that was complete before the read began
						if v != w && !v.failed && v.end != 0 && v.end < start && w.end != 0 && w.end < v.start {
							over = true
						}
					}
					if over {
						stale = true
					} else {
						ok = true
					}
				}
				r.note("checked", 1)
				if !ok {
					kind := "torn-data"
					if stale {
						kind = "stale-data"
					}
					if len(text) > 500 {
						text = text[:500] + "..."
					}
					r.violate(kind, "%s returned no data set that was (or was being) stored: %s", what, text)
				}
			}
		}()
		for {
			select {
			case <-done:
				return
			case <-after(time.Second):
				if dead() {
					return
				}
			}
		}
	}
	for i, o := range p.Ops {
		wg.Add(1)
		go func(i int, o fileOp) {
			defer wg.Done()
			time.Sleep(time.Duration(o.AtUS) * time.Microsecond)
			do(i, o, false)
		}(i, o)
	}
	wg.Wait()
	// no more faults, every process up: everything has to work
	time.Sleep(fs.down + time.Second)
	fs.quiet()
	for i, o := range p.Ops {
		o.Kind = "pre"
		if i < 3 || i == len(p.Ops)-1 {
			do(1000+i, o, true)
		}
	}
	for d := 0; d < p.Dirs; d++ {
		for i, pr := range p.Procs {
			if pr == d {
				o := fileOp{Kind: "wdata", Proc: i, Data: mix(r.plan.Seed, uint64(i))}
				do(2000+i, o, true)
				time.Sleep(time.Millisecond)
				o.Kind = "rdata"
				do(3000+i, o, true)
				o.Kind = "read"
				do(4000+i, o, true)
			}
		}
	}
	left := 0
	for _, n := range zzsimrt.FSList() {
		if !strings.HasSuffix(n, "/pre.gob") && !strings.HasSuffix(n, "/data.txt") {
			left++
		}
	}
	r.note("temporary files left by crashes", int64(left))
}

func init() {
	scenarios["files"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			fp := filesParams{Dirs: p.between(1, 2), Keys: p.between(1, 3), Down: int64(p.pick(10, 5000, 200000))}
			n := p.between(1, 4)
			for i := 0; i < n; i++ {
				fp.Procs = append(fp.Procs, p.n(fp.Dirs))
			}
			span := p.pick(1, 5000, 100000, 2000000)
			for i := p.between(3, 12); i > 0; i-- {
				o := fileOp{Proc: p.n(n), AtUS: int64(p.n(span)), Kind: p.pickS("pre", "pre", "pre", "read", "wdata", "rdata", "rdata"), Key: p.n(fp.Keys), Line: p.between(1, 6), Data: p.next()}
				fp.Ops = append(fp.Ops, o)
			}
			if p.chance(3, 4) {
				for k := p.between(1, 4); k > 0; k-- {
					plan.Faults = append(plan.Faults, Fault{Kind: p.pickS("fs-crash", "fs-crash-torn", "fs-power", "fs-full", "fs-io", "fs-read", "fs-nofile", "fs-short-read"), A: p.n(n), AtMsg: int64(p.between(1, p.pick(6, 20, 60))),
						B: p.pick(0, 1, p.n(200), p.n(4000)), DurUS: int64(p.pick(0, 0, 5, 100))})
					earlyRead(plan.Faults)
				}
			}
			return fp
		},
		run: runFiles,
	}
}

// ---- surveys over the data files of the servers --------------------------------

type appParams struct {
	Servers int
	Text    string // the data file
	Surveys []surveySpec
	After   surveySpec // asked once the disk works again
}

func runApp(r *run) {
	var p appParams
	r.params(&p)
	r.cluster(p.Servers)
	fs := newFsim(r, 1, 1)
	fs.plain = true
	zzsimrt.FSPut("unlynx_test_data.txt", []byte(p.Text))
	var wg sync.WaitGroup
	for i := range p.Surveys {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			sr := r.survey(&p.Surveys[i], fmt.Sprint(i))
			if len(r.plan.Faults) == 0 {
				sr.play()
				return
			}
			// a failing disk: refusing is fine, a wrong answer is not
			time.Sleep(time.Duration(sr.spec.StartUS) * time.Microsecond)
			if err := sr.create(); err != nil {
				r.note("refused", 1)
				return
			}
			got, err := sr.results()
			if err != nil {
				r.note("unanswered", 1)
				return
			}
			if d := diffAnswer(got, sr.spec.expect()); d != "" {
				r.violate("wrong-answer", "survey %s: %s", sr.name, d)
			}
			r.note("checked", 1)
		}(i)
	}
	wg.Wait()
	fs.quiet()
	r.survey(&p.After, "after").play()
}

func init() {
	scenarios["app"] = &scenario{
		gen: func(p *prng, plan *Plan, tier string) interface{} {
			n := p.between(1, 4)
			ap := appParams{Servers: n}
			text, query := genDataFile(p, n)
			ap.Text = text
			gap := p.pick(0, 0, 50000, 400000, 3000000)
			for k := p.between(1, 4); k > 0; k-- {
				s := query()
				s.StartUS = int64(len(ap.Surveys)) * int64(gap)
				ap.Surveys = append(ap.Surveys, s)
			}
			ap.After = query()
			if p.chance(1, 3) {
				for k := p.between(1, 3); k > 0; k-- {
					plan.Faults = append(plan.Faults, Fault{Kind: p.pickS("fs-full", "fs-io", "fs-nofile", "fs-read"), AtMsg: int64(p.between(1, p.pick(10, 60, 200))), B: p.pick(0, p.n(3000)), DurUS: int64(p.pick(0, 5, 100))})
					earlyRead(plan.Faults)
				}
			}
			return ap
		},
		run: runApp, horizon: 6 * time.Hour,
	}
}

// genDataFile draws a data file of n servers, and what draws queries on it.
func genDataFile(p *prng, n int) (text string, query func() surveySpec) {
	// the data file: attributes in the clear first, then the encrypted ones
	var attrs [3][2]int // group, where, sum
	for i := range attrs {
		attrs[i] = [2]int{p.n(3), p.n(3)}
	}
	if attrs[2][0]+attrs[2][1] == 0 {
		attrs[2][1] = p.between(1, 4)
	}
	ids := n
	if p.chance(1, 8) {
		ids = p.n(n) + 1
	}
	rows := make([][]respSpec, n)
	file := func(vals []int64, at [2]int) string {
		t := ""
		for i, v := range vals {
			if i == at[0] {
				t += "\n"
			}
			t += fmt.Sprintf("%d ", v)
		}
		if len(vals) == at[0] {
			t += "\n"
		}
		return t + "\n"
	}
	below, gbelow := 0, 0
	if p.chance(1, 5) {
		below, gbelow = p.n(60), p.n(3)
	}
	var order []int
	for _, i := range p.perm(n) {
		if i < ids {
			order = append(order, i)
		}
	}
	for _, i := range order {
		text += fmt.Sprintf("#%d\n", i)
		for k := p.between(0, 4); k > 0; k-- {
			r := respSpec{Group: []int64{}, Where: []int64{}, Sum: []int64{}}
			for j := 0; j < attrs[0][0]+attrs[0][1]; j++ {
				r.Group = append(r.Group, int64(p.n(3)-gbelow))
			}
			for j := 0; j < attrs[1][0]+attrs[1][1]; j++ {
				r.Where = append(r.Where, int64(p.n(2)))
			}
			for j := 0; j < attrs[2][0]+attrs[2][1]; j++ {
				r.Sum = append(r.Sum, int64(p.n(60)-below))
			}
			rows[i] = append(rows[i], r)
			text += file(r.Group, attrs[0]) + file(r.Where, attrs[1]) + file(r.Sum, attrs[2])
		}
	}
	// queries over some of the attributes
	query = func() surveySpec {
		s := genSurvey(p, n, "small")
		s.App = true
		s.Proofs = p.chance(1, 10)
		s.NGroup, s.NWhere, s.NSum = p.n(len0(attrs[0])+1), p.n(len0(attrs[1])+1), p.between(1, len0(attrs[2]))
		s.WhereVal, s.Pred, s.DPs = nil, nil, nil
		for i := 0; i < s.NWhere; i++ {
			s.WhereVal = append(s.WhereVal, int64(p.n(2)))
		}
		if s.NWhere > 0 && !p.chance(1, 6) {
			for c := p.between(1, 2); c > 0; c-- {
				var conj []term
				for _, w := range p.perm(s.NWhere)[:p.between(1, s.NWhere)] {
					conj = append(conj, term{W: w, Neg: p.chance(1, 3)})
				}
				s.Pred = append(s.Pred, conj)
			}
		}
		s.GOrd, s.WOrd, s.SOrd = nil, nil, nil
		s.shuffleNames(p, len0(attrs[0]), len0(attrs[1]), len0(attrs[2]))
		if len(s.WOrd) > 1 && p.chance(1, 3) {
			s.WOrd[1] = s.WOrd[0] // two conditions on one attribute
		}
		named := func(vals []int64, n int, ord []int) []int64 {
			if ord == nil {
				return vals[:n]
			}
			x := []int64{}
			for _, i := range ord {
				x = append(x, vals[i])
			}
			return x
		}
		for i := range s.Members {
			d := dpSpec{Server: i}
			for _, r := range rows[i] {
				d.Resps = append(d.Resps, respSpec{Group: named(r.Group, s.NGroup, s.GOrd), Where: named(r.Where, s.NWhere, s.WOrd), Sum: named(r.Sum, s.NSum, s.SOrd)})
			}
			s.DPs = append(s.DPs, d)
		}
		return s
	}
	return
}

func len0(a [2]int) int { return a[0] + a[1] }
