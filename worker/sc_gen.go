package main

import (
	"fmt"
	"sort"
	"sync"
	"time"

	dataunlynx "github.com/ldsec/unlynx/data"
	"github.com/ldsec/unlynx/lib"
)

// The generator of test data and the expected result that simulations and
// clients judge the system by, used by several callers at the same time.

type dataParams struct {
	Tasks []dataTask
}

type dataTask struct {
	StartUS            int64
	DPs, Entries, Kept int64
	GroupsC, GroupsE   int64
	WhereC, WhereE     int64
	AggrC, AggrE       int64
	Types              []int64
	Random             bool
	Repeat             int
	Clear              bool
	Order              uint64
	Change             int
	ShiftEntries       int64 // asks for other than all groups
	WrongTypes         bool
	Mixed              bool // where attributes of a row differ
	Twice              bool // another caller uses the same data
}

func genData(p *prng, plan *Plan, tier string) interface{} {
	dp := dataParams{}
	for k := p.between(1, 4); k > 0; k-- {
		t := dataTask{StartUS: int64(p.pick(0, 0, 20, 1000)), DPs: int64(p.between(1, 4)), GroupsC: int64(p.n(3)), GroupsE: int64(p.n(3)),
			WhereC: int64(p.n(3)), WhereE: int64(p.n(3)), AggrC: int64(p.n(4)), AggrE: int64(p.n(4)), Random: p.chance(1, 2),
			Repeat: p.pick(1, 1, 2, 3), Clear: p.chance(1, 2), Order: p.next() >> 12, Change: p.n(5)}
		if p.chance(1, 12) {
			t.AggrC = int64(p.between(98, 202))
		}
		product := int64(1)
		for j := int64(0); j < t.GroupsC+t.GroupsE; j++ {
			n := int64(p.between(1, 4))
			if p.chance(1, 15) {
				n = int64(p.between(9, 14))
			}
			t.Types = append(t.Types, n)
			product *= n
		}
		if k0 := len(dp.Tasks); k0 > 0 && !dp.Tasks[k0-1].WrongTypes && p.chance(1, 2) {
			// numbers that resemble those of another task
			t.Types = similarTypes(p, dp.Tasks[k0-1].Types)
			t.GroupsC = int64(p.n(len(t.Types) + 1))
			t.GroupsE = int64(len(t.Types)) - t.GroupsC
			product = 1
			for _, n := range t.Types {
				product *= n
			}
		}
		t.Entries = int64(p.between(0, 12))
		if !t.Random {
			t.Entries = product
			if p.chance(1, 10) {
				t.ShiftEntries = int64(p.pick(-1, 1))
				t.Entries += t.ShiftEntries
			}
		}
		t.Kept = int64(p.n(int(t.Entries) + 1))
		if p.chance(1, 4) {
			t.Kept = t.Entries
		}
		if p.chance(1, 15) {
			t.WrongTypes = true
			t.Types = append(t.Types, 2)
		}
		t.Mixed, t.Twice = p.chance(1, 3), p.chance(1, 3)
		dp.Tasks = append(dp.Tasks, t)
	}
	return dp
}

// similarTypes: the same numbers in another order, with the same product, or with the same digits.
func similarTypes(p *prng, l []int64) []int64 {
	out := []int64{}
	for _, i := range p.perm(len(l)) {
		out = append(out, l[i])
	}
	switch p.n(4) {
	case 0: // split digits
		x := []int64{}
		for _, n := range l {
			if n > 10 {
				x = append(x, n/10, n%10)
			} else {
				x = append(x, n)
			}
		}
		out = x
	case 1: // join digits
		if len(l) > 1 {
			if n := l[0]*10 + l[1]; l[0] > 0 && l[1] < 10 && n < 20 {
				out = append([]int64{n}, l[2:]...)
			}
		}
	case 2: // factors
		x := []int64{}
		for _, n := range out {
			if n > 3 && n%2 == 0 && len(out) < 4 {
				x = append(x, 2, n/2)
			} else {
				x = append(x, n)
			}
		}
		out = x
	}
	return out
}

func mapInts(m map[string]int64, name string, from, n int64) ([]int64, error) {
	if int64(len(m)) != n {
		return nil, fmt.Errorf("%d attributes of kind %s, expected %d", len(m), name, n)
	}
	var out []int64
	for k := from; k < from+n; k++ {
		v, ok := m[fmt.Sprintf("%s%d", name, k)]
		if !ok {
			return nil, fmt.Errorf("attribute %s%d is missing", name, k)
		}
		out = append(out, v)
	}
	return out, nil
}

// dataRow reads a row: groups, where, values.
func (t *dataTask) row(x libunlynx.DpClearResponse) (gr, wh, ag []int64, err error) {
	parts := []struct {
		m       map[string]int64
		name    string
		from, n int64
		to      *[]int64
	}{{x.GroupByClear, "g", 0, t.GroupsC, &gr}, {x.GroupByEnc, "g", t.GroupsC, t.GroupsE, &gr},
		{x.WhereClear, "w", 0, t.WhereC, &wh}, {x.WhereEnc, "w", t.WhereC, t.WhereE, &wh},
		{x.AggregatingAttributesClear, "s", 0, t.AggrC, &ag}, {x.AggregatingAttributesEnc, "s", t.AggrC, t.AggrE, &ag}}
	for _, q := range parts {
		v, e := mapInts(q.m, q.name, q.from, q.n)
		if e != nil {
			return nil, nil, nil, e
		}
		*q.to = append(*q.to, v...)
	}
	return
}

func runData(r *run) {
	var p dataParams
	r.params(&p)
	var wg sync.WaitGroup
	for i := range p.Tasks {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			t := &p.Tasks[i]
			time.Sleep(time.Duration(t.StartUS) * time.Microsecond)
			defer func() {
				if e := recover(); e != nil {
					r.violate("wrong-data", "task %d: panic: %v", i, e)
				}
			}()
			r.dataTask(i, t)
			r.note("checked", 1)
		}(i)
	}
	wg.Wait()
}

func (r *run) dataTask(i int, t *dataTask) {
	bad := func(format string, args ...interface{}) {
		r.violate("wrong-data", "task %d: %s", i, fmt.Sprintf(format, args...))
	}
	data, err := dataunlynx.GenerateData(t.DPs, t.Entries, t.Kept, t.GroupsC, t.GroupsE, t.WhereC, t.WhereE, t.AggrC, t.AggrE, t.Types, t.Random)
	if t.WrongTypes || t.ShiftEntries != 0 {
		if err == nil {
			bad("a number of groups or entries that does not fit is accepted")
		}
		return
	}
	if err != nil {
		bad("no data: %v", err)
		return
	}
	if int64(len(data)) != t.DPs {
		bad("data of %d providers, expected %d", len(data), t.DPs)
	}
	q := &prng{s: t.Order}
	want := map[string][]int64{} // group and where, as they are kept
	for d := int64(0); d < t.DPs; d++ {
		rows, ok := data[fmt.Sprint(d)]
		if !ok || int64(len(rows)) != t.Entries {
			bad("provider %d has %d rows, expected %d", d, len(rows), t.Entries)
			return
		}
		kept := int64(0)
		groups := map[string]bool{}
		for j, x := range rows {
			gr, wh, ag, err := t.row(x)
			if err != nil {
				bad("provider %d row %d: %v", d, j, err)
				return
			}
			for k, v := range gr {
				if v < 0 || v >= t.Types[k] {
					bad("provider %d row %d: group attribute %d is %d of %d", d, j, k, v, t.Types[k])
				}
			}
			groups[fmt.Sprint(gr)] = true
			keep := true
			for _, v := range wh {
				if v != wh[0] || v != 0 && v != 1 {
					bad("provider %d row %d: where attributes are %v", d, j, wh)
				}
				keep = v == 1
			}
			if keep {
				kept++
			}
			if t.Mixed {
				// conditions that hold for a part of the attributes only
				for _, m := range []map[string]int64{x.WhereClear, x.WhereEnc} {
					for _, k := range sorted(m) {
						m[k] = int64(q.pick(0, 1, 1, 1, 2, 10))
					}
				}
				_, wh, _, _ = t.row(x)
				keep = true
				for _, v := range wh {
					keep = keep && v != 0
				}
			}
			if keep {
				k := fmt.Sprint(gr, wh)
				if want[k] == nil {
					want[k] = make([]int64, len(ag))
				}
				for c, v := range ag {
					want[k][c] += v * int64(t.Repeat)
				}
			}
		}
		if t.WhereC+t.WhereE > 0 && kept != t.Kept {
			bad("provider %d: %d rows satisfy the conditions, expected %d", d, kept, t.Kept)
		}
		if !t.Random && int64(len(groups)) != t.Entries {
			bad("provider %d: %d of %d groups occur", d, len(groups), t.Entries)
		}
	}

	before := fmt.Sprint(data)
	if t.Twice {
		// somebody else does the same with the same data, and asks for the querier's view
		var wg sync.WaitGroup
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					bad("panic: %v", e)
				}
			}()
			dataunlynx.ComputeExpectedResult(data, 1+t.Repeat, true)
		}()
		if t.Change%2 == 0 {
			wg.Wait()
		}
		defer wg.Wait()
	}
	res := dataunlynx.ComputeExpectedResult(data, t.Repeat, false)
	if after := fmt.Sprint(data); after != before {
		bad("the expected result for %d repetitions changes the data", t.Repeat)
	}
	got := map[string][]int64{}
	for _, x := range res {
		gr, wh, ag, err := t.row(x)
		if err != nil {
			bad("expected result: %v", err)
			return
		}
		k := fmt.Sprint(gr, wh)
		if _, dup := got[k]; dup {
			bad("expected result: group %s appears twice", k)
		}
		got[k] = append([]int64{}, ag...)
	}
	if d := diffAnswer(got, want); d != "" {
		bad("expected result: %s", d)
		return
	}
	if t.Clear {
		// all attributes as the querier sees them
		cl := dataunlynx.ClearExpectedResult(res)
		u := *t
		u.GroupsC, u.GroupsE, u.AggrC, u.AggrE, u.WhereC, u.WhereE = t.GroupsC+t.GroupsE, 0, t.AggrC+t.AggrE, 0, 0, 0
		if len(cl) != len(res) {
			bad("%d groups are %d as the querier sees them", len(res), len(cl))
			return
		}
		for k := range cl {
			g1, _, a1, _ := t.row(res[k])
			g2, _, a2, err := u.row(cl[k])
			if err != nil || fmt.Sprint(g1, a1) != fmt.Sprint(g2, a2) {
				bad("group %v %v is %v %v as the querier sees it (%v)", g1, a1, g2, a2, err)
			}
		}
		res = cl
	}

	// the comparison that judges a result
	other := make([]libunlynx.DpClearResponse, len(res))
	for k, at := range q.perm(len(res)) {
		other[k] = copyRow(res[at])
	}
	if !dataunlynx.CompareClearResponses(res, other) {
		bad("%d groups differ from themselves in another order", len(res))
	}
	if len(other) == 0 {
		return
	}
	at := q.n(len(other))
	what := ""
	switch t.Change {
	case 0:
		other = append(other[:at], other[at+1:]...)
		what = "a missing group"
	case 1:
		x := copyRow(other[at])
		if x.GroupByClear == nil {
			x.GroupByClear = map[string]int64{}
		}
		x.GroupByClear["g99"] = 3
		other = append(other, x)
		what = "an additional group"
	case 2:
		for _, m := range []map[string]int64{other[at].AggregatingAttributesClear, other[at].AggregatingAttributesEnc} {
			for _, k := range sorted(m) {
				m[k]++
				what = "another sum"
				break
			}
		}
	case 3:
		for _, m := range []map[string]int64{other[at].GroupByClear, other[at].GroupByEnc} {
			for _, k := range sorted(m) {
				m[k] += 50
				what = "another group"
				break
			}
		}
	case 4:
		if len(other) > 1 && fmt.Sprint(other[at]) != fmt.Sprint(other[(at+1)%len(other)]) {
			other[at] = copyRow(other[(at+1)%len(other)])
			what = "a group instead of another"
		}
	}
	if what != "" && (dataunlynx.CompareClearResponses(res, other) || dataunlynx.CompareClearResponses(other, res)) {
		bad("%d groups and %d with %s are taken for the same", len(res), len(other), what)
	}
}

func sorted(m map[string]int64) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func copyRow(x libunlynx.DpClearResponse) libunlynx.DpClearResponse {
	cp := func(m map[string]int64) map[string]int64 {
		if m == nil {
			return nil
		}
		out := map[string]int64{}
		for k, v := range m {
			out[k] = v
		}
		return out
	}
	return libunlynx.DpClearResponse{WhereClear: cp(x.WhereClear), WhereEnc: cp(x.WhereEnc), GroupByClear: cp(x.GroupByClear),
		GroupByEnc: cp(x.GroupByEnc), AggregatingAttributesClear: cp(x.AggregatingAttributesClear), AggregatingAttributesEnc: cp(x.AggregatingAttributesEnc)}
}

func init() {
	scenarios["testdata"] = &scenario{gen: genData, run: runData}
}
