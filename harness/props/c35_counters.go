package props

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/corywalker/expreduce/expreduce/timecounter"

	"verif/harness/pbt"
)

type refCounter struct {
	time  map[string]float64
	count map[string]int64
}

func newRefGroup() []*refCounter {
	var g []*refCounter
	for i := 0; i < 4; i++ {
		g = append(g, &refCounter{map[string]float64{}, map[string]int64{}})
	}
	return g
}

// sections reads the four tables of a printed group: lines "total, count, key",
// each table followed by an empty line.
func sections(s string) ([][][3]string, bool) {
	var out [][][3]string
	cur := [][3]string{}
	for _, l := range strings.SplitAfter(s, "\n") {
		if l == "" {
			continue
		}
		l = strings.TrimSuffix(l, "\n")
		if l == "" {
			out = append(out, cur)
			cur = [][3]string{}
			continue
		}
		f := strings.SplitN(l, ", ", 3)
		if len(f) != 3 {
			return nil, false
		}
		cur = append(cur, [3]string{f[0], f[1], f[2]})
	}
	return out, len(cur) == 0 && len(out) == 4
}

func checkGroup(t *T, name string, text string, want []*refCounter) {
	sec, ok := sections(text)
	if !ok {
		t.Failf("%s is printed as %q", name, text)
	}
	for i, w := range want {
		seen := map[string]bool{}
		last := 0.0
		for j, l := range sec[i] {
			total, err1 := strconv.ParseFloat(l[0], 64)
			count, err2 := strconv.ParseInt(l[1], 10, 64)
			key := l[2]
			if err1 != nil || err2 != nil {
				t.Failf("%s, counter %d prints %q", name, i+1, l)
			}
			if wc, ok := w.count[key]; !ok || seen[key] {
				t.Failf("%s, counter %d lists %q, which was added %d times; listed before: %v", name, i+1, key, wc, seen[key])
			}
			seen[key] = true
			if total != w.time[key] || count != w.count[key] {
				t.Failf("%s, counter %d, key %q: total %v in %d additions; it should be %v in %d", name, i+1, key, total, count, w.time[key], w.count[key])
			}
			if j > 0 && total > last {
				t.Failf("%s, counter %d lists %v after %v", name, i+1, total, last)
			}
			last = total
		}
		n := len(w.count)
		if n > 25 {
			n = 25
		}
		if len(sec[i]) < n {
			t.Failf("%s, counter %d lists %d of %d keys", name, i+1, len(sec[i]), len(w.count))
		}
		for k, v := range w.time {
			if !seen[k] && v > last {
				t.Failf("%s, counter %d leaves out %q with %v and lists one with %v", name, i+1, k, v, last)
			}
		}
	}
}

func init() {
	keys := []string{"a", "b", "f[x]", "f[x, y]", "System`Plus", "", " ", "0.5, 1, a", "é"}
	for i := 0; i < 40; i++ {
		keys = append(keys, fmt.Sprint("key", i))
	}
	pbt.Register(&pbt.Prop{
		ID: "C35", Title: "time counters",
		Rule: "groups: additions to and merges of up to three counter groups, non-trivial when a key was added more than once or a non-empty group was merged; profiling: calls evaluated with and without profiling, non-trivial when evaluation changed the call",
		Facets: []pbt.Facet{
			{Name: "groups", Quick: 20000, Thorough: 400000, Batch: 1000, Run: func(t *T) {
				n := t.Int(1, 3)
				gs := make([]*timecounter.Group, n)
				ref := make([][]*refCounter, n)
				for i := range gs {
					gs[i] = &timecounter.Group{}
					gs[i].Init()
					ref[i] = newRefGroup()
				}
				many := t.P(1, 4)
				ops := t.Int(1, 14)
				if many {
					ops = t.Int(20, 120)
				}
				for ; ops > 0; ops-- {
					i := int(t.N(uint64(n)))
					switch t.W(8, 2, 1) {
					case 0:
						c := int(t.N(4))
						if many {
							c = int(t.N(2))
						}
						key := pbt.Pick(t, keys)
						// Multiples of 1/1024 add up exactly in any order.
						el := float64(t.N(4096)) / 1024
						t.Case("%d: AddTime(%d, %q, %v)", i, c+1, key, el)
						switch c {
						case 0:
							gs[i].AddTime(timecounter.CounterGroupDefTime, key, el)
						case 1:
							gs[i].AddTime(timecounter.CounterGroupLHSDefTime, key, el)
						case 2:
							gs[i].AddTime(timecounter.CounterGroupEvalTime, key, el)
						case 3:
							gs[i].AddTime(timecounter.CounterGroupHeadEvalTime, key, el)
						}
						r := ref[i][c]
						r.time[key] += el
						r.count[key]++
						t.NontrivialIf(r.count[key] > 1)
					case 1:
						j := int(t.N(uint64(n)))
						if j == i {
							continue
						}
						t.Case("%d: Update(%d)", i, j)
						gs[i].Update(gs[j])
						for c := range ref[i] {
							for k, v := range ref[j][c].time {
								ref[i][c].time[k] += v
								ref[i][c].count[k] += ref[j][c].count[k]
								t.Nontrivial()
							}
						}
					case 2:
						t.Case("%d: String", i)
						checkGroup(t, fmt.Sprint("group ", i), gs[i].String(), ref[i])
					}
				}
				for i := range gs {
					checkGroup(t, fmt.Sprint("group ", i), gs[i].String(), ref[i])
				}
			}},
			{Name: "profiling", Quick: 1500, Thorough: 30000, Batch: 100, Run: func(t *T) {
				es := t.ES()
				x := genCall(t, es, 1)
				if contains(x, impure) {
					t.Discard()
				}
				t.Case("%v", x)
				want := ev(es, x)
				es.SetProfiling(true)
				got := ev(es, x)
				es.SetProfiling(false)
				if !xeq(got, want) {
					t.Failf("gave %v, and %v with profiling", want, got)
				}
				t.NontrivialIf(!xeq(want, x))
				es.GetTimeCounter().Init()
			}},
		},
	})
}
