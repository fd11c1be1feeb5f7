package pbt

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

// Facet is one generated-input search belonging to a property.
type Facet struct {
	Name     string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Batch    int // cases sharing one interpreter (default 100)
	Fresh    bool
	Run      func(t *T)
}

// Prop is one property with the facets that decide it.
type Prop struct {
	ID     string
	Title  string
	Rule   string
	Facets []Facet
	// Known maps the ids used in known-findings.json to a replay of exactly
	// that finding's input; it fails (Failf) while the finding stands.
	Known map[string]func(t *T)
}

var registry = map[string]*Prop{}

// Register adds a property.
func Register(p *Prop) { registry[p.ID] = p }

// KnownFinding is an entry of known-findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	Status   string `json:"status"` // "known" or "fixed"
	Commit   string `json:"commit,omitempty"`
	Input    string `json:"input"`
	What     string `json:"what"`
}

var activeKnown = map[string]bool{}

// Finding discards a case that is an instance of a listed known finding.
func (t *T) Finding(key string, isInstance bool) {
	if isInstance && activeKnown[key] {
		t.Label("excluded:" + key)
		panic(discard{})
	}
}

// KnownActive tells whether the finding is listed (and so is excluded).
func KnownActive(key string) bool { return activeKnown[key] }

func loadKnown(path string) ([]KnownFinding, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var ks []KnownFinding
	if err := json.Unmarshal(b, &ks); err != nil {
		return nil, err
	}
	return ks, nil
}

type outcome struct {
	kind string // pass, fail, discard
	msg  string
}

func runCase(f *Facet, t *T) (o outcome) {
	defer func() {
		if r := recover(); r != nil {
			switch v := r.(type) {
			case failure:
				o = outcome{"fail", v.msg}
			case discard:
				o = outcome{"discard", ""}
			default:
				o = outcome{"fail", fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))}
			}
		}
	}()
	f.Run(t)
	return outcome{"pass", ""}
}

func trimStack(b []byte) string {
	ls := strings.Split(string(b), "\n")
	var out []string
	for i, l := range ls {
		if strings.Contains(l, "panic(") {
			out = out[:0]
			ls[i] = ""
			continue
		}
		out = append(out, l)
	}
	if len(out) > 24 {
		out = out[:24]
	}
	return strings.Join(out, "\n")
}

func newT(seed int64, p *Prop, f *Facet, idx int, thorough bool) *T {
	return &T{rng: seedFor(seed, p.ID, f.Name, idx), Index: idx, Thorough: thorough, env: &Env{}}
}

// Failure describes one violation.
type Failure struct {
	Property   string   `json:"property"`
	Facet      string   `json:"facet"`
	Tier       string   `json:"tier"`
	Seed       int64    `json:"seed"`
	Index      int      `json:"index"`
	BatchStart int      `json:"batch_start"`
	History    bool     `json:"history"` // needs the cases batch_start..index in one interpreter
	Died       bool     `json:"died"`    // the process died rather than giving a wrong answer
	Choices    []uint64 `json:"choices"`
	Message    string   `json:"message"`
	Case       string   `json:"case"`
	Original   string   `json:"original_case,omitempty"`
}

type facetResult struct {
	Evals    int            `json:"evals"`
	Discards int            `json:"discards"`
	Nontriv  []uint64       `json:"nontriv"`
	NontrivN int            `json:"nontriv_n"`
	Labels   map[string]int `json:"labels"`
	Samples  []string       `json:"samples"`
	MS       int64          `json:"ms"`
}

type workerResult struct {
	Facets   map[string]*facetResult `json:"facets"`
	Failures []Failure               `json:"failures"`
}

type cfg struct {
	prop, tier, knownFile, evidence, replays string
	seed                                     int64
	facets                                   string
	workers                                  int
}

func (c *cfg) thorough() bool { return c.tier == "thorough" }

func (f *Facet) cases(c *cfg) int {
	n := f.Quick
	if c.thorough() {
		n = f.Thorough
		if n == 0 {
			n = f.Quick * 10
		}
	}
	return n
}

func (f *Facet) batch() int {
	if f.Fresh {
		return 1
	}
	if f.Batch > 0 {
		return f.Batch
	}
	return 100
}

// progress of the current case, watched by the worker's monitor.
var curFacet, curIdx, curBatch, caseSerial atomic.Int64

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

const (
	exitMem  = 97
	exitHang = 98
)

func monitor(cpuLimit, wallLimit float64) {
	if v, err := strconv.ParseFloat(os.Getenv("PBT_HANG"), 64); err == nil { // for development
		cpuLimit = v
	}
	last := int64(-1)
	var cpu0 float64
	var t0 time.Time
	for {
		time.Sleep(200 * time.Millisecond)
		if s := caseSerial.Load(); s != last {
			last, cpu0, t0 = s, cpuSeconds(), time.Now()
		} else if cpuSeconds()-cpu0 > cpuLimit || time.Since(t0).Seconds() > wallLimit {
			buf := make([]byte, 1<<20)
			buf = buf[:runtime.Stack(buf, true)]
			if len(buf) > 3000 && os.Getenv("VERBOSE") == "" {
				buf = buf[:3000]
			}
			fmt.Fprintf(os.Stderr, "case gave no answer within %.0f s of CPU time / %.0f s\n%s\n", cpuLimit, wallLimit, buf)
			os.Exit(exitHang)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 3<<30 {
			fmt.Fprintln(os.Stderr, "case used more than 3 GB of memory")
			os.Exit(exitMem)
		}
	}
}

type journal struct{ f *os.File }

func (j *journal) put(facet, batchStart, idx int) {
	caseSerial.Add(1)
	if j == nil || j.f == nil {
		return
	}
	var b [24]byte
	binary.LittleEndian.PutUint64(b[0:], uint64(facet))
	binary.LittleEndian.PutUint64(b[8:], uint64(batchStart))
	binary.LittleEndian.PutUint64(b[16:], uint64(idx))
	j.f.WriteAt(b[:], 0)
}

func readJournal(path string) (int, int, int, bool) {
	b, err := os.ReadFile(path)
	if err != nil || len(b) < 24 {
		return 0, 0, 0, false
	}
	return int(binary.LittleEndian.Uint64(b[0:])), int(binary.LittleEndian.Uint64(b[8:])), int(binary.LittleEndian.Uint64(b[16:])), true
}

// facetList drops facets not selected on the command line (debugging aid).
func facetSelected(c *cfg, f *Facet) bool {
	if c.facets == "" {
		return true
	}
	for _, n := range strings.Split(c.facets, ",") {
		if n == f.Name {
			return true
		}
	}
	return false
}

func workerMain(c *cfg, p *Prop, shard, shards int, out, journalPath string) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(300)
	jf, err := os.Create(journalPath)
	if err != nil {
		fatal(err)
	}
	j := &journal{jf}
	go monitor(20, 240)
	res := &workerResult{Facets: map[string]*facetResult{}}
	for fi := range p.Facets {
		f := &p.Facets[fi]
		if !facetSelected(c, f) {
			continue
		}
		fr := &facetResult{Labels: map[string]int{}}
		res.Facets[f.Name] = fr
		start := time.Now()
		total := f.cases(c)
		bs := f.batch()
		seen := map[uint64]bool{}
		failed := false
		for b := 0; b*bs < total && !failed; b++ {
			if b%shards != shard {
				continue
			}
			env := &Env{}
			for i := b * bs; i < (b+1)*bs && i < total; i++ {
				j.put(fi, b*bs, i)
				t := newT(c.seed, p, f, i, c.thorough())
				t.env = env
				o := runCase(f, t)
				for k, v := range t.labels {
					fr.Labels[k] += v
				}
				if o.kind == "discard" {
					fr.Discards++
					continue
				}
				fr.Evals++
				if o.kind == "fail" {
					res.Failures = append(res.Failures, explain(c, p, f, t, o, b*bs, j, fi))
					failed = true
					break
				}
				if t.nontrivial {
					fr.NontrivN++
					h := fnv.New64a()
					for _, s := range t.sig {
						io.WriteString(h, s)
						h.Write([]byte{0})
					}
					if v := h.Sum64(); !seen[v] {
						seen[v] = true
						fr.Nontriv = append(fr.Nontriv, v)
						if len(fr.Samples) < 3 && (len(seen) == 1 || len(seen)%37 == 0) {
							s := t.Text()
							if len(s) > 600 {
								s = s[:600] + "..."
							}
							fr.Samples = append(fr.Samples, s)
						}
					}
				}
			}
		}
		fr.MS = time.Since(start).Milliseconds()
	}
	b, err := json.Marshal(res)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fatal(err)
	}
}

func replayT(p *Prop, f *Facet, idx int, thorough bool, choices []uint64, env *Env) *T {
	return &T{isRep: true, replay: choices, Index: idx, Thorough: thorough, env: env}
}

// explain confirms a failure in a fresh interpreter and shrinks it.
func explain(c *cfg, p *Prop, f *Facet, t *T, o outcome, batchStart int, j *journal, fi int) Failure {
	fl := Failure{Property: p.ID, Facet: f.Name, Tier: c.tier, Seed: c.seed, Index: t.Index, BatchStart: batchStart,
		Choices: t.Choices, Message: o.msg, Case: t.Text()}
	solo := replayT(p, f, t.Index, c.thorough(), t.Choices, &Env{})
	j.put(fi, t.Index, t.Index)
	so := runCase(f, solo)
	if so.kind != "fail" {
		fl.History = true
		return fl
	}
	fl.Original = fl.Case
	deadline := time.Now().Add(20 * time.Second)
	best := append([]uint64(nil), solo.Choices...)
	bestMsg, bestText := so.msg, solo.Text()
	tries := 0
	var shared *Env
	try := func(ch []uint64) bool {
		if tries >= 4000 || time.Now().After(deadline) {
			return false
		}
		tries++
		caseSerial.Add(1)
		// Most candidates pass: they share an interpreter, and only those
		// that fail are confirmed in a fresh one.
		if shared == nil || tries%40 == 0 {
			shared = &Env{}
		}
		tt := replayT(p, f, t.Index, c.thorough(), ch, shared)
		if oo := runCase(f, tt); oo.kind != "fail" {
			return false
		}
		shared = nil
		if !less(tt.Choices, best) {
			return false
		}
		caseSerial.Add(1)
		tt = replayT(p, f, t.Index, c.thorough(), ch, &Env{})
		oo := runCase(f, tt)
		if oo.kind != "fail" {
			return false
		}
		if less(tt.Choices, best) {
			best, bestMsg, bestText = tt.Choices, oo.msg, tt.Text()
			return true
		}
		return false
	}
	shrink(&best, try)
	fl.Choices, fl.Message, fl.Case = best, bestMsg, bestText
	return fl
}

func less(a, b []uint64) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

func shrink(best *[]uint64, try func([]uint64) bool) {
	for improved := true; improved; {
		improved = false
		for size := len(*best) / 2; size >= 1; size /= 2 {
			for i := 0; i+size <= len(*best); {
				ch := append(append([]uint64(nil), (*best)[:i]...), (*best)[i+size:]...)
				if try(ch) {
					improved = true
				} else {
					i += size
				}
			}
		}
		for i := 0; i < len(*best); i++ {
			if (*best)[i] == 0 {
				continue
			}
			ch := append([]uint64(nil), *best...)
			ch[i] = 0
			if try(ch) {
				improved = true
				continue
			}
			lo, hi := uint64(0), (*best)[i]
			for lo+1 < hi && i < len(*best) {
				mid := lo + (hi-lo)/2
				ch := append([]uint64(nil), *best...)
				ch[i] = mid
				if try(ch) {
					improved = true
					if i >= len(*best) {
						break
					}
					hi = (*best)[i]
				} else {
					lo = mid
				}
			}
		}
	}
}

// soloMain runs one case (or a batch prefix) for a replay or a confirmation.
func soloMain(c *cfg, p *Prop, replayFile string) {
	debug.SetMaxStack(256 << 20)
	go monitor(30, 240)
	b, err := os.ReadFile(replayFile)
	if err != nil {
		fatal(err)
	}
	var fl Failure
	if err := json.Unmarshal(b, &fl); err != nil {
		fatal(err)
	}
	c.tier, c.seed = fl.Tier, fl.Seed
	for i := range p.Facets {
		f := &p.Facets[i]
		if f.Name != fl.Facet {
			continue
		}
		caseSerial.Add(1)
		var t *T
		var o outcome
		withDump := func(t *T) *T {
			if d := os.Getenv("VPBT_DUMP"); d != "" {
				t.dump, _ = os.Create(filepath.Join(d, "choices"))
				t.dumpText, _ = os.Create(filepath.Join(d, "text"))
			}
			return t
		}
		if fl.History {
			env := &Env{}
			for k := fl.BatchStart; k <= fl.Index; k++ {
				caseSerial.Add(1)
				t = newT(fl.Seed, p, f, k, c.thorough())
				t.env = env
				if d := os.Getenv("VPBT_DUMP"); d != "" && k == fl.Index {
					t.dumpText, _ = os.Create(filepath.Join(d, "text"))
				}
				o = runCase(f, t)
			}
		} else if len(fl.Choices) > 0 {
			t = withDump(replayT(p, f, fl.Index, c.thorough(), fl.Choices, &Env{}))
			o = runCase(f, t)
		} else {
			t = withDump(newT(fl.Seed, p, f, fl.Index, c.thorough()))
			o = runCase(f, t)
		}
		if o.kind == "fail" {
			fmt.Fprintf(os.Stderr, "FAIL\n%s\n--\n%s\n", t.Text(), o.msg)
			os.Exit(1)
		}
		fmt.Fprintf(os.Stderr, "%s\n%s\n", o.kind, t.Text())
		os.Exit(0)
	}
	fatal(fmt.Errorf("no facet %q", fl.Facet))
}

func fatal(err error) {
	fmt.Fprintln(os.Stderr, "harness error:", err)
	os.Exit(3)
}

func tail(path string, n int) string {
	b, _ := os.ReadFile(path)
	// Keep the head (the panic message) as well as the tail.
	if len(b) > n {
		b = append(append([]byte(nil), b[:n/2]...), b[len(b)-n/2:]...)
	}
	return string(b)
}

func self(args []string, dir, name string) (*exec.Cmd, string) {
	cmd := exec.Command(os.Args[0], args...)
	errPath := filepath.Join(dir, name+".stderr")
	ef, err := os.Create(errPath)
	if err != nil {
		fatal(err)
	}
	cmd.Stderr = ef
	cmd.Stdout = nil
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
	return cmd, errPath
}

func (c *cfg) args() []string {
	return []string{"-prop", c.prop, "-tier", c.tier, "-seed", strconv.FormatInt(c.seed, 10), "-known", c.knownFile, "-facets", c.facets}
}

// died runs a candidate in a subprocess; it reports whether that process died
// (or failed) and what it wrote.
func died(c *cfg, dir string, fl *Failure) (bool, string) {
	b, _ := json.Marshal(fl)
	rp := filepath.Join(dir, "solo.json")
	if err := os.WriteFile(rp, b, 0o644); err != nil {
		fatal(err)
	}
	cmd, ep := self(append([]string{"-mode", "solo", "-replay", rp}, c.args()...), dir, "solo")
	cmd.Env = append(cmd.Env, "VPBT_DUMP="+dir)
	err := cmd.Run()
	if err == nil {
		return false, ""
	}
	if ee, ok := err.(*exec.ExitError); ok {
		if ee.ExitCode() == 3 || ee.ExitCode() == -1 {
			return false, tail(ep, 2000)
		}
		return true, tail(ep, 2000)
	}
	return false, ""
}

func runMain(c *cfg, p *Prop) int {
	start := time.Now()
	dir, err := os.MkdirTemp("", "vpbt")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(dir)
	ks, err := loadKnown(c.knownFile)
	if err != nil {
		fatal(err)
	}
	var fails []Failure
	results := make([]*workerResult, c.workers)
	var mu sync.Mutex
	var wg sync.WaitGroup
	infra := ""
	for w := 0; w < c.workers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			for attempt := 0; attempt < 2; attempt++ {
				out := filepath.Join(dir, fmt.Sprintf("out%d.json", w))
				jp := filepath.Join(dir, fmt.Sprintf("j%d", w))
				cmd, ep := self(append([]string{"-mode", "worker", "-shard", fmt.Sprintf("%d/%d", w, c.workers), "-out", out, "-journal", jp}, c.args()...), dir, fmt.Sprintf("w%d", w))
				err := cmd.Run()
				if err == nil {
					b, e := os.ReadFile(out)
					r := &workerResult{}
					if e == nil {
						e = json.Unmarshal(b, r)
					}
					if e != nil {
						mu.Lock()
						infra = e.Error()
						mu.Unlock()
						return
					}
					mu.Lock()
					results[w] = r
					fails = append(fails, r.Failures...)
					mu.Unlock()
					return
				}
				msg := tail(ep, 3000)
				fi, bst, idx, ok := readJournal(jp)
				code := -1
				if ee, isE := err.(*exec.ExitError); isE {
					code = ee.ExitCode()
				}
				mu.Lock()
				if code == 3 || !ok || fi >= len(p.Facets) {
					infra = fmt.Sprintf("worker %d: %v\n%s", w, err, msg)
					mu.Unlock()
					return
				}
				// The process died inside a case: confirm alone, then with its history.
				fl := Failure{Property: p.ID, Facet: p.Facets[fi].Name, Tier: c.tier, Seed: c.seed, Index: idx, BatchStart: bst, Died: true}
				d, m := died(c, dir, &fl)
				if !d && bst != idx {
					fl.History = true
					d, m = died(c, dir, &fl)
				}
				if d {
					fl.Message = "the process died:\n" + m
					fl.Case = m
					if !fl.History {
						shrinkDied(c, dir, p, &fl)
					} else if tx, err := os.ReadFile(filepath.Join(dir, "text")); err == nil {
						fl.Case = string(tx)
					}
					fails = append(fails, fl)
					mu.Unlock()
					return
				}
				if code == 66 { // data race reported by the race detector
					fl.History = true
					fl.Message = "data race:\n" + msg
					fl.Case = msg
					fails = append(fails, fl)
					mu.Unlock()
					return
				}
				if attempt == 1 {
					infra = fmt.Sprintf("worker %d died twice without a reproducible case: %v\n%s", w, err, msg)
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()

	// Known findings.
	for _, k := range ks {
		if k.Property != p.ID || k.Status != "known" {
			continue
		}
		fn := p.Known[k.Key]
		if fn == nil {
			continue
		}
		cmd, _ := self(append([]string{"-mode", "known", "-key", k.Key}, c.args()...), dir, "known")
		if err := cmd.Run(); err != nil {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k.Key, k.What)
		}
	}

	// Merge.
	total := map[string]*facetResult{}
	evals, nontriv, discards := 0, 0, 0
	var samples []interface{}
	perFacet := map[string]interface{}{}
	for fi := range p.Facets {
		f := &p.Facets[fi]
		m := &facetResult{Labels: map[string]int{}}
		set := map[uint64]bool{}
		for _, r := range results {
			if r == nil || r.Facets[f.Name] == nil {
				continue
			}
			fr := r.Facets[f.Name]
			m.Evals += fr.Evals
			m.Discards += fr.Discards
			m.NontrivN += fr.NontrivN
			if fr.MS > m.MS {
				m.MS = fr.MS
			}
			for k, v := range fr.Labels {
				m.Labels[k] += v
			}
			for _, h := range fr.Nontriv {
				set[h] = true
			}
			m.Samples = append(m.Samples, fr.Samples...)
		}
		total[f.Name] = m
		evals += m.Evals
		discards += m.Discards
		nontriv += len(set)
		if len(m.Samples) > 2 {
			m.Samples = m.Samples[:2]
		}
		for _, s := range m.Samples {
			samples = append(samples, map[string]string{"facet": f.Name, "case": s})
		}
		perFacet[f.Name] = map[string]interface{}{"evaluations": m.Evals, "nontrivial": m.NontrivN, "distinct_nontrivial": len(set),
			"discarded": m.Discards, "classes": m.Labels, "slowest_worker_ms": m.MS}
	}
	sort.Slice(fails, func(a, b int) bool {
		if fails[a].Facet != fails[b].Facet {
			return fails[a].Facet < fails[b].Facet
		}
		return len(fails[a].Choices) < len(fails[b].Choices)
	})
	byFacet := map[string]bool{}
	nviol := 0
	os.MkdirAll(c.replays, 0o755)
	for _, fl := range fails {
		if byFacet[fl.Facet] {
			continue
		}
		byFacet[fl.Facet] = true
		nviol++
		b, _ := json.MarshalIndent(fl, "", " ")
		rp := filepath.Join(c.replays, fmt.Sprintf("%s-%s-%d.json", p.ID, fl.Facet, fl.Index))
		if err := os.WriteFile(rp, b, 0o644); err != nil {
			fatal(err)
		}
		fmt.Printf("--- %s/%s case %d\n%s\n>>> %s\n", p.ID, fl.Facet, fl.Index, clip(fl.Case, 3000), clip(fl.Message, 3000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
	}
	if len(samples) == 0 {
		samples = append(samples, "none")
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": c.tier, "seed": c.seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": evals, "distinct_nontrivial": nontriv, "rule": p.Rule, "samples": samples,
			"discarded": discards, "facets": perFacet,
		},
		"wall_s": time.Since(start).Seconds(), "violations": nviol,
	}
	var buf bytes.Buffer
	enc := json.NewEncoder(&buf)
	enc.SetIndent("", " ")
	if err := enc.Encode(ev); err != nil {
		fatal(err)
	}
	if c.facets == "" {
		os.MkdirAll(filepath.Dir(c.evidence), 0o755)
		if err := os.WriteFile(c.evidence, buf.Bytes(), 0o644); err != nil {
			fatal(err)
		}
	}
	fmt.Printf("%s %s seed=%d: %d cases, %d distinct non-trivial, %d discarded, %d violations, %.1fs\n", p.ID, c.tier, c.seed, evals, nontriv, discards, nviol, time.Since(start).Seconds())
	if os.Getenv("VERBOSE") != "" {
		for _, f := range p.Facets {
			b, _ := json.Marshal(perFacet[f.Name])
			fmt.Printf("  %-14s %s\n", f.Name, b)
		}
	}
	if nviol > 0 {
		return 1
	}
	if infra != "" {
		fmt.Fprintln(os.Stderr, "check could not complete:", infra)
		return 2
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

// shrinkDied shrinks a case that kills the process: every candidate runs in a
// process of its own, which writes its choices out as it makes them.
func shrinkDied(c *cfg, dir string, p *Prop, fl *Failure) {
	read := func() ([]uint64, string) {
		b, _ := os.ReadFile(filepath.Join(dir, "choices"))
		var ch []uint64
		for ; len(b) >= 8; b = b[8:] {
			ch = append(ch, binary.LittleEndian.Uint64(b))
		}
		tx, _ := os.ReadFile(filepath.Join(dir, "text"))
		return ch, string(tx)
	}
	best, text := read()
	fl.Choices, fl.Case, fl.Original = best, text, text
	if len(best) == 0 || strings.Contains(fl.Message, "case gave no answer") {
		return
	}
	deadline := time.Now().Add(25 * time.Second)
	tries := 0
	shrink(&best, func(ch []uint64) bool {
		if tries >= 200 || time.Now().After(deadline) || len(ch) == 0 {
			return false
		}
		tries++
		cand := *fl
		cand.Choices = ch
		d, m := died(c, dir, &cand)
		if !d {
			return false
		}
		got, tx := read()
		if len(got) == 0 || !less(got, best) {
			return false
		}
		best = got
		fl.Choices, fl.Case = got, tx
		fl.Message = "the process died:\n" + m
		return true
	})
}

// Main is the entry point of the harness binary.
func Main() {
	var c cfg
	var mode, shard, out, jp, replay, key string
	flag.StringVar(&c.prop, "prop", "", "property id")
	flag.StringVar(&c.tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&c.seed, "seed", 1, "seed")
	flag.StringVar(&c.knownFile, "known", "known-findings.json", "")
	flag.StringVar(&c.evidence, "evidence", "", "")
	flag.StringVar(&c.replays, "replays", "replays", "")
	flag.StringVar(&c.facets, "facets", "", "comma separated facets (debugging)")
	flag.IntVar(&c.workers, "workers", 8, "")
	flag.StringVar(&mode, "mode", "run", "")
	flag.StringVar(&shard, "shard", "0/1", "")
	flag.StringVar(&out, "out", "", "")
	flag.StringVar(&jp, "journal", "", "")
	flag.StringVar(&replay, "replay", "", "")
	flag.StringVar(&key, "key", "", "")
	flag.Parse()
	if mode == "list" {
		var ids []string
		for id := range registry {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id, registry[id].Title)
		}
		return
	}
	p := registry[c.prop]
	if p == nil {
		fatal(fmt.Errorf("unknown property %q", c.prop))
	}
	if c.evidence == "" {
		c.evidence = "evidence/" + c.prop + ".json"
	}
	if mode != "run" {
		ks, err := loadKnown(c.knownFile)
		if err != nil {
			fatal(err)
		}
		for _, k := range ks {
			if k.Status == "known" {
				activeKnown[k.Key] = true
			}
		}
	}
	switch mode {
	case "run":
		if replay != "" {
			dir, err := os.MkdirTemp("", "vpbt")
			if err != nil {
				fatal(err)
			}
			cmd := exec.Command(os.Args[0], append([]string{"-mode", "solo", "-replay", replay}, c.args()...)...)
			cmd.Stderr = os.Stdout
			err = cmd.Run()
			os.RemoveAll(dir)
			if err != nil {
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
				os.Exit(1)
			}
			return
		}
		os.Exit(runMain(&c, p))
	case "worker":
		var s, n int
		fmt.Sscanf(shard, "%d/%d", &s, &n)
		workerMain(&c, p, s, n, out, jp)
	case "solo":
		soloMain(&c, p, replay)
	case "known":
		debug.SetMaxStack(256 << 20)
		go monitor(20, 120)
		fn := p.Known[key]
		t := &T{isRep: true, env: &Env{}}
		f := Facet{Name: "known", Run: fn}
		if o := runCase(&f, t); o.kind == "fail" {
			os.Exit(1)
		}
	}
}
