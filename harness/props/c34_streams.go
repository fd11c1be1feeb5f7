package props

import (
	"fmt"
	"os"
	"strings"
	"sync"

	"github.com/corywalker/expreduce/expreduce"
	"github.com/corywalker/expreduce/expreduce/streammanager"

	"verif/harness/pbt"
)

// sink is a file standing for standard output or standard error.
type sink struct{ f *os.File }

func newSink() *sink {
	f, err := os.CreateTemp("", "verif-stream")
	if err != nil {
		panic(err)
	}
	os.Remove(f.Name())
	return &sink{f}
}

func (s *sink) clear() {
	s.f.Truncate(0)
	s.f.Seek(0, 0)
}

func (s *sink) text() string {
	st, _ := s.f.Stat()
	b := make([]byte, st.Size())
	s.f.ReadAt(b, 0)
	return string(b)
}

// withStd runs f while standard output and error are other files.
func withStd(out, err *os.File, f func()) {
	o, e := os.Stdout, os.Stderr
	os.Stdout, os.Stderr = out, err
	defer func() { os.Stdout, os.Stderr = o, e }()
	f()
}

var sinks struct {
	sync.Once
	s      []*sink
	broken *os.File
}

func getSinks() []*sink {
	sinks.Do(func() {
		for i := 0; i < 6; i++ {
			sinks.s = append(sinks.s, newSink())
		}
		sinks.broken, _ = os.Open("/dev/null")
	})
	for _, s := range sinks.s {
		s.clear()
	}
	return sinks.s
}

// genText draws text to be written: short, multi-line, with control characters
// and other bytes, or long.
func genText(t *T) string {
	switch t.W(4, 2, 2, 1, 1) {
	case 0:
		return pbt.Of(t, "a", "b", "hello", "x = 1", "\n", "", " ", "stderr", "%d%s%n", "\"q\"", "\\n")
	case 1:
		var b strings.Builder
		for n := t.Int(1, 6); n > 0; n-- {
			b.WriteString(pbt.Of(t, "line", "\n", "\r\n", "\t", "%v", "\x00", "\x1b[0m", "é", "∑", "\U0001F600", "\xff"))
		}
		return b.String()
	case 2:
		b := make([]byte, t.Int(1, 12))
		for i := range b {
			b[i] = byte(t.N(256))
		}
		return string(b)
	case 3:
		return strings.Repeat(pbt.Of(t, "0123456789abcdef", "é\n", "x"), t.Int(1, 300))
	}
	return strings.Repeat(pbt.Of(t, "0123456789abcdef", "é\n", "x"), pbt.Of(t, 255, 4096, 65536, 70001))
}

func clip(s string) string {
	if len(s) > 120 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// refTarget says which stream a name and an index mean (0 standard output,
// 1 standard error, -1 none).
func refTarget(name string, index int64) int {
	switch {
	case name == "stdout" && (index == 1 || index == -1):
		return 0
	case name == "stderr" && (index == 2 || index == -1):
		return 1
	}
	return -1
}

var streamNames = []string{"stdout", "stderr", "stdin", "", "Stdout", "out", "stdout ", "stderr2", "file.txt"}

func genStreamName(t *T) string {
	if t.P(3, 4) {
		return pbt.Of(t, "stdout", "stderr")
	}
	return pbt.Pick(t, streamNames)
}

func genStreamIndex(t *T) int64 {
	if t.P(3, 4) {
		return pbt.Of(t, int64(-1), 1, 2)
	}
	return pbt.Of(t, int64(0), 3, -2, 1<<32+1, 1<<62, -(1 << 62), 257, 258, 65537)
}

func init() {
	wantList := func() *X {
		return xl(xE("OutputStream", xs("stdout"), xi(1)), xE("OutputStream", xs("stderr"), xi(2)))
	}
	check := func(t *T, s []*sink, want []string) {
		for i := range want {
			if got := s[i].text(); got != want[i] {
				t.Failf("stream %d received %s, not %s", i, clip(got), clip(want[i]))
			}
		}
	}
	pbt.Register(&pbt.Prop{
		ID: "C34", Title: "streams",
		Rule: "managers: sequences of writes through the stream managers of up to three pairs of outputs, non-trivial when something was written to both outputs of one of them; session: WriteString calls in an interpreter, likewise",
		Facets: []pbt.Facet{
			{Name: "managers", Quick: 20000, Thorough: 400000, Batch: 1000, Run: func(t *T) {
				s := getSinks()
				n := t.Int(1, 3)
				want := make([]string, 2*n)
				type manager interface {
					WriteString(string, int64, string) bool
				}
				var ms []manager
				var list []func() *X
				for i := 0; i < n; i++ {
					withStd(s[2*i].f, s[2*i+1].f, func() {
						m := streammanager.NewStreamManager()
						ms = append(ms, m)
						list = append(list, func() *X { return from(m.AsExpr()) })
					})
				}
				for k := t.Int(1, 10); k > 0; k-- {
					i := int(t.N(uint64(n)))
					if t.P(1, 8) {
						t.Case("%d: list", i)
						if got := list[i](); !xeq(got, wantList()) {
							t.Failf("streams of %d are listed as %v", i, got)
						}
						continue
					}
					name, index, text := genStreamName(t), genStreamIndex(t), genText(t)
					t.Case("%d: WriteString(%q, %d, %s)", i, name, index, clip(text))
					var ok bool
					// What standard output is now must not matter.
					withStd(s[2*n-1].f, s[2*n-2].f, func() { ok = ms[i].WriteString(name, index, text) })
					to := refTarget(name, index)
					if ok != (to >= 0) {
						t.Failf("success was reported as %v", ok)
					}
					if to >= 0 {
						want[2*i+to] += text
					}
					check(t, s, want)
					t.NontrivialIf(want[2*i] != "" && want[2*i+1] != "")
				}
				if t.P(1, 10) {
					// A stream that cannot be written to.
					withStd(sinks.broken, s[0].f, func() { ms[0] = streammanager.NewStreamManager() })
					t.Case("output that cannot be written")
					if ms[0].WriteString("stdout", 1, "text") {
						t.Failf("a failed write was reported as done")
					}
					check(t, s, want)
				}
			}},
			{Name: "session", Quick: 4000, Thorough: 80000, Batch: 200, Run: func(t *T) {
				s := getSinks()
				es := streamSession(s)
				want := make([]string, 2)
				for k := t.Int(1, 8); k > 0; k-- {
					if t.P(1, 8) {
						t.Case("Streams[]")
						if got := run(es, "Streams[]"); !xeq(got, wantList()) {
							t.Failf("gave %v", got)
						}
						continue
					}
					name, index, text := genStreamName(t), genStreamIndex(t), genText(t)
					var stream *X
					if index == -1 {
						stream = xs(name)
					} else {
						stream = xE("OutputStream", xs(name), xi(index))
					}
					x := xE("WriteString", stream, xs(text))
					bad := false
					switch t.W(8, 1, 1, 1, 1) {
					case 1: // text that must be evaluated first
						x = xE("WriteString", stream, xE("StringJoin", xs(text), xs("!")))
						text += "!"
					case 2:
						x, bad = xE("WriteString", pbt.Of(t, glo("stdout"), xi(1), xE("OutputStream", xs("stdout"), glo("u")), xE("OutputStream", xs("stdout")), xG("stdout", xi(1)), xE("OutputStream", xs("stdout"), xI(bigPow(64, 1)))), xs(text)), true
					case 3:
						x, bad = xE("WriteString", stream, pbt.Of(t, xi(3), glo("u"), xl(xs("a")))), true
					case 4:
						x = xE("CompoundExpression", xE("If", sys("True"), x), xi(5))
					}
					t.Case("%s", clip(x.String()))
					var got *X
					withStd(s[5].f, s[4].f, func() { got = ev(es, x) })
					if to := refTarget(name, index); to >= 0 && !bad {
						want[to] += text
					}
					if bad && !xeq(got, x) {
						t.Failf("gave %v", got)
					}
					check(t, s, want)
					t.NontrivialIf(want[0] != "" && want[1] != "")
				}
			}},
		},
	})
}

var sessionWithSinks ES

func streamSession(s []*sink) ES {
	if sessionWithSinks == nil {
		withStd(s[0].f, s[1].f, func() { sessionWithSinks = expreduce.NewEvalState() })
		s[0].clear()
		s[1].clear()
	}
	return sessionWithSinks
}
