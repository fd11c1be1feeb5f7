// Package pbt is a small property-based testing engine: generated cases are a
// pure function of a recorded sequence of bounded choices, so any failing case
// can be replayed and shrunk by editing that sequence.
package pbt

import (
	"encoding/binary"
	"fmt"
	"hash/fnv"
	"math/big"
	"os"
	"strings"

	"github.com/corywalker/expreduce/expreduce"
)

// T is the handle a property body draws its random choices from.
type T struct {
	rng     uint64
	replay  []uint64
	isRep   bool
	pos     int
	Choices []uint64

	Index    int // index of the case inside its facet
	Thorough bool

	env        *Env
	lines      []string
	sig        []string
	nontrivial bool
	labels     map[string]int
	known      string
	dump       *os.File // solo runs: choices and case text survive the death of the process
	dumpText   *os.File
}

type failure struct{ msg string }
type discard struct{}

func splitmix(x *uint64) uint64 {
	*x += 0x9e3779b97f4a7c15
	z := *x
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func seedFor(seed int64, prop, facet string, index int) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d|%s|%s|%d", seed, prop, facet, index)
	s := h.Sum64()
	splitmix(&s)
	return s
}

const maxChoices = 60000

// N draws a number in [0, n). 0 is the simplest choice.
func (t *T) N(n uint64) uint64 {
	if n == 0 {
		panic("pbt: N(0)")
	}
	var v uint64
	if t.isRep {
		if t.pos < len(t.replay) {
			v = t.replay[t.pos]
			if v >= n {
				v = n - 1
			}
		}
	} else {
		v = splitmix(&t.rng) % n
	}
	t.pos++
	if t.pos > maxChoices {
		panic(discard{})
	}
	t.Choices = append(t.Choices, v)
	if t.dump != nil {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], v)
		t.dump.Write(b[:])
	}
	return v
}

// Int draws from [lo, hi]; simplest is lo.
func (t *T) Int(lo, hi int) int { return lo + int(t.N(uint64(hi-lo+1))) }

// Near draws from [-r, r] with 0 the simplest.
func (t *T) Near(r int) int {
	v := int(t.N(uint64(2*r + 1)))
	if v%2 == 1 {
		return (v + 1) / 2
	}
	return -v / 2
}

// Bool draws a boolean; simplest is false.
func (t *T) Bool() bool { return t.N(2) == 1 }

// P is true with probability num/den; simplest is false.
func (t *T) P(num, den int) bool { return t.N(uint64(den)) >= uint64(den-num) }

// W picks an index with the given weights; simplest is index 0.
func (t *T) W(ws ...int) int {
	tot := 0
	for _, w := range ws {
		tot += w
	}
	v := int(t.N(uint64(tot)))
	for i, w := range ws {
		if v < w {
			return i
		}
		v -= w
	}
	return len(ws) - 1
}

// Pick chooses one element.
func Pick[S any](t *T, xs []S) S { return xs[t.N(uint64(len(xs)))] }

// Of chooses one of its arguments.
func Of[S any](t *T, xs ...S) S { return xs[t.N(uint64(len(xs)))] }

// Perm draws a permutation of n (identity is simplest).
func (t *T) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := 0; i+1 < n; i++ {
		j := i + int(t.N(uint64(n-i)))
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// Big draws an integer of up to bits bits (either sign), biased to edges.
func (t *T) Big(bits int) *big.Int {
	switch t.W(5, 3, 2, 2) {
	case 0:
		return big.NewInt(int64(t.Near(9)))
	case 1:
		return big.NewInt(int64(t.Near(1<<min(bits, 11) - 1)))
	case 2: // around a power of two
		e := t.Int(1, bits)
		v := new(big.Int).Lsh(big.NewInt(1), uint(e))
		v.Add(v, big.NewInt(int64(t.Near(2))))
		if t.Bool() {
			v.Neg(v)
		}
		return v
	default:
		n := t.Int(1, bits)
		v := new(big.Int)
		for i := 0; i < (n+31)/32; i++ {
			v.Lsh(v, 32)
			v.Or(v, new(big.Int).SetUint64(t.N(1<<32)))
		}
		v.And(v, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(n)), big.NewInt(1)))
		if t.Bool() {
			v.Neg(v)
		}
		return v
	}
}

func (t *T) line(s string) {
	if len(t.lines) < 400 {
		t.lines = append(t.lines, s)
	}
	if t.dumpText != nil {
		fmt.Fprintln(t.dumpText, s)
	}
}

// Logf records one line of the readable form of the case.
func (t *T) Logf(f string, a ...interface{}) {
	t.line(fmt.Sprintf(f, a...))
}

// Case records a readable line that also counts towards the identity of the
// case (used to count distinct cases).
func (t *T) Case(f string, a ...interface{}) {
	s := fmt.Sprintf(f, a...)
	t.sig = append(t.sig, s)
	t.line(s)
}

// Nontrivial marks the case as non-trivial by the facet's rule.
func (t *T) Nontrivial() { t.nontrivial = true }

// NontrivialIf marks the case non-trivial when c holds.
func (t *T) NontrivialIf(c bool) {
	if c {
		t.nontrivial = true
	}
}

// Label counts a class of cases for the evidence file.
func (t *T) Label(l string) {
	if t.labels == nil {
		t.labels = map[string]int{}
	}
	t.labels[l]++
}

// Failf reports that the property is violated by this case.
func (t *T) Failf(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

// Discard abandons a case that is outside the property's domain.
func (t *T) Discard() { panic(discard{}) }

// Fixed marks this as one of the known-finding replays.
func (t *T) Known(key string) { t.known = key }

// Text returns the readable case.
func (t *T) Text() string { return strings.Join(t.lines, "\n") }

// Env supplies interpreters to the cases of one batch.
type Env struct {
	es  *expreduce.EvalState
	raw *expreduce.EvalState
}

// NewES builds a fully loaded interpreter without the signal handler goroutine
// that NewEvalState starts for each one.
func NewES() *expreduce.EvalState {
	es := &expreduce.EvalState{}
	es.Init(true)
	es.SetUpLogging()
	es.DebugOff()
	return es
}

// NewRawES builds an interpreter without builtin definitions.
func NewRawES() *expreduce.EvalState {
	es := &expreduce.EvalState{}
	es.NoInit = true
	es.Init(false)
	es.SetUpLogging()
	es.DebugOff()
	return es
}

// ES returns the batch's interpreter (or the case's own, in Fresh facets).
func (t *T) ES() *expreduce.EvalState {
	if t.env.es == nil {
		t.env.es = NewES()
	}
	return t.env.es
}

// DropES makes the next ES call build a new interpreter.
func (t *T) DropES() { t.env.es = nil }
